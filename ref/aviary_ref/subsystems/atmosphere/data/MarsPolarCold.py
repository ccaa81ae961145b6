DATA_ORIGIN_NOTE = """
    Data extracted from Mars-GRAM 2024, GRAM Suite 2.1 by Eliot Aretskin-Hariton (NASA GRC)

    Notes:
    Data is for the North Pole.
    The data table contains data from -8000 meters to 80,000 meters altitude.
    The altitude is referenced to the MOLA (Mars Orbiter Laser Altimeter) constant potential surface (areoid).
    Dust level = 0.3
    Year = 2000 
    F107 = 68.0
    """
from collections import namedtuple
import sys

import numpy as np

import openmdao.api as om

atm_data = namedtuple('MarsPolarCold', ['alt', 'temp', 'pres', 'rho'])
atm_data.__doc__ = """
    A namedtuple to hold data for the atmosphere model.

    Parameters
    ----------
    alt : float
        Geopotential Altitude in meters.
    temp : float
        Temperature in degK.
    pres : float
        Pressure in pascal.
    rho : float
        Density in kg/m^3.
    """

# turn off ruff formatting
# fmt: off

# _raw_data Units: (Geopotential Altitude in meters, Temp in degK, pressure in mb, density in kg/m^3)
_raw_data = np.array([
    -8000,147.52,1.62E+01,5.83E-02,
    -5000,147.52,1.02E+01,3.66E-02,
    -2000,147.52,6.40E+00,2.30E-02,
    -1955,147.52,6.36E+00,2.28E-02,
    -1945,147.69,6.35E+00,2.27E-02,
    -1000,147.35,5.48E+00,1.97E-02,
    0,146.5,4.69E+00,1.70E-02,
    1000,145.49,4.02E+00,1.46E-02,
    2000,144.48,3.44E+00,1.26E-02,
    3000,143.47,2.95E+00,1.09E-02,
    4000,142.46,2.52E+00,9.37E-03,
    5000,141.45,2.16E+00,8.08E-03,
    6000,140.65,1.85E+00,6.97E-03,
    7000,139.85,1.59E+00,6.02E-03,
    8000,139.04,1.37E+00,5.19E-03,
    9000,138.24,1.17E+00,4.48E-03,
    10000,137.43,1.01E+00,3.87E-03,
    15000,134.08,4.71E-01,1.86E-03,
    20000,132.59,2.20E-01,8.79E-04,
    25000,134.19,1.04E-01,4.11E-04,
    30000,137.22,5.06E-02,1.95E-04,
    40000,148.68,1.31E-02,4.66E-05,
    50000,153.86,3.98E-03,1.37E-05,
    60000,144.8,1.35E-03,4.93E-06,
    70000,127.74,3.27E-04,1.35E-06,
    80000,106.07,7.48E-05,3.50E-07,
])

atm_data.alt = \
    np.array([-8000., -5000., -2000., -1955., -1945., -1000.,     0.,  1000.,  2000.,  3000.,  4000.,
            5000.,  6000.,  7000.,  8000.,  9000., 10000., 15000., 20000., 25000., 30000., 40000.,
           50000., 60000., 70000., 80000.])

atm_data.akima_T = \
    np.array([[ 1.4752000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.4752000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.4752000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.4752000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.4752000000000001e+02,  0.0000000000000000e+00,  5.0873232193362162e-03, -3.3873232193363417e-04],
           [ 1.4769000000000000e+02,  1.2676780663408333e-04, -5.1574345539216945e-07,  9.1979387268365929e-13],
           [ 1.4734999999999999e+02, -8.4552312728765680e-04,  1.5104625457531238e-07, -1.5552312728764968e-10],
           [ 1.4650000000000000e+02, -1.0099999999999816e-03,  9.7578195523695395e-21, -1.9081958235744878e-23],
           [ 1.4549000000000001e+02, -1.0100000000000193e-03, -2.8189256484623116e-20,  2.8189256484623119e-23],
           [ 1.4447999999999999e+02, -1.0099999999999909e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.4347000000000000e+02, -1.0099999999999909e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.4246000000000001e+02, -1.0099999999999909e-03, -1.0480000000007476e-07,  1.0480000000004657e-10],
           [ 1.4144999999999999e+02, -9.0500000000000118e-04,  2.1000000000006345e-07, -1.0500000000004516e-10],
           [ 1.4065000000000001e+02, -8.0000000000001012e-04,  2.6129272356900656e-20, -2.7321894746634712e-23],
           [ 1.3984999999999999e+02, -8.0000000000003994e-04, -2.4999999999927207e-08,  1.4999999999965129e-11],
           [ 1.3903999999999999e+02, -8.0499999999999962e-04,  1.0666666666702308e-08, -5.6666666666857062e-12],
           [ 1.3824000000000001e+02, -8.0066666666665201e-04, -2.2331588132676024e-08,  1.2998254799325913e-11],
           [ 1.3743000000000001e+02, -8.0633507853402676e-04,  4.0792606611500137e-08, -2.7051181809389232e-12],
           [ 1.3408000000000001e+02, -6.0129287598944398e-04,  5.1439946748360754e-08,  1.8437256899055339e-12],
           [ 1.3259000000000000e+02,  5.1386018237078716e-05,  7.6919167834701602e-08, -4.6392742964235149e-12],
           [ 1.3419000000000000e+02,  4.7263212435233129e-04,  1.9552839536966837e-08,  1.4241471185133959e-12],
           [ 1.3722000000000000e+02,  7.7497155361050418e-04,  9.1472491721891169e-08, -5.4369647082941523e-12],
           [ 1.4868000000000001e+02,  9.7333197556008228e-04, -2.8442305476161995e-08, -1.7090892079846170e-12],
           [ 1.5386000000000001e+02, -1.0824089635854264e-04, -9.9116807465691913e-08,  1.9340897101546135e-12],
           [ 1.4480000000000001e+02, -1.5103501326259967e-03, -9.8833438158002932e-09, -9.6816429216002158e-13],
           [ 1.2773999999999999e+02, -1.9984662965900095e-03, -1.0656740681998190e-08, -6.1966296590008734e-13],
           [ 1.0606999999999999e+02, -2.3974999999999990e-03,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_P = \
    np.array([[ 1.6200000000000000e+03, -2.3666666666666675e-01,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.6200000000000000e+03, -2.3666666666666675e-01,  8.3111111111111215e-06,  1.3037037037037081e-09],
           [ 1.0199999999999999e+03, -1.5159999999999996e-01,  5.6865497076023460e-06,  8.7485380116958376e-10],
           [ 6.4000000000000000e+02, -9.3859649122807018e-02,  4.2496931629485243e-04, -6.9890661725186334e-06],
           [ 6.3600000000000000e+02, -9.8070987654320985e-02, -7.5057959031476498e-04,  5.5767835574686011e-05],
           [ 6.3500000000000000e+02, -9.6352228788210426e-02,  3.5735859373389907e-06,  1.0209098445541951e-09],
           [ 5.4800000000000000e+02, -8.6863057324840703e-02,  8.6210786784586551e-06, -7.5802135361788260e-10],
           [ 4.6900000000000006e+02, -7.1894964028777070e-02,  4.6470709146966830e-06,  2.4789311408027202e-10],
           [ 4.0199999999999994e+02, -6.1857142857142888e-02,  2.3142857142858728e-06,  1.5428571428570542e-09],
           [ 3.4400000000000000e+02, -5.2599999999999932e-02,  3.8249999999998567e-06, -2.2499999999994747e-10],
           [ 2.9500000000000000e+02, -4.5625000000000013e-02,  1.4318181818182078e-06,  1.1931818181818016e-09],
           [ 2.5200000000000000e+02, -3.9181818181818186e-02,  3.4469696969696985e-06, -2.6515151515152381e-10],
           [ 2.1600000000000000e+02, -3.3083333333333333e-02,  1.3888888888888875e-06,  6.9444444444444201e-10],
           [ 1.8500000000000000e+02, -2.8222222222222225e-02,  1.5873015873015782e-06,  6.3492063492064107e-10],
           [ 1.5900000000000000e+02, -2.3142857142857142e-02,  1.2857142857142824e-06, -1.4285714285714598e-10],
           [ 1.3700000000000000e+02, -2.1000000000000001e-02,  8.9196675900277478e-07,  1.0803324099722956e-10],
           [ 1.1700000000000000e+02, -1.8891966759002770e-02,  3.6445892557104598e-06, -7.5262249670769026e-10],
           [ 1.0100000000000000e+02, -1.3860655737704921e-02,  4.7298956780923947e-07,  2.8628315946348793e-11],
           [ 4.7099999999999994e+01, -6.9836363636363629e-03,  3.4187211533475105e-07,  1.0171031478504387e-11],
           [ 2.2000000000000000e+01, -2.8020878494010265e-03, -6.4221546692975339e-09,  2.0567944909900550e-11],
           [ 1.0400000000000000e+01, -1.3237135278514594e-03, -1.0702738358048942e-08,  1.2369088785668168e-11],
           [ 5.0599999999999996e+00, -5.0305925250683677e-04, -3.3793179181115781e-10,  1.3143857042494838e-12],
           [ 1.3100000000000001e+00, -1.1550217706821481e-04, -1.2817662070593467e-09,  3.7119839138808255e-13],
           [ 3.9800000000000002e-01, -2.9777983792976957e-05, -7.4080556621730230e-10,  1.0886039455149982e-13],
           [ 1.3500000000000001e-01, -1.1935976751873071e-05, -1.7973811753690056e-10,  3.5033579272420785e-14],
           [ 3.2700000000000000e-02, -5.0206653208848509e-06,  1.1433306417697021e-10,  1.3553346791151492e-14],
           [ 7.4800000000000005e-03,  1.3319999999999997e-06,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_rho = \
    np.array([[ 5.8299999999999998e-02, -8.5833333333333313e-06,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.8299999999999998e-02, -8.5833333333333313e-06,  2.8685258964150987e-11,  1.4043824701194926e-13],
           [ 3.6600000000000001e-02, -4.6193891102257892e-06,  4.7680073782944047e-11, -6.3316049395974976e-15],
           [ 2.3000000000000000e-02, -4.5042620008972557e-06,  4.2456976988487251e-09, -6.4809303701409389e-11],
           [ 2.2800000000000001e-02, -4.5158657279869350e-06, -1.7256473042285722e-06,  1.1772338770272715e-07],
           [ 2.2700000000000001e-02, -3.7117955017402308e-06,  6.5583455907922788e-10, -9.2462507984454954e-14],
           [ 1.9699999999999999e-02, -2.7199821786589418e-06, -1.2283056101241806e-10,  1.4281273967136285e-13],
           [ 1.7000000000000001e-02, -2.5372050816696902e-06,  7.4410163339378365e-11,  6.2794918330310716e-14],
           [ 1.4600000000000000e-02, -2.2000000000000018e-06,  1.8947368421052972e-10,  1.0526315789471979e-14],
           [ 1.2600000000000000e-02, -1.7894736842105262e-06,  8.4502923976608147e-11,  4.9707602339180760e-15],
           [ 1.0900000000000000e-02, -1.6055555555555559e-06,  3.4539682539682812e-11,  4.1015873015873393e-14],
           [ 9.3699999999999999e-03, -1.4134285714285710e-06,  1.3885714285714401e-10, -1.5428571428572711e-14],
           [ 8.0800000000000004e-03, -1.1820000000000005e-06,  4.7999999999998736e-11,  2.4000000000000958e-14],
           [ 6.9699999999999996e-03, -1.0140000000000002e-06,  5.9428571428572516e-11,  4.5714285714281590e-15],
           [ 6.0200000000000002e-03, -8.8142857142857075e-07,  3.7402597402597038e-11,  1.4025974025973823e-14],
           [ 5.1900000000000002e-03, -7.6454545454545542e-07,  7.2505543237250893e-11, -1.7960088691795881e-14],
           [ 4.4799999999999996e-03, -6.7341463414634169e-07,  5.8810955670054945e-11,  4.6036784762873967e-15],
           [ 3.8700000000000002e-03, -5.4198168737736993e-07,  2.8428991757129593e-11, -8.6530856331117955e-17],
           [ 1.8600000000000001e-03, -2.6418158403090808e-07,  1.0709354923838631e-11,  5.7739237646859609e-16],
           [ 8.7900000000000001e-04, -1.1378360655737707e-07,  1.7631372863194715e-13,  7.7208151656869304e-16],
           [ 4.1100000000000002e-04, -5.4114355528405624e-08, -2.4876626321401991e-13,  4.8632747377902951e-16],
           [ 1.9500000000000000e-04, -2.0127457627118649e-08, -6.9415815206698818e-15,  5.3568734423253457e-17],
           [ 4.6600000000000001e-05, -4.1956689305560075e-09, -4.9789654107540763e-14,  1.4035654716314151e-17],
           [ 1.3699999999999999e-05, -9.8076559781257770e-10, -2.6133701852684723e-14,  3.6510261633942514e-18],
           [ 4.9300000000000002e-06, -4.0813178584799698e-10, -7.2068474636052549e-15,  1.2220026048404943e-18],
           [ 1.3500000000000000e-06, -1.8566795366795371e-10,  4.2335907335907403e-15,  4.3332046332046328e-19],
           [ 3.4999999999999998e-07,  2.9000000000000023e-11,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_dT = \
    np.array([[ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  3.8184319469620128e-06, -2.5507538806211555e-07],
           [ 1.2676780663408577e-04, -1.5397747939439984e-07, -2.7555086471014170e-09,  1.9361763172922994e-12],
           [-8.4552312728765713e-04, -1.7472725516621206e-07, -1.4397610780449631e-10,  1.5422649025838454e-13],
           [-1.0099999999999810e-03, -5.1047574275560073e-20, -4.1236378651452203e-23,  5.3903196021025436e-26],
           [-1.0100000000000193e-03,  2.8189256484611795e-20,  2.7881596517518376e-23, -2.7881596517507057e-26],
           [-1.0099999999999912e-03,  3.0765996712738016e-22, -1.8163906526050065e-25,  9.0819532630221427e-29],
           [-1.0099999999999909e-03,  2.1684043449704301e-22, -5.7245874707090746e-23,  5.7029034272593710e-26],
           [-1.0099999999999909e-03,  5.6812193838096664e-20,  2.0940038095224738e-10, -1.0460038095231398e-13],
           [-9.0520000000000075e-04,  1.0499961904760960e-07,  8.1933544974730898e-12, -7.9929735450917409e-15],
           [-8.0000000000000980e-04,  9.7407407407280811e-08, -1.9022226533855060e-10,  9.2814857931239747e-14],
           [-8.0000000000003983e-04, -4.5925494761011280e-09, -3.9256502333404905e-12,  3.5181997094824799e-15],
           [-8.0499999999999897e-04, -1.8892508143346704e-09,  1.4111822684925768e-11, -7.8892385372442515e-15],
           [-8.0066666666665212e-04,  2.6666789437841135e-09, -2.1360770218616372e-11,  1.3025679407458056e-14],
           [-8.0633507853402633e-04, -9.7782327107446846e-10,  7.8041847928333010e-12,  1.1861359263297181e-16],
           [-6.0129287598944463e-04,  8.5960044104731439e-08,  2.5144671814658434e-11, -3.2459049733087584e-15],
           [ 5.1386018237078567e-05,  9.3963889253158932e-08, -1.3530177030636994e-12, -1.1798318059159614e-16],
           [ 4.7263212435233112e-04,  7.1584973678152177e-08, -3.1735270955702407e-12,  1.9002190605334694e-16],
           [ 7.7497155361050439e-04,  5.4101345676450812e-08,  3.0188268743052704e-13, -3.7284130355798359e-16],
           [ 9.7333197556008163e-04, -5.1713391642333714e-08, -9.4187748520078826e-12,  3.7743852970550086e-16],
           [-1.0824089635854274e-04, -1.2685732977084107e-07, -9.8229295248161593e-12,  8.4875701392257235e-16],
           [-1.5103501326259969e-03, -6.8688816090392545e-08,  3.1637288647759847e-12, -1.1760088953768517e-16],
           [-1.9984662965900090e-03, -4.0694505656178404e-08, -2.8718523973423684e-13,  3.6629877125217238e-17],
           [-2.3974999999999995e-03, -3.5449247313297964e-08,  0.0000000000000000e+00,  0.0000000000000000e+00]])
