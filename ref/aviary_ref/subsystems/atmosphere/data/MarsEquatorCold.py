DATA_ORIGIN_NOTE = """
    Data extracted from Mars-GRAM 2024, GRAM Suite 2.1 by Eliot Aretskin-Hariton (NASA GRC)

    Notes:
    The data table contains data from -8000 meters to 80,000 meters altitude.
    The altitude is referenced to the MOLA (Mars Orbiter Laser Altimeter) constant potential surface (areoid).
    Dust level = 0.3
    Year = 2000 
    F107 = 68.0
    """
from collections import namedtuple
import sys

import numpy as np

import openmdao.api as om

atm_data = namedtuple('MarsEquatorCold', ['alt', 'temp', 'pres', 'rho'])
atm_data.__doc__ = """
    A namedtuple to hold data for the atmosphere model.

    Parameters
    ----------
    alt : float
        Geopotential Altitude in meters.
    temp : float
        Temperature in degK.
    pres : float
        Pressure in pascal.
    rho : float
        Density in kg/m^3.
    """

# turn off ruff formatting
# fmt: off

# _raw_data Units: (Geopotential Altitude in meters, Temp in degK, pressure in mb, density in kg/m^3)
_raw_data = np.array([
    -8000,213.93,12.046,2.98E-02,
    -5000,213.93,9.1014,2.25E-02,
    -2000,213.93,6.8767,1.70E-02,
    -1632,213.93,6.6443,1.64E-02,
    -1627,217.34,6.6412,1.62E-02,
    -1000,221.22,6.2633,1.50E-02,
    0,219.56,5.7046,1.38E-02,
    1000,217.29,5.1863,1.26E-02,
    2000,215.01,4.7151,1.16E-02,
    3000,212.73,4.2866,1.07E-02,
    4000,210.45,3.8971,9.80E-03,
    5000,208.17,3.543,9.00E-03,
    6000,205.66,3.2112,8.26E-03,
    7000,203.15,2.9104,7.58E-03,
    8000,200.64,2.6378,6.96E-03,
    9000,198.13,2.3907,6.38E-03,
    10000,195.61,2.1668,5.86E-03,
    15000,183.76,1.2698,3.66E-03,
    20000,170.49,0.71822,2.23E-03,
    25000,156.73,0.38838,1.31E-03,
    30000,148.67,0.19895,7.08E-04,
    40000,139.06,0.052781,2.01E-04,
    50000,134.67,0.014452,5.70E-05,
    60000,135.54,0.0045507,1.78E-05,
    70000,143.6,0.0015431,5.69E-06,
    80000,125.37,0.00034529,1.37E-06,
])

atm_data.alt = \
    np.array([-8000., -5000., -2000., -1632., -1627., -1000.,     0.,  1000.,  2000.,  3000.,  4000.,
            5000.,  6000.,  7000.,  8000.,  9000., 10000., 15000., 20000., 25000., 30000., 40000.,
           50000., 60000., 70000., 80000.])

atm_data.akima_T = \
    np.array([[ 2.1393000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1393000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1393000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1393000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1393000000000001e+02,  0.0000000000000000e+00,  4.0642465847258225e-01, -5.4004931694516478e-02],
           [ 2.1734000000000000e+02,  1.3876707637086864e-02, -1.2018978485150434e-05, -3.8819410359554458e-10],
           [ 2.2122000000000000e+02, -1.6529224625490219e-03,  5.9506866568327868e-07, -6.0214620313425379e-10],
           [ 2.1956000000000000e+02, -2.2692237405852246e-03,  8.4474811704190161e-09, -9.2237405852051841e-12],
           [ 2.1728999999999999e+02, -2.2800000000000012e-03, -4.3368086899420178e-22,  0.0000000000000000e+00],
           [ 2.1500999999999999e+02, -2.2800000000000012e-03, -4.3368086899420178e-22,  0.0000000000000000e+00],
           [ 2.1272999999999999e+02, -2.2800000000000012e-03, -4.3368086899420178e-22,  0.0000000000000000e+00],
           [ 2.1044999999999999e+02, -2.2800000000000012e-03,  1.1499999999999445e-07, -1.1499999999999446e-10],
           [ 2.0816999999999999e+02, -2.3949999999999961e-03, -2.2999999999998933e-07,  1.1499999999999446e-10],
           [ 2.0566000000000000e+02, -2.5099999999999910e-03,  4.3368086899420178e-22,  0.0000000000000000e+00],
           [ 2.0315000000000001e+02, -2.5099999999999910e-03, -5.8113236445223041e-20,  2.8622937353617319e-23],
           [ 2.0063999999999999e+02, -2.5100000000000192e-03,  5.8546917314217243e-20, -3.0357660829594127e-23],
           [ 1.9813000000000000e+02, -2.5099999999999927e-03, -2.5102040816299497e-08,  1.5102040816310745e-11],
           [ 1.9561000000000001e+02, -2.5148979591836603e-03,  9.2314022383135570e-08, -1.2666886109280915e-11],
           [ 1.8375999999999999e+02, -2.5417741935483715e-03, -4.0981333816604922e-08,  3.7072345052559944e-12],
           [ 1.7049000000000001e+02, -2.6735449438202216e-03, -6.1213798172849504e-08,  9.1045573873786361e-12],
           [ 1.5672999999999999e+02, -2.6028411214953206e-03,  3.0702958939235133e-07, -2.1772273018657466e-11],
           [ 1.4866999999999999e+02, -1.1654657039711172e-03,  1.2021263139168651e-08,  8.4253072579431892e-13],
           [ 1.3906000000000000e+02, -6.7228122344944801e-04,  2.4531184254756321e-08, -1.2030619098116746e-13],
           [ 1.3466999999999999e+02, -2.1774939564867172e-04,  4.8962747592491912e-08, -1.8487808027624708e-12],
           [ 1.3553999999999999e+02,  2.0687131537242554e-04,  1.7628484684188292e-07, -1.1637197837912546e-11],
           [ 1.4359999999999999e+02,  2.4140890083632069e-04, -2.8143178016726402e-07,  7.4990890083632022e-12],
           [ 1.2537000000000000e+02, -3.1374999999999988e-03,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_P = \
    np.array([[ 1.2045999999999999e+03, -1.1015166666666662e-01,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.2045999999999999e+03, -1.1015166666666662e-01,  2.5148799717700230e-06,  4.9485482422480706e-10],
           [ 9.1013999999999999e+02, -8.1701306581976718e-02,  1.5296496885218955e-06,  3.2841009441603790e-10],
           [ 6.8766999999999996e+02, -6.3656335901612279e-02,  3.4201306197535933e-08,  3.6299024389204993e-09],
           [ 6.6443000000000006e+02, -6.2156436016585714e-02, -9.1650606786966571e-06,  8.0904527986946932e-06],
           [ 6.6412000000000000e+02, -6.1641302663470558e-02,  2.2669354128414099e-06, -1.3023261264492812e-10],
           [ 6.2633000000000004e+02, -5.8952160306096874e-02,  4.2127986645264936e-06, -1.1306383584296225e-09],
           [ 5.7046000000000004e+02, -5.3918478052332755e-02,  1.8871366100805739e-06,  2.0134144225214535e-10],
           [ 5.1863000000000000e+02, -4.9540180505415192e-02,  2.5045073522938013e-06, -8.4326846878618473e-11],
           [ 4.7150999999999999e+02, -4.4784146341463431e-02,  1.7360263577027303e-06,  1.9811998376068065e-10],
           [ 4.2865999999999997e+02, -4.0717733674775942e-02,  1.2832650657019356e-06,  4.8446860907401524e-10],
           [ 3.8970999999999998e+02, -3.6697797716150032e-02,  1.3867098901314753e-06, -9.8912173981419157e-11],
           [ 3.5430000000000001e+02, -3.4221114457831318e-02,  7.1331802457350744e-07,  3.2779643325780981e-10],
           [ 3.2112000000000000e+02, -3.1811089108910888e-02,  1.9149215806537091e-06, -1.8383247174281332e-10],
           [ 2.9104000000000002e+02, -2.8532743362831892e-02,  1.1464594883095689e-06,  1.2628387452227887e-10],
           [ 2.6377999999999997e+02, -2.5860972762645928e-02,  1.4568026681490466e-06, -3.0582990550308971e-10],
           [ 2.3906999999999999e+02, -2.3864857142857122e-02,  1.8309938141265227e-06, -3.5613667126940809e-10],
           [ 2.1667999999999998e+02, -2.1271279528412314e-02,  6.4048993130009822e-07,  5.1531948764732553e-12],
           [ 1.2698000000000000e+02, -1.4479890599675841e-02,  7.4869704550193584e-07, -1.1807785113353426e-11],
           [ 7.1822000000000003e+01, -7.8785040281579982e-03,  1.4431901186156803e-07,  2.2404358754006261e-11],
           [ 3.8838000000000001e+01, -4.7549870029918468e-03,  5.0300560369279796e-08,  2.8595368045817862e-11],
           [ 1.9895000000000000e+01, -2.1073287958627081e-03,  3.3028179019913669e-08,  3.1535700566357122e-12],
           [ 5.2781000000000002e+00, -5.0069419847372095e-04, -3.2388003761329903e-09,  1.4979220223505081e-12],
           [ 1.4452000000000000e+00, -1.1609359929122830e-04, -3.0649748189249630e-09,  4.7730347480477940e-13],
           [ 4.5507000000000003e-01, -3.4202053228293757e-05, -6.0825447270181621e-10,  1.0208597955311908e-13],
           [ 1.5431000000000000e-01, -1.5741348816394342e-05, -1.5224523672113164e-10,  5.2857011836056601e-14],
           [ 3.4528999999999997e-02, -2.9291499999999993e-06,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_rho = \
    np.array([[ 2.9800000000000000e-02, -2.7333333333333340e-06,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.9800000000000000e-02, -2.7333333333333340e-06,  5.0541516245487389e-11,  1.6486161251504259e-14],
           [ 2.2499999999999999e-02, -1.9849578820697946e-06,  1.0004171447989189e-10, -1.6500066078134855e-14],
           [ 1.7000000000000001e-02, -1.8302093793000846e-06,  1.6382460546850101e-09, -2.9765769097995478e-12],
           [ 1.6400000000000001e-02, -1.8337601373499989e-06, -2.2744588987156022e-05,  3.0222682029251856e-06],
           [ 1.6199999999999999e-02, -2.6095347895212798e-06,  1.0804510124149719e-09,  4.6336969928365035e-14],
           [ 1.4999999999999999e-02, -1.1999999999999997e-06, -2.1175823681357509e-25,  0.0000000000000000e+00],
           [ 1.3800000000000000e-02, -1.1999999999999997e-06, -2.1175823681357509e-25,  0.0000000000000000e+00],
           [ 1.2600000000000000e-02, -1.1999999999999997e-06,  2.9999999999999617e-10, -9.9999999999997352e-14],
           [ 1.1599999999999999e-02, -8.9999999999999975e-07,  2.1175823681357509e-25, -2.1175823681357508e-28],
           [ 1.0699999999999999e-02, -8.9999999999999985e-07,  3.1763735522036263e-25, -2.1175823681357508e-28],
           [ 9.7999999999999997e-03, -8.9999999999999975e-07,  1.6249999999999802e-10, -6.2499999999998560e-14],
           [ 8.9999999999999993e-03, -7.6249999999999969e-07,  1.5000000000000704e-11,  7.4999999999995058e-15],
           [ 8.2600000000000000e-03, -7.0999999999999955e-07,  2.3999999999999368e-11,  6.0000000000004509e-15],
           [ 7.5799999999999999e-03, -6.4400000000000021e-07,  2.8000000000000517e-11, -4.0000000000000887e-15],
           [ 6.9600000000000000e-03, -5.9999999999999976e-07,  2.0000000000000231e-11, -2.1175823681357508e-28],
           [ 6.3800000000000003e-03, -5.6000000000000014e-07,  5.7570093457943204e-11, -1.7570093457943585e-14],
           [ 5.8599999999999998e-03, -4.9757009345794449e-07,  9.4895758447162353e-12,  4.0488856937453390e-16],
           [ 3.6600000000000001e-03, -3.7230769230769194e-07,  2.0085576923076796e-11, -5.6480769230768017e-16],
           [ 2.2300000000000002e-03, -2.1381250000000008e-07,  4.3685643564356415e-12,  3.1878712871287238e-16],
           [ 1.3100000000000000e-03, -1.4621782178217823e-07,  1.4524139981565795e-12,  7.4223007165581383e-16],
           [ 7.0799999999999997e-04, -7.6026426426426408e-08,  1.9097477447514832e-12,  6.2289489789115752e-17],
           [ 2.0100000000000001e-04, -1.9144624594662015e-08, -2.6296183890022867e-14,  5.0075864335622428e-17],
           [ 5.7000000000000003e-05, -4.6477889717757449e-09, -1.0659888030512289e-13,  1.7937777748269738e-17],
           [ 1.7799999999999999e-05, -1.3984332533972822e-09, -2.3015384871002307e-14,  4.1758710210730545e-18],
           [ 5.6899999999999997e-06, -6.0597964449541278e-10, -4.1540711009174333e-15,  2.1552035550458717e-18],
           [ 1.3700000000000000e-06, -4.2499999999999989e-11,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_dT = \
    np.array([[ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  1.6653271133124994e-03, -2.2205176156580718e-04],
           [ 1.3876707637086594e-02, -6.1098431054147735e-07, -1.1556771709576942e-07,  1.2287008297639008e-10],
           [-1.6529224625490176e-03, -6.2152299736058361e-07, -5.9481152261482213e-10,  6.0003324193919731e-13],
           [-2.2692237405852259e-03, -1.1046316772635802e-08, -1.0236144699057055e-11,  1.0506202056916638e-14],
           [-2.2800000000000021e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.2800000000000021e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.2800000000000021e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.2800000000000021e-03,  0.0000000000000000e+00, -2.2999999999998605e-10,  1.1499999999999249e-13],
           [-2.3949999999999957e-03, -1.1499999999999466e-07, -7.1940799511768796e-12,  7.1940799511757810e-15],
           [-2.5099999999999914e-03, -1.0780592004882107e-07,  2.1561184009767726e-10, -1.0780592004885490e-13],
           [-2.5099999999999901e-03, -3.1225022567565728e-20, -4.2815830076158737e-34,  4.1135456199680877e-37],
           [-2.5100000000000213e-03, -3.1225022567187968e-20,  7.2854198719140585e-22, -6.6912770813959461e-25],
           [-2.5099999999999931e-03, -5.8152417260316163e-19, -9.7055775981131600e-12,  4.8076184150283604e-15],
           [-2.5148979591836595e-03, -4.9882999517227594e-09, -1.0590186325340697e-13,  5.7024958018818853e-18],
           [-2.5417741935483732e-03, -5.6196313991156868e-09, -8.8711100274636082e-12,  9.4484125928256607e-16],
           [-2.6735449438202211e-03, -2.3467637227559334e-08,  7.0989226246633158e-12,  8.4551542768928162e-17],
           [-2.6028411214953188e-03,  5.3862954726743445e-08,  1.4041200836167896e-10, -1.8737916521211915e-14],
           [-1.1654657039711172e-03,  5.2639299252639433e-08, -2.8243805172199186e-13, -4.9647068325264598e-18],
           [-6.7228122344944845e-04,  4.5501126168441685e-08,  1.7377674751114880e-14, -2.2172013587516601e-18],
           [-2.1774939564867180e-04,  4.5183519255838478e-08, -5.1040461714191522e-13,  2.3825980176904024e-17],
           [ 2.0687131537242532e-04,  4.2123220966071348e-08, -4.2331234347163256e-12,  3.6617719274814050e-17],
           [ 2.4140890083632031e-04, -3.1553931945810945e-08, -4.4200159196063113e-11,  1.3566463382281022e-15],
           [-3.1374999999999988e-03, -5.0856321439864267e-07,  0.0000000000000000e+00,  0.0000000000000000e+00]])
