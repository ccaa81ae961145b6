DATA_ORIGIN_NOTE = """
    Data extracted from Mars-GRAM 2024, GRAM Suite 2.1 by Eliot Aretskin-Hariton (NASA GRC)

    Notes:
    The data table contains data from -8000 meters to 80,000 meters altitude.
    The altitude is referenced to the MOLA (Mars Orbiter Laser Altimeter) constant potential surface (areoid).
    Dust level = 0.3
    Year = 2000 
    F107 = 68.0
    """
from collections import namedtuple
import sys

import numpy as np

import openmdao.api as om

atm_data = namedtuple('MarsHellasCold', ['alt', 'temp', 'pres', 'rho'])
atm_data.__doc__ = """
    A namedtuple to hold data for the atmosphere model.

    Parameters
    ----------
    alt : float
        Geopotential Altitude in meters.
    temp : float
        Temperature in degK.
    pres : float
        Pressure in pascal.
    rho : float
        Density in kg/m^3.
    """

# turn off ruff formatting
# fmt: off

# _raw_data Units: (Geopotential Altitude in meters, Temp in degK, pressure in mb, density in kg/m^3)
_raw_data = np.array([
    -8000,181.49,12.80,3.74E-02,
    -7000,181.49,11.60,3.38E-02,
    -6115.1,181.49,10.60,3.10E-02,
    -6105.1,179.31,10.60,3.13E-02,
    -6000,179.25,10.50,3.10E-02,
    -5000,177.90,9.48,2.83E-02,
    -4000,176.56,8.59,2.58E-02,
    -3000,175.21,7.76,2.35E-02,
    -2000,173.86,7.02,2.14E-02,
    -1000,172.52,6.35,1.95E-02,
    0.000,171.17,5.75,1.78E-02,
    1000,173.16,5.16,1.58E-02,
    2000,175.15,4.64,1.40E-02,
    3000,177.15,4.17,1.25E-02,
    4000,179.14,3.75,1.11E-02,
    5000,181.13,3.37,9.86E-03,
    6000,181.74,3.02,8.80E-03,
    7000,182.34,2.71,7.86E-03,
    8000,182.95,2.42,7.02E-03,
    9000,183.56,2.17,6.26E-03,
    10000,184.17,1.95,5.59E-03,
    15000,184.07,1.13,3.25E-03,
    20000,180.27,0.652,1.91E-03,
    25000,172.77,0.371,1.14E-03,
    30000,162.09,0.206,6.74E-04,
    40000,148.37,0.0594,2.12E-04,
    50000,138.95,0.0171,6.51E-05,
    60000,131.53,0.00506,2.04E-05,
    70000,137.01,0.00158,6.11E-06,
    80000,124.34,0.000365,1.47E-06,
])

atm_data.alt = \
    np.array([-8000. , -7000. , -6115.1, -6105.1, -6000. , -5000. , -4000. , -3000. , -2000. , -1000. ,
               0. ,  1000. ,  2000. ,  3000. ,  4000. ,  5000. ,  6000. ,  7000. ,  8000. ,  9000. ,
           10000. , 15000. , 20000. , 25000. , 30000. , 40000. , 50000. , 60000. , 70000. , 80000. ])

atm_data.akima_T = \
    np.array([[ 1.8149000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8149000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8149000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8149000000000001e+02,  0.0000000000000000e+00, -6.5265480761348388e-02,  4.3465480761348315e-03],
           [ 1.7931000000000000e+02, -1.3451923865182929e-03,  2.2147424614350913e-05, -1.4062877111290946e-07],
           [ 1.7925000000000000e+02, -1.3499641685844744e-03, -9.9449386099447700e-09,  9.9091071944249977e-12],
           [ 1.7790000000000001e+02, -1.3401267242210894e-03,  1.0253448442162526e-08, -1.0126724221076396e-11],
           [ 1.7656000000000000e+02, -1.3499999999999942e-03, -4.3368086899420178e-22,  0.0000000000000000e+00],
           [ 1.7521000000000001e+02, -1.3499999999999944e-03, -2.1684043449710089e-22,  0.0000000000000000e+00],
           [ 1.7386000000000001e+02, -1.3499999999999942e-03,  2.0029850746250108e-08, -1.0029850746259406e-11],
           [ 1.7252000000000001e+02, -1.3400298507462722e-03, -3.3599402985075329e-06,  3.3499701492537832e-09],
           [ 1.7116999999999999e+02,  1.9900000000000091e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.7316000000000000e+02,  1.9900000000000091e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.7515000000000001e+02,  1.9900000000000091e-03,  2.9999999999972760e-08, -1.9999999999981840e-11],
           [ 1.7715000000000001e+02,  1.9900000000000091e-03, -5.7679555576228839e-20,  2.9490299091605726e-23],
           [ 1.7913999999999999e+02,  1.9899999999999809e-03,  4.0063438677684358e-18, -3.9777209304148192e-21],
           [ 1.8113000000000000e+02,  1.9899999999960592e-03, -2.7500719424381153e-06,  1.3700719424420696e-09],
           [ 1.8174000000000001e+02,  6.0007194244603753e-04, -1.0143884892048959e-08,  1.0071942446005954e-11],
           [ 1.8234000000000000e+02,  6.0999999999995693e-04,  2.8297676701871667e-20,  2.1684043449710088e-25],
           [ 1.8294999999999999e+02,  6.1000000000001363e-04, -1.0842021724855045e-22,  0.0000000000000000e+00],
           [ 1.8356000000000000e+02,  6.1000000000001363e-04, -3.2526065174565132e-20,  4.1199682554449171e-24],
           [ 1.8416999999999999e+02,  6.0999999999996105e-04, -1.8394160583940136e-07,  1.1588321167881872e-11],
           [ 1.8406999999999999e+02, -3.6029197080291201e-04, -8.0290188423019603e-08,  6.9716516720545741e-14],
           [ 1.8027000000000001e+02, -1.1579651162790675e-03, -7.4228847105394215e-08,  1.1643740722415247e-12],
           [ 1.7277000000000001e+02, -1.8129255319148949e-03, -2.2039376471997189e-07,  3.1155774220590111e-11],
           [ 1.6209000000000000e+02, -1.6801801125703557e-03,  2.7557184339797503e-08,  3.2608269172380514e-13],
           [ 1.4837000000000000e+02, -1.0312116182572635e-03,  1.2842323651452327e-08, -3.9211618257261299e-13],
           [ 1.3894999999999999e+02, -8.9200000000000087e-04,  1.7196029776675211e-08, -2.1960297766749965e-13],
           [ 1.3153000000000000e+02, -6.1396029776674657e-04,  3.0779785665479829e-07, -1.9160182687812376e-11],
           [ 1.3700999999999999e+02, -2.0605797101449266e-04, -1.2143840579710127e-07,  1.5344202898550690e-12],
           [ 1.2434000000000000e+02, -2.1744999999999980e-03,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_P = \
    np.array([[ 1.2800000000000000e+03, -1.2349644027573735e-01,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.2800000000000000e+03, -1.2349644027573735e-01,  6.5853773980814321e-06, -3.0889371223440932e-09],
           [ 1.1600000000000000e+03, -1.1959249684660672e-01,  6.1406920907205161e-06,  1.4705087712346670e-09],
           [ 1.0600000000000000e+03, -1.0527026308344103e-01,  3.0024830771535050e-02, -1.9497804463190944e-03],
           [ 1.0600000000000000e+03, -8.9707781548468410e-02, -4.6152125590382354e-05, -5.3332256968749411e-08],
           [ 1.0500000000000000e+03, -1.0117628427896498e-01, -8.5785833520495286e-06,  7.7548676310144619e-09],
           [ 9.4800000000000000e+02, -9.5068848090020558e-02,  8.5922416345865649e-06, -2.5233935445660440e-09],
           [ 8.5900000000000000e+02, -8.5454545454545464e-02,  7.5524475524478556e-07,  1.6993006993006878e-09],
           [ 7.7600000000000000e+02, -7.8846153846153857e-02,  5.7548076923077397e-06, -9.0865384615387852e-10],
           [ 7.0200000000000000e+02, -7.0062500000000000e-02, -1.3877787807814457e-20,  3.0625000000000237e-09],
           [ 6.3500000000000000e+02, -6.0874999999999999e-02,  1.2499999999999942e-06, -3.7499999999998645e-10],
           [ 5.7500000000000000e+02, -5.9499999999999990e-02, -1.6666666666666220e-07,  6.6666666666663500e-10],
           [ 5.1600000000000000e+02, -5.7833333333333362e-02,  8.7499999999998552e-06, -2.9166666666665675e-09],
           [ 4.6399999999999994e+02, -4.9083333333333326e-02,  1.3888888888889743e-06,  6.9444444444438649e-10],
           [ 4.1700000000000000e+02, -4.4222222222222170e-02,  1.9444444444443461e-06,  2.7777777777783510e-10],
           [ 3.7500000000000000e+02, -3.9500000000000007e-02,  1.5000000000000223e-06, -1.3877787807814456e-23],
           [ 3.3700000000000000e+02, -3.6499999999999998e-02,  5.9999999999998949e-07,  9.0000000000001199e-10],
           [ 3.0200000000000000e+02, -3.2600000000000004e-02,  2.2000000000000111e-06, -6.0000000000000341e-10],
           [ 2.7100000000000000e+02, -3.0000000000000002e-02,  4.0000000000000104e-07,  5.9999999999999638e-10],
           [ 2.4200000000000000e+02, -2.7400000000000004e-02,  3.5499999999999978e-06, -1.1499999999999983e-09],
           [ 2.1700000000000000e+02, -2.3750000000000000e-02,  1.7926829268292665e-06, -4.2682926829268336e-11],
           [ 1.9500000000000000e+02, -2.0292682926829269e-02,  7.5405430280717681e-07,  4.8964565117351479e-12],
           [ 1.1299999999999999e+02, -1.2384905660377357e-02,  5.4154305017714531e-07,  4.6876163796653884e-12],
           [ 6.5200000000000003e+01, -6.6179039301310031e-03,  8.2542244030232522e-08,  2.3407708399193556e-11],
           [ 3.7100000000000001e+01, -4.0369033598891598e-03,  4.1720606518851071e-08,  2.1132013091796147e-11],
           [ 2.0599999999999998e+01, -2.0347963128159383e-03,  2.4230946547087390e-08,  3.2648684734506430e-12],
           [ 5.9400000000000004e+00, -5.7071683983899650e-04,  1.5784734081678823e-09,  1.3193210575731758e-12],
           [ 1.7100000000000000e+00, -1.4335105440368599e-04, -3.3736815097316727e-09,  5.6687869501002706e-13],
           [ 5.0600000000000001e-01, -4.0761076095311298e-05, -5.9886099340887138e-10,  1.1949686029400021e-13],
           [ 1.5800000000000000e-01, -1.6889237875288684e-05, -1.8465242494226360e-10,  6.5857621247113180e-14],
           [ 3.6499999999999998e-02, -8.2500000000000057e-07,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_rho = \
    np.array([[ 3.7400000000000003e-02, -3.8179003277206568e-06,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.7400000000000003e-02, -3.8179003277206568e-06,  4.3014820867692445e-10, -2.1224788095627426e-13],
           [ 3.3799999999999997e-02, -3.5943475532356294e-06,  4.8157481927898832e-10,  5.1116292306877383e-15],
           [ 3.1000000000000000e-02, -2.7300484847848326e-06,  9.8162248429555271e-06, -6.5432199944770254e-07],
           [ 3.1300000000000001e-02, -2.7021514599850836e-06, -4.3580950434807453e-09,  2.7680845056304063e-11],
           [ 3.1000000000000000e-02, -2.7009343642235807e-06, -8.5272211150159399e-11,  8.6206575373738831e-14],
           [ 2.8299999999999999e-02, -2.6128590604026830e-06,  1.2571812080536825e-10, -1.2859060402684177e-14],
           [ 2.5800000000000000e-02, -2.3999999999999990e-06,  9.9999999999999047e-11,  0.0000000000000000e+00],
           [ 2.3500000000000000e-02, -2.2000000000000010e-06,  9.9999999999999047e-11,  8.4703294725430030e-28],
           [ 2.1399999999999999e-02, -2.0000000000000003e-06,  1.2000000000000245e-10, -2.0000000000001079e-14],
           [ 1.9500000000000000e-02, -1.8199999999999989e-06,  3.8999999999999731e-10, -2.6999999999999829e-13],
           [ 1.7800000000000000e-02, -1.8499999999999997e-06, -3.9999999999999578e-10,  2.4999999999999676e-13],
           [ 1.5800000000000002e-02, -1.9000000000000000e-06, -2.5410988417629011e-24,  1.0000000000000158e-13],
           [ 1.4000000000000000e-02, -1.6000000000000008e-06,  1.3478260869565438e-10, -3.4782608695653425e-14],
           [ 1.2500000000000001e-02, -1.4347826086956521e-06,  1.2422360248446714e-11,  2.2360248447205230e-14],
           [ 1.1100000000000000e-02, -1.3428571428571430e-06,  1.0285714285714405e-10, -4.2351647362715015e-28],
           [ 9.8600000000000007e-03, -1.1371428571428572e-06,  7.7142857142856347e-11,  4.2351647362715015e-28],
           [ 8.8000000000000005e-03, -9.8285714285714282e-07,  2.5714285714286120e-11,  1.7142857142856920e-14],
           [ 7.8600000000000007e-03, -8.8000000000000036e-07,  3.7894736842104965e-11,  2.1052631578948616e-15],
           [ 7.0200000000000002e-03, -7.9789473684210584e-07,  5.0257558790594041e-11, -1.2362821948488439e-14],
           [ 6.2599999999999999e-03, -7.3446808510638297e-07,  6.6246515040352716e-11, -1.7784299339693639e-15],
           [ 5.5900000000000004e-03, -6.0731034482758574e-07,  3.0154517677869675e-11, -4.5848974247051182e-16],
           [ 3.2499999999999999e-03, -3.4015189873417734e-07,  1.1376096916983848e-11,  6.1085656597032658e-16],
           [ 1.9100000000000000e-03, -1.8057668711656441e-07,  2.0204885112220213e-12,  6.5896978241817035e-16],
           [ 1.1400000000000000e-03, -1.1094906832298136e-07,  9.0831544532298663e-13,  5.2829964385465856e-16],
           [ 6.7400000000000001e-04, -6.2243440580652155e-08,  6.2048469075468760e-13,  9.8385936731052729e-17],
           [ 2.1200000000000000e-04, -2.0317965746242577e-08,  1.9354429393318469e-13,  3.6925228069107324e-17],
           [ 6.5099999999999997e-05, -5.3695114468466899e-09, -9.7961099097358390e-14,  1.8791224378202745e-17],
           [ 2.0400000000000001e-05, -1.6913661153330352e-09, -2.0781020567941195e-14,  4.7017632101244700e-18],
           [ 6.1099999999999999e-06, -6.9645756365451825e-10, -1.7584872690963486e-15,  2.5004243634548189e-18],
           [ 1.4699999999999999e-06,  1.8500000000000043e-11,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_dT = \
    np.array([[ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00, -4.0345711521595949e-05,  2.6893787656413937e-06],
           [-1.3451923865182014e-03, -1.0060073950092651e-07,  5.2488316563783596e-10,  3.0070217963264856e-15],
           [-1.3499641685844749e-03,  9.8293486946443399e-09,  1.6738118059079421e-11, -1.6730022390337878e-14],
           [-1.3401267242210890e-03, -6.8844823582104489e-09, -1.5850862620290436e-11,  1.2862069199596313e-14],
           [-1.3499999999999936e-03, -2.3868215254525477e-21,  8.7474959702577495e-25, -5.8111130529336055e-30],
           [-1.3499999999999951e-03, -6.5475567055979842e-22,  1.7379828303060653e-24, -8.6638672524916578e-28],
           [-1.3499999999999949e-03,  2.2204981430483434e-22,  1.0029672532849077e-11, -5.9523279126650248e-17],
           [-1.3400298507462722e-03,  1.9880775228318428e-08,  9.9503280017822137e-09, -6.6401789262642485e-12],
           [ 1.9900000000000109e-03,  5.2093798077336478e-24, -5.2145891875458887e-24,  3.4746563317613474e-27],
           [ 1.9900000000000091e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9900000000000091e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9900000000000091e-03,  0.0000000000000000e+00, -5.3776427755205673e-23,  2.6888213877565164e-26],
           [ 1.9899999999999822e-03, -2.6888213877715856e-20, -3.9225112027877661e-21,  2.7623318350912808e-26],
           [ 1.9899999999960605e-03, -7.7890406644005049e-18, -4.1697841726345213e-09,  2.7798561150922867e-12],
           [ 6.0007194244603699e-04,  2.8487568151163033e-20,  2.9784172661647365e-11, -1.9856115107755366e-14],
           [ 6.0999999999995747e-04,  5.7111310607809997e-20,  5.6647641167796172e-23, -5.7055178154614302e-26],
           [ 6.1000000000001418e-04, -7.5894152044052298e-22, -5.8334668879895352e-34,  2.8401655035641265e-37],
           [ 6.1000000000001342e-04, -7.5894152075516680e-22,  1.8726570784445877e-22, -2.3898215147200204e-25],
           [ 6.0999999999996094e-04, -3.4317398024784349e-19, -8.3642762977552302e-11,  8.9662168291012000e-15],
           [-3.6029197080291212e-04, -1.6396136759327615e-07,  7.4458809186936426e-13,  2.8151921547934162e-17],
           [-1.1579651162790671e-03, -1.5440409255848749e-07, -4.0799714063101724e-12,  1.7524746585149086e-15],
           [-1.8129255319148953e-03, -6.3768207232971120e-08,  3.0332323241143179e-11, -2.4537730041534721e-15],
           [-1.6801801125703555e-03,  5.5522049866950270e-08,  5.6176025251818259e-12, -4.6801225687459401e-16],
           [-1.0312116182572642e-03,  2.7470423308208608e-08, -3.8162690072567982e-12,  2.4613428590085700e-16],
           [-8.9200000000000087e-04,  2.4985328933329753e-08,  4.9204896055852765e-13, -2.1018483155895928e-17],
           [-6.1396029776674657e-04,  2.8520763197731515e-08,  3.6852300031230552e-12, -2.4582830553736682e-16],
           [-2.0605797101449287e-04,  2.8476871598982558e-08, -3.3182493120817819e-11,  1.0650385671064516e-15],
           [-2.1744999999999976e-03, -3.1566142068543841e-07,  0.0000000000000000e+00,  0.0000000000000000e+00]])
