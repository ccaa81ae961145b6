DATA_ORIGIN_NOTE = """
    Data extracted from Mars-GRAM 2024, GRAM Suite 2.1 by Eliot Aretskin-Hariton (NASA GRC)
    Reference data set represents a global average conditions, independent of year, season, or time of day.
    Data profiles were verified by Melinda Kahre (NASA ARC) to be similar to global annual average conditions 
    produced by Mars Global Climate Model Simulations.

    Notes:
    The data table contains data from -8000 meters to 80,000 meters altitude.
    The altitude is referenced to the MOLA (Mars Orbiter Laser Altimeter) constant potential surface (areoid).
    Dust level = 0.3
    Year = 2000 
    F107 = 68.0
    """
from collections import namedtuple
import sys

import numpy as np

import openmdao.api as om

atm_data = namedtuple('MarsReference2024', ['alt', 'temp', 'pres', 'rho'])
atm_data.__doc__ = """
    A namedtuple to hold data for the atmosphere model.

    Parameters
    ----------
    alt : float
        Geopotential Altitude in meters.
    temp : float
        Temperature in degK.
    pres : float
        Pressure in pascal.
    rho : float
        Density in kg/m^3.
    """

# turn off ruff formatting
# fmt: off

# _raw_data Units: (Geopotential Altitude in meters, Temp in degK, pressure in mb, density in kg/m^3)
_raw_data = np.array([
    -8000.0,214.0,1.31E+01,3.21E-02,
    -7000.0,214.0,1.20E+01,2.94E-02,
    -6115.1,214.0,1.10E+01,2.71E-02,
    -6105.1,214.0,1.10E+01,2.71E-02,
    -6000.0,214.0,1.09E+01,2.68E-02,
    -5000.0,214.0,1.00E+01,2.45E-02,
    -4000.0,214.0,9.16E+00,2.24E-02,
    -3000.0,214.0,8.36E+00,2.04E-02,
    -2000.0,214.0,7.63E+00,1.87E-02,
    -1000.0,214.0,6.96E+00,1.70E-02,
     0000.0,214.0,6.36E+00,1.55E-02,
     1000.0,213.9,5.80E+00,1.42E-02,
     2000.0,213.8,5.30E+00,1.30E-02,
     3000.0,213.6,4.84E+00,1.18E-02,
     4000.0,213.4,4.41E+00,1.08E-02,
     5000.0,212.9,4.03E+00,9.90E-03,
     6000.0,212.4,3.68E+00,9.06E-03,
     7000.0,210.8,3.35E+00,8.32E-03,
     8000.0,209.2,3.06E+00,7.65E-03,
     9000.0,207.1,2.79E+00,7.04E-03,
    10000.0,205.0,2.54E+00,6.47E-03,
    15000.0,196.2,1.56E+00,4.17E-03,
    20000.0,188.3,9.47E-01,2.63E-03,
    25000.0,181.2,5.62E-01,1.62E-03,
    30000.0,175.0,3.28E-01,9.80E-04,
    40000.0,162.4,1.06E-01,3.40E-04,
    50000.0,152.2,3.15E-02,1.08E-04,
    60000.0,144.2,8.78E-03,3.18E-05,
    70000.0,139.5,2.33E-03,8.73E-06,
    80000.0,139.0,6.08E-04,2.29E-06,
])

atm_data.alt = \
    np.array([-8000. , -7000. , -6115.1, -6105.1, -6000. , -5000. , -4000. , -3000. , -2000. , -1000. ,
               0. ,  1000. ,  2000. ,  3000. ,  4000. ,  5000. ,  6000. ,  7000. ,  8000. ,  9000. ,
           10000. , 15000. , 20000. , 25000. , 30000. , 40000. , 50000. , 60000. , 70000. , 80000. ])

atm_data.akima_T = \
    np.array([[ 2.1400000000000000e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1400000000000000e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1400000000000000e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1400000000000000e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1400000000000000e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1400000000000000e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1400000000000000e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1400000000000000e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1400000000000000e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1400000000000000e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1400000000000000e+02,  0.0000000000000000e+00,  4.9999999999997159e-08, -4.9999999999997158e-11],
           [ 2.1400000000000000e+02, -4.9999999999997156e-05, -9.9999999999994344e-08,  4.9999999999997152e-11],
           [ 2.1390000000000001e+02, -9.9999999999994313e-05, -1.3552527156068806e-23,  0.0000000000000000e+00],
           [ 2.1380000000000001e+02, -9.9999999999994313e-05, -2.0000000000005267e-07,  1.0000000000002987e-10],
           [ 2.1359999999999999e+02, -2.0000000000000996e-04,  3.0000000000005404e-07, -3.0000000000003272e-10],
           [ 2.1340000000000001e+02, -5.0000000000000001e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1290000000000001e+02, -5.0000000000000001e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1240000000000001e+02, -5.0000000000000001e-04, -2.1999999999999688e-06,  1.0999999999999747e-09],
           [ 2.1080000000000001e+02, -1.6000000000000140e-03,  4.9999999999995403e-07, -4.9999999999996229e-10],
           [ 2.0919999999999999e+02, -2.0999999999999942e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0709999999999999e+02, -2.0999999999999942e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0500000000000000e+02, -2.0999999999999942e-03,  1.1151999999999560e-07, -8.7039999999994314e-12],
           [ 1.9619999999999999e+02, -1.6375999999999964e-03,  7.0400000000012553e-09,  8.9599999999977909e-13],
           [ 1.8830000000000001e+02, -1.4999999999999998e-03, -2.6454533008646310e-21,  3.2000000000003386e-12],
           [ 1.8119999999999999e+02, -1.2600000000000009e-03,  9.7142857142871597e-09, -1.1428571428572997e-12],
           [ 1.7500000000000000e+02, -1.2485714285714272e-03, -4.2857142857145480e-09,  3.1428571428573311e-13],
           [ 1.6240000000000001e+02, -1.2399999999999983e-03,  3.4736842105262456e-08, -1.2736842105262821e-12],
           [ 1.5219999999999999e+02, -9.2736842105263344e-04,  1.4129934210526545e-08, -1.3930921052632057e-13],
           [ 1.4419999999999999e+02, -6.8656249999999902e-04,  2.4832500000000004e-08, -3.1762499999999916e-13],
           [ 1.3950000000000000e+02, -2.8519999999999875e-04,  2.6039999999999812e-08, -2.5199999999999327e-13],
           [ 1.3900000000000000e+02,  1.5999999999999942e-04,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_P = \
    np.array([[ 1.3100000000000000e+03, -1.0849644027573734e-01,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.3100000000000000e+03, -1.0849644027573734e-01, -2.9291741250575681e-06,  1.4256144007948891e-09],
           [ 1.2000000000000000e+03, -1.1007794532346778e-01, -1.0532826189011771e-05,  8.1621097148296253e-09],
           [ 1.1000000000000000e+03, -1.0954496980398383e-01,  3.1009225908418665e-02, -2.0054728928020284e-03],
           [ 1.1000000000000000e+03, -9.1002319476218979e-02, -1.2495196836735407e-04,  8.1362344953615658e-07],
           [ 1.0900000000000000e+03, -9.0305344947604060e-02, -2.7656362957633045e-06,  3.0709812433673545e-09],
           [ 1.0000000000000000e+03, -8.6623673809028592e-02,  3.4011937719033438e-06, -7.7751996287475656e-10],
           [ 9.1600000000000000e+02, -8.2153846153846161e-02,  1.5076923076923210e-06,  6.4615384615385197e-10],
           [ 8.3600000000000000e+02, -7.7199999999999991e-02,  5.4000000000000025e-06, -1.2000000000000068e-09],
           [ 7.6300000000000000e+02, -6.9999999999999993e-02,  1.7999999999999684e-06,  1.2000000000000345e-09],
           [ 6.9600000000000000e+02, -6.2799999999999995e-02,  3.4461538461538417e-06, -6.4615384615385197e-10],
           [ 6.3600000000000000e+02, -5.7846153846153846e-02,  6.9230769230768649e-07,  1.1538461538461581e-09],
           [ 5.8000000000000000e+02, -5.3000000000000005e-02,  3.3333333333333202e-06, -3.3333333333332443e-10],
           [ 5.3000000000000000e+02, -4.7333333333333331e-02,  1.3333333333333114e-06,  0.0000000000000000e+00],
           [ 4.8400000000000000e+02, -4.4666666666666667e-02,  8.3333333333333174e-07,  8.3333333333333873e-10],
           [ 4.4100000000000000e+02, -4.0499999999999994e-02,  2.8571428571428568e-06, -3.5714285714284759e-10],
           [ 4.0300000000000000e+02, -3.5857142857142858e-02,  8.5714285714285491e-07,  0.0000000000000000e+00],
           [ 3.6800000000000000e+02, -3.4142857142857148e-02,  2.8571428571429194e-07,  8.5714285714286194e-10],
           [ 3.3500000000000000e+02, -3.1000000000000000e-02,  2.6666666666666575e-06, -6.6666666666666271e-10],
           [ 3.0600000000000000e+02, -2.7666666666666666e-02,  7.9279279279278680e-07, -1.2612612612612068e-10],
           [ 2.7900000000000000e+02, -2.6459459459459458e-02,  1.7626020024306861e-06, -3.0314254297123673e-10],
           [ 2.5400000000000000e+02, -2.3843683083511782e-02,  9.0156961894688234e-07, -1.0566600448905229e-11],
           [ 1.5600000000000000e+02, -1.5620481927710846e-02,  6.9804605293761868e-07, -5.1899334790898870e-12],
           [ 9.4699999999999989e+01, -9.0292664092664066e-03,  1.3936468336468357e-07,  2.5297719697719642e-11],
           [ 5.6200000000000003e+01, -5.7382905982905968e-03,  9.2762290484203155e-08,  2.3779165834783223e-11],
           [ 3.2800000000000004e+01, -3.0272302558398225e-03,  3.9594348568730070e-08,  4.1128677015252107e-12],
           [ 1.0600000000000000e+01, -1.0014829740076568e-03,  4.6607640633009149e-09,  2.0987533337464778e-12],
           [ 3.1499999999999999e+00, -2.7864169261769550e-04, -4.6203575902854900e-09,  9.7645268520550426e-13],
           [ 8.7800000000000000e-01, -7.8113038861754095e-05, -9.4081541080948628e-10,  2.3021192969848931e-13],
           [ 2.3300000000000001e-01, -2.7865768168396990e-05, -2.3484636632060203e-10,  1.2994231831603010e-13],
           [ 6.0800000000000007e-02,  6.4199999999999961e-06,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_rho = \
    np.array([[ 3.2099999999999997e-02, -2.7504181263419551e-06,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.2099999999999997e-02, -2.7504181263419551e-06,  9.7070345330088097e-11, -4.6652218988130016e-14],
           [ 2.9399999999999999e-02, -2.6962340926461698e-06,  1.1917142682084435e-10, -1.0707453638349766e-14],
           [ 2.7099999999999999e-02, -2.5104778522496715e-06,  7.3735509271292282e-07, -4.8630730748795575e-08],
           [ 2.7099999999999999e-02, -2.3525952226298854e-06, -1.4479349133442711e-08,  9.2336550374318007e-11],
           [ 2.6800000000000001e-02, -2.3363030340788721e-06, -9.6832722188283960e-11,  1.3313575626715605e-13],
           [ 2.4500000000000001e-02, -2.1305612096539719e-06,  2.1122419307940318e-11,  9.4387903460304981e-15],
           [ 2.2400000000000000e-02, -2.0599999999999998e-06, -1.7999999999999553e-10,  2.3999999999999686e-13],
           [ 2.0400000000000001e-02, -1.7000000000000009e-06,  1.9058241313221760e-24, -8.4703294725430030e-28],
           [ 1.8700000000000001e-02, -1.7000000000000000e-06, -2.1175823681357509e-25,  4.2351647362715015e-28],
           [ 1.7000000000000001e-02, -1.7000000000000000e-06,  2.6666666666666145e-10, -6.6666666666662920e-14],
           [ 1.5500000000000000e-02, -1.3666666666666659e-06,  3.3333333333336753e-11,  3.3333333333330192e-14],
           [ 1.4200000000000001e-02, -1.2000000000000023e-06,  8.4703294725430036e-25, -4.2351647362715015e-28],
           [ 1.2999999999999999e-02, -1.2000000000000008e-06, -1.4823076576950256e-24,  2.1175823681357510e-27],
           [ 1.1800000000000000e-02, -1.1999999999999963e-06,  3.2307692307691766e-10, -1.2307692307692073e-13],
           [ 1.0800000000000001e-02, -9.2307692307692249e-07,  1.6153846153845982e-11,  6.9230769230769711e-15],
           [ 9.9000000000000008e-03, -8.7000000000000014e-07,  1.3846153846154049e-11,  1.6153846153845558e-14],
           [ 9.0600000000000003e-03, -7.9384615384615537e-07,  6.3942307692307852e-11, -1.0096153846153554e-14],
           [ 8.3199999999999993e-03, -6.9625000000000043e-07,  1.4318181818182693e-11,  1.1931818181818011e-14],
           [ 7.6499999999999997e-03, -6.3181818181818080e-07,  2.9518716577539372e-11, -7.7005347593580231e-15],
           [ 7.0400000000000003e-03, -5.9588235294117613e-07,  2.8848039215685430e-11, -2.9656862745096675e-15],
           [ 6.4700000000000001e-03, -5.4708333333333374e-07,  1.9351851851852019e-11, -3.8703703703704950e-16],
           [ 4.1700000000000001e-03, -3.8259259259259263e-07,  1.5578629957391009e-11, -1.3202228777449796e-16],
           [ 2.6300000000000000e-03, -2.3670796460176993e-07,  4.6549505465903231e-12,  4.5732847475273456e-16],
           [ 1.6199999999999999e-03, -1.5585882352941175e-07,  2.8926583316253174e-12,  5.3582127485140529e-16],
           [ 9.7999999999999997e-04, -8.6745644599303121e-08,  1.2679024810569031e-12,  1.0066619788734080e-16],
           [ 3.4000000000000002e-04, -3.1187735611962801e-08,  2.1905515700318923e-13,  5.7971840419308991e-17],
           [ 1.0800000000000000e-04, -9.4150803461063039e-09, -1.2104273725093096e-13,  3.0055077186156114e-17],
           [ 3.1800000000000000e-05, -2.8194119352780840e-09, -2.4173561912273213e-14,  7.5414755440081555e-18],
           [ 8.7299999999999994e-06, -1.0404405103211009e-09, -3.8618979357798169e-15,  4.3505948967889913e-18],
           [ 2.2900000000000001e-06,  1.8750000000000010e-10,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_dT = \
    np.array([[ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00, -9.9999999999994278e-11,  4.9999999999997111e-14],
           [-4.9999999999997150e-05, -4.9999999999997192e-08, -1.0587911840678754e-25,  7.9409338805090659e-29],
           [-9.9999999999994380e-05, -4.9999999999997192e-08,  1.1999999999999878e-10, -7.0000000000001532e-14],
           [-9.9999999999994340e-05, -2.0000000000004265e-08, -1.1000000000002203e-10,  3.0000000000010645e-14],
           [-2.0000000000000998e-04, -1.5000000000001638e-07, -5.9999999999993785e-10,  4.4999999999996395e-13],
           [-5.0000000000000012e-04, -5.4210108624290575e-23,  3.4849355544179913e-25, -1.8586322956895818e-28],
           [-5.0000000000000001e-04,  8.5187313552433306e-23,  2.8395771184133624e-26, -1.1358308473656694e-28],
           [-5.0000000000000001e-04, -1.9877039828900023e-22, -2.6125000000000577e-09,  1.5125000000000439e-12],
           [-1.6000000000000135e-03, -6.8749999999998294e-07, -1.2499999999996994e-10,  3.1249999999997348e-13],
           [-2.0999999999999929e-03, -2.3852447794679986e-21,  1.0704410322998123e-24,  1.3761140185580552e-29],
           [-2.0999999999999942e-03, -2.0307929431163159e-22, -1.4460646301844228e-24,  1.6491439244960545e-27],
           [-2.0999999999999942e-03,  1.8522232188076859e-21,  4.7628509915013351e-11, -5.8265019830027548e-15],
           [-1.6375999999999956e-03,  3.9297450424928778e-08, -7.1151173033879752e-12,  9.5192544368040462e-16],
           [-1.5000000000000005e-03,  3.9540685667079393e-08,  1.1930413265770934e-11, -2.0477100798373652e-15],
           [-1.2600000000000009e-03,  5.2665623369863078e-09, -1.0207526087796802e-12,  8.4916599705076712e-17],
           [-1.2485714285714268e-03,  1.4277812270702591e-09, -6.1855773054539686e-13,  5.6149389355265631e-17],
           [-1.2399999999999983e-03,  5.9014434227420100e-09,  5.5423931306899981e-12, -3.0062216834905543e-16],
           [-9.2736842105263376e-04,  2.6562655531825369e-08, -1.4934528943232343e-12,  1.2452465516670490e-16],
           [-6.8656249999999870e-04,  3.4050994195372143e-08,  8.7269681045452198e-13, -2.6417122999173524e-17],
           [-2.8519999999999864e-04,  4.3579793504710525e-08, -3.1146200942131948e-14,  1.2516685047106204e-17],
           [ 1.5999999999999950e-04,  4.6711874999999727e-08,  0.0000000000000000e+00,  0.0000000000000000e+00]])
