DATA_ORIGIN_NOTE = """
    Data extracted from Mars-GRAM 2024, GRAM Suite 2.1 by Eliot Aretskin-Hariton (NASA GRC)

    Notes:
    The data table contains data from -8000 meters to 80,000 meters altitude.
    The altitude is referenced to the MOLA (Mars Orbiter Laser Altimeter) constant potential surface (areoid).
    Dust level = 0.3
    Year = 2000 
    F107 = 68.0
    """
from collections import namedtuple
import sys

import numpy as np

import openmdao.api as om

atm_data = namedtuple('MarsHellasHot', ['alt', 'temp', 'pres', 'rho'])
atm_data.__doc__ = """
    A namedtuple to hold data for the atmosphere model.

    Parameters
    ----------
    alt : float
        Geopotential Altitude in meters.
    temp : float
        Temperature in degK.
    pres : float
        Pressure in pascal.
    rho : float
        Density in kg/m^3.
    """

# turn off ruff formatting
# fmt: off

# _raw_data Units: (Geopotential Altitude in meters, Temp in degK, pressure in mb, density in kg/m^3)
_raw_data = np.array([
    -8000,282.49,1.08E+01,2.03E-02,
    -7000,282.49,9.98E+00,1.87E-02,
    -6115.1,282.49,9.30E+00,1.74E-02,
    -6105.1,261.23,9.29E+00,1.88E-02,
    -6000,260.63,9.22E+00,1.87E-02,
    -5000,258.52,8.51E+00,1.74E-02,
    -4000,256.42,7.86E+00,1.62E-02,
    -3000,254.32,7.26E+00,1.51E-02,
    -2000,252.21,6.71E+00,1.41E-02,
    -1000,250.11,6.20E+00,1.31E-02,
        0,248.01,5.73E+00,1.22E-02,
     1000,246.24,5.27E+00,1.13E-02,
     2000,244.47,4.85E+00,1.05E-02,
     3000,242.71,4.47E+00,9.75E-03,
     4000,240.94,4.12E+00,9.04E-03,
     5000,239.18,3.79E+00,8.39E-03,
     6000,236.54,3.48E+00,7.79E-03,
     7000,233.91,3.20E+00,7.23E-03,
     8000,231.28,2.94E+00,6.72E-03,
     9000,228.65,2.70E+00,6.24E-03,
    10000,226.02,2.48E+00,5.80E-03,
    15000,215.77,1.58E+00,3.87E-03,
    20000,205.60,9.86E-01,2.54E-03,
    25000,195.72,6.04E-01,1.63E-03,
    30000,186.23,3.62E-01,1.03E-03,
    40000,167.06,1.24E-01,3.93E-04,
    50000,148.76,4.02E-02,1.43E-04,
    60000,145.11,1.33E-02,4.85E-05,
    70000,153.40,4.74E-03,1.64E-05,
    80000,137.20,1.14E-03,4.11E-06,
])

atm_data.alt = \
    np.array([-8000. , -7000. , -6115.1, -6105.1, -6000. , -5000. , -4000. , -3000. , -2000. , -1000. ,
               0. ,  1000. ,  2000. ,  3000. ,  4000. ,  5000. ,  6000. ,  7000. ,  8000. ,  9000. ,
           10000. , 15000. , 20000. , 25000. , 30000. , 40000. , 50000. , 60000. , 70000. , 80000. ])

atm_data.akima_T = \
    np.array([[ 2.8249000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8249000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8249000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8249000000000001e+02,  0.0000000000000000e+00, -6.3687080318200362e-01,  4.2427080318200382e-02],
           [ 2.6123000000000002e+02, -9.2919681799605996e-03,  3.3942979892330019e-05,  1.4224392126628734e-09],
           [ 2.6063000000000000e+02, -2.1100169732904041e-03, -9.9660534192669822e-09,  9.9830267096569231e-12],
           [ 2.5851999999999998e+02, -2.0999999999999660e-03,  2.8622937353617318e-20, -2.8622937353617319e-23],
           [ 2.5642000000000002e+02, -2.0999999999999942e-03,  0.0000000000000000e+00, -2.8622937353617319e-23],
           [ 2.5431999999999999e+02, -2.1000000000000801e-03, -2.9999999999772397e-08,  1.9999999999867346e-11],
           [ 2.5221000000000001e+02, -2.1000000000000229e-03,  5.8113236445223041e-20, -2.9490299091605726e-23],
           [ 2.5011000000000001e+02, -2.0999999999999951e-03, -1.6562737642593146e-07,  1.6562737642590412e-10],
           [ 2.4800999999999999e+02, -1.9343726235741469e-03,  3.2874524714835765e-07, -1.6437262357419302e-10],
           [ 2.4624000000000001e+02, -1.7700000000000096e-03, -2.9707139526102824e-20,  2.9056618222611520e-23],
           [ 2.4447000000000000e+02, -1.7699999999999819e-03,  2.4999999999991393e-08, -1.5000000000000691e-11],
           [ 2.4271000000000001e+02, -1.7650000000000007e-03, -1.0112359550581203e-08,  5.1123595505714323e-12],
           [ 2.4094000000000000e+02, -1.7698876404494482e-03,  4.5977528089893080e-07, -4.4988764044947378e-10],
           [ 2.3918000000000001e+02, -2.2000000000000075e-03, -8.9000000000003447e-07,  4.5000000000002678e-10],
           [ 2.3653999999999999e+02, -2.6299999999999956e-03, -4.3368086899420178e-22,  0.0000000000000000e+00],
           [ 2.3391000000000000e+02, -2.6299999999999956e-03, -4.3368086899420178e-22,  0.0000000000000000e+00],
           [ 2.3128000000000000e+02, -2.6299999999999956e-03, -4.3368086899420178e-22,  0.0000000000000000e+00],
           [ 2.2865000000000001e+02, -2.6299999999999956e-03, -4.3368086899420178e-22,  0.0000000000000000e+00],
           [ 2.2602000000000001e+02, -2.6299999999999956e-03,  2.2909090909090780e-07, -2.2618181818181742e-11],
           [ 2.1577000000000001e+02, -2.0354545454545486e-03, -1.3926499032881901e-09,  3.3671179883943558e-13],
           [ 2.0559999999999999e+02, -2.0241276595744720e-03,  7.5004144791395066e-09,  4.2502348715101756e-13],
           [ 1.9572000000000000e+02, -1.9172467532467511e-03,  9.4950649350630455e-09, -1.1291428571426345e-12],
           [ 1.8622999999999999e+02, -1.9069818181818186e-03, -2.1150245037977700e-09,  1.1132063219797523e-13],
           [ 1.6706000000000000e+02, -1.9158861185983817e-03,  7.2275750077325460e-09,  1.3610368521055524e-13],
           [ 1.4875999999999999e+02, -1.7305035128805650e-03,  2.2840959373605220e-07, -9.1859242447995483e-12],
           [ 1.4511000000000001e+02,  8.1911088400614895e-05,  2.2968421108737606e-07, -1.5497531992743763e-11],
           [ 1.5340000000000001e+02,  2.6335712325007418e-05, -2.0681714246500185e-07,  4.2183571232500915e-12],
           [ 1.3719999999999999e+02, -2.8445000000000020e-03,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_P = \
    np.array([[ 1.0800000000000000e+03, -8.4577579387501475e-02,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.0800000000000000e+03, -8.4577579387501475e-02,  4.2164316855407285e-06, -1.6388522980392563e-09],
           [ 9.9800000000000000e+02, -8.1061272910537774e-02,  1.3028781238019198e-05, -9.3388103137922234e-09],
           [ 9.3000000000000011e+02, -7.9941146371438856e-02, -6.8184981344169967e-03,  4.8126127715586090e-04],
           [ 9.2899999999999989e+02, -7.1932725913020537e-02,  1.3688043466870826e-04, -8.1990173691046759e-07],
           [ 9.2200000000000011e+02, -7.0330386900449363e-02, -4.1466381067573332e-06,  3.4770250072065911e-09],
           [ 8.5100000000000000e+02, -6.8192588092344297e-02,  3.6579034574158317e-06, -4.6531536507155028e-10],
           [ 7.8600000000000000e+02, -6.2272727272727244e-02,  1.7676767676767166e-06,  5.0505050505053609e-10],
           [ 7.2600000000000000e+02, -5.7222222222222223e-02,  2.2222222222222157e-06,  0.0000000000000000e+00],
           [ 6.7100000000000000e+02, -5.2777777777777785e-02,  3.5555555555554648e-07,  1.4222222222222137e-09],
           [ 6.2000000000000000e+02, -4.7800000000000002e-02,  1.0999999999999829e-06, -2.9999999999999478e-10],
           [ 5.7300000000000000e+02, -4.6499999999999993e-02,  1.9999999999999880e-07,  2.9999999999998082e-10],
           [ 5.2700000000000000e+02, -4.5200000000000025e-02,  4.1142857142855841e-06, -9.1428571428560370e-10],
           [ 4.8499999999999994e+02, -3.9714285714285702e-02,  1.4285714285715430e-06,  2.8571428571422253e-10],
           [ 4.4700000000000000e+02, -3.5999999999999963e-02,  7.9999999999992574e-07,  2.0000000000003351e-10],
           [ 4.1200000000000000e+02, -3.3800000000000011e-02,  8.0000000000001595e-07,  0.0000000000000000e+00],
           [ 3.7900000000000000e+02, -3.2199999999999999e-02,  8.9999999999999805e-07,  3.0000000000000170e-10],
           [ 3.4800000000000000e+02, -2.9499999999999998e-02,  1.7999999999999891e-06, -2.9999999999999478e-10],
           [ 3.2000000000000000e+02, -2.6800000000000001e-02,  5.9999999999999288e-07,  1.9999999999999879e-10],
           [ 2.9400000000000000e+02, -2.4999999999999998e-02,  1.3333333333333218e-06, -3.3333333333333136e-10],
           [ 2.7000000000000000e+02, -2.3333333333333334e-02,  1.6814449917898141e-06, -3.4811165845648201e-10],
           [ 2.4800000000000000e+02, -2.1014778325123152e-02,  6.1173657276770683e-07, -1.7561815486152879e-12],
           [ 1.5800000000000000e+02, -1.5029126213592236e-02,  6.7783882624406843e-07, -9.6027167051243587e-12],
           [ 9.8599999999999994e+01, -8.9709417040358744e-03,  1.7798862191285796e-07,  1.7639943778863522e-11],
           [ 6.0399999999999999e+01, -5.8680597014925369e-03,  9.3950734581353407e-08,  2.2332241143430759e-11],
           [ 3.6199999999999996e+01, -3.2536342699216948e-03,  4.9493443617881515e-08,  3.7869983374288093e-12],
           [ 1.2400000000000000e+01, -1.1276658963354242e-03,  7.0813188289255479e-09,  2.1885270804616867e-12],
           [ 4.0199999999999996e+00, -3.2948139561840735e-04, -4.7732003460889818e-09,  1.0821339907929713e-12],
           [ 1.3299999999999998e+00, -1.0030520530229548e-04, -9.6309627859669335e-10,  2.4336168088262457e-13],
           [ 4.7400000000000003e-01, -4.6558626609442065e-05, -3.6827467811158784e-10,  1.4241373390557935e-13],
           [ 1.1399999999999999e-01, -1.1200000000000015e-05,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_rho = \
    np.array([[ 2.0299999999999999e-02, -1.6654537235845801e-06,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0299999999999999e-02, -1.6654537235845801e-06,  1.3078642485472821e-10, -6.5332701270145465e-14],
           [ 1.8700000000000001e-02, -1.5998789776855599e-06,  1.4725571473692364e-10,  6.1278858754053907e-16],
           [ 1.7399999999999999e-02, -1.3378262850920796e-06,  4.2328073073981191e-05, -2.8194290445471968e-06],
           [ 1.8800000000000001e-02, -6.0507816962713551e-07, -3.2779743986472145e-09, -1.7033363116685403e-13],
           [ 1.8700000000000001e-02, -1.2997529092023979e-06, -7.8198890971537631e-11,  7.7951800173933129e-14],
           [ 1.7399999999999999e-02, -1.2222952906236742e-06, -5.4094187526532015e-12,  2.7704709376327634e-14],
           [ 1.6199999999999999e-02, -1.1499999999999979e-06,  2.7528570785764763e-24,  4.9999999999996556e-14],
           [ 1.5100000000000001e-02, -1.0000000000000029e-06,  2.7528570785764763e-24, -8.4703294725430030e-28],
           [ 1.4100000000000000e-02, -9.9999999999999995e-07, -4.9999999999998251e-11,  4.9999999999999099e-14],
           [ 1.3100000000000001e-02, -9.4999999999999937e-07,  1.0000000000000021e-10, -5.0000000000000582e-14],
           [ 1.2200000000000001e-02, -9.0000000000000059e-07, -5.5057141571529527e-24,  4.6586812098986517e-27],
           [ 1.1299999999999999e-02, -8.9999999999999805e-07,  1.6428571428571418e-10, -6.4285714285714829e-14],
           [ 1.0500000000000001e-02, -7.6428571428571405e-07,  1.0389610389608941e-11,  3.8961038961041343e-15],
           [ 9.7500000000000000e-03, -7.3181818181818302e-07,  1.6969696969697806e-11,  4.8484848484848153e-15],
           [ 9.0399999999999994e-03, -6.8333333333333339e-07,  3.6666666666667555e-11, -3.3333333333336543e-15],
           [ 8.3899999999999999e-03, -6.1999999999999946e-07,  1.9999999999999068e-11,  4.2351647362715015e-28],
           [ 7.7900000000000000e-03, -5.7999999999999985e-07,  1.1428571428571562e-11,  8.5714285714286713e-15],
           [ 7.2300000000000003e-03, -5.3142857142857114e-07,  2.6190476190475719e-11, -4.7619047619044643e-15],
           [ 6.7200000000000003e-03, -4.9333333333333362e-07,  1.2380952380952455e-11,  9.5238095238089298e-16],
           [ 6.2399999999999999e-03, -4.6571428571428625e-07,  3.7928571428571750e-11, -1.2214285714285846e-14],
           [ 5.7999999999999996e-03, -4.2650000000000017e-07,  6.8086956521739730e-12,  2.5826086956521066e-16],
           [ 3.8700000000000002e-03, -3.3904347826086927e-07,  1.8140468227424647e-11, -7.0635451505015627e-16],
           [ 2.5400000000000002e-03, -2.1061538461538471e-07,  4.0220626130818592e-12,  3.4020286199901383e-16],
           [ 1.6299999999999999e-03, -1.4487954383464003e-07,  3.0191462329622838e-12,  3.9135250679314649e-16],
           [ 1.0300000000000001e-03, -8.5336643495531248e-08,  1.2948861103797355e-12,  8.6877823917338997e-17],
           [ 3.9300000000000001e-04, -3.3375574112734874e-08,  3.3602937528395658e-13,  5.0152803598953055e-17],
           [ 1.4300000000000001e-04, -1.1609145527369828e-08, -1.2165900130830618e-13,  3.3757355404528878e-17],
           [ 4.8500000000000000e-05, -3.9151189321772874e-09, -9.3404028359207714e-15,  7.9852296053649478e-18],
           [ 1.6399999999999999e-05, -1.7063581072862183e-09, -3.5783785427563934e-15,  5.1314189271378203e-18],
           [ 4.1099999999999996e-06, -2.3849999999999975e-10,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_dT = \
    np.array([[ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00, -2.7875997848561188e-04,  1.8584029668602607e-05],
           [-9.2919681799585874e-03,  9.3308685428591479e-09,  1.9502759258214589e-06, -1.2370881051527602e-08],
           [-2.1100169732904059e-03,  1.0703064258756052e-08,  8.6447913538308240e-12, -9.3308823221483399e-15],
           [-2.0999999999999673e-03, -2.7313374826746193e-20,  5.8096196604618242e-23, -5.8104716524506756e-26],
           [-2.0999999999999947e-03, -8.5435131191029988e-20, -9.4649776192142535e-23,  9.4649776191314786e-26],
           [-2.1000000000000801e-03,  9.2146449986292779e-21,  9.6062459417236126e-23, -4.8031229708630764e-26],
           [-2.1000000000000229e-03,  5.7245874707209239e-20, -3.9517000781731428e-21,  3.9222097790815618e-24],
           [-2.0999999999999951e-03,  3.9204750556056103e-18,  3.3188451473141001e-10, -1.6625713830948118e-13],
           [-1.9343726235741458e-03,  1.6499761453829691e-07,  3.1724465354339262e-11, -3.2349456318500993e-14],
           [-1.7700000000000107e-03,  1.3139817629147232e-07, -2.6751264933859270e-10,  1.3611447304714923e-13],
           [-1.7699999999999819e-03,  4.7162967557345720e-09,  6.8231899828475981e-13, -3.9861575403861825e-16],
           [-1.7650000000000012e-03,  4.8850874901882385e-09,  4.0090145738885160e-10, -4.1067418532848752e-13],
           [-1.7698876404494488e-03, -4.2533455371757106e-07, -9.6114777527047672e-12,  4.8336719197167389e-15],
           [-2.2000000000000079e-03, -4.3005649346383038e-07, -4.2988701307064345e-10,  4.2994350653448570e-13],
           [-2.6299999999999961e-03, -1.6601303663675384e-18,  3.3189596901280941e-21, -1.6592630046295501e-24],
           [-2.6299999999999965e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.6299999999999965e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.6299999999999965e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.6299999999999965e-03,  0.0000000000000000e+00,  6.7662185142272070e-11, -8.7760733920908317e-15],
           [-2.0354545454545486e-03,  1.8416347015908380e-08, -9.7393551412179667e-12,  1.3018322346478646e-15],
           [-2.0241276595744729e-03,  1.8660213202318536e-08,  4.4352407380079293e-12, -7.7840942507254924e-16],
           [-1.9172467532467506e-03,  4.6319137019566349e-09, -7.3803027253497784e-13,  4.4448986948189748e-17],
           [-1.9069818181818182e-03,  5.8528499772108827e-10, -3.2966634464563603e-13,  1.8209484070789450e-17],
           [-1.9158861185983814e-03, -5.4519667395479765e-10,  2.2838661766042807e-12, -3.7552045203062821e-17],
           [-1.7305035128805642e-03,  3.3866513297211965e-08,  3.6316681072928760e-11, -2.1579186389838170e-15],
           [ 8.1911088400614569e-05,  1.1282454306064218e-07, -1.2447295886778223e-11,  6.0908781995792610e-17],
           [ 2.6335712325006744e-05, -1.1784874007618448e-07, -1.9770664550016279e-11,  2.8471814343846311e-16],
           [-2.8445000000000020e-03, -4.2784658804497096e-07,  0.0000000000000000e+00,  0.0000000000000000e+00]])
