DATA_ORIGIN_NOTE = """
    Data extracted from Mars-GRAM 2024, GRAM Suite 2.1 by Eliot Aretskin-Hariton (NASA GRC)

    Notes:
    The data table contains data from -8000 meters to 80,000 meters altitude.
    The altitude is referenced to the MOLA (Mars Orbiter Laser Altimeter) constant potential surface (areoid).
    Dust level = 0.3
    Year = 2000 
    F107 = 68.0
    """
from collections import namedtuple
import sys

import numpy as np

import openmdao.api as om

atm_data = namedtuple('MarsEquatorHot', ['alt', 'temp', 'pres', 'rho'])
atm_data.__doc__ = """
    A namedtuple to hold data for the atmosphere model.

    Parameters
    ----------
    alt : float
        Geopotential Altitude in meters.
    temp : float
        Temperature in degK.
    pres : float
        Pressure in pascal.
    rho : float
        Density in kg/m^3.
    """

# turn off ruff formatting
# fmt: off

# _raw_data Units: (Geopotential Altitude in meters, Temp in degK, pressure in mb, density in kg/m^3)
_raw_data = np.array([
    -8000,239.02,10.492,0.023248,
    -5000,239.02,8.304,0.0184,
    -2000,239.02,6.5722,0.014562,
    -1632,239.02,6.3863,0.01415,
    -1627,239.82,6.3838,0.014098,
    -1000,244.07,6.0792,0.013192,
    0,240.8,5.6233,0.012368,
    1000,238.71,5.1844,0.0115,
    2000,236.62,4.7797,0.010694,
    3000,234.53,4.4066,0.0099455,
    4000,232.44,4.0627,0.00925,
    5000,230.35,3.7455,0.0086038,
    6000,227.94,3.4341,0.0079714,
    7000,225.53,3.1485,0.0073862,
    8000,223.13,2.8867,0.0068448,
    9000,220.72,2.6467,0.0063438,
    10000,218.31,2.4266,0.0058801,
    15000,206,1.5242,0.0039151,
    20000,192.75,0.92924,0.0025507,
    25000,179.81,0.54872,0.0016149,
    30000,168.36,0.31439,0.00098829,
    40000,153.3,0.09611,0.00033182,
    50000,156.25,0.029771,0.00010094,
    60000,146.88,0.010463,0.000037888,
    70000,127.03,0.0033143,0.000013874,
    80000,134.85,0.00077226,2.9028E-06,
])

atm_data.alt = \
    np.array([-8000., -5000., -2000., -1632., -1627., -1000.,     0.,  1000.,  2000.,  3000.,  4000.,
            5000.,  6000.,  7000.,  8000.,  9000., 10000., 15000., 20000., 25000., 30000., 40000.,
           50000., 60000., 70000., 80000.])

atm_data.akima_T = \
    np.array([[ 2.3902000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.3902000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.3902000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.3902000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.3902000000000001e+02,  0.0000000000000000e+00,  9.2833536280944109e-02, -1.2166707256188958e-02],
           [ 2.3981999999999999e+02,  1.5832318595269210e-02, -1.2976877503250060e-05, -2.3338573110685402e-09],
           [ 2.4406999999999999e+02, -3.1932067663355593e-03, -1.3335864673288237e-06,  1.2567932336644003e-09],
           [ 2.4080000000000001e+02, -2.0900000000000033e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.3871000000000001e+02, -2.0900000000000033e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.3662000000000000e+02, -2.0900000000000033e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.3453000000000000e+02, -2.0900000000000033e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.3244000000000000e+02, -2.0900000000000033e-03,  1.5999999999999696e-07, -1.5999999999999697e-10],
           [ 2.3034999999999999e+02, -2.2500000000000003e-03, -3.1999999999999260e-07,  1.5999999999999609e-10],
           [ 2.2794000000000000e+02, -2.4099999999999968e-03,  4.3368086899420178e-22,  0.0000000000000000e+00],
           [ 2.2553000000000000e+02, -2.4099999999999968e-03,  2.9999999999973190e-08, -1.9999999999981840e-11],
           [ 2.2313000000000000e+02, -2.4099999999999968e-03,  4.3368086899420178e-22,  0.0000000000000000e+00],
           [ 2.2072000000000000e+02, -2.4099999999999968e-03,  4.3368086899420178e-22,  0.0000000000000000e+00],
           [ 2.1831000000000000e+02, -2.4099999999999968e-03, -3.6491228070184740e-09, -1.3501754385964600e-12],
           [ 2.0600000000000000e+02, -2.5477543859649160e-03, -4.5694953432963778e-08,  5.0491661251893603e-12],
           [ 1.9275000000000000e+02, -2.6260164609053496e-03,  1.0838735662376410e-08, -6.4708869626128184e-13],
           [ 1.7981000000000000e+02, -2.5661607565011812e-03,  8.8203035330344617e-08, -6.5941768060216041e-12],
           [ 1.6836000000000001e+02, -2.1786936636493540e-03,  6.4499843840981984e-08,  2.7695225239533949e-13],
           [ 1.5330000000000001e+02, -8.0561111111111274e-04,  2.9800330330330340e-07, -1.8794219219219221e-11],
           [ 1.5625000000000000e+02, -4.8381081081081177e-04, -5.8351366219933331e-08,  1.3032447301014433e-12],
           [ 1.4688000000000000e+02, -1.2598647161790448e-03, -2.2103796108922369e-07,  1.4852443270712818e-11],
           [ 1.2703000000000000e+02, -1.2248909567496723e-03,  2.6302819134993440e-07, -6.2339095674967204e-12],
           [ 1.3484999999999999e+02,  2.1654999999999990e-03,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_P = \
    np.array([[ 1.0492000000000000e+03, -8.0536666666666673e-02,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.0492000000000000e+03, -8.0536666666666673e-02,  1.6303911399884324e-06,  3.0135110148533771e-10],
           [ 8.3039999999999998e+02, -6.2617840086631987e-02,  9.3625179466674345e-07,  2.3137978177389628e-10],
           [ 6.5721999999999991e+02, -5.0753075210736312e-02,  1.1456687174059016e-07,  1.4370440550412887e-09],
           [ 6.3863000000000000e+02, -5.0084923230805503e-02, -7.8273575588982964e-06,  4.9624007439991185e-06],
           [ 6.3838000000000000e+02, -4.9791016750594524e-02,  1.6908326837111113e-06,  3.8237421598251231e-10],
           [ 6.0792000000000007e+02, -4.7219745385755824e-02,  2.4664343279041589e-06, -8.3668894214838923e-10],
           [ 5.6233000000000004e+02, -4.4796943556392625e-02,  6.1759081648898869e-07,  2.8935273990365889e-10],
           [ 5.1844000000000005e+02, -4.2693703703703692e-02,  2.7428017291738980e-06, -5.1909802547021877e-10],
           [ 4.7797000000000003e+02, -3.8765394321766587e-02,  1.3280785234645251e-06,  1.2731579830206619e-10],
           [ 4.4066000000000003e+02, -3.5727289879931359e-02,  4.4703690272001469e-07,  8.9025297721134776e-10],
           [ 4.0627000000000004e+02, -3.2162457142857266e-02,  5.8994285714289445e-07, -1.4748571428571668e-10],
           [ 3.7454999999999995e+02, -3.1425028571428607e-02,  6.4516602316634647e-08,  2.2051196911198476e-10],
           [ 3.4340999999999997e+02, -3.0634459459459383e-02,  2.8589189189187869e-06, -7.8445945945940239e-10],
           [ 3.1484999999999997e+02, -2.7270000000000030e-02,  9.9272311212813070e-07,  9.7276887871894383e-11],
           [ 2.8866999999999996e+02, -2.4992723112128100e-02,  1.2791290637222917e-06, -2.8640595159414030e-10],
           [ 2.6467000000000002e+02, -2.3293682839465930e-02,  1.5986258155613228e-06, -3.1494297609541840e-10],
           [ 2.4266000000000000e+02, -2.1041260136629523e-02,  6.0677839410979922e-07, -1.6252733567789781e-12],
           [ 1.5241999999999999e+02, -1.5095371697289955e-02,  6.9713646014738096e-07, -1.1580424137878078e-11],
           [ 9.2923999999999992e+01, -8.9925389061569980e-03,  1.8364219968566005e-07,  1.8557116309147956e-11],
           [ 5.4872000000000000e+01, -5.7643331861142993e-03,  1.0157428074521938e-07,  2.2794471295528099e-11],
           [ 3.1439000000000000e+01, -3.0390050314974991e-03,  4.3327151129381768e-08,  4.2293352020368170e-12],
           [ 9.6110000000000007e+00, -9.0366144829881890e-04,  4.5081342231192129e-09,  1.9519010606762675e-12],
           [ 2.9771000000000001e+00, -2.2792844563355462e-04, -4.1048645672403556e-09,  7.5897091305958149e-13],
           [ 1.0463000000000000e+00, -8.2334463060487268e-05, -1.1714291685819700e-09,  2.2561754746306975e-13],
           [ 3.3143000000000000e-01, -3.8077782193205763e-05,  2.2814643864115173e-10,  1.0375917806794244e-13],
           [ 7.7226000000000003e-02, -2.3870999999999991e-06,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_rho = \
    np.array([[ 2.3248000000000001e-02, -1.7843333333333343e-06,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.3248000000000001e-02, -1.7843333333333343e-06,  3.6116593033741038e-11,  6.6648393591233812e-15],
           [ 1.8400000000000000e-02, -1.3876831124345563e-06,  7.0368847513309616e-11, -1.1417418159856168e-14],
           [ 1.4562000000000000e-02, -1.2737403176708158e-06,  1.2799504781047203e-09, -2.3396641338538801e-12],
           [ 1.4149999999999999e-02, -1.2822367927748255e-06, -5.3257855574555241e-06,  7.0044658320209803e-07],
           [ 1.4097999999999999e-02, -2.0065986271727127e-06,  8.0590946891145263e-10,  1.4325403012804948e-13],
           [ 1.3192000000000001e-02, -8.2703621232712142e-07,  4.6078141261828769e-11, -4.3041928934707528e-14],
           [ 1.2368000000000001e-02, -8.6400571660758615e-07, -3.4865414075470615e-11,  3.0871130683056139e-14],
           [ 1.1500000000000000e-02, -8.4112315270935918e-07,  3.9246305418720176e-11, -4.1231527093604597e-15],
           [ 1.0694000000000000e-02, -7.7500000000000031e-07,  2.4465355805242081e-11,  2.0346441947572638e-15],
           [ 9.9454999999999995e-03, -7.1996535580524425e-07,  9.8154421494100478e-12,  1.4649913655834255e-14],
           [ 9.2499999999999995e-03, -6.5638473053892139e-07,  1.3319305637429228e-11, -3.1345750985073658e-15],
           [ 8.6038000000000000e-03, -6.3914984455958514e-07,  2.1913557858373977e-12,  4.5584887737479782e-15],
           [ 7.9714000000000000e-03, -6.2109166666666694e-07,  4.8183333333333637e-11, -1.2291666666666938e-14],
           [ 7.3861999999999999e-03, -5.6160000000000016e-07,  1.8581011097410654e-11,  1.6189889025893806e-15],
           [ 6.8447999999999998e-03, -5.1958101109741039e-07,  2.3598385831185006e-11, -5.0173747337743496e-15],
           [ 6.3438000000000001e-03, -4.8743636363636343e-07,  3.0720662732007744e-11, -6.9842990956443184e-15],
           [ 5.8801000000000001e-03, -4.4694793545928100e-07,  1.0720608782868512e-11,  1.3795661797534051e-17],
           [ 3.9151000000000004e-03, -3.3870717299578057e-07,  1.5013217432520054e-11, -3.6955656667279327e-16],
           [ 2.5506999999999999e-03, -2.1629174117103954e-07,  4.3611756320734501e-12,  2.9303452042689304e-16],
           [ 1.6149000000000001e-03, -1.5070239581828812e-07,  3.0826397587739962e-12,  3.9868788097672538e-16],
           [ 9.8828999999999996e-04, -8.9974407157293796e-08,  1.5437688985320991e-12,  8.8897181719728140e-17],
           [ 3.3181999999999998e-04, -3.2429874670733388e-08,  3.3110385879177121e-13,  6.0308360828156865e-17],
           [ 1.0094000000000001e-04, -7.7152892464509257e-09, -8.0211402971650762e-14,  2.2122032761674318e-17],
           [ 3.7888000000000000e-05, -2.6829074773816447e-09, -4.1462906452980960e-14,  6.9613654191145397e-18],
           [ 1.3874000000000000e-05, -1.4237559807069017e-09,  1.1319614138032680e-16,  3.2550401929309837e-18],
           [ 2.9028000000000000e-06, -4.4498000000000005e-10,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_dT = \
    np.array([[ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  1.8996597597759962e-03, -2.5327340319304513e-04],
           [ 1.5832318595269262e-02,  1.0923582815767848e-06, -1.5041195641242541e-07,  1.5992765168785264e-10],
           [-3.1932067663355546e-03,  1.0923582815767829e-06,  1.1249037358530793e-09, -1.1140552510943132e-12],
           [-2.0900000000000055e-03,  2.2444752690260592e-21,  2.0162624968609079e-24, -2.0923334209159587e-27],
           [-2.0900000000000033e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0900000000000033e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0900000000000033e-03,  0.0000000000000000e+00,  7.9999999999998483e-11, -7.9999999999998485e-14],
           [-2.0900000000000033e-03, -7.9999999999998480e-08, -1.5999999999999691e-10,  7.9999999999998498e-14],
           [-2.2500000000000003e-03, -1.5999999999999696e-07,  2.6469779601696886e-26,  0.0000000000000000e+00],
           [-2.4099999999999972e-03, -1.5999999999999696e-07,  3.1999999999999786e-10, -1.5999999999999955e-13],
           [-2.4099999999999959e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.4099999999999959e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.4099999999999959e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.4099999999999959e-03,  0.0000000000000000e+00, -1.2208629769428611e-11,  1.3396908661663617e-15],
           [-2.5477543859649160e-03, -2.1609482731808997e-08,  1.5337578792937058e-12, -6.8468866109867218e-17],
           [-2.6260164609053518e-03, -1.1407068897111981e-08,  5.2113214860195160e-12, -1.0713590608606271e-16],
           [-2.5661607565011816e-03,  3.2670953006628466e-08,  1.3335733615957263e-11, -8.7424810064197905e-16],
           [-2.1786936636493553e-03,  1.0045968161805258e-07,  1.1077390484569241e-11, -7.3925331209920692e-16],
           [-8.0561111111111263e-04,  1.0023149767967530e-07, -7.4128575854256901e-12,  6.0771082046117306e-17],
           [-4.8381081081081133e-04, -2.9794329415003300e-08, -1.1561619069664294e-11,  6.7805129574822826e-16],
           [-1.2598647161790454e-03, -5.7611322083820682e-08,  5.6901850929966725e-12,  4.2068470967911626e-17],
           [-1.2248909567496734e-03,  6.8812921066486250e-08,  3.7268148935094706e-11, -1.0245531474246609e-15],
           [ 2.1654999999999999e-03,  5.0680995554098244e-07,  0.0000000000000000e+00,  0.0000000000000000e+00]])
