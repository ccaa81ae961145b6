from aviary_ref.subsystems.atmosphere.data.MIL_SPEC_210A_Tropical import DATA_ORIGIN_NOTE

"""
See MIL_SPEC_210A_Tropical for source note
"""

from collections import namedtuple
import numpy as np

atm_data = namedtuple('MIL_SPEC_210A_Cold', ['alt', 'temp', 'pres', 'rho'])
atm_data.__doc__ = """
    A namedtuple to hold data for the 1976 standard atmosphere model.

    Parameters
    ----------
    alt : float
        Geopotential Altitude in meters.
    temp : float
        Temperature in degK.
    pres : float
        Pressure in pascal.
    rho : float
        Density in kg/m^3.
    """

# turn off ruff formatting
# fmt: off

# _raw_data Units: (Geopotential Altitude in ft, Temp in degF, pressure in inHG60, density in lbm/ft^3)
_raw_data = np.array([
    0,-60,29.9,0.099417813,
    500,-53.3,29.4,0.095878668,
    1000,-46.5,28.9,0.092661254,
    1500,-39.8,28.3,0.089443855,
    2000,-33,27.8,0.086548194,
    2500,-26.1,27.3,0.083652526,
    3000,-19.3,26.8,0.080756865,
    3311,-15,26.5,0.079148166,
    3500,-15,26.3,0.078504682,
    4000,-15,25.8,0.07721772,
    4500,-15,25.4,0.075609013,
    5000,-15,24.9,0.07432206,
    5500,-15,24.4,0.073035091,
    6000,-15,24,0.071426392,
    6500,-15,23.5,0.07013943,
    7000,-15,23.1,0.068852469,
    7500,-15,22.7,0.067565501,
    8000,-15,22.2,0.066278547,
    8500,-15,21.8,0.064991586,
    9000,-15,21.4,0.063704617,
    9500,-15,21,0.062739395,
    10000,-15,20.6,0.061452437,
    10500,-15,20.2,0.060165472,
    10744,-15,20,0.059521988,
    11000,-15.8,19.8,0.05920025,
    11500,-17.5,19.4,0.058235027,
    12000,-19.1,19,0.057269808,
    12500,-20.8,18.7,0.056304585,
    13000,-22.4,18.3,0.055661101,
    13500,-24.1,17.9,0.054695882,
    14000,-25.7,17.6,0.053730659,
    14500,-27.3,17.2,0.05276544,
    15000,-29.1,16.9,0.05212196,
    15500,-30.8,16.5,0.051156737,
    16000,-32.4,16.2,0.050513256,
    16500,-34.1,15.9,0.049548034,
    17000,-35.8,15.6,0.048582811,
    17500,-37.5,15.3,0.047939334,
    18000,-39.2,14.9,0.047295853,
    18500,-41,14.6,0.046330627,
    19000,-42.7,14.3,0.04568715,
    19500,-44.4,14,0.044721927,
    20000,-46.1,13.8,0.044078447,
    20500,-47.9,13.5,0.043434966,
    21000,-49.6,13.2,0.042791486,
    21500,-51.4,12.9,0.041826263,
    22000,-53.2,12.6,0.041182786,
    22500,-54.9,12.4,0.040539302,
    23000,-56.7,12.1,0.039895821,
    23500,-58.5,11.8,0.039252341,
    24000,-60.3,11.6,0.03860886,
    24500,-62.1,11.3,0.03796538,
    25000,-63.9,11.1,0.037321895,
    25500,-65.7,10.9,0.036678419,
    26000,-67.5,10.6,0.036034938,
    26500,-69.3,10.4,0.035391454,
    27000,-71.1,10.2,0.034747973,
    27500,-73,9.9,0.034104493,
    28000,-74.8,9.7,0.033461012,
    28500,-76.7,9.5,0.032817531,
    29000,-78.6,9.3,0.032495793,
    29500,-80.4,9.1,0.031852309,
    30000,-82.3,8.9,0.03120883,
    30500,-84.2,8.7,0.030565348,
    30715,-85,8.6,0.030565348,
    31000,-85,8.5,0.029921865,
    31500,-85,8.3,0.029278383,
    32000,-85,8.1,0.028634904,
    32500,-85,7.9,0.027991422,
    33000,-85,7.7,0.027347941,
    33500,-85,7.6,0.026704459,
    34000,-85,7.4,0.02606098,
    34500,-85,7.2,0.025417499,
    35000,-85,7,0.025095759,
    35500,-85,6.9,0.024452277,
    36000,-85,6.7,0.023808796,
    36500,-85,6.6,0.023165314,
    37000,-85,6.4,0.022521835,
    37500,-85,6.2,0.022200093,
    38000,-85,6.1,0.021556614,
    38500,-85,6,0.021234872,
    39000,-85,5.8,0.020591393,
    39500,-85,5.7,0.019947911,
    40000,-85,5.5,0.01962617,
    40500,-85,5.4,0.01930443,
    41000,-85,5.3,0.018660948,
    41500,-85,5.2,0.018339209,
    42000,-85,5,0.017695727,
    42377,-85,4.9,0.017373987,
    42500,-85.6,4.9,0.017373987,
    43000,-88.2,4.8,0.017052246,
    43500,-90.7,4.7,0.016730506,
    44000,-93.3,4.6,0.016408766,
    44500,-96,4.5,0.016408766,
    45000,-98.6,4.4,0.016087025,
    45500,-101.2,4.3,0.015765285,
    46000,-103.9,4.2,0.015443545,
    46500,-106.6,4.1,0.015121804,
    47000,-109.3,4,0.015121804,
    47500,-112,3.9,0.014800062,
    48000,-114.7,3.8,0.014478322,
    48500,-117.2,3.7,0.014156581,
    49000,-119.2,3.6,0.014156581,
    49500,-121,3.5,0.013834842,
    50000,-122.9,3.4,0.0135131,
    50500,-124.7,3.3,0.01319136,
    50583,-125,3.3,0.01319135,
    51000,-125.1,3.3,0.012869619,
    51500,-125,3.2,0.012547879,
    52000,-125,3.1,0.012226138,
    52500,-125,3,0.011904398,
    53000,-125,3,0.011904398,
    53500,-125,2.9,0.011582657,
    54000,-125,2.8,0.011260917,
    54500,-125,2.8,0.010939177,
    55000,-125,2.7,0.010617436,
    55500,-125,2.6,0.010295697,
    56000,-125,2.6,0.010295697,
    56500,-125,2.5,0.009973955,
    57000,-125,2.4,0.009652215,
    57500,-125,2.4,0.009330474,
    58000,-125,2.3,0.009330474,
    58500,-125,2.3,0.009008735,
    59000,-125,2.2,0.008686993,
    59500,-125,2.2,0.008686993,
    60000,-125,2.1,0.008365253,
    60500,-125,2.1,0.008043513,
    61000,-125,2,0.008043513,
    61087,-125,2,0.008043513,
    61500,-123.7,2,0.007721772,
    62000,-122.1,1.9,0.007721772,
    62500,-120.5,1.9,0.007400031,
    63000,-119,1.8,0.007078291,
    63500,-117.5,1.8,0.007078291,
    64000,-116,1.7,0.00675655,
    64500,-114.6,1.7,0.006434809,
    65000,-113.2,1.7,0.006434809,
    65500,-111.8,1.6,0.006113069,
    66000,-110.4,1.6,0.006113069,
    66500,-109.1,1.5,0.005791328,
    67000,-107.8,1.5,0.005791328,
    67500,-106.5,1.5,0.005469589,
    68000,-105.3,1.4,0.005469589,
    68500,-104,1.4,0.005147848,
    69000,-102.8,1.4,0.005147848,
    69500,-101.7,1.3,0.004826108,
    70000,-100.5,1.3,0.004826108,
    70500,-99.4,1.3,0.004926108,
    71000,-98.3,1.2,0.004504367,
    71500,-97.2,1.2,0.004504367,
    72000,-96.1,1.2,0.004504367,
    72500,-95.1,1.2,0.004182627,
    73000,-94.1,1.1,0.004182627,
    73055,-94,1.1,0.004182627,
    73500,-94.1,1.1,0.003860886,
    74000,-94.3,1.1,0.003860886,
    74500,-94.4,1.1,0.003860886,
    75000,-94.5,1,0.003860886,
    75500,-94.6,1,0.003539145,
    76000,-94.8,0.98,0.003539145,
    76500,-94.9,0.96,0.003539145,
    77000,-95,0.94,0.003539145,
    77500,-95.2,0.91,0.003217405,
    78000,-95.3,0.89,0.003217405,
    78500,-95.5,0.87,0.003217405,
    79000,-95.6,0.85,0.003217405,
    79500,-95.7,0.83,0.002895664,
    80000,-95.9,0.81,0.002895664,
    80500,-96,0.79,0.002895664,
    81000,-96.2,0.77,0.002895664,
    81500,-96.4,0.75,0.002895664,
    82000,-96.6,0.74,0.002573924,
    82500,-96.8,0.72,0.002573924,
    83000,-97,0.7,0.002573924,
    83500,-97.2,0.68,0.002573924,
    84000,-97.4,0.67,0.002573924,
    84500,-97.6,0.65,0.002252184,
    85000,-97.8,0.64,0.002252184,
    85500,-98,0.62,0.002252184,
    86000,-98.2,0.61,0.002252184,
    86500,-98.3,0.59,0.002252184,
    87000,-98.5,0.58,0.002252184,
    87500,-98.7,0.57,0.001930443,
    88000,-98.9,0.55,0.001930443,
    88500,-99.1,0.54,0.001930443,
    89000,-99.3,0.53,0.001930443,
    89500,-99.5,0.52,0.001930443,
    90000,-99.7,0.5,0.001930443,
    90500,-99.9,0.49,0.001930443,
    91000,-100.1,0.48,0.001930443,
    91500,-100.3,0.47,0.001608702,
    92000,-100.5,0.46,0.001608702,
    92500,-100.7,0.45,0.001608702,
    93000,-100.9,0.44,0.001608702,
    93500,-101.1,0.43,0.001608702,
    94000,-101.3,0.42,0.001608702,
    94500,-101.5,0.41,0.001608702,
    95000,-101.7,0.4,0.001608702,
    95500,-101.9,0.39,0.001608702,
    96000,-102.1,0.38,0.001286962,
    96500,-102.3,0.37,0.001286962,
    97000,-102.6,0.37,0.001286962,
    97500,-102.8,0.36,0.001286962,
    98000,-103,0.35,0.001286962,
    98500,-103.2,0.34,1.29E-03,
    99000,-103.4,0.33,0.001286962,
    99500,-103.7,0.33,0.001286962,
    100000,-103.9,0.32,0.001286962,
    ])

atm_data.alt = \
    np.array([    0.              ,   152.4             ,   304.8             ,   457.20000000000005,
             609.6             ,   762.              ,   914.4000000000001 ,  1009.1928          ,
            1066.8             ,  1219.2             ,  1371.6000000000001 ,  1524.              ,
            1676.4             ,  1828.8000000000002 ,  1981.2             ,  2133.6             ,
            2286.              ,  2438.4             ,  2590.8             ,  2743.2000000000003 ,
            2895.6000000000004 ,  3048.              ,  3200.4             ,  3274.7712          ,
            3352.8             ,  3505.2000000000003 ,  3657.6000000000004 ,  3810.              ,
            3962.4             ,  4114.8             ,  4267.2             ,  4419.6             ,
            4572.              ,  4724.400000000001  ,  4876.8             ,  5029.2             ,
            5181.6             ,  5334.              ,  5486.400000000001  ,  5638.8             ,
            5791.200000000001  ,  5943.6             ,  6096.              ,  6248.400000000001  ,
            6400.8             ,  6553.200000000001  ,  6705.6             ,  6858.              ,
            7010.400000000001  ,  7162.8             ,  7315.200000000001  ,  7467.6             ,
            7620.              ,  7772.400000000001  ,  7924.8             ,  8077.200000000001  ,
            8229.6             ,  8382.              ,  8534.4             ,  8686.800000000001  ,
            8839.2             ,  8991.6             ,  9144.              ,  9296.4             ,
            9361.932           ,  9448.800000000001  ,  9601.2             ,  9753.6             ,
            9906.              , 10058.4             , 10210.800000000001  , 10363.2             ,
           10515.6             , 10668.              , 10820.4             , 10972.800000000001  ,
           11125.2             , 11277.6             , 11430.              , 11582.400000000001  ,
           11734.800000000001  , 11887.2             , 12039.6             , 12192.              ,
           12344.400000000001  , 12496.800000000001  , 12649.2             , 12801.6             ,
           12916.509600000001  , 12954.              , 13106.400000000001  , 13258.800000000001  ,
           13411.2             , 13563.6             , 13716.              , 13868.400000000001  ,
           14020.800000000001  , 14173.2             , 14325.6             , 14478.              ,
           14630.400000000001  , 14782.800000000001  , 14935.2             , 15087.6             ,
           15240.              , 15392.400000000001  , 15417.698400000001  , 15544.800000000001  ,
           15697.2             , 15849.6             , 16002.              , 16154.400000000001  ,
           16306.800000000001  , 16459.2             , 16611.600000000002  , 16764.              ,
           16916.4             , 17068.8             , 17221.2             , 17373.600000000002  ,
           17526.              , 17678.4             , 17830.8             , 17983.2             ,
           18135.600000000002  , 18288.              , 18440.4             , 18592.8             ,
           18619.317600000002  , 18745.2             , 18897.600000000002  , 19050.              ,
           19202.4             , 19354.8             , 19507.2             , 19659.600000000002  ,
           19812.              , 19964.4             , 20116.8             , 20269.2             ,
           20421.600000000002  , 20574.              , 20726.4             , 20878.8             ,
           21031.2             , 21183.600000000002  , 21336.              , 21488.4             ,
           21640.8             , 21793.2             , 21945.600000000002  , 22098.              ,
           22250.4             , 22267.164           , 22402.800000000003  , 22555.2             ,
           22707.600000000002  , 22860.              , 23012.4             , 23164.800000000003  ,
           23317.2             , 23469.600000000002  , 23622.              , 23774.4             ,
           23926.800000000003  , 24079.2             , 24231.600000000002  , 24384.              ,
           24536.4             , 24688.800000000003  , 24841.2             , 24993.600000000002  ,
           25146.              , 25298.4             , 25450.800000000003  , 25603.2             ,
           25755.600000000002  , 25908.              , 26060.4             , 26212.800000000003  ,
           26365.2             , 26517.600000000002  , 26670.              , 26822.4             ,
           26974.800000000003  , 27127.2             , 27279.600000000002  , 27432.              ,
           27584.4             , 27736.800000000003  , 27889.2             , 28041.600000000002  ,
           28194.              , 28346.4             , 28498.800000000003  , 28651.2             ,
           28803.600000000002  , 28956.              , 29108.4             , 29260.800000000003  ,
           29413.2             , 29565.600000000002  , 29718.              , 29870.4             ,
           30022.800000000003  , 30175.2             , 30327.600000000002  , 30480.              ])

atm_data.akima_T = \
    np.array([[ 2.2203888888888886e+02,  2.4241761446485939e-02,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2203888888888886e+02,  2.4241761446485939e-02,  1.1959900463007551e-06,  2.9875852949084240e-22],
           [ 2.2576111111111109e+02,  2.4606299212598427e-02,  3.5879701389024705e-06, -1.5695407431769337e-08],
           [ 2.2953888888888886e+02,  2.4606299212598427e-02, -3.5879701389022647e-06,  1.5695407431767835e-08],
           [ 2.3326111111111109e+02,  2.4606299212598378e-02,  1.1959900463011424e-06, -2.9875852949084249e-22],
           [ 2.3703888888888886e+02,  2.4970836978710963e-02,  3.5140099701291870e-06, -1.5210104487056927e-08],
           [ 2.4087222222222221e+02,  2.4982108508432414e-02, -2.5785037492408969e-06,  8.5863092792893257e-09],
           [ 2.4464999999999998e+02,  2.4794451241483443e-02,  2.7443634118581650e-04, -2.8498556583947867e-06],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4703888888888886e+02,  0.0000000000000000e+00, -1.3995749649702100e-04,  8.5814541743039067e-07],
           [ 2.4659444444444443e+02, -6.1669922838593081e-03, -1.7804964599077617e-06,  1.0384931233057249e-08],
           [ 2.4564999999999998e+02, -5.9860938435327138e-03,  3.2102890716509171e-06, -1.4456296318741352e-08],
           [ 2.4476111111111109e+02, -6.0148731408574251e-03, -3.5879701389048180e-06,  1.5695407431780316e-08],
           [ 2.4381666666666663e+02, -6.0148731408573792e-03,  3.5879701389034645e-06, -1.5695407431773728e-08],
           [ 2.4292777777777775e+02, -6.0148731408573826e-03, -4.7839601852013958e-06,  2.3543111147644047e-08],
           [ 2.4198333333333332e+02, -5.8326042578012533e-03,  2.3277621446014296e-18, -8.7386869876071831e-21],
           [ 2.4109444444444443e+02, -5.8326042578011527e-03,  6.8296199841606332e-19, -8.7386869876070793e-21],
           [ 2.4020555555555552e+02, -5.8326042578015578e-03, -1.1162573765471786e-05,  4.1854419818046590e-08],
           [ 2.3920555555555552e+02, -6.3186546126177768e-03,  3.9866334876781241e-07,  2.6159012386250420e-09],
           [ 2.3826111111111109e+02, -6.0148731408573176e-03,  4.7839601852026511e-06, -2.3543111147651131e-08],
           [ 2.3737222222222221e+02, -6.1971420239135518e-03, -4.3766481398496318e-18,  1.9195235519786716e-20],
           [ 2.3642777777777775e+02, -6.1971420239135518e-03,  7.2280144832366705e-19, -4.7801364718534445e-21],
           [ 2.3548333333333332e+02, -6.1971420239136628e-03, -1.4569855966209438e-18,  4.7801364718535017e-21],
           [ 2.3453888888888886e+02, -6.1971420239137747e-03,  4.3823394898364064e-18, -1.9195235519786490e-20],
           [ 2.3359444444444443e+02, -6.1971420239137747e-03, -7.1759402778049012e-06,  3.1390814863538529e-08],
           [ 2.3259444444444443e+02, -6.1971420239137747e-03,  7.1711009833686655e-19, -3.1369645596538231e-21],
           [ 2.3164999999999998e+02, -6.1971420239137747e-03,  1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.3070555555555552e+02, -6.1971420239137747e-03,  3.6766120914731625e-18, -1.6058270960132858e-20],
           [ 2.2976111111111109e+02, -6.1971420239137747e-03, -5.9799502315037092e-06,  2.3543111147653089e-08],
           [ 2.2876111111111109e+02, -6.3794109069699526e-03,  4.7839601852018879e-06, -2.3543111147647696e-08],
           [ 2.2781666666666663e+02, -6.5616797900261833e-03, -4.0408584906283747e-19,  8.9627558847252090e-22],
           [ 2.2681666666666663e+02, -6.5616797900262423e-03, -5.2929554877245226e-19,  2.5394475006721728e-21],
           [ 2.2581666666666663e+02, -6.5616797900262232e-03,  7.1759402778075422e-06, -3.1390814863549501e-08],
           [ 2.2487222222222221e+02, -6.5616797900261842e-03, -2.6180209939282429e-19,  0.0000000000000000e+00],
           [ 2.2387222222222221e+02, -6.5616797900262622e-03, -1.4228374967001405e-19,  8.9627558847253162e-22],
           [ 2.2287222222222221e+02, -6.5616797900262423e-03,  5.0083879883844645e-19, -2.4647578682994323e-21],
           [ 2.2187222222222221e+02, -6.5616797900262622e-03, -1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.2087222222222221e+02, -6.5616797900262622e-03, -1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.1987222222222221e+02, -6.5616797900262622e-03,  6.3173984853485857e-19, -2.4647578682994323e-21],
           [ 2.1887222222222221e+02, -6.5616797900262423e-03, -4.0408584906283987e-19,  1.7178615445723521e-21],
           [ 2.1787222222222221e+02, -6.5616797900262423e-03,  2.4472804943242267e-19, -8.2158595609981079e-22],
           [ 2.1687222222222221e+02, -6.5616797900262232e-03, -2.6749344937962638e-19,  0.0000000000000000e+00],
           [ 2.1587222222222221e+02, -6.5616797900263013e-03, -5.9799502315070686e-06,  2.3543111147667188e-08],
           [ 2.1481666666666663e+02, -6.7439486730825320e-03,  4.7839601852012848e-06, -2.3543111147639924e-08],
           [ 2.1381666666666663e+02, -6.9262175561383985e-03, -2.6407863938754294e-18,  5.7511016926986066e-21],
           [ 2.1276111111111109e+02, -6.9262175561388018e-03, -3.5286369918163480e-18,  1.7327994710468942e-20],
           [ 2.1170555555555552e+02, -6.9262175561386682e-03,  7.1759402778038085e-06, -3.1390814863535015e-08],
           [ 2.1070555555555552e+02, -6.9262175561387498e-03,  1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.0964999999999998e+02, -6.9262175561387498e-03,  1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.0859444444444443e+02, -6.9262175561387498e-03, -9.9094470034252714e-05,  1.5457134615918174e-06],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0814999999999998e+02,  0.0000000000000000e+00, -4.5928091103216806e-04,  5.9247824619871502e-06],
           [ 2.0781666666666666e+02, -9.4548700144470380e-03, -1.7787328060744326e-06,  1.0676377227956529e-08],
           [ 2.0637222222222221e+02, -9.2531268482405615e-03,  3.0290962854879354e-06, -1.3861831797203595e-08],
           [ 2.0498333333333329e+02, -9.2957130358704947e-03, -1.1959900463005645e-06, -8.9627558847253162e-22],
           [ 2.0353888888888886e+02, -9.6602508019829631e-03, -4.7839601852064585e-06,  2.3543111147666814e-08],
           [ 2.0203888888888886e+02, -9.4779819189267939e-03,  1.2179488971753202e-18, -4.7801364718535017e-21],
           [ 2.0059444444444443e+02, -9.4779819189267558e-03,  2.3919800926018291e-06, -1.5695407431772176e-08],
           [ 1.9914999999999998e+02, -9.8425196850393942e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9764999999999998e+02, -9.8425196850393942e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9614999999999998e+02, -9.8425196850393942e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9464999999999998e+02, -9.8425196850393942e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9314999999999998e+02, -9.8425196850393942e-03,  1.2407142971225076e-18, -2.9875852949083674e-21],
           [ 1.9164999999999998e+02, -9.8425196850392294e-03,  3.5879701389020008e-06,  7.8477037158885895e-09],
           [ 1.9026111111111109e+02, -8.2020997375329002e-03,  7.9732669753410025e-06, -1.3079506193144562e-08],
           [ 1.8914999999999998e+02, -6.6831923787304352e-03,  3.1893067901356544e-06, -1.5695407431769860e-08],
           [ 1.8814999999999998e+02, -6.8047049674345907e-03, -3.8253764027701668e-06,  1.9869092554044205e-08],
           [ 1.8709444444444443e+02, -6.5862553697648941e-03,  3.3218864081891733e-07, -1.1215981359530562e-09],
           [ 1.8609444444444443e+02, -6.5631541794095678e-03, -9.7049646359293069e-06,  3.4474878382146213e-07],
           [ 1.8592777777777775e+02, -6.3922673169288773e-03,  8.7753112145005059e-05, -3.2178571715034935e-07],
           [ 1.8587222222222221e+02,  3.1968674678599997e-04,  2.9805761467550058e-06, -1.7626496848282961e-08],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8592777777777775e+02,  0.0000000000000000e+00,  9.0395697207079062e-05, -3.5604034557592087e-07],
           [ 1.8664999999999998e+02,  5.8326042578010287e-03, -1.4797509965681284e-19,  1.1203444855906378e-21],
           [ 1.8753888888888886e+02,  5.8326042578010617e-03,  1.2345703703769386e-06, -8.1008554486629853e-09],
           [ 1.8842777777777775e+02,  5.6444557333559468e-03, -2.3148194444548593e-06,  7.5945519831223464e-09],
           [ 1.8926111111111109e+02,  5.4680664916886782e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9009444444444443e+02,  5.4680664916886799e-03,  1.7254401853704744e-06, -1.1321785993258180e-08],
           [ 1.9092777777777775e+02,  5.2051094074372630e-03, -1.3330798144546505e-06,  4.3736214385021193e-09],
           [ 1.9170555555555552e+02,  5.1035287255760007e-03, -2.8456749934003146e-19,  1.8672408093178184e-21],
           [ 1.9248333333333329e+02,  5.1035287255760441e-03,  2.8456749934002472e-19, -8.9627558847251018e-22],
           [ 1.9326111111111109e+02,  5.1035287255760658e-03,  6.1861554118942403e-07, -4.0591570944216517e-09],
           [ 1.9403888888888886e+02,  5.0101868754295212e-03, -3.5590015218638843e-06,  1.1676514179339382e-08],
           [ 1.9476111111111109e+02,  4.7389909594632105e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9548333333333329e+02,  4.7389909594632105e-03,  5.8848558863518509e-18, -2.5767923168585895e-20],
           [ 1.9620555555555552e+02,  4.7389909594632105e-03, -5.9799502315015510e-06,  2.3543111147645493e-08],
           [ 1.9687222222222221e+02,  4.5567220764071653e-03,  3.5879701389049519e-06, -1.5695407431781510e-08],
           [ 1.9759444444444443e+02,  4.5567220764070908e-03, -1.1959900463020699e-06,  3.1369645596537859e-21],
           [ 1.9826111111111109e+02,  4.1921843102944367e-03, -3.5879701389018899e-06,  1.5695407431767693e-08],
           [ 1.9887222222222221e+02,  4.1921843102945121e-03,  4.7839601852043240e-06, -2.3543111147657890e-08],
           [ 1.9953888888888886e+02,  4.0099154272383404e-03, -1.8952195456045646e-18,  8.2905491933707192e-21],
           [ 2.0014999999999998e+02,  4.0099154272383395e-03,  2.1057994951162330e-19, -1.3444133827088291e-21],
           [ 2.0076111111111109e+02,  4.0099154272383074e-03, -8.3093709807287214e-19,  2.6888267654175307e-21],
           [ 2.0137222222222221e+02,  4.0099154272382441e-03,  1.6300339775219700e-06, -1.0695761007369916e-08],
           [ 2.0198333333333329e+02,  3.7611039360821046e-03, -1.5187175191107043e-06,  4.9826690259528540e-09],
           [ 2.0253888888888886e+02,  3.6453776611258025e-03, -4.9514744885164296e-19,  1.4564478312678291e-21],
           [ 2.0309444444444443e+02,  3.6453776611257540e-03,  7.3554846730506694e-05, -5.5668860205156640e-06],
           [ 2.0314999999999998e+02,  1.4181103029538851e-03, -2.4804715511751493e-05,  8.3529852445156021e-08],
           [ 2.0309444444444443e+02, -7.0058719965178970e-04, -2.7658427248031637e-06,  1.6921990870759062e-08],
           [ 2.0298333333333329e+02, -3.6453776611249284e-04,  1.8745884019024126e-19, -7.9824544598332939e-22],
           [ 2.0292777777777775e+02, -3.6453776611249160e-04,  3.5570937417503934e-22,  0.0000000000000000e+00],
           [ 2.0287222222222221e+02, -3.6453776611249160e-04,  1.7109620897818984e-19, -7.4689632372709184e-22],
           [ 2.0281666666666666e+02, -3.6453776611249154e-04, -7.1759402778118274e-06,  3.1390814863568380e-08],
           [ 2.0270555555555552e+02, -3.6453776611250033e-04,  8.6081668550359519e-20, -1.8672408093178182e-22],
           [ 2.0264999999999998e+02, -3.6453776611248726e-04,  1.1418270911018490e-19, -5.6017224279531888e-22],
           [ 2.0259444444444443e+02, -3.6453776611249154e-04, -5.9799502315110005e-06,  2.3543111147683199e-08],
           [ 2.0248333333333329e+02, -5.4680664916882194e-04,  3.5879701389045974e-06, -1.5695407431779191e-08],
           [ 2.0242777777777775e+02, -5.4680664916887073e-04, -4.7839601851998830e-06,  2.3543111147637955e-08],
           [ 2.0231666666666666e+02, -3.6453776611268675e-04,  8.5725959176184481e-20, -1.8672408093178182e-22],
           [ 2.0226111111111109e+02, -3.6453776611267374e-04,  1.1418270911018490e-19, -5.6017224279531888e-22],
           [ 2.0220555555555552e+02, -3.6453776611267808e-04, -5.9799502315009022e-06,  2.3543111147641036e-08],
           [ 2.0209444444444443e+02, -5.4680664916886867e-04,  4.7839601852014797e-06, -2.3543111147643947e-08],
           [ 2.0203888888888886e+02, -7.2907553222498330e-04, -3.3265940672848886e-18,  1.4555142108631702e-20],
           [ 2.0192777777777775e+02, -7.2907553222498330e-04,  7.5410387325108337e-19, -4.9388519406456300e-21],
           [ 2.0181666666666666e+02, -7.2907553222509780e-04, -4.3289830837101256e-18,  1.8028210013962680e-20],
           [ 2.0170555555555552e+02, -7.2907553222516101e-04,  3.4731463294450838e-18, -1.5133986759520918e-20],
           [ 2.0159444444444443e+02, -7.2907553222515678e-04, -3.9433941221043922e-18,  1.8046882422055855e-20],
           [ 2.0148333333333329e+02, -7.2907553222510181e-04,  3.0633691303953657e-18, -1.4237711171047687e-20],
           [ 2.0137222222222221e+02, -7.2907553222516057e-04, -2.2409690573027480e-19,  1.0829996694043347e-21],
           [ 2.0126111111111109e+02, -7.2907553222515363e-04,  7.4698968576756485e-20, -4.2946538614307777e-22],
           [ 2.0114999999999998e+02, -7.2907553222516101e-04, -1.2236402471621353e-19,  4.3880159018968726e-22],
           [ 2.0103888888888886e+02, -7.2907553222516827e-04,  2.0986853076326821e-19, -6.8154289540097129e-22],
           [ 2.0092777777777775e+02, -7.2907553222515244e-04,  1.2257745034071563e-18, -9.3362040465886472e-24],
           [ 2.0081666666666666e+02, -7.2907553222477915e-04,  7.1759402777997021e-06, -3.1390814863521317e-08],
           [ 2.0076111111111109e+02, -7.2907553222513488e-04, -1.1453841848435993e-19,  9.3362040465886472e-24],
           [ 2.0064999999999998e+02, -7.2907553222516968e-04, -8.5370249802009441e-21,  6.5353428326123647e-23],
           [ 2.0053888888888886e+02, -7.2907553222516827e-04,  1.5793496213371370e-19, -3.4543954972378000e-22],
           [ 2.0042777777777775e+02, -7.2907553222514442e-04,  3.1715047801445754e-18, -1.3117366685457052e-20],
           [ 2.0031666666666666e+02, -7.2907553222509194e-04, -4.7472973077400749e-18,  1.9783416374722284e-20],
           [ 2.0020555555555552e+02, -7.2907553222516101e-04,  3.8423726598386839e-18, -1.6805167283859565e-20],
           [ 2.0009444444444443e+02, -7.2907553222516101e-04, -4.2941235650410749e-18,  1.9783416374722284e-20],
           [ 1.9998333333333329e+02, -7.2907553222509194e-04,  2.8271781059431454e-18, -1.3117366685457052e-20],
           [ 1.9987222222222221e+02, -7.2907553222514442e-04,  1.4228374967001235e-21, -3.4543954972378000e-22],
           [ 1.9976111111111109e+02, -7.2907553222516827e-04, -7.4698968576758266e-20,  4.3880159018968726e-22],
           [ 1.9964999999999998e+02, -7.2907553222516101e-04,  1.2307544346456069e-19, -4.2946538614307777e-22],
           [ 1.9953888888888886e+02, -7.2907553222515363e-04, -2.6962770562467981e-19,  1.0829996694043347e-21],
           [ 1.9942777777777775e+02, -7.2907553222516068e-04,  3.4496695107494494e-18, -1.4237711171047687e-20],
           [ 1.9931666666666666e+02, -7.2907553222510181e-04, -4.3040834275178735e-18,  1.8046882422055855e-20],
           [ 1.9920555555555552e+02, -7.2907553222515678e-04,  3.4454009982594309e-18, -1.5133986759520918e-20],
           [ 1.9909444444444443e+02, -7.2907553222516101e-04, -3.9142259534220398e-18,  1.8028210013962680e-20],
           [ 1.9898333333333329e+02, -7.2907553222509780e-04,  2.6144639001865391e-18, -1.2221091096985120e-20],
           [ 1.9887222222222221e+02, -7.2907553222515233e-04,  1.4228374967001235e-21, -9.3362040465886472e-24],
           [ 1.9876111111111109e+02, -7.2907553222515244e-04,  2.8456749934002470e-21, -9.3362040465886472e-24],
           [ 1.9864999999999998e+02, -7.2907553222515244e-04, -1.1240416223931243e-19,  0.0000000000000000e+00],
           [ 1.9853888888888886e+02, -7.2907553222518692e-04, -7.1759402778040313e-06,  3.1390814863534393e-08],
           [ 1.9837222222222221e+02, -7.2907553222518692e-04,  1.1382699973601258e-19,  0.0000000000000000e+00],
           [ 1.9826111111111109e+02, -7.2907553222515244e-04,  2.1342562450501852e-21, -9.3362040465886472e-24],
           [ 1.9814999999999998e+02, -7.2907553222515233e-04,  1.4228374967001235e-21, -9.3362040465886472e-24],
           [ 1.9803888888888886e+02, -7.2907553222515244e-04, -1.1240416223931243e-19,  0.0000000000000000e+00],
           [ 1.9792777777777775e+02, -7.2907553222518692e-04, -5.9799502315034170e-06,  2.3543111147651167e-08],
           [ 1.9776111111111109e+02, -9.1134441528140239e-04,  1.1959900463007572e-06,  0.0000000000000000e+00],
           [ 1.9764999999999998e+02, -5.4680664916893697e-04,  0.0000000000000000e+00,  0.0000000000000000e+00]])


atm_data.akima_P = \
    np.array([[ 1.0096781499999999e+05, -1.1078904199474941e+01,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.0096781499999999e+05, -1.1078904199474941e+01, -6.1776189296727866e-16,  1.9885367722910472e-18],
           [ 9.9279389999999999e+04, -1.1078904199474989e+01, -6.4107366251321373e-16,  0.0000000000000000e+00],
           [ 9.7590964999999997e+04, -1.1078904199475181e+01, -4.3617733068797154e-02,  1.9080373170952375e-04],
           [ 9.5564854999999996e+04, -1.1078904199475183e+01,  6.5272954728618136e-16,  0.0000000000000000e+00],
           [ 9.3876429999999993e+04, -1.1078904199474991e+01,  1.1655884772967524e-17,  0.0000000000000000e+00],
           [ 9.2188005000000005e+04, -1.1078904199474993e+01, -1.3520826336642319e-15,  5.0478241142772681e-18],
           [ 9.0499580000000002e+04, -1.1078904199475046e+01,  1.2401522517257801e-02, -8.7218456234777040e-05],
           [ 8.9486524999999994e+04, -1.1078904199475080e+01, -2.5953847058812256e-02,  2.5623070050083939e-04],
           [ 8.8811154999999999e+04, -1.1518187585541229e+01,  2.4875851460260784e-03,  2.5908908820108787e-06],
           [ 8.7122729999999996e+04, -1.0579445403597154e+01,  3.7063155695072424e-02, -1.6929921276685736e-04],
           [ 8.5771989999999991e+04, -1.1078904199474982e+01, -1.8532856789018380e-15,  7.3422896207669559e-18],
           [ 8.4083564999999988e+04, -1.1078904199475039e+01,  0.0000000000000000e+00,  2.4474298735889786e-18],
           [ 8.2395139999999999e+04, -1.1078904199474870e+01,  3.6348110890662907e-02, -1.4310279878213843e-04],
           [ 8.1044399999999994e+04, -9.9710137795275386e+00, -2.9078488712533667e-02,  1.4310279878215307e-04],
           [ 7.9355974999999991e+04, -8.8631233595800811e+00,  1.3637385184372015e-15, -5.3537528484759060e-18],
           [ 7.8005235000000001e+04, -8.8631233595800420e+00,  1.1655884772967516e-17, -1.8355724051917340e-18],
           [ 7.6654494999999995e+04, -8.8631233595801628e+00, -4.3617733068798063e-02,  1.9080373170952885e-04],
           [ 7.4966069999999992e+04, -8.8631233595800811e+00,  1.8532856789018352e-15, -8.1071114562634918e-18],
           [ 7.3615330000000002e+04, -8.8631233595800829e+00, -1.1655884772967516e-17,  0.0000000000000000e+00],
           [ 7.2264589999999997e+04, -8.8631233595800829e+00, -1.1655884772967516e-17,  0.0000000000000000e+00],
           [ 7.0913849999999991e+04, -8.8631233595800811e+00,  9.0915901229146891e-16, -3.0592873419862406e-18],
           [ 6.9563110000000001e+04, -8.8631233595800119e+00, -6.8769720160508347e-16,  1.5296436709931114e-18],
           [ 6.8212369999999995e+04, -8.8631233595801167e+00, -8.7915344804031653e-03,  7.8807696889864669e-05],
           [ 6.7537000000000000e+04, -8.8631233595801060e+00,  7.9866454593788654e-03, -6.8236731902225541e-05],
           [ 6.6861630000000005e+04, -8.8631233595800598e+00, -9.7909432092927135e-16,  3.3652160761848454e-18],
           [ 6.5510889999999992e+04, -8.8631233595801184e+00,  7.9260016456179109e-16,  4.5889310129793349e-19],
           [ 6.4160150000000001e+04, -8.8631233595798449e+00,  4.3617733068794191e-02, -1.9080373170951139e-04],
           [ 6.3147094999999994e+04, -8.8631233595798449e+00, -1.3987061727561020e-15,  3.0592873419862229e-18],
           [ 6.1796355000000003e+04, -8.8631233595800580e+00, -1.8649415636748024e-15,  9.1778620259586694e-18],
           [ 6.0445614999999991e+04, -8.8631233595799870e+00,  3.6348110890667092e-02, -1.4310279878215578e-04],
           [ 5.9432560000000005e+04, -7.7552329396325632e+00, -2.1808866534400593e-02,  9.5401865854770969e-05],
           [ 5.8081819999999992e+04, -7.7552329396325206e+00,  2.1808866534399184e-02, -9.5401865854765291e-05],
           [ 5.7068764999999992e+04, -7.7552329396325561e+00, -2.9078488712529889e-02,  1.4310279878213417e-04],
           [ 5.5718025000000001e+04, -6.6473425196851998e+00,  6.1776189296728014e-16,  0.0000000000000000e+00],
           [ 5.4704969999999994e+04, -6.6473425196850089e+00,  3.4967654318902654e-17, -2.2944655064896809e-19],
           [ 5.3691915000000001e+04, -6.6473425196850151e+00, -2.9139711932418702e-17,  7.6482183549655113e-20],
           [ 5.2678860000000001e+04, -6.6473425196850178e+00, -2.5060152261880235e-16,  0.0000000000000000e+00],
           [ 5.1665805000000000e+04, -6.6473425196850959e+00, -4.3617733068796342e-02,  1.9080373170951760e-04],
           [ 5.0315065000000002e+04, -6.6473425196852398e+00,  8.8001930035905002e-16,  0.0000000000000000e+00],
           [ 4.9302009999999995e+04, -6.6473425196849698e+00, -5.8279423864837405e-18,  0.0000000000000000e+00],
           [ 4.8288955000000002e+04, -6.6473425196849698e+00, -1.7075871192397461e-15,  7.4952539878662914e-18],
           [ 4.7275900000000001e+04, -6.6473425196849698e+00,  4.3617733068797716e-02, -1.9080373170952689e-04],
           [ 4.6600529999999999e+04, -6.6473425196849787e+00, -2.5060152261880082e-16,  0.0000000000000000e+00],
           [ 4.5587474999999999e+04, -6.6473425196850568e+00, -1.2238679011615929e-16,  8.4130401904621626e-19],
           [ 4.4574419999999998e+04, -6.6473425196850373e+00,  2.6225740739176830e-16, -8.4130401904620625e-19],
           [ 4.3561364999999998e+04, -6.6473425196850178e+00, -7.6346045262937457e-16,  3.3652160761848651e-18],
           [ 4.2548309999999998e+04, -6.6473425196850178e+00,  4.3617733068799500e-02, -1.9080373170953440e-04],
           [ 4.1872940000000002e+04, -6.6473425196850098e+00, -9.0333106990497976e-16,  3.5181804432841355e-18],
           [ 4.0859884999999995e+04, -6.6473425196850373e+00,  0.0000000000000000e+00,  1.1472327532448402e-18],
           [ 3.9846830000000002e+04, -6.6473425196849538e+00,  3.6348110890664975e-02, -1.4310279878214583e-04],
           [ 3.9171459999999999e+04, -5.5394520997375363e+00, -2.9078488712532678e-02,  1.4310279878214819e-04],
           [ 3.8158404999999999e+04, -4.4315616797901276e+00,  7.2849279831047187e-16, -1.6061258545427767e-18],
           [ 3.7483034999999996e+04, -4.4315616797900175e+00,  9.6743843615630096e-16, -4.8183775636282725e-18],
           [ 3.6807665000000001e+04, -4.4315616797900539e+00, -4.3617733068799361e-02,  1.9080373170953402e-04],
           [ 3.5794610000000001e+04, -4.4315616797900548e+00,  4.4292362137276426e-16, -1.6826080380924125e-18],
           [ 3.5119239999999998e+04, -4.4315616797900397e+00, -5.8279423864837752e-18, -6.1185746839724822e-19],
           [ 3.4443869999999995e+04, -4.4315616797900805e+00, -4.3617733068797113e-02,  1.9080373170952240e-04],
           [ 3.3430815000000002e+04, -4.4315616797902013e+00,  8.1008399172124471e-16,  7.6482183549656027e-20],
           [ 3.2755444999999996e+04, -4.4315616797899535e+00,  4.2543979421331054e-16, -2.7533586077875515e-18],
           [ 3.2080075000000001e+04, -4.4315616797900175e+00, -4.6623539091870201e-17, -2.2944655064896809e-19],
           [ 3.1404705000000002e+04, -4.4315616797900486e+00, -1.4569855966209438e-16,  7.6482183549656015e-19],
           [ 3.0729334999999999e+04, -4.4315616797900423e+00,  1.5735444443506192e-16, -5.3537528484759220e-19],
           [ 3.0053965000000000e+04, -4.4315616797900299e+00, -2.2146181068638346e-16,  4.5889310129793619e-19],
           [ 2.9378594999999998e+04, -4.4315616797900681e+00, -3.3025866033699586e-02,  3.3597698868440213e-04],
           [ 2.9040909999999996e+04, -4.4315616797900272e+00,  1.8794960386679639e-02, -1.4424153417966903e-04],
           [ 2.8703224999999999e+04, -4.4315616797899748e+00,  6.4107366251321528e-17, -1.7590902216420885e-18],
           [ 2.8027855000000003e+04, -4.4315616797900779e+00, -2.7391329216473742e-16,  1.8355724051917448e-18],
           [ 2.7352484999999997e+04, -4.4315616797900352e+00,  3.7881625512144538e-16, -1.2237149367944964e-18],
           [ 2.6677115000000002e+04, -4.4315616797900050e+00, -9.5578255138333904e-16,  4.1300379116814252e-18],
           [ 2.6001744999999999e+04, -4.4315616797900059e+00,  4.3617733068798584e-02, -1.9080373170952763e-04],
           [ 2.5664059999999998e+04, -4.4315616797899580e+00, -3.1470888887012384e-16,  0.0000000000000000e+00],
           [ 2.4988690000000002e+04, -4.4315616797900539e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4313320000000000e+04, -4.4315616797900539e+00,  1.5152650204857815e-16,  0.0000000000000000e+00],
           [ 2.3637950000000001e+04, -4.4315616797900059e+00,  3.6348110890665745e-02, -1.4310279878214892e-04],
           [ 2.3300264999999999e+04, -3.3236712598425155e+00, -2.1808866534398650e-02,  9.5401865854761333e-05],
           [ 2.2624895000000000e+04, -3.3236712598425155e+00,  2.9078488712532748e-02, -1.4310279878214998e-04],
           [ 2.2287209999999999e+04, -4.4315616797900299e+00, -5.8279423864837752e-18,  0.0000000000000000e+00],
           [ 2.1611840000000000e+04, -4.4315616797900299e+00, -5.8279423864837752e-18,  0.0000000000000000e+00],
           [ 2.0936470000000001e+04, -4.4315616797900299e+00,  2.9078488712532994e-02, -9.5401865854766429e-05],
           [ 2.0598785000000000e+04, -2.2157808398950136e+00, -2.9139711932418876e-18, -5.3537528484759220e-19],
           [ 2.0261099999999999e+04, -2.2157808398950531e+00, -3.6348110890665801e-02,  1.4310279878214935e-04],
           [ 1.9585730000000000e+04, -3.3236712598425289e+00,  2.1808866534400086e-02, -9.5401865854768570e-05],
           [ 1.9248045000000002e+04, -3.3236712598425164e+00, -2.9078488712533546e-02,  1.4310279878215309e-04],
           [ 1.8572674999999999e+04, -2.2157808398950265e+00,  9.8492226331574630e-16, -4.3212433705554629e-18],
           [ 1.8234990000000002e+04, -2.2157808398950269e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.7897305000000000e+04, -2.2157808398950269e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.7559619999999999e+04, -2.2157808398950269e+00, -3.3289398708532730e-02,  1.2303250887313853e-04],
           [ 1.6884250000000000e+04, -3.7898189963996609e+00,  4.5192320054126805e-03,  2.5129433724284555e-05],
           [ 1.6546565000000002e+04, -1.7557692867630375e+00,  1.5276762620354206e-01, -2.8256599761267882e-03],
           [ 1.6546565000000002e+04, -2.2157808398950110e+00, -8.7419135797255587e-18,  0.0000000000000000e+00],
           [ 1.6208879999999999e+04, -2.2157808398950150e+00,  1.1655884772967550e-17, -1.1472327532448405e-19],
           [ 1.5871195000000000e+04, -2.2157808398950172e+00, -1.6609635801478759e-16,  6.8833965194690414e-19],
           [ 1.5533509999999998e+04, -2.2157808398950212e+00,  3.4967654318902654e-17,  3.8241091774828014e-20],
           [ 1.5195824999999999e+04, -2.2157808398950083e+00,  1.0198899176346607e-16, -4.5889310129793619e-19],
           [ 1.4858140000000001e+04, -2.2157808398950083e+00, -7.8677222217530022e-17,  3.0592873419861679e-19],
           [ 1.4520454999999998e+04, -2.2157808398950096e+00,  1.5444047324182003e-16, -7.2658074372173224e-19],
           [ 1.4182770000000000e+04, -2.2157808398950132e+00, -2.5934343619852797e-16,  1.1089916614700123e-18],
           [ 1.3845084999999999e+04, -2.2157808398950150e+00, -5.8279423864837752e-18,  3.8241091774828014e-20],
           [ 1.3507400000000000e+04, -2.2157808398950145e+00, -8.7419135797256635e-18,  3.8241091774828014e-20],
           [ 1.3169715000000000e+04, -2.2157808398950150e+00,  1.8940812756072045e-16, -6.5009856017206072e-19],
           [ 1.2832029999999999e+04, -2.2157808398950016e+00,  8.7419135797256635e-18, -1.1472327532448405e-19],
           [ 1.2494345000000001e+04, -2.2157808398950070e+00, -3.1470888887012384e-16,  1.2237149367944964e-18],
           [ 1.2156660000000000e+04, -2.2157808398950189e+00,  6.7021337444563412e-17, -2.6768764242379610e-19],
           [ 1.1818975000000000e+04, -2.2157808398950176e+00, -1.2238679011615929e-16,  3.8241091774828008e-19],
           [ 1.1481289999999999e+04, -2.2157808398950269e+00, -1.4539244356265690e-02,  9.5401865854762485e-05],
           [ 1.1143605000000000e+04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.1143605000000000e+04,  0.0000000000000000e+00,  8.7165733550758438e-03, -6.8579572208971769e-05],
           [ 1.1143605000000000e+04, -1.1078904199475075e+00, -1.4539244356266542e-02,  4.7700932927383750e-05],
           [ 1.0805920000000000e+04, -2.2157808398950150e+00, -2.9139711932418876e-18,  0.0000000000000000e+00],
           [ 1.0468235000000001e+04, -2.2157808398950150e+00, -2.3603166665259290e-16,  1.0325094779203563e-18],
           [ 1.0130549999999999e+04, -2.2157808398950150e+00,  4.3617733068799014e-02, -1.9080373170953001e-04],
           [ 1.0130549999999999e+04, -2.2157808398950030e+00, -1.1947281892291738e-16,  2.6768764242379610e-19],
           [ 9.7928649999999998e+03, -2.2157808398950212e+00, -1.5444047324182003e-16,  7.6482183549656015e-19],
           [ 9.4551799999999985e+03, -2.2157808398950150e+00,  4.3617733068799000e-02, -1.9080373170952990e-04],
           [ 9.4551799999999985e+03, -2.2157808398950007e+00, -4.7497730449843333e-16,  1.8738134969666172e-18],
           [ 9.1174950000000008e+03, -2.2157808398950150e+00, -5.8279423864837058e-18,  6.5009856017206072e-19],
           [ 8.7798099999999995e+03, -2.2157808398949719e+00,  4.3617733068799354e-02, -1.9080373170953635e-04],
           [ 8.7798099999999995e+03, -2.2157808398949830e+00, -5.5365452671595205e-17,  1.1472327532448130e-19],
           [ 8.4421250000000000e+03, -2.2157808398949919e+00, -6.9935308637804470e-17,  3.4416982597344393e-19],
           [ 8.1044399999999996e+03, -2.2157808398949888e+00,  3.6348110890666363e-02, -1.4310279878215312e-04],
           [ 8.1044399999999996e+03, -1.1078904199474973e+00, -2.1808866534399361e-02,  9.5401865854764518e-05],
           [ 7.7667549999999992e+03, -1.1078904199474942e+00,  2.1808866534399805e-02, -9.5401865854768652e-05],
           [ 7.7667549999999992e+03, -1.1078904199474942e+00, -2.1808866534399087e-02,  9.5401865854763041e-05],
           [ 7.4290700000000006e+03, -1.1078904199475075e+00,  2.1808866534399549e-02, -9.5401865854765250e-05],
           [ 7.4290700000000006e+03, -1.1078904199475075e+00, -2.1808866534400593e-02,  9.5401865854771891e-05],
           [ 7.0913850000000002e+03, -1.1078904199475237e+00,  2.1808866534399864e-02, -9.5401865854766659e-05],
           [ 7.0913850000000002e+03, -1.1078904199475237e+00, -2.9078488712533844e-02,  1.4310279878215681e-04],
           [ 6.7536999999999998e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 6.7536999999999998e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 6.7536999999999998e+03,  0.0000000000000000e+00, -3.6348110890665579e-02,  1.4310279878214664e-04],
           [ 6.4160149999999994e+03, -1.1078904199474959e+00,  2.1808866534399840e-02, -9.5401865854768801e-05],
           [ 6.4160149999999994e+03, -1.1078904199474959e+00, -2.1808866534399257e-02,  9.5401865854763989e-05],
           [ 6.0783299999999999e+03, -1.1078904199474959e+00,  2.1808866534399840e-02, -9.5401865854768801e-05],
           [ 6.0783299999999999e+03, -1.1078904199474959e+00, -2.9078488712532477e-02,  1.4310279878214664e-04],
           [ 5.7406449999999995e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.7406449999999995e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.7406449999999995e+03,  0.0000000000000000e+00, -3.6348110890665468e-02,  1.4310279878214613e-04],
           [ 5.4029600000000000e+03, -1.1078904199474959e+00,  2.1808866534399840e-02, -9.5401865854768801e-05],
           [ 5.4029600000000000e+03, -1.1078904199474959e+00, -2.9078488712532477e-02,  1.4310279878214664e-04],
           [ 5.0652749999999996e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.0652749999999996e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.0652749999999996e+03,  0.0000000000000000e+00, -4.3617733068798688e-02,  1.9080373170952877e-04],
           [ 4.7275899999999992e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.7275899999999992e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.7275899999999992e+03,  0.0000000000000000e+00, -4.3617733068798577e-02,  1.9080373170952825e-04],
           [ 4.3899049999999997e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.3899049999999997e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.3899049999999997e+03,  0.0000000000000000e+00, -4.3617733068800700e-02,  1.9080373170954210e-04],
           [ 4.0522199999999998e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.0522199999999998e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.0522199999999998e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.0522199999999998e+03,  0.0000000000000000e+00, -4.3617733068798577e-02,  1.9080373170952825e-04],
           [ 3.7145350000000003e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.7145350000000003e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.7145350000000003e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.7145350000000003e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.7145350000000003e+03,  0.0000000000000000e+00, -4.1194525676089652e-02,  1.7490342073374747e-04],
           [ 3.3768499999999999e+03, -3.6929680664916803e-01,  7.7542636566753495e-03, -3.4980684146747020e-05],
           [ 3.3768499999999999e+03, -4.4315616797899854e-01,  2.9503958331573761e-17, -2.5812736948008291e-19],
           [ 3.3093129999999996e+03, -4.4315616797900764e-01, -3.6424639915524028e-19,  0.0000000000000000e+00],
           [ 3.2417759999999998e+03, -4.4315616797900775e-01,  1.5079800925026590e-16, -6.5487869664391409e-19],
           [ 3.1742389999999996e+03, -4.4315616797900770e-01, -4.3617733068800589e-03,  1.9080373170954228e-05],
           [ 3.0729335000000001e+03, -4.4315616797900304e-01,  1.9669305554382506e-17,  0.0000000000000000e+00],
           [ 3.0053964999999998e+03, -4.4315616797899715e-01,  1.4934102365364497e-17, -1.0516300238077453e-19],
           [ 2.9378595000000000e+03, -4.4315616797899954e-01, -1.9596456274551928e-16,  8.0784306374326098e-19],
           [ 2.8703224999999998e+03, -4.4315616797900309e-01,  1.2165829731784736e-16, -5.4493555779128623e-19],
           [ 2.8027855000000000e+03, -4.4315616797900392e-01, -8.8147628595568147e-17,  4.1587187305126449e-19],
           [ 2.7352485000000001e+03, -4.4315616797900181e-01,  1.6026841562830191e-17, -2.8680818831120326e-20],
           [ 2.6677114999999999e+03, -4.4315616797899904e-01,  2.4404508743400517e-17, -8.6042456493360983e-20],
           [ 2.6001745000000001e+03, -4.4315616797899715e-01, -2.6626411778248065e-16,  1.1615731626604285e-18],
           [ 2.5326374999999998e+03, -4.4315616797899715e-01,  4.3617733068798421e-03, -1.9080373170952798e-05],
           [ 2.4988689999999997e+03, -4.4315616797900009e-01, -1.4934102365364852e-16,  6.5009856017209163e-19],
           [ 2.4313319999999999e+03, -4.4315616797900015e-01,  1.0927391974656948e-18, -4.7801364718533874e-21],
           [ 2.3637949999999996e+03, -4.4315616797900009e-01,  3.8974364709609785e-17,  0.0000000000000000e+00],
           [ 2.2962580000000003e+03, -4.4315616797898821e-01,  3.6348110890663961e-03, -1.4310279878214426e-05],
           [ 2.2624895000000001e+03, -3.3236712598425050e-01, -2.1808866534399219e-03,  9.5401865854763634e-06],
           [ 2.1949524999999999e+03, -3.3236712598425194e-01,  2.1808866534399748e-03, -9.5401865854768225e-06],
           [ 2.1611840000000002e+03, -3.3236712598425061e-01, -2.1808866534399141e-03,  9.5401865854763176e-06],
           [ 2.0936469999999999e+03, -3.3236712598425294e-01,  2.1808866534399904e-03, -9.5401865854766683e-06],
           [ 2.0598784999999998e+03, -3.3236712598425194e-01, -2.9078488712534420e-03,  1.4310279878215850e-05],
           [ 1.9923414999999998e+03, -2.2157808398950538e-01,  1.1127727494192325e-16, -4.3977255541051164e-19],
           [ 1.9585729999999999e+03, -2.2157808398950199e-01,  5.4636959873286042e-19, -1.4818423062746208e-19],
           [ 1.9248044999999997e+03, -2.2157808398951212e-01, -4.3617733068796096e-03,  1.9080373170951859e-05],
           [ 1.8572675000000002e+03, -2.2157808398950385e-01,  7.5034758225977711e-17, -3.2743934832195705e-19],
           [ 1.8234990000000000e+03, -2.2157808398950385e-01, -1.8212319957762014e-19,  0.0000000000000000e+00],
           [ 1.7897305000000001e+03, -2.2157808398950382e-01,  7.4852635026400098e-17, -3.2743934832195705e-19],
           [ 1.7559620000000000e+03, -2.2157808398950388e-01, -4.3617733068801040e-03,  1.9080373170954390e-05],
           [ 1.6884250000000000e+03, -2.2157808398950152e-01,  9.8346527771912528e-18,  0.0000000000000000e+00],
           [ 1.6546564999999998e+03, -2.2157808398949858e-01,  6.3743119852165529e-18, -4.3021228246680491e-20],
           [ 1.6208879999999999e+03, -2.2157808398949960e-01, -9.9621390168958217e-17,  4.0631160010755732e-19],
           [ 1.5871194999999998e+03, -2.2157808398950163e-01,  8.9604614192186982e-17, -3.9197119069197781e-19],
           [ 1.5533510000000001e+03, -2.2157808398950160e-01, -8.6508519799369568e-17,  4.0631160010755732e-19],
           [ 1.5195825000000000e+03, -2.2157808398949960e-01,  1.8576566356916812e-17, -8.1262320021507590e-20],
           [ 1.4858140000000001e+03, -2.2157808398949941e-01, -2.1854783949313897e-18, -1.1950341179633470e-20],
           [ 1.4520454999999999e+03, -2.2157808398950099e-01, -7.9041468616687147e-17,  3.3221948479382625e-19],
           [ 1.4182769999999998e+03, -2.2157808398950196e-01,  6.3560996652587912e-17, -2.7246777889564311e-19],
           [ 1.3845084999999999e+03, -2.2157808398950155e-01, -5.7368807866950348e-17,  2.7724791536750968e-19],
           [ 1.3507400000000000e+03, -2.2157808398949971e-01,  1.9487182354804892e-17, -8.1262320021507590e-20],
           [ 1.3169715000000001e+03, -2.2157808398949932e-01, -9.2882831784584058e-18,  3.1070887067047022e-20],
           [ 1.2832030000000000e+03, -2.2157808398950005e-01, -1.0399234695882110e-16,  4.5411296482609351e-19],
           [ 1.2494344999999998e+03, -2.2157808398950005e-01,  4.3617733068798802e-03, -1.9080373170952927e-05],
           [ 1.2494344999999998e+03, -2.2157808398950005e-01, -7.4852635026401873e-17,  3.2743934832197265e-19],
           [ 1.2156659999999999e+03, -2.2157808398950005e-01, -5.8279423864837058e-18,  4.0631160010753795e-20],
           [ 1.1818974999999998e+03, -2.2157808398949913e-01,  2.6954233537487141e-17, -8.8432524729287679e-20],
           [ 1.1481290000000001e+03, -2.2157808398949710e-01, -1.6208964762408193e-16,  7.0985026607026192e-19],
           [ 1.1143605000000000e+03, -2.2157808398949708e-01,  3.6348110890665427e-03, -1.4310279878214664e-05],
           [ 1.1143605000000000e+03, -1.1078904199475230e-01, -7.2696221781333805e-04, -1.6730477651487654e-20],
           [ 1.0805920000000001e+03, -3.3236712598425577e-01,  0.0000000000000000e+00,  0.0000000000000000e+00]])


atm_data.akima_rho = \
    np.array([[ 1.5925192972241529e+00, -3.8890048774016994e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.5925192972241529e+00, -3.8890048774016994e-04,  1.0344787559249077e-11,  7.2792731182752311e-10],
           [ 1.5358276789104974e+00, -3.3817733952306830e-04,  1.5516996456969987e-11, -3.3938378598637322e-14],
           [ 1.4842896926327349e+00, -3.3817497467645647e-04, -1.5128358360053269e-07,  9.9270837461767865e-10],
           [ 1.4327519466317273e+00, -3.1511699158131792e-04,  1.4121249374710892e-07, -4.6331142202966785e-10],
           [ 1.3863679447957644e+00, -3.0435770316715824e-04, -3.1931923806880576e-16,  1.4060650061304406e-18],
           [ 1.3399838308306500e+00, -3.0435770316651612e-04,  7.9660336075730750e-12, -2.0592849585406252e-14],
           [ 1.2935998289946873e+00, -3.0435670997321920e-04,  2.6759464791430721e-07,  7.9532670899682793e-10],
           [ 1.2678309640034087e+00, -2.3218497627662961e-04,  1.2932797245688018e-06, -6.4022851639652257e-09],
           [ 1.2575233475257157e+00, -1.4692019758496432e-04,  2.7793386094008701e-07, -1.3221031141582609e-09],
           [ 1.2369082106810318e+00, -1.5432650564450295e-04, -4.1561660535282944e-07,  2.0915825708847127e-09],
           [ 1.2111392175421505e+00, -1.3527066252139129e-04,  2.7587111871757377e-11, -1.0861153182897769e-13],
           [ 1.1905242248635193e+00, -1.3526982172580731e-04, -3.7724615394383567e-16, -3.6200093263837813e-14],
           [ 1.1699089758896835e+00, -1.3527234416482633e-04, -6.6565880337019458e-07,  2.9119264632570202e-09],
           [ 1.1441401108984048e+00, -1.3527003191229260e-04,  6.8972539651960092e-13, -1.8285422435446578e-19],
           [ 1.1235249740537208e+00, -1.3526982169673253e-04,  3.2188285491464637e-13, -2.1119937654085380e-15],
           [ 1.1029098532274872e+00, -1.3526987074481930e-04, -1.3839672102590843e-11,  6.1244962939266731e-14],
           [ 1.0822946202721015e+00, -1.3526982169444492e-04,  1.2727816803235839e-11, -5.1837429264445486e-14],
           [ 1.0616796115750200e+00, -1.3526955414695674e-04, -3.5110018448219844e-12,  1.1518641100696466e-14],
           [ 1.0410644907487867e+00, -1.3526982171273768e-04, -1.6552243166241476e-11,  7.2407388048345834e-14],
           [ 1.0204492417749507e+00, -1.3526982168660370e-04,  6.6568845841282511e-07, -2.9120079184178396e-09],
           [ 1.0049878811322126e+00, -1.3526877065619177e-04, -5.2596367131826176e-12,  2.8353950578400574e-15],
           [ 9.8437280836132990e-01, -1.3527017623084662e-04, -6.4339445364335446e-13,  1.3845811262273854e-15],
           [ 9.6375762346129512e-01, -1.3527027586362919e-04, -1.7324659961657764e-07,  1.7280456451645593e-09],
           [ 9.5345000698360227e-01, -1.3236553866304202e-04,  2.1535088037666034e-06, -1.6706829471999383e-08],
           [ 9.4829626281855706e-01, -1.0145239759358107e-04, -5.4512271379403953e-12,  2.6935475705461215e-14],
           [ 9.3283488615736876e-01, -1.0145218233693008e-04,  9.9819431363028697e-17, -4.4001529671573088e-19],
           [ 9.1737357356998150e-01, -1.0145218233716424e-04, -8.2761472648929411e-12,  3.6203693846785249e-14],
           [ 9.0191219690879321e-01, -1.0145218233193731e-04,  6.6568432020631638e-07, -2.9119988664536253e-09],
           [ 8.9160458043110036e-01, -1.0145176191062404e-04, -2.7586357327160171e-12, -2.2504686449201172e-19],
           [ 8.7614326784371321e-01, -1.0145260275847599e-04, -1.0289329391996255e-16,  4.5010073113706111e-19],
           [ 8.6068189118252492e-01, -1.0145260275847604e-04,  2.7587386210299976e-12, -2.2504336341549293e-19],
           [ 8.4522057859513766e-01, -1.0145176191062475e-04,  5.5474147400527951e-07, -2.1840274342381549e-09],
           [ 8.3491302619124619e-01, -8.4543651696908793e-05, -3.3285285018906811e-07,  1.4560480820442318e-09],
           [ 8.1945164953005778e-01, -8.4543730528477534e-05,  4.4379897245306677e-07, -2.1840489299193583e-09],
           [ 8.0914408110771585e-01, -1.0145239254847390e-04, -1.0345210864253506e-12,  2.2627343794108152e-15],
           [ 7.9368272046497779e-01, -1.0145255020932411e-04, -4.4381345480431443e-08,  2.9121391493060982e-10],
           [ 7.7822134380378938e-01, -9.4688990821243288e-05,  3.5504662677061939e-07, -1.1648556631957883e-09],
           [ 7.6791383945524871e-01, -6.7634753185636984e-05, -6.4305407445393093e-17, -9.0505437223915958e-15],
           [ 7.5760627103290679e-01, -6.7635383822506397e-05, -5.5475216411958377e-07,  2.1840704264059539e-09],
           [ 7.4214484631636746e-01, -8.4543756805748787e-05,  3.3285836766205565e-07, -1.4560729722245644e-09],
           [ 7.3183734196782690e-01, -8.4543730528477764e-05, -4.4380173119599053e-07,  2.1840625064171460e-09],
           [ 7.1637596530663850e-01, -6.7634963399886800e-05,  2.0690346600019363e-12, -9.0509093409794484e-15],
           [ 7.0606841290274680e-01, -6.7634963400866837e-05, -6.4305140663362463e-18,  2.8131149817877754e-20],
           [ 6.9576084448040487e-01, -6.7634963400866824e-05,  2.0690410905160028e-12, -9.0509093409794484e-15],
           [ 6.8545329207651318e-01, -6.7634963399886800e-05, -6.6569949327729042e-07,  2.9120667488015072e-09],
           [ 6.6999191541532499e-01, -6.7635278715871927e-05,  1.4483212723529929e-11, -6.3356168967127304e-14],
           [ 6.5968441106678422e-01, -6.7635278718158645e-05, -1.8105122548400472e-12,  1.1879706301524368e-14],
           [ 6.4937679458909137e-01, -6.7635002816671645e-05,  8.8927343543758245e-22,  1.6970586975745334e-15],
           [ 6.3906922616674944e-01, -6.7634884570237354e-05,  6.8968465579106754e-13, -3.3941174033182859e-15],
           [ 6.2876167376285785e-01, -6.7634910847222946e-05, -8.0463209479170753e-13,  3.0169932301479528e-15],
           [ 6.1845410534051592e-01, -6.7634945883203370e-05,  1.4943167429350284e-12, -6.0339864439576196e-15],
           [ 6.0814655293662423e-01, -6.7634910847223136e-05, -9.3107428529570935e-12,  4.0729408807142719e-14],
           [ 5.9783892044048115e-01, -6.7634910847222987e-05,  8.7934793533103670e-12, -3.7335291362978093e-14],
           [ 5.8753143211039061e-01, -6.7634832016266237e-05, -4.3105290805752260e-13, -2.8284311797406303e-15],
           [ 5.7722386368804879e-01, -6.7635160478583871e-05, -3.1035809571513085e-12,  1.5273528328352898e-14],
           [ 5.6691624721035594e-01, -6.7635042232149715e-05,  5.1726348853075717e-13,  5.8351275291180432e-24],
           [ 5.5660867878801401e-01, -6.7634884570237977e-05,  1.0345269739490572e-12, -5.6568622777894750e-15],
           [ 5.4630112638412232e-01, -6.7634963401193128e-05, -1.0404499194619777e-20,  3.3843739668884653e-23],
           [ 5.3599355796178039e-01, -6.7634963401193914e-05,  5.2467132690817052e-21,  0.0000000000000000e+00],
           [ 5.2568598953943846e-01, -6.7634963401192315e-05,  6.6570225196020878e-07, -2.9120803249618457e-09],
           [ 5.2053224537439335e-01, -6.7634753188577652e-05, -1.0345194817847928e-11,  4.5254547064341097e-14],
           [ 5.1022462889670051e-01, -6.7634753190211030e-05,  8.0383471158105066e-17, -3.1647164261823456e-19],
           [ 4.9991709251125915e-01, -6.7634753187760990e-05, -5.3174315807562921e-12,  2.1314919214208831e-14],
           [ 4.8960950807046688e-01, -6.7634888775312539e-05,  3.0962712271830157e-06, -3.1498836177001693e-08],
           [ 4.8960950807046688e-01, -6.7635068509135606e-05, -1.7620902618690903e-06,  1.3523119226388798e-08],
           [ 4.7930190761122432e-01, -6.7635204098299011e-05, -2.8965583158742094e-13,  7.7385072566637756e-15],
           [ 4.6899432317043210e-01, -6.7634753187259560e-05,  1.5518160486550987e-12, -1.0182436101583344e-14],
           [ 4.5868678678499075e-01, -6.7634989678179303e-05, -1.5517904761746252e-12,  6.7882348066365718e-15],
           [ 4.4837920234419854e-01, -6.7634989678179140e-05,  5.1726348853075717e-13, -2.2627449188181586e-15],
           [ 4.3807163392185661e-01, -6.7634989678179127e-05, -1.7242116245823183e-12,  7.9196071989414960e-15],
           [ 4.2776404948106439e-01, -6.7634963401194036e-05,  2.7587514905951715e-12, -9.0510641469127968e-15],
           [ 4.1745651309562309e-01, -6.7634753187270592e-05, -4.1380693639339810e-12,  1.8101790743368287e-14],
           [ 4.0714894467328111e-01, -6.7634753187270592e-05,  6.6569673448724728e-07, -2.9120622229460732e-09],
           [ 4.0199516847133532e-01, -6.7634963401193114e-05, -2.0690518391640170e-12,  9.0509657374870169e-15],
           [ 3.9168758403054310e-01, -6.7634963401519798e-05,  1.7242545364719455e-13, -1.1313865494914968e-15],
           [ 3.8138001560820117e-01, -6.7634989678178883e-05, -1.0345334247385578e-12,  3.3941596321362140e-15],
           [ 3.7107243116740890e-01, -6.7635068508155731e-05,  2.0690604024225635e-12, -8.4393449453634273e-20],
           [ 3.6076489478196760e-01, -6.7634437864425365e-05,  5.5473854275086930e-07, -2.1840127260988059e-09],
           [ 3.5561108654312118e-01, -5.0726196273909853e-05, -3.3284560849211949e-07,  1.4560175349611392e-09],
           [ 3.4530355015767988e-01, -5.0726196273909853e-05,  4.4379207562149517e-07, -2.1840127260987744e-09],
           [ 3.4014974191883340e-01, -6.7634437864425365e-05, -3.1035488036027946e-12,  6.7881504225233227e-15],
           [ 3.2984220553339211e-01, -6.7634910846243098e-05, -1.6642694201369868e-07,  1.0920335136501470e-09],
           [ 3.1953462109259984e-01, -4.2271917872033610e-05,  1.1094957139791198e-07, -3.6400664880615688e-10],
           [ 3.1438082887220370e-01, -3.3817481700678238e-05,  1.3793661108202425e-12, -6.7882102582548952e-15],
           [ 3.0922705267025796e-01, -3.3817534253914537e-05, -5.5475009493859889e-07,  2.1840568495248917e-09],
           [ 2.9891946822946569e-01, -5.0726222550936076e-05,  3.5447962125492927e-07, -1.5979582914401801e-09],
           [ 2.9376570804597019e-01, -5.4022221293432410e-05, -2.4291447769808409e-07,  1.0078171472315659e-09],
           [ 2.8345812360517797e-01, -5.7840596539353568e-05,  6.8973495427166339e-08,  3.8352734590316814e-10],
           [ 2.7830434740323218e-01, -2.6796629049357541e-05,  2.3315492259841788e-06, -4.3125426051412313e-08],
           [ 2.7830434740323218e-01, -3.3817455003119300e-05, -1.7297299049289963e-12,  7.9377118041956078e-15],
           [ 2.7315055518283604e-01, -3.3817429146626382e-05,  1.3339101531563818e-22, -5.8351275291180441e-25],
           [ 2.6799677898089019e-01, -3.3817429146626382e-05,  4.8910038949067330e-21, -5.8351275291180441e-25],
           [ 2.6284300277894446e-01, -3.3817429146624925e-05,  6.6569742414616846e-07, -2.9120622228616515e-09],
           [ 2.6284300277894446e-01, -3.3817429146625976e-05, -2.0690539749764906e-12,  9.0509797680511604e-15],
           [ 2.5768921055854832e-01, -3.3817429146625976e-05,  7.5588242012194060e-22, -4.6681020232943236e-24],
           [ 2.5253543435660247e-01, -3.3817429146626084e-05, -1.3783738249282611e-21,  4.6681020232944353e-24],
           [ 2.4738165815465665e-01, -3.3817429146626206e-05, -2.0690496796524064e-12,  9.0509516018905783e-15],
           [ 2.4222786593426054e-01, -3.3817429147279567e-05,  6.6569742415904421e-07, -2.9120622229179519e-09],
           [ 2.4222786593426054e-01, -3.3817429147278977e-05, -4.1380950911924954e-12,  1.8101903286056452e-14],
           [ 2.3707405769541409e-01, -3.3817429147278977e-05,  1.2861517233061907e-17, -5.6262299635754834e-20],
           [ 2.3192028149346830e-01, -3.3817429147278977e-05, -2.0690475514432207e-12,  9.0509657339859402e-15],
           [ 2.2676648927307216e-01, -3.3817429146298919e-05,  6.6569466543541650e-07, -2.9120441210991009e-09],
           [ 2.2676648927307216e-01, -3.3817008719759410e-05, -2.0690025247724369e-12, -1.2658842364219266e-19],
           [ 2.2161272908957669e-01, -3.3817639360549318e-05, -3.8587219519492494e-17,  1.6880265375159715e-19],
           [ 2.1645892085073026e-01, -3.3817639360548959e-05,  1.6083284334697882e-12, -1.5024408356984035e-15],
           [ 2.1130514464878442e-01, -3.3817253828033263e-05,  4.0094607323606274e-06, -1.0565791242065742e-07],
           [ 2.1130498446428134e-01, -3.3817429146626308e-05, -1.5884710280492889e-07,  8.3317615810948705e-10],
           [ 2.0615135242838833e-01, -3.3817446594771904e-05,  9.1865217090820547e-13, -5.2766602825781079e-15],
           [ 2.0099757622644249e-01, -3.3817534252926165e-05, -2.3686287053269640e-17,  8.4744140618134269e-20],
           [ 1.9584378400604638e-01, -3.3817534254241038e-05,  6.8968465681373198e-13, -1.4065574908939045e-20],
           [ 1.9069000780410059e-01, -3.3817324039337678e-05,  6.6569604478543574e-07, -2.9120576973998873e-09],
           [ 1.9069000780410059e-01, -3.3817429146626016e-05, -2.0690539741316807e-12,  9.0509797639665712e-15],
           [ 1.8553621558370445e-01, -3.3817429146626023e-05, -6.6695507657819079e-22,  4.0845892703826309e-24],
           [ 1.8038243938175866e-01, -3.3817429146625908e-05,  2.2676472603658217e-21, -9.9197167995004383e-24],
           [ 1.7522866317981284e-01, -3.3817429146625908e-05, -1.3793736100186927e-12,  4.5255180353066955e-15],
           [ 1.7007487095941670e-01, -3.3817534253914937e-05,  1.3793821804358576e-12, -1.1252343224600384e-19],
           [ 1.6492111077592120e-01, -3.3817113826066687e-05,  6.6569328607681798e-07, -2.9120486465046074e-09],
           [ 1.6492111077592120e-01, -3.3817429145972236e-05, -4.1381122285586753e-12,  1.8101959498757074e-14],
           [ 1.5976730253707477e-01, -3.3817429147278977e-05,  1.2861517233061907e-17, -5.6262299635754834e-20],
           [ 1.5461352633512898e-01, -3.3817429147278977e-05, -2.0690475593133151e-12,  9.0509657684134078e-15],
           [ 1.4945973411473285e-01, -3.3817429146298926e-05,  6.6569466543541915e-07, -2.9120441210990992e-09],
           [ 1.4945973411473285e-01, -3.3817008719760975e-05, -3.1035214619128582e-12,  6.7880554558229469e-15],
           [ 1.4430597393123734e-01, -3.3817481699861915e-05, -4.1381111437340114e-12,  2.0364693822150613e-14],
           [ 1.3915216569239092e-01, -3.3817324039664945e-05,  6.6569604478972797e-07, -2.9120576974139605e-09],
           [ 1.3915216569239092e-01, -3.3817429146625610e-05, -1.6184776524964291e-20,  6.3602890067388188e-23],
           [ 1.3399838949044510e-01, -3.3817429146626104e-05, -2.2189914138204924e-07,  1.4560311114307763e-09],
           [ 1.2884461328849930e-01,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.2884461328849930e-01,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.2884461328849930e-01,  0.0000000000000000e+00, -8.2858260156904593e-07,  3.9985565914321170e-09],
           [ 1.2369082106810318e-01, -1.8520007806444807e-05,  4.6494398325800229e-07, -2.2534227186569746e-09],
           [ 1.2369082106810318e-01, -3.3817447435630604e-05, -1.4841990051217950e-12,  6.0007935444937584e-15],
           [ 1.1853702884770705e-01, -3.3817481700515330e-05,  3.2153904241834195e-18,  2.2627203418444646e-15],
           [ 1.1338325264576124e-01, -3.3817324039336472e-05,  6.6569673447008872e-07, -2.9120622228898224e-09],
           [ 1.1338325264576124e-01, -3.3817534254567132e-05, -1.7340831991032754e-21,  4.0845892703825332e-24],
           [ 1.0822946042536513e-01, -3.3817534254567410e-05, -2.3565746039095796e-21,  1.1670255058235810e-23],
           [ 1.0307566820496900e-01, -3.3817534254567315e-05,  5.5474940524536281e-07, -2.1840523240068882e-09],
           [ 1.0307566820496900e-01, -1.6908740850257465e-05, -3.3284819481039552e-07,  1.4560288486893812e-09],
           [ 9.7921892003023189e-02, -1.6908740850257418e-05,  3.3284922933578067e-07, -1.4560333741722898e-09],
           [ 9.7921892003023189e-02, -1.6908740850257418e-05, -3.3285043628633140e-07,  1.4560390310468575e-09],
           [ 9.2768099782627081e-02, -1.6908714573149707e-05,  3.3284871206987292e-07, -1.4560311114167531e-09],
           [ 9.2768099782627081e-02, -1.6908714573149707e-05, -3.3284664302234930e-07,  1.4560220604652378e-09],
           [ 8.7614339599131577e-02, -1.6908714573149937e-05,  3.3284871206987747e-07, -1.4560311114167730e-09],
           [ 8.7614339599131577e-02, -1.6908714573149937e-05, -3.3285060870831902e-07,  1.4560390310469837e-09],
           [ 8.2460547378735455e-02, -1.6908740850257665e-05,  3.3284922933577760e-07, -1.4560333741722418e-09],
           [ 8.2460547378735455e-02, -1.6908740850257665e-05, -3.9118278607946379e-07,  1.8388017572790691e-09],
           [ 7.7306771176789635e-02, -8.0185491408511914e-06,  7.8922758953577655e-08, -1.7262209390237335e-10],
           [ 7.7306771176789635e-02,  4.0092698171773187e-06,  1.5429030748549540e-07, -7.3247628981435250e-10],
           [ 7.8908616207542984e-02,  0.0000000000000000e+00, -8.7260489014994513e-07,  3.8171692482500330e-09],
           [ 7.2152978956393513e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 7.2152978956393513e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 7.2152978956393513e-02,  0.0000000000000000e+00, -6.6569742414619875e-07,  2.9120622228618033e-09],
           [ 6.6999202754447720e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 6.6999202754447720e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 6.6999202754447720e-02,  0.0000000000000000e+00, -8.4042354904700304e-07,  4.1307791886470113e-09],
           [ 6.1845410534051591e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 6.1845410534051591e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 6.1845410534051591e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 6.1845410534051591e-02,  0.0000000000000000e+00, -6.6569949320013959e-07,  2.9120712738413527e-09],
           [ 5.6691618313655469e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.6691618313655469e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.6691618313655469e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.6691618313655469e-02,  0.0000000000000000e+00, -6.6569742414620150e-07,  2.9120622228618153e-09],
           [ 5.1537842111709656e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.1537842111709656e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.1537842111709656e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.1537842111709656e-02,  0.0000000000000000e+00, -6.6569949320013853e-07,  2.9120712738413485e-09],
           [ 4.6384049891313540e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.6384049891313540e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.6384049891313540e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.6384049891313540e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.6384049891313540e-02,  0.0000000000000000e+00, -6.6569742414616973e-07,  2.9120622228616069e-09],
           [ 4.1230273689367727e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.1230273689367727e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.1230273689367727e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.1230273689367727e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.1230273689367727e-02,  0.0000000000000000e+00, -6.6569742414616973e-07,  2.9120622228616069e-09],
           [ 3.6076497487421914e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.6076497487421914e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.6076497487421914e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.6076497487421914e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.6076497487421914e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.6076497487421914e-02,  0.0000000000000000e+00, -6.6569949320017072e-07,  2.9120712738415582e-09],
           [ 3.0922705267025796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.0922705267025796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.0922705267025796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.0922705267025796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.0922705267025796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.0922705267025796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.0922705267025796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.0922705267025796e-02,  0.0000000000000000e+00, -6.6569949320017072e-07,  2.9120712738415582e-09],
           [ 2.5768913046629677e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768913046629677e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768913046629677e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768913046629677e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768913046629677e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768913046629677e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768913046629677e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768913046629677e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768913046629677e-02,  0.0000000000000000e+00, -6.6569742414616973e-07,  2.9120622228616069e-09],
           [ 2.0615136844683864e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615136844683864e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615136844683864e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615136844683864e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615136844683864e-02,  0.0000000000000000e+00,  6.2857859593334151e-09, -2.7496876462525612e-11],
           [ 2.0663800896718147e-02,  0.0000000000000000e+00, -6.2857859593337137e-09,  2.7496876462527576e-11],
           [ 2.0615136844683864e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615136844683864e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615136844683864e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_dT = \
    np.array([[ 2.4241761446485939e-02,  3.5879701389024819e-06,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4241761446485939e-02,  3.5879701389024819e-06, -1.6438575396841325e-21, -5.1494118870624003e-11],
           [ 2.4606299212598430e-02,  2.2765399947199568e-19, -2.4647578682992269e-21,  5.3909839639092245e-24],
           [ 2.4606299212598427e-02, -1.4797509965679570e-19, -3.3387718776294374e-21,  1.6516967989038712e-23],
           [ 2.4606299212598385e-02, -1.4775364634960667e-20,  4.1231074922032650e-08, -1.6755687329567076e-10],
           [ 2.4970836978710945e-02,  8.9232445968856316e-07, -1.0664098709394383e-08,  3.4739201317812735e-11],
           [ 2.4982108508432417e-02,  6.2440230262761633e-08, -8.4964776498069208e-09,  4.6330780008047746e-14],
           [ 2.4794451241483429e-02, -2.5240579546671505e-06, -8.2247387361860111e-06,  5.7937257466087050e-08],
           [-3.4694469519536142e-18, -2.8486170920496395e-22,  3.1462647165138731e-21, -3.6381936837496901e-23],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00, -3.0363001252021694e-06,  2.5931542885203312e-08],
           [-6.1669922838593098e-03, -1.8560944441825198e-07,  2.7019824495206976e-08, -1.1819695754683704e-10],
           [-5.9860938435327181e-03, -1.8560944441824676e-07, -1.2815138585552913e-09,  8.2697669671686414e-12],
           [-6.0148731408574251e-03,  2.6124412390382971e-19,  9.0529559309722793e-22, -3.9558779994547838e-24],
           [-6.0148731408573783e-03,  2.6154340166601451e-19, -6.0091204227123542e-21,  2.6943781422926333e-23],
           [-6.0148731408573826e-03,  3.0733289928732622e-19,  2.3543111147609394e-08, -1.0298823774102145e-10],
           [-5.8326042578012516e-03,  3.9270314908815298e-18, -3.7154697121989328e-20,  1.0265146324619325e-22],
           [-5.8326042578011527e-03, -2.4524544488610742e-19, -1.8050864998627521e-20,  1.5792532807327075e-23],
           [-5.8326042578015535e-03, -4.6467683661424730e-18, -5.8857777869014506e-08,  2.4888824120759531e-10],
           [-6.3186546126177828e-03, -5.9799502315115449e-07,  5.1010074153264208e-08, -2.2314118177279296e-10],
           [-6.0148731408573219e-03, -5.9799502315006987e-07, -1.5695407431770525e-08,  7.7241178305948199e-11],
           [-6.1971420239135544e-03, -2.6109068064436398e-19,  9.2148333939815171e-21, -4.7508046181946986e-23],
           [-6.1971420239135483e-03, -7.6264089823124007e-19, -1.5956421461481262e-22,  1.0470092822481086e-24],
           [-6.1971420239136646e-03, -7.3832331192403441e-19, -3.8046446066220243e-21,  2.5878208146315198e-23],
           [-6.1971420239137738e-03, -9.4855833113348347e-20,  9.8515046110214543e-22, -3.1152972871079452e-24],
           [-6.1971420239137764e-03, -1.1647413926475561e-20, -2.2059496072869831e-22,  1.4588709246943110e-24],
           [-6.1971420239137782e-03,  2.2765399947201296e-20,  1.0228343495658881e-35, -3.1873201237498298e-38],
           [-6.1971420239137747e-03,  2.2765399947202187e-20,  8.0957931143246442e-37, -2.5913171737803800e-39],
           [-6.1971420239137712e-03,  2.2765399947202250e-20,  7.6872400861492948e-10, -5.0441207914380265e-12],
           [-6.1971420239137730e-03, -1.1715353891299464e-07, -1.4157959414531767e-08,  4.6449998079168917e-11],
           [-6.3794109069699543e-03, -1.1959900463005554e-06, -2.9647695831019112e-09,  1.9453868655517644e-11],
           [-6.5616797900261824e-03, -7.4415916183629658e-07,  9.7658682655594590e-09, -3.2040250215078833e-11],
           [-6.5616797900262440e-03,  1.1382699973592743e-19, -4.7745810446412247e-22,  3.1329271946500883e-24],
           [-6.5616797900262267e-03,  1.8659161485651092e-19,  2.8214879775530125e-21, -1.3315107163268718e-23],
           [-6.5616797900261798e-03,  1.1882070036959112e-19, -1.2285482017375535e-20,  5.1728159180099484e-23],
           [-6.5616797900262640e-03, -2.1516787450097432e-20,  3.5591757166435021e-21, -1.6546678863604866e-23],
           [-6.5616797900262432e-03, -8.9607605266633103e-20, -9.3029480788899525e-22,  4.8164703443979704e-24],
           [-6.5616797900262614e-03, -3.7562909912883654e-20,  5.1603746002963349e-23,  5.3464303774311524e-26],
           [-6.5616797900262657e-03, -1.8108840867092709e-20,  1.0006266537970886e-22,  1.2310859421715931e-25],
           [-6.5616797900262657e-03,  2.0968131530317825e-20,  2.4215165021889151e-21, -9.9307599335174959e-24],
           [-6.5616797900262414e-03,  6.7098020897016719e-20, -1.4938586043884862e-21,  5.6880498411154624e-24],
           [-6.5616797900262458e-03,  8.0977597127629274e-21,  1.6862813644421892e-21, -5.5324191746810401e-24],
           [-6.5616797900262249e-03,  1.3659239968312158e-19,  1.7405740014935841e-09, -1.1421089248674018e-11],
           [-6.5616797900263047e-03, -2.6526347782946558e-07, -1.2214259428764001e-08,  4.0073029621954163e-11],
           [-6.7439486730825312e-03, -1.1959900462995430e-06, -3.1344963434686344e-09,  2.0567561308899243e-11],
           [-6.9262175561384046e-03, -7.1829280355144906e-07,  9.4264147447124450e-09, -3.0926557561317261e-11],
           [-6.9262175561388027e-03,  8.7077654797635891e-19,  7.9481869400071384e-21, -5.2153457611417827e-23],
           [-6.9262175561386700e-03, -3.4052714166834491e-19, -6.4643070710230496e-21,  3.3554033993264604e-23],
           [-6.9262175561387532e-03,  2.7105884762038471e-20,  2.4179678651399213e-22, -7.9329654368108380e-25],
           [-6.9262175561387463e-03,  4.5530799894404235e-20, -8.9627558847252786e-22,  3.9207156101160571e-24],
           [-6.9262175561387463e-03,  4.5530799894404451e-20,  4.8384976939481165e-06, -4.9222748112352623e-08],
           [ 4.3368086899420177e-18,  0.0000000000000000e+00, -1.7241374047255296e-21,  1.3231856799784512e-23],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00, -2.0173314094325583e-05,  3.5866267731165543e-07],
           [-9.4548700144470414e-03, -2.7767175524717532e-07,  3.1449170630378172e-08, -1.3740811032015801e-10],
           [-9.2531268482405650e-03, -2.6618792415653928e-07,  4.1071275353707336e-09, -2.7520100050096874e-11],
           [-9.2957130358704947e-03, -9.3186116819414745e-07, -3.4194260292566641e-08,  1.6150542949637688e-10],
           [-9.6602508019829683e-03, -1.0101267282917853e-07,  2.1729655288969511e-08, -8.6739755638111174e-11],
           [-9.4779819189267939e-03,  4.7839601852049021e-07, -1.0463604954510028e-09, -1.3731765032167250e-11],
           [-9.4779819189267558e-03, -7.9732669753349665e-07, -3.6622617340819552e-08,  1.7164706290221395e-10],
           [-9.8425196850394029e-03,  5.9605265205251559e-33,  1.1203444855905862e-21, -4.9008945126448302e-24],
           [-9.8425196850393942e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-9.8425196850393942e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-9.8425196850393942e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-9.8425196850393942e-03,  0.0000000000000000e+00, -8.4175215684144204e-20,  6.0035957779966417e-22],
           [-9.8425196850392242e-03,  1.6174816662502388e-17,  1.4387456812434420e-07, -4.8061177612521648e-10],
           [-8.2020997375328950e-03,  1.0365247067942314e-05,  1.3365862245901913e-08, -1.0486721446538153e-10],
           [-6.6831923787304317e-03,  7.1322996153688027e-06, -1.1714303922031320e-07,  4.2723996391390665e-10],
           [-6.8047049674345942e-03,  1.1960198538364537e-06,  5.2390505132091010e-09, -2.4156576227466501e-11],
           [-6.5862553697648880e-03,  1.1097179246200647e-06, -1.3747280058063494e-08,  4.8952119117258705e-11],
           [-6.5631541794095678e-03,  3.3039747324892492e-07,  3.1246609729424058e-07, -2.3131566346127115e-09],
           [-6.3922673169288713e-03,  1.1698858615796686e-05,  1.0600288670463418e-06, -5.7953265272079430e-09],
           [ 3.1968674678599807e-04,  2.9427502804808042e-07, -4.5154831054271398e-08,  1.9330429484752957e-10],
           [-1.6263032587282567e-19,  1.0263581297990816e-21,  7.5371923095613900e-24, -4.7701264253619019e-26],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  1.0946624441900604e-06, -5.7719800202398644e-09],
           [ 5.8326042578010261e-03,  1.2025287966327249e-06, -7.6938304636765288e-09, -1.2911971004684778e-12],
           [ 5.8326042578010617e-03, -1.2325178306004355e-06, -2.8825413521045416e-10,  1.8030579163705271e-12],
           [ 5.6444557333559468e-03, -1.1947455197174185e-06,  1.6488495208900910e-10,  5.2559446032782940e-13],
           [ 5.4680664916886799e-03, -1.1078665939419759e-06,  2.0451437230763253e-08, -8.6495875270663605e-11],
           [ 5.4680664916886782e-03, -9.0106584608435763e-07, -1.5830576816898809e-08,  6.8381209811993222e-11],
           [ 5.2051094074372622e-03, -9.6160895706607071e-07, -5.0132419649856512e-10,  1.5993916125299600e-11],
           [ 5.1035287255760025e-03,  2.0153476828285976e-19,  1.3276634328054145e-21, -5.6267642512441179e-24],
           [ 5.1035287255760441e-03,  2.1414895437402878e-19, -3.1892099493854258e-22, -2.6641087805008066e-25],
           [ 5.1035287255760684e-03,  9.8379049771818339e-20, -6.1587211087873360e-09,  1.3776666760888151e-11],
           [ 5.0092517170986037e-03, -9.1725752659318529e-07, -2.2871250663080255e-08,  1.1321358595943911e-10],
           [ 4.7389909594632148e-03, -5.4677612373190068e-20,  2.7719634395460700e-22, -6.8991759061897678e-25],
           [ 4.7389909594632105e-03, -1.8259747874309781e-20,  2.0228442100935483e-22, -1.0312298870356622e-24],
           [ 4.7389909594632088e-03, -2.8456749934009451e-20, -1.8311308670372761e-08,  6.8658825160742414e-11],
           [ 4.5567220764071679e-03, -7.9732669753351423e-07,  1.5695407431751391e-08, -6.8658825160766609e-11],
           [ 4.5567220764070890e-03, -7.9732669753340295e-07, -3.1390814863565813e-08,  1.3731765032180314e-10],
           [ 4.1921843102944350e-03, -7.9732669753380254e-07,  1.5695407431776458e-08, -6.8658825160874492e-11],
           [ 4.1921843102945095e-03, -7.9732669753368130e-07, -1.3079506193133671e-08,  6.8658825160808576e-11],
           [ 4.0099154272383360e-03, -1.9919724953789098e-19,  4.4813779423606116e-21, -1.9603578050572365e-23],
           [ 4.0099154272383404e-03, -1.9919724953797435e-19, -3.9602250414852931e-34,  5.4728618710242933e-37],
           [ 4.0099154272383100e-03, -1.9919724953805700e-19, -2.0091184952873809e-22, -9.4636487051875953e-24],
           [ 4.0099154272382415e-03, -9.1983648192742316e-19, -2.5273184884319665e-08,  9.5652387643961556e-11],
           [ 3.7614982490633353e-03, -1.0384685562046524e-06,  3.5964485555234273e-09, -1.1692892664558682e-11],
           [ 3.6453776611258030e-03, -7.5699999267950549e-07,  1.5563574665771119e-08, -6.9530072918360131e-11],
           [ 3.6453776611257531e-03, -8.5788879370551172e-07, -2.1914530157363150e-05,  8.3753162870638978e-07],
           [ 1.4181103029538835e-03, -2.9489453702811958e-05,  7.5507497729472178e-08,  1.9717499421264521e-10],
           [-7.0058719965178915e-04,  1.8759749693424582e-06,  1.8787377892578186e-08, -1.0910827390220189e-10],
           [-3.6453776611249279e-04,  1.0924210118517195e-20,  5.2697947465014050e-23, -4.0262295870875288e-25],
           [-3.6453776611249133e-04, -1.0671281225251126e-21, -1.1173648460014265e-24,  7.3317903280932188e-27],
           [-3.6453776611249149e-04, -8.9684171999451377e-22,  1.4535426826682560e-23, -5.6762720720092870e-26],
           [-3.6453776611249149e-04, -4.2151560839741550e-22, -1.0383164601146571e-21,  4.4114320913595873e-24],
           [-3.6453776611250005e-04, -9.5237836206945424e-21,  1.2406604205844752e-21, -4.0704082040176540e-24],
           [-3.6453776611248710e-04,  8.5014540427820973e-20, -7.4689632372681791e-22, -1.3049873287157684e-36],
           [-3.6453776611249149e-04, -1.4263945904420626e-19, -1.9619259289719488e-08,  7.7241178305984569e-11],
           [-5.4680664916882183e-04, -5.9799502315069879e-07,  3.9238518579409380e-09,  7.4956046721384641e-24],
           [-5.4680664916887062e-04,  5.9799502315023260e-07,  1.5695407431762071e-08, -7.7241178305913431e-11],
           [-3.6453776611268659e-04,  1.9848583078962206e-19, -1.1168434090725872e-21,  2.4427896086446178e-24],
           [-3.6453776611267364e-04,  2.8278895246918947e-20,  1.4093240174884079e-09, -9.2475329231546380e-12],
           [-3.6453776611267797e-04, -2.1485298548284607e-07, -1.2875814446427490e-08,  4.2243485716631804e-11],
           [-5.4680664916886812e-04, -1.1959900463002183e-06, -3.1951987644963815e-09,  2.0965871158123698e-11],
           [-7.2907553222498363e-04, -7.0904175459018753e-07,  9.3050099027632774e-09, -3.0528247712493901e-11],
           [-7.2907553222498309e-04, -7.5125819825747208e-19, -1.3806894637965887e-21,  9.0596421508872960e-24],
           [-7.2907553222509758e-04, -5.4084112397550801e-19,  1.7403637119200908e-22,  4.1947645404373253e-24],
           [-7.2907553222516111e-04, -1.9551505461805484e-19,  2.1072462369815180e-21, -4.2144558762457595e-24],
           [-7.2907553222515689e-04,  1.5312177627709005e-19,  4.9455153369631976e-21, -2.3330151337424339e-23],
           [-7.2907553222510127e-04,  3.4933363803366245e-20, -8.0426368164862212e-21,  3.4636718310834461e-23],
           [-7.2907553222516014e-04, -3.0700178364713897e-21,  1.2220009619806302e-21, -5.9871008040930861e-24],
           [-7.2907553222515342e-04, -4.7769023739787953e-20, -1.5090313192035188e-23,  7.2863604138246198e-26],
           [-7.2907553222516079e-04, -4.7291613453370499e-20,  2.1910622028708671e-23, -6.7957528115753178e-26],
           [-7.2907553222516773e-04, -4.5348351573649262e-20,  1.5000895016193653e-21, -3.3879077569768894e-24],
           [-7.2907553222515179e-04,  1.7581873112288234e-19,  4.6225663060966470e-20, -2.0570253889560720e-22],
           [-7.2907553222477947e-04, -6.7392567234786794e-20, -4.2961108932899410e-20,  1.8429970236806362e-22],
           [-7.2907553222513520e-04, -3.2043660416647419e-19, -1.4095714376041547e-22,  5.1341443570410690e-24],
           [-7.2907553222516914e-04, -5.6671276586719629e-21, -3.2777775684634841e-22,  2.7929721796232988e-24],
           [-7.2907553222516773e-04,  8.9032916646379777e-20,  6.6521384539347826e-22, -1.5514514182693158e-24],
           [-7.2907553222514420e-04,  1.8368918184516362e-19,  3.6598368287564685e-21, -1.7098327044894001e-23],
           [-7.2907553222509172e-04,  1.0784252621147125e-19, -9.2044549967180289e-21,  3.6333662658806888e-23],
           [-7.2907553222516046e-04, -1.6604457028498454e-19,  1.0736916247140258e-21,  1.2043112195909000e-26],
           [-7.2907553222516079e-04,  1.6205576822839941e-19,  7.5658077463918998e-21, -3.7018244821029869e-23],
           [-7.2907553222509140e-04, -1.1121664017475696e-19, -4.0784966889556507e-21,  1.6633195431500052e-23],
           [-7.2907553222514420e-04, -1.9538661559307921e-19, -8.1870056074970160e-22,  7.0458170761395201e-24],
           [-7.2907553222516805e-04,  4.6006822733373402e-20,  6.5924735070325683e-23, -2.6928892632945344e-25],
           [-7.2907553222516046e-04,  4.7337362062052213e-20, -9.4681729271101279e-24,  1.4975016309193343e-26],
           [-7.2907553222515342e-04,  4.5494881358249228e-20, -1.5050883710360629e-21,  5.9567388319367116e-24],
           [-7.2907553222516035e-04,  1.7933053461791592e-21,  7.8571373385482994e-21, -3.4939559260500081e-23],
           [-7.2907553222510127e-04, -3.7844687534779657e-20, -5.5872879242458500e-21,  2.2761712072128695e-23],
           [-7.2907553222515623e-04, -1.5487586151580903e-19,  7.3743708443339976e-22,  4.5107700124376053e-25],
           [-7.2907553222516111e-04,  1.0132478033670894e-19,  6.9307039498689436e-21, -3.1982029092208202e-23],
           [-7.2907553222509790e-04, -1.4617451769196725e-20, -6.8390681893042922e-21,  3.0097952161698312e-23],
           [-7.2907553222515244e-04, -2.0219956719160643e-21,  5.8096839351478761e-24,  1.8306444734185219e-26],
           [-7.2907553222515255e-04,  1.0243392670653986e-21,  3.3414402492608575e-23, -1.7146642184749745e-25],
           [-7.2907553222515222e-04, -7.3826473885383704e-22, -3.6864526194509354e-21,  1.4480580268109761e-23],
           [-7.2907553222518670e-04, -1.1540157724395278e-19,  7.2813729045406097e-22,  6.8362851650603706e-26],
           [-7.2907553222518713e-04,  1.1129800644250484e-19,  3.0534937240618829e-21, -1.4965004935072678e-23],
           [-7.2907553222515222e-04, -7.1794552585786029e-22, -1.1621185681757883e-23,  4.5904923113716613e-26],
           [-7.2907553222515244e-04, -1.0615527404847316e-21,  4.5949342799833735e-24, -1.5075243700735570e-26],
           [-7.2907553222515255e-04, -7.1141874835019481e-22, -2.4429733921909709e-21,  6.4120036540452612e-24],
           [-7.2907553222518670e-04, -2.9855873472422540e-19, -2.1581185218674316e-08,  9.0114708023575400e-11],
           [-9.1134441528140282e-04, -2.9899751157526353e-07,  2.3543111147654486e-08, -3.8620589152980891e-11],
           [-5.4680664916893686e-04,  4.1859651620525854e-06,  0.0000000000000000e+00,  0.0000000000000000e+00]])
