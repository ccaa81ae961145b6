from aviary_ref.subsystems.atmosphere.data.MIL_SPEC_210A_Tropical import DATA_ORIGIN_NOTE

"""
See MIL_SPEC_210A_Tropical for source note
"""

from collections import namedtuple
import numpy as np

atm_data = namedtuple('MIL_SPEC_210A_Hot', ['alt', 'temp', 'pres', 'rho'])
atm_data.__doc__ = """
    A namedtuple to hold data for the 1976 standard atmosphere model.

    Parameters
    ----------
    alt : float
        Geopotential Altitude in meters.
    temp : float
        Temperature in degK.
    pres : float
        Pressure in pascal.
    rho : float
        Density in kg/m^3.
    """

# turn off ruff formatting
# fmt: off

# _raw_data Units: (Geopotential Altitude in ft, Temp in degF, pressure in inHG60, density in lbm/ft^3)
_raw_data = np.array([
    0,103,29.9,7.0461169E-02,
    500,101.1,29.4,6.9495946E-02,
    1000,99.2,28.9,6.8530723E-02,
    1500,97.3,28.3,6.7565501E-02,
    2000,95.4,27.8,6.6600285E-02,
    2500,93.4,27.3,6.5635063E-02,
    3000,91.5,26.8,6.4669840E-02,
    3500,89.6,26.3,6.3704617E-02,
    4000,87.6,25.8,6.2739395E-02,
    4500,85.7,25.4,6.1774179E-02,
    5000,83.7,24.9,6.0808953E-02,
    5500,81.7,24.4,5.9843730E-02,
    6000,79.8,24,5.8878507E-02,
    6500,77.8,23.5,5.8235027E-02,
    7000,75.8,23.1,5.7269808E-02,
    7500,73.8,22.7,5.6304585E-02,
    8000,71.8,22.2,5.5339366E-02,
    8500,69.8,21.8,5.4695882E-02,
    9000,67.8,21.4,5.3730659E-02,
    9500,65.8,21,5.3087182E-02,
    10000,63.9,20.6,5.2121960E-02,
    10500,62,20.2,5.1478475E-02,
    11000,60.2,19.8,5.0513256E-02,
    11500,58.3,19.4,4.9869776E-02,
    12000,56.4,19,4.8904553E-02,
    12500,54.5,18.7,4.8261076E-02,
    13000,52.6,18.3,4.7295853E-02,
    13500,50.7,17.9,4.6652369E-02,
    14000,48.8,17.6,4.6008892E-02,
    14500,46.8,17.2,4.5043670E-02,
    15000,44.9,16.9,4.4400185E-02,
    15500,43,16.5,4.3756709E-02,
    16000,41,16.2,4.3113228E-02,
    16500,39,15.9,4.2148005E-02,
    17000,37.1,15.6,4.1504521E-02,
    17500,35.1,15.3,4.0861044E-02,
    18000,33.1,14.9,4.0217564E-02,
    18500,31.2,14.6,3.9574083E-02,
    19000,29.2,14.3,3.8930599E-02,
    19500,27.3,14,3.8287118E-02,
    20000,25.5,13.8,3.7643638E-02,
    20500,23.6,13.5,3.7000157E-02,
    21000,21.8,13.2,3.6356676E-02,
    21500,19.9,12.9,3.5713196E-02,
    22000,18,12.6,3.5069715E-02,
    22500,16.2,12.4,3.4426235E-02,
    23000,14.3,12.1,3.3782750E-02,
    23500,12.4,11.8,3.3461012E-02,
    24000,10.5,11.6,3.2817531E-02,
    24500,8.6,11.3,3.2174051E-02,
    25000,6.7,11.1,3.1530570E-02,
    25500,4.8,10.9,3.0887090E-02,
    26000,2.9,10.6,3.0565348E-02,
    26500,1,10.4,2.9921865E-02,
    27000,-1,10.2,2.9278383E-02,
    27500,-2.9,9.9,2.8956644E-02,
    28000,-4.9,9.7,2.8313162E-02,
    28500,-6.8,9.5,2.7991422E-02,
    29000,-8.7,9.3,2.7347941E-02,
    29500,-10.5,9.1,2.6704459E-02,
    30000,-12.3,8.9,2.6382720E-02,
    30500,-14.1,8.7,2.5739238E-02,
    31000,-15.9,8.5,2.5417499E-02,
    31500,-17.7,8.3,2.4774017E-02,
    32000,-19.5,8.1,2.4452277E-02,
    32500,-21.3,7.9,2.4130538E-02,
    33000,-23.2,7.7,2.3487056E-02,
    33500,-25,7.6,2.3165314E-02,
    34000,-26.8,7.4,2.2521835E-02,
    34500,-28.4,7.2,2.2200093E-02,
    35000,-30.1,7,2.1878354E-02,
    35500,-31.8,6.9,2.1234872E-02,
    36000,-33.4,6.7,2.0913132E-02,
    36500,-35,6.6,2.0591393E-02,
    37000,-36.7,6.4,1.9947911E-02,
    37500,-38.4,6.2,1.9626170E-02,
    38000,-40.1,6.1,1.9304430E-02,
    38500,-41.8,6,1.8982690E-02,
    39000,-43.5,5.8,1.8660948E-02,
    39400,-45,5.7,1.8339209E-02,
    39500,-45,5.7,1.8017469E-02,
    40000,-44.8,5.5,1.7695727E-02,
    40500,-44.6,5.4,1.7373987E-02,
    41000,-44.3,5.3,1.6730506E-02,
    41500,-44.1,5.2,1.6408766E-02,
    42000,-43.9,5,1.6087025E-02,
    42500,-43.7,4.9,1.5765285E-02,
    43000,-43.5,4.8,1.5443545E-02,
    43500,-43.3,4.7,1.4800062E-02,
    44000,-43.1,4.6,1.4478322E-02,
    44500,-42.9,4.5,1.4156581E-02,
    45000,-42.6,4.4,1.3834842E-02,
    45500,-42.4,4.3,1.3513100E-02,
    46000,-42.1,4.2,1.3191360E-02,
    46500,-41.9,4.1,1.2869619E-02,
    47000,-41.7,4,1.2547879E-02,
    47500,-41.4,3.9,1.2226138E-02,
    48000,-41.2,3.8,1.1904398E-02,
    48500,-40.9,3.7,1.1582657E-02,
    49000,-40.7,3.6,1.1260917E-02,
    49500,-40.4,3.5,1.1260917E-02,
    50000,-40.2,3.4,1.0939177E-02,
    50400,-40.2,3.3,1.0617436E-02,
    50500,-40.2,3.3,1.0617436E-02,
    51000,-39.9,3.3,1.0295697E-02,
    51500,-39.8,3.2,9.9739553E-03,
    52000,-39.7,3.1,9.9739553E-03,
    52500,-39.6,3,9.6522151E-03,
    53000,-39.5,3,9.3304738E-03,
    53500,-39.4,2.9,9.0087345E-03,
    54000,-39.3,2.8,9.0087345E-03,
    54500,-39.2,2.8,8.6869933E-03,
    55000,-39.1,2.7,8.3652530E-03,
    55500,-39,2.6,8.3652530E-03,
    56000,-39,2.6,8.0435127E-03,
    56500,-38.9,2.5,8.0435127E-03,
    57000,-38.8,2.4,7.7217724E-03,
    57500,-38.7,2.4,7.4000312E-03,
    58000,-38.6,2.3,7.4000312E-03,
    58500,-38.5,2.3,7.0782905E-03,
    59000,-38.4,2.2,7.0782905E-03,
    59500,-38.3,2.2,6.7565502E-03,
    60000,-38.2,2.1,6.7565502E-03,
    60500,-38.1,2.1,6.4348094E-03,
    61000,-38,2,6.4348094E-03,
    61500,-37.9,2,6.1130691E-03,
    62000,-37.8,1.9,6.1130691E-03,
    62500,-37.7,1.9,5.7913284E-03,
    63000,-37.6,1.8,5.7913284E-03,
    63500,-37.5,1.8,5.4695886E-03,
    64000,-37.4,1.7,5.4695886E-03,
    64500,-37.3,1.7,5.4695886E-03,
    65000,-37.2,1.7,5.1478483E-03,
    65500,-37.1,1.6,5.1478483E-03,
    66000,-37.1,1.6,4.8261075E-03,
    66400,-37,1.6,4.8261075E-03,
    66500,-37,1.5,4.8261075E-03,
    67000,-36.7,1.5,4.8261075E-03,
    67500,-36.4,1.5,4.5043672E-03,
    68000,-36.1,1.4,4.5043672E-03,
    68500,-35.8,1.4,4.5043672E-03,
    69000,-35.5,1.4,4.1826265E-03,
    69500,-35.1,1.3,4.1826265E-03,
    70000,-34.7,1.3,4.1826265E-03,
    70500,-34.4,1.3,3.8608862E-03,
    71000,-34,1.2,3.8608862E-03,
    71500,-33.7,1.2,3.8608862E-03,
    72000,-33.3,1.2,3.8608862E-03,
    72500,-33,1.2,3.5391452E-03,
    73000,-32.6,1.1,3.5391452E-03,
    73500,-32.3,1.1,3.5391452E-03,
    74000,-31.9,1.1,3.2174047E-03,
    74500,-31.6,1,3.2174047E-03,
    75000,-31.2,1,3.2174047E-03,
    75500,-30.8,1,3.2174047E-03,
    76000,-30.5,0.98,2.8956642E-03,
    76500,-30.1,0.96,2.8956642E-03,
    77000,-29.8,0.94,2.8956642E-03,
    77500,-29.5,0.91,2.8956642E-03,
    78000,-29.1,0.89,2.8956642E-03,
    78500,-28.8,0.87,2.5739241E-03,
    79000,-28.4,0.85,2.5739241E-03,
    79500,-28,0.83,2.5739241E-03,
    80000,-27.7,0.81,2.5739241E-03,
    80500,-27.3,0.79,2.5739241E-03,
    81000,-26.9,0.77,2.2521836E-03,
    81500,-26.5,0.75,2.2521836E-03,
    82000,-26.1,0.74,2.2521836E-03,
    82500,-25.8,0.72,2.2521836E-03,
    83000,-25.4,0.7,2.2521836E-03,
    83500,-25,0.68,1.9304431E-03,
    84000,-24.6,0.67,1.9304431E-03,
    84500,-24.2,0.65,1.9304431E-03,
    85000,-23.8,0.64,1.9304431E-03,
    85500,-23.4,0.62,1.9304431E-03,
    86000,-23,0.61,1.9304431E-03,
    86500,-22.6,0.59,1.9304431E-03,
    87000,-22.2,0.58,1.6087024E-03,
    87500,-21.8,0.57,1.6087024E-03,
    88000,-21.3,0.55,1.6087024E-03,
    88500,-20.9,0.54,1.6087024E-03,
    89000,-20.5,0.53,1.6087024E-03,
    89500,-20.1,0.52,1.6087024E-03,
    90000,-19.8,0.5,1.6087024E-03,
    90500,-19.4,0.49,1.6087024E-03,
    91000,-19.1,0.48,1.6087024E-03,
    91500,-18.7,0.47,1.2869621E-03,
    92000,-18.3,0.46,1.2869621E-03,
    92500,-18,0.45,1.2869621E-03,
    93000,-17.6,0.44,1.2869621E-03,
    93500,-17.2,0.43,1.2869621E-03,
    94000,-16.8,0.42,1.2869621E-03,
    94500,-16.4,0.41,1.2869621E-03,
    95000,-15.9,0.4,1.2869621E-03,
    95500,-15.5,0.39,1.2869621E-03,
    96000,-15.1,0.38,1.2869621E-03,
    96500,-14.7,0.37,9.6522155E-04,
    97000,-14.3,0.37,9.6522155E-04,
    97500,-13.8,0.36,9.6522155E-04,
    98000,-13.4,0.35,9.6522155E-04,
    98500,-12.9,0.34,9.6522155E-04,
    99000,-12.5,0.33,9.6522155E-04,
    99500,-12,0.33,9.6522155E-04,
    100000,-11.6,0.32,9.6522155E-04,
    ])

atm_data.alt = \
    np.array([    0.              ,   152.4             ,   304.8             ,   457.20000000000005,
             609.6             ,   762.              ,   914.4000000000001 ,  1066.8             ,
            1219.2             ,  1371.6000000000001 ,  1524.              ,  1676.4             ,
            1828.8000000000002 ,  1981.2             ,  2133.6             ,  2286.              ,
            2438.4             ,  2590.8             ,  2743.2000000000003 ,  2895.6000000000004 ,
            3048.              ,  3200.4             ,  3352.8             ,  3505.2000000000003 ,
            3657.6000000000004 ,  3810.              ,  3962.4             ,  4114.8             ,
            4267.2             ,  4419.6             ,  4572.              ,  4724.400000000001  ,
            4876.8             ,  5029.2             ,  5181.6             ,  5334.              ,
            5486.400000000001  ,  5638.8             ,  5791.200000000001  ,  5943.6             ,
            6096.              ,  6248.400000000001  ,  6400.8             ,  6553.200000000001  ,
            6705.6             ,  6858.              ,  7010.400000000001  ,  7162.8             ,
            7315.200000000001  ,  7467.6             ,  7620.              ,  7772.400000000001  ,
            7924.8             ,  8077.200000000001  ,  8229.6             ,  8382.              ,
            8534.4             ,  8686.800000000001  ,  8839.2             ,  8991.6             ,
            9144.              ,  9296.4             ,  9448.800000000001  ,  9601.2             ,
            9753.6             ,  9906.              , 10058.4             , 10210.800000000001  ,
           10363.2             , 10515.6             , 10668.              , 10820.4             ,
           10972.800000000001  , 11125.2             , 11277.6             , 11430.              ,
           11582.400000000001  , 11734.800000000001  , 11887.2             , 12009.12            ,
           12039.6             , 12192.              , 12344.400000000001  , 12496.800000000001  ,
           12649.2             , 12801.6             , 12954.              , 13106.400000000001  ,
           13258.800000000001  , 13411.2             , 13563.6             , 13716.              ,
           13868.400000000001  , 14020.800000000001  , 14173.2             , 14325.6             ,
           14478.              , 14630.400000000001  , 14782.800000000001  , 14935.2             ,
           15087.6             , 15240.              , 15361.92            , 15392.400000000001  ,
           15544.800000000001  , 15697.2             , 15849.6             , 16002.              ,
           16154.400000000001  , 16306.800000000001  , 16459.2             , 16611.600000000002  ,
           16764.              , 16916.4             , 17068.8             , 17221.2             ,
           17373.600000000002  , 17526.              , 17678.4             , 17830.8             ,
           17983.2             , 18135.600000000002  , 18288.              , 18440.4             ,
           18592.8             , 18745.2             , 18897.600000000002  , 19050.              ,
           19202.4             , 19354.8             , 19507.2             , 19659.600000000002  ,
           19812.              , 19964.4             , 20116.8             , 20238.72            ,
           20269.2             , 20421.600000000002  , 20574.              , 20726.4             ,
           20878.8             , 21031.2             , 21183.600000000002  , 21336.              ,
           21488.4             , 21640.8             , 21793.2             , 21945.600000000002  ,
           22098.              , 22250.4             , 22402.800000000003  , 22555.2             ,
           22707.600000000002  , 22860.              , 23012.4             , 23164.800000000003  ,
           23317.2             , 23469.600000000002  , 23622.              , 23774.4             ,
           23926.800000000003  , 24079.2             , 24231.600000000002  , 24384.              ,
           24536.4             , 24688.800000000003  , 24841.2             , 24993.600000000002  ,
           25146.              , 25298.4             , 25450.800000000003  , 25603.2             ,
           25755.600000000002  , 25908.              , 26060.4             , 26212.800000000003  ,
           26365.2             , 26517.600000000002  , 26670.              , 26822.4             ,
           26974.800000000003  , 27127.2             , 27279.600000000002  , 27432.              ,
           27584.4             , 27736.800000000003  , 27889.2             , 28041.600000000002  ,
           28194.              , 28346.4             , 28498.800000000003  , 28651.2             ,
           28803.600000000002  , 28956.              , 29108.4             , 29260.800000000003  ,
           29413.2             , 29565.600000000002  , 29718.              , 29870.4             ,
           30022.800000000003  , 30175.2             , 30327.600000000002  , 30480.              ])

atm_data.akima_T = \
    np.array([[ 3.1259444444444443e+02, -6.9262175561385477e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.1259444444444443e+02, -6.9262175561385477e-03, -1.2065661972017161e-18, -7.4689632372710600e-23],
           [ 3.1153888888888889e+02, -6.9262175561389198e-03, -4.8945609886484718e-18,  2.4050061624012817e-20],
           [ 3.1048333333333329e+02, -6.9262175561387342e-03,  3.4148099920803277e-20, -1.4937926474542113e-22],
           [ 3.0942777777777775e+02, -6.9262175561387324e-03, -5.6913499868005489e-21,  0.0000000000000000e+00],
           [ 3.0837222222222221e+02, -6.9262175561387368e-03, -7.1759402778121188e-06,  3.1390814863570054e-08],
           [ 3.0726111111111106e+02, -6.9262175561387385e-03,  1.7643184959081689e-19, -6.7220669135439472e-22],
           [ 3.0620555555555552e+02, -6.9262175561387350e-03, -5.6913499868005534e-21, -2.2406889711813220e-22],
           [ 3.0514999999999998e+02, -6.9262175561387489e-03, -5.9799502315031349e-06,  2.3543111147648527e-08],
           [ 3.0403888888888889e+02, -7.1084864391950707e-03,  4.7839601851948736e-06, -2.3543111147610662e-08],
           [ 3.0298333333333329e+02, -7.2907553222508635e-03, -3.5741677917107474e-18,  7.8424113991346284e-21],
           [ 3.0187222222222221e+02, -7.2907553222514082e-03, -4.7465858889916549e-18,  2.3377854932658395e-20],
           [ 3.0076111111111106e+02, -7.2907553222512252e-03,  7.1759402778026091e-06, -3.1390814863523104e-08],
           [ 2.9970555555555552e+02, -7.2907553222508531e-03, -2.4529718443110386e-18,  0.0000000000000000e+00],
           [ 2.9859444444444443e+02, -7.2907553222515990e-03, -1.2520969970961217e-18,  8.2905491933708922e-21],
           [ 2.9748333333333329e+02, -7.2907553222514073e-03,  3.7505996413015590e-18, -1.6357029489623604e-20],
           [ 2.9637222222222221e+02, -7.2907553222514047e-03, -4.8604128887276654e-18,  2.3975371991640078e-20],
           [ 2.9526111111111106e+02, -7.2907553222512174e-03,  1.1382699973601090e-20, -7.4689632372710529e-23],
           [ 2.9414999999999998e+02, -7.2907553222512148e-03, -1.7074049960401635e-20,  7.4689632372710529e-23],
           [ 2.9303888888888889e+02, -7.2907553222512148e-03, -2.2658097140978508e-06,  1.4867517809024912e-08],
           [ 2.9192777777777775e+02, -6.9454882750522029e-03,  2.5289657366730754e-07, -8.2971316819956848e-10],
           [ 2.9087222222222221e+02, -6.9262175561387394e-03,  1.1382699973601090e-20,  4.4813779423626318e-22],
           [ 2.8981666666666666e+02, -6.9262175561387081e-03,  7.1759402778045615e-06, -3.1390814863537298e-08],
           [ 2.8881666666666666e+02, -6.9262175561387290e-03, -7.3475328329595042e-18,  3.2116541920265524e-20],
           [ 2.8776111111111106e+02, -6.9262175561387281e-03,  1.2520969970961200e-19, -7.4689632372710520e-22],
           [ 2.8670555555555552e+02, -6.9262175561387480e-03, -1.5366644964361515e-19,  1.0456548532179535e-21],
           [ 2.8564999999999998e+02, -6.9262175561387281e-03, -5.6913499868005451e-21,  7.4689632372710529e-23],
           [ 2.8459444444444443e+02, -6.9262175561387281e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8353888888888889e+02, -6.9262175561387290e-03, -2.5781815440206545e-18,  0.0000000000000000e+00],
           [ 2.8248333333333329e+02, -6.9262175561395174e-03, -7.1759402777917230e-06,  3.1390814863486992e-08],
           [ 2.8137222222222221e+02, -6.9262175561390811e-03,  5.4523132873549381e-18, -2.1435924490968045e-20],
           [ 2.8031666666666666e+02, -6.9262175561389163e-03,  2.3919800925972788e-06, -1.5695407431747715e-08],
           [ 2.7926111111111106e+02, -7.2898035265172622e-03, -1.2490757663704433e-08,  4.0980176061947823e-11],
           [ 2.7814999999999998e+02, -7.2907553222512373e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7703888888888889e+02, -7.2907553222512373e-03,  7.1759402777961674e-06, -3.1390814863495430e-08],
           [ 2.7598333333333329e+02, -7.2907553222509068e-03, -3.2497608424631206e-18,  7.0955150754075410e-21],
           [ 2.7487222222222221e+02, -7.2907553222514021e-03, -4.3140432899947999e-18,  2.1211855593849660e-20],
           [ 2.7376111111111106e+02, -7.2907553222512373e-03,  5.9799502315045529e-06, -2.3543111147656954e-08],
           [ 2.7270555555555552e+02, -7.1084864391950647e-03, -3.5879701389006875e-06,  1.5695407431762726e-08],
           [ 2.7159444444444443e+02, -7.1084864391949823e-03,  1.1959900463012987e-06, -3.5851023538901265e-21],
           [ 2.7053888888888889e+02, -6.7439486730826005e-03,  3.5879701389042150e-06, -1.5695407431776881e-08],
           [ 2.6953888888888889e+02, -6.7439486730825884e-03, -3.5879701389073863e-06,  1.5695407431790884e-08],
           [ 2.6848333333333329e+02, -6.7439486730825789e-03,  4.7839601852036582e-06, -2.3543111147653443e-08],
           [ 2.6748333333333329e+02, -6.9262175561386665e-03, -3.9839449907603696e-19,  8.9627558847252090e-22],
           [ 2.6642777777777775e+02, -6.9262175561387290e-03, -5.3498689875925276e-19,  2.6888267654175943e-21],
           [ 2.6537222222222221e+02, -6.9262175561387081e-03,  7.1759402778013386e-06, -3.1390814863517088e-08],
           [ 2.6437222222222221e+02, -6.9262175561382935e-03, -2.7147739437038517e-18,  0.0000000000000000e+00],
           [ 2.6331666666666666e+02, -6.9262175561391219e-03, -2.4871199442318453e-18,  1.6282339857250988e-20],
           [ 2.6226111111111106e+02, -6.9262175561387454e-03,  7.7402359820487180e-19, -3.4357230891446636e-21],
           [ 2.6120555555555552e+02, -6.9262175561387498e-03,  5.6913499868005617e-21,  0.0000000000000000e+00],
           [ 2.6014999999999998e+02, -6.9262175561387489e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5909444444444443e+02, -6.9262175561387498e-03,  8.0248034813887443e-19, -3.4357230891446636e-21],
           [ 2.5803888888888889e+02, -6.9262175561387454e-03, -4.9514744885164889e-18,  1.6282339857250988e-20],
           [ 2.5698333333333329e+02, -6.9262175561391227e-03,  8.1727785810455578e-18, -3.5701644274155418e-20],
           [ 2.5592777777777775e+02, -6.9262175561391227e-03, -5.9799502315022930e-06,  2.3543111147650231e-08],
           [ 2.5481666666666663e+02, -7.1084864391950768e-03,  3.5879701389040214e-06, -1.5695407431775981e-08],
           [ 2.5376111111111109e+02, -7.1084864391950664e-03, -4.7839601852047280e-06,  2.3543111147658671e-08],
           [ 2.5264999999999998e+02, -6.9262175561389371e-03,  4.4278702897307842e-18, -1.7402684342841239e-20],
           [ 2.5159444444444443e+02, -6.9262175561388018e-03, -2.3919800926046294e-06,  1.5695407431783082e-08],
           [ 2.5053888888888886e+02, -6.5616797900262614e-03, -2.2765399947202247e-20,  0.0000000000000000e+00],
           [ 2.4953888888888886e+02, -6.5616797900262622e-03, -1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.4853888888888886e+02, -6.5616797900262622e-03, -1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.4753888888888886e+02, -6.5616797900262622e-03,  1.5366644964361333e-18, -6.7220669135438266e-21],
           [ 2.4653888888888886e+02, -6.5616797900262622e-03, -1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.4553888888888886e+02, -6.5616797900262622e-03, -5.6913499868005617e-21,  0.0000000000000000e+00],
           [ 2.4453888888888886e+02, -6.5616797900262631e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4353888888888886e+02, -6.5616797900262622e-03, -7.1759402778048783e-06,  3.1390814863538529e-08],
           [ 2.4248333333333332e+02, -6.5616797900262622e-03,  1.1894921472413032e-18, -4.4813779423625511e-21],
           [ 2.4148333333333332e+02, -6.5616797900262093e-03, -1.7358617459741712e-18,  9.0374455170980262e-21],
           [ 2.4048333333333332e+02, -6.5616797900261052e-03,  1.1959900463009743e-05, -4.7086222295317051e-08],
           [ 2.3959444444444443e+02, -6.1971420239137747e-03,  1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.3864999999999998e+02, -6.1971420239137747e-03,  1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.3770555555555552e+02, -6.1971420239137747e-03,  4.7839601852067770e-06, -1.5695407431781361e-08],
           [ 2.3681666666666663e+02, -5.8326042578010669e-03,  6.4867256748473011e-07, -4.2563816764104942e-09],
           [ 2.3592777777777775e+02, -5.9314619570858436e-03, -3.4866150502316482e-06,  1.1439025755349208e-08],
           [ 2.3498333333333332e+02, -6.1971420239137747e-03, -7.0003604837646908e-19,  4.6307572071080794e-21],
           [ 2.3403888888888886e+02, -6.1971420239136663e-03,  3.6879947914467202e-18, -1.7776132504704787e-20],
           [ 2.3309444444444443e+02, -6.1971420239137747e-03,  1.7074049960401687e-20,  0.0000000000000000e+00],
           [ 2.3214999999999998e+02, -6.1971420239137756e-03,  2.2765399947202247e-20,  0.0000000000000000e+00],
           [ 2.3120555555555552e+02, -6.1971420239137747e-03, -3.6627195167959654e-05,  2.5750277817744857e-07],
           [ 2.3037222222222221e+02, -3.6453776611263442e-03,  2.1527820833423960e-04, -3.1390814863553097e-06],
           [ 2.3037222222222221e+02,  7.2907553222516003e-04,  5.0510731132854984e-20, -2.8942232544425496e-22],
           [ 2.3048333333333332e+02,  7.2907553222515515e-04, -9.3907274782208156e-20,  4.9481881446919833e-22],
           [ 2.3059444444444443e+02,  7.2907553222516090e-04,  7.1759402778048851e-06, -3.1390814863538502e-08],
           [ 2.3076111111111109e+02,  7.2907553222516090e-04,  7.1141874835007021e-22, -9.3362040465888705e-24],
           [ 2.3087222222222221e+02,  7.2907553222516101e-04, -7.1141874835007021e-22,  0.0000000000000000e+00],
           [ 2.3098333333333332e+02,  7.2907553222516101e-04, -7.1141874835007021e-22,  0.0000000000000000e+00],
           [ 2.3109444444444443e+02,  7.2907553222516101e-04, -3.8423726598386839e-18,  1.6805167283859565e-20],
           [ 2.3120555555555552e+02,  7.2907553222516101e-04, -7.1141874835007021e-22,  0.0000000000000000e+00],
           [ 2.3131666666666663e+02,  7.2907553222516101e-04, -7.1141874835007021e-22,  0.0000000000000000e+00],
           [ 2.3142777777777775e+02,  7.2907553222516101e-04,  0.0000000000000000e+00, -9.3362040465888705e-24],
           [ 2.3153888888888886e+02,  7.2907553222516090e-04,  5.9799502315037795e-06, -2.3543111147651968e-08],
           [ 2.3170555555555552e+02,  9.1134441528144901e-04, -3.5879701389034442e-06,  1.5695407431773447e-08],
           [ 2.3181666666666663e+02,  9.1134441528144901e-04,  4.7839601852051202e-06, -2.3543111147659988e-08],
           [ 2.3198333333333332e+02,  7.2907553222534749e-04, -1.8361717894915311e-18,  4.0145677400332146e-21],
           [ 2.3209444444444443e+02,  7.2907553222506776e-04, -2.4479919130725916e-18,  1.2043703220099643e-20],
           [ 2.3220555555555552e+02,  7.2907553222516101e-04,  5.9799502315077547e-06, -2.3543111147670027e-08],
           [ 2.3237222222222221e+02,  9.1134441528140239e-04, -3.5879701389028326e-06,  1.5695407431771438e-08],
           [ 2.3248333333333332e+02,  9.1134441528144901e-04,  3.5879701389018738e-06, -1.5695407431767431e-08],
           [ 2.3264999999999998e+02,  9.1134441528140239e-04, -3.5879701389024129e-06,  1.5695407431769149e-08],
           [ 2.3276111111111109e+02,  9.1134441528140455e-04,  3.1893067901353685e-06, -1.3079506193140155e-08],
           [ 2.3292777777777775e+02,  9.7210070963350652e-04,  1.5946533950687037e-06, -2.0927209909032807e-08],
           [ 2.3303888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.3303888888888886e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.3303888888888886e+02,  0.0000000000000000e+00,  1.9135840740814657e-05, -7.8477037158848930e-08],
           [ 2.3320555555555552e+02,  3.6453776611279805e-04, -4.0799865217876528e-19, -2.6748224593477114e-21],
           [ 2.3326111111111109e+02,  3.6453776611248726e-04, -6.0506164547173476e-19,  3.9678867198002700e-21],
           [ 2.3331666666666663e+02,  3.6453776611257942e-04,  1.8564472238195081e-18, -8.1224975205323168e-21],
           [ 2.3337222222222221e+02,  3.6453776611257942e-04, -1.8998437674688397e-18,  8.3092216014638964e-21],
           [ 2.3342777777777775e+02,  3.6453776611257942e-04,  1.8639171206771841e-18, -8.1738466427885564e-21],
           [ 2.3348333333333332e+02,  3.6453776611257828e-04, -1.8066479114350035e-18,  7.9311053375772450e-21],
           [ 2.3353888888888886e+02,  3.6453776611258050e-04,  2.2797413790877727e-18, -1.1133423325556962e-20],
           [ 2.3359444444444443e+02,  3.6453776611249973e-04, -1.0706852162668684e-19,  3.5010765174709095e-22],
           [ 2.3364999999999998e+02,  3.6453776611249165e-04, -5.7624918616355003e-20,  0.0000000000000000e+00],
           [ 2.3370555555555552e+02,  3.6453776611247414e-04, -7.1759402778047690e-06,  3.1390814863538496e-08],
           [ 2.3370555555555552e+02,  3.6453776611248287e-04,  3.6716321602346685e-18, -1.6062939062155768e-20],
           [ 2.3376111111111109e+02,  3.6453776611248292e-04, -6.2604849854805431e-19,  4.1032616784757108e-21],
           [ 2.3381666666666663e+02,  3.6453776611257823e-04,  1.9503544986017409e-18, -8.5006137844193684e-21],
           [ 2.3387222222222221e+02,  3.6453776611258050e-04, -1.9211863299193419e-18,  8.4025836419297825e-21],
           [ 2.3392777777777775e+02,  3.6453776611258050e-04,  1.9354147048863890e-18, -8.5006137844193684e-21],
           [ 2.3398333333333332e+02,  3.6453776611257828e-04, -1.8920181612369892e-18,  8.3045534994406028e-21],
           [ 2.3403888888888886e+02,  3.6453776611258050e-04,  2.2808085072102980e-18, -1.1142759529603551e-20],
           [ 2.3409444444444443e+02,  3.6453776611249957e-04, -7.7544643570158579e-20,  1.6338357081530910e-22],
           [ 2.3414999999999998e+02,  3.6453776611248748e-04, -1.1489412785853498e-19,  5.5550414077202458e-22],
           [ 2.3420555555555552e+02,  3.6453776611249122e-04,  3.1071213834189685e-18, -1.2347129851614073e-20],
           [ 2.3426111111111109e+02,  3.6453776611257828e-04, -1.8920181612369892e-18,  8.3045534994406028e-21],
           [ 2.3431666666666663e+02,  3.6453776611258050e-04,  1.7636070771598029e-18, -7.7443812566452832e-21],
           [ 2.3437222222222221e+02,  3.6453776611257839e-04, -1.7227004991297154e-18,  7.5669933797604592e-21],
           [ 2.3442777777777775e+02,  3.6453776611258050e-04,  1.7497344115669770e-18, -7.6556873182026922e-21],
           [ 2.3448333333333332e+02,  3.6453776611258050e-04, -1.7365731647225419e-18,  7.5669933797604592e-21],
           [ 2.3453888888888886e+02,  3.6453776611257839e-04,  2.3608431163996798e-18, -1.1572224915746629e-20],
           [ 2.3459444444444443e+02,  3.6453776611249165e-04, -1.4406229654088751e-19,  5.6484034481861319e-22],
           [ 2.3464999999999998e+02,  3.6453776611248737e-04,  5.5134952997131100e-20, -1.8205597890848731e-22],
           [ 2.3470555555555552e+02,  3.6453776611249160e-04,  3.2664791830493084e-18, -1.3780237172764846e-20],
           [ 2.3476111111111109e+02,  3.6453776611252716e-04, -6.1128380144273376e-06,  2.4415078227201261e-08],
           [ 2.3476111111111109e+02,  2.0252098117365866e-04,  5.2519987735826345e-06, -2.6046810740009872e-08],
           [ 2.3481666666666663e+02,  3.2165097009928051e-04, -5.6985408088452188e-05,  1.5233777801423481e-06],
           [ 2.3481666666666663e+02,  1.0936132983374366e-03,  6.1082413733336299e-18, -2.3489889381217037e-20],
           [ 2.3498333333333332e+02,  1.0936132983376610e-03,  7.5410387325108342e-20, -4.8548261042263276e-22],
           [ 2.3514999999999998e+02,  1.0936132983376502e-03, -3.4859518669153025e-19,  1.6431719121996020e-21],
           [ 2.3531666666666663e+02,  1.0936132983376584e-03,  2.4842742692384746e-18, -8.1411699286256881e-21],
           [ 2.3548333333333332e+02,  1.0936132983378477e-03, -2.0562635883806301e-06,  1.3492543230834761e-08],
           [ 2.3564999999999998e+02,  1.4069878692064212e-03,  6.7143300844979252e-07, -2.2028642009503731e-09],
           [ 2.3587222222222221e+02,  1.4581510644503220e-03,  4.5530799894405030e-19, -2.2593613792745603e-21],
           [ 2.3609444444444443e+02,  1.4581510644503044e-03, -5.9799502315070982e-06,  2.3543111147665805e-08],
           [ 2.3626111111111109e+02,  1.2758821813939872e-03,  3.5879701389046757e-06, -1.5695407431779326e-08],
           [ 2.3648333333333332e+02,  1.2758821813939787e-03, -3.5879701389044085e-06,  1.5695407431777758e-08],
           [ 2.3664999999999998e+02,  1.2758821813939852e-03,  3.5879701389039473e-06, -1.5695407431775779e-08],
           [ 2.3687222222222221e+02,  1.2758821813939765e-03, -3.5879701389038961e-06,  1.5695407431775796e-08],
           [ 2.3703888888888886e+02,  1.2758821813939765e-03,  3.5879701389040041e-06, -1.5695407431775779e-08],
           [ 2.3726111111111109e+02,  1.2758821813939852e-03, -3.5879701389044509e-06,  1.5695407431777758e-08],
           [ 2.3742777777777775e+02,  1.2758821813939787e-03,  3.5879701389047312e-06, -1.5695407431779326e-08],
           [ 2.3764999999999998e+02,  1.2758821813939872e-03, -4.7839601852058148e-06,  2.3543111147665805e-08],
           [ 2.3781666666666663e+02,  1.4581510644503044e-03,  5.7055783617676312e-19, -2.2593613792745603e-21],
           [ 2.3803888888888886e+02,  1.4581510644503220e-03,  0.0000000000000000e+00, -7.6556873182026916e-22],
           [ 2.3826111111111109e+02,  1.4581510644502698e-03, -5.9799502315065874e-06,  2.3543111147663959e-08],
           [ 2.3842777777777775e+02,  1.2758821813939787e-03,  4.7839601852048763e-06, -2.3543111147659664e-08],
           [ 2.3864999999999998e+02,  1.0936132983378477e-03, -3.4859518669153028e-18,  1.3724219948485312e-20],
           [ 2.3881666666666663e+02,  1.0936132983377415e-03,  0.0000000000000000e+00,  4.5747399828286546e-21],
           [ 2.3898333333333332e+02,  1.0936132983380602e-03,  5.9799502314973336e-06, -2.3543111147628069e-08],
           [ 2.3920555555555552e+02,  1.2758821813940316e-03, -4.7839601852015051e-06,  2.3543111147643660e-08],
           [ 2.3937222222222221e+02,  1.4581510644501182e-03,  3.6253899415920008e-18, -1.4284392191281311e-20],
           [ 2.3959444444444443e+02,  1.4581510644502290e-03, -4.2685124901003705e-21, -4.7614640637602109e-21],
           [ 2.3981666666666663e+02,  1.4581510644498970e-03, -7.1759402777965748e-06,  3.1390814863503007e-08],
           [ 2.3998333333333332e+02,  1.4581510644499315e-03,  1.2250630846588064e-18, -1.8672408093177294e-23],
           [ 2.4020555555555552e+02,  1.4581510644503047e-03, -1.9350589955121679e-19,  1.2510513422428787e-21],
           [ 2.4042777777777775e+02,  1.4581510644503339e-03,  6.9719037338307715e-20, -2.4274130521131638e-22],
           [ 2.4064999999999998e+02,  1.4581510644503394e-03, -2.2907683696871986e-19,  0.0000000000000000e+00],
           [ 2.4087222222222221e+02,  1.4581510644502700e-03, -7.1759402778075888e-06,  3.1390814863551208e-08],
           [ 2.4103888888888886e+02,  1.4581510644503047e-03, -1.4228374967001235e-21,  0.0000000000000000e+00],
           [ 2.4126111111111109e+02,  1.4581510644503047e-03, -1.4228374967001235e-21,  0.0000000000000000e+00],
           [ 2.4148333333333332e+02,  1.4581510644503047e-03, -2.8044127059960100e-18,  1.1856979139168148e-20],
           [ 2.4170555555555552e+02,  1.4581510644502765e-03,  1.8212319957761581e-19,  1.8672408093177294e-23],
           [ 2.4192777777777775e+02,  1.4581510644503331e-03,  3.0875573678393417e-19, -1.7738787688519278e-21],
           [ 2.4214999999999998e+02,  1.4581510644503047e-03, -1.4228374967001235e-21,  0.0000000000000000e+00],
           [ 2.4237222222222221e+02,  1.4581510644503047e-03, -1.4228374967001235e-21,  0.0000000000000000e+00],
           [ 2.4259444444444443e+02,  1.4581510644503047e-03, -2.8044127059960100e-18,  1.1856979139168148e-20],
           [ 2.4281666666666663e+02,  1.4581510644502765e-03,  3.6993774914203212e-19, -1.2137065260565242e-21],
           [ 2.4303888888888886e+02,  1.4581510644503044e-03,  2.3049967446542550e-19, -1.8672408093178185e-23],
           [ 2.4326111111111109e+02,  1.4581510644503738e-03,  7.1759402778035781e-06, -3.1390814863532904e-08],
           [ 2.4353888888888886e+02,  1.4581510644503391e-03, -6.8011632342265907e-19,  2.9689128868151902e-21],
           [ 2.4376111111111109e+02,  1.4581510644503391e-03,  1.4228374967001573e-21, -1.8672408093178185e-23],
           [ 2.4398333333333332e+02,  1.4581510644503394e-03, -1.4541399216275262e-18,  1.8672408093177294e-23],
           [ 2.4420555555555552e+02,  1.4581510644498972e-03, -5.9799502314976419e-06,  2.3543111147630630e-08],
           [ 2.4437222222222221e+02,  1.2758821813939763e-03,  3.5879701389037012e-06, -1.5695407431773781e-08],
           [ 2.4459444444444443e+02,  1.2758821813940318e-03, -4.7839601852051803e-06,  2.3543111147659720e-08],
           [ 2.4476111111111109e+02,  1.4581510644501184e-03,  3.6225442665986004e-18, -1.4265719783188134e-20],
           [ 2.4498333333333332e+02,  1.4581510644502290e-03, -5.6913499868004940e-21, -4.7427916556670329e-21],
           [ 2.4520555555555552e+02,  1.4581510644498972e-03, -7.1759402777978014e-06,  3.1390814863511053e-08],
           [ 2.4537222222222221e+02,  1.4581510644501180e-03,  3.6723435789830184e-18, -1.6076943368225653e-20],
           [ 2.4559444444444443e+02,  1.4581510644501182e-03, -1.2250630846588064e-18,  8.0291354800662366e-21],
           [ 2.4581666666666663e+02,  1.4581510644503047e-03,  4.5388516144735020e-19, -1.4937926474542546e-21],
           [ 2.4603888888888886e+02,  1.4581510644503394e-03, -6.8296199841605928e-19,  2.9689128868151902e-21],
           [ 2.4626111111111109e+02,  1.4581510644503391e-03,  7.1759402778052840e-06, -3.1390814863541116e-08],
           [ 2.4653888888888886e+02,  1.4581510644503047e-03,  0.0000000000000000e+00, -1.8672408093177294e-23],
           [ 2.4676111111111109e+02,  1.4581510644503044e-03,  1.4228374967001235e-21, -1.8672408093177294e-23],
           [ 2.4698333333333332e+02,  1.4581510644503047e-03, -1.9933953328769206e-18,  6.5353428326123651e-21],
           [ 2.4720555555555552e+02,  1.4581510644501529e-03,  9.9456341019338633e-19,  0.0000000000000000e+00],
           [ 2.4742777777777775e+02,  1.4581510644504565e-03,  5.9799502315028597e-06, -2.3543111147650886e-08],
           [ 2.4770555555555552e+02,  1.6404199475065571e-03, -3.5879701389026285e-06,  1.5695407431769992e-08],
           [ 2.4792777777777775e+02,  1.6404199475065653e-03,  3.5879701389020449e-06, -1.5695407431767471e-08],
           [ 2.4820555555555552e+02,  1.6404199475065549e-03, -3.5879701389019894e-06,  1.5695407431767564e-08],
           [ 2.4842777777777775e+02,  1.6404199475065634e-03,  3.5879701389020152e-06, -1.5695407431767190e-08],
           [ 2.4870555555555552e+02,  1.6404199475065634e-03, -1.1959900463007011e-06,  0.0000000000000000e+00],
           [ 2.4892777777777775e+02,  1.2758821813941153e-03,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_P = \
    np.array([[ 1.0096781499999999e+05, -1.1078904199474941e+01,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.0096781499999999e+05, -1.1078904199474941e+01, -6.1776189296727866e-16,  1.9885367722910472e-18],
           [ 9.9279389999999999e+04, -1.1078904199474989e+01, -6.4107366251321373e-16,  0.0000000000000000e+00],
           [ 9.7590964999999997e+04, -1.1078904199475181e+01, -4.3617733068797154e-02,  1.9080373170952375e-04],
           [ 9.5564854999999996e+04, -1.1078904199475183e+01,  6.5272954728618136e-16,  0.0000000000000000e+00],
           [ 9.3876429999999993e+04, -1.1078904199474991e+01,  5.0120304523760351e-16, -3.3652160761848497e-18],
           [ 9.2188005000000005e+04, -1.1078904199475067e+01, -5.8279423864837576e-17, -1.5296436709931116e-19],
           [ 9.0499580000000002e+04, -1.1078904199475092e+01, -4.6623539091870133e-17,  1.5296436709931160e-19],
           [ 8.8811154999999999e+04, -1.1078904199475094e+01,  9.3247078183740131e-17,  0.0000000000000000e+00],
           [ 8.7122729999999996e+04, -1.1078904199475062e+01,  4.3617733068798251e-02, -1.9080373170952749e-04],
           [ 8.5771989999999991e+04, -1.1078904199474982e+01, -1.8532856789018380e-15,  7.3422896207669559e-18],
           [ 8.4083564999999988e+04, -1.1078904199475039e+01,  0.0000000000000000e+00,  2.4474298735889786e-18],
           [ 8.2395139999999999e+04, -1.1078904199474870e+01,  3.6348110890662907e-02, -1.4310279878213843e-04],
           [ 8.1044399999999994e+04, -9.9710137795275386e+00, -2.9078488712533667e-02,  1.4310279878215307e-04],
           [ 7.9355974999999991e+04, -8.8631233595800811e+00,  1.3637385184372015e-15, -5.3537528484759060e-18],
           [ 7.8005235000000001e+04, -8.8631233595800420e+00,  1.1655884772967516e-17, -1.8355724051917340e-18],
           [ 7.6654494999999995e+04, -8.8631233595801628e+00, -4.3617733068798063e-02,  1.9080373170952885e-04],
           [ 7.4966069999999992e+04, -8.8631233595800811e+00,  1.8532856789018352e-15, -8.1071114562634918e-18],
           [ 7.3615330000000002e+04, -8.8631233595800829e+00, -1.1655884772967516e-17,  0.0000000000000000e+00],
           [ 7.2264589999999997e+04, -8.8631233595800829e+00, -1.1655884772967516e-17,  0.0000000000000000e+00],
           [ 7.0913849999999991e+04, -8.8631233595800811e+00,  1.1073090534319173e-15, -4.2830022787807376e-18],
           [ 6.9563110000000001e+04, -8.8631233595800420e+00, -7.4597662546992105e-16,  3.0592873419862229e-18],
           [ 6.8212369999999995e+04, -8.8631233595800509e+00,  1.2122120163886217e-15, -5.2007884813765790e-18],
           [ 6.6861630000000005e+04, -8.8631233595800438e+00, -1.1073090534319141e-15,  3.6711448103834679e-18],
           [ 6.5510889999999992e+04, -8.8631233595801309e+00,  9.5578255138333628e-16,  0.0000000000000000e+00],
           [ 6.4160150000000001e+04, -8.8631233595798449e+00,  4.3617733068794191e-02, -1.9080373170951139e-04],
           [ 6.3147094999999994e+04, -8.8631233595798449e+00, -1.3987061727561020e-15,  3.0592873419862229e-18],
           [ 6.1796355000000003e+04, -8.8631233595800580e+00, -1.8649415636748024e-15,  9.1778620259586694e-18],
           [ 6.0445614999999991e+04, -8.8631233595799870e+00,  3.6348110890667092e-02, -1.4310279878215578e-04],
           [ 5.9432560000000005e+04, -7.7552329396325632e+00, -2.1808866534400593e-02,  9.5401865854770969e-05],
           [ 5.8081819999999992e+04, -7.7552329396325206e+00,  2.1808866534399184e-02, -9.5401865854765291e-05],
           [ 5.7068764999999992e+04, -7.7552329396325561e+00, -2.9078488712529889e-02,  1.4310279878213417e-04],
           [ 5.5718025000000001e+04, -6.6473425196851998e+00,  6.1776189296728014e-16,  0.0000000000000000e+00],
           [ 5.4704969999999994e+04, -6.6473425196850089e+00,  3.4967654318902654e-17, -2.2944655064896809e-19],
           [ 5.3691915000000001e+04, -6.6473425196850151e+00, -2.9139711932418702e-17,  7.6482183549655113e-20],
           [ 5.2678860000000001e+04, -6.6473425196850178e+00, -2.5060152261880235e-16,  0.0000000000000000e+00],
           [ 5.1665805000000000e+04, -6.6473425196850959e+00, -4.3617733068796342e-02,  1.9080373170951760e-04],
           [ 5.0315065000000002e+04, -6.6473425196852398e+00,  8.8001930035905002e-16,  0.0000000000000000e+00],
           [ 4.9302009999999995e+04, -6.6473425196849698e+00, -5.8279423864837405e-18,  0.0000000000000000e+00],
           [ 4.8288955000000002e+04, -6.6473425196849698e+00, -1.7075871192397461e-15,  7.4952539878662914e-18],
           [ 4.7275900000000001e+04, -6.6473425196849698e+00,  4.3617733068797716e-02, -1.9080373170952689e-04],
           [ 4.6600529999999999e+04, -6.6473425196849787e+00, -2.5060152261880082e-16,  0.0000000000000000e+00],
           [ 4.5587474999999999e+04, -6.6473425196850568e+00, -1.2238679011615929e-16,  8.4130401904621626e-19],
           [ 4.4574419999999998e+04, -6.6473425196850373e+00,  2.6225740739176830e-16, -8.4130401904620625e-19],
           [ 4.3561364999999998e+04, -6.6473425196850178e+00, -7.6346045262937457e-16,  3.3652160761848651e-18],
           [ 4.2548309999999998e+04, -6.6473425196850178e+00,  4.3617733068799500e-02, -1.9080373170953440e-04],
           [ 4.1872940000000002e+04, -6.6473425196850098e+00, -9.0333106990497976e-16,  3.5181804432841355e-18],
           [ 4.0859884999999995e+04, -6.6473425196850373e+00,  0.0000000000000000e+00,  1.1472327532448402e-18],
           [ 3.9846830000000002e+04, -6.6473425196849538e+00,  3.6348110890664975e-02, -1.4310279878214583e-04],
           [ 3.9171459999999999e+04, -5.5394520997375363e+00, -2.9078488712532678e-02,  1.4310279878214819e-04],
           [ 3.8158404999999999e+04, -4.4315616797901276e+00,  7.2849279831047187e-16, -1.6061258545427767e-18],
           [ 3.7483034999999996e+04, -4.4315616797900175e+00,  9.6743843615630096e-16, -4.8183775636282725e-18],
           [ 3.6807665000000001e+04, -4.4315616797900539e+00, -4.3617733068799361e-02,  1.9080373170953402e-04],
           [ 3.5794610000000001e+04, -4.4315616797900548e+00,  4.4292362137276426e-16, -1.6826080380924125e-18],
           [ 3.5119239999999998e+04, -4.4315616797900397e+00, -5.8279423864837752e-18, -6.1185746839724822e-19],
           [ 3.4443869999999995e+04, -4.4315616797900805e+00, -4.3617733068797113e-02,  1.9080373170952240e-04],
           [ 3.3430815000000002e+04, -4.4315616797902013e+00,  8.1008399172124471e-16,  7.6482183549656027e-20],
           [ 3.2755444999999996e+04, -4.4315616797899535e+00,  4.2543979421331054e-16, -2.7533586077875515e-18],
           [ 3.2080075000000001e+04, -4.4315616797900175e+00, -4.6623539091870201e-17, -2.2944655064896809e-19],
           [ 3.1404705000000002e+04, -4.4315616797900486e+00, -1.4569855966209438e-16,  7.6482183549656015e-19],
           [ 3.0729334999999999e+04, -4.4315616797900423e+00,  1.9232209875396457e-16, -7.6482183549656015e-19],
           [ 3.0053965000000000e+04, -4.4315616797900352e+00, -4.7789127569166952e-16,  2.2944655064896805e-18],
           [ 2.9378594999999998e+04, -4.4315616797900184e+00,  6.3524572012672390e-16, -2.4474298735889343e-18],
           [ 2.8703224999999999e+04, -4.4315616797899926e+00, -4.0795596705386428e-17, -3.0592873419862411e-19],
           [ 2.8027855000000003e+04, -4.4315616797900264e+00, -9.4995460899685543e-16,  4.0535557281317690e-18],
           [ 2.7352484999999997e+04, -4.4315616797900352e+00,  3.7881625512144538e-16, -1.2237149367944964e-18],
           [ 2.6677115000000002e+04, -4.4315616797900050e+00, -9.5578255138333904e-16,  4.1300379116814252e-18],
           [ 2.6001744999999999e+04, -4.4315616797900059e+00,  4.3617733068798584e-02, -1.9080373170952763e-04],
           [ 2.5664059999999998e+04, -4.4315616797899580e+00, -3.1470888887012384e-16,  0.0000000000000000e+00],
           [ 2.4988690000000002e+04, -4.4315616797900539e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4313320000000000e+04, -4.4315616797900539e+00,  1.5152650204857815e-16,  0.0000000000000000e+00],
           [ 2.3637950000000001e+04, -4.4315616797900059e+00,  3.6348110890665745e-02, -1.4310279878214892e-04],
           [ 2.3300264999999999e+04, -3.3236712598425155e+00, -2.1808866534398650e-02,  9.5401865854761333e-05],
           [ 2.2624895000000000e+04, -3.3236712598425155e+00,  2.9078488712532748e-02, -1.4310279878214998e-04],
           [ 2.2287209999999999e+04, -4.4315616797900299e+00, -5.8279423864837752e-18,  0.0000000000000000e+00],
           [ 2.1611840000000000e+04, -4.4315616797900299e+00, -5.8279423864837752e-18,  0.0000000000000000e+00],
           [ 2.0936470000000001e+04, -4.4315616797900299e+00,  2.9078488712532994e-02, -9.5401865854766429e-05],
           [ 2.0598785000000000e+04, -2.2157808398950136e+00,  5.2451481478353975e-17, -9.1778620259587238e-19],
           [ 2.0261099999999999e+04, -2.2157808398950616e+00, -3.3924903497954718e-02,  1.2720248780635518e-04],
           [ 1.9585730000000000e+04, -3.6929680664916802e+00,  8.9493454844445462e-03, -1.1292834499854958e-05],
           [ 1.9248045000000002e+04, -2.0143462180863554e+00,  2.1294852845036871e-01, -4.8182760532711512e-03],
           [ 1.9248045000000002e+04, -2.4619787109944347e+00, -4.0386789878519055e-02,  1.8020352439234241e-04],
           [ 1.8572674999999999e+04, -2.2157808398950021e+00,  6.6438543205914249e-16, -3.2504928008603033e-18],
           [ 1.8234990000000002e+04, -2.2157808398950269e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.7897305000000000e+04, -2.2157808398950269e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.7559619999999999e+04, -2.2157808398950269e+00, -4.3617733068799472e-02,  1.9080373170953462e-04],
           [ 1.6884250000000000e+04, -2.2157808398950123e+00,  1.8358018517423892e-16, -8.0306292727138835e-19],
           [ 1.6546565000000002e+04, -2.2157808398950127e+00,  5.8279423864837058e-18, -3.8241091774827099e-20],
           [ 1.6208879999999999e+04, -2.2157808398950132e+00, -1.1655884772967550e-17, -3.8241091774828014e-20],
           [ 1.5871195000000000e+04, -2.2157808398950172e+00, -1.6609635801478759e-16,  6.8833965194690414e-19],
           [ 1.5533509999999998e+04, -2.2157808398950212e+00,  3.4967654318902654e-17,  3.8241091774828014e-20],
           [ 1.5195824999999999e+04, -2.2157808398950083e+00,  1.0198899176346607e-16, -4.5889310129793619e-19],
           [ 1.4858140000000001e+04, -2.2157808398950083e+00, -7.8677222217530022e-17,  3.0592873419861679e-19],
           [ 1.4520454999999998e+04, -2.2157808398950096e+00,  1.5444047324182003e-16, -7.2658074372173224e-19],
           [ 1.4182770000000000e+04, -2.2157808398950132e+00, -2.5934343619852797e-16,  1.1089916614700123e-18],
           [ 1.3845084999999999e+04, -2.2157808398950150e+00, -5.8279423864837752e-18,  3.8241091774828014e-20],
           [ 1.3507400000000000e+04, -2.2157808398950145e+00, -8.7419135797256635e-18,  3.8241091774828014e-20],
           [ 1.3169715000000000e+04, -2.2157808398950150e+00,  1.8940812756072045e-16, -6.5009856017206072e-19],
           [ 1.2832029999999999e+04, -2.2157808398950016e+00,  8.7419135797256635e-18, -1.1472327532448405e-19],
           [ 1.2494345000000001e+04, -2.2157808398950070e+00, -3.1470888887012384e-16,  1.2237149367944964e-18],
           [ 1.2156660000000000e+04, -2.2157808398950189e+00,  4.9537510285112091e-17, -1.9120545887414004e-19],
           [ 1.1818975000000000e+04, -2.2157808398950150e+00, -1.4278458846885250e-16,  4.2065200952310813e-19],
           [ 1.1481289999999999e+04, -2.2157808398950292e+00, -3.1804597029332526e-02,  2.2359812309710801e-04],
           [ 1.1143605000000000e+04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.1143605000000000e+04,  0.0000000000000000e+00,  7.2696221781332684e-03, -4.7700932927383763e-05],
           [ 1.1143605000000000e+04, -1.1078904199475075e+00, -1.4539244356266542e-02,  4.7700932927383750e-05],
           [ 1.0805920000000000e+04, -2.2157808398950150e+00, -2.9139711932418876e-18,  0.0000000000000000e+00],
           [ 1.0468235000000001e+04, -2.2157808398950150e+00, -2.3603166665259290e-16,  1.0325094779203563e-18],
           [ 1.0130549999999999e+04, -2.2157808398950150e+00,  4.3617733068799014e-02, -1.9080373170953001e-04],
           [ 1.0130549999999999e+04, -2.2157808398950030e+00, -1.1947281892291738e-16,  2.6768764242379610e-19],
           [ 9.7928649999999998e+03, -2.2157808398950212e+00, -1.5444047324182003e-16,  7.6482183549656015e-19],
           [ 9.4551799999999985e+03, -2.2157808398950150e+00,  4.3617733068799000e-02, -1.9080373170952990e-04],
           [ 9.4551799999999985e+03, -2.2157808398950007e+00, -4.7497730449843333e-16,  1.8738134969666172e-18],
           [ 9.1174950000000008e+03, -2.2157808398950150e+00, -5.8279423864837058e-18,  6.5009856017206072e-19],
           [ 8.7798099999999995e+03, -2.2157808398949719e+00,  4.3617733068799354e-02, -1.9080373170953635e-04],
           [ 8.7798099999999995e+03, -2.2157808398949830e+00, -5.5365452671595205e-17,  1.1472327532448130e-19],
           [ 8.4421250000000000e+03, -2.2157808398949919e+00, -6.9935308637804470e-17,  3.4416982597344393e-19],
           [ 8.1044399999999996e+03, -2.2157808398949888e+00,  3.6348110890666363e-02, -1.4310279878215312e-04],
           [ 8.1044399999999996e+03, -1.1078904199474973e+00, -2.1808866534399361e-02,  9.5401865854764518e-05],
           [ 7.7667549999999992e+03, -1.1078904199474942e+00,  2.1808866534399805e-02, -9.5401865854768652e-05],
           [ 7.7667549999999992e+03, -1.1078904199474942e+00, -2.1808866534399087e-02,  9.5401865854763041e-05],
           [ 7.4290700000000006e+03, -1.1078904199475075e+00,  2.1808866534399549e-02, -9.5401865854765250e-05],
           [ 7.4290700000000006e+03, -1.1078904199475075e+00, -2.1808866534400593e-02,  9.5401865854771891e-05],
           [ 7.0913850000000002e+03, -1.1078904199475237e+00,  2.1808866534399864e-02, -9.5401865854766659e-05],
           [ 7.0913850000000002e+03, -1.1078904199475237e+00, -2.1808866534400468e-02,  9.5401865854771769e-05],
           [ 6.7536999999999998e+03, -1.1078904199475106e+00,  2.1808866534399604e-02, -9.5401865854765534e-05],
           [ 6.7536999999999998e+03, -1.1078904199475106e+00, -2.1808866534399174e-02,  9.5401865854763868e-05],
           [ 6.4160149999999994e+03, -1.1078904199474959e+00,  2.1808866534399840e-02, -9.5401865854768801e-05],
           [ 6.4160149999999994e+03, -1.1078904199474959e+00, -2.1808866534399257e-02,  9.5401865854763989e-05],
           [ 6.0783299999999999e+03, -1.1078904199474959e+00,  2.1808866534399840e-02, -9.5401865854768801e-05],
           [ 6.0783299999999999e+03, -1.1078904199474959e+00, -2.9078488712532477e-02,  1.4310279878214664e-04],
           [ 5.7406449999999995e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.7406449999999995e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.7406449999999995e+03,  0.0000000000000000e+00, -4.3617733068798577e-02,  1.9080373170952825e-04],
           [ 5.4029600000000000e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.4029600000000000e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.4029600000000000e+03,  0.0000000000000000e+00, -1.0904433267200193e+00,  2.3850466463692804e-02],
           [ 5.0652749999999996e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.0652749999999996e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.0652749999999996e+03,  0.0000000000000000e+00, -4.3617733068798688e-02,  1.9080373170952877e-04],
           [ 4.7275899999999992e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.7275899999999992e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.7275899999999992e+03,  0.0000000000000000e+00, -4.3617733068798577e-02,  1.9080373170952825e-04],
           [ 4.3899049999999997e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.3899049999999997e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.3899049999999997e+03,  0.0000000000000000e+00, -4.3617733068800700e-02,  1.9080373170954210e-04],
           [ 4.0522199999999998e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.0522199999999998e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.0522199999999998e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.0522199999999998e+03,  0.0000000000000000e+00, -4.3617733068798577e-02,  1.9080373170952825e-04],
           [ 3.7145350000000003e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.7145350000000003e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.7145350000000003e+03,  0.0000000000000000e+00, -4.3617733068798688e-02,  1.9080373170952877e-04],
           [ 3.3768499999999999e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.3768499999999999e+03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.3768499999999999e+03,  0.0000000000000000e+00, -5.8156977425064572e-03,  1.9080373170952601e-05],
           [ 3.3093129999999996e+03, -4.4315616797900764e-01, -3.6424639915524028e-19,  0.0000000000000000e+00],
           [ 3.2417759999999998e+03, -4.4315616797900775e-01,  1.5079800925026590e-16, -6.5487869664391409e-19],
           [ 3.1742389999999996e+03, -4.4315616797900770e-01, -4.3617733068800589e-03,  1.9080373170954228e-05],
           [ 3.0729335000000001e+03, -4.4315616797900304e-01,  1.9669305554382506e-17,  0.0000000000000000e+00],
           [ 3.0053964999999998e+03, -4.4315616797899715e-01,  1.4934102365364497e-17, -1.0516300238077453e-19],
           [ 2.9378595000000000e+03, -4.4315616797899954e-01, -1.9596456274551928e-16,  8.0784306374326098e-19],
           [ 2.8703224999999998e+03, -4.4315616797900309e-01,  1.2165829731784736e-16, -5.4493555779128623e-19],
           [ 2.8027855000000000e+03, -4.4315616797900392e-01, -8.8147628595568147e-17,  4.1587187305126449e-19],
           [ 2.7352485000000001e+03, -4.4315616797900181e-01,  1.6026841562830191e-17, -2.8680818831120326e-20],
           [ 2.6677114999999999e+03, -4.4315616797899904e-01,  2.4404508743400517e-17, -8.6042456493360983e-20],
           [ 2.6001745000000001e+03, -4.4315616797899715e-01, -2.6626411778248065e-16,  1.1615731626604285e-18],
           [ 2.5326374999999998e+03, -4.4315616797899715e-01,  4.3617733068798421e-03, -1.9080373170952798e-05],
           [ 2.4988689999999997e+03, -4.4315616797900009e-01, -1.4934102365364852e-16,  6.5009856017209163e-19],
           [ 2.4313319999999999e+03, -4.4315616797900015e-01,  1.0927391974656948e-18, -4.7801364718533874e-21],
           [ 2.3637949999999996e+03, -4.4315616797900009e-01,  3.8974364709609785e-17,  0.0000000000000000e+00],
           [ 2.2962580000000003e+03, -4.4315616797898821e-01,  3.6348110890663961e-03, -1.4310279878214426e-05],
           [ 2.2624895000000001e+03, -3.3236712598425050e-01, -2.1808866534399219e-03,  9.5401865854763634e-06],
           [ 2.1949524999999999e+03, -3.3236712598425194e-01,  2.1808866534399748e-03, -9.5401865854768225e-06],
           [ 2.1611840000000002e+03, -3.3236712598425061e-01, -2.1808866534399141e-03,  9.5401865854763176e-06],
           [ 2.0936469999999999e+03, -3.3236712598425294e-01,  2.1808866534399904e-03, -9.5401865854766683e-06],
           [ 2.0598784999999998e+03, -3.3236712598425194e-01, -2.9078488712534420e-03,  1.4310279878215850e-05],
           [ 1.9923414999999998e+03, -2.2157808398950538e-01,  1.1127727494192325e-16, -4.3977255541051164e-19],
           [ 1.9585729999999999e+03, -2.2157808398950199e-01,  5.4636959873286042e-19, -1.4818423062746208e-19],
           [ 1.9248044999999997e+03, -2.2157808398951212e-01, -4.3617733068796096e-03,  1.9080373170951859e-05],
           [ 1.8572675000000002e+03, -2.2157808398950385e-01,  7.5034758225977711e-17, -3.2743934832195705e-19],
           [ 1.8234990000000000e+03, -2.2157808398950385e-01, -1.8212319957762014e-19,  0.0000000000000000e+00],
           [ 1.7897305000000001e+03, -2.2157808398950382e-01,  7.4852635026400098e-17, -3.2743934832195705e-19],
           [ 1.7559620000000000e+03, -2.2157808398950388e-01, -4.3617733068801040e-03,  1.9080373170954390e-05],
           [ 1.6884250000000000e+03, -2.2157808398950152e-01,  9.8346527771912528e-18,  0.0000000000000000e+00],
           [ 1.6546564999999998e+03, -2.2157808398949858e-01,  6.3743119852165529e-18, -4.3021228246680491e-20],
           [ 1.6208879999999999e+03, -2.2157808398949960e-01, -9.9621390168958217e-17,  4.0631160010755732e-19],
           [ 1.5871194999999998e+03, -2.2157808398950163e-01,  8.9604614192186982e-17, -3.9197119069197781e-19],
           [ 1.5533510000000001e+03, -2.2157808398950160e-01, -8.6508519799369568e-17,  4.0631160010755732e-19],
           [ 1.5195825000000000e+03, -2.2157808398949960e-01,  1.8576566356916812e-17, -8.1262320021507590e-20],
           [ 1.4858140000000001e+03, -2.2157808398949941e-01, -2.1854783949313897e-18, -1.1950341179633470e-20],
           [ 1.4520454999999999e+03, -2.2157808398950099e-01, -7.9041468616687147e-17,  3.3221948479382625e-19],
           [ 1.4182769999999998e+03, -2.2157808398950196e-01,  6.3560996652587912e-17, -2.7246777889564311e-19],
           [ 1.3845084999999999e+03, -2.2157808398950155e-01, -5.7368807866950348e-17,  2.7724791536750968e-19],
           [ 1.3507400000000000e+03, -2.2157808398949971e-01,  1.9487182354804892e-17, -8.1262320021507590e-20],
           [ 1.3169715000000001e+03, -2.2157808398949932e-01, -9.2882831784584058e-18,  3.1070887067047022e-20],
           [ 1.2832030000000000e+03, -2.2157808398950005e-01, -1.0399234695882110e-16,  4.5411296482609351e-19],
           [ 1.2494344999999998e+03, -2.2157808398950005e-01,  4.3617733068798802e-03, -1.9080373170952927e-05],
           [ 1.2494344999999998e+03, -2.2157808398950005e-01, -7.4852635026401873e-17,  3.2743934832197265e-19],
           [ 1.2156659999999999e+03, -2.2157808398950005e-01, -5.8279423864837058e-18,  4.0631160010753795e-20],
           [ 1.1818974999999998e+03, -2.2157808398949913e-01,  2.6954233537487141e-17, -8.8432524729287679e-20],
           [ 1.1481290000000001e+03, -2.2157808398949710e-01, -1.6208964762408193e-16,  7.0985026607026192e-19],
           [ 1.1143605000000000e+03, -2.2157808398949708e-01,  3.6348110890665427e-03, -1.4310279878214664e-05],
           [ 1.1143605000000000e+03, -1.1078904199475230e-01, -7.2696221781333805e-04, -1.6730477651487654e-20],
           [ 1.0805920000000001e+03, -3.3236712598425577e-01,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_rho = \
    np.array([[ 1.1286787342372164e+00, -1.0145260276370347e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.1286787342372164e+00, -1.0145260276370347e-04,  0.0000000000000000e+00, -1.1670255058236031e-24],
           [ 1.1132173575760280e+00, -1.0145260276370348e-04,  8.8927343543758565e-23, -1.1670255058236031e-24],
           [ 1.0977559809148396e+00, -1.0145260276370347e-04,  7.8821103849280498e-13, -6.4649855723652432e-16],
           [ 1.0822946202721015e+00, -1.0145240756323996e-04,  1.0640848988706156e-11, -4.6547895856114997e-14],
           [ 1.0668333557400653e+00, -1.0145240756324111e-04, -4.9263189554537328e-13, -6.4649852572683615e-16],
           [ 1.0513719950973273e+00, -1.0145260276370168e-04,  1.6896195273314119e-21, -2.3340510116472037e-23],
           [ 1.0359106184361391e+00, -1.0145260276370276e-04, -1.2183046065494934e-20,  4.5513994727120604e-23],
           [ 1.0204492417749507e+00, -1.0145260276370331e-04,  1.0031776827109115e-12, -2.0570408485508762e-15],
           [ 1.0049878811322126e+00, -1.0145244032415679e-04,  1.2121730309880288e-11, -5.4854422625300309e-14],
           [ 9.8952661660017627e-01, -1.0145256772772279e-04, -6.6669516687045313e-12,  2.8661435809526992e-14],
           [ 9.7406519188363705e-01, -1.0145260276370342e-04, -8.8927343543758518e-23,  0.0000000000000000e+00],
           [ 9.5860381522244864e-01, -1.0145260276370340e-04, -4.4463671771879254e-22,  1.1670255058236020e-24],
           [ 9.4314243856126023e-01, -1.0145260276370340e-04,  6.6569811389947008e-07, -2.9120531723322328e-09],
           [ 9.3283488615736876e-01, -1.0145176191062597e-04, -2.7586357264021798e-12, -2.2504336341549495e-19],
           [ 9.1737357356998150e-01, -1.0145260275847576e-04, -1.0289258250121389e-16,  4.5009956411155264e-19],
           [ 9.0191219690879321e-01, -1.0145260275847569e-04,  2.7587386218303522e-12, -2.2504569746650594e-19],
           [ 8.8645088432140606e-01, -1.0145176191062433e-04,  5.5473319780224152e-07, -2.1839912304034796e-09],
           [ 8.7614326784371321e-01, -8.4543651698868949e-05, -3.3285285015047576e-07,  1.4560480818754164e-09],
           [ 8.6068189118252492e-01, -8.4543730530437609e-05,  3.3285819527971097e-07, -1.4560729724072735e-09],
           [ 8.5037438683398414e-01, -8.4543756808035626e-05, -3.3284991897273426e-07,  1.4560378994581568e-09],
           [ 8.3491302619124619e-01, -8.4543651699767427e-05,  3.3284043589097288e-07, -1.4559960390091591e-09],
           [ 8.2460539369510300e-01, -8.4543730529131064e-05, -3.3284336700601684e-07,  1.4560073525650596e-09],
           [ 8.0914408110771585e-01, -8.4543756805830617e-05,  3.3285095355116406e-07, -1.4560378996691325e-09],
           [ 7.9883652870382416e-01, -8.4543546589293880e-05, -3.3285474681516590e-07,  1.4560560016215823e-09],
           [ 7.8337515204263586e-01, -8.4543651697888966e-05,  3.3285716072808829e-07, -1.4560695781967453e-09],
           [ 7.7306764769409519e-01, -8.4543756807463886e-05, -4.4379448968232396e-07,  2.1840161213818885e-09],
           [ 7.5760627103290679e-01, -6.7636014448596305e-05,  7.2412912708886697e-12, -1.5837983860515374e-14],
           [ 7.4729865455521394e-01, -6.7634910850653050e-05,  9.6556452114782042e-12, -4.7517889803644869e-14],
           [ 7.3699115020667327e-01, -6.7635278727305422e-05, -6.6568638948961448e-07,  2.9119988680569048e-09],
           [ 7.2152978956393521e-01, -6.7636329754455188e-05,  6.2066024569110621e-12,  1.5190027324310209e-18],
           [ 7.1122215706779202e-01, -6.7634437876186302e-05,  2.8938273713823379e-16, -1.2658854034474174e-18],
           [ 7.0091466873770158e-01, -6.7634437876185895e-05, -3.4482517960902696e-12, -4.9227819994303213e-19],
           [ 6.9060710031535977e-01, -6.7635488937634018e-05, -6.6568776875394776e-07,  2.9120124435984886e-09],
           [ 6.7514572365417136e-01, -6.7636014457741700e-05,  4.8275375081438391e-12,  6.8919274759165305e-19],
           [ 6.6483810717647851e-01, -6.7634542976288168e-05,  1.8105122476369324e-12, -1.1879706247841197e-14],
           [ 6.5453060282793774e-01, -6.7634818877773637e-05, -1.7242116343643363e-13, -5.6568623174682747e-16],
           [ 6.4422305042404615e-01, -6.7634910847222282e-05, -1.7242116343643467e-13, -1.1313724751639236e-15],
           [ 6.3391548200170433e-01, -6.7635042232149661e-05, -4.6553714233660624e-12,  2.0364704369727377e-14],
           [ 6.2360786552401148e-01, -6.7635042232151084e-05,  5.1726349066501340e-13,  1.9839433599001350e-23],
           [ 6.1330029710166944e-01, -6.7634884570237733e-05,  1.0345269798182619e-12, -5.6568622952948570e-15],
           [ 6.0299274469777786e-01, -6.7634963401192369e-05, -1.1115917942969780e-20,  2.4507535622295493e-23],
           [ 5.9268517627543593e-01, -6.7634963401194077e-05, -1.4850866371807716e-20,  7.3522606866887353e-23],
           [ 5.8237760785309389e-01, -6.7634963401193507e-05,  1.7242116625543043e-12, -6.7882349070006840e-15],
           [ 5.7207005544920242e-01, -6.7634910847223055e-05, -8.0463211222147165e-13,  3.0169933001695187e-15],
           [ 5.6176248702686038e-01, -6.7634945883203912e-05,  1.1494851518157083e-12, -3.7713119084477172e-15],
           [ 5.5145493462296880e-01, -6.7634858294885424e-05, -1.0345237695233683e-11,  4.5254758071888217e-14],
           [ 5.4114730212682560e-01, -6.7634858294885424e-05,  6.6570156228627044e-07, -2.9120803249618201e-09],
           [ 5.3599355796178039e-01, -6.7634858294885424e-05, -2.0690303868652123e-12,  9.0508953378402973e-15],
           [ 5.2568598953943846e-01, -6.7634858293578703e-05,  3.4484661521615705e-13, -2.2627590013149372e-15],
           [ 5.1537843713554687e-01, -6.7634910847222865e-05, -6.8968680311963215e-13,  2.2627590118181665e-15],
           [ 5.0507086871320495e-01, -6.7634963400867230e-05,  6.8968894555718866e-13, -4.2197308239569540e-20],
           [ 4.9476331630931331e-01, -6.7634753186616818e-05,  6.6569328605110016e-07, -2.9120486464201969e-09],
           [ 4.8960950807046688e-01, -6.7635068508482076e-05, -1.7242191411660417e-12,  6.7882558959544069e-15],
           [ 4.7930190761122432e-01, -6.7635121063269529e-05,  4.2872761595881547e-18,  2.2627238341683449e-15],
           [ 4.6899432317043210e-01, -6.7634963401520638e-05,  5.5475181914648407e-07, -2.1840636377491238e-09],
           [ 4.6384056298693660e-01, -5.0726222550936171e-05, -3.3285147081118932e-07,  1.4560435565262734e-09],
           [ 4.5353297854614433e-01, -5.0726196273909948e-05,  4.4379897245307196e-07, -2.1840489299193442e-09],
           [ 4.4837920234419854e-01, -6.7634858293905752e-05, -1.0345194811089449e-12,  2.2627238353353703e-15],
           [ 4.3807163392185661e-01, -6.7635015955001330e-05, -1.3793693114932077e-12,  6.7882277683057460e-15],
           [ 4.2776404948106439e-01, -6.7634963401520584e-05,  5.5475164672504443e-07, -2.1840625063748642e-09],
           [ 4.2261028929756883e-01, -5.0726196273909955e-05, -3.3285181565403859e-07,  1.4560446879004347e-09],
           [ 4.1230270485677667e-01, -5.0726196273909948e-05,  3.3285198807547337e-07, -1.4560458192746539e-09],
           [ 4.0714894467328111e-01, -5.0726222550936083e-05, -4.4380069666417407e-07,  2.1840568495248747e-09],
           [ 3.9684136023248889e-01, -3.3817534253914185e-05,  1.0345189450993817e-12, -2.2627203185040087e-15],
           [ 3.9168758403054310e-01, -3.3817376592736919e-05,  1.3793746703438570e-12, -6.7882664476155985e-15],
           [ 3.8653382384704760e-01, -3.3817429147279390e-05, -5.5475164671219748e-07,  2.1840625063327318e-09],
           [ 3.7622623940625533e-01, -5.0726196273909955e-05,  3.3284612575322187e-07, -1.4560209290628130e-09],
           [ 3.7107243116740890e-01, -5.0726275104498666e-05, -4.4379104109934473e-07,  2.1840093319972478e-09],
           [ 3.6076489478196760e-01, -3.3817954683394193e-05,  3.1035520153916614e-12, -6.7881715124247507e-15],
           [ 3.5561108654312118e-01, -3.3817481702067047e-05,  4.1381143698402300e-12, -2.0364683326507210e-14],
           [ 3.5045732635962568e-01, -3.3817639360549338e-05, -6.6569811386086380e-07,  2.9120667484641722e-09],
           [ 3.4014974191883340e-01, -3.3817534253913365e-05,  1.0345189410087117e-12, -2.2627203097512632e-15],
           [ 3.3499596571688761e-01, -3.3817376592736716e-05,  1.3793725213701366e-12, -6.7882523557826157e-15],
           [ 3.2984220553339211e-01, -3.3817429146952293e-05, -6.6570018288695918e-07,  2.9120712738695794e-09],
           [ 3.1953462109259984e-01, -3.3817639361530521e-05,  6.8967180165480395e-13,  4.2196141214064222e-20],
           [ 3.1438082887220370e-01, -3.3817429146625244e-05,  2.5344292909970951e-21, -1.6338357081530133e-23],
           [ 3.0922705267025796e-01, -3.3817429146625623e-05, -9.9153988051291036e-21,  3.2676714163061048e-23],
           [ 3.0407327646831211e-01, -3.3817429146626369e-05, -2.6667846320584314e-12,  8.4476070909065240e-15],
           [ 2.9891946822946569e-01, -3.3817653376297624e-05, -7.7497878697156507e-08,  6.6907101391640699e-11],
           [ 2.9376570804597019e-01, -4.9731117021713881e-05, -1.2269728988324831e-05,  2.7407640358455931e-07],
           [ 2.8861193184402439e-01, -3.3817863591833032e-05,  1.8391476178335234e-12, -2.4135603467410184e-15],
           [ 2.8345812360517797e-01, -3.3817471189959180e-05,  1.9311105263954950e-12, -1.0861126208970214e-14],
           [ 2.7830434740323218e-01, -3.3817639361202699e-05, -6.6569604479617104e-07,  2.9120576974421918e-09],
           [ 2.6799677898089019e-01, -3.3817534254241221e-05,  2.0690475505984108e-12, -9.0509516649099545e-15],
           [ 2.6284300277894446e-01, -3.3817534254241214e-05, -6.8968893915442399e-13,  4.5255039072958148e-15],
           [ 2.5768921055854832e-01, -3.3817429146626958e-05,  7.6477515447632552e-21, -2.5091048375207590e-23],
           [ 2.5253543435660247e-01, -3.3817429146626375e-05,  1.1471627317144746e-20, -5.0182096750413981e-23],
           [ 2.4738165815465665e-01, -3.3817429146626375e-05, -6.6570294162557895e-07,  2.9120848503251292e-09],
           [ 2.3707405769541409e-01, -3.3817534254241221e-05,  2.0690453998016799e-12, -9.0509375684088707e-15],
           [ 2.3192028149346830e-01, -3.3817534253914544e-05, -3.4485090378176309e-13,  2.2627730750590247e-15],
           [ 2.2676648927307216e-01, -3.3817481700596889e-05,  3.1035809572402543e-12, -1.3576469630778526e-14],
           [ 2.2161272908957669e-01, -3.3817481700597018e-05, -3.1035809459464448e-12,  1.3576469581763133e-14],
           [ 2.1645892085073026e-01, -3.3817481700596882e-05,  1.1494744214422631e-12, -5.2797381583023512e-15],
           [ 2.1130514464878442e-01, -3.3817499218587189e-05, -8.0463209465832123e-13,  3.7712415385602545e-15],
           [ 2.0615135242838833e-01, -3.3817481700597011e-05,  1.0345269796848708e-12, -4.5254898469725208e-15],
           [ 2.0099757622644249e-01, -3.3817481700596808e-05, -1.0345269858208576e-12,  4.5254898755646462e-15],
           [ 1.9584378400604638e-01, -3.3817481700596903e-05,  1.0345269932907422e-12, -4.5254899082412521e-15],
           [ 1.9069000780410059e-01, -3.3817481700596808e-05, -6.8968680365319615e-13,  2.2627590129851919e-15],
           [ 1.8553621558370445e-01, -3.3817534254241221e-05,  6.8968251446509869e-13, -5.8351275291180441e-25],
           [ 1.8038243938175866e-01, -3.3817324039010819e-05,  6.2131566475873268e-07, -2.6208478547190747e-09],
           [ 1.8038243938175866e-01, -2.7053859231208983e-05, -6.4104959306855672e-08,  1.2942637325743448e-10],
           [ 1.7522866317981284e-01, -3.7574973179095831e-05, -1.4639434852127069e-07,  8.8475672678468109e-10],
           [ 1.7007487095941670e-01, -3.3817408124724241e-05,  3.3284748444196178e-06, -7.2801175433208837e-08],
           [ 1.7007487095941670e-01, -3.3817097008466057e-05, -2.0483288128848407e-12,  3.6655460422806037e-15],
           [ 1.6492111077592120e-01, -3.3817465933810270e-05, -3.7242980117904231e-12,  1.8328214036253711e-14],
           [ 1.5976730734260988e-01, -3.3817324039742940e-05,  6.6569542408070716e-07, -2.9120536245167830e-09],
           [ 1.5976730734260988e-01, -3.3817334550413649e-05, -7.5864557276372486e-13, -9.2831043860738970e-21],
           [ 1.5461352793697400e-01, -3.3817565786231036e-05, -1.4147762330078817e-17,  6.1888529599330329e-20],
           [ 1.4945973091104281e-01, -3.3817565786231029e-05,  1.3793765968213640e-12, -7.8766635977305742e-20],
           [ 1.4430596592201220e-01, -3.3817145357732569e-05,  6.6569390678596045e-07, -2.9120513617831189e-09],
           [ 1.4430596592201220e-01, -3.3817460678715002e-05, -1.5517947588710081e-12,  6.1094267923283925e-15],
           [ 1.3915217049792600e-01, -3.3817507977516277e-05,  8.6819765501772721e-19,  2.0364618831426625e-15],
           [ 1.3399838949044510e-01, -3.3817366082126816e-05,  5.5474712928974628e-07, -2.1840446306872353e-09],
           [ 1.3399838949044510e-01, -1.6908730339504509e-05, -3.3284902243119707e-07,  1.4560324690778767e-09],
           [ 1.2884460848296420e-01, -1.6908730339504309e-05,  4.4379807586044910e-07, -2.1840446306871257e-09],
           [ 1.2884460848296420e-01, -3.3817366082124492e-05, -9.3107125615470248e-13,  2.0364619158192798e-15],
           [ 1.2369082747548329e-01, -3.3817507977516230e-05, -1.2414324894666450e-12,  6.1094091673259818e-15],
           [ 1.1853703205139711e-01, -3.3817460679125820e-05,  5.5474859486762585e-07, -2.1840501744054968e-09],
           [ 1.1853703205139711e-01, -1.6908764499575355e-05, -3.3284933278946978e-07,  1.4560341661373016e-09],
           [ 1.1338324463653608e-01, -1.6908740850291926e-05,  3.3284922933645205e-07, -1.4560333741751920e-09],
           [ 1.1338324463653608e-01, -1.6908740850291926e-05, -3.3284879828381501e-07,  1.4560314508432474e-09],
           [ 1.0822946362905519e-01, -1.6908743477986612e-05,  3.3284928106273333e-07, -1.4560336004494228e-09],
           [ 1.0822946362905519e-01, -1.6908743477986612e-05, -3.3284979832662170e-07,  1.4560358631960559e-09],
           [ 1.0307567461234912e-01, -1.6908743477986635e-05,  3.3284928106273381e-07, -1.4560336004494249e-09],
           [ 1.0307567461234912e-01, -1.6908743477986635e-05, -3.3284878104172563e-07,  1.4560314508432548e-09],
           [ 9.7921893604868221e-02, -1.6908740850291926e-05,  3.3284922933645205e-07, -1.4560333741751920e-09],
           [ 9.7921893604868221e-02, -1.6908740850291922e-05, -3.3284972935827306e-07,  1.4560357500597338e-09],
           [ 9.2768106190007207e-02, -1.6908727711772892e-05,  3.3284897070418766e-07, -1.4560322428004568e-09],
           [ 9.2768106190007207e-02, -1.6908727711772892e-05, -4.4379769653261124e-07,  2.1840442912656067e-09],
           [ 8.7614333191751451e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 8.7614333191751451e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 8.7614333191751451e-02,  0.0000000000000000e+00, -5.5474828450814659e-07,  2.1840481379310150e-09],
           [ 8.2460552184270536e-02, -1.6908743477987015e-05,  3.3284928106273333e-07, -1.4560336004493883e-09],
           [ 8.2460552184270536e-02, -1.6908743477987015e-05, -4.4379955868088116e-07,  2.1840526634208741e-09],
           [ 7.7306763167564491e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 7.7306763167564491e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 7.7306763167564491e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 7.7306763167564491e-02,  0.0000000000000000e+00, -6.6569804486239361e-07,  2.9120649381557438e-09],
           [ 7.2152982160083576e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 7.2152982160083576e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 7.2152982160083576e-02,  0.0000000000000000e+00, -6.6569887248394822e-07,  2.9120685585474279e-09],
           [ 6.6999194745222548e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 6.6999194745222548e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 6.6999194745222548e-02,  0.0000000000000000e+00, -6.6569804486236015e-07,  2.9120649381555283e-09],
           [ 6.1845413737741647e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 6.1845413737741647e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 6.1845413737741647e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 6.1845413737741647e-02,  0.0000000000000000e+00, -6.6569949320017030e-07,  2.9120712738415561e-09],
           [ 5.6691621517345532e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.6691621517345532e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.6691621517345532e-02,  0.0000000000000000e+00, -6.6569845867318669e-07,  2.9120667483516897e-09],
           [ 5.1537837306174561e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.1537837306174561e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.1537837306174561e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.1537837306174561e-02,  0.0000000000000000e+00, -6.6569845867315323e-07,  2.9120667483514742e-09],
           [ 4.6384053095003604e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.6384053095003604e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.6384053095003604e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.6384053095003604e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.6384053095003604e-02,  0.0000000000000000e+00, -6.6569763105156686e-07,  2.9120631279595825e-09],
           [ 4.1230275291212759e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.1230275291212759e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.1230275291212759e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.1230275291212759e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.1230275291212759e-02,  0.0000000000000000e+00, -6.6569845867315503e-07,  2.9120667483514816e-09],
           [ 3.6076491080041788e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.6076491080041788e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.6076491080041788e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.6076491080041788e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.6076491080041788e-02,  0.0000000000000000e+00, -6.6569845867315419e-07,  2.9120667483514783e-09],
           [ 3.0922706868870824e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.0922706868870824e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.0922706868870824e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.0922706868870824e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.0922706868870824e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.0922706868870824e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.0922706868870824e-02,  0.0000000000000000e+00, -6.6569887248394822e-07,  2.9120685585474279e-09],
           [ 2.5768919454009796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768919454009796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768919454009796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768919454009796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768919454009796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768919454009796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768919454009796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768919454009796e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5768919454009796e-02,  0.0000000000000000e+00, -6.6569804486239170e-07,  2.9120649381557359e-09],
           [ 2.0615138446528895e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615138446528895e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615138446528895e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615138446528895e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615138446528895e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615138446528895e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615138446528895e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615138446528895e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615138446528895e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0615138446528895e-02,  0.0000000000000000e+00, -6.6569856212588488e-07,  2.9120672009006750e-09],
           [ 1.5461353434435412e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.5461353434435412e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.5461353434435412e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.5461353434435412e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.5461353434435412e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.5461353434435412e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.5461353434435412e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.5461353434435412e-02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_dT = \
    np.array([[-6.9262175561385477e-03, -4.2770495150806125e-18,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.9262175561385477e-03, -4.2770495150806125e-18,  5.9328843635262112e-21,  3.9852191866056537e-23],
           [-6.9262175561389206e-03,  3.0808597018712241e-19,  1.9721091589767739e-20, -9.0473800697122909e-23],
           [-6.9262175561387359e-03,  1.5106342910701606e-20,  2.4094000486123519e-23, -3.1842095204573444e-25],
           [-6.9262175561387342e-03,  2.6348842531484018e-22,  2.1438690773648424e-23, -1.5201848719778645e-25],
           [-6.9262175561387342e-03, -3.7942333245336998e-21, -3.8926083178029815e-22,  1.4923444552018274e-24],
           [-6.9262175561387385e-03, -1.8458432389623413e-20,  8.3975370451487377e-22, -2.7550974557577002e-24],
           [-6.9262175561387316e-03,  4.5530799894393100e-20,  3.8634326663341236e-10, -2.5350608046890271e-12],
           [-6.9262175561387524e-03, -5.8878713835432830e-08, -1.4922720898514188e-08,  4.8959058066029257e-11],
           [-7.1084864391950759e-03, -1.1959900462995765e-06, -3.3401656428308665e-09,  2.1917097393979035e-11],
           [-7.2907553222508635e-03, -6.8694880232687620e-07,  9.0150761459441054e-09, -2.9577021476092412e-11],
           [-7.2907553222514064e-03,  1.1838007972494765e-18, -3.2638456784915681e-21,  2.1416310226539503e-23],
           [-7.2907553222512260e-03,  1.6812108786667026e-18,  1.8329234293937507e-20, -8.7041902643949737e-23],
           [-7.2907553222508522e-03,  1.2031184692036233e-18, -1.1486311075349682e-19,  4.9042031653734556e-22],
           [-7.2907553222516007e-03,  3.6399602459901978e-19,  1.9380110087207843e-20, -8.6967961646851118e-23],
           [-7.2907553222514030e-03,  2.1136256448306717e-19, -6.9914274870798727e-21,  3.6530112881606654e-23],
           [-7.2907553222514038e-03,  6.2569437010443710e-19,  1.5922422839163054e-20, -7.8242807281964841e-23],
           [-7.2907553222512156e-03,  2.7102860509829905e-20, -6.5443911360953119e-22,  2.1471099527877867e-24],
           [-7.2907553222512191e-03, -2.2765399947173746e-20,  3.1628398376954319e-22,  1.3004830647944599e-25],
           [-7.2907553222512148e-03,  8.2699370569877255e-20,  4.3034111987784994e-08, -1.8482017177685566e-10],
           [-6.9454459218238236e-03,  2.3903047533287301e-07, -6.5321401005740720e-10, -5.7308271888841712e-13],
           [-6.9262175561387359e-03,  2.2636750266911249e-19,  2.1081928665762584e-21, -1.4758074483268338e-23],
           [-6.9262175561387047e-03, -1.5935779962998808e-19, -8.2855698846020813e-22,  5.4367256460459634e-24],
           [-6.9262175561387290e-03, -3.3085714589933837e-20,  4.5708448783445650e-22, -2.0648048257468610e-24],
           [-6.9262175561387307e-03, -3.7636346686906800e-20, -8.7674037512308211e-22,  4.1877652239262508e-24],
           [-6.9262175561387420e-03, -1.3074722942649900e-20,  2.8341687527374636e-21, -1.2397938550907570e-23],
           [-6.9262175561387220e-03, -1.3074722942649898e-20, -5.1439434066249000e-23,  1.6533550393806759e-25],
           [-6.9262175561387246e-03, -1.7233334244208754e-20, -4.8631718843645455e-23,  8.0919128105092792e-26],
           [-6.9262175561387281e-03, -2.6418057401417462e-20, -1.0667903225484017e-19,  4.7887553023069934e-22],
           [-6.9262175561395148e-03,  8.2455731635611433e-19,  2.6449164397115960e-20, -8.6775473743943042e-23],
           [-6.9262175561390820e-03,  2.8399836434076752e-18, -1.1352824120578804e-20, -2.3078892665809773e-34],
           [-6.9262175561389128e-03, -6.2035714856081614e-19, -4.7086222295277466e-08,  2.0597647548241058e-10],
           [-7.2907553222512373e-03, -8.5370249801979989e-20,  3.7344816186351672e-22, -9.7433525734142296e-37],
           [-7.2907553222512416e-03,  2.8456749933951752e-20, -1.4589632852011716e-22,  9.5732499029168332e-25],
           [-7.2907553222512373e-03,  5.0691350400570721e-20,  3.9670800060599476e-20, -1.6888255043874233e-22],
           [-7.2907553222509060e-03,  3.7507445483688061e-19, -4.7719396289809259e-20,  1.5655969911397212e-22],
           [-7.2907553222514030e-03, -3.2611435424170130e-18,  2.8456749933859801e-20,  8.8859375469536712e-35],
           [-7.2907553222512390e-03,  5.4124738374296764e-18,  1.8311308670317334e-08, -6.8658825160571408e-11],
           [-7.1084864391950612e-03,  7.9732669753396707e-07, -1.5695407431758677e-08,  6.8658825160795548e-11],
           [-7.1084864391949779e-03,  7.9732669753373573e-07,  3.6622617340782567e-08, -1.7164706290205679e-10],
           [-6.7439486730825971e-03,  6.8296199841613150e-20, -5.9751705898179426e-22,  2.4504472563229676e-24],
           [-6.7439486730825919e-03,  5.6913499868009044e-20,  3.7344816186357437e-22, -1.9603578050583191e-24],
           [-6.7439486730825815e-03,  3.4148099920791992e-20, -2.3543111147628611e-08,  1.0298823774114487e-10],
           [-6.9262175561386700e-03, -8.6508519799329009e-19,  3.2863438244010920e-21, -2.8935684089300890e-35],
           [-6.9262175561387255e-03,  1.3659239968215052e-19, -9.7195579950997569e-22,  6.3776627264891912e-24],
           [-6.9262175561387047e-03,  2.8471846353065936e-19,  4.4298894065831118e-20, -1.8776287300682790e-22],
           [-6.9262175561382970e-03,  7.0421509869482694e-19, -1.1969062093228454e-19,  5.2225860613064178e-22],
           [-6.9262175561391210e-03,  6.1207297030907048e-19,  4.0569053322766813e-20, -1.8644996557331587e-22],
           [-6.9262175561387454e-03, -1.3806034153859738e-20, -3.0345038066282981e-22,  1.6053929869107742e-24],
           [-6.9262175561387489e-03,  5.5617064791285676e-21,  3.5651191265085687e-23, -2.2834981680371606e-25],
           [-6.9262175561387480e-03,  5.1739545334550514e-22, -8.2498093938948926e-23,  2.7400455684333895e-25],
           [-6.9262175561387489e-03, -5.5361313507969102e-21,  6.6915120639368952e-22, -2.9271706316434260e-24],
           [-6.9262175561387446e-03, -5.5361313507969110e-21, -3.2267958175018713e-20,  1.0586600451132735e-22],
           [-6.9262175561391201e-03, -2.4643545442794949e-18,  4.8622950674532354e-20, -2.1269882184834533e-22],
           [-6.9262175561391193e-03, -2.4643545442793658e-18, -1.9619259289647259e-08,  7.7241178305715722e-11],
           [-7.1084864391950785e-03, -5.9799502314968034e-07,  3.9238518579369552e-09,  7.7857696936871193e-24],
           [-7.1084864391950647e-03,  5.9799502315004329e-07,  1.0463604954503164e-08, -4.2911765725482144e-11],
           [-6.9262175561389371e-03,  7.9732669753379184e-07, -1.5695407431749544e-08,  6.8658825160758169e-11],
           [-6.9262175561388001e-03,  7.9732669753376781e-07,  3.6622617340802313e-08, -1.7164706290214437e-10],
           [-6.5616797900262657e-03,  1.7074049960414274e-20, -6.7220669135456239e-22,  2.9405367075875848e-24],
           [-6.5616797900262683e-03,  1.7074049960401443e-20,  6.7220669135443393e-23, -4.4108050613807059e-25],
           [-6.5616797900262657e-03,  6.8296199841606247e-21, -1.3036735832327637e-22,  5.6137518963025143e-25],
           [-6.5616797900262657e-03,  6.2087454401460211e-21,  3.3678234233512453e-22, -1.4970005056806258e-24],
           [-6.5616797900262622e-03,  4.5530799894404174e-21, -5.5768258838290790e-22,  2.4831198864068422e-24],
           [-6.5616797900262657e-03,  7.5884666490673965e-21,  7.2199977960287531e-23, -3.1038998580085629e-25],
           [-6.5616797900262640e-03,  7.9678899815207869e-21, -3.2863438243992860e-23,  1.1762146830348247e-25],
           [-6.5616797900262631e-03,  6.1466579857446130e-21,  1.8670243176297601e-22, -2.6450624876944050e-25],
           [-6.5616797900262588e-03,  4.4623483229841713e-20,  3.4476301319863620e-21, -1.1311122480269184e-23],
           [-6.5616797900262119e-03,  3.0733289928726979e-19,  2.4274130521135860e-21, -4.8426535343607744e-36],
           [-6.5616797900261087e-03,  1.0472083975711514e-18,  4.7086222295273356e-08, -2.0597647548240003e-10],
           [-6.1971420239137773e-03,  7.9678899815217821e-20, -3.9212056995693027e-22,  8.5765653971375931e-25],
           [-6.1971420239137712e-03,  1.9919724953812201e-20, -4.6705916777082792e-22,  2.2070361621949957e-24],
           [-6.1971420239137712e-03,  3.1340367260649596e-20,  4.5078670181965233e-08, -1.9280356135293266e-10],
           [-5.8326042578010669e-03,  3.0595094207744246e-07, -7.9626276988763582e-09,  1.1146285492741677e-11],
           [-5.9314619570858436e-03, -1.3444151253023701e-06, -1.6673834151880542e-08,  9.2233792346572010e-11],
           [-6.1971420239137730e-03, -1.6237210721575136e-18,  4.0167807661736347e-20, -1.6327239311556821e-22],
           [-6.1971420239136654e-03, -7.5694954824376847e-19, -5.2091159589102569e-21,  3.4180550911454283e-23],
           [-6.1971420239137808e-03,  3.6919723892070752e-20,  4.8645440861335941e-22, -1.5959790308837871e-24],
           [-6.1971420239137695e-03,  7.3987549828404592e-20, -9.7278691919572579e-22,  3.4425795601015704e-24],
           [-6.1971420239137686e-03,  1.7351676789020780e-20,  2.1536595993022760e-07, -3.5841077054832415e-10],
           [-3.6453776611263442e-03,  3.6532059596099481e-05,  1.1728749917200385e-05, -2.6964193154090046e-07],
           [ 7.2907553222516198e-04,  5.1673293477712813e-20, -1.7938035945609749e-21,  7.6464413623354245e-24],
           [ 7.2907553222515526e-04,  3.7705193662553256e-20,  2.2881352540409899e-22, -1.5014010853287184e-24],
           [ 7.2907553222516101e-04,  2.8340123909682982e-21,  1.4315731726549677e-37, -9.1389631280882066e-26],
           [ 7.2907553222516111e-04, -3.5337685368864075e-21, -3.9051351844051737e-23,  2.2460759380185971e-25],
           [ 7.2907553222516046e-04,  2.1342562450502107e-22,  3.9212056995673259e-23, -1.7459436701298125e-25],
           [ 7.2907553222516079e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 7.2907553222516079e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 7.2907553222516079e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 7.2907553222516079e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 7.2907553222516079e-04,  0.0000000000000000e+00, -5.6017224279533238e-23,  2.4504472563225444e-25],
           [ 7.2907553222516035e-04,  1.7996758818016259e-36,  1.9619259289718413e-08, -7.7241178305983470e-11],
           [ 9.1134441528144890e-04,  5.9799502315024721e-07, -3.9238518579381910e-09, -1.9827755686294964e-23],
           [ 9.1134441528144901e-04, -5.9799502315070620e-07, -1.5695407431718826e-08,  7.7241178305673381e-11],
           [ 7.2907553222534760e-04, -4.2870093775487420e-18,  2.4108412899196078e-20, -5.2730561896659938e-23],
           [ 7.2907553222506755e-04, -6.1288725170468354e-19,  5.1426373462529106e-32,  5.2730561896700587e-23],
           [ 7.2907553222516079e-04,  3.0612348741447111e-18,  2.3543111147607399e-08, -1.0298823774109571e-10],
           [ 9.1134441528140228e-04,  9.1844160411977663e-19, -4.0145677400321516e-21,  2.4462034120486206e-37],
           [ 9.1134441528144901e-04, -3.0519864304201780e-19, -5.3250572855391957e-33,  2.7953056617003715e-35],
           [ 9.1134441528140249e-04, -3.0519864304169318e-19,  4.0414779752199282e-21, -1.2857640897859642e-23],
           [ 9.1134441528140434e-04,  3.0758398825724410e-20,  7.8477037158868110e-09, -3.4329412580432612e-11],
           [ 9.7210070963350619e-04,  1.1501976387641571e-20, -1.2556325945418090e-07,  5.4927060128688168e-10],
           [-2.1684043449710089e-19,  1.0462040416914010e-22,  3.8068746446650189e-23, -1.9963118941462786e-25],
           [ 0.0000000000000000e+00,  4.8505823751163619e-22, -9.0179243631784710e-23,  2.4365242605463516e-24],
           [ 0.0000000000000000e+00,  1.7785468708736497e-21,  4.7086222295343991e-08, -2.0597647548268644e-10],
           [ 3.6453776611279864e-04,  6.0363880797436665e-19, -5.2096018579952740e-20,  2.2789159483793906e-22],
           [ 3.6453776611248732e-04,  6.0363880797436674e-19,  3.9608845667740919e-21, -2.5990056212399733e-23],
           [ 3.6453776611257931e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.6453776611257931e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.6453776611257931e-04,  0.0000000000000000e+00, -1.1438053076149537e-22,  3.8296132862179981e-25],
           [ 3.6453776611257801e-04, -8.1794820525506753e-21,  4.6408250311270568e-22, -2.0650608238718251e-24],
           [ 3.6453776611258023e-04, -1.0614956345745512e-20, -9.6087069847018949e-21,  4.0732447998086565e-23],
           [ 3.6453776611249962e-04, -1.0122266103473913e-19,  9.2201358628004626e-22, -3.9890455959502063e-24],
           [ 3.6453776611249149e-04, -9.8138766858366491e-20, -7.9519808170176415e-22,  4.5270529532523184e-24],
           [ 3.6453776611247409e-04, -2.5082405962471744e-20,  1.1447961108060618e-21, -4.0120297550958943e-24],
           [ 3.6453776611248265e-04,  4.4304127997070807e-20, -9.1398568027787899e-22,  4.1203692979531150e-24],
           [ 3.6453776611248276e-04,  5.2817417925258670e-20,  1.1409153847204958e-20, -5.0228328106970870e-23],
           [ 3.6453776611257801e-04,  3.0554229112018042e-20, -9.5337137556997094e-23, -1.6087175818150541e-26],
           [ 3.6453776611258039e-04,  3.7455893075526412e-22,  2.9591138623971459e-23, -2.1029445137848938e-25],
           [ 3.6453776611258039e-04, -5.2588073878038219e-21, -1.3209181786904873e-22,  4.4992313343869933e-25],
           [ 3.6453776611257812e-04, -1.4170973327204576e-20,  5.8209701478841977e-22, -2.6120973493967083e-24],
           [ 3.6453776611258023e-04, -1.8751641620868260e-20, -9.2170181790412548e-21,  3.8420749911453083e-23],
           [ 3.6453776611249930e-04, -1.5104543320232630e-19,  6.4117878049812109e-22, -1.0885320712118963e-24],
           [ 3.6453776611248732e-04, -3.1460094821310766e-20,  1.8094749929089025e-22,  1.2546009902713819e-24],
           [ 3.6453776611249116e-04,  1.1110988744997116e-19,  9.4842451536709723e-21, -4.2496699389608649e-23],
           [ 3.6453776611257795e-04,  4.0853387843336044e-20, -1.7274728589480360e-22,  1.7785951563417819e-26],
           [ 3.6453776611258023e-04, -1.0560708170249874e-20, -1.2318082733731933e-22,  7.5756646536781428e-25],
           [ 3.6453776611257844e-04,  4.6789463833793327e-21,  1.8787315219905437e-22, -8.3692198600557453e-25],
           [ 3.6453776611258056e-04,  3.6282356165854596e-21, -5.9605882175972899e-23,  1.8895281379415445e-25],
           [ 3.6453776611258039e-04, -1.3739191571278410e-21, -7.2252163836967230e-23, -1.8100098529388822e-26],
           [ 3.6453776611257844e-04, -2.4657544327894919e-20, -1.0353094800224860e-20,  4.4475551449250080e-23],
           [ 3.6453776611249165e-04, -8.1345387952599751e-20,  3.9613812674936601e-22, -3.8343847498237425e-25],
           [ 3.6453776611248710e-04,  1.2680563096487763e-20,  2.1170467469402908e-22, -6.9456914269671218e-25],
           [ 3.6453776611249149e-04,  2.8812459308189478e-20,  3.3834796944701113e-21, -1.3395015503760183e-23],
           [ 3.6453776611252705e-04,  1.2676882432283199e-19, -1.4511506266251204e-08,  4.9447307282867785e-11],
           [ 2.0252098117365841e-04, -9.7775323515885686e-07,  1.7178993787683366e-08, -9.3910837401293407e-12],
           [ 3.2165097009928013e-04,  2.7923917004206655e-06,  2.3095722020041488e-06, -5.1517479275379491e-08],
           [ 1.0936132983374364e-03,  3.0944157643119177e-18, -1.1013363937561905e-20,  2.6844787358501708e-24],
           [ 1.0936132983376617e-03, -7.5410387325100397e-20, -4.8070324793670161e-22,  3.1542207869859329e-24],
           [ 1.0936132983376502e-03, -2.1512123395719797e-21,  7.3778264060549339e-22, -2.4205467211449926e-24],
           [ 1.0936132983376584e-03,  5.4067824874679768e-20,  6.2971557732867848e-21,  1.0016950247732374e-23],
           [ 1.0936132983378484e-03,  2.6713947517297622e-18,  3.6690249136391088e-08, -1.5221591801569518e-10],
           [ 1.4069878692064219e-03,  5.7719679673794260e-07, -1.8695013110200180e-09,  1.8699800259096217e-12],
           [ 1.4581510644503216e-03,  1.3766791899875013e-07, -8.6620953601215453e-11, -5.3590016287969975e-12],
           [ 1.4581510644503034e-03, -2.6213480466903378e-07, -2.0103021847543329e-08,  9.1701855523063404e-11],
           [ 1.2758821813939865e-03, -1.4086091217331296e-19,  5.9751705898172524e-22, -2.6586914202987337e-37],
           [ 1.2758821813939789e-03,  4.1262287404295784e-20,  3.9469016740084273e-22, -2.5898304947558258e-24],
           [ 1.2758821813939852e-03, -1.8888494107569825e-20, -8.3511916930494425e-22,  3.6588100088667763e-24],
           [ 1.2758821813939759e-03, -1.8496887457101539e-20,  1.4258929816608471e-22, -1.6707594929473007e-26],
           [ 1.2758821813939763e-03,  2.3800190853893023e-20,  6.0931709798848012e-22, -2.6949512830896542e-24],
           [ 1.2758821813939846e-03,  2.1743167182582795e-20, -7.8949841986206346e-22,  2.5902179129334131e-24],
           [ 1.2758821813939787e-03, -3.8416612410895959e-20,  6.2552567112138800e-22,  1.7620956781707007e-37],
           [ 1.2758821813939874e-03,  1.5224361214691264e-19,  2.3543111147657040e-08, -1.0298823774127499e-10],
           [ 1.4581510644503040e-03,  5.6486648618976165e-19, -4.4673736362900177e-21,  9.7711584345763567e-24],
           [ 1.4581510644503209e-03, -1.1596125598109735e-19,  2.4309670699086101e-09, -1.5951227492848266e-11],
           [ 1.4581510644502687e-03, -3.7042584715987396e-07, -1.0834175841751638e-08,  3.5545196331216709e-11],
           [ 1.2758821813939787e-03, -1.1959900463005978e-06, -2.0904611181919232e-09,  1.3716936471097587e-11],
           [ 1.0936132983378473e-03, -8.7745270107028967e-07,  1.1515127310615361e-08, -3.7779289076791701e-11],
           [ 1.0936132983377415e-03,  6.9861321088122825e-19, -6.1609132883089562e-09,  4.0425940212061578e-11],
           [ 1.0936132983380602e-03,  9.3892318514314905e-07,  3.3735808550612838e-09, -1.1068178658329221e-11],
           [ 1.2758821813940314e-03,  1.1959900462993937e-06,  1.6369102187335361e-09, -1.0740880700334778e-11],
           [ 1.4581510644501188e-03,  9.4652492896554394e-07, -1.2421586994270273e-08,  4.0753238170116339e-11],
           [ 1.4581510644502279e-03, -2.1783642074420705e-18, -8.9245906457901537e-21,  5.8560306074487450e-23],
           [ 1.4581510644498959e-03, -8.1825659304109395e-19,  6.1841344427871463e-21,  4.3927805133469882e-24],
           [ 1.4581510644499304e-03,  1.3727445829274152e-18,  2.7953253987534765e-20, -1.3709420741481789e-22],
           [ 1.4581510644503036e-03,  3.4054492190756862e-19, -1.1035081228663072e-21,  8.4874630891624282e-25],
           [ 1.4581510644503329e-03,  6.3333980273239630e-20,  2.3095729409771695e-22, -2.7108234338178409e-24],
           [ 1.4581510644503383e-03, -5.5153039914459027e-20, -8.2123508527910153e-21,  3.6841671636401404e-23],
           [ 1.4581510644502695e-03,  8.7498904324634256e-21,  4.4689582842189144e-21, -1.9715032833599576e-23],
           [ 1.4581510644503049e-03, -2.8014874935027049e-21, -3.4959829027063920e-23,  1.6623150101985264e-25],
           [ 1.4581510644503042e-03, -1.8746845395711094e-21,  3.3773745151174795e-23, -1.4089675521782349e-25],
           [ 1.4581510644503042e-03, -1.3977496818968691e-21, -3.3096355513693627e-21,  1.3812996136168169e-23],
           [ 1.4581510644502760e-03, -4.7722666320583988e-20,  8.3180899976605361e-21, -3.6352961117054734e-23],
           [ 1.4581510644503333e-03, -4.5344285615812037e-20, -3.2604131555490723e-21,  1.4953332570110600e-23],
           [ 1.4581510644503036e-03,  2.7893249935309127e-21,  3.3934893476269703e-23, -1.5898253788956843e-25],
           [ 1.4581510644503042e-03,  2.0552097174557347e-21, -1.3231182254704090e-23, -1.6695919461327172e-27],
           [ 1.4581510644503042e-03, -2.0939872592945469e-21, -3.4094284911051948e-21,  1.4497782407667515e-23],
           [ 1.4581510644502760e-03, -3.1121747150048105e-20,  2.2574983725713095e-21, -5.3865387081156464e-24],
           [ 1.4581510644503047e-03,  2.8164439101347425e-19,  4.6472598556748325e-21, -2.3200416544576974e-23],
           [ 1.4581510644503734e-03,  8.1587275330066846e-20, -5.3967226583405187e-21,  2.2342029208766772e-23],
           [ 1.4581510644503396e-03, -6.6019659846885365e-21,  1.0650200991743445e-23, -3.0676052506082055e-26],
           [ 1.4581510644503387e-03, -5.4932086221661254e-21,  3.4744535810620556e-23, -1.1399125922134572e-25],
           [ 1.4581510644503383e-03, -2.8456749934071909e-21, -1.8961830418718921e-20,  6.3926343539543149e-34],
           [ 1.4581510644498974e-03, -5.7824115865744475e-18, -1.9619259289596827e-08,  7.7241178305537956e-11],
           [ 1.2758821813939757e-03, -5.9799502315007018e-07,  3.9238518579472081e-09, -3.1191932173905544e-23],
           [ 1.2758821813940314e-03,  5.9799502315007707e-07,  1.5695407431729017e-08, -7.7241178305717390e-11],
           [ 1.4581510644501180e-03,  3.6282356165774309e-18, -1.9045856254995226e-20,  3.7903714564321280e-35],
           [ 1.4581510644502286e-03, -2.1769413699423901e-18, -1.5859098607254108e-20,  1.0406232681887286e-22],
           [ 1.4581510644498968e-03,  2.3998525777676284e-19,  2.2968509937031842e-20, -9.8680844051590587e-23],
           [ 1.4581510644501175e-03,  3.6497428496515230e-19, -9.6078419703611707e-21,  4.7206858088798080e-23],
           [ 1.4581510644501171e-03,  7.2574952137255104e-19,  1.2107313626200850e-20, -5.7823526909489544e-23],
           [ 1.4581510644503042e-03,  3.8707263957849058e-19, -8.2725545052487351e-22, -1.4356864725407244e-24],
           [ 1.4581510644503389e-03,  3.4890449919083244e-20,  2.0317182606183601e-22, -3.0804238999157174e-24],
           [ 1.4581510644503381e-03, -1.1781833609039207e-19, -2.5593787401489840e-21,  1.2554868240723924e-23],
           [ 1.4581510644503051e-03, -2.3127906315788017e-20,  1.3976635186594399e-22, -4.1140465079217446e-25],
           [ 1.4581510644503034e-03, -9.1926793135969951e-21,  1.6716026313782044e-22, -6.3979423243444665e-25],
           [ 1.4581510644503036e-03, -2.8213529849097143e-21, -1.2977642811238224e-20,  4.2577568278394572e-23],
           [ 1.4581510644501524e-03, -9.9171773519753230e-19,  1.9578019885744601e-20, -4.2197423468586516e-34],
           [ 1.4581510644504560e-03,  4.9756627259480768e-18,  2.3543111147569557e-08, -1.0298823774096961e-10],
           [ 1.6404199475065569e-03,  1.7358617459759678e-19, -7.8424113991590476e-22,  8.3077628591397015e-36],
           [ 1.6404199475065651e-03, -6.5450524848194444e-20, -5.6322772775616956e-22,  3.6957199983995440e-24],
           [ 1.6404199475065552e-03,  2.0385380861812919e-20,  3.4866478384899634e-22, -1.1439133328379681e-24],
           [ 1.6404199475065623e-03,  4.6953637391103464e-20, -2.4274130521129320e-22, -5.0012421453960148e-38],
           [ 1.6404199475065638e-03, -2.7033912437302897e-20, -2.3543111147651577e-08,  5.1494118870629192e-11],
           [ 1.2758821813941149e-03, -3.5879701389021126e-06,  0.0000000000000000e+00,  0.0000000000000000e+00]])
