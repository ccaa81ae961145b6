DATA_ORIGIN_NOTE = """
This information applies to MIL_SPEC_201A_tropical, MIL_SPEC_201A_polar, MIL_SPEC_201A_cold, 
and MIL_SPEC_201A_hot

Source:
Data for the models was obtained from ASC-TR-93-5002 / AD-A264 639, 
Graphical Comparison of U.S. Standard Atmospheres and Military Standard Climatic Extremes
by Joseph C. Zuppardo, February 1993
Approved for public release with unlimited distribution
https://apps.dtic.mil/sti/tr/pdf/ADA264639.pdf

Notes:
1) The data table contains data from 0 feet to 100,000 ft =~ 30,000 meters altitude
2) The composition of the atmosphere is constant throughout the altitude range.
3) Polar data represents an Arctic Winter atmosphere rather than a true polar atmosphere
4) Altitude was given in the raw data as Geopotential Altitude
5) Some data points in the original tables appeared to be in error. 
i.e. for hot atmosphere at 20,000 ft pressure increased so much as to be the same as pressure
at 11,500 ft. Presumed errors like these were smoothed out to prevent kinks in the akima 
splines.
6) Using the ideal gas equations to recalculate Density will yield
different results than the table. 
7) Hot/Cold vs. Tropical/Polar have different sea level pressures (29.9 vs. 29.92 respectively), 
despite the description by the paper that Hot/Cold are at 29.9. This can be verified by
looking directly at the tabular data presented in the paper.
8) The inHG measurement shown in the tables is assumed to be taken at 60 degF = 15C, 
(as opposed to 32F = 0C). Supporting documentation for this is based on NIST and the US1976 
atmosphere standard which lists sea-level pressure of 101,325 Pa, based on the NIST conversion 
factors to translate Pa to inHG at 60F, these match up. inHg has a dependence on temperature 
which makes it a very temperamental unit and should be avoided in the future.
https://physics.nist.gov/cgi-bin/cuu/Value?stdatm
https://www.ngdc.noaa.gov/stp/space-weather/online-publications/miscellaneous/us-standard-atmosphere-1976/us-standard-atmosphere_st76-1562_noaa.pdf
9) "The cold and hot atmosphere tables cannot be used for determining
engine and aircraft performance, aerodynamic characteristics, skin, compartment
and equipment temperatures under transient climb conditions" - Mil_Std_210A
10) "The polar and tropical atmospheres provide criteria for consideration in problems
dependent upon a hydrodynamically consistent homogeneous polar or tropical atmosphere.
These problems include determination of engine and aircraft performance,
aerodynamic characteristics, skin, compartment and equipment temperatures
under transient climb conditions," - Mil_Std_210A
"""

from collections import namedtuple
import numpy as np

atm_data = namedtuple('MIL_SPEC_210A_Tropical', ['alt', 'temp', 'pres', 'rho'])
atm_data.__doc__ = """
    A namedtuple to hold data for the 1976 standard atmosphere model.

    Parameters
    ----------
    alt : float
        Geopotential Altitude in meters.
    temp : float
        Temperature in degK.
    pres : float
        Pressure in pascal.
    rho : float
        Density in kg/m^3.
    """

# turn off ruff formatting
# fmt: off

# _raw_data Units: (Geopotential Altitude in ft, Temp in degF, pressure in inHG60, density in lbm/ft^3)
_raw_data = np.array([
    0,89.8,29.92,0.072262913,
    500,87.8,29.38,0.071201175,
    1000,85.9,28.85,0.070171602,
    1500,84,28.33,0.069142029,
    2000,82,27.82,0.068144634,
    2500,80.1,27.31,0.06714724,
    3000,78.1,26.82,0.066149846,
    3500,76.2,26.32,0.065184623,
    4000,74.3,25.84,0.0642194,
    4500,72.3,25.36,0.063254185,
    5000,70.4,24.89,0.062321134,
    5500,68.4,24.43,0.061388087,
    6000,66.5,23.98,0.060455039,
    6500,64.6,23.53,0.059554167,
    7000,62.6,23.09,0.058653291,
    7500,60.7,22.65,0.057752419,
    8000,58.7,22.22,0.056883715,
    8500,56.8,21.8,0.056015018,
    9000,54.9,21.39,0.055146318,
    9500,52.9,20.98,0.054309793,
    10000,51,20.58,0.053473268,
    10500,49.1,20.18,0.052636743,
    11000,47.1,19.79,0.051800217,
    11500,45.2,19.41,0.050995871,
    12000,43.2,19.03,0.050191518,
    12500,41.3,18.66,0.04941934,
    13000,39.4,18.29,0.048647162,
    13500,37.4,17.93,0.047874983,
    14000,35.5,17.58,0.047102809,
    14500,33.6,17.23,0.046330627,
    15000,31.6,16.89,0.045590628,
    15500,29.7,16.55,0.044882804,
    16000,27.8,16.22,0.044142794,
    16500,25.8,15.89,0.043434966,
    17000,23.9,15.57,0.042727135,
    17500,21.9,15.25,0.042019311,
    18000,20,14.94,0.041343655,
    18500,18.1,14.64,0.040635828,
    19000,16.1,14.34,0.039960168,
    19500,14.2,14.04,0.039316688,
    20000,12.3,13.75,0.038641032,
    20500,10.3,13.46,0.037997555,
    21000,8.4,13.18,0.037354071,
    21500,6.5,12.91,0.036742765,
    22000,4.5,12.64,0.036131456,
    22500,2.6,12.37,0.035487977,
    23000,0.7,12.11,0.034908842,
    23500,-1.3,11.85,0.034297537,
    24000,-3.2,11.6,0.033718403,
    24500,-5.1,11.35,0.033139274,
    25000,-7,11.1,0.03256014,
    25500,-9,10.66,0.031981006,
    26000,-10.9,10.63,0.031421173,
    26500,-12.8,10.4,0.030867703,
    27000,-14.8,10.17,0.030324042,
    27500,-16.7,9.94,0.029786734,
    28000,-18.6,9.72,0.029255861,
    28500,-20.6,9.51,0.028731424,
    29000,-22.5,9.3,0.028216641,
    29500,-24.4,9.09,0.027708292,
    30000,-26.3,8.89,0.027206376,
    30500,-28.3,8.68,0.026710896,
    31000,-30.2,8.49,0.026225068,
    31500,-32.1,8.29,0.025742456,
    32000,-34.1,8.11,0.025269497,
    32500,-36,7.92,0.024799757,
    33000,-37.9,7.74,0.024339668,
    33500,-39.8,7.56,0.023886014,
    34000,-41,7.38,0.023438795,
    34500,-43.7,7.21,0.022998011,
    35000,-45.6,7.04,0.022560444,
    35500,-47.6,6.87,0.022132531,
    36000,-49.5,6.71,0.021711046,
    36500,-51.4,6.55,0.021296002,
    37000,-53.3,6.4,0.020887394,
    37500,-55.2,6.24,0.020488434,
    38000,-57.1,6.1,0.020095911,
    38500,-59,5.95,0.019709824,
    39000,-60.9,5.81,0.019333387,
    39500,-62.8,5.67,0.018963385,
    40000,-64.6,5.54,0.018599818,
    40500,-66.5,5.41,0.018242685,
    41000,-68.3,5.28,0.017895207,
    41500,-70.1,5.15,0.017550943,
    42000,-72,5.03,0.017216332,
    42500,-73.8,4.91,0.016884942,
    43000,-75.6,4.79,0.016563199,
    43500,-77.4,4.68,0.016244678,
    44000,-79.2,4.57,0.01593259,
    44500,-81,4.46,0.015630152,
    45000,-82.8,4.35,0.015330935,
    45500,-84.5,4.25,0.015034933,
    46000,-86.3,4.15,0.014748584,
    46530,-88,4.05,0.014465452,
    47000,-89.8,3.96,0.014188755,
    47500,-91.5,3.86,0.013918494,
    48000,-93.2,3.77,0.013651448,
    48500,-94.9,3.68,0.01339084,
    49000,-96.7,3.59,0.013133448,
    49500,-98.4,3.51,0.01288249,
    50000,-100.1,3.42,0.012634749,
    50500,-101.7,3.34,0.012393444,
    51000,-103.4,3.26,0.012155357,
    51500,-105.1,3.19,0.011923703,
    52000,-106.8,3.11,0.011695267,
    52500,-108.4,3.04,0.011470049,
    53000,-110.1,2.96,0.011251265,
    53500,-111.7,2.89,0.011035698,
    53595,-112,2.88,0.01099709,
    54000,-111.1,2.83,0.010755785,
    54500,-110.1,2.76,0.010469436,
    55000,-109,2.69,0.010189521,
    55500,-107.9,2.63,0.009916042,
    56000,-106.8,2.57,0.009652215,
    56500,-105.7,2.51,0.009394823,
    57000,-104.6,2.45,0.009140648,
    57500,-103.5,2.39,0.008896125,
    58000,-102.5,2.33,0.008658037,
    58500,-101.4,2.28,0.008426383,
    59000,-100.2,2.22,0.008201165,
    59500,-99.1,2.17,0.007982382,
    60000,-98,2.12,0.007770034,
    60500,-96.9,2.07,0.007560902,
    61000,-95.8,2.02,0.007358206,
    61500,-94.7,1.97,0.007161944,
    62000,-93.6,1.92,0.006972117,
    62500,-92.4,1.88,0.006785507,
    63000,-91.3,1.83,0.006602115,
    63500,-90.2,1.79,0.006428375,
    64000,-89,1.75,0.006254635,
    64500,-87.9,1.71,0.006007331,
    65000,-86.7,1.67,0.00592646,
    65500,-85.6,1.63,0.00576559,
    66000,-84.4,1.59,0.005611154,
    66500,-83.3,1.55,0.005463154,
    67000,-82.1,1.51,0.005315153,
    67500,-81,1.48,0.005173587,
    68000,-79.8,1.44,0.005035239,
    68500,-78.6,1.41,0.004900108,
    69000,-77.5,1.37,0.004771411,
    69500,-76.3,1.34,0.004642716,
    69620,-76,1.33,0.004613759,
    70000,-75.5,1.31,0.004523671,
    70500,-74.8,1.28,0.004407845,
    71000,-74.1,1.25,0.004295236,
    71500,-73.4,1.22,0.004185844,
    72000,-72.803,1.19,0.004079669,
    72500,-72.1,1.16,0.003976713,
    73000,-71.4,1.13,0.003873756,
    73500,-70.7,1.11,0.003774016,
    74000,-70,1.08,0.003680711,
    74500,-69.3,1.05,0.003504189,
    75000,-68.6,1.03,0.003494102,
    75500,-67.9,1.01,0.003404015,
    76000,-67.2,0.981,0.003171445,
    76500,-66.6,0.958,0.003233492,
    77000,-65.9,0.935,0.00315177,
    77500,-65.2,0.913,0.003071657,
    78000,-64.5,0.891,0.002993152,
    78500,-63.8,0.87,0.002916899,
    79000,-63.1,0.85,0.002842577,
    79500,-62.4,0.83,0.002770186,
    80000,-61.7,0.81,0.002699725,
    80500,-61,0.791,0.002630872,
    81000,-60.2,0.772,0.00256395,
    81500,-59.5,0.753,0.002498637,
    82000,-58.8,0.736,0.002434932,
    82500,-58.1,0.718,0.002372336,
    83000,-57.4,0.701,0.002312671,
    83500,-56.7,0.685,0.002254114,
    84000,-56,0.668,0.002197166,
    84500,-55.3,0.653,0.002141505,
    85000,-54.6,0.637,0.002087774,
    85500,-53.9,0.622,0.00203533,
    86000,-53.2,0.608,0.001984174,
    86510,-52.5,0.594,0.001934626,
    87000,-51.8,0.58,0.001886365,
    87500,-51,0.566,0.00183939,
    88000,-50.3,0.553,0.001793182,
    88500,-49.6,0.54,0.001748981,
    89000,-48.9,0.528,0.001705546,
    89500,-48.2,0.516,0.001663398,
    90000,-47.5,0.504,0.001622537,
    90500,-46.8,0.492,0.001582642,
    91000,-46.1,0.481,0.001543711,
    91500,-45.4,0.47,0.001505746,
    92000,-44.7,0.459,0.001468745,
    92500,-44,0.449,0.001433032,
    93000,-43.3,0.439,0.001397962,
    93500,-42.6,0.429,0.001363858,
    94000,-41.9,0.419,0.00133104,
    94500,-41.2,0.41,0.001298866,
    95000,-40.5,0.4,0.001267336,
    95500,-39.8,0.391,0.00123677,
    96000,-39.1,0.383,0.001206849,
    96500,-38.4,0.374,0.001177892,
    97000,-37.7,0.366,0.001149579,
    97500,-37,0.357,0.001121909,
    98000,-36.3,0.349,0.001095205,
    98500,-35.6,0.342,0.001069144,
    99000,-34.9,0.334,0.001043726,
    99500,-34.2,0.327,0.001018952,
    100000,-33.5,0.32,0.000994822,
    ])

atm_data.alt = \
    np.array([    0.              ,   152.4             ,   304.8             ,   457.20000000000005,
             609.6             ,   762.              ,   914.4000000000001 ,  1066.8             ,
            1219.2             ,  1371.6000000000001 ,  1524.              ,  1676.4             ,
            1828.8000000000002 ,  1981.2             ,  2133.6             ,  2286.              ,
            2438.4             ,  2590.8             ,  2743.2000000000003 ,  2895.6000000000004 ,
            3048.              ,  3200.4             ,  3352.8             ,  3505.2000000000003 ,
            3657.6000000000004 ,  3810.              ,  3962.4             ,  4114.8             ,
            4267.2             ,  4419.6             ,  4572.              ,  4724.400000000001  ,
            4876.8             ,  5029.2             ,  5181.6             ,  5334.              ,
            5486.400000000001  ,  5638.8             ,  5791.200000000001  ,  5943.6             ,
            6096.              ,  6248.400000000001  ,  6400.8             ,  6553.200000000001  ,
            6705.6             ,  6858.              ,  7010.400000000001  ,  7162.8             ,
            7315.200000000001  ,  7467.6             ,  7620.              ,  7772.400000000001  ,
            7924.8             ,  8077.200000000001  ,  8229.6             ,  8382.              ,
            8534.4             ,  8686.800000000001  ,  8839.2             ,  8991.6             ,
            9144.              ,  9296.4             ,  9448.800000000001  ,  9601.2             ,
            9753.6             ,  9906.              , 10058.4             , 10210.800000000001  ,
           10363.2             , 10515.6             , 10668.              , 10820.4             ,
           10972.800000000001  , 11125.2             , 11277.6             , 11430.              ,
           11582.400000000001  , 11734.800000000001  , 11887.2             , 12039.6             ,
           12192.              , 12344.400000000001  , 12496.800000000001  , 12649.2             ,
           12801.6             , 12954.              , 13106.400000000001  , 13258.800000000001  ,
           13411.2             , 13563.6             , 13716.              , 13868.400000000001  ,
           14020.800000000001  , 14182.344000000001  , 14325.6             , 14478.              ,
           14630.400000000001  , 14782.800000000001  , 14935.2             , 15087.6             ,
           15240.              , 15392.400000000001  , 15544.800000000001  , 15697.2             ,
           15849.6             , 16002.              , 16154.400000000001  , 16306.800000000001  ,
           16335.756000000001  , 16459.2             , 16611.600000000002  , 16764.              ,
           16916.4             , 17068.8             , 17221.2             , 17373.600000000002  ,
           17526.              , 17678.4             , 17830.8             , 17983.2             ,
           18135.600000000002  , 18288.              , 18440.4             , 18592.8             ,
           18745.2             , 18897.600000000002  , 19050.              , 19202.4             ,
           19354.8             , 19507.2             , 19659.600000000002  , 19812.              ,
           19964.4             , 20116.8             , 20269.2             , 20421.600000000002  ,
           20574.              , 20726.4             , 20878.8             , 21031.2             ,
           21183.600000000002  , 21220.176           , 21336.              , 21488.4             ,
           21640.8             , 21793.2             , 21945.600000000002  , 22098.              ,
           22250.4             , 22402.800000000003  , 22555.2             , 22707.600000000002  ,
           22860.              , 23012.4             , 23164.800000000003  , 23317.2             ,
           23469.600000000002  , 23622.              , 23774.4             , 23926.800000000003  ,
           24079.2             , 24231.600000000002  , 24384.              , 24536.4             ,
           24688.800000000003  , 24841.2             , 24993.600000000002  , 25146.              ,
           25298.4             , 25450.800000000003  , 25603.2             , 25755.600000000002  ,
           25908.              , 26060.4             , 26212.800000000003  , 26368.248           ,
           26517.600000000002  , 26670.              , 26822.4             , 26974.800000000003  ,
           27127.2             , 27279.600000000002  , 27432.              , 27584.4             ,
           27736.800000000003  , 27889.2             , 28041.600000000002  , 28194.              ,
           28346.4             , 28498.800000000003  , 28651.2             , 28803.600000000002  ,
           28956.              , 29108.4             , 29260.800000000003  , 29413.2             ,
           29565.600000000002  , 29718.              , 29870.4             , 30022.800000000003  ,
           30175.2             , 30327.600000000002  , 30480.              ])

atm_data.akima_T = \
    np.array([[ 3.0526111111111106e+02, -7.4730242053074629e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.0526111111111106e+02, -7.4730242053074629e-03,  5.6913499868005481e-21,  7.8477037158845181e-09],
           [ 3.0414999999999998e+02, -6.9262175561387350e-03,  2.2765399947202193e-20, -7.4689632372710600e-23],
           [ 3.0309444444444443e+02, -6.9262175561387324e-03,  1.7074049960401638e-20, -7.4689632372710565e-23],
           [ 3.0203888888888889e+02, -6.9262175561387316e-03, -5.9799502315101967e-06,  2.3543111147677915e-08],
           [ 3.0092777777777775e+02, -7.1084864391951609e-03,  3.5879701389060623e-06, -1.5695407431785100e-08],
           [ 2.9987222222222221e+02, -7.1084864391951635e-03, -4.7839601852079298e-06,  2.3543111147676760e-08],
           [ 2.9876111111111106e+02, -6.9262175561387498e-03,  9.1061599788808854e-20, -2.2406889711813220e-22],
           [ 2.9770555555555552e+02, -6.9262175561387342e-03,  1.4797509965681417e-19, -6.7220669135439472e-22],
           [ 2.9664999999999998e+02, -6.9262175561387385e-03, -5.9799502315032950e-06,  2.3543111147649126e-08],
           [ 2.9553888888888889e+02, -7.1084864391950673e-03,  3.5879701388967539e-06, -1.5695407431744343e-08],
           [ 2.9448333333333329e+02, -7.1084864391950681e-03, -4.7839601851994671e-06,  2.3543111147633068e-08],
           [ 2.9337222222222221e+02, -6.9262175561391123e-03,  6.3003244353882034e-18, -2.4796957947739897e-20],
           [ 2.9231666666666666e+02, -6.9262175561389206e-03,  0.0000000000000000e+00, -8.2158595609981818e-21],
           [ 2.9126111111111106e+02, -6.9262175561394957e-03, -5.9799502314929451e-06,  2.3543111147613418e-08],
           [ 2.9014999999999998e+02, -7.1084864391951635e-03,  3.5879701389055702e-06, -1.5695407431781421e-08],
           [ 2.8909444444444443e+02, -7.1084864391950681e-03, -4.7839601852093189e-06,  2.3543111147681690e-08],
           [ 2.8798333333333329e+02, -6.9262175561387290e-03,  1.1382699973601090e-20,  0.0000000000000000e+00],
           [ 2.8692777777777775e+02, -6.9262175561387290e-03,  1.1382699973601090e-20,  0.0000000000000000e+00],
           [ 2.8587222222222221e+02, -6.9262175561387290e-03, -7.1759402778119205e-06,  3.1390814863568592e-08],
           [ 2.8476111111111106e+02, -6.9262175561387697e-03,  2.0488859952482021e-19, -4.4813779423626581e-22],
           [ 2.8370555555555552e+02, -6.9262175561387394e-03,  2.7887614935322672e-19, -1.3444133827087894e-21],
           [ 2.8264999999999998e+02, -6.9262175561387489e-03, -5.9799502315031807e-06,  2.3543111147648828e-08],
           [ 2.8153888888888889e+02, -7.1084864391950655e-03,  3.5879701388969538e-06, -1.5695407431745270e-08],
           [ 2.8048333333333329e+02, -7.1084864391950707e-03, -4.7839601851995069e-06,  2.3543111147633439e-08],
           [ 2.7937222222222221e+02, -6.9262175561391019e-03,  5.7881029365761711e-18, -2.2705648241304133e-20],
           [ 2.7831666666666666e+02, -6.9262175561389258e-03, -5.6913499868005451e-21, -7.5436528696437627e-21],
           [ 2.7726111111111106e+02, -6.9262175561394541e-03, -7.1759402777949316e-06,  3.1390814863504356e-08],
           [ 2.7614999999999998e+02, -6.9262175561387914e-03,  4.2115989902324158e-19, -8.9627558847253162e-22],
           [ 2.7509444444444443e+02, -6.9262175561387290e-03,  5.6344364869325221e-19, -2.6888267654175627e-21],
           [ 2.7403888888888889e+02, -6.9262175561387498e-03, -7.1759402778122085e-06,  3.1390814863570571e-08],
           [ 2.7292777777777775e+02, -6.9262175561387506e-03,  7.0572739836326544e-19, -2.6888267654175627e-21],
           [ 2.7187222222222221e+02, -6.9262175561387290e-03,  1.1382699973601123e-20, -8.9627558847253162e-22],
           [ 2.7081666666666666e+02, -6.9262175561387914e-03, -5.9799502315103068e-06,  2.3543111147680631e-08],
           [ 2.6970555555555552e+02, -7.1084864391950768e-03,  3.5879701389054343e-06, -1.5695407431783416e-08],
           [ 2.6864999999999998e+02, -7.1084864391951592e-03, -4.7839601851967261e-06,  2.3543111147618189e-08],
           [ 2.6753888888888889e+02, -6.9262175561394124e-03,  3.2668348924235030e-18, -7.1702047077801672e-21],
           [ 2.6648333333333329e+02, -6.9262175561389163e-03,  4.3709567898628317e-18, -2.1435924490968045e-20],
           [ 2.6542777777777775e+02, -6.9262175561390811e-03, -7.1759402777947224e-06,  3.1390814863487886e-08],
           [ 2.6431666666666666e+02, -6.9262175561394966e-03,  3.6879947914467641e-18, -8.0664802962527836e-21],
           [ 2.6326111111111106e+02, -6.9262175561389371e-03,  4.9230177385824857e-18, -2.4199440888758352e-20],
           [ 2.6220555555555552e+02, -6.9262175561391236e-03, -7.1759402777968849e-06,  3.1390814863503940e-08],
           [ 2.6109444444444443e+02, -6.9262175561390820e-03,  5.4636959873285389e-18, -2.1510614123340754e-20],
           [ 2.6003888888888889e+02, -6.9262175561389163e-03,  1.1382699973601056e-20, -7.1702047077801672e-21],
           [ 2.5898333333333329e+02, -6.9262175561394124e-03, -7.1759402777952315e-06,  3.1390814863503642e-08],
           [ 2.5787222222222221e+02, -6.9262175561388946e-03,  2.3903669944562360e-18, -9.4108936789615811e-21],
           [ 2.5681666666666666e+02, -6.9262175561388226e-03,  0.0000000000000000e+00, -3.1369645596538231e-21],
           [ 2.5576111111111109e+02, -6.9262175561390395e-03, -7.1759402778035180e-06,  3.1390814863534042e-08],
           [ 2.5464999999999998e+02, -6.9262175561389363e-03,  4.5018578395592177e-18, -1.9643373314022749e-20],
           [ 2.5359444444444443e+02, -6.9262175561389363e-03,  0.0000000000000000e+00, -7.4689632372710964e-23],
           [ 2.5253888888888886e+02, -6.9262175561389371e-03,  3.6936861414335649e-18, -1.6132960592505567e-20],
           [ 2.5148333333333332e+02, -6.9262175561389363e-03, -7.1759402778024677e-06,  3.1390814863524553e-08],
           [ 2.5037222222222221e+02, -6.9262175561391644e-03,  2.2423918947994211e-18, -4.9295157365989232e-21],
           [ 2.4931666666666663e+02, -6.9262175561388226e-03,  3.0107241430174791e-18, -1.4788547209796594e-20],
           [ 2.4826111111111109e+02, -6.9262175561389363e-03, -7.1759402778048783e-06,  3.1390814863538529e-08],
           [ 2.4714999999999998e+02, -6.9262175561389363e-03,  3.0619462928987021e-18, -1.1950341179633752e-20],
           [ 2.4609444444444443e+02, -6.9262175561388417e-03, -2.2765399947202247e-20, -3.9585505157536807e-21],
           [ 2.4503888888888886e+02, -6.9262175561391227e-03, -7.1759402778006381e-06,  3.1390814863522243e-08],
           [ 2.4392777777777775e+02, -6.9262175561389354e-03,  3.6766120914731625e-18, -1.6058270960132858e-20],
           [ 2.4287222222222221e+02, -6.9262175561389371e-03,  5.6913499868005617e-21, -7.4689632372710964e-23],
           [ 2.4181666666666663e+02, -6.9262175561389363e-03,  3.6766120914731625e-18, -1.5983581327760146e-20],
           [ 2.4076111111111109e+02, -6.9262175561389354e-03, -7.1759402778048783e-06,  3.1390814863538450e-08],
           [ 2.3964999999999998e+02, -6.9262175561389371e-03,  4.4335616397175850e-18, -1.7402684342841239e-20],
           [ 2.3859444444444443e+02, -6.9262175561388027e-03,  5.6913499868005617e-21, -5.8257913250714547e-21],
           [ 2.3753888888888886e+02, -6.9262175561392051e-03, -7.1759402778013436e-06,  3.1390814863526869e-08],
           [ 2.3642777777777775e+02, -6.9262175561389363e-03,  3.6766120914731625e-18, -1.5983581327760146e-20],
           [ 2.3537222222222221e+02, -6.9262175561389354e-03, -2.2765399947202247e-20,  7.4689632372710964e-23],
           [ 2.3431666666666663e+02, -6.9262175561389354e-03,  2.6976998937434343e-18, -6.1245498545621533e-21],
           [ 2.3326111111111109e+02, -6.9262175561385416e-03,  5.0231581944642764e-05, -2.1973570404481063e-07],
           [ 2.3259444444444443e+02, -6.9262175561387931e-03, -5.6211532176151197e-05,  2.4327881519247800e-07],
           [ 2.3109444444444443e+02, -7.1084864391951740e-03,  4.5181846193584139e-06, -2.1799176988567274e-08],
           [ 2.3003888888888886e+02, -7.2502511260166824e-03, -2.9235312242911331e-06,  1.7439341590855582e-08],
           [ 2.2892777777777775e+02, -6.9262175561389363e-03,  5.3043381876980604e-18, -2.3228475667912556e-20],
           [ 2.2787222222222221e+02, -6.9262175561389371e-03, -7.1711009833687079e-19,  4.7054468394807906e-21],
           [ 2.2681666666666663e+02, -6.9262175561388261e-03,  1.5138990964889494e-18, -6.5726876487985646e-21],
           [ 2.2576111111111109e+02, -6.9262175561388261e-03, -2.6806258437830646e-18,  1.2771927135733574e-20],
           [ 2.2470555555555552e+02, -6.9262175561387489e-03,  1.3943807467661210e-18, -5.6017224279531888e-21],
           [ 2.2364999999999998e+02, -6.9262175561387159e-03, -6.2604849854806180e-20, -9.7096522084524238e-22],
           [ 2.2259444444444443e+02, -6.9262175561388062e-03, -1.7074049960401686e-18,  5.6017224279533220e-21],
           [ 2.2153888888888886e+02, -6.9262175561389371e-03,  1.2407142971225224e-18,  0.0000000000000000e+00],
           [ 2.2048333333333332e+02, -6.9262175561385624e-03,  5.9799502315017754e-06, -2.3543111147646948e-08],
           [ 2.1948333333333332e+02, -6.7439486730825320e-03, -4.7839601852048991e-06,  2.3543111147661176e-08],
           [ 2.1842777777777775e+02, -6.5616797900262622e-03, -1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.1742777777777775e+02, -6.5616797900262622e-03, -5.6913499868005617e-21,  0.0000000000000000e+00],
           [ 2.1642777777777775e+02, -6.5616797900262631e-03, -7.1759402778043489e-06,  3.1390814863535088e-08],
           [ 2.1537222222222221e+02, -6.5616797900263412e-03,  5.0653014882524995e-19,  0.0000000000000000e+00],
           [ 2.1437222222222221e+02, -6.5616797900261833e-03,  5.0083879883844347e-19, -3.2863438243992040e-21],
           [ 2.1337222222222221e+02, -6.5616797900262622e-03, -1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.1237222222222221e+02, -6.5616797900262622e-03, -1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.1137222222222221e+02, -6.5616797900262622e-03, -1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.1037222222222221e+02, -6.5616797900262622e-03, -1.1382699973601123e-20,  0.0000000000000000e+00],
           [ 2.0937222222222221e+02, -6.5616797900262622e-03,  5.5914439107323013e-06, -2.0993857074345084e-08],
           [ 2.0842777777777775e+02, -6.3202025436841901e-03, -4.3106779887752760e-06,  1.7888330851058419e-08],
           [ 2.0742777777777775e+02, -6.3876869572210568e-03,  1.0052862823176297e-05, -4.1486582904868819e-08],
           [ 2.0648333333333329e+02, -6.3876869572210169e-03, -1.3744731853528225e-05,  6.7058423611155953e-08],
           [ 2.0548333333333329e+02, -6.1971420239136394e-03,  1.9350589955121911e-19,  9.7096522084524238e-22],
           [ 2.0453888888888886e+02, -6.1971420239135145e-03, -1.1382699973600988e-20,  0.0000000000000000e+00],
           [ 2.0359444444444443e+02, -6.1971420239135145e-03, -1.7017136460533680e-18,  0.0000000000000000e+00],
           [ 2.0264999999999998e+02, -6.1971420239140340e-03, -7.1759402778002798e-06,  3.1390814863519405e-08],
           [ 2.0164999999999998e+02, -6.1971420239139603e-03,  1.8326146957497808e-18, -3.9585505157536807e-21],
           [ 2.0070555555555552e+02, -6.1971420239136810e-03,  0.0000000000000000e+00,  4.0332401481263918e-21],
           [ 1.9976111111111109e+02, -6.1971420239134017e-03,  7.1759402778049291e-06, -3.1390814863543677e-08],
           [ 1.9887222222222221e+02, -6.1971420239137747e-03,  1.7074049960401687e-20,  0.0000000000000000e+00],
           [ 1.9792777777777775e+02, -6.1971420239137756e-03,  1.7074049960401687e-20,  0.0000000000000000e+00],
           [ 1.9698333333333329e+02, -6.1971420239137738e-03,  1.2179488971753202e-18,  7.4689632372710964e-23],
           [ 1.9603888888888886e+02, -6.1971420239134017e-03,  5.9799502315014908e-06, -2.3543111147645006e-08],
           [ 1.9514999999999998e+02, -6.0148731408573262e-03, -4.3679636473664928e-06,  2.0813475072603689e-08],
           [ 1.9420555555555552e+02, -5.8960021301677915e-03,  8.1394417957246914e-07, -2.6112049982419465e-09],
           [ 1.9331666666666666e+02, -5.8298536060340071e-03, -4.8835262932211196e-05,  1.7747845764796797e-06],
           [ 1.9314999999999998e+02, -4.1937973092746562e-03,  1.3673372945686196e-04, -5.6664279647227140e-07],
           [ 1.9364999999999998e+02,  3.6598949898955344e-03, -2.5824962181918927e-06,  1.6320460337249775e-08],
           [ 1.9420555555555552e+02,  4.0099154272381045e-03,  8.6110125300293515e-18, -3.8315781407201637e-20],
           [ 1.9481666666666666e+02,  4.0099154272380576e-03, -1.5366644964361333e-18,  1.0083100370315740e-20],
           [ 1.9542777777777775e+02,  4.0099154272382918e-03,  1.2520969970961385e-18, -6.1245498545624444e-21],
           [ 1.9603888888888886e+02,  4.0099154272382441e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9664999999999998e+02,  4.0099154272382441e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9726111111111109e+02,  4.0099154272382441e-03,  1.8781454956442076e-18, -8.2158595609984015e-21],
           [ 1.9787222222222221e+02,  4.0099154272382441e-03, -5.9799502315079190e-06,  2.3543111147671221e-08],
           [ 1.9842777777777775e+02,  3.8276465441820519e-03,  1.1959900463009601e-06,  1.0456548532179783e-21],
           [ 1.9903888888888886e+02,  4.1921843102946509e-03,  4.7839601851979323e-06, -2.3543111147625998e-08],
           [ 1.9970555555555552e+02,  4.0099154272387073e-03, -1.8212319957761581e-18,  0.0000000000000000e+00],
           [ 2.0031666666666666e+02,  4.0099154272381539e-03, -4.6099934893085100e-19,  2.9128956625357969e-21],
           [ 2.0092777777777775e+02,  4.0099154272382207e-03,  0.0000000000000000e+00,  1.0456548532179285e-21],
           [ 2.0153888888888886e+02,  4.0099154272382901e-03,  1.2748623970433411e-18, -6.2739291193078705e-21],
           [ 2.0214999999999998e+02,  4.0099154272382441e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0276111111111109e+02,  4.0099154272382441e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0337222222222221e+02,  4.0099154272382441e-03,  7.1759402778063013e-06, -3.1390814863543677e-08],
           [ 2.0403888888888886e+02,  4.0099154272383404e-03, -1.5821952963305374e-18,  6.2739291193075718e-21],
           [ 2.0464999999999998e+02,  4.0099154272382918e-03,  0.0000000000000000e+00,  2.0913097064359567e-21],
           [ 2.0526111111111109e+02,  4.0099154272384366e-03,  5.9799502315010665e-06, -2.3543111147642578e-08],
           [ 2.0592777777777775e+02,  4.1921843102945364e-03, -3.5879701389035005e-06,  1.5695407431773966e-08],
           [ 2.0653888888888886e+02,  4.1921843102945581e-03,  3.5879701389031934e-06, -1.5695407431772997e-08],
           [ 2.0720555555555552e+02,  4.1921843102945382e-03, -3.5879701389000289e-06,  1.5695407431759107e-08],
           [ 2.0781666666666666e+02,  4.1921843102945841e-03,  3.5879701388990557e-06, -1.5695407431754997e-08],
           [ 2.0848333333333329e+02,  4.1921843102945581e-03, -3.5879701388999777e-06,  1.5695407431757909e-08],
           [ 2.0909444444444443e+02,  4.1921843102945364e-03,  3.5879701389012241e-06, -1.5695407431763435e-08],
           [ 2.0976111111111109e+02,  4.1921843102945564e-03, -4.7839601852016262e-06,  2.3543111147644520e-08],
           [ 2.1037222222222221e+02,  4.3744531933506232e-03,  1.0187516476372884e-18, -2.2406889711812755e-21],
           [ 2.1103888888888886e+02,  4.3744531933507793e-03,  1.3602326468453505e-18, -6.7220669135441456e-21],
           [ 2.1170555555555552e+02,  4.3744531933507273e-03, -6.3786135802717112e-06,  2.6159012386286712e-08],
           [ 2.1231666666666663e+02,  4.2529406046466958e-03,  1.4218487495952816e-06, -4.0979137274346737e-09],
           [ 2.1298333333333332e+02,  4.4007886213210268e-03,  4.0561992675680683e-05, -9.9241907732484653e-07],
           [ 2.1314999999999998e+02,  3.3849935424739414e-03, -1.8363440362678499e-05,  8.4993771109105007e-08],
           [ 2.1342777777777775e+02,  2.5517643627879353e-03, -3.4717234919483014e-19,  2.4274130521130485e-21],
           [ 2.1381666666666663e+02,  2.5517643627880004e-03, -2.8456749934003147e-21,  0.0000000000000000e+00],
           [ 2.1420555555555552e+02,  2.5517643627880008e-03,  2.4444348193308120e-18, -1.0643272613111060e-20],
           [ 2.1459444444444443e+02,  2.5517643627880047e-03, -7.3912184861432621e-06,  3.2332539309461923e-08],
           [ 2.1492611111111108e+02,  2.5517643627879449e-03,  2.1527820833509959e-07, -9.4172444591033541e-10],
           [ 2.1531666666666663e+02,  2.5517643627879449e-03, -1.2919364470037121e-18,  8.2532043771843647e-21],
           [ 2.1570555555555552e+02,  2.5517643627881257e-03,  6.2889417354145461e-19, -4.0705849643126500e-21],
           [ 2.1609444444444443e+02,  2.5517643627880312e-03, -1.3659239968321511e-19, -4.4813779423627644e-22],
           [ 2.1648333333333332e+02,  2.5517643627879600e-03, -4.6953637391104073e-19,  2.2033441549949207e-21],
           [ 2.1687222222222221e+02,  2.5517643627879700e-03,  7.9394332315868778e-19, -3.9212056995674188e-21],
           [ 2.1726111111111109e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.1764999999999998e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.1803888888888886e+02,  2.5517643627879396e-03, -7.1759402778034553e-06,  3.1390814863531733e-08],
           [ 2.1837222222222221e+02,  2.5517643627878785e-03,  3.9839449907603455e-19,  0.0000000000000000e+00],
           [ 2.1876111111111109e+02,  2.5517643627880004e-03,  3.9554882408264374e-19, -2.6141371330449456e-21],
           [ 2.1914999999999998e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.1953888888888886e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.1992777777777775e+02,  2.5517643627879396e-03,  8.7077654798049639e-19, -3.0996197434675785e-21],
           [ 2.2031666666666663e+02,  2.5517643627879887e-03, -9.6752949775608390e-19,  4.2199642290580692e-21],
           [ 2.2070555555555552e+02,  2.5517643627879887e-03,  2.6037926189612878e-18, -8.5519629066756080e-21],
           [ 2.2109444444444443e+02,  2.5517643627881873e-03, -4.8774869386880231e-18,  2.1323890042408471e-20],
           [ 2.2148333333333332e+02,  2.5517643627881873e-03,  7.1759402778006694e-06, -3.1390814863521456e-08],
           [ 2.2192777777777775e+02,  2.5517643627880611e-03, -4.0124017406944439e-19,  0.0000000000000000e+00],
           [ 2.2231666666666663e+02,  2.5517643627879396e-03, -3.2440694924762817e-19,  2.1286545226222118e-21],
           [ 2.2270555555555552e+02,  2.5517643627879887e-03,  4.2258273651994669e-18, -1.9157890703600819e-20],
           [ 2.2309444444444443e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.2348333333333332e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.2387222222222221e+02,  2.5517643627879396e-03,  9.9314057269670982e-19, -3.9212056995674188e-21],
           [ 2.2426111111111109e+02,  2.5517643627879700e-03, -6.0043742360745208e-19,  2.6141371330448211e-21],
           [ 2.2464999999999998e+02,  2.5517643627879700e-03,  7.9394332315868778e-19, -3.9212056995674188e-21],
           [ 2.2503888888888886e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.2542777777777775e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.2581666666666663e+02,  2.5517643627879396e-03, -7.3441564322692892e-07,  2.6538914658160009e-09],
           [ 2.2620555555555552e+02,  2.5158240196501594e-03,  7.2086169772624004e-07, -8.8070258589571046e-10],
           [ 2.2659444444444443e+02,  2.6722133839762975e-03,  5.5952444616860548e-06, -2.6204804968137327e-08],
           [ 2.2703888888888886e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.2742777777777775e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.2781666666666663e+02,  2.5517643627879396e-03,  5.2644987377905822e-19, -8.5893077228619655e-22],
           [ 2.2820555555555552e+02,  2.5517643627880420e-03,  1.6590285211523441e-18, -7.2448943401527903e-21],
           [ 2.2859444444444443e+02,  2.5517643627880411e-03, -1.3943807467661543e-19, -8.5893077228619655e-22],
           [ 2.2898333333333332e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.2937222222222221e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.2976111111111109e+02,  2.5517643627879396e-03,  9.9314057269670982e-19, -3.9212056995674188e-21],
           [ 2.3014999999999998e+02,  2.5517643627879700e-03, -6.0043742360745208e-19,  2.6141371330448211e-21],
           [ 2.3053888888888886e+02,  2.5517643627879700e-03,  7.9394332315868778e-19, -3.9212056995674188e-21],
           [ 2.3092777777777775e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.3131666666666663e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.3170555555555552e+02,  2.5517643627879396e-03,  4.5473886394537026e-18, -1.9157890703600819e-20],
           [ 2.3209444444444443e+02,  2.5517643627879887e-03, -9.6752949775608390e-19,  4.2199642290580692e-21],
           [ 2.3248333333333332e+02,  2.5517643627879887e-03,  5.4921527372626072e-19, -3.0996197434675785e-21],
           [ 2.3287222222222221e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.3326111111111109e+02,  2.5517643627879396e-03, -2.8456749934002470e-21,  0.0000000000000000e+00],
           [ 2.3364999999999998e+02,  2.5517643627879396e-03,  9.9314057269670982e-19, -3.9212056995674188e-21],
           [ 2.3403888888888886e+02,  2.5517643627879700e-03, -6.0043742360745208e-19,  2.6141371330448211e-21],
           [ 2.3442777777777775e+02,  2.5517643627879700e-03,  4.9230177385825441e-19, -1.9419304416905310e-21],
           [ 2.3481666666666663e+02,  2.5517643627879856e-03, -1.0073689476636873e-18,  4.5934123909216151e-21],
           [ 2.3520555555555552e+02,  2.5517643627880008e-03,  2.2680029697399970e-18, -9.4482384951477114e-21],
           [ 2.3559444444444443e+02,  2.5517643627880312e-03, -1.3659239968321511e-19, -4.4813779423627644e-22],
           [ 2.3598333333333332e+02,  2.5517643627879600e-03, -4.6953637391104073e-19,  2.2033441549949207e-21],
           [ 2.3637222222222221e+02,  2.5517643627879700e-03,  1.9635157454462172e-19,  0.0000000000000000e+00],
           [ 2.3676111111111109e+02,  2.5517643627880307e-03,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_P = \
    np.array([[ 1.0103535200000000e+05, -1.2076005577427956e+01,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.0103535200000000e+05, -1.2076005577427956e+01,  7.2696221781343336e-04,  2.1415011393903584e-18],
           [ 9.9211852999999988e+04, -1.1854427493438276e+01,  7.2696221781359653e-04, -9.1778620259586795e-19],
           [ 9.7422122499999998e+04, -1.1632849409448758e+01, -2.9139711932418798e-16,  4.7700932927378378e-06],
           [ 9.5666160499999998e+04, -1.1300482283464627e+01,  1.5152650204857782e-15, -5.5067172155752084e-18],
           [ 9.3943967000000004e+04, -1.1300482283464561e+01, -2.0980592591341543e-15,  1.1013434431150417e-17],
           [ 9.2221773499999996e+04, -1.1300482283464433e+01,  6.5426599603186121e-03, -2.3850466463687951e-05],
           [ 9.0567116999999998e+04, -1.0968115157480316e+01, -4.3617733068796599e-03,  2.3850466463688636e-05],
           [ 8.8878691999999995e+04, -1.0635748031496192e+01,  2.8906594236959439e-15, -1.0860470064051092e-17],
           [ 8.7257804000000004e+04, -1.0635748031496068e+01, -1.0257178600211415e-15,  5.5067172155752015e-18],
           [ 8.5636915999999997e+04, -1.0635748031496000e+01,  2.1808866534386703e-03, -4.7700932927331071e-06],
           [ 8.4049796499999997e+04, -1.0303380905511780e+01,  9.7909432092927135e-16,  4.7700932927321754e-06],
           [ 8.2496445500000002e+04, -9.9710137795276594e+00,  8.0425604933475863e-16, -1.6826080380924227e-18],
           [ 8.0976862999999998e+04, -9.9710137795275404e+00, -6.1146354769248850e-04,  4.0122280032333147e-06],
           [ 7.9457280500000008e+04, -9.8778267348590827e+00,  1.6849217758648893e-03, -5.5279585822327470e-06],
           [ 7.7971466499999995e+04, -9.7494356955380983e+00,  2.3311769545935033e-17,  2.1415011393903565e-18],
           [ 7.6485652499999997e+04, -9.7494356955379331e+00,  2.1808866534373385e-03, -4.7700932927283519e-06],
           [ 7.5033606999999989e+04, -9.4170685695537841e+00,  1.8649415636748024e-15,  4.7700932927289634e-06],
           [ 7.3615330000000002e+04, -9.0847014435696192e+00,  1.5385767900317122e-15, -6.1185746839724458e-18],
           [ 7.2230821500000005e+04, -9.0847014435695712e+00, -6.4354032396653920e-04,  4.2227055378362692e-06],
           [ 7.0846312999999995e+04, -8.9866258981972127e+00,  1.6207682233211943e-03, -5.3174810476405025e-06],
           [ 6.9495572999999989e+04, -8.8631233595800474e+00,  0.0000000000000000e+00,  2.6003942406882895e-18],
           [ 6.8144832999999999e+04, -8.8631233595798662e+00,  1.4539244356243483e-03,  7.3422896207669359e-18],
           [ 6.6827861499999999e+04, -8.4199671916010530e+00,  7.5763251024288859e-16, -3.0592873419862229e-18],
           [ 6.5544658500000005e+04, -8.4199671916010299e+00, -9.6928295708462392e-04,  6.3601243903179805e-06],
           [ 6.4261455500000004e+04, -8.2740499167787220e+00,  9.9292400481796705e-04, -3.2576246877226909e-06],
           [ 6.3012021000000001e+04, -8.1983891076115754e+00, -1.1655884772967516e-17,  6.1185746839724466e-19],
           [ 6.1762586499999998e+04, -8.1983891076115381e+00,  1.4539244356282705e-03, -1.0172130412104192e-17],
           [ 6.0546920500000000e+04, -7.7552329396327471e+00,  1.3870502879831385e-15, -3.0592873419862406e-18],
           [ 5.9365022999999994e+04, -7.7552329396325357e+00, -1.1077519509521850e-03,  7.2687135889280933e-06],
           [ 5.8183125500000002e+04, -7.5864115423072098e+00,  6.9234496934555165e-04, -2.2714729965400513e-06],
           [ 5.7034996500000001e+04, -7.5336548556430456e+00, -7.0578856098334924e-04,  4.6311585366369749e-06],
           [ 5.5886867500000000e+04, -7.4260926789491180e+00,  1.4962717492851628e-03, -4.9090280488354074e-06],
           [ 5.4772506999999998e+04, -7.3120767716535520e+00, -1.3085319920635794e-03,  8.5861679269274638e-06],
           [ 5.3658146500000003e+04, -7.1130320521375516e+00,  2.9571344453420076e-04, -9.7018846631949546e-07],
           [ 5.2577554499999998e+04, -7.0904986876640406e+00, -1.7483827159451327e-17,  1.5296436709931205e-19],
           [ 5.1496962500000001e+04, -7.0904986876640335e+00,  1.4539244356264012e-03,  5.3537528484758575e-19],
           [ 5.0450138999999996e+04, -6.6473425196850648e+00,  1.0898252262724660e-15, -4.8183775636283295e-18],
           [ 4.9437084000000003e+04, -6.6473425196850648e+00,  5.8279423864837405e-18,  0.0000000000000000e+00],
           [ 4.8424028999999995e+04, -6.6473425196850657e+00, -6.8870104845472038e-04,  4.5190357510156185e-06],
           [ 4.7410973999999995e+04, -6.5423844799005391e+00,  1.5304467743441365e-03, -5.0211508344624779e-06],
           [ 4.6431687500000000e+04, -6.4257644356955232e+00, -1.2238679011615855e-16,  5.3537528484758575e-19],
           [ 4.5452400999999998e+04, -6.4257644356955188e+00,  1.4539244356256522e-03,  4.1300379116814252e-18],
           [ 4.4506882999999994e+04, -5.9826082677165369e+00,  6.9352514399156512e-16, -3.0592873419862044e-18],
           [ 4.3595133499999996e+04, -5.9826082677165369e+00, -1.1655884772967550e-17,  7.6482183549656027e-20],
           [ 4.2683383999999998e+04, -5.9826082677165360e+00, -5.3409469063928137e-04,  3.5045583375260361e-06],
           [ 4.1771634499999993e+04, -5.9012122368632554e+00,  1.8396594899778534e-03, -6.0356282479596374e-06],
           [ 4.0893653500000000e+04, -5.7610301837270050e+00, -1.0369073494398120e-03,  6.8038539989470790e-06],
           [ 4.0015672500000001e+04, -5.6025166313345416e+00,  8.2761852489547617e-04, -2.7152838743296684e-06],
           [ 3.9171459999999999e+04, -5.5394520997375558e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.8327247499999998e+04, -5.5394520997375558e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.7483034999999996e+04, -5.5394520997375558e+00, -8.4290337152610015e-02,  3.7182265666472450e-04],
           [ 3.5997220999999998e+04, -5.3235555050811172e+00,  9.0217875236321438e-02, -3.9139227017340888e-04],
           [ 3.5895915500000003e+04, -5.0962959317585357e+00, -2.2146181068638213e-16,  1.0707505696951715e-18],
           [ 3.5119239999999998e+04, -5.0962959317585259e+00,  5.8279423864837752e-18,  0.0000000000000000e+00],
           [ 3.4342564500000000e+04, -5.0962959317585268e+00, -9.3247078183740398e-16,  4.1300379116814252e-18],
           [ 3.3565888999999996e+04, -5.0962959317585259e+00,  1.4539244356273540e-03, -3.0592873419862406e-18],
           [ 3.2822982000000004e+04, -4.6531397637795200e+00,  1.5152650204857635e-16, -6.8833965194688786e-19],
           [ 3.2113843499999999e+04, -4.6531397637795209e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.1404705000000002e+04, -4.6531397637795209e+00, -9.4412666661037161e-16,  4.1300379116814252e-18],
           [ 3.0695566499999997e+04, -4.6531397637795209e+00,  3.3924903497958496e-03, -1.2720248780637259e-05],
           [ 3.0020196500000002e+04, -4.5054210411198623e+00, -3.3924903497962811e-03,  1.5900310975797874e-05],
           [ 2.9311057999999997e+04, -4.4315616797900299e+00,  3.6348110890677731e-03, -1.4310279878219750e-05],
           [ 2.8669456500000000e+04, -4.3207726377952689e+00, -2.9078488712540899e-03,  1.4310279878218791e-05],
           [ 2.7994086499999998e+04, -4.2099835958005016e+00,  3.8771318283374696e-03, -1.5900310975793897e-05],
           [ 2.7386253499999999e+04, -4.1361242344707012e+00, -2.4232073927110687e-03,  1.2720248780635346e-05],
           [ 2.6744651999999998e+04, -3.9884055118110484e+00,  1.4278458846885250e-16,  3.8241091774828014e-20],
           [ 2.6136819000000000e+04, -3.9884055118110004e+00, -5.8279423864837058e-18,  0.0000000000000000e+00],
           [ 2.5528985999999997e+04, -3.9884055118110009e+00, -7.2696221781360997e-04,  4.7700932927391626e-06],
           [ 2.4921152999999998e+04, -3.8776164698162798e+00,  1.4539244356264330e-03, -4.7700932927371364e-06],
           [ 2.4347088499999998e+04, -3.7668274278215099e+00,  5.8279423864837752e-18,  0.0000000000000000e+00],
           [ 2.3773024000000001e+04, -3.7668274278215099e+00, -8.1783249504042337e-04,  5.3663549543324476e-06],
           [ 2.3198959500000001e+04, -3.6421897555774216e+00,  1.2721838811735574e-03, -4.1738316311470032e-06],
           [ 2.2658663499999999e+04, -3.5452493438320105e+00, -2.4477358023231858e-16,  1.1854738450196683e-18],
           [ 2.2118367500000000e+04, -3.5452493438320003e+00,  3.3924903497950919e-03, -1.2720248780634084e-05],
           [ 2.1611840000000000e+04, -3.3975306211723550e+00, -3.3924903497954185e-03,  1.5900310975794012e-05],
           [ 2.1071544000000002e+04, -3.3236712598425284e+00,  3.8771318283381813e-03, -1.5900310975796234e-05],
           [ 2.0598785000000000e+04, -3.2498118985126898e+00, -2.4232073927109199e-03,  1.2720248780634391e-05],
           [ 2.0092257500000000e+04, -3.1020931758530619e+00,  2.4185960903907667e-16, -5.3537528484759220e-19],
           [ 1.9619498499999998e+04, -3.1020931758530259e+00, -5.9478726911980830e-04,  3.9028036031488548e-06],
           [ 1.9146739500000000e+04, -3.0107556450481856e+00,  1.7091936113470528e-03, -5.6075905884082619e-06],
           [ 1.8707749000000000e+04, -2.8805150918634888e+00,  2.2437578187962266e-16, -1.4914025792182570e-18],
           [ 1.8268758500000000e+04, -2.8805150918635225e+00, -1.1655884772967550e-17,  0.0000000000000000e+00],
           [ 1.7829768000000000e+04, -2.8805150918635234e+00, -2.6434989738663586e-05,  1.7345793791774048e-07],
           [ 1.7390777500000000e+04, -2.8805150918635234e+00,  2.9078488712530087e-03, -9.5401865854752673e-06],
           [ 1.6985555499999999e+04, -2.6589370078740084e+00,  2.9139711932418876e-18,  0.0000000000000000e+00],
           [ 1.6580333500000001e+04, -2.6589370078740084e+00, -1.4539244356264157e-03,  9.5401865854754215e-06],
           [ 1.6175111499999999e+04, -2.4373589238845179e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.5803657999999999e+04, -2.4373589238845179e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.5432204500000000e+04, -2.4373589238845179e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.5060751000000000e+04, -2.4373589238845179e+00, -6.5175922976394064e-04,  4.2766353659046355e-06],
           [ 1.4689297499999999e+04, -2.3359587837537230e+00,  1.5771383708495742e-03, -5.1743384870394278e-06],
           [ 1.4351612499999999e+04, -2.2157808398949976e+00, -4.4292362137276692e-16,  2.6768764242379607e-18],
           [ 1.4013927500000002e+04, -2.2157808398949461e+00,  1.6628002237875424e-03, -5.4870975135791267e-06],
           [ 1.3676242499999998e+04, -2.1081315683211761e+00, -1.0544391291188748e-04,  8.5017252575698238e-08],
           [ 1.3372325999999999e+04, -2.1331082707190610e+00, -2.5388662883292631e-03,  1.3099707099592260e-05],
           [ 1.3034641000000000e+04, -1.9942027559055446e+00,  8.9167518513200700e-16, -3.4225777138470254e-18],
           [ 1.2730724500000000e+04, -1.9942027559055124e+00, -2.9139711932418876e-18,  0.0000000000000000e+00],
           [ 1.2426808000000001e+04, -1.9942027559055124e+00, -2.2874673866948818e-16,  1.0133889320329423e-18],
           [ 1.2122891500000000e+04, -1.9942027559055124e+00,  3.6348110890664295e-03, -1.4310279878214221e-05],
           [ 1.1852743499999999e+04, -1.8834137139107618e+00, -2.9078488712532377e-03,  1.4310279878214659e-05],
           [ 1.1548826999999999e+04, -1.7726246719160217e+00,  5.3908467074974279e-16, -2.1415011393903176e-18],
           [ 1.1278679000000000e+04, -1.7726246719160050e+00, -4.2835376540655747e-16,  2.1223805935029546e-18],
           [ 1.1008530999999999e+04, -1.7726246719159886e+00,  3.6348110890664165e-03, -1.4310279878214546e-05],
           [ 1.0772151500000000e+04, -1.6618356299212642e+00, -2.1808866534401405e-03,  9.5401865854775424e-06],
           [ 1.0502003499999999e+04, -1.6618356299212589e+00,  2.1808866534400039e-03, -9.5401865854768547e-06],
           [ 1.0265624000000000e+04, -1.6618356299212589e+00, -1.9851660563362170e-03,  8.2559306989694811e-06],
           [ 9.9954759999999987e+03, -1.6916634489198408e+00,  5.2303149698927891e-04,  2.6223839759029707e-06],
           [ 9.7590964999999997e+03, -1.3495228660810052e+00,  1.7377548054626851e-02, -3.8149189797156275e-04],
           [ 9.7253279999999995e+03, -1.3027398754577857e+00,  4.3119541804071863e-04, -7.7602896798760968e-06],
           [ 9.5564855000000007e+03, -1.5510465879264670e+00, -3.2927874483632938e-16,  7.2658074372171491e-19],
           [ 9.3201059999999998e+03, -1.5510465879265170e+00, -6.6888534641819234e-04,  4.3890114594361313e-06],
           [ 9.0837264999999989e+03, -1.4491084611324474e+00,  1.5700781784183670e-03, -5.1511751260454083e-06],
           [ 8.8811154999999999e+03, -1.3294685039370320e+00, -1.3258568929250747e-16,  8.7954511082106526e-19],
           [ 8.6785044999999991e+03, -1.3294685039370118e+00,  9.1790092587118364e-17, -1.1472327532448130e-19],
           [ 8.4758934999999983e+03, -1.3294685039369918e+00,  3.5841845676874793e-16, -1.6826080380923925e-18],
           [ 8.2732825000000012e+03, -1.3294685039370004e+00, -4.1524089503697392e-16,  1.3766793038938410e-18],
           [ 8.0706715000000004e+03, -1.3294685039370318e+00,  2.0252099793030879e-16,  1.9120545887413549e-20],
           [ 7.8680604999999996e+03, -1.3294685039369689e+00,  3.6348110890657499e-03, -1.4310279878211922e-05],
           [ 7.6992179999999989e+03, -1.2186794619422538e+00, -2.9078488712527615e-03,  1.4310279878212389e-05],
           [ 7.4966070000000009e+03, -1.1078904199475148e+00,  1.6609635801478562e-16, -7.2658074372171491e-19],
           [ 7.3277644999999993e+03, -1.1078904199475148e+00, -2.7682726335798262e-17,  1.9120545887414459e-19],
           [ 7.1589220000000005e+03, -1.1078904199475106e+00,  7.5763251024288176e-17, -3.0592873419861679e-19],
           [ 6.9900794999999989e+03, -1.1078904199475095e+00, -1.2675774690602361e-16,  6.1185746839726276e-19],
           [ 6.8212370000000001e+03, -1.1078904199475061e+00,  7.4306265427667246e-17, -2.4856709653637618e-19],
           [ 6.6523944999999994e+03, -1.1078904199475004e+00,  3.9338611108765011e-17,  0.0000000000000000e+00],
           [ 6.4835519999999997e+03, -1.1078904199474884e+00,  3.6348110890661225e-03, -1.4310279878213308e-05],
           [ 6.3484779999999992e+03, -9.9710137795275633e-01, -2.9078488712526219e-03,  1.4310279878211336e-05],
           [ 6.1796355000000003e+03, -8.8631233595804826e-01,  1.7629525719113629e-16,  0.0000000000000000e+00],
           [ 6.0445614999999998e+03, -8.8631233595799430e-01,  2.3311769545934823e-17, -1.6252464004301518e-19],
           [ 5.9094875000000002e+03, -8.8631233595799808e-01,  1.4569855966209265e-18, -9.5602729437067756e-20],
           [ 5.7744134999999997e+03, -8.8631233595800452e-01, -1.9305059155227734e-16,  8.0306292727140742e-19],
           [ 5.6393395000000000e+03, -8.8631233595800774e-01,  1.4205609567054032e-16, -6.0229719545352684e-19],
           [ 5.5042654999999995e+03, -8.8631233595800663e-01, -2.1490537550159175e-16,  1.0325094779203808e-18],
           [ 5.3691914999999999e+03, -8.8631233595800019e-01,  7.6491743822598640e-17, -2.5812736948008291e-19],
           [ 5.2341175000000003e+03, -8.8631233595799441e-01, -1.1364487653643226e-16,  5.0669446601645909e-19],
           [ 5.0990434999999998e+03, -8.8631233595799430e-01,  3.6348110890663068e-03, -1.4310279878214036e-05],
           [ 4.9977379999999994e+03, -7.7552329396325659e-01, -2.1808866534397189e-03,  9.5401865854755367e-06],
           [ 4.8626639999999998e+03, -7.7552329396325359e-01,  2.1808866534397224e-03, -9.5401865854756857e-06],
           [ 4.7613584999999994e+03, -7.7552329396324970e-01, -2.1249664828385775e-03,  9.1732563321871726e-06],
           [ 4.6262845000000007e+03, -7.8404552796286320e-01,  2.2348718700412385e-03, -9.5274900369211048e-06],
           [ 4.5249790000000003e+03, -7.6670617297406229e-01, -1.5627172242793204e-02,  3.1024251519491284e-04],
           [ 4.4912105000000001e+03, -6.6473425196849578e-01,  2.1144330435010883e-03, -1.2170379446407489e-05],
           [ 4.4236734999999999e+03, -6.6473425196848901e-01,  7.4306265427667246e-17, -7.0746019783430143e-19],
           [ 4.3223680000000004e+03, -6.6473425196851599e-01, -9.1061599788810068e-17,  5.9273692250984832e-19],
           [ 4.2210625000000000e+03, -6.6473425196850211e-01,  1.5298348764519729e-17, -1.9120545887413549e-20],
           [ 4.1197569999999996e+03, -6.6473425196849878e-01,  4.0795596705385941e-17, -2.0076573181784230e-19],
           [ 4.0184514999999997e+03, -6.6473425196850033e-01, -1.6682485081310004e-16,  5.4493555779131213e-19],
           [ 3.9171459999999997e+03, -6.6473425196851299e-01,  8.3048179007392811e-17,  0.0000000000000000e+00],
           [ 3.8158404999999993e+03, -6.6473425196848734e-01,  4.3617733068798698e-03, -1.9080373170953015e-05],
           [ 3.7483035000000004e+03, -6.6473425196849723e-01, -3.0815245368533327e-16,  1.2141546638508182e-18],
           [ 3.6469980000000000e+03, -6.6473425196850655e-01, -8.4437535952181777e-04,  5.5405207317708115e-06],
           [ 3.5456925000000001e+03, -5.3582996214328826e-01,  1.2161915244655564e-03, -3.9901296734433325e-06],
           [ 3.4781554999999998e+03, -4.4315616797900353e-01,  2.1599811469905235e-16, -1.1472327532448131e-18],
           [ 3.4106185000000000e+03, -4.4315616797901741e-01, -3.4894186455035271e-03,  1.4310279878212989e-05],
           [ 3.3126898499999998e+03, -5.0962959317587120e-01,  4.8809017486802199e-17,  1.2428354826819399e-19],
           [ 3.2350222999999996e+03, -5.0962959317584822e-01, -8.2217764343045700e-05,  5.3948664267099877e-07],
           [ 3.1573547500000000e+03, -4.9709960588996116e-01,  1.2634935843895624e-04, -4.1453201587572476e-07],
           [ 3.0830640500000000e+03, -4.8747178477690423e-01,  7.2849279831046323e-19,  2.4856709653637618e-19],
           [ 3.0087733499999999e+03, -4.8747178477688669e-01,  1.4539244356269096e-04, -6.6443896958762092e-19],
           [ 2.9378595000000000e+03, -4.4315616797902407e-01,  8.7419135797257670e-17,  4.7801364718536153e-21],
           [ 2.8703224999999998e+03, -4.4315616797899715e-01, -7.2849279831046323e-19,  0.0000000000000000e+00],
           [ 2.8027855000000000e+03, -4.4315616797899715e-01, -1.4539244356285799e-04,  9.5401865854849387e-07],
           [ 2.7352485000000001e+03, -4.2099835958004955e-01,  7.2849279831046323e-19,  0.0000000000000000e+00],
           [ 2.6710883500000000e+03, -4.2099835958004950e-01, -3.6424639915523161e-19,  0.0000000000000000e+00],
           [ 2.6069281999999998e+03, -4.2099835958004950e-01, -1.8430867797255159e-16,  9.0822592965218702e-19],
           [ 2.5427680500000001e+03, -4.2099835958004239e-01,  6.7849806995899577e-04, -2.5440497561268061e-06],
           [ 2.4853615999999997e+03, -3.9145461504812107e-01, -1.6962451748986880e-04,  7.9501554879017266e-07],
           [ 2.4245782999999997e+03, -3.8776164698162746e-01,  7.2696221781383728e-05, -1.6252464004301518e-19],
           [ 2.3671718499999997e+03, -3.6560383858267287e-01,  1.9385659141695445e-04, -7.9501554879003438e-07],
           [ 2.3131422500000003e+03, -3.6191087051618254e-01, -3.3924903497975403e-04,  1.5900310975803214e-06],
           [ 2.2557357999999999e+03, -3.5452493438320193e-01,  3.8771318283387503e-04, -1.5900310975799110e-06],
           [ 2.2050830500000002e+03, -3.4713899825022060e-01, -1.6962451748990851e-04,  7.9501554879037817e-07],
           [ 2.1510534499999999e+03, -3.4344603018372460e-01,  3.1315295536567042e-05,  2.7152838743293878e-07],
           [ 2.1004007000000001e+03, -3.1498176862506500e-01,  3.7049873893283709e-05, -3.7628466907904825e-08],
           [ 2.0531248000000001e+03, -3.0631081628710488e-01,  6.7228940355416717e-05, -3.4210157137395637e-07],
           [ 2.0058489000000000e+03, -3.1020931758530312e-01, -9.9997210609265974e-05,  3.8572461767051288e-07],
           [ 1.9585729999999999e+03, -3.1426694138546934e-01, -9.2142787392581000e-05,  7.7931506218923383e-07],
           [ 1.9112970999999998e+03, -2.8805150918635264e-01,  7.3942019028512020e-17, -2.5812736948008291e-19],
           [ 1.8673980500000000e+03, -2.8805150918634809e-01, -3.4435052422736845e-05,  2.2595178755073350e-07],
           [ 1.8234990000000000e+03, -2.8280360719712522e-01,  2.2191478227976964e-04, -7.2806687099652596e-07],
           [ 1.7829768000000001e+03, -2.6589370078739977e-01,  1.6391087961985423e-17, -1.0516300238077453e-19],
           [ 1.7424546000000000e+03, -2.6589370078740221e-01, -5.1358742280888882e-17,  1.6730477651487652e-19],
           [ 1.7019323999999999e+03, -2.6589370078740610e-01, -9.3823041383573081e-05,  6.1563675448571887e-07],
           [ 1.6614102000000000e+03, -2.5159506928052594e-01,  1.0313880435797079e-04, -3.3838190406167333e-07],
           [ 1.6242648499999998e+03, -2.4373589238845497e-01, -1.8212319957762014e-19,  0.0000000000000000e+00],
           [ 1.5871194999999998e+03, -2.4373589238845497e-01, -9.5595531642328599e-05,  6.2726726799458806e-07],
           [ 1.5499741500000000e+03, -2.2916713336614211e-01,  9.9593823840373613e-05, -3.2675139055232969e-07],
           [ 1.5162056500000001e+03, -2.2157808398950005e-01,  1.8212319957761581e-19,  0.0000000000000000e+00],
           [ 1.4824371500000000e+03, -2.2157808398950005e-01,  1.8212319957761581e-19,  0.0000000000000000e+00],
           [ 1.4486686499999998e+03, -2.2157808398950005e-01, -7.4852635026401873e-17,  3.2743934832197265e-19],
           [ 1.4149001499999999e+03, -2.2157808398950005e-01,  3.6348110890667862e-04, -1.4310279878215901e-06],
           [ 1.3845084999999999e+03, -2.1049917979002664e-01, -2.1808866534404875e-04,  9.5401865854792043e-07],
           [ 1.3507400000000000e+03, -2.1049917979002572e-01,  7.2696221781347488e-05, -5.2581501190387265e-20],
           [ 1.3203483500000000e+03, -1.8834137139107440e-01,  2.1808866534401368e-04, -9.5401865854775060e-07],
           [ 1.2933335500000001e+03, -1.8834137139107568e-01, -2.1808866534406022e-04,  9.5401865854793949e-07],
           [ 1.2629419000000000e+03, -1.8834137139107693e-01,  2.1808866534402479e-04, -9.5401865854778173e-07],
           [ 1.2359270999999999e+03, -1.8834137139107693e-01, -2.1808866534405203e-04,  9.5401865854793949e-07],
           [ 1.2055354499999999e+03, -1.8834137139107573e-01,  7.2696221781355687e-05, -7.8872251785580906e-20],
           [ 1.1785206499999999e+03, -1.6618356299212378e-01,  2.1808866534401441e-04, -9.5401865854775780e-07],
           [ 1.1548827000000001e+03, -1.6618356299212536e-01, -2.9078488712540486e-04,  1.4310279878218302e-06],
           [ 1.1278679000000000e+03, -1.5510465879265195e-01,  4.3709567898627794e-17, -1.9120545887413551e-19],
           [ 1.1042299499999999e+03, -1.5510465879265195e-01,  7.2849279831048048e-18, -4.7801364718536147e-20],
           [ 1.0805920000000001e+03, -1.5510465879265306e-01,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_rho = \
    np.array([[ 1.1575398809681128e+00, -1.1328749422369025e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.1575398809681128e+00, -1.1328749422369025e-04,  3.5570937417503426e-22,  7.2781190867056167e-11],
           [ 1.1405324835754931e+00, -1.0821629880891275e-04,  2.6678203063127569e-22,  0.0000000000000000e+00],
           [ 1.1240403196370148e+00, -1.0821629880891269e-04, -5.7230081211021246e-18,  3.7551379700886061e-20],
           [ 1.1075481556985365e+00, -1.0821629880804052e-04,  4.4384656057593356e-08, -1.4561668757527784e-10],
           [ 1.0915714334540543e+00, -1.0483403035454127e-04,  1.7785468708751715e-22,  0.0000000000000000e+00],
           [ 1.0755947272280222e+00, -1.0483403035454129e-04, -2.0057811956120927e-08,  1.3161293934469254e-10],
           [ 1.0596180210019903e+00, -1.0177464348664035e-04,  4.2262562065184933e-09, -1.3865669968889499e-11],
           [ 1.0441566443408019e+00, -1.0145260276370342e-04, -8.8927343543758518e-23,  0.0000000000000000e+00],
           [ 1.0286952676796135e+00, -1.0145260276370339e-04, -1.4777643229556125e-08,  9.7002366842654768e-11],
           [ 1.0132340191660278e+00, -9.9197967344913759e-05,  1.4785919562201825e-08, -4.8501184085734982e-11],
           [ 9.9828798808813324e-01, -9.8070649646227995e-05,  2.5726529310725314e-16, -1.1253078450669255e-18],
           [ 9.8334202108404012e-01, -9.8070649646221896e-05, -4.4396379118383872e-09,  2.9126957433784326e-11],
           [ 9.6839603806149666e-01, -9.7394364113158173e-05,  3.5508827983701745e-08, -1.1650782932877702e-10],
           [ 9.5396546469604837e-01, -9.4689221990059230e-05, -1.0288256928233103e-15,  4.5007353944277410e-18],
           [ 9.3953482725679893e-01, -9.4689221990046233e-05, -8.0620381279729771e-09,  5.2918612359566006e-11],
           [ 9.2510425389135065e-01, -9.3459306240863452e-05,  2.8231614879698469e-08, -9.2607570660452082e-11],
           [ 9.1118896203539512e-01, -9.1306953656559547e-05,  1.3504453034149043e-15, -5.9071236666232798e-18],
           [ 8.9727378230859167e-01, -9.1306953656536074e-05, -2.2194740961074533e-08,  1.4562120969262281e-10],
           [ 8.8335855452643741e-01, -8.7925420899634681e-05,  1.3734579213771580e-16, -4.5063056071670235e-19],
           [ 8.6995872038292799e-01, -8.7925420889170395e-05,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 8.5655888623941845e-01, -8.7925420889170395e-05,  2.2231835885939630e-20, -7.3522606866886918e-23],
           [ 8.4315905209590913e-01, -8.7925420889168674e-05, -2.7756359098310363e-09,  1.8208308564125681e-11],
           [ 8.2975920193394948e-01, -8.7502729300336136e-05,  3.8842005495082012e-08, -1.2744232145315370e-10],
           [ 8.1687482550288604e-01, -8.4543520341176485e-05, -2.2195431232997783e-08,  1.4562347456856638e-10],
           [ 8.0399033694267064e-01, -8.1162040168907351e-05,  1.4713384698689065e-17, -4.8267007895358637e-20],
           [ 7.9162124202110007e-01, -8.1162040167785839e-05,  5.3356406126255111e-22, -2.3340510116472040e-24],
           [ 7.7925214709952950e-01, -8.1162040167785866e-05, -1.7625274462974282e-12,  7.0396508738463412e-15],
           [ 7.6688303615950870e-01, -8.1162086882426417e-05,  6.1313873485188817e-12, -2.0118912136578020e-14],
           [ 7.5451400531173940e-01, -8.1161619866636784e-05, -1.6550717628512070e-11,  7.2402214190144589e-14],
           [ 7.4214484631636746e-01, -8.1161619736019235e-05,  3.3286422845109110e-08, -7.2807211432047204e-11],
           [ 7.3029120910724310e-01, -7.6088926509799932e-05,  3.3289525992056965e-08, -1.4562799848963024e-10],
           [ 7.1895296553676347e-01, -7.6089241814022537e-05, -4.4393967824439792e-08,  2.1846237150878878e-10],
           [ 7.0709915212468566e-01, -7.4398659377829926e-05,  6.2058120552972151e-12, -2.7147034362241044e-14],
           [ 6.9576084448040487e-01, -7.4398659377829926e-05, -1.3500959968094603e-15,  5.9064818025950400e-18],
           [ 6.8442248878077316e-01, -7.4398659377791559e-05,  4.8283925290786826e-12, -6.8906810926763936e-18],
           [ 6.7308424521029353e-01, -7.4397188163872571e-05,  5.5455994458098184e-08, -2.1834018845191666e-10],
           [ 6.6226128314930677e-01, -7.2707551499061256e-05, -3.3278491996664933e-08,  1.4556917253589848e-10],
           [ 6.5092299152347632e-01, -7.2707971865492644e-05,  1.1092715184075081e-08,  9.0509794033555827e-15],
           [ 6.4009996538868830e-01, -6.9326281629760453e-05,  3.3292975803262342e-08, -1.4563252939446447e-10],
           [ 6.2979241298479671e-01, -6.9325861132652373e-05, -4.4379484071644057e-08,  2.1839901391267201e-10],
           [ 6.1896945092380984e-01, -6.7635278633572363e-05,  1.2068318921667102e-11, -4.7513952523335417e-14],
           [ 6.0866194657526917e-01, -6.7634910852938982e-05, -1.5539698729821092e-08,  1.0195068813011307e-10],
           [ 5.9835433009757633e-01, -6.5267764382753881e-05,  1.3316638384792008e-08, -4.3693153019666443e-11],
           [ 5.8856215531387923e-01, -6.4253273060103442e-05, -1.0343822942299701e-12, -1.0548160034386687e-19],
           [ 5.7876993247483122e-01, -6.4253588347176326e-05, -6.6560776739163028e-08,  2.9117228185057866e-10],
           [ 5.6846239608938987e-01, -6.4253220486531535e-05,  5.9168659726190111e-08, -2.4265173856486018e-10],
           [ 5.5918555087053667e-01, -6.3125926132459462e-05, -3.6975527512079252e-08,  1.9409424081934095e-10],
           [ 5.4939339210528992e-01, -6.0872108154184599e-05,  3.4481017399573626e-12, -7.0315270669231486e-19],
           [ 5.4011656290488674e-01, -6.0871057221768008e-05,  3.4494950209396916e-12, -2.2630965564403438e-14],
           [ 5.3083981379673528e-01, -6.0871582679809940e-05, -4.8465402231348533e-21,  1.5754844328618718e-23],
           [ 5.2156298459633221e-01, -6.0871582679810313e-05, -1.2094118721951122e-20,  6.3602890067385920e-23],
           [ 5.1228615539592903e-01, -6.0871582679809574e-05,  2.3713494522698255e-08, -6.8253877740251962e-11],
           [ 5.0331849830491160e-01, -5.8399454099684444e-05, -4.2771671464032056e-10,  1.2509629898187106e-11],
           [ 4.9445276661320114e-01, -5.7658185169194406e-05,  4.1139712834863801e-09, -4.8167517468435998e-12],
           [ 4.8574415990055719e-01, -5.6739864882143083e-05,  1.2668237571333919e-09,  3.0768865784633788e-12],
           [ 4.7713731840271700e-01, -5.6139347913312979e-05,  2.6915653115640360e-09, -3.0059273834553522e-12],
           [ 4.6863355563260584e-01, -5.5528403650304961e-05,  1.9972784274877485e-09,  4.3712163822506843e-12],
           [ 4.6023288760867387e-01, -5.4615058717800002e-05,  3.9942258269259491e-09, -4.3676859178516607e-12],
           [ 4.5198686170401092e-01, -5.3701947160403155e-05,  1.3309258790193486e-09,  2.9104333446837721e-12],
           [ 4.4384389850862660e-01, -5.3093489873399185e-05,  2.6621826454903830e-09, -2.9098898471704031e-12],
           [ 4.3580398200407067e-01, -5.2484809812704139e-05,  8.8831400907340736e-10,  1.1648610367988689e-11],
           [ 4.2786716024569399e-01, -5.1402408216517352e-05,  3.3270962298776837e-09, -7.2773646625886407e-12],
           [ 4.2008494856968565e-01, -5.0895376260907908e-05, -1.1090703745786217e-09,  1.4554729325150204e-11],
           [ 4.1235425222986627e-01, -5.0219286960566788e-05,  5.5504672692947712e-09, -1.4567929159020824e-11],
           [ 4.0477818199086552e-01, -4.9542558215918992e-05,  4.5988500274547325e-13,  7.2800036918968339e-12],
           [ 3.9725367514340476e-01, -4.9035167187328815e-05,  6.2107763001649762e-09, -1.1640647576014546e-11],
           [ 3.8988376235986200e-01, -4.7953211231573784e-05,  1.3317673088807680e-09,  2.9110665137895415e-12],
           [ 3.8261692830404825e-01, -4.7344453359246973e-05,  1.4792203169856345e-09,  4.8545936043067913e-12],
           [ 3.7545317297596342e-01, -4.6555332128776247e-05,  2.0710371595920139e-09, -3.8833126154582873e-12],
           [ 3.6839249637560761e-01, -4.6194658662967455e-05,  4.4183825006222472e-10,  5.8364423588884958e-12],
           [ 3.6138335112989112e-01, -4.5653318935904377e-05,  6.2157101384590680e-09, -1.1668506205152846e-11],
           [ 3.5452884800344359e-01, -4.4571800259740206e-05,  1.3285389128522887e-09,  2.9239147769038690e-12],
           [ 3.4777731147557289e-01, -4.3963131170496346e-05,  2.6680074801638497e-09, -2.9232069849826054e-12],
           [ 3.4112894978613295e-01, -4.3353603602133028e-05,  1.9968125841549234e-09,  4.3634112462870074e-12],
           [ 3.3458368284287232e-01, -4.2440944499319914e-05,  3.9915568345974880e-09, -4.3586587973540686e-12],
           [ 3.2819296190817876e-01, -4.1528017465582298e-05,  1.7767937860848350e-09, -2.1737884340639547e-15],
           [ 3.2190535173811485e-01, -4.0986602183249029e-05,  1.9973714554239483e-09,  4.3655366038587092e-12],
           [ 3.1572083631423015e-01, -4.0073624647338500e-05,  3.9923433038788853e-09, -4.3626862266330416e-12],
           [ 3.0969089893581320e-01, -3.9160738518081471e-05,  1.3318156282873048e-09,  2.9114737157560733e-12],
           [ 3.0376404028512516e-01, -3.8551937545274113e-05,  2.6630792516197479e-09, -2.9146411016585711e-12],
           [ 2.9794026036216620e-01, -3.7943315253520167e-05,  8.8481826306971342e-10,  1.1666116620819100e-11],
           [ 2.9221954314848586e-01, -3.6860759372635007e-05,  3.3280714512432567e-09, -7.2822618231180259e-12],
           [ 2.8665348407252472e-01, -3.6353771390378808e-05, -1.1087250857212788e-09,  1.4546807901276503e-11],
           [ 2.8113890829585203e-01, -3.5678128789263203e-05,  5.5536856070237630e-09, -1.4575469687824459e-11],
           [ 2.7577895861999796e-01, -3.5000944498812416e-05, -1.1053939489487575e-09,  1.4539276780566270e-11],
           [ 2.7047060437258447e-01, -3.4324811315214953e-05,  5.3212603512933320e-09, -1.3084318135254158e-11],
           [ 2.6531678011528770e-01, -3.3614570858459943e-05,  6.6744348397983653e-10,  1.4538077138596892e-12],
           [ 2.6021456730488185e-01, -3.3309836717398115e-05,  2.2174515467255349e-09,  7.2751034997930542e-12],
           [ 2.5521540118530434e-01, -3.2127048062372102e-05,  2.7747861298193496e-09, -3.6366948035545420e-12],
           [ 2.5037081311119458e-01, -3.1534688252104993e-05,  5.5554082295194276e-10, -2.5465752419898978e-15],
           [ 2.4557782046552531e-01, -3.1365536847705432e-05,  2.3720919532105068e-09, -4.6556457308361908e-12],
           [ 2.4083632713759481e-01, -3.0966915951535133e-05,  7.9376021385330345e-09, -1.4653066166674317e-11],
           [ 2.3624945991048291e-01, -2.9568520613864172e-05,  2.6364476785597386e-08, -1.0596947526022431e-10],
           [ 2.3171412403801034e-01, -2.9346760306494934e-05, -3.8049963028957235e-08,  1.8800193550167034e-10],
           [ 2.2728186689326677e-01, -2.8673845364812984e-05,  1.7576125781815299e-09, -2.5498003200095078e-14],
           [ 2.2295270449470247e-01, -2.8139901682491665e-05, -1.2847589239068431e-09,  1.1497731678132492e-11],
           [ 2.1867504141387689e-01, -2.7730365532996375e-05,  3.3315226982436008e-09, -7.2905680530989124e-12],
           [ 2.1450050511613120e-01, -2.7222904366166537e-05, -1.0340447347932213e-12,  7.2815114460587426e-12],
           [ 2.1037748415457458e-01, -2.6715863631151457e-05,  3.3289354961706531e-09, -7.2826447524973565e-12],
           [ 2.0635752590229658e-01, -2.6208638969478921e-05,  2.8901386651721602e-22,  7.2803816558373444e-12],
           [ 2.0238909900465796e-01, -2.5701361778338207e-05,  3.3295389367159651e-09, -7.2820788463625308e-12],
           [ 1.9852376685319859e-01, -2.5193913757187270e-05,  5.1714290814400219e-13,  7.2764224236240642e-12],
           [ 1.9470998207482887e-01, -2.4686754809419731e-05,  2.9573678785323357e-09, -4.8490628668085822e-12],
           [ 1.9099924398728751e-01, -2.4123218591151293e-05,  7.4010837921975089e-10, -5.0309274142654525e-16],
           [ 1.8734005327283582e-01, -2.3897668611298924e-05,  7.3984004742171269e-10,  4.8530849123278549e-12],
           [ 1.8373240993147372e-01, -2.3334015608544731e-05,  3.6774619011377253e-09, -9.5740889102208317e-12],
           [ 1.8022782929939032e-01, -2.2880221694820302e-05,  2.6386674235962869e-09, -7.7377394025079803e-12],
           [ 1.7677478002194627e-01, -2.2615100499023762e-05,  2.6453228934908255e-07, -7.6362701454677109e-09],
           [ 1.7615633969247302e-01, -2.6503397202478130e-05, -8.7129965878907160e-08,  3.9023953087640945e-10],
           [ 1.7229100754101367e-01, -3.0174837272160392e-05, -1.8360934426329058e-09,  1.5375338811044047e-11],
           [ 1.6770414031390177e-01, -2.9663166766042894e-05,  1.3988287031686562e-09,  1.2355154184361138e-12],
           [ 1.6322033579606854e-01, -2.9150716423562402e-05,  1.9981165425308087e-09,  4.3653550130881572e-12],
           [ 1.5883962602441459e-01, -2.8237524437852643e-05,  3.3276423173021867e-09,  3.3939416320635633e-15],
           [ 1.5461352633512898e-01, -2.7223022578917553e-05,  1.3313741477861839e-09, -1.4562347370254680e-12],
           [ 1.5049050537357231e-01, -2.6918686214189749e-05,  4.4368794008099124e-10,  5.8235813644188269e-12],
           [ 1.4641901576665500e-01, -2.6377678820721657e-05,  6.2132587105588303e-09, -1.1647886784701824e-11],
           [ 1.4250213624210600e-01, -2.5295470634649292e-05,  1.3317327330105340e-09,  2.9094830248355183e-12],
           [ 1.3868833544528600e-01, -2.4686833634250972e-05,  2.2185430786065276e-09,  2.2627449112325463e-15],
           [ 1.3497759735774464e-01, -2.4010464041980970e-05,  2.2199225818952592e-09, -2.2630965826983633e-15],
           [ 1.3136995401638255e-01, -2.3333989325433555e-05,  1.4785689114236365e-09,  4.8577366344743938e-12],
           [ 1.2786538940274947e-01, -2.2544847645585094e-05,  1.8489006899574838e-09, -2.4277359776930424e-12],
           [ 1.2446390351684536e-01, -2.2150460754769851e-05,  7.3890135319209693e-10,  2.4291190167717524e-12],
           [ 1.2111393296713027e-01, -2.1755989216431947e-05,  3.7001393185077483e-09, -4.8597486797010478e-12],
           [ 1.1786705716359447e-01, -2.0966800821635935e-05,  1.4783391415860396e-09,  4.8569817414611219e-12],
           [ 1.1472324406933734e-01, -2.0177781774525826e-05,  1.4796800988257965e-09, -2.0112246537360120e-15],
           [ 1.1168250970280919e-01, -1.9726915417067067e-05,  9.2448873399299635e-10, -1.2128626744701634e-12],
           [ 1.0869330669092037e-01, -1.9529640223116592e-05, -3.3276422369091432e-09,  3.2757475529610719e-11],
           [ 1.0575565105212120e-01, -1.8261453782356635e-05,  2.0253202492091301e-20, -6.5061671949667729e-23],
           [ 1.0297260549569033e-01, -1.8261453782355002e-05,  7.6699833806491025e-21, -3.0342663151413107e-23],
           [ 1.0018955993925947e-01, -1.8261453782354768e-05, -1.5646002918829335e-07,  6.9372747452484198e-10],
           [ 9.6228133104405228e-02, -1.7613427192785824e-05,  1.7271690127445081e-07, -7.4093648219291253e-10],
           [ 9.4932705009584686e-02, -1.6595754416303096e-05, -8.2141060745883588e-09,  4.0423633446546395e-11],
           [ 9.2355816908611776e-02, -1.6282805121565216e-05, -3.7772932974093800e-09,  2.6953457856982447e-11],
           [ 8.9881991516917545e-02, -1.5556080488546483e-05,  1.7244527840886134e-12, -6.7891138575119292e-15],
           [ 8.7511260871402582e-02, -1.5556027922325105e-05, -2.0683576179189875e-12,  1.1309331250425436e-14],
           [ 8.5140514207437346e-02, -1.5555870354286898e-05,  7.3938039454585521e-09, -1.9403293355883398e-11],
           [ 8.2872846271201062e-02, -1.4654207615791162e-05,  7.3972509403253013e-10, -7.1480312231694343e-24],
           [ 8.0656725708054419e-02, -1.4428739407130543e-05, -1.4766931634750935e-09,  1.9394249405516678e-11],
           [ 7.8492136499547116e-02, -1.3527496937139766e-05,  4.9009255670023268e-12, -1.4067591701294914e-14],
           [ 7.6430610000318477e-02, -1.3526983326552842e-05, -3.7009112453581509e-12,  2.9312053425444513e-14],
           [ 7.4369115537990457e-02, -1.3526068980146519e-05,  4.1619627793008056e-08, -5.0674220544184964e-10],
           [ 7.3905269272435223e-02, -1.2515274875528344e-05, -7.5403032914592273e-12,  4.2477745045966664e-12],
           [ 7.2462199121130139e-02, -1.2346067351152170e-05,  1.2404176469365226e-09, -7.4076145838061985e-13],
           [ 7.0606846095809764e-02, -1.2019602295914716e-05,  1.2988062010900938e-09, -6.2154997083520145e-13],
           [ 6.8803024425128742e-02, -1.1667034077174329e-05,  1.1097025051480685e-09, -2.2620417862426019e-15],
           [ 6.7050734109087046e-02, -1.1328954366524094e-05, -2.0786766553353367e-21,  7.2815125009707065e-12],
           [ 6.5349975147684675e-02, -1.0821598381171078e-05,  1.7247474394613826e-12, -6.7903442498772349e-15],
           [ 6.3700779577822261e-02, -1.0821545810869127e-05, -1.0342055009462951e-12,  4.5240835561468469e-15],
           [ 6.2051567989509539e-02, -1.0821545810869126e-05,  4.2715585276975514e-09, -1.3472360386524777e-11],
           [ 6.0453887755836155e-02, -1.0458292198539714e-05,  1.0682319489080253e-08, -4.2056311065577281e-11],
           [ 5.8959286249891753e-02, -1.0132690580151337e-05, -1.6903915073499484e-07,  7.4660175064834171e-10],
           [ 5.6131677364705326e-02, -9.6346444957625865e-06,  1.4225158396571888e-07, -5.6423215894943650e-10],
           [ 5.5970099256453236e-02, -5.5905238271353595e-06, -2.9911443541818728e-08,  2.9285099107270253e-11],
           [ 5.4527045123598468e-02, -1.2667025768356738e-05, -2.5570597292120244e-07,  1.1707544576321967e-09],
           [ 5.0801634135575424e-02, -9.0312201590517444e-06,  3.0272237264237759e-07, -1.3167292254832253e-09],
           [ 5.1795530921806950e-02, -8.5075519058315983e-06, -2.1745844968579155e-09,  1.0734950141226603e-11],
           [ 5.0486471125774694e-02, -8.4223831336975974e-06, -4.3761191627649577e-10,  2.9520093333006162e-12],
           [ 4.9203185016287274e-02, -8.3500792648996820e-06,  5.8799778695317763e-10,  3.8618511932405138e-13],
           [ 4.7945656574894358e-02, -8.1439492107453759e-06,  9.7793523908544836e-10, -8.5611813629948338e-13],
           [ 4.6724201683594015e-02, -7.9055265329681435e-06,  5.6351827944271697e-10,  3.3643281571147003e-13],
           [ 4.5533678419837513e-02, -7.7103244378924866e-06,  6.0514694300335636e-10,  3.9744834006560330e-13],
           [ 4.4374086783624853e-02, -7.4981825303887682e-06,  6.5524153346655740e-10, -3.3096682073050296e-13],
           [ 4.3245410756505738e-02, -7.3215257788269119e-06,  4.4361661758894677e-10,  7.2856603382511001e-13],
           [ 4.2142492397481135e-02, -7.1355469342484753e-06,  7.2670317935959076e-10, -3.9767488423971998e-13],
           [ 4.1070505666000387e-02, -6.9417567094378031e-06,  3.5190867157608745e-10,  9.9935738902037372e-13],
           [ 4.0024292621064460e-02, -6.7648624417265694e-06,  6.3403850804537955e-10, -1.1911967463481347e-12],
           [ 3.9003837244223037e-02, -6.6546068537047280e-06, -2.3391676659108609e-11,  3.3942927884352837e-12],
           [ 3.8001146328772675e-02, -6.4252315477286458e-06,  1.5272094265827925e-09, -3.3919452994666406e-12],
           [ 3.7045405491173689e-02, -6.1960796368818342e-06,  2.8269947818298148e-11,  1.5915758023469228e-12],
           [ 3.6107413096515453e-02, -6.0765662839654619e-06,  7.8908399139947609e-10, -1.2648532248480418e-12],
           [ 3.5195194388402039e-02, -5.9241850156935416e-06,  3.0258915537749700e-10,  1.1908022904988719e-12],
           [ 3.4303591425834418e-02, -5.7489839765147443e-06,  7.9873756009253790e-10, -8.7396237907626669e-13],
           [ 3.3442904072360342e-02, -5.5664240895949036e-06,  4.1485949003909272e-10, -3.9100501361019004e-13],
           [ 3.2602832464432054e-02, -5.4672190828457111e-06,  1.4643230380245157e-11,  3.7925816620756444e-12],
           [ 3.1783392620499874e-02, -5.1984990518345006e-06,  1.4337466125713647e-09, -5.3859623035296838e-12],
           [ 3.0989710444662207e-02, -5.1431934482860872e-06, -1.1859773170917597e-09,  6.4639240388696157e-12],
           [ 3.0216644014370336e-02, -5.0648963620037436e-06,  1.3917711716641032e-09, -3.6448806665238969e-12],
           [ 2.9464177311173952e-02, -4.8946498796484917e-06, -1.9619684550811468e-10,  2.9158361714964172e-12],
           [ 2.8723996759363445e-02, -4.7512831448038770e-06,  1.0614074134428978e-09, -2.4262488675395723e-12],
           [ 2.8015965237320157e-02, -4.5968205868797171e-06,  8.1639693554506145e-11,  8.1871387602775330e-13],
           [ 2.7320203848212446e-02, -4.5148910523044320e-06,  6.0583598436843732e-10, -3.2411754869574038e-13],
           [ 2.6645058204650525e-02, -4.3528158734623220e-06,  3.8024105505311148e-10,  2.2187817244757221e-15],
           [ 2.5990528306634401e-02, -4.2367638012066601e-06,  2.3820807247929080e-10,  3.0912051165883622e-13],
           [ 2.5351472231615352e-02, -4.1426193042703760e-06,  3.3173831977596345e-10,  4.5254898715528878e-15],
           [ 2.4727857942692767e-02, -4.0411901405777398e-06,  3.8129708866418373e-10, -3.1613779248802313e-13],
           [ 2.4119717476767263e-02, -3.9469984094386692e-06,  2.2695769171050260e-10,  1.0036747220558057e-12],
           [ 2.3527018796938217e-02, -3.8078883803677040e-06,  4.5746233308101682e-10, -6.6946353348809171e-13],
           [ 2.2954951881105277e-02, -3.7151002593172494e-06,  1.5803631271804816e-10,  2.1011202977328090e-13],
           [ 2.2393184828820075e-02, -3.6522907564709047e-06,  3.5615315661645629e-10,  5.7745250766988557e-13],
           [ 2.1846891599531952e-02, -3.5034999542705902e-06,  4.1359638416146610e-10, -3.8597504500075818e-13],
           [ 2.1321198097339320e-02, -3.4043294676617072e-06,  1.1852771557654546e-10,  1.9473761656432553e-13],
           [ 2.0805820477144743e-02, -3.3546334325180921e-06,  2.0037624697281357e-10,  4.3239455844165410e-13],
           [ 2.0300758738948210e-02, -3.2634306757217639e-06,  4.4294849923915916e-10, -7.2350786587274877e-13],
           [ 1.9811138786848145e-02, -3.1788320333062867e-06,  1.1216070296238539e-10,  7.2350786586862771e-13],
           [ 1.9331850735196436e-02, -3.0942333908910195e-06,  3.9790134327443604e-10, -4.3130731554300261e-13],
           [ 1.8868004469641191e-02, -3.0030053820521088e-06,  1.7804919692632012e-10, -2.1729110068491395e-15],
           [ 1.8414474086083994e-02, -2.9488873893576043e-06,  1.9904299186514204e-10,  4.3987761556456021e-13],
           [ 1.7971243566074543e-02, -2.8575696096516878e-06,  3.9998966769494589e-10, -4.3879251053411321e-13],
           [ 1.7543486869062170e-02, -2.7662266275566557e-06,  1.3288171741840722e-10,  2.9094361041011716e-13],
           [ 1.7126030035597543e-02, -2.7054521206807673e-06,  2.2190590425674120e-10,  2.2611119175332959e-24],
           [ 1.6718873065680658e-02, -2.6378152010631568e-06,  2.2242356966420649e-10, -1.1322515467905882e-15],
           [ 1.6322031977761824e-02, -2.5700993892375614e-06,  2.2207845939213861e-10,  1.3493732411085797e-24],
           [ 1.5935506771841041e-02, -2.5024098748147445e-06,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_dT = \
    np.array([[-7.4730242053074629e-03,  5.3819552083536147e-06,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-7.4730242053074629e-03,  5.3819552083536147e-06, -4.5338940901246941e-23, -7.7241178305949724e-11],
           [-6.9262175561387350e-03,  1.7074049960401638e-20, -4.6681020232951386e-23,  6.1261181408111032e-26],
           [-6.9262175561387333e-03,  7.1141874835018031e-21,  1.8672408093162959e-23, -1.8378354422414124e-25],
           [-6.9262175561387324e-03, -3.5993517636004166e-36, -1.9619259289731890e-08,  7.7241178306031447e-11],
           [-7.1084864391951644e-03, -5.9799502315100213e-07,  3.9238518579461253e-09,  5.4704320585481407e-25],
           [-7.1084864391951644e-03,  5.9799502315101484e-07,  1.5695407431783396e-08, -7.7241178306020435e-11],
           [-6.9262175561387446e-03,  7.9678899815205495e-20, -3.3610334567714582e-22,  7.3513417689651178e-25],
           [-6.9262175561387376e-03,  2.8456749933999262e-20,  3.5226572965744207e-35, -7.3513417689683872e-25],
           [-6.9262175561387359e-03, -2.2765399947200622e-20, -1.9619259289725464e-08,  7.7241178306017256e-11],
           [-7.1084864391950725e-03, -5.9799502315005282e-07,  3.9238518579382100e-09,  1.3106063997487532e-23],
           [-7.1084864391950673e-03,  5.9799502315042551e-07,  1.5695407431689961e-08, -7.7241178305513813e-11],
           [-6.9262175561391141e-03,  6.3117071353353720e-18, -4.9575243487009806e-20,  1.0843229109093717e-22],
           [-6.9262175561389198e-03, -1.2435599721204802e-18, -2.0219736948947376e-31, -1.0843229109074897e-22],
           [-6.9262175561394931e-03, -8.7988270795537215e-18, -1.9619259289524618e-08,  7.7241178305264844e-11],
           [-7.1084864391951653e-03, -5.9799502315004181e-07,  3.9238518579527601e-09, -5.4944962163699858e-23],
           [-7.1084864391950612e-03,  5.9799502315013159e-07,  1.5695407431783899e-08, -7.7241178306010444e-11],
           [-6.9262175561387290e-03,  4.5530799894416494e-20, -1.4937926474561725e-22,  7.6495682969996387e-37],
           [-6.9262175561387255e-03,  5.6333450873299040e-33,  8.3523889965107616e-23, -5.4805702076866498e-25],
           [-6.9262175561387255e-03, -1.2729040830693675e-20, -5.4451311965551072e-21,  2.3534938614368847e-23],
           [-6.9262175561387706e-03, -3.2554521924499081e-20,  3.1907410949629700e-21, -1.0468310679014883e-23],
           [-6.9262175561387385e-03,  2.1057994951150509e-19, -1.7925511769440243e-21, -1.7911184305169885e-36],
           [-6.9262175561387480e-03, -3.3578964922115869e-19, -1.9619259289719005e-08,  7.7241178305992763e-11],
           [-7.1084864391950690e-03, -5.9799502315010406e-07,  3.9238518579383341e-09,  1.2499997079154954e-23],
           [-7.1084864391950707e-03,  5.9799502315037162e-07,  1.5695407431695265e-08, -7.7241178305542092e-11],
           [-6.9262175561391028e-03,  5.9019299362889287e-18, -3.0846818169826514e-20,  3.2462363110129382e-34],
           [-6.9262175561389198e-03, -3.5001802418515530e-18, -2.8128046257410558e-20,  1.8456723265884879e-22],
           [-6.9262175561394532e-03,  7.8653400768547080e-19,  7.0295267789688899e-20, -3.0864072817762882e-22],
           [-6.9262175561387931e-03,  7.0728519334610622e-19,  1.8242248778272480e-22, -1.2536127192985335e-23],
           [-6.9262175561387255e-03, -1.1059567691896833e-19, -6.9720364092080648e-22,  3.9456109115778061e-24],
           [-6.9262175561387446e-03, -4.8183910414566894e-20,  1.5174985273210490e-22,  9.8676336575936486e-26],
           [-6.9262175561387480e-03,  4.9449434311543103e-21,  2.1011050680591453e-21, -6.8933893309046850e-24],
           [-6.9262175561387229e-03,  1.6504914961712235e-19, -3.8838608833812035e-21,  5.5765145579753777e-36],
           [-6.9262175561387879e-03, -1.0187516476370771e-18, -1.9619259289704791e-08,  7.7241178305939320e-11],
           [-7.1084864391950716e-03, -5.9799502315018993e-07,  3.9238518579306239e-09,  4.2690596098826949e-23],
           [-7.1084864391951583e-03,  5.9799502315004308e-07,  1.5695407431660067e-08, -7.7241178305359737e-11],
           [-6.9262175561394124e-03,  7.5694954824153517e-18, -2.8307370668912052e-20, -1.0005386566026784e-33],
           [-6.9262175561389163e-03, -1.0585910975387868e-18,  4.4609182756672706e-21, -2.9271117294668129e-23],
           [-6.9262175561390776e-03, -1.7384350427688302e-18, -2.4168044744596296e-20,  1.1483075982158796e-22],
           [-6.9262175561394974e-03, -1.1037600762202167e-18,  8.9150114322117620e-20, -3.7841737816273621e-22],
           [-6.9262175561389345e-03, -2.9789884594956608e-19, -2.0841019408421588e-20,  9.6403616357755235e-23],
           [-6.9262175561391227e-03,  6.6900208335408576e-20,  1.4206560532594412e-21, -1.9512995479684278e-25],
           [-6.9262175561390802e-03,  4.8632004887212077e-19,  1.0885192255335624e-20, -4.5805469921895550e-23],
           [-6.9262175561389154e-03,  6.1252609501893307e-19, -7.7056428728312652e-20,  3.3883627923216285e-22],
           [-6.9262175561394124e-03,  7.3491692084691648e-19,  4.9093166802215292e-20, -2.0870948245907126e-22],
           [-6.9262175561388990e-03,  1.1562051142063732e-18, -1.2256007384978711e-21, -1.9930172912922990e-23],
           [-6.9262175561388218e-03, -6.0603822938992128e-19, -2.1298093645186746e-20,  1.0384831989376632e-22],
           [-6.9262175561390412e-03,  1.3817129032471342e-19,  1.1911429669545860e-20, -5.3722494919444377e-23],
           [-6.9262175561389337e-03,  2.5537732801597400e-20,  1.0045975553046607e-22, -1.5136834944320316e-24],
           [-6.9262175561389328e-03, -4.9311482385636299e-20, -1.2515848396169993e-22,  4.9394015409587312e-25],
           [-6.9262175561389415e-03, -5.3043381876981217e-20,  1.4732648990242556e-21, -5.6679625909641480e-24],
           [-6.9262175561389354e-03,  1.0795428654782334e-21, -2.7355475085920102e-20,  1.1647489311957952e-22],
           [-6.9262175561391583e-03, -2.2121552245992530e-19,  4.7569809958469035e-20, -2.0827106498528121e-22],
           [-6.9262175561388244e-03, -2.3369875799616419e-19, -1.0528221334467869e-20,  4.7779142256640787e-23],
           [-6.9262175561389354e-03, -1.1357994756616558e-19,  7.8884399024269992e-22,  4.4925003158476240e-25],
           [-6.9262175561389328e-03,  1.5816222090054902e-19,  9.0341802033090257e-21, -3.8644164297021165e-23],
           [-6.9262175561388356e-03,  2.1916009077959880e-19, -4.1600657153853676e-20,  1.8193421932643413e-22],
           [-6.9262175561391245e-03,  2.1596133187432776e-19,  2.1370894412366927e-20, -9.6107569491656181e-23],
           [-6.9262175561389354e-03,  3.3295919174116486e-20,  5.2782763282415860e-23, -1.2898313047562559e-24],
           [-6.9262175561389337e-03, -4.0487831551669757e-20, -3.1125604313548741e-22,  1.8252342498636693e-24],
           [-6.9262175561389406e-03, -8.1813156060258086e-21,  1.1691384362131007e-21, -4.1336788223267399e-24],
           [-6.9262175561389293e-03,  6.0148583018397369e-20, -1.6741891493913158e-21,  6.1903547383437266e-24],
           [-6.9262175561389371e-03, -1.8817189313173948e-20,  1.6380493750369305e-20, -6.7466212531044109e-23],
           [-6.9262175561387983e-03,  2.7309512473427905e-19, -5.8496502120481998e-20,  2.5666096414688356e-22],
           [-6.9262175561392069e-03,  3.2679914234368517e-19,  3.0126039252945076e-20, -1.3529401529210428e-22],
           [-6.9262175561389363e-03,  8.2296920809136116e-20, -2.3217335190970164e-22, -5.9541736575817726e-26],
           [-6.9262175561389293e-03,  7.3817768959797090e-21, -1.1551227160139637e-21,  5.0563157090809280e-24],
           [-6.9262175561389371e-03,  7.6106984849530873e-21,  3.4107973693889736e-20, -1.1190280083317495e-22],
           [-6.9262175561385399e-03,  2.6066382939451279e-18,  7.0114892387421663e-20, -6.4410006130782365e-22],
           [-6.9262175561387940e-03, -2.0901482826130986e-17, -1.6185888913751275e-08,  5.4712501299198653e-11],
           [-7.1084864391951757e-03, -1.1212406684076684e-06,  2.7854503930083010e-10,  6.3970317424328945e-12],
           [-7.2502511260166842e-03, -5.9061236854239319e-07,  4.9605238302854363e-08, -2.0851939493285554e-10],
           [-6.9262175561389337e-03,  4.9415764885383135e-19, -1.1787972413602894e-20,  5.4847402067585300e-23],
           [-6.9262175561389380e-03,  7.2280144832342795e-19,  2.8954922530540166e-21, -1.8999292999031667e-23],
           [-6.9262175561388278e-03,  2.8152842895872689e-19, -5.3899577041542370e-21,  2.4716057733963622e-23],
           [-6.9262175561388226e-03,  3.6081699595806014e-19,  1.6777003772407425e-21, -6.9401618937552335e-24],
           [-6.9262175561387532e-03,  3.8860846742452590e-19,  4.6967996703090333e-22, -8.7866638161252920e-24],
           [-6.9262175561387142e-03, -8.0463913606495479e-20, -6.1745272406916923e-21,  1.8985134025076106e-23],
           [-6.9262175561388027e-03, -6.3962731726656953e-19, -3.1081441036894012e-21,  1.0197323174851870e-23],
           [-6.9262175561389363e-03, -8.7646789796645709e-19, -5.2615320080386462e-09,  3.4524488241867818e-11],
           [-6.9262175561385590e-03,  8.0185747803426790e-07,  5.1723434155471196e-09, -1.6969630628417742e-11],
           [-6.7439486730825355e-03,  1.1959900463001931e-06,  7.5856838009040085e-09, -4.9774828089885363e-11],
           [-6.5616797900262588e-03,  3.9931835044883012e-08, -5.2403982998631362e-10,  1.7192907807962212e-12],
           [-6.5616797900262657e-03,  1.1382699973577559e-20,  1.2078063227588274e-22, -7.9252383383023863e-25],
           [-6.5616797900262640e-03, -7.0242683851962313e-21, -8.6955403551418087e-21,  3.6530984115514883e-23],
           [-6.5616797900263377e-03, -1.1204535974014222e-19,  2.1893357897059374e-20, -9.6195236929530443e-23],
           [-6.5616797900261868e-03, -1.4157233092166296e-19, -7.2156174135010250e-21,  3.2858301551724183e-23],
           [-6.5616797900262596e-03, -5.1415441012832135e-20, -1.0949781953508906e-22,  1.2169013544605586e-24],
           [-6.5616797900262657e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.5616797900262657e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.5616797900262657e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.5616797900262657e-03,  0.0000000000000000e+00,  3.1190873367596054e-08, -1.3644301560627780e-10],
           [-6.3202025436841919e-03,  1.9723590016691972e-19, -7.5656517812986337e-09,  3.0577867808117604e-11],
           [-6.3876869572210612e-03, -1.7542800587043477e-07,  1.1540851595888561e-10,  6.0078811042419206e-12],
           [-6.3876869572210204e-03,  3.3221245843956436e-07,  2.3216324325036325e-08, -1.1343715952831605e-10],
           [-6.1971420239136368e-03,  1.6618741961448649e-18, -5.5643776117691703e-21,  5.3169682298495347e-35],
           [-6.1971420239135128e-03, -3.4148099918669382e-20,  3.9610823676704714e-21, -2.5991354118664257e-23],
           [-6.1971420239135180e-03, -6.3781705275805560e-19, -5.3863217763458502e-20,  2.3533824287126046e-22],
           [-6.1971420239140332e-03, -6.5759718381143200e-19,  5.8102414845485106e-21,  1.0527036810450496e-23],
           [-6.1971420239139612e-03,  1.8468597120910128e-18,  2.5054680068209402e-22, -1.0321125694564961e-24],
           [-6.1971420239136776e-03,  1.8513115804453743e-18,  4.7014597524773995e-23, -1.6035905534187052e-24],
           [-6.1971420239134000e-03,  1.7539078017750147e-18, -7.1489258083149826e-20,  2.8771467266514345e-22],
           [-6.1971420239137747e-03,  1.1157745428668413e-20,  4.3347042008992384e-22, -1.8544296302712798e-24],
           [-6.1971420239137695e-03,  1.4067916883369057e-20, -2.5930796417599107e-22,  8.5074791396498661e-25],
           [-6.1971420239137704e-03, -5.6913499867188511e-21, -1.4083663804491022e-20,  1.9802676890295125e-22],
           [-6.1971420239133974e-03,  9.4995745467505897e-18,  1.7812624414411744e-08, -6.5386618757197519e-11],
           [-6.0148731408573262e-03,  8.7332617812370456e-07, -1.2081197832691609e-09,  3.9087971850233421e-12],
           [-5.8960021301677906e-03,  7.7744562410734965e-07, -2.1553616955631044e-08,  1.2664261724393713e-10],
           [-5.8298536060340063e-03,  3.0320162776696189e-06,  3.5757115573520394e-06, -5.9715979759035019e-08],
           [-4.1937973092746710e-03,  5.9902045765619901e-05,  4.3587973158275421e-07, -3.2869077507142294e-09],
           [ 3.6598949898955296e-03,  1.7253667314925895e-05, -1.8121501666949167e-07,  5.4509403590287582e-10],
           [ 4.0099154272381071e-03, -2.4417641623803614e-19, -1.2965890497422142e-20,  8.2113734007893057e-23],
           [ 4.0099154272380593e-03,  1.5252817964610746e-18,  1.0376237099539601e-20, -6.8085545272506136e-23],
           [ 4.0099154272382918e-03, -5.6056737504402249e-20, -4.9611082153409306e-21,  2.2224436582860205e-23],
           [ 4.0099154272382467e-03, -1.9664230914146653e-20, -7.8042572525662894e-23,  6.2361227390001594e-25],
           [ 4.0099154272382441e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.0099154272382441e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 4.0099154272382441e-03,  0.0000000000000000e+00, -2.1581185218678479e-08,  9.0114708023597114e-11],
           [ 3.8276465441820537e-03, -2.9899751157472026e-07,  5.2972000082240731e-08, -2.3172353491797109e-10],
           [ 4.1921843102946527e-03, -2.9899751157676277e-07, -1.9619259289619605e-08,  9.0114708023157222e-11],
           [ 4.0099154272387055e-03, -4.9818283551053137e-18, -8.8631697083232432e-21,  1.1631456310041191e-22],
           [ 4.0099154272381522e-03,  4.2115989902295741e-19, -4.6323186627986229e-22,  3.0395791750772074e-24],
           [ 4.0099154272382163e-03,  4.9175643544487505e-19,  1.2639533706705695e-21, -7.6575655784708127e-24],
           [ 4.0099154272382935e-03,  3.4345108189578519e-19, -1.1294898077326952e-20,  4.4623314194274350e-23],
           [ 4.0099154272382415e-03,  9.9973055689191967e-21,  1.3320306278680387e-22, -5.6934207437029246e-25],
           [ 4.0099154272382441e-03,  1.0927391974656952e-20, -2.1809372652831147e-22,  9.6057532447840700e-25],
           [ 4.0099154272382441e-03,  1.1382699973601080e-20,  1.0313525831891607e-20, -4.0719134195488793e-23],
           [ 4.0099154272383412e-03,  3.1774685883755117e-19, -8.1284567997172744e-21,  2.6668165353423759e-23],
           [ 4.0099154272382953e-03, -3.0164154929945644e-19,  8.1038251124403252e-21, -4.8592379642730847e-35],
           [ 4.0099154272384375e-03,  2.1684043449689343e-18,  2.3543111147603439e-08, -1.0298823774107209e-10],
           [ 4.1921843102945347e-03,  3.8132044911574869e-19, -1.6058270960152519e-21,  8.1761239467116620e-36],
           [ 4.1921843102945555e-03, -1.0813564974913509e-19, -9.2160511597385858e-22,  6.0472776638672393e-24],
           [ 4.1921843102945390e-03,  3.2316969925048358e-20,  5.5857782725061429e-21, -2.6526414174406243e-23],
           [ 4.1921843102945798e-03, -1.1342620044117127e-19, -2.7608101934991220e-22,  5.6907494609786516e-25],
           [ 4.1921843102945581e-03, -1.5792410077877864e-19, -1.6819421030498753e-22,  5.5181827527899730e-25],
           [ 4.1921843102945321e-03, -1.7074049960400685e-19,  2.2033441549938727e-21,  6.5321923316654274e-36],
           [ 4.1921843102945573e-03,  5.0083879883858724e-19,  2.3543111147609381e-08, -1.0298823774104807e-10],
           [ 4.3744531933506232e-03,  2.3676015945065187e-18, -1.2443292753261323e-20,  2.3328257880086707e-23],
           [ 4.3744531933507776e-03,  2.0033551953546998e-19, -3.1009136805043386e-21, -2.9810552522137220e-24],
           [ 4.3744531933507256e-03, -9.5253479178619896e-19, -1.0776641724122651e-08,  3.6383459625184730e-11],
           [ 4.2529406046466931e-03, -7.4961989384082774e-07,  3.7486262518990182e-08, -1.7192785816463379e-10],
           [ 4.4007886213210268e-03, -1.3032725911902142e-06, -1.8973255885740371e-06,  3.2088172364034390e-08],
           [ 3.3849935424739427e-03, -1.1313399585934780e-05,  9.0225160611571026e-09,  2.2917666749733544e-10],
           [ 2.5517643627879357e-03,  2.7036418390189672e-19,  4.5370663014337617e-21, -2.3645737069416128e-23],
           [ 2.5517643627879986e-03,  5.6913499868020783e-21, -8.2582093525515999e-23,  5.4187725410438112e-25],
           [ 2.5517643627879995e-03,  1.8276861040086191e-20,  3.4129290917491206e-22, -1.6786307733714560e-24],
           [ 2.5517643627880043e-03,  5.3405133437786738e-21, -5.8552329738068409e-21,  2.1404660935467730e-23],
           [ 2.5517643627879449e-03, -2.8791594376688788e-19,  2.3861144043727889e-21, -3.2605129588664553e-24],
           [ 2.5517643627879449e-03,  2.1218805230736787e-19,  2.3602311774250508e-20, -1.1279235725598761e-22],
           [ 2.5517643627881261e-03, -4.5289197728663810e-19, -2.5626133804786598e-21,  1.0217339836342597e-23],
           [ 2.5517643627880338e-03, -5.2206008702453003e-19, -6.9753885028124929e-22,  5.7357674821293233e-24],
           [ 2.5517643627879583e-03, -3.3501725172304339e-19,  6.8274956946167435e-21, -2.6944831614609786e-23],
           [ 2.5517643627879704e-03, -1.3143914096789414e-19, -2.3643342625911140e-21,  1.2229068416644272e-23],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00, -7.2402262381298323e-21,  3.0232393024880415e-23],
           [ 2.5517643627878776e-03, -1.0031004351736228e-19,  1.7771464402681561e-20, -7.7740439206830234e-23],
           [ 2.5517643627879999e-03, -1.0031004351736228e-19, -6.5820238528452939e-21,  3.0232393024880415e-23],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00,  4.7787125793820387e-21, -1.7143787667804504e-23],
           [ 2.5517643627879891e-03,  2.6201910060549728e-19, -5.3259079839703837e-21,  2.3297935187971707e-23],
           [ 2.5517643627879878e-03,  2.6201910060549733e-19,  1.8971485356460435e-20, -7.9650970386016870e-23],
           [ 2.5517643627881864e-03,  4.9466487139650819e-19, -1.3053132807150788e-21, -1.2733065674299686e-23],
           [ 2.5517643627881864e-03, -7.9039999881203648e-19, -1.0488217188822556e-22,  1.6807603578666613e-25],
           [ 2.5517643627880641e-03, -8.1065700379677006e-19, -3.8228212846199167e-22,  2.0028075327432601e-24],
           [ 2.5517643627879388e-03, -7.8762641530692613e-19,  1.8024364854226142e-20, -7.0145755800572491e-23],
           [ 2.5517643627879891e-03, -1.8136547546695213e-19, -3.5375802942598783e-21,  1.7666338497923311e-23],
           [ 2.5517643627879418e-03, -2.8677535062800885e-20,  3.7419685505093750e-23,  1.3153713971137004e-25],
           [ 2.5517643627879388e-03, -8.1068648067797648e-21, -1.2435113212158609e-23,  4.3064149721311877e-25],
           [ 2.5517643627879388e-03,  1.8108840867092520e-20,  3.0300225860293739e-21, -1.2085160332318447e-23],
           [ 2.5517643627879691e-03,  9.9598624769011022e-20, -6.5353428326122097e-22,  0.0000000000000000e+00],
           [ 2.5517643627879691e-03, -9.9598624769011010e-20, -2.6141371330449452e-21,  1.2864848095693811e-23],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00, -3.8937884280735839e-09,  1.5480692331319730e-11],
           [ 2.5158240196501611e-03, -8.8333150590975406e-08,  2.2807578101746130e-08, -1.0180681924467362e-10],
           [ 2.6722133839762979e-03, -8.8333150590976954e-08, -1.4398801988178453e-08,  6.4254632163997083e-11],
           [ 2.5517643627879392e-03, -4.0696822826799663e-21, -2.6093203073386293e-24,  6.9821943571194185e-26],
           [ 2.5517643627879388e-03, -2.3975526018362057e-33, -1.9080102592996857e-23,  1.2519752357619689e-25],
           [ 2.5517643627879388e-03,  2.9078076351775439e-21,  1.0775964941978089e-20, -4.2163396002411517e-23],
           [ 2.5517643627880403e-03,  3.4959117293922840e-19, -2.1259254783624925e-21, -3.6709584859138356e-25],
           [ 2.5517643627880429e-03, -3.2396915309480541e-19, -9.1925701381800252e-21,  4.4862034384983543e-23],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00,  3.2676714163061818e-21, -1.2864848095693811e-23],
           [ 2.5517643627879691e-03,  9.9598624769011022e-20, -6.5353428326122097e-22,  0.0000000000000000e+00],
           [ 2.5517643627879691e-03, -9.9598624769011010e-20, -2.6141371330449452e-21,  1.2864848095693811e-23],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.5517643627879388e-03,  0.0000000000000000e+00,  5.7574653833494690e-21, -2.3075960709764673e-23],
           [ 2.5517643627879908e-03,  1.4700527320166688e-19, -1.1467972426388433e-21,  3.3785338446159151e-25],
           [ 2.5517643627879878e-03, -1.7899782148657753e-19, -3.7002789823953010e-21,  1.8509451967539111e-23],
           [ 2.5517643627879401e-03, -1.7154587931912806e-20,  7.9227857556851990e-23, -1.4883312924753503e-25],
           [ 2.5517643627879388e-03, -3.3762245684409696e-21, -9.4077375347562182e-24,  2.0709607645725005e-25],
           [ 2.5517643627879388e-03,  8.1861883371788019e-21,  3.3698653272322753e-21, -1.3887873407344153e-23],
           [ 2.5517643627879691e-03,  6.7651896069516924e-20, -1.5236913529170266e-21,  7.0851789614220170e-24],
           [ 2.5517643627879691e-03,  9.6906770045523227e-20,  1.0430424972369346e-22, -4.4598919221600683e-25],
           [ 2.5517643627879848e-03,  9.7623391538296882e-20, -1.0024322360739897e-22,  3.7524178017333301e-25],
           [ 2.5517643627879986e-03,  9.3215083567597694e-20,  2.7311638922849775e-21, -1.2010146763180492e-23],
           [ 2.5517643627880338e-03,  8.8839479076830032e-20, -1.0306221381738235e-20,  4.2482192645081499e-23],
           [ 2.5517643627879583e-03, -9.2453166131739591e-20,  9.3699253560000343e-22,  1.2630115665323363e-24],
           [ 2.5517643627879704e-03,  2.8114536928365806e-19,  4.0902180107646294e-22,  1.9967993438378094e-24],
           [ 2.5517643627880299e-03,  5.4494676123616128e-19,  0.0000000000000000e+00,  0.0000000000000000e+00]])
