from aviary_ref.subsystems.atmosphere.data.MIL_SPEC_210A_Tropical import DATA_ORIGIN_NOTE

"""
See MIL_SPEC_210A_Tropical for source note
"""

from collections import namedtuple
import numpy as np

atm_data = namedtuple('MIL_SPEC_210A_Polar', ['alt', 'temp', 'pres', 'rho'])
atm_data.__doc__ = """
    A namedtuple to hold data for the 1976 standard atmosphere model.

    Parameters
    ----------
    alt : float
        Geopotential Altitude in meters.
    temp : float
        Temperature in degK.
    pres : float
        Pressure in pascal.
    rho : float
        Density in kg/m^3.
    """

# turn off ruff formatting
# fmt: off

# _raw_data Units: (Geopotential Altitude in ft, Temp in degF, pressure in inHG60, density in lbm/ft^3)
_raw_data = np.array([
    0,-15.7,29.92,0.089411691,
    500,-14.2,29.38,0.087513417,
    1000,-12.7,28.86,0.085647322,
    1500,-11.2,28.33,0.083813399,
    2000,-9.6,27.82,0.082011655,
    2500,-8.1,27.32,0.080274254,
    3000,-6.6,26.82,0.078536853,
    3243,-5.8,26.58,0.077700332,
    3500,-5.9,26.33,0.076992497,
    4000,-6.2,25.84,0.075609013,
    4500,-6.5,25.37,0.074257709,
    5000,-6.7,24.9,0.072938569,
    5500,-7,24.43,0.071619436,
    6000,-7.3,23.98,0.070332475,
    6500,-7.5,23.53,0.069045514,
    7000,-7.8,23.09,0.067790724,
    7500,-8.1,22.65,0.066568106,
    8000,-8.4,22.22,0.065345496,
    8500,-8.6,21.8,0.064155057,
    9000,-8.9,21.39,0.062964618,
    9500,-9.2,20.98,0.061806351,
    9882,-9.4,20.67,0.060905475,
    10000,-9.7,20.58,0.060680259,
    10500,-11.1,20.18,0.059715033,
    11000,-12.5,19.79,0.058717642,
    11500,-14,19.41,0.057784591,
    12000,-15.4,19.03,0.056819368,
    12500,-16.8,18.66,0.055886324,
    13000,-18.2,18.29,0.054985452,
    13500,-19.6,17.93,0.054052401,
    14000,-21,17.58,0.053183705,
    14500,-22.4,17.23,0.052282829,
    15000,-23.8,16.89,0.051414128,
    15500,-25.3,16.55,0.050545435,
    16000,-26.7,16.22,0.049676731,
    16500,-28.1,15.89,0.04884021,
    17000,-29.5,15.57,0.048035856,
    17500,-30.9,15.25,0.047199331,
    18000,-32.3,14.94,0.046394978,
    18500,-33.8,14.63,0.045590628,
    19000,-35.2,14.34,0.044818453,
    19500,-36.6,14.04,0.044046272,
    20000,-38,13.75,0.043274097,
    20500,-39.5,13.46,0.042501923,
    21000,-40.9,13.18,0.04176192,
    21500,-42.3,12.91,0.041021913,
    22000,-43.7,12.64,0.04031409,
    22500,-45.2,12.37,0.039606255,
    23000,-46.6,12.11,0.038898423,
    23500,-48,11.85,0.038190596,
    24000,-49.4,11.6,0.03751494,
    24500,-50.9,11.35,0.036839288,
    25000,-52.3,11.1,0.036163632,
    25500,-53.7,10.86,0.035520151,
    26000,-55.2,10.63,0.034876671,
    26500,-56.6,10.4,0.03423319,
    27000,-58,10.17,0.03358971,
    27500,-59.5,9.94,0.032978401,
    28000,-60.9,9.72,0.032367095,
    28500,-62.4,9.51,0.03175579,
    29000,-63.8,9.3,0.03116378,
    29500,-65.2,9.09,0.03057822,
    30000,-66.7,8.89,0.029999083,
    30065,-67,8.86,0.02993474,
    30500,-67.1,8.69,0.0293556,
    31000,-67.2,8.49,0.028699247,
    31500,-67.4,8.3,0.028055768,
    32000,-67.5,8.11,0.02742194,
    32500,-67.6,7.92,0.026800979,
    33000,-67.7,7.74,0.026192892,
    33500,-67.9,7.56,0.025594464,
    34000,-68,7.38,0.025008889,
    34500,-68.1,7.21,0.024432968,
    35000,-68.3,7.04,0.023866711,
    35500,-68.4,6.87,0.023313319,
    36000,-68.5,6.71,0.022766361,
    36500,-68.6,6.55,0.022235477,
    37000,-68.8,6.4,0.02171427,
    37500,-68.9,6.25,0.021205919,
    38000,-69,6.1,0.020707218,
    38500,-69.2,5.95,0.020224612,
    39000,-69.3,5.81,0.019751651,
    39500,-69.4,5.67,0.019288339,
    40000,-69.6,5.54,0.018834688,
    40500,-69.7,5.41,0.0183939,
    41000,-69.8,5.28,0.017962772,
    41500,-70,5.15,0.01754451,
    42000,-70.1,5.03,0.017132681,
    42500,-70.2,4.91,0.016730512,
    43000,-70.3,4.79,0.016337981,
    43500,-70.5,4.68,0.015958332,
    44000,-70.6,4.57,0.015581888,
    44500,-70.7,4.46,0.015218318,
    45000,-70.9,4.35,0.014861191,
    45500,-71,4.25,0.014513711,
    46000,-71.1,4.15,0.014172669,
    46500,-71.3,4.05,0.013841284,
    47000,-71.4,3.96,0.013516321,
    47500,-71.5,3.86,0.013201009,
    48000,-71.6,3.77,0.013179101,
    48500,-71.8,3.68,0.012589699,
    49000,-71.9,3.59,0.012296918,
    49500,-72,3.51,0.012007352,
    50000,-72.2,3.42,0.01172744,
    50500,-72.3,3.34,0.011450741,
    51000,-72.4,3.26,0.0111837,
    51500,-72.5,3.19,0.010919869,
    52000,-72.7,3.11,0.010665701,
    52500,-72.8,3.04,0.01041474,
    53000,-72.9,2.96,0.010173431,
    53500,-73.1,2.89,0.009935346,
    54000,-73.2,2.83,0.009700476,
    54500,-73.3,2.76,0.009475257,
    55000,-73.5,2.69,0.009253256,
    55500,-73.6,2.63,0.009034473,
    56000,-73.7,2.57,0.008825341,
    56500,-73.8,2.51,0.00861621,
    57000,-74,2.45,0.008416731,
    57500,-74.1,2.39,0.008217252,
    58000,-74.2,2.33,0.008027425,
    58500,-74.4,2.28,0.007837598,
    59000,-74.5,2.22,0.007654206,
    59500,-74.6,2.17,0.007474031,
    60000,-74.7,2.12,0.007300292,
    60500,-74.9,2.07,0.007129769,
    61000,-75,2.02,0.006962465,
    61500,-75.1,1.97,0.006798376,
    62000,-75.3,1.92,0.006640724,
    62500,-75.4,1.88,0.006483071,
    63000,-75.5,1.83,0.006331853,
    63500,-75.6,1.79,0.006183852,
    64000,-75.8,1.75,0.00603907,
    64500,-75.9,1.71,0.005897503,
    65000,-76,1.67,0.005759154,
    65500,-76.2,1.63,0.005624024,
    66000,-76.3,1.59,0.00549211,
    66500,-76.4,1.55,0.005363414,
    67000,-76.5,1.51,0.005237935,
    67500,-76.7,1.48,0.005115674,
    68000,-76.8,1.44,0.00499663,
    68500,-76.9,1.41,0.004880803,
    69000,-77.1,1.37,0.004764976,
    69500,-77.2,1.34,0.004652367,
    70000,-77.3,1.31,0.004546193,
    70500,-77.4,1.28,0.004436801,
    71000,-77.6,1.25,0.004333844,
    71500,-77.7,1.22,0.004234105,
    72000,-77.8,1.19,0.004134365,
    72500,-78,1.16,0.004037844,
    73000,-78.1,1.13,0.003941321,
    73500,-78.2,1.11,0.003851234,
    74000,-78.3,1.08,0.003761147,
    74500,-78.5,1.05,0.003671059,
    75000,-78.6,1.03,0.003584189,
    75500,-78.7,1.01,0.003500537,
    76000,-78.8,0.982,0.003420102,
    76500,-79,0.958,0.003339666,
    77000,-79.1,0.935,0.003262449,
    77500,-79.2,0.913,0.003185231,
    78000,-79.4,0.892,0.003110587,
    78500,-79.5,0.87,0.003037552,
    79000,-79.6,0.85,0.002966447,
    79500,-79.7,0.83,0.002896951,
    80000,-79.9,0.81,0.002829386,
    80500,-80,0.781,0.002763107,
    81000,-80.1,0.772,0.002698438,
    81500,-80.2,0.754,0.002635055,
    82000,-80.4,0.736,0.00257328,
    82500,-80.5,0.718,0.002513115,
    83000,-80.6,0.701,0.002454558,
    83500,-80.7,0.685,0.002397289,
    84000,-80.9,0.668,0.002341627,
    84500,-81,0.653,0.002287253,
    85000,-81.1,0.637,0.002234166,
    85500,-81.3,0.623,0.002182687,
    86000,-81.4,0.608,0.002132174,
    86092,-81.4,0.605,0.002123487,
    86500,-81.4,0.594,0.002082626,
    87000,-81.4,0.58,0.002034044,
    87500,-81.4,0.566,0.001986748,
    88000,-81.4,0.553,0.001940739,
    88500,-81.4,0.54,0.001896017,
    89000,-81.4,0.528,0.00185226,
    89500,-81.4,0.516,0.001809468,
    90000,-81.4,0.504,0.001767964,
    90500,-81.4,0.492,0.001727103,
    91000,-81.4,0.481,0.001687529,
    91500,-81.4,0.47,0.001649242,
    92000,-81.4,0.459,0.001611598,
    92500,-81.4,0.449,0.001574598,
    93000,-81.4,0.439,0.001538885,
    93500,-81.4,0.429,0.001504137,
    94000,-81.4,0.419,0.001470032,
    94500,-81.4,0.41,0.001436893,
    95000,-81.4,0.4,0.001404397,
    95500,-81.4,0.391,0.001372867,
    96000,-81.4,0.383,0.00134198,
    96500,-81.4,0.374,0.001312058,
    97000,-81.4,0.366,0.001282458,
    97500,-81.4,0.357,0.001253823,
    98000,-81.4,0.35,0.001225831,
    98500,-81.4,0.342,0.001198805,
    99000,-81.4,0.334,0.001172101,
    99500,-81.4,0.327,0.00114604,
    100000,-81.4,0.32,0.001120622,
    ])

atm_data.alt = \
    np.array([    0.              ,   152.4             ,   304.8             ,   457.20000000000005,
             609.6             ,   762.              ,   914.4000000000001 ,   988.4664          ,
            1066.8             ,  1219.2             ,  1371.6000000000001 ,  1524.              ,
            1676.4             ,  1828.8000000000002 ,  1981.2             ,  2133.6             ,
            2286.              ,  2438.4             ,  2590.8             ,  2743.2000000000003 ,
            2895.6000000000004 ,  3012.0336          ,  3048.              ,  3200.4             ,
            3352.8             ,  3505.2000000000003 ,  3657.6000000000004 ,  3810.              ,
            3962.4             ,  4114.8             ,  4267.2             ,  4419.6             ,
            4572.              ,  4724.400000000001  ,  4876.8             ,  5029.2             ,
            5181.6             ,  5334.              ,  5486.400000000001  ,  5638.8             ,
            5791.200000000001  ,  5943.6             ,  6096.              ,  6248.400000000001  ,
            6400.8             ,  6553.200000000001  ,  6705.6             ,  6858.              ,
            7010.400000000001  ,  7162.8             ,  7315.200000000001  ,  7467.6             ,
            7620.              ,  7772.400000000001  ,  7924.8             ,  8077.200000000001  ,
            8229.6             ,  8382.              ,  8534.4             ,  8686.800000000001  ,
            8839.2             ,  8991.6             ,  9144.              ,  9163.812           ,
            9296.4             ,  9448.800000000001  ,  9601.2             ,  9753.6             ,
            9906.              , 10058.4             , 10210.800000000001  , 10363.2             ,
           10515.6             , 10668.              , 10820.4             , 10972.800000000001  ,
           11125.2             , 11277.6             , 11430.              , 11582.400000000001  ,
           11734.800000000001  , 11887.2             , 12039.6             , 12192.              ,
           12344.400000000001  , 12496.800000000001  , 12649.2             , 12801.6             ,
           12954.              , 13106.400000000001  , 13258.800000000001  , 13411.2             ,
           13563.6             , 13716.              , 13868.400000000001  , 14020.800000000001  ,
           14173.2             , 14325.6             , 14478.              , 14630.400000000001  ,
           14782.800000000001  , 14935.2             , 15087.6             , 15240.              ,
           15392.400000000001  , 15544.800000000001  , 15697.2             , 15849.6             ,
           16002.              , 16154.400000000001  , 16306.800000000001  , 16459.2             ,
           16611.600000000002  , 16764.              , 16916.4             , 17068.8             ,
           17221.2             , 17373.600000000002  , 17526.              , 17678.4             ,
           17830.8             , 17983.2             , 18135.600000000002  , 18288.              ,
           18440.4             , 18592.8             , 18745.2             , 18897.600000000002  ,
           19050.              , 19202.4             , 19354.8             , 19507.2             ,
           19659.600000000002  , 19812.              , 19964.4             , 20116.8             ,
           20269.2             , 20421.600000000002  , 20574.              , 20726.4             ,
           20878.8             , 21031.2             , 21183.600000000002  , 21336.              ,
           21488.4             , 21640.8             , 21793.2             , 21945.600000000002  ,
           22098.              , 22250.4             , 22402.800000000003  , 22555.2             ,
           22707.600000000002  , 22860.              , 23012.4             , 23164.800000000003  ,
           23317.2             , 23469.600000000002  , 23622.              , 23774.4             ,
           23926.800000000003  , 24079.2             , 24231.600000000002  , 24384.              ,
           24536.4             , 24688.800000000003  , 24841.2             , 24993.600000000002  ,
           25146.              , 25298.4             , 25450.800000000003  , 25603.2             ,
           25755.600000000002  , 25908.              , 26060.4             , 26212.800000000003  ,
           26240.8416          , 26365.2             , 26517.600000000002  , 26670.              ,
           26822.4             , 26974.800000000003  , 27127.2             , 27279.600000000002  ,
           27432.              , 27584.4             , 27736.800000000003  , 27889.2             ,
           28041.600000000002  , 28194.              , 28346.4             , 28498.800000000003  ,
           28651.2             , 28803.600000000002  , 28956.              , 29108.4             ,
           29260.800000000003  , 29413.2             , 29565.600000000002  , 29718.              ,
           29870.4             , 30022.800000000003  , 30175.2             , 30327.600000000002  ,
           30480.              ])

atm_data.akima_T = \
    np.array([[ 2.4664999999999998e+02,  5.4680664916886938e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4664999999999998e+02,  5.4680664916886938e-03, -5.9190039862725705e-19, -7.4689632372710600e-23],
           [ 2.4748333333333332e+02,  5.4680664916885065e-03, -1.1951834972281151e-18,  3.9585505157536619e-21],
           [ 2.4831666666666663e+02,  5.4680664916884145e-03,  1.2065661972017159e-18,  0.0000000000000000e+00],
           [ 2.4914999999999998e+02,  5.4680664916887849e-03,  7.1759402778012081e-06, -3.1390814863522177e-08],
           [ 2.5003888888888886e+02,  5.4680664916887927e-03, -1.9862811453933915e-18,  4.9295157365989014e-21],
           [ 2.5087222222222221e+02,  5.4680664916885247e-03, -1.5821952963305515e-18,  5.4523431632078681e-21],
           [ 2.5170555555555552e+02,  5.4680664916884258e-03,  6.6995450590873957e-05, -8.0745399871424041e-07],
           [ 2.5214999999999998e+02,  2.1036201681930728e-03, -6.6909721619383842e-05,  3.9575965615551521e-07],
           [ 2.5209444444444443e+02, -1.0936132983378208e-03, -7.6833224821807361e-19,  4.5747399828285192e-21],
           [ 2.5192777777777775e+02, -1.0936132983377358e-03, -3.2725262424103132e-20,  4.1266021885922561e-21],
           [ 2.5176111111111109e+02, -1.0936132983374585e-03,  7.1759402778011581e-06, -3.1390814863522164e-08],
           [ 2.5164999999999998e+02, -1.0936132983374585e-03, -1.8368832082398760e-18,  4.0145677400331905e-21],
           [ 2.5148333333333332e+02, -1.0936132983377382e-03, -2.4487033318209345e-18,  1.2043703220099572e-20],
           [ 2.5131666666666663e+02, -1.0936132983376450e-03,  7.1759402778048292e-06, -3.1390814863538218e-08],
           [ 2.5120555555555552e+02, -1.0936132983376450e-03, -3.5570937417503457e-20,  1.4937926474542148e-22],
           [ 2.5103888888888886e+02, -1.0936132983376450e-03, -1.4228374967001363e-21,  0.0000000000000000e+00],
           [ 2.5087222222222221e+02, -1.0936132983376450e-03, -3.6723435789830515e-18,  1.6058270960132762e-20],
           [ 2.5070555555555552e+02, -1.0936132983376450e-03,  7.1759402778085129e-06, -3.1390814863554278e-08],
           [ 2.5059444444444443e+02, -1.0936132983376450e-03, -3.3337082547684192e-18,  1.3836254397044625e-20],
           [ 2.5042777777777775e+02, -1.0936132983376966e-03,  6.3031701103816040e-19, -1.9232580335972963e-21],
           [ 2.5026111111111109e+02, -1.0936132983376380e-03,  9.6245238682101909e-06, -7.2383838750175805e-08],
           [ 2.5014999999999998e+02, -1.7962534031197115e-03, -1.4474143728879802e-04,  1.8306742899186389e-06],
           [ 2.4998333333333332e+02, -5.1035287255760875e-03, -1.0016775976768960e-18,  5.6017224279532896e-21],
           [ 2.4920555555555552e+02, -5.1035287255760068e-03,  2.2936140446806198e-18, -1.1502203385397421e-20],
           [ 2.4842777777777775e+02, -5.1035287255761109e-03, -7.1759402778000595e-06,  3.1390814863514812e-08],
           [ 2.4759444444444443e+02, -5.1035287255762835e-03,  1.1325786473733085e-18,  0.0000000000000000e+00],
           [ 2.4681666666666663e+02, -5.1035287255759400e-03, -1.0244429976241011e-19,  6.7220669135439857e-22],
           [ 2.4603888888888886e+02, -5.1035287255759253e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4526111111111109e+02, -5.1035287255759253e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.4448333333333332e+02, -5.1035287255759253e-03, -3.8815006909979834e-18,  1.6805167283859968e-20],
           [ 2.4370555555555552e+02, -5.1035287255759374e-03,  3.6424639915523378e-19, -1.1950341179633611e-21],
           [ 2.4292777777777775e+02, -5.1035287255759097e-03, -2.0488859952482021e-19,  0.0000000000000000e+00],
           [ 2.4214999999999998e+02, -5.1035287255759704e-03, -7.1759402778074821e-06,  3.1390814863550176e-08],
           [ 2.4131666666666663e+02, -5.1035287255759400e-03, -5.6913499868005617e-21,  0.0000000000000000e+00],
           [ 2.4053888888888886e+02, -5.1035287255759400e-03, -5.6913499868005617e-21,  0.0000000000000000e+00],
           [ 2.3976111111111109e+02, -5.1035287255759400e-03,  5.6913499868005281e-19, -2.3900682359267223e-21],
           [ 2.3898333333333332e+02, -5.1035287255759357e-03, -2.5041939941922473e-18,  8.2158595609982059e-21],
           [ 2.3820555555555552e+02, -5.1035287255761265e-03,  4.2685124901003959e-18, -1.8672408093177516e-20],
           [ 2.3742777777777775e+02, -5.1035287255761265e-03, -7.1759402778004051e-06,  3.1390814863517088e-08],
           [ 2.3659444444444443e+02, -5.1035287255762514e-03,  1.0073689476636935e-18,  7.4689632372710071e-23],
           [ 2.3581666666666663e+02, -5.1035287255759400e-03, -5.6913499868005617e-21,  0.0000000000000000e+00],
           [ 2.3503888888888886e+02, -5.1035287255759400e-03, -5.6913499868005617e-21,  0.0000000000000000e+00],
           [ 2.3426111111111109e+02, -5.1035287255759400e-03, -7.1759402778076811e-06,  3.1390814863550176e-08],
           [ 2.3342777777777775e+02, -5.1035287255759704e-03,  1.9350589955121911e-19,  0.0000000000000000e+00],
           [ 2.3264999999999998e+02, -5.1035287255759097e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.3187222222222221e+02, -5.1035287255759097e-03, -2.0488859952482021e-19,  0.0000000000000000e+00],
           [ 2.3109444444444443e+02, -5.1035287255759704e-03, -7.1759402778069383e-06,  3.1390814863545246e-08],
           [ 2.3026111111111109e+02, -5.1035287255761265e-03,  4.2685124901003959e-18, -1.8672408093177516e-20],
           [ 2.2948333333333332e+02, -5.1035287255761265e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2870555555555552e+02, -5.1035287255761265e-03,  4.2628211401135951e-18, -1.8672408093177516e-20],
           [ 2.2792777777777775e+02, -5.1035287255761256e-03, -7.1759402777998131e-06,  3.1390814863513204e-08],
           [ 2.2709444444444443e+02, -5.1035287255763433e-03,  2.1342562450502106e-18, -4.6307572071080794e-21],
           [ 2.2631666666666663e+02, -5.1035287255760181e-03,  2.8456749934002638e-18, -1.4041650886069493e-20],
           [ 2.2553888888888886e+02, -5.1035287255761265e-03, -7.1759402778061133e-06,  3.1390814863546589e-08],
           [ 2.2470555555555552e+02, -5.1035287255759400e-03,  4.9514744885164595e-19, -1.9419304416904618e-21],
           [ 2.2392777777777775e+02, -5.1035287255759244e-03, -1.1382699973601123e-20, -6.7220669135439857e-22],
           [ 2.2314999999999998e+02, -5.1035287255759704e-03, -5.9799502315068466e-06,  2.3543111147665322e-08],
           [ 2.2231666666666663e+02, -5.2857976086322601e-03,  3.5879701389039418e-06, -1.5695407431775836e-08],
           [ 2.2153888888888886e+02, -5.2857976086322601e-03, -4.7839601852045976e-06,  2.3543111147660504e-08],
           [ 2.2070555555555552e+02, -5.1035287255759400e-03, -5.6913499868005617e-21,  0.0000000000000000e+00],
           [ 2.1992777777777775e+02, -5.1035287255759400e-03, -5.6913499868005617e-21,  0.0000000000000000e+00],
           [ 2.1914999999999998e+02, -5.1035287255759400e-03, -3.9413109180766403e-06,  1.0166212765576055e-08],
           [ 2.1831666666666663e+02, -5.5964862399990834e-03, -6.8039847447109363e-04,  2.7168697968168432e-05],
           [ 2.1814999999999998e+02, -5.6420290541869659e-04,  1.7972410605827360e-06, -5.2958393110266418e-09],
           [ 2.1809444444444443e+02, -3.6691356660138155e-04,  3.4213589614100124e-07, -2.1426945806370121e-09],
           [ 2.1803888888888886e+02, -4.1192767570713415e-04, -6.5540254537305991e-06,  2.9350411897415516e-08],
           [ 2.1792777777777775e+02, -3.6453776611267369e-04,  3.6705650321121875e-18, -1.6053602858109560e-20],
           [ 2.1787222222222221e+02, -3.6453776611267374e-04,  3.5570937417503510e-22,  0.0000000000000000e+00],
           [ 2.1781666666666663e+02, -3.6453776611267374e-04,  3.6709207414863625e-18, -1.6053602858109560e-20],
           [ 2.1776111111111109e+02, -3.6453776611267369e-04, -7.1759402778046276e-06,  3.1390814863537014e-08],
           [ 2.1764999999999998e+02, -3.6453776611267369e-04,  3.0587449085311267e-18, -1.2039035118076346e-20],
           [ 2.1759444444444443e+02, -3.6453776611258050e-04,  0.0000000000000000e+00, -4.0098996380099195e-21],
           [ 2.1753888888888886e+02, -3.6453776611286017e-04, -7.1759402778024651e-06,  3.1390814863530654e-08],
           [ 2.1742777777777775e+02, -3.6453776611266946e-04,  3.5862619104327035e-18, -1.5684822798269302e-20],
           [ 2.1737222222222221e+02, -3.6453776611266935e-04, -7.1141874835006175e-22,  4.6681020232943236e-24],
           [ 2.1731666666666663e+02, -3.6453776611266935e-04,  3.5851947823101787e-18, -1.5680154696246007e-20],
           [ 2.1726111111111109e+02, -3.6453776611266941e-04, -7.1759402778049681e-06,  3.1390814863538880e-08],
           [ 2.1714999999999998e+02, -3.6453776611266941e-04,  2.9883144524444698e-18, -1.1763617098701976e-20],
           [ 2.1709444444444443e+02, -3.6453776611257833e-04,  3.5570937417503087e-22, -3.9212056995672322e-21],
           [ 2.1703888888888886e+02, -3.6453776611285155e-04, -7.1759402778025507e-06,  3.1390814863530853e-08],
           [ 2.1692777777777775e+02, -3.6453776611267369e-04,  3.0587449085311267e-18, -1.2039035118076346e-20],
           [ 2.1687222222222221e+02, -3.6453776611258050e-04,  3.5570937417503510e-22, -4.0145677400332146e-21],
           [ 2.1681666666666663e+02, -3.6453776611286023e-04, -7.1759402778036586e-06,  3.1390814863538496e-08],
           [ 2.1670555555555552e+02, -3.6453776611248726e-04,  7.1497584209181206e-20, -2.8008612139765944e-22],
           [ 2.1664999999999998e+02, -3.6453776611248504e-04,  3.5570937417503510e-22, -9.8030142489183149e-23],
           [ 2.1659444444444443e+02, -3.6453776611249171e-04, -7.1759402778060506e-06,  3.1390814863538311e-08],
           [ 2.1648333333333332e+02, -3.6453776611286017e-04,  1.2232845377879457e-18,  4.6681020232944353e-24],
           [ 2.1642777777777775e+02, -3.6453776611248726e-04,  0.0000000000000000e+00,  4.6681020232944353e-24],
           [ 2.1637222222222221e+02, -3.6453776611248721e-04, -1.1955392066022787e-18,  4.6681020232943236e-24],
           [ 2.1631666666666663e+02, -3.6453776611285155e-04, -7.1759402778037729e-06,  3.1390814863538880e-08],
           [ 2.1620555555555552e+02, -3.6453776611248726e-04,  3.5570937417503510e-22,  0.0000000000000000e+00],
           [ 2.1614999999999998e+02, -3.6453776611248726e-04,  3.5570937417503510e-22,  0.0000000000000000e+00],
           [ 2.1609444444444443e+02, -3.6453776611248726e-04, -7.1759402778061633e-06,  3.1390814863538880e-08],
           [ 2.1598333333333332e+02, -3.6453776611285155e-04,  1.7931309552163306e-18, -3.9212056995672322e-21],
           [ 2.1592777777777775e+02, -3.6453776611257833e-04,  2.3910784132045859e-18, -1.1768285200725271e-20],
           [ 2.1587222222222221e+02, -3.6453776611266946e-04, -7.1759402778037170e-06,  3.1390814863530654e-08],
           [ 2.1576111111111109e+02, -3.6453776611286017e-04,  1.2232845377879457e-18,  4.6681020232944353e-24],
           [ 2.1570555555555552e+02, -3.6453776611248726e-04,  0.0000000000000000e+00,  4.6681020232944353e-24],
           [ 2.1564999999999998e+02, -3.6453776611248726e-04,  8.5725959176182435e-20, -3.7344816186354592e-22],
           [ 2.1559444444444443e+02, -3.6453776611248726e-04, -7.1759402778061065e-06,  3.1390814863538496e-08],
           [ 2.1548333333333332e+02, -3.6453776611286023e-04,  1.8358160801173562e-18, -4.0145677400332146e-21],
           [ 2.1542777777777775e+02, -3.6453776611258050e-04,  2.4472804943242417e-18, -1.2039035118076346e-20],
           [ 2.1537222222222221e+02, -3.6453776611267369e-04, -7.1759402778037170e-06,  3.1390814863530853e-08],
           [ 2.1526111111111109e+02, -3.6453776611285155e-04,  1.1955392066022787e-18,  0.0000000000000000e+00],
           [ 2.1520555555555552e+02, -3.6453776611248726e-04,  3.5570937417503510e-22,  0.0000000000000000e+00],
           [ 2.1514999999999998e+02, -3.6453776611248726e-04,  7.1141874835007021e-22, -4.6681020232944353e-24],
           [ 2.1509444444444443e+02, -3.6453776611248732e-04, -7.1759402778060777e-06,  3.1390814863538311e-08],
           [ 2.1498333333333332e+02, -3.6453776611286456e-04,  1.8781454956441853e-18, -4.1032616784758086e-21],
           [ 2.1492777777777775e+02, -3.6453776611257833e-04,  2.5045497035663922e-18, -1.2323789341497014e-20],
           [ 2.1487222222222221e+02, -3.6453776611267369e-04, -7.1759402778036315e-06,  3.1390814863530284e-08],
           [ 2.1476111111111109e+02, -3.6453776611286462e-04,  1.8792126237667105e-18, -4.1125978825223973e-21],
           [ 2.1470555555555552e+02, -3.6453776611257839e-04,  2.5052611223147425e-18, -1.2328457443520310e-20],
           [ 2.1464999999999998e+02, -3.6453776611267369e-04, -7.1759402778051112e-06,  3.1390814863539813e-08],
           [ 2.1453888888888886e+02, -3.6453776611267808e-04,  3.8420169504645081e-18, -1.6805167283859565e-20],
           [ 2.1448333333333332e+02, -3.6453776611267808e-04,  3.5570937417503934e-22,  0.0000000000000000e+00],
           [ 2.1442777777777775e+02, -3.6453776611267803e-04,  3.8413055317161582e-18, -1.6800499181836273e-20],
           [ 2.1437222222222221e+02, -3.6453776611267808e-04, -7.1759402778032605e-06,  3.1390814863528226e-08],
           [ 2.1426111111111109e+02, -3.6453776611287335e-04,  1.9222534580419126e-18, -4.2059599229883857e-21],
           [ 2.1420555555555552e+02, -3.6453776611258050e-04,  2.5614632034343975e-18, -1.2603875462894674e-20],
           [ 2.1414999999999998e+02, -3.6453776611267808e-04, -7.1759402778051104e-06,  3.1390814863539998e-08],
           [ 2.1403888888888886e+02, -3.6453776611266935e-04,  3.6705650321121436e-18, -1.6053602858109181e-20],
           [ 2.1398333333333332e+02, -3.6453776611266941e-04,  3.5570937417503087e-22,  0.0000000000000000e+00],
           [ 2.1392777777777775e+02, -3.6453776611266941e-04,  3.5005359512565621e-18, -1.5311374636406113e-20],
           [ 2.1387222222222221e+02, -3.6453776611266941e-04, -7.1759402778033740e-06,  3.1390814863528596e-08],
           [ 2.1376111111111109e+02, -3.6453776611287335e-04,  1.9218977486677377e-18, -4.2012918209650914e-21],
           [ 2.1370555555555552e+02, -3.6453776611258045e-04,  2.5607517846860472e-18, -1.2599207360871380e-20],
           [ 2.1364999999999998e+02, -3.6453776611267808e-04, -7.1759402778045979e-06,  3.1390814863537000e-08],
           [ 2.1353888888888886e+02, -3.6453776611266946e-04,  3.5012473700049120e-18, -1.5316042738429405e-20],
           [ 2.1348333333333332e+02, -3.6453776611266941e-04,  3.5570937417503087e-22,  0.0000000000000000e+00],
           [ 2.1342777777777775e+02, -3.6453776611266941e-04,  3.5008916606307371e-18, -1.5316042738429405e-20],
           [ 2.1337222222222221e+02, -3.6453776611266946e-04, -7.1759402778035451e-06,  3.1390814863529721e-08],
           [ 2.1326111111111109e+02, -3.6453776611284722e-04,  1.7500901209411520e-18, -3.8231755570780510e-21],
           [ 2.1320555555555552e+02, -3.6453776611258045e-04,  2.3330977852140832e-18, -1.1478862875281287e-20],
           [ 2.1314999999999998e+02, -3.6453776611266941e-04, -7.1759402778047114e-06,  3.1390814863537378e-08],
           [ 2.1303888888888886e+02, -3.6453776611266941e-04,  3.5005359512565621e-18, -1.5311374636406113e-20],
           [ 2.1298333333333332e+02, -3.6453776611266941e-04,  3.5570937417503087e-22,  0.0000000000000000e+00],
           [ 2.1292777777777775e+02, -3.6453776611266941e-04,  3.6709207414863186e-18, -1.6053602858109181e-20],
           [ 2.1287222222222221e+02, -3.6453776611266941e-04, -7.1759402778040575e-06,  3.1390814863532712e-08],
           [ 2.1276111111111109e+02, -3.6453776611284722e-04,  1.7504458303153269e-18, -3.8278436591013461e-21],
           [ 2.1270555555555552e+02, -3.6453776611258050e-04,  2.3341649133366080e-18, -1.1488199079327877e-20],
           [ 2.1264999999999998e+02, -3.6453776611266946e-04, -7.1759402778046547e-06,  3.1390814863537000e-08],
           [ 2.1253888888888886e+02, -3.6453776611267808e-04,  3.8416612410903332e-18, -1.6800499181836273e-20],
           [ 2.1248333333333332e+02, -3.6453776611267808e-04,  3.5570937417503934e-22,  0.0000000000000000e+00],
           [ 2.1242777777777775e+02, -3.6453776611267808e-04,  3.8416612410903332e-18, -1.6800499181836273e-20],
           [ 2.1237222222222221e+02, -3.6453776611267808e-04, -7.1759402778038864e-06,  3.1390814863531964e-08],
           [ 2.1226111111111109e+02, -3.6453776611285594e-04,  1.8361717894915092e-18, -4.0145677400331183e-21],
           [ 2.1220555555555552e+02, -3.6453776611257617e-04,  2.4472804943242124e-18, -1.2039035118076062e-20],
           [ 2.1214999999999998e+02, -3.6453776611266941e-04, -7.1759402778052239e-06,  3.1390814863540369e-08],
           [ 2.1203888888888886e+02, -3.6453776611266935e-04,  3.6705650321121436e-18, -1.6053602858109181e-20],
           [ 2.1198333333333332e+02, -3.6453776611266941e-04,  3.5570937417503087e-22,  0.0000000000000000e+00],
           [ 2.1192777777777775e+02, -3.6453776611266941e-04,  3.5005359512565621e-18, -1.5311374636406113e-20],
           [ 2.1187222222222221e+02, -3.6453776611266941e-04, -7.1759402778033740e-06,  3.1390814863528596e-08],
           [ 2.1176111111111109e+02, -3.6453776611287335e-04,  1.2819765845268417e-18, -4.6681020232945462e-24],
           [ 2.1170555555555552e+02, -3.6453776611248298e-04,  1.0671281225250926e-21, -4.6681020232943236e-24],
           [ 2.1164999999999998e+02, -3.6453776611248287e-04, -3.5570937417503087e-22,  4.6681020232943236e-24],
           [ 2.1159444444444443e+02, -3.6453776611248287e-04, -7.1759402778065063e-06,  3.1390814863540746e-08],
           [ 2.1148333333333332e+02, -3.6453776611284722e-04,  1.7504458303153269e-18, -3.8278436591013461e-21],
           [ 2.1142777777777775e+02, -3.6453776611258050e-04,  2.3341649133366080e-18, -1.1488199079327877e-20],
           [ 2.1137222222222221e+02, -3.6453776611266946e-04, -7.1759402778035451e-06,  3.1390814863529721e-08],
           [ 2.1126111111111109e+02, -3.6453776611284722e-04,  1.1670824566682763e-18,  0.0000000000000000e+00],
           [ 2.1120555555555552e+02, -3.6453776611249160e-04,  3.5570937417503934e-22,  0.0000000000000000e+00],
           [ 2.1114999999999998e+02, -3.6453776611249165e-04,  1.7180762772653992e-19, -7.5156442575038606e-22],
           [ 2.1109444444444443e+02, -3.6453776611249154e-04, -7.1759402778063352e-06,  3.1390814863539998e-08],
           [ 2.1098333333333332e+02, -3.6453776611285594e-04,  1.2239959565362811e-18,  4.6681020232943236e-24],
           [ 2.1092777777777775e+02, -3.6453776611248292e-04,  3.5570937417503087e-22,  0.0000000000000000e+00],
           [ 2.1087222222222221e+02, -3.6453776611248287e-04, -1.2801980376559665e-18, -4.6681020232945462e-24],
           [ 2.1081666666666663e+02, -3.6453776611287335e-04, -7.1759402778031470e-06,  3.1390814863535882e-08],
           [ 2.1070555555555552e+02, -3.6453776611250027e-04,  5.6913499868006288e-20,  4.6681020232945462e-24],
           [ 2.1064999999999998e+02, -3.6453776611248292e-04,  0.0000000000000000e+00,  4.6681020232943236e-24],
           [ 2.1059444444444443e+02, -3.6453776611248282e-04, -1.2243516659104563e-18,  4.6681020232943236e-24],
           [ 2.1053888888888886e+02, -3.6453776611285594e-04, -7.1759402778027201e-06,  3.1390814863531964e-08],
           [ 2.1042777777777775e+02, -3.6453776611267803e-04,  3.2010286582011027e-18, -1.2599207360871380e-20],
           [ 2.1037222222222221e+02, -3.6453776611258045e-04,  3.5570937417503934e-22, -4.2059599229883857e-21],
           [ 2.1031666666666663e+02, -3.6453776611287335e-04, -5.9799502315018483e-06,  2.3543111147648169e-08],
           [ 2.1020555555555552e+02, -5.4680664916881977e-04,  1.2520969970961086e-18,  7.8477037158802383e-09],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1014999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_P = \
    np.array([[ 1.0103535200000000e+05, -1.2186794619422677e+01,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.0103535200000000e+05, -1.2186794619422677e+01,  9.6928295708429812e-04,  3.1800621951613645e-06],
           [ 9.9211852999999988e+04, -1.1669779090113714e+01,  2.6655281319818429e-03, -1.1130217683054604e-05],
           [ 9.7455890999999989e+04, -1.1632849409448797e+01, -2.9078488712526371e-03,  1.4310279878212594e-05],
           [ 9.5666160499999998e+04, -1.1522060367454019e+01,  1.4539244356269485e-03, -2.2944655064896701e-18],
           [ 9.3943967000000004e+04, -1.1078904199475092e+01,  5.8279423864837625e-17,  0.0000000000000000e+00],
           [ 9.2255542000000001e+04, -1.1078904199475081e+01, -1.1655884772967516e-17,  1.5296436709931116e-19],
           [ 9.0567116999999998e+04, -1.1078904199475071e+01,  2.2890692912250761e-03, -5.9729370188604502e-06],
           [ 8.9756672999999995e+04, -1.0838117536061061e+01,  1.8344551074198853e-03, -1.3481753299200767e-05],
           [ 8.8912460499999986e+04, -1.0798896889221293e+01, -3.6746366174971730e-03,  2.1596080999821669e-05],
           [ 8.7257804000000004e+04, -1.0414169947507169e+01,  8.7069459254067351e-15, -3.0898802154060852e-17],
           [ 8.5670684500000003e+04, -1.0414169947506672e+01, -1.1655884772967533e-17,  0.0000000000000000e+00],
           [ 8.4083564999999988e+04, -1.0414169947506672e+01, -2.0950960811481848e-03,  1.3747349613842023e-05],
           [ 8.2496445500000002e+04, -1.0094112715077269e+01,  1.6154715951399597e-03, -5.3001036585945187e-06],
           [ 8.0976862999999998e+04, -9.9710137795275280e+00, -6.1146354769265167e-04,  4.0122280032339263e-06],
           [ 7.9457280500000008e+04, -9.8778267348590827e+00,  1.6849217758648893e-03, -5.5279585822327470e-06],
           [ 7.7971466499999995e+04, -9.7494356955380983e+00,  2.3311769545935033e-17,  2.1415011393903565e-18],
           [ 7.6485652499999997e+04, -9.7494356955379331e+00,  2.1808866534373385e-03, -4.7700932927283519e-06],
           [ 7.5033606999999989e+04, -9.4170685695537841e+00,  1.8649415636748024e-15,  4.7700932927289634e-06],
           [ 7.3615330000000002e+04, -9.0847014435696192e+00,  1.6667915225343548e-15, -6.8833965194690025e-18],
           [ 7.2230821500000005e+04, -9.0847014435695908e+00, -4.7789127569166814e-16,  1.9885367722910448e-18],
           [ 7.0846312999999995e+04, -9.0847014435696014e+00,  7.5350482333073931e-04,  4.5987236299012597e-07],
           [ 6.9799489500000011e+04, -8.8905317153875334e+00,  3.2643590341539713e-02, -5.6707068444326490e-04],
           [ 6.9495572999999989e+04, -8.7430440295839773e+00, -2.5221855743012864e-03,  1.1379681505686122e-05],
           [ 6.8144832999999999e+04, -8.7189009380484919e+00, -4.3875826163778091e-04,  6.2095889017859781e-06],
           [ 6.6827861499999999e+04, -8.4199671916010530e+00,  7.5763251024288859e-16, -3.0592873419862229e-18],
           [ 6.5544658500000005e+04, -8.4199671916010299e+00, -9.6928295708462392e-04,  6.3601243903179805e-06],
           [ 6.4261455500000004e+04, -8.2740499167787220e+00,  9.9292400481796705e-04, -3.2576246877226909e-06],
           [ 6.3012021000000001e+04, -8.1983891076115754e+00, -1.1655884772967516e-17,  6.1185746839724466e-19],
           [ 6.1762586499999998e+04, -8.1983891076115381e+00,  1.4539244356282705e-03, -1.0172130412104192e-17],
           [ 6.0546920500000000e+04, -7.7552329396327471e+00,  1.3870502879831385e-15, -3.0592873419862406e-18],
           [ 5.9365022999999994e+04, -7.7552329396325357e+00, -1.1077519509521850e-03,  7.2687135889280933e-06],
           [ 5.8183125500000002e+04, -7.5864115423072098e+00,  6.9234496934555165e-04, -2.2714729965400513e-06],
           [ 5.7034996500000001e+04, -7.5336548556430456e+00, -7.0578856098334924e-04,  4.6311585366369749e-06],
           [ 5.5886867500000000e+04, -7.4260926789491180e+00,  1.4962717492851628e-03, -4.9090280488354074e-06],
           [ 5.4772506999999998e+04, -7.3120767716535520e+00, -1.3085319920635794e-03,  8.5861679269274638e-06],
           [ 5.3658146500000003e+04, -7.1130320521375516e+00,  2.9571344453420076e-04, -9.7018846631949546e-07],
           [ 5.2577554499999998e+04, -7.0904986876640406e+00, -1.2828745020232633e-04,  8.4178116930660519e-07],
           [ 5.1496962500000001e+04, -7.0709476802532016e+00,  2.6512739708482442e-03, -8.6984054161684052e-06],
           [ 5.0450138999999996e+04, -6.8689206036745372e+00, -2.3311769545935099e-16,  3.1357695255358968e-18],
           [ 4.9403315500000004e+04, -6.8689206036743897e+00,  6.7849806995883373e-03, -2.5440497561261595e-05],
           [ 4.8424028999999995e+04, -6.5734831583552129e+00, -2.4232073927113978e-03,  1.2720248780637335e-05],
           [ 4.7410973999999995e+04, -6.4257644356955277e+00,  1.5152650204857815e-16, -5.3537528484759220e-19],
           [ 4.6431687500000000e+04, -6.4257644356955232e+00, -1.2238679011615855e-16,  5.3537528484758575e-19],
           [ 4.5452400999999998e+04, -6.4257644356955188e+00,  1.4539244356256522e-03,  4.1300379116814252e-18],
           [ 4.4506882999999994e+04, -5.9826082677165369e+00,  6.9352514399156512e-16, -3.0592873419862044e-18],
           [ 4.3595133499999996e+04, -5.9826082677165369e+00, -1.1655884772967550e-17,  7.6482183549656027e-20],
           [ 4.2683383999999998e+04, -5.9826082677165360e+00, -5.3409469063928137e-04,  3.5045583375260361e-06],
           [ 4.1771634499999993e+04, -5.9012122368632554e+00,  1.8396594899778534e-03, -6.0356282479596374e-06],
           [ 4.0893653500000000e+04, -5.7610301837270050e+00, -1.0369073494398120e-03,  6.8038539989470790e-06],
           [ 4.0015672500000001e+04, -5.6025166313345416e+00,  8.2761852489547617e-04, -2.7152838743296684e-06],
           [ 3.9171459999999999e+04, -5.5394520997375558e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.8327247499999998e+04, -5.5394520997375558e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.7483034999999996e+04, -5.5394520997375558e+00,  1.4539244356279572e-03, -5.5831993991248231e-18],
           [ 3.6672591000000000e+04, -5.0962959317585437e+00,  3.4967654318902649e-16, -1.5296436709931203e-18],
           [ 3.5895915500000003e+04, -5.0962959317585437e+00, -3.4967654318902444e-17,  2.2944655064896535e-19],
           [ 3.5119239999999998e+04, -5.0962959317585383e+00,  1.6901032920802948e-16, -6.1185746839724822e-19],
           [ 3.4342564500000000e+04, -5.0962959317585268e+00, -9.3247078183740398e-16,  4.1300379116814252e-18],
           [ 3.3565888999999996e+04, -5.0962959317585259e+00,  1.4539244356273540e-03, -3.0592873419862406e-18],
           [ 3.2822982000000004e+04, -4.6531397637795200e+00,  1.5152650204857635e-16, -6.8833965194688786e-19],
           [ 3.2113843499999999e+04, -4.6531397637795209e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.1404705000000002e+04, -4.6531397637795209e+00, -7.2849279831047187e-16,  2.7533586077876166e-18],
           [ 3.0695566499999997e+04, -4.6531397637795537e+00,  3.8939445711141120e-03, -1.6010630810283204e-05],
           [ 3.0020196500000002e+04, -4.5818426644486996e+00, -8.8066534957942533e-02,  3.0910293669371000e-03],
           [ 2.9918890999999996e+04, -4.4315616797899811e+00,  2.1357073348788171e-03, -1.0312772332328721e-05],
           [ 2.9344826499999999e+04, -4.4091059004731870e+00, -1.7486197022502498e-03,  1.0507034573083740e-05],
           [ 2.8669456500000000e+04, -4.2099835958006180e+00,  1.6493076953749083e-15, -6.4245034181711068e-18],
           [ 2.8027855000000003e+04, -4.2099835958005629e+00, -5.8279423864837752e-18,  0.0000000000000000e+00],
           [ 2.7386253499999999e+04, -4.2099835958005629e+00, -7.2696221781305627e-04,  4.7700932927376337e-06],
           [ 2.6744651999999998e+04, -4.0991945538057815e+00,  1.4539244356265642e-03, -4.7700932927375574e-06],
           [ 2.6136819000000000e+04, -3.9884055118110004e+00, -5.8279423864837058e-18,  0.0000000000000000e+00],
           [ 2.5528985999999997e+04, -3.9884055118110009e+00, -7.2696221781360997e-04,  4.7700932927391626e-06],
           [ 2.4921152999999998e+04, -3.8776164698162798e+00,  1.4539244356264330e-03, -4.7700932927371364e-06],
           [ 2.4347088499999998e+04, -3.7668274278215099e+00,  5.8279423864837752e-18,  0.0000000000000000e+00],
           [ 2.3773024000000001e+04, -3.7668274278215099e+00, -8.1783249504042337e-04,  5.3663549543324476e-06],
           [ 2.3198959500000001e+04, -3.6421897555774216e+00,  1.2721838811735574e-03, -4.1738316311470032e-06],
           [ 2.2658663499999999e+04, -3.5452493438320105e+00, -1.4539244356267041e-03,  9.5401865854766819e-06],
           [ 2.2118367500000000e+04, -3.3236712598425284e+00,  2.9139711932418876e-18,  0.0000000000000000e+00],
           [ 2.1611840000000000e+04, -3.3236712598425284e+00,  2.9139711932418876e-18,  0.0000000000000000e+00],
           [ 2.1105312500000000e+04, -3.3236712598425284e+00,  5.1285893001056611e-16, -1.6826080380923925e-18],
           [ 2.0598785000000000e+04, -3.3236712598424889e+00, -9.0489003336251251e-04,  5.9375986441093057e-06],
           [ 2.0092257500000000e+04, -3.1857660187581605e+00,  1.0980688045290972e-03, -3.6025879413681796e-06],
           [ 1.9619498499999998e+04, -3.1020931758530259e+00, -5.9478726911980830e-04,  3.9028036031488548e-06],
           [ 1.9146739500000000e+04, -3.0107556450481856e+00,  1.7091936113470528e-03, -5.6075905884082619e-06],
           [ 1.8707749000000000e+04, -2.8805150918634888e+00,  2.2437578187962266e-16, -1.4914025792182570e-18],
           [ 1.8268758500000000e+04, -2.8805150918635225e+00, -1.1655884772967550e-17,  0.0000000000000000e+00],
           [ 1.7829768000000000e+04, -2.8805150918635234e+00, -2.6434989738663586e-05,  1.7345793791774048e-07],
           [ 1.7390777500000000e+04, -2.8805150918635234e+00,  2.9078488712530087e-03, -9.5401865854752673e-06],
           [ 1.6985555499999999e+04, -2.6589370078740084e+00,  2.9139711932418876e-18,  0.0000000000000000e+00],
           [ 1.6580333500000001e+04, -2.6589370078740084e+00, -1.4539244356264157e-03,  9.5401865854754215e-06],
           [ 1.6175111499999999e+04, -2.4373589238845179e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.5803657999999999e+04, -2.4373589238845179e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.5432204500000000e+04, -2.4373589238845179e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.5060751000000000e+04, -2.4373589238845179e+00, -6.5175922976394064e-04,  4.2766353659046355e-06],
           [ 1.4689297499999999e+04, -2.3359587837537230e+00,  1.5771383708496091e-03, -5.1743384870396565e-06],
           [ 1.4351612499999999e+04, -2.2157808398950030e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.4013927500000002e+04, -2.2157808398950030e+00, -7.0518102876453680e-16,  3.0975284337610691e-18],
           [ 1.3676242499999998e+04, -2.2157808398950030e+00,  3.6348110890664907e-03, -1.4310279878214698e-05],
           [ 1.3372325999999999e+04, -2.1049917979002637e+00, -2.9078488712533253e-03,  1.4310279878215195e-05],
           [ 1.3034641000000000e+04, -1.9942027559055122e+00,  4.6623539091869647e-16, -2.0458984099532502e-18],
           [ 1.2730724500000000e+04, -1.9942027559055124e+00, -2.9139711932418876e-18,  0.0000000000000000e+00],
           [ 1.2426808000000001e+04, -1.9942027559055124e+00, -2.2874673866948818e-16,  1.0133889320329423e-18],
           [ 1.2122891500000000e+04, -1.9942027559055124e+00,  3.6348110890664295e-03, -1.4310279878214221e-05],
           [ 1.1852743499999999e+04, -1.8834137139107618e+00, -2.9078488712532377e-03,  1.4310279878214659e-05],
           [ 1.1548826999999999e+04, -1.7726246719160217e+00,  5.3908467074974279e-16, -2.1415011393903176e-18],
           [ 1.1278679000000000e+04, -1.7726246719160050e+00, -4.2835376540655747e-16,  2.1223805935029546e-18],
           [ 1.1008530999999999e+04, -1.7726246719159886e+00,  3.6348110890664165e-03, -1.4310279878214546e-05],
           [ 1.0772151500000000e+04, -1.6618356299212642e+00, -2.1808866534401405e-03,  9.5401865854775424e-06],
           [ 1.0502003499999999e+04, -1.6618356299212589e+00,  2.1808866534400039e-03, -9.5401865854768547e-06],
           [ 1.0265624000000000e+04, -1.6618356299212589e+00, -2.1808866534397914e-03,  9.5401865854758619e-06],
           [ 9.9954759999999987e+03, -1.6618356299212558e+00,  7.2696221781330249e-04,  7.6482183549656027e-20],
           [ 9.7590964999999997e+03, -1.4402575459317564e+00,  2.9078488712530469e-03, -1.4310279878213341e-05],
           [ 9.5564855000000007e+03, -1.5510465879264637e+00, -3.6133242796198974e-16,  7.8394238138395562e-19],
           [ 9.3201059999999998e+03, -1.5510465879265187e+00, -6.6888534641816903e-04,  4.3890114594360551e-06],
           [ 9.0837264999999989e+03, -1.4491084611324474e+00,  1.5700781784183670e-03, -5.1511751260454083e-06],
           [ 8.8811154999999999e+03, -1.3294685039370320e+00, -1.3258568929250747e-16,  8.7954511082106526e-19],
           [ 8.6785044999999991e+03, -1.3294685039370118e+00,  9.1790092587118364e-17, -1.1472327532448130e-19],
           [ 8.4758934999999983e+03, -1.3294685039369918e+00,  3.5841845676874793e-16, -1.6826080380923925e-18],
           [ 8.2732825000000012e+03, -1.3294685039370004e+00, -4.1524089503697392e-16,  1.3766793038938410e-18],
           [ 8.0706715000000004e+03, -1.3294685039370318e+00,  2.0252099793030879e-16,  1.9120545887413549e-20],
           [ 7.8680604999999996e+03, -1.3294685039369689e+00,  3.6348110890657499e-03, -1.4310279878211922e-05],
           [ 7.6992179999999989e+03, -1.2186794619422538e+00, -2.9078488712527615e-03,  1.4310279878212389e-05],
           [ 7.4966070000000009e+03, -1.1078904199475148e+00,  1.6609635801478562e-16, -7.2658074372171491e-19],
           [ 7.3277644999999993e+03, -1.1078904199475148e+00, -2.7682726335798262e-17,  1.9120545887414459e-19],
           [ 7.1589220000000005e+03, -1.1078904199475106e+00,  7.5763251024288176e-17, -3.0592873419861679e-19],
           [ 6.9900794999999989e+03, -1.1078904199475095e+00, -1.2675774690602361e-16,  6.1185746839726276e-19],
           [ 6.8212370000000001e+03, -1.1078904199475061e+00,  7.4306265427667246e-17, -2.4856709653637618e-19],
           [ 6.6523944999999994e+03, -1.1078904199475004e+00,  3.9338611108765011e-17,  0.0000000000000000e+00],
           [ 6.4835519999999997e+03, -1.1078904199474884e+00,  3.6348110890661225e-03, -1.4310279878213308e-05],
           [ 6.3484779999999992e+03, -9.9710137795275633e-01, -2.9078488712526219e-03,  1.4310279878211336e-05],
           [ 6.1796355000000003e+03, -8.8631233595804826e-01,  1.7629525719113629e-16,  0.0000000000000000e+00],
           [ 6.0445614999999998e+03, -8.8631233595799430e-01,  2.3311769545934823e-17, -1.6252464004301518e-19],
           [ 5.9094875000000002e+03, -8.8631233595799808e-01,  1.4569855966209265e-18, -9.5602729437067756e-20],
           [ 5.7744134999999997e+03, -8.8631233595800452e-01, -1.9305059155227734e-16,  8.0306292727140742e-19],
           [ 5.6393395000000000e+03, -8.8631233595800774e-01,  1.4205609567054032e-16, -6.0229719545352684e-19],
           [ 5.5042654999999995e+03, -8.8631233595800663e-01, -2.1490537550159175e-16,  1.0325094779203808e-18],
           [ 5.3691914999999999e+03, -8.8631233595800019e-01,  7.6491743822598640e-17, -2.5812736948008291e-19],
           [ 5.2341175000000003e+03, -8.8631233595799441e-01, -1.1364487653643226e-16,  5.0669446601645909e-19],
           [ 5.0990434999999998e+03, -8.8631233595799430e-01,  3.6348110890663068e-03, -1.4310279878214036e-05],
           [ 4.9977379999999994e+03, -7.7552329396325659e-01, -2.1808866534397189e-03,  9.5401865854755367e-06],
           [ 4.8626639999999998e+03, -7.7552329396325359e-01,  2.1808866534397224e-03, -9.5401865854756857e-06],
           [ 4.7613584999999994e+03, -7.7552329396324970e-01, -2.9078488712529224e-03,  1.4310279878213018e-05],
           [ 4.6262845000000007e+03, -6.6473425196851588e-01,  3.0888094648363642e-16, -1.3575587580063621e-18],
           [ 4.5249790000000003e+03, -6.6473425196851599e-01, -6.0464902259769882e-17,  4.0153146363570371e-19],
           [ 4.4236734999999999e+03, -6.6473425196850677e-01,  2.4695905862724703e-16, -1.0803108426388657e-18],
           [ 4.3223680000000004e+03, -6.6473425196850677e-01, -2.1199140430834985e-16,  9.9426838614555189e-19],
           [ 4.2210625000000000e+03, -6.6473425196850211e-01,  1.5298348764519729e-17, -1.9120545887413549e-20],
           [ 4.1197569999999996e+03, -6.6473425196849878e-01,  4.0795596705385941e-17, -2.0076573181784230e-19],
           [ 4.0184514999999997e+03, -6.6473425196850033e-01, -1.6682485081310004e-16,  5.4493555779131213e-19],
           [ 3.9171459999999997e+03, -6.6473425196851299e-01,  8.3048179007392811e-17,  0.0000000000000000e+00],
           [ 3.8158404999999993e+03, -6.6473425196848734e-01,  4.3617733068798698e-03, -1.9080373170953015e-05],
           [ 3.7483035000000004e+03, -6.6473425196849723e-01, -3.0815245368533327e-16,  1.2141546638508182e-18],
           [ 3.6469980000000000e+03, -6.6473425196850655e-01, -8.4437535952181777e-04,  5.5405207317708115e-06],
           [ 3.5456925000000001e+03, -5.3582996214328826e-01,  1.2161915244655534e-03, -3.9901296734433138e-06],
           [ 3.4781554999999998e+03, -4.4315616797900320e-01,  2.5642946500528306e-16, -1.4244806686123094e-18],
           [ 3.4106185000000000e+03, -4.4315616797902424e-01, -2.8432300074471748e-03,  1.1024215609882046e-05],
           [ 3.3160666999999999e+03, -5.4163531641879470e-01,  1.2923772761090997e-05,  3.3920663415072284e-07],
           [ 3.2350222999999996e+03, -5.1406115485563753e-01, -1.4539244356206447e-05,  2.8620559756397432e-07],
           [ 3.1573547500000000e+03, -4.9855068897637694e-01,  7.2696221781211719e-05,  4.4933282835423975e-19],
           [ 3.0830640500000000e+03, -4.7639288057743251e-01,  1.9385659141703932e-04, -7.9501554879031168e-07],
           [ 3.0121502000000000e+03, -4.7269991251093535e-01, -4.8464147854190186e-04,  2.5440497561252001e-06],
           [ 2.9378595000000000e+03, -4.4315616797903762e-01,  2.6517137858501494e-16, -5.7839651309428745e-19],
           [ 2.8703224999999998e+03, -4.4315616797899715e-01, -3.6424639915523161e-19,  0.0000000000000000e+00],
           [ 2.8027855000000000e+03, -4.4315616797899721e-01, -1.0672419495248540e-16,  2.4856709653638797e-19],
           [ 2.7352485000000001e+03, -4.4315616797901242e-01, -4.0709884197543244e-03,  1.8126354512404315e-05],
           [ 2.6373198499999999e+03, -4.2099835958005910e-01,  4.2163808633173747e-03, -1.8126354512405894e-05],
           [ 2.6069281999999998e+03, -3.9884055118110412e-01, -1.1838007972545308e-16,  5.9273692250984832e-19],
           [ 2.5461448999999998e+03, -3.9884055118109885e-01, -1.0927391974656948e-18,  4.7801364718533874e-21],
           [ 2.4853615999999997e+03, -3.9884055118109890e-01, -1.8685840276663827e-16,  8.1740333668696820e-19],
           [ 2.4245782999999997e+03, -3.9884055118109890e-01,  2.1808866534399967e-04, -4.7700932927383231e-07],
           [ 2.3671718499999997e+03, -3.6560383858267287e-01,  1.9385659141695445e-04, -7.9501554879003438e-07],
           [ 2.3131422500000003e+03, -3.6191087051618254e-01, -3.3924903497975403e-04,  1.5900310975803214e-06],
           [ 2.2557357999999999e+03, -3.5452493438320193e-01,  3.6348110890676205e-04, -1.4310279878219558e-06],
           [ 2.2050830500000002e+03, -3.4344603018372855e-01, -2.9078488712548504e-04,  1.4310279878222963e-06],
           [ 2.1510534499999999e+03, -3.3236712598424711e-01,  3.7878557665000333e-04, -1.5314510045101934e-06],
           [ 2.1037775499999998e+03, -3.2362062266886521e-01, -6.5190276852800387e-05,  5.1171409546335235e-08],
           [ 2.0531248000000001e+03, -3.3992513442264405e-01, -3.1180086223559942e-03,  8.4049137098380426e-05],
           [ 2.0429942500000000e+03, -3.1652162617101676e-01,  3.7926453109652161e-04, -1.8971243805242788e-06],
           [ 2.0058489000000000e+03, -3.1020931758529807e-01, -1.4569855966209265e-18, -4.7801364718533878e-20],
           [ 1.9585729999999999e+03, -3.1020931758530196e-01, -1.2085746871158164e-04,  7.9302800991831567e-07],
           [ 1.9112970999999998e+03, -2.9176741494269459e-01,  4.8765167406135854e-05, -1.5999070671305813e-07],
           [ 1.8673980500000000e+03, -2.8805150918634809e-01, -3.4435052422736845e-05,  2.2595178755073350e-07],
           [ 1.8234990000000000e+03, -2.8280360719712522e-01,  2.2191478227976964e-04, -7.2806687099652596e-07],
           [ 1.7829768000000001e+03, -2.6589370078739977e-01,  1.6391087961985423e-17, -1.0516300238077453e-19],
           [ 1.7424546000000000e+03, -2.6589370078740221e-01, -5.1358742280888882e-17,  1.6730477651487652e-19],
           [ 1.7019323999999999e+03, -2.6589370078740610e-01, -9.3823041383573081e-05,  6.1563675448571887e-07],
           [ 1.6614102000000000e+03, -2.5159506928052594e-01,  1.0313880435797079e-04, -3.3838190406167333e-07],
           [ 1.6242648499999998e+03, -2.4373589238845497e-01, -1.8212319957762014e-19,  0.0000000000000000e+00],
           [ 1.5871194999999998e+03, -2.4373589238845497e-01, -9.5595531642328599e-05,  6.2726726799458806e-07],
           [ 1.5499741500000000e+03, -2.2916713336614211e-01,  9.9593823840373613e-05, -3.2675139055232969e-07],
           [ 1.5162056500000001e+03, -2.2157808398950005e-01,  1.8212319957761581e-19,  0.0000000000000000e+00],
           [ 1.4824371500000000e+03, -2.2157808398950005e-01,  1.8212319957761581e-19,  0.0000000000000000e+00],
           [ 1.4486686499999998e+03, -2.2157808398950005e-01, -7.4852635026401873e-17,  3.2743934832197265e-19],
           [ 1.4149001499999999e+03, -2.2157808398950005e-01,  3.6348110890667862e-04, -1.4310279878215901e-06],
           [ 1.3845084999999999e+03, -2.1049917979002664e-01, -2.1808866534404875e-04,  9.5401865854792043e-07],
           [ 1.3507400000000000e+03, -2.1049917979002572e-01,  7.2696221781347488e-05, -5.2581501190387265e-20],
           [ 1.3203483500000000e+03, -1.8834137139107440e-01,  2.1808866534401368e-04, -9.5401865854775060e-07],
           [ 1.2933335500000001e+03, -1.8834137139107568e-01, -2.1808866534406022e-04,  9.5401865854793949e-07],
           [ 1.2629419000000000e+03, -1.8834137139107693e-01,  1.9385659141691491e-04, -7.9501554878984560e-07],
           [ 1.2359270999999999e+03, -1.8464840332458532e-01, -3.3924903497961834e-04,  1.5900310975798098e-06],
           [ 1.2055354499999999e+03, -1.7726246719159885e-01,  4.3617733068793721e-04, -1.9080373170949972e-06],
           [ 1.1818974999999998e+03, -1.7726246719159375e-01, -2.3858139144667672e-17,  0.0000000000000000e+00],
           [ 1.1548827000000001e+03, -1.7726246719160096e-01, -1.1118245684211063e-04,  7.2954368006619776e-07],
           [ 1.1278679000000000e+03, -1.6031826076887440e-01,  6.8419973441282534e-05, -2.2447497848194372e-07],
           [ 1.1042299499999999e+03, -1.5510465879265195e-01,  7.2849279831048048e-18, -4.7801364718536147e-20],
           [ 1.0805920000000001e+03, -1.5510465879265306e-01,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_rho = \
    np.array([[ 1.4322367291960358e+00, -2.0121480705581518e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.4322367291960358e+00, -2.0121480705581518e-04,  1.1095474201309786e-08,  7.9204687753607549e-15],
           [ 1.4018293214569528e+00, -1.9783235464253536e-04,  1.1096681018166492e-08, -7.9187457789039562e-15],
           [ 1.3719373714303162e+00, -1.9445063802486516e-04,  1.4790670599295268e-08, -2.4254614270684549e-11],
           [ 1.3425607669869737e+00, -1.9163243717603041e-04, -1.4785383069348370e-08,  1.9410027205537918e-10],
           [ 1.3136996202560771e+00, -1.8261464293148891e-04,  2.8456749934002744e-21, -7.0021530349416209e-24],
           [ 1.2858691486733183e+00, -1.8261464293148854e-04,  5.3356406126255111e-22, -2.3340510116472040e-24],
           [ 1.2580386770905594e+00, -1.8261464293148851e-04, -3.0437766421748796e-07,  4.4192318844871648e-09],
           [ 1.2446389070208510e+00, -1.5497347271175432e-04,  2.6896430644034035e-07, -1.7667032538406835e-09],
           [ 1.2333004872474180e+00, -1.4535787174677287e-04, -4.4221153219761550e-09,  2.6550113988397050e-11],
           [ 1.2111392175421505e+00, -1.4485579277050982e-04,  1.4869192700098516e-08,  2.3979659608694820e-11],
           [ 1.1894934215677795e+00, -1.3865282537866010e-04,  7.2350894406004540e-12, -1.5818547564207152e-14],
           [ 1.1683628430290995e+00, -1.3865172231676651e-04, -2.2183706325295338e-08,  1.4557821864672033e-10],
           [ 1.1472323766195720e+00, -1.3526982170204317e-04,  9.9730415092141389e-17, -3.2721761347585646e-19],
           [ 1.1266172557933387e+00, -1.3526982169444492e-04, -2.2053981198852144e-20,  1.0736634653577168e-22],
           [ 1.1060021349671052e+00, -1.3526982169444408e-04,  2.2192671676538599e-08, -3.1670553292192269e-14],
           [ 1.0859023437057151e+00, -1.2850770208544461e-04,  8.2737725243891239e-12, -1.8093802579819574e-14],
           [ 1.0663178980276193e+00, -1.2850644096652774e-04, -2.2182327692743065e-08,  1.4557143299534402e-10],
           [ 1.0467335804971258e+00, -1.2512459295056707e-04,  1.4301295388707244e-18, -4.6937765844225273e-21],
           [ 1.0276645925314760e+00, -1.2512459295045805e-04, -8.8927343543758508e-22,  2.3340510116472040e-24],
           [ 1.0085956045658262e+00, -1.2512459295045805e-04,  4.6180481015396688e-08, -1.5742746880909506e-10],
           [ 9.9004196218347029e-01, -1.2201790016086770e-04, -1.6629102040118774e-07,  1.2865138977529475e-09],
           [ 9.7561132474422085e-01, -1.0841865444538263e-04,  4.7909837947909818e-07, -7.0485158074705124e-09],
           [ 9.7200371343975933e-01, -1.0130926455758674e-04,  1.3338029718660757e-09, -1.4937082913681288e-11],
           [ 9.5654228872322011e-01, -1.0194349672032177e-04, -6.0114115542885914e-08,  2.7000937314177462e-10],
           [ 9.4056563055253894e-01, -1.0145276044276945e-04,  5.9170116003044697e-08, -2.4265450521393346e-10],
           [ 9.2561959947464467e-01, -1.0032521498809414e-04, -2.5891796446219814e-08,  1.2135327338242581e-10],
           [ 9.1015822281345626e-01, -9.9761468536518064e-05,  1.1099095177035730e-08, -1.5839214526256173e-14],
           [ 8.9521230386471395e-01, -9.6379567959943053e-05,  2.9585479254154360e-08, -1.2133341121853798e-10],
           [ 8.8078173049926567e-01, -9.5816095950106020e-05, -5.1784819366073097e-08,  2.4270604520893310e-10],
           [ 8.6583569942137129e-01, -9.4689011823169614e-05,  5.9181763739384093e-08, -2.4271057010491839e-10],
           [ 8.5192053571301818e-01, -9.3561822587565332e-05, -3.6980357009071533e-08,  1.9411235427512280e-10],
           [ 8.3748989827376874e-01, -9.1308214543643295e-05,  5.5149061593190602e-12,  2.2487601195796049e-18],
           [ 8.2357465447316414e-01, -9.1306533443558474e-05,  5.6567242581175509e-15, -2.4744434797824649e-17],
           [ 8.0965953882016195e-01, -9.1306533443513832e-05, -2.2757001748654452e-11,  9.9556141108889160e-14],
           [ 7.9574424696420643e-01, -9.1306532976527044e-05,  3.3282455596356401e-08, -7.2794763820881740e-11],
           [ 7.8234447689449826e-01, -8.6234181652039115e-05,  3.3274009919824454e-08, -1.4556125431733913e-10],
           [ 7.6945997231583252e-01, -8.6234575702697104e-05, -4.4376035219858467e-08,  2.1838090900074576e-10],
           [ 7.5606013817232298e-01, -8.4544203494610562e-05,  3.1033719335192364e-12, -6.7877073076067819e-15],
           [ 7.4317564961210769e-01, -8.4543730535827788e-05, -7.3947987504781250e-09,  4.8529090063572873e-11],
           [ 7.3029120910724310e-01, -8.3416290198501096e-05,  2.9591609180778333e-08, -9.7098905896306107e-11],
           [ 7.1792216224102345e-01, -8.1162355374030367e-05, -3.5484927258097916e-12,  2.3279010463111893e-14],
           [ 7.0555301926410185e-01, -8.1161814936483046e-05,  1.1821879559949090e-12, -3.8781474789461605e-15],
           [ 6.9318397239788221e-01, -8.1161724824361804e-05, -4.4361899315110518e-09,  2.9113382464356485e-11],
           [ 6.8081494155011291e-01, -8.0485334213770346e-05,  3.5501931171892959e-08, -1.1648067671445652e-10],
           [ 6.6896124026718728e-01, -7.7780402318600056e-05, -5.5519620422723399e-09,  3.6421144319692489e-11],
           [ 6.5710747491046040e-01, -7.6934914078407779e-05,  3.3303491921365586e-08, -1.0929057534728023e-10],
           [ 6.4576924735843111e-01, -7.4399079760609118e-05, -1.4620514575511146e-12,  9.5884519042258043e-15],
           [ 6.3443082758499825e-01, -7.4398857296645323e-05,  1.2167690285673353e-12, -3.9909694468197384e-15],
           [ 6.2309245586691620e-01, -7.4398764505341020e-05, -1.2319684401625207e-08,  8.0860449497157158e-11],
           [ 6.1175416424108575e-01, -7.2519668130417164e-05,  1.9719770562596862e-08, -6.4688360127751759e-11],
           [ 6.0093120218009888e-01, -7.1016391044299845e-05,  1.0288575288123005e-15, -4.5005965183925608e-18],
           [ 5.9010830419291327e-01, -7.1016391044293354e-05, -1.7757999875667745e-08,  1.1650420918614888e-10],
           [ 5.7928534213192651e-01, -6.8311333001755013e-05,  8.8755518139693176e-09, -2.9117001806934126e-11],
           [ 5.6897777370958458e-01, -6.7634858296519411e-05,  3.4488519367633317e-13, -2.2628855570618651e-15],
           [ 5.5867022130569288e-01, -6.7634910847222946e-05, -6.8970609039331447e-13,  2.2628855897385525e-15],
           [ 5.4836265288335095e-01, -6.7634963397926440e-05, -5.5455819281724717e-09,  3.6392858211222410e-11],
           [ 5.3805510047945937e-01, -6.6789501398049748e-05,  3.3279698669587400e-08, -1.0917857506537329e-10],
           [ 5.2826287764041135e-01, -6.4253115388390462e-05,  2.1408635466755120e-17,  2.8152039574432333e-19],
           [ 5.1847070285671437e-01, -6.4253115362249562e-05, -6.8369823598564626e-13,  9.0109952644586355e-15],
           [ 5.0867854409146762e-01, -6.4252695891831770e-05,  2.3273331351279167e-08, -6.5406356674885469e-11],
           [ 4.9919546132490472e-01, -6.1716321523777739e-05,  1.9067567848798551e-09, -5.2215524096609431e-12],
           [ 4.8981569756282545e-01, -6.1498965625029006e-05,  6.1240020400679396e-09, -1.3184941612786515e-11],
           [ 4.8053882030707146e-01, -6.0551060671754089e-05,  1.6763786065563173e-06, -6.2887028793275612e-08],
           [ 4.7950814515893386e-01, -6.8178605985357580e-05, -3.3866816753194107e-08,  1.5363726185176847e-10],
           [ 4.7023121984782890e-01, -6.9056638417407275e-05, -3.4613589656303534e-09,  2.5671353602692608e-11],
           [ 4.5971746193312840e-01, -6.8322950537177588e-05,  5.7024829653695539e-09, -7.7870886487934126e-12],
           [ 4.4940992554768705e-01, -6.7127416885499750e-05,  2.8521328397518123e-09,  3.1170304127739110e-12],
           [ 4.3925698322616374e-01, -6.6040900595104064e-05,  5.0721939262624315e-09, -1.4774320900464914e-15],
           [ 4.2931015030474751e-01, -6.4494998829828698e-05,  4.2809624418565996e-09, -3.1083056368026888e-12],
           [ 4.1956953891259041e-01, -6.3406739759731888e-05,  2.2228205011821885e-09,  7.2525768516362711e-12],
           [ 4.0998364973195378e-01, -6.2223884242958535e-05,  5.0616247775362896e-09, -4.1372297448589004e-12],
           [ 4.0060364569311990e-01, -6.0969371926122345e-05,  2.8578723187590725e-09, -1.6653295246798977e-15],
           [ 3.9137828377355494e-01, -6.0098408478996179e-05,  2.2889536217805501e-09,  9.9658410256322904e-12],
           [ 3.8230772415776193e-01, -5.8706342719499017e-05,  5.1198166006777405e-09, -1.0325232685089870e-11],
           [ 3.7344324190517536e-01, -5.7865256748476574e-05,  5.0225058368420351e-10,  1.2877262585148626e-11],
           [ 3.6468182236186752e-01, -5.6814918139790719e-05,  9.6092704240055825e-09, -1.9360364009725141e-11],
           [ 3.5617788338880291e-01, -5.5234990018561367e-05,  1.4922075704292841e-09,  9.6695497157105904e-12],
           [ 3.4782895495936433e-01, -5.4106417228079051e-05,  5.8987726796415382e-09, -9.6566473718133220e-12],
           [ 3.3968595972707943e-01, -5.2981320238111385e-05,  1.8483852179254514e-09,  1.2149902602237674e-11],
           [ 3.3169754254026218e-01, -5.1571360258098850e-05,  6.9388007573970828e-09, -9.1207463394534127e-12],
           [ 3.2396694231114470e-01, -5.0091922583747291e-05,  1.6617964477795208e-09,  5.4554776313716244e-12],
           [ 3.1639084003524331e-01, -4.9205284184009293e-05,  3.8043964070376042e-09, -3.1119106712094067e-12],
           [ 3.0896929978635945e-01, -4.8262533630317092e-05,  3.1783784161103295e-09,  4.1258465608223758e-12],
           [ 3.0170251378589652e-01, -4.7006286123031223e-05,  5.5401661015733086e-09, -7.2486142576397204e-12],
           [ 2.9464177311173950e-01, -4.5822707220513213e-05,  1.3367251090721324e-09,  1.3089502604059926e-11],
           [ 2.8773577066755318e-01, -4.4503232469264220e-05,  4.5600555436139873e-09, -6.6468389493585984e-12],
           [ 2.8103586160502364e-01, -4.3576461198160016e-05,  1.1384362495545373e-09,  5.0144758127067167e-12],
           [ 2.7443899923332249e-01, -4.2880070794040561e-05,  5.1424716262848547e-09, -7.5260257334199195e-12],
           [ 2.6799687509159204e-01, -4.1837038444663671e-05,  9.2991743518240189e-10,  1.8823650271815749e-11],
           [ 2.6170913677392565e-01, -4.0242018859808645e-05,  3.3287404627008487e-09, -7.2938894732067551e-12],
           [ 2.5562774813312084e-01, -3.9735637145891106e-05, -7.3979077201114449e-10,  1.2104115123542154e-11],
           [ 2.4959769862555176e-01, -3.9117743554584818e-05,  9.3187332806661090e-09, -2.2239347313263786e-11],
           [ 2.4377387064724182e-01, -3.7826970880401336e-05,  4.7893078565840320e-10,  9.3472915786291079e-12],
           [ 2.3805324954426332e-01, -3.7029698924366889e-05,  4.4318604054701700e-09, -7.2602216735140481e-12],
           [ 2.3248715843140161e-01, -3.6184740371187085e-05,  1.1082043379651207e-09,  7.3034162807768019e-12],
           [ 2.2702419410161978e-01, -3.5338077507823055e-05,  4.4367325985060360e-09, -7.2882775002528692e-12],
           [ 2.2171591994645781e-01, -3.4493588763901249e-05,  4.2852098934520059e-09, -1.3591342820495025e-11],
           [ 2.1651051627917081e-01, -3.4134464587656698e-05,  9.6433615948607188e-09, -2.0536637642724549e-11],
           [ 2.1145970667580183e-01, -3.2626105024833823e-05,  5.9257384199590452e-07, -2.5826863483055197e-09],
           [ 2.1110877446646439e-01, -3.1964157827545101e-05, -5.9694840643309610e-07,  2.6258888382240855e-09],
           [ 2.0166746781830355e-01, -3.0949240278538919e-05,  1.5743787597704614e-10,  6.5288921383058150e-12],
           [ 1.9697756991881360e-01, -3.0446337768330605e-05, -3.1903597096046501e-09,  2.1392727562452056e-11],
           [ 1.9233917133706238e-01, -2.9928172339485394e-05,  5.5483951342977865e-09, -1.4569049290589614e-11],
           [ 1.8785541487458007e-01, -2.9252153229305618e-05, -1.1156270001480191e-09,  1.4592092460340975e-11],
           [ 1.8342312569293587e-01, -2.8575459026805641e-05,  5.5512058490573878e-09, -1.4581851826465937e-11],
           [ 1.7914554270436184e-01, -2.7899475256644127e-05, -1.1193085839507228e-09,  1.4609835426264155e-11],
           [ 1.7491937894127499e-01, -2.7222666919282594e-05,  5.5547679953280140e-09, -1.4593926598106887e-11],
           [ 1.7084800146350981e-01, -2.6546438744182356e-05, -1.1090606089128319e-09,  1.4529790906049977e-11],
           [ 1.6682799515588093e-01, -2.5872084108476679e-05,  5.0064733740451823e-09, -1.0953128141505480e-11],
           [ 1.6296259893062032e-01, -2.5109295200459251e-05,  5.5592863291737230e-10, -2.2652026237678132e-15],
           [ 1.5914884618915121e-01, -2.4940005986303486e-05, -2.3253352655514793e-12,  1.0921412773972564e-11],
           [ 1.5538659276542083e-01, -2.4179740412644749e-05,  4.9948261108319055e-09, -1.0926514233574896e-11],
           [ 1.5177893340560847e-01, -2.3418647205739978e-05,  5.5498065217122408e-10,  4.6681020232945462e-24],
           [ 1.4822282141888574e-01, -2.3249489102957852e-05, -3.3252297065347144e-09,  3.2740513641597576e-11],
           [ 1.4471825680525263e-01, -2.1981749181160182e-05,  3.7907124314535823e-12, -1.1305406716369664e-14],
           [ 1.4136828625553757e-01, -2.1981381502000379e-05, -6.6561465526005117e-09,  4.3677765175813957e-11],
           [ 1.3801833172427277e-01, -2.0966827097303514e-05,  6.3088614603683476e-17, -2.0698889532764654e-19],
           [ 1.3482298727537631e-01, -2.0966827092496538e-05, -3.4095990828130745e-09,  2.2372697393776541e-11],
           [ 1.3162764282647985e-01, -2.0447204192276571e-05,  6.4944744434490960e-09, -2.1307330851216796e-11],
           [ 1.2858690845995169e-01, -1.9952325239686174e-05, -8.6926478314025238e-21,  4.9015071244592738e-23],
           [ 1.2554617409342353e-01, -1.9952325239685415e-05,  7.7669699496502024e-09, -2.1842842421781425e-11],
           [ 1.2260851845462438e-01, -1.9106902646450396e-05, -8.6230682425876506e-13,  7.2854741948129148e-12],
           [ 1.1972239417046453e-01, -1.8599533452165663e-05,  2.9595896915459569e-09, -4.8591172577041632e-12],
           [ 1.1693936463248397e-01, -1.8036020587900337e-05,  3.6877014433919796e-10,  2.4325784748542268e-12],
           [ 1.1420785043069245e-01, -1.7754123996391347e-05,  1.4805610903737508e-09, -2.4323244395051678e-12],
           [ 1.1152789962044088e-01, -1.7472326727067671e-05, -1.4818245534261655e-09,  1.9422389257620072e-11],
           [ 1.0889944812792803e-01, -1.6570687596379765e-05,  3.1057790869503736e-12, -1.1321112193476552e-14],
           [ 1.0637410740004476e-01, -1.6570529779218286e-05, -2.0687324952708667e-12,  1.1311966837487815e-14],
           [ 1.0384875065371119e-01, -1.6570372141802151e-05,  7.3945693492987695e-09, -1.9408318502102276e-11],
           [ 1.0142647263510660e-01, -1.5668826246736062e-05,  3.6921072154877024e-10,  2.4316991374571394e-12],
           [ 9.9055725971141331e-02, -1.5386856637131647e-05,  1.1105642622699096e-09, -5.6559819017563591e-15],
           [ 9.6736542698716024e-02, -1.5048750743426424e-05,  1.1079789900559530e-09,  3.3914803332587019e-15],
           [ 9.4468858744029438e-02, -1.4710802438132564e-05,  1.1103925113491090e-09,  9.9197167995009099e-24],
           [ 9.2252722162432493e-02, -1.4372354800672670e-05,  1.1102195809574972e-09, -3.3935894794912120e-15],
           [ 9.0088148972375492e-02, -1.4034196328481177e-05,  1.1081511700951913e-09,  4.5240834667237330e-15],
           [ 8.7975091118507528e-02, -1.3696116626005705e-05,  1.1103924577811849e-09, -3.3946450161329003e-15],
           [ 8.5913580637729206e-02, -1.3357905534505286e-05,  1.1090129276505046e-09,  2.2627449301966031e-15],
           [ 8.3903601511590223e-02, -1.3019720732245334e-05,  1.1098750602630002e-09, -1.1315482704886547e-15],
           [ 8.1945169758540867e-02, -1.2681509657082851e-05, -3.4478873309742723e-13,  7.2803816557986575e-12],
           [ 8.0038269360130865e-02, -1.2174337557550746e-05,  1.9675174759056864e-21, -4.2304674586106823e-24],
           [ 7.8182900316360188e-02, -1.2174337557550451e-05,  6.6695507657818289e-22, -1.4587818822794761e-25],
           [ 7.6327531272589497e-02, -1.2174337557550250e-05,  2.2197500669433439e-09, -2.2627449367611214e-15],
           [ 7.4523709601908475e-02, -1.1497915399058448e-05,  5.5478233768720733e-09, -2.1842276867382147e-11],
           [ 7.2822966658956406e-02, -1.1328849274913928e-05, -4.4384656068958203e-09,  2.1842276867385630e-11],
           [ 7.1070676342914710e-02, -1.1159783150769398e-05,  2.2190603822872830e-09,  1.3129036940515909e-24],
           [ 6.9421464754601994e-02, -1.0483413546248143e-05,  1.0344734134213175e-12, -4.5251383527484871e-15],
           [ 6.7823800539378920e-02, -1.0483413538083784e-05, -7.4072142942837938e-10,  4.8581137370605097e-12],
           [ 6.6226120305705530e-02, -1.0370685278644533e-05,  2.9605864282968633e-09, -9.7147188756920390e-12],
           [ 6.4680003463572083e-02, -1.0145193722522514e-05, -4.4406494140289623e-09,  2.9132086153100762e-11],
           [ 6.3133854584538046e-02, -9.4688591400447967e-06,  7.5846242467650384e-18, -2.4887694180817236e-20],
           [ 6.1690800451683271e-02, -9.4688591394671152e-06, -2.2231835885939959e-23,  0.0000000000000000e+00],
           [ 6.0247746318828503e-02, -9.4688591394671169e-06, -2.0688397100556923e-12,  9.0495738534452263e-15],
           [ 5.8804676167523433e-02, -9.4688591721194746e-06,  3.3275564481600051e-09, -7.2758575718317733e-12],
           [ 5.7413153389308011e-02, -8.9615819319929476e-06,  1.0340448902382056e-12,  7.2735965843787681e-12],
           [ 5.6073177984182217e-02, -8.4544623292935936e-06,  1.7232474669871110e-12, -6.7847199326681401e-15],
           [ 5.4784733933695762e-02, -8.4544098242961261e-06, -1.1107373531769660e-09,  7.2860393942753152e-12],
           [ 5.3496273864758997e-02, -8.2852911625785151e-06,  2.2204781476630266e-09, -7.2862906337809923e-12],
           [ 5.2259377187362198e-02, -8.1161783358221685e-06, -1.7155329923116749e-12,  9.2459701269635716e-15],
           [ 5.1022464491515075e-02, -8.1160569962288221e-06,  2.9141051610596716e-09, -7.4800491727779584e-12],
           [ 4.9826783286759553e-02, -7.7490272237632572e-06,  2.8548718469846747e-10,  1.2469111181839338e-12],
           [ 4.8656875768548838e-02, -7.5751293547503518e-06,  7.7638378752165314e-10, -7.2728408136274328e-13],
           [ 4.7517883859431675e-02, -7.3891627528904060e-06,  3.6980496707000159e-10,  1.2151577802893547e-12],
           [ 4.6404665636859334e-02, -7.1917773100260704e-06,  6.9952344175451077e-10, -7.0818522675703543e-13],
           [ 4.5322379041830840e-02, -7.0279069853159106e-06,  2.5133561875674404e-10,  9.9691774844447138e-13],
           [ 4.4260692173897824e-02, -6.8818373716235196e-06,  6.6664944615718905e-10, -7.3132085089056559e-13],
           [ 4.3224795010959945e-02, -6.7295990681321493e-06,  3.9391409644896492e-10,  3.2334331366199661e-13],
           [ 4.2209497575117549e-02, -6.5870043689323524e-06,  6.7789142991643251e-10, -4.0254357426239098e-13],
           [ 4.1219957807369673e-02, -6.4084312024299021e-06,  4.9427400382283229e-10,  3.9975160537024430e-13],
           [ 4.0256207744616919e-02, -6.2299228815268771e-06,  5.4149419878645506e-10, -3.1889477870209373e-13],
           [ 3.9318215349958684e-02, -6.0870951705229240e-06,  3.3387591316925036e-10,  7.2272214018135230e-13],
           [ 3.8400854719296551e-02, -5.9349724792653176e-06,  6.1505429448750367e-10, -3.9955822172296043e-13],
           [ 3.7509235738278628e-02, -5.7753440603968203e-06,  3.9531771012165099e-10, -1.7901644121936051e-15],
           [ 3.6638248521256800e-02, -5.6549759561387327e-06,  3.5219345614586697e-10,  9.2295688162367092e-13],
           [ 3.5787877049780779e-02, -5.4833182656366555e-06,  7.3277322002832247e-10, -1.6881299609046521e-12],
           [ 3.4963263246399263e-02, -5.3775932921343629e-06,  3.2160568675718965e-10,  8.2938637451877303e-13],
           [ 3.4154123266014830e-02, -5.2217784921652375e-06,  2.5892162701665672e-08, -5.9342764380314063e-10],
           [ 3.4014970988193276e-02, -5.1695553991634588e-06, -2.3775163467791055e-09,  1.3059486548662703e-11],
           [ 3.3360441090177162e-02, -5.1549883220058449e-06,  1.6195314551700101e-10,  1.0312963436016873e-12],
           [ 3.2582232737336569e-02, -5.0337670791561477e-06,  3.7764480613967477e-10,  2.1651831411333264e-13],
           [ 3.1824624111591468e-02, -4.9035745350471742e-06,  3.8069902056279463e-10,  4.1525947553019732e-13],
           [ 3.1087631231392156e-02, -4.7586033228304578e-06,  3.8035404421076559e-10, -2.2611119175331879e-24],
           [ 3.0371254096738649e-02, -4.6426714101551712e-06,  2.8531823237701705e-10, -8.3059754740682150e-16],
           [ 2.9670334766631907e-02, -4.5557642867045399e-06,  2.2786246521812440e-10,  1.0014315095786192e-12],
           [ 2.8984873241071935e-02, -4.4165347836123231e-06,  4.8861036925777252e-10, -8.7529738205493662e-13],
           [ 2.8320043479508065e-02, -4.3285946838352607e-06,  1.4757359916880976e-10,  4.8604926347539681e-13],
           [ 2.7665513581491944e-02, -4.2497476601836416e-06,  5.9190273823821417e-10, -3.6469547056986906e-25],
           [ 2.7031599429021613e-02, -4.0693357055686619e-06,  2.9587455885708039e-10, -1.0048830790334167e-15],
           [ 2.6418301022097079e-02, -3.9792231575486901e-06,  1.4782233204801966e-10,  5.0283193624409091e-16],
           [ 2.5815302478720291e-02, -3.9341318747788379e-06,  2.3709232116082231e-10,  3.8772311287320721e-13],
           [ 2.5222619817341554e-02, -3.8348506433908863e-06,  6.2089557744378366e-10, -5.8098261478470154e-13],
           [ 2.4650552901508613e-02, -3.6860829597115042e-06,  2.2184844545212967e-10, -7.5346711258892269e-16],
           [ 2.4093943790222439e-02, -3.6185160530766712e-06,  1.1057920181511571e-10,  7.3011314722562189e-13],
           [ 2.3547634542484010e-02, -3.5339392141725054e-06,  4.4450176111457712e-10, -7.3086661433850429e-13],
           [ 2.3016799117742660e-02, -3.4493798751146983e-06,  1.1034954503920694e-10,  7.3086661433715326e-13],
           [ 2.2496263556549052e-02, -3.3648205360569290e-06,  4.4438693272669085e-10, -7.3011314722452956e-13],
           [ 2.1991201818352523e-02, -3.2802436971526776e-06, -2.2965677539187869e-13,  1.4556984609697592e-12],
           [ 2.1496439943703739e-02, -3.1788845872772532e-06,  3.3311768908913475e-10, -7.2860386939802155e-13],
           [ 2.1017135873601722e-02, -3.1281174514600126e-06,  4.3629977926156133e-22,  7.2860386939795036e-13],
           [ 2.0542989744498731e-02, -3.0773503156427551e-06,  6.6531567958035434e-10, -1.4556984609703026e-12],
           [ 2.0084301419942514e-02, -2.9759912057672600e-06, -2.2989476226512808e-13,  1.4572069567905994e-12],
           [ 1.9635912958934035e-02, -2.8745270605445491e-06,  3.1128729579075268e-10, -5.8384975905395703e-13],
           [ 1.9202998320922638e-02, -2.8203277559270626e-06,  2.9521545099968007e-11,  3.8862877336719594e-13],
           [ 1.8775241623910265e-02, -2.7842509931226306e-06,  3.6924966074962915e-10, -4.8397652127666906e-13],
           [ 1.8357784790445635e-02, -2.7054258641125637e-06,  2.2173361706397074e-10,  1.1670255058236365e-24],
           [ 1.7950627820528749e-02, -2.6378414576313859e-06,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_dT = \
    np.array([[ 5.4680664916886938e-03, -1.5309731464493474e-18,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 5.4680664916886938e-03, -1.5309731464493474e-18,  3.3951974841979826e-21, -8.8007388054359438e-24],
           [ 5.4680664916885082e-03, -1.1093284952190294e-18,  2.5943809235976799e-21,  5.2547018412093369e-24],
           [ 5.4680664916884180e-03,  4.7572141800001580e-20,  4.0045079278072898e-20, -1.6189245171404856e-22],
           [ 5.4680664916887823e-03,  9.7308661779037488e-19, -3.1650788646696133e-21, -1.6962874370488483e-23],
           [ 5.4680664916887970e-03, -1.1735563672782728e-18, -7.5287149431695126e-21,  2.4700508343732904e-23],
           [ 5.4680664916885308e-03, -1.7472444459477265e-18,  8.0578225294079461e-20, -4.8413037236327449e-22],
           [ 5.4680664916884223e-03, -1.0919888887972468e-17, -1.2593725665309713e-06,  8.7229182926807240e-09],
           [ 2.1036201681930719e-03, -4.2997001846340133e-05, -4.6535354701940460e-07,  6.2961620614362932e-09],
           [-1.0936132983378195e-03, -1.0768238517940500e-17,  1.4010175958864847e-19, -4.3214517176775599e-22],
           [-1.0936132983377362e-03,  1.8240776707695173e-18,  4.9305839521656188e-21, -3.2352913071950399e-23],
           [-1.0936132983374583e-03,  1.0726566764596487e-18, -8.9947175698699766e-21,  1.2652751457796626e-23],
           [-1.0936132983374589e-03, -7.8732393274141548e-19, -2.5791760197520440e-20,  1.2410908474471247e-22],
           [-1.0936132983377386e-03, -1.0689926445796563e-21,  1.2057731994962823e-20, -5.2730642175183740e-23],
           [-1.0936132983376454e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-1.0936132983376454e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-1.0936132983376454e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-1.0936132983376454e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-1.0936132983376454e-03,  0.0000000000000000e+00,  6.9313141326425908e-23, -2.7102709440065249e-25],
           [-1.0936132983376447e-03,  2.2422147321539113e-21, -4.5294757406418307e-21,  1.4860484713392724e-23],
           [-1.0936132983376970e-03, -3.4290383670469098e-19,  9.8766833003852018e-21, -3.3503169505108838e-23],
           [-1.0936132983376385e-03,  3.3309951075778710e-19, -5.8213257761420534e-08,  5.4828207499220468e-11],
           [-1.7962534031197115e-03, -1.1326075969371505e-05, -7.0402263714378296e-06,  1.3341488980059974e-07],
           [-5.1035287255760901e-03, -7.8957750740329919e-19,  2.6270801241362353e-20, -1.1363530205743396e-22],
           [-5.1035287255760025e-03, -7.0003604837646079e-19,  8.0103499058627226e-22, -5.2561351088340778e-24],
           [-5.1035287255761091e-03, -8.2211378094182762e-19, -8.1362779193709055e-21,  3.9285252173459262e-23],
           [-5.1035287255762844e-03, -5.6476177520534840e-19,  5.1122349772103968e-20, -2.1335946317062932e-22],
           [-5.1035287255759383e-03,  1.5102337934230159e-19, -1.5369140510553164e-22, -1.5732191073794693e-24],
           [-5.1035287255759244e-03, -5.4393891800932293e-21, -2.3785987594501471e-23,  1.4522769987697740e-25],
           [-5.1035287255759253e-03, -2.5702870908131501e-21,  4.4854789516898960e-23, -1.8365740589596430e-25],
           [-5.1035287255759253e-03, -1.6952957407491056e-21, -1.2272209591770028e-21,  4.6949968528098325e-24],
           [-5.1035287255759374e-03, -4.8617633785550645e-20,  4.1447049299978280e-21, -1.7261531935596549e-23],
           [-5.1035287255759097e-03,  1.1951834972280629e-20, -8.4283588876115352e-21,  3.7146378006578812e-23],
           [-5.1035287255759721e-03,  3.1246627378512396e-20,  4.4509380743643329e-21, -2.0259095524366633e-23],
           [-5.1035287255759357e-03, -2.3706118953285033e-20, -4.2882980760734828e-22,  2.1192129654763091e-24],
           [-5.1035287255759417e-03, -6.7524491368820174e-21,  7.7722580014964403e-23, -2.1925965210174194e-25],
           [-5.1035287255759417e-03,  1.6599770794834876e-21,  1.0985600094819439e-21, -4.8294231343355939e-24],
           [-5.1035287255759331e-03,  0.0000000000000000e+00, -2.1775575101507276e-20,  8.8239377243766630e-23],
           [-5.1035287255761265e-03, -4.8891549569987529e-19,  8.0795141626674325e-21, -3.1964614406186946e-23],
           [-5.1035287255761265e-03, -2.5348696699077055e-19, -1.2998419030501462e-20,  6.0428977530393574e-23],
           [-5.1035287255762531e-03, -4.8782999886862922e-21,  4.0652499905717914e-20, -1.7783245803026143e-22],
           [-5.1035287255759391e-03, -4.8782999886862170e-21, -2.6410156267013634e-22,  1.2078540456464439e-24],
           [-5.1035287255759417e-03, -1.2164717529039367e-21,  4.9336159632907998e-23, -2.7135210968989840e-25],
           [-5.1035287255759417e-03, -5.0858872222472883e-21, -3.0937184947227437e-21,  1.3657713942948607e-23],
           [-5.1035287255759660e-03,  3.5810741489980544e-21,  5.9148212651373807e-21, -2.3527530887579134e-23],
           [-5.1035287255759114e-03,  1.6708423840037537e-19, -1.0338991306412681e-21,  8.0285384975799015e-26],
           [-5.1035287255759097e-03, -1.4245414937021773e-19, -2.3457450043214814e-21,  3.8822621511274844e-24],
           [-5.1035287255759721e-03, -5.8693175974989279e-19, -1.2239615311362984e-20,  6.1965198794403883e-23],
           [-5.1035287255761265e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-5.1035287255761265e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-5.1035287255761265e-03,  0.0000000000000000e+00, -1.2014769935993456e-22,  2.9828127944372913e-25],
           [-5.1035287255761282e-03, -1.5837590538349075e-20, -2.5822535975271016e-20,  1.0959506282808033e-22],
           [-5.1035287255763425e-03, -2.5026067651122514e-19,  4.3571358780363169e-20, -1.8274430875856431e-22],
           [-5.1035287255760155e-03,  2.9716310996655542e-19, -2.3036852191295572e-20,  1.0626504001229736e-22],
           [-5.1035287255761291e-03,  6.7978950920773919e-19,  1.3956927318770910e-20, -6.6694777071041108e-23],
           [-5.1035287255759374e-03,  2.8675029945261255e-19, -2.6427828038110274e-21,  8.6705472565890588e-24],
           [-5.1035287255759244e-03,  8.5370249801600629e-20, -2.7261715816003135e-21, -6.3020833666338847e-36],
           [-5.1035287255759747e-03, -7.4556684827061216e-19, -1.9619259289705718e-08,  7.7241178305932431e-11],
           [-5.2857976086322627e-03, -5.9799502315067994e-07,  3.9238518579447017e-09, -3.6766161253688152e-24],
           [-5.2857976086322618e-03,  5.9799502315060593e-07,  1.5695407431776051e-08, -7.7241178305982798e-11],
           [-5.1035287255759417e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-5.1035287255759417e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-5.1035287255759417e-03,  0.0000000000000000e+00, -6.3797294643746701e-08,  2.7934837628456917e-10],
           [-5.5964862399990834e-03,  1.8819624511246768e-08,  3.8297050324369403e-05, -1.2859578736801071e-06],
           [-5.6420290541868943e-04,  3.2265502061645876e-06, -1.2806893720974764e-08, -2.3050546846950504e-12],
           [-3.6691356660138155e-04, -2.9109630728991291e-07, -3.4438575803518509e-09,  2.2413562895262906e-11],
           [-4.1192767570713388e-04,  2.2093199986970673e-07,  3.2218388213386800e-09, -1.7264572793509437e-11],
           [-3.6453776611267347e-04,  5.4728253125266718e-22, -1.8003241456848736e-25, -2.2382285499911831e-26],
           [-3.6453776611267347e-04, -1.0671281225250969e-21, -1.2253767811148186e-23,  8.0405300598085038e-26],
           [-3.6453776611267364e-04,  8.0034609189385689e-22,  8.1596573536544506e-24, -2.6739291884986931e-26],
           [-3.6453776611267342e-04,  1.4242885256157726e-21,  4.0687725994798392e-24, -1.1445162565244212e-26],
           [-3.6453776611267315e-04,  1.8669826172331844e-21,  1.0618335440544180e-20, -4.3504084965148916e-23],
           [-3.6453776611258023e-04,  2.0708931563463485e-19, -4.0203251765205374e-20,  1.7587289251303998e-22],
           [-3.6453776611285990e-04,  2.0748295364099654e-19,  2.1831748654123980e-20, -9.8429568943066700e-23],
           [-3.6453776611266962e-04,  3.4953078926399570e-21,  3.1355660408432570e-24, -6.3860236997163039e-26],
           [-3.6453776611266924e-04,  1.4208077713125512e-24, -1.7384728324907861e-24,  1.1346128260185277e-26],
           [-3.6453776611266924e-04,  2.6210164412897325e-22,  5.8626206544584664e-24, -1.9123003230825303e-26],
           [-3.6453776611266914e-04,  7.1658956905279620e-22,  4.9071301493146650e-23, -1.3842925605697518e-25],
           [-3.6453776611266838e-04,  6.0281482296903503e-21,  1.0269516601638395e-20, -4.2175489157999536e-23],
           [-3.6453776611257823e-04,  1.9750344121018178e-19, -4.1860675104937918e-20,  1.8898361986605299e-22],
           [-3.6453776611285144e-04,  6.0623426604576971e-19,  9.4111367752852146e-21, -3.7482664891807483e-23],
           [-3.6453776611267315e-04,  8.6305861834006890e-19, -1.4686801910022438e-21, -1.2721172480606642e-24],
           [-3.6453776611258023e-04,  3.2676722643663416e-19, -4.2482093059186418e-20,  1.8561184895209780e-22],
           [-3.6453776611286012e-04,  3.1115403274960843e-19,  4.3782287226581817e-20, -1.9531305377117652e-22],
           [-3.6453776611248715e-04,  4.7112844142455321e-20, -2.3671669792701895e-22,  1.3739725152692028e-25],
           [-3.6453776611248498e-04, -1.5464938619828906e-20, -1.9498834165058314e-22,  3.0891997312394411e-26],
           [-3.6453776611249176e-04, -7.2744914808431553e-20, -4.6547985661093281e-20,  2.0434447089343641e-22],
           [-3.6453776611286066e-04, -2.2404029415878697e-20,  4.3262127689204780e-20, -1.7733927820792166e-22],
           [-3.6453776611248699e-04,  8.0737394756251369e-19, -5.2763966961377641e-21, -1.2466251683240572e-25],
           [-3.6453776611248694e-04, -8.0955791051110902e-19, -3.6418723794652469e-20,  1.7088993914454208e-22],
           [-3.6453776611285128e-04, -2.8387841638405816e-21,  4.7209548176987052e-20, -2.0651851359500423e-22],
           [-3.6453776611248623e-04, -3.0167967610686418e-21, -5.9677440708947655e-23,  2.6111435596237435e-25],
           [-3.6453776611248715e-04, -3.0127425967459063e-21,  6.2186324842316435e-23, -2.7833118525392181e-25],
           [-3.6453776611248715e-04, -3.4517107124771898e-21, -4.4925449011135500e-20,  1.9227660170923460e-22],
           [-3.6453776611285052e-04, -2.9941795456379100e-19,  4.0909456344615798e-20, -1.7861439220393463e-22],
           [-3.6453776611257823e-04, -2.7558067834838568e-19, -2.5629630135078190e-21,  2.8916881727968226e-24],
           [-3.6453776611266952e-04, -8.5528683837691527e-19, -1.0342468164305262e-20,  5.0733102443080035e-23],
           [-3.6453776611286050e-04, -4.7272655066199718e-19,  5.4438543801734783e-20, -2.3133236271520917e-22],
           [-3.6453776611248699e-04,  1.5317901376093761e-21, -9.5951891387858231e-24,  1.2323646731758895e-26],
           [-3.6453776611248694e-04, -5.3414532794269079e-22, -5.0011023864009521e-24, -5.4475791134463580e-27],
           [-3.6453776611248715e-04, -2.4380538305274765e-21, -4.6163542165428184e-20,  1.9758486043172954e-22],
           [-3.6453776611286034e-04, -3.0591006179053021e-19,  4.2342202640051689e-20, -1.8557663612788006e-22],
           [-3.6453776611258039e-04, -3.3048193404315764e-19, -2.1914209429129293e-21,  2.3274674180189247e-24],
           [-3.6453776611267342e-04, -8.3625543846683573e-19, -8.6854635785845360e-21,  4.2885098939384796e-23],
           [-3.6453776611285079e-04, -4.9546769059219258e-19,  5.3466370460233165e-20, -2.2676152193001263e-22],
           [-3.6453776611248715e-04,  9.5596894309540313e-22, -7.9611411450360152e-24,  1.1078602698386787e-26],
           [-3.6453776611248715e-04, -6.9865997568732044e-22, -4.2027579041771491e-24, -3.6027762456954995e-27],
           [-3.6453776611248737e-04, -2.2306922341291847e-21, -4.6635485712408201e-20,  1.9955465821869443e-22],
           [-3.6453776611286451e-04, -3.1230094136790634e-19,  4.3158145611126379e-20, -1.8880227847238145e-22],
           [-3.6453776611257801e-04, -3.1292738085465005e-19, -2.3046381556725781e-21,  1.5794057862648744e-24],
           [-3.6453776611267364e-04, -9.0533239150045882e-19, -8.6511746655090120e-21,  4.1836065361387972e-23],
           [-3.6453776611286446e-04, -6.2718718926388270e-19,  4.6640906292573993e-20, -1.9821993175692590e-22],
           [-3.6453776611257839e-04, -2.2246463789551413e-19, -9.2093370136676795e-21,  4.3052158475348427e-23],
           [-3.6453776611267380e-04, -2.9713258970166929e-20, -7.3867965264153834e-23,  7.0726598648856131e-25],
           [-3.6453776611267754e-04, -2.9478446076424011e-21, -1.6456330377954605e-23,  1.1238014875906794e-25],
           [-3.6453776611267797e-04, -1.3339101531563314e-22,  1.7350467697200105e-24, -5.6415855666163952e-27],
           [-3.6453776611267797e-04,  2.3609029259404708e-24,  1.6777915470856313e-23, -6.4247072998228934e-26],
           [-3.6453776611267781e-04,  6.3970824396487064e-22, -2.3854616290307064e-20,  1.0128717081799840e-22],
           [-3.6453776611287324e-04, -2.1283277554805773e-19,  4.1789429776184993e-20, -1.8234261017927302e-22],
           [-3.6453776611258050e-04, -1.8055168515874959e-19, -1.0505910697413443e-20,  4.9173289514652964e-23],
           [-3.6453776611267797e-04,  4.3507796303206647e-20,  6.2577769488176652e-22, -3.3911240264089146e-24],
           [-3.6453776611266881e-04, -2.0394605996482078e-21, -8.1281765609791313e-24,  4.9253004529937125e-26],
           [-3.6453776611266914e-04, -1.0851134279609086e-21,  2.3045118783624675e-25, -7.3777803569949994e-28],
           [-3.6453776611266930e-04, -1.0662782726797050e-21,  1.6866379394684929e-23, -6.4762485579386173e-26],
           [-3.6453776611266930e-04, -4.3787967439053649e-22, -2.4909489939948153e-20,  1.0582017820418632e-22],
           [-3.6453776611287335e-04, -2.1958822698753281e-19,  4.1971631915666784e-20, -1.8315541020702242e-22],
           [-3.6453776611258029e-04, -1.8840561960167354e-19, -1.0396969445454938e-20,  4.8781292795074039e-23],
           [-3.6453776611267781e-04,  4.1545890268052896e-20,  6.0558621845745922e-22, -3.2813699678552658e-24],
           [-3.6453776611266903e-04, -2.5083643799584690e-21, -2.9085831474774362e-23,  1.7632878766136479e-25],
           [-3.6453776611266946e-04,  9.1238449647154338e-22,  2.0855829490377609e-24, -7.0223413735354732e-27],
           [-3.6453776611266930e-04,  1.0587725331988333e-21, -2.6055237826395436e-23,  6.4118815265621443e-26],
           [-3.6453776611266952e-04, -2.4152393117555306e-21, -2.1592766175568720e-20,  9.1692476006894639e-23],
           [-3.6453776611284684e-04, -1.9500804499936246e-19,  3.8270655633124654e-20, -1.6738765327471905e-22],
           [-3.6453776611258018e-04, -1.9322859378859623e-19, -8.9587967074650111e-21,  4.1971936719617904e-23],
           [-3.6453776611266914e-04,  6.2055673112198872e-22,  4.5392623985204031e-23, -2.4799385490902704e-25],
           [-3.6453776611266887e-04, -2.8233087449636739e-21, -1.4572420627238898e-23,  9.4656564743396938e-26],
           [-3.6453776611266930e-04, -6.6957058668241950e-22,  8.7643135573412583e-24, -2.8679827891805834e-26],
           [-3.6453776611266930e-04,  3.4597872260185373e-24,  2.2365586501664865e-23, -8.5643598891042327e-26],
           [-3.6453776611266908e-04,  8.5307753279457536e-22, -2.1690635261191369e-20,  9.2086735061716174e-23],
           [-3.6453776611284678e-04, -1.9409932689740843e-19,  3.8433375844648347e-20, -1.6857107311583686e-22],
           [-3.6453776611258039e-04, -2.2518023084134140e-19, -8.1260532640213553e-21,  3.7837493246052601e-23],
           [-3.6453776611266952e-04, -6.5587654311774287e-20, -1.9355859818200512e-22,  1.7813784855385440e-24],
           [-3.6453776611267770e-04, -4.6270751480254740e-22,  8.0517887146193511e-24, -4.8226385680402397e-26],
           [-3.6453776611267776e-04, -1.3688056930279985e-21, -7.2613121583090513e-25,  2.4382665463033860e-27],
           [-3.6453776611267797e-04, -1.4202387067518467e-21,  4.4570851523525091e-23, -1.7004918541882991e-25],
           [-3.6453776611267776e-04,  3.1639213141877561e-22, -2.1668193441570191e-20,  9.1962586361785944e-23],
           [-3.6453776611285546e-04, -1.9644608940492395e-19,  3.9963147899157260e-20, -1.7481691994381837e-22],
           [-3.6453776611257600e-04, -1.9644608940492390e-19, -9.4487463912934703e-21,  4.4161398549692891e-23],
           [-3.6453776611266908e-04,  6.2214246740250993e-22,  3.1489884302530847e-23, -1.7215209915232479e-25],
           [-3.6453776611266887e-04, -1.7748308124101800e-21, -3.5498436889271090e-24,  2.3132940309704051e-26],
           [-3.6453776611266914e-04, -1.2449828096126066e-21,  2.3303323961214159e-24, -7.6332473116655760e-27],
           [-3.6453776611266930e-04, -1.0665614055189720e-21,  1.6399649769046092e-23, -6.1687764761353672e-26],
           [-3.6453776611266930e-04, -3.6618381376464456e-22, -2.6350497388621316e-20,  1.1527252074613808e-22],
           [-3.6453776611287335e-04, -1.2208353099245195e-22,  5.0422717376514070e-20, -2.2055171205769605e-22],
           [-3.6453776611248292e-04,  1.2787773072502290e-21, -2.9896463738195010e-23,  1.2579714903949958e-25],
           [-3.6453776611248298e-04,  9.3153833667541288e-22,  2.5220460927117797e-23, -1.1370479747134069e-25],
           [-3.6453776611248265e-04,  6.9609381650694171e-22, -4.5156126409331058e-20,  1.9329002534309367e-22],
           [-3.6453776611284716e-04, -2.9496801870995233e-19,  4.0287310966725225e-20, -1.7628582842084071e-22],
           [-3.6453776611258039e-04, -2.9851266296309737e-19, -2.2358778467525595e-21,  2.3454231708421796e-24],
           [-3.6453776611266952e-04, -8.1658552366001403e-19, -9.1135448365743425e-21,  4.4862445570238007e-23],
           [-3.6453776611284684e-04, -4.6850080836560700e-19,  5.2042747951484856e-20, -2.2092448349261059e-22],
           [-3.6453776611249149e-04,  7.1167207682897379e-22, -5.8793617264469308e-24,  7.9369910944369970e-27],
           [-3.6453776611249149e-04, -5.2732942654744805e-22, -3.6284714052604496e-24,  5.6748826234547436e-28],
           [-3.6453776611249165e-04, -1.5937464723186838e-21, -4.6975232025734747e-20,  2.0549347269399528e-22],
           [-3.6453776611285556e-04, -1.4182328446072333e-21,  4.2647012055197116e-20, -1.7439042686521479e-22],
           [-3.6453776611248255e-04,  8.4634043957227334e-19, -5.6128450745348685e-21,  3.1338491898536087e-25],
           [-3.6453776611248282e-04, -8.4261893039805008e-19, -3.9785191511918636e-20,  1.8699048280372004e-22],
           [-3.6453776611287340e-04,  5.9842924418938260e-20,  4.6303441028604462e-20, -2.0098975080821898e-22],
           [-3.6453776611250027e-04,  1.6871260574294840e-19, -3.2102517833186816e-22, -1.6477878804007634e-25],
           [-3.6453776611248260e-04,  5.9382793635067693e-20, -2.8006272864209072e-22, -7.1908233745687282e-25],
           [-3.6453776611248260e-04, -7.6084027425080351e-20, -5.0647626032344986e-20,  2.3020948815805668e-22],
           [-3.6453776611285567e-04,  5.2689052296192411e-19,  1.0423847761479363e-20, -4.0834076695147095e-23],
           [-3.6453776611267781e-04,  8.5887192523163148e-19, -2.8687014660893586e-21,  9.4117502168042002e-24],
           [-3.6453776611258023e-04,  6.4027687351392607e-19, -2.9441719460918383e-20,  8.2794486673048090e-23],
           [-3.6453776611287340e-04, -2.5646645877997934e-18, -2.3543111147571817e-08,  1.0298823774092422e-10],
           [-5.4680664916881999e-04, -1.4437066217143657e-18,  7.0629333442990416e-08, -3.0896471322390648e-10],
           [ 1.0842021724855044e-19, -9.6660156025705383e-22, -3.4470271320421219e-22,  8.6047835802150098e-24],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00]])
