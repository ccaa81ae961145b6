DATA_ORIGIN_NOTE = """
    Data extracted from Venus-GRAM 2021, GRAM Suite 2.1 by Eliot Aretskin-Hariton (NASA GRC)
    Reference data set represents a global average conditions, independent of year, season, or time of day.
    Density variations for Venus are small below about 125 km. Variations of Venus density with Solar
    Zenith Angle (SZA) (as SZA changes with time-of-day and latitude) are significant above about 150 km.
    Variations of Venus density with solar activity (solar cycle) are not large.
    Venus-GRAM is based on the Venus International Reference Atmosphere (VIRA) model published in 1985
    and also contains numerous updates since then. For details see the 
    Venus Global Reference Atmospheric Model (Venus-GRAM): User Guide, NASA/TM-20210022168 by H. L. Justh et al.
    
    Notes:
    The data table contains data from 0 meters to 150,000 meters altitude.
    The original altitude input and output to Venus-GRAM is measured based the reference ellipsoid (a geometric height).
    This data was re-interpolated to be based on the equipotential surface to match Earth and Mars inputs.
    Original source altitudes are included as atm_data._raw_data_geometric .
    """
from collections import namedtuple
import sys

import numpy as np

import openmdao.api as om

atm_data = namedtuple('VenusReference2021', ['alt', 'temp', 'pres', 'rho'])
atm_data.__doc__ = """
    A namedtuple to hold data for the atmosphere model.

    Parameters
    ----------
    alt : float
        Geometric Altitude in meters.
    temp : float
        Temperature in degK.
    pres : float
        Pressure in pascal.
    rho : float
        Density in kg/m^3.
    """

# turn off ruff formatting
# fmt: off

# _raw_data_geometric Units: (Geometric Altitude in kilometers, Temp in degK, pressure in mb, density in kg/m^3)
# This is the original data from Venus-GRAM
# The altitude table for this data was re-interpolated to form the geopotential _raw_data.
# _raw_data_geometric = np.array([
#     0, 735.3, 9.21E+04, 6.48E+01,
#     1, 727.7, 8.65E+04, 6.16E+01,
#     2, 720.2, 8.11E+04, 5.85E+01,
#     3, 712.4, 7.60E+04, 5.55E+01,
#     4, 704.6, 7.12E+04, 5.26E+01,
#     5, 696.8, 6.67E+04, 4.99E+01,
#     6, 688.8, 6.23E+04, 4.72E+01,
#     7, 681.1, 5.83E+04, 4.47E+01,
#     8, 673.6, 5.44E+04, 4.23E+01,
#     9, 665.8, 5.08E+04, 4.00E+01,
#     10, 658.2, 4.74E+04, 3.77E+01,
#     15, 620.8, 3.30E+04, 2.80E+01,
#     20, 580.7, 2.25E+04, 2.04E+01,
#     25, 539.2, 1.49E+04, 1.46E+01,
#     30, 496.9, 9.58E+03, 1.02E+01,
#     40, 417.6, 3.50E+03, 4.40E+00,
#     50, 350.5, 1.07E+03, 1.59E+00,
#     60, 262.8, 2.36E+02, 4.69E-01,
#     70, 229.8, 3.69E+01, 8.39E-02,
#     80, 197.1, 4.47E+00, 1.19E-02,
#     90, 169.4, 3.74E-01, 1.15E-03,
#     100, 173.95, 2.67E-02, 7.99E-05,
#     110, 158, 1.76E-03, 5.81E-06,
#     120, 159, 9.88E-05, 3.20E-07,
#     130, 166.8, 6.27E-06, 1.85E-08,
#     140, 176.2, 5.89E-07, 1.39E-09,
#     150, 194.22, 9.55E-08, 1.61E-10,
# ])

# _raw_data Units: (Geopotential Altitude in meters, Temp in degK, pressure in mb, density in kg/m^3)
_raw_data = np.array([
    0, 735.3, 9.21E+04, 6.48E+01,
    999.8347872, 727.7, 8.65E+04, 6.16E+01,
    1999.339258, 720.2, 8.11E+04, 5.85E+01,
    2998.513576, 712.4, 7.60E+04, 5.55E+01,
    3997.357905, 704.6, 7.12E+04, 5.26E+01,
    4995.872408, 696.8, 6.67E+04, 4.99E+01,
    5994.057249, 688.8, 6.23E+04, 4.72E+01,
    6991.91259, 681.1, 5.83E+04, 4.47E+01,
    7989.438595, 673.6, 5.44E+04, 4.23E+01,
    8986.635428, 665.8, 5.08E+04, 4.00E+01,
    9983.50325, 658.2, 4.74E+04, 3.77E+01,
    14962.9129, 620.8, 3.30E+04, 2.80E+01,
    19934.12168, 580.7, 2.25E+04, 2.04E+01,
    24897.14982, 539.2, 1.49E+04, 1.46E+01,
    29852.01749, 496.9, 9.58E+03, 1.02E+01,
    39737.35185, 417.6, 3.50E+03, 4.40E+00,
    49590.28483, 350.5, 1.07E+03, 1.59E+00,
    59410.97549, 262.8, 2.36E+02, 4.69E-01,
    69199.58182, 229.8, 3.69E+01, 8.39E-02,
    78956.2608, 197.1, 4.47E+00, 1.19E-02,
    88681.16839, 169.4, 3.74E-01, 1.15E-03,
    98374.45951, 173.95, 2.67E-02, 7.99E-05,
    108036.2881, 158, 1.76E-03, 5.81E-06,
    117666.8071, 159, 9.88E-05, 3.20E-07,
    127266.1684, 166.8, 6.27E-06, 1.85E-08,
    136834.5231, 176.2, 5.89E-07, 1.39E-09,
    146372.021, 194.22, 9.55E-08, 1.61E-10,
])

atm_data.alt = \
    np.array([     0.       ,    999.8347872,   1999.339258 ,   2998.513576 ,   3997.357905 ,
             4995.872408 ,   5994.057249 ,   6991.91259  ,   7989.438595 ,   8986.635428 ,
             9983.50325  ,  14962.9129   ,  19934.12168  ,  24897.14982  ,  29852.01749  ,
            39737.35185  ,  49590.28483  ,  59410.97549  ,  69199.58182  ,  78956.2608   ,
            88681.16839  ,  98374.45951  , 108036.2881   , 117666.8071   , 127266.1684   ,
           136834.5231   , 146372.021    ])

atm_data.akima_T = \
    np.array([[ 7.3529999999999995e+02, -7.6500245813713817e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 7.3529999999999995e+02, -7.6500245813713817e-03,  7.3781523772633288e-08, -2.5008840385820178e-11],
           [ 7.2770000000000005e+02, -7.5774876456524403e-03,  4.4268704696922039e-07, -3.6906402186612456e-10],
           [ 7.2020000000000005e+02, -7.7986473259019310e-03, -1.3050174528746787e-08,  5.2497491538563785e-12],
           [ 7.1239999999999998e+02, -7.8090028739126729e-03, -1.1223315693303581e-11, -1.0603578090092898e-14],
           [ 7.0460000000000002e+02, -7.8090570318544101e-03, -3.3575636250194036e-09,  8.0789181037404156e-13],
           [ 6.9679999999999995e+02, -7.8133457037487808e-03, -5.5426573869688423e-07,  3.5333925332088419e-10],
           [ 6.8879999999999995e+02, -7.8636919692973914e-03,  1.9660944268507453e-07, -4.9256229299720546e-11],
           [ 6.8110000000000002e+02, -7.6184519450263151e-03,  3.5219815740613787e-07, -2.5272479002746391e-10],
           [ 6.7360000000000002e+02, -7.6702258745767879e-03, -4.4896932780229396e-07,  2.9767703890620077e-10],
           [ 6.6579999999999995e+02, -7.6776159549570818e-03,  7.8033187473205079e-08, -2.4203548040340507e-11],
           [ 6.5820000000000005e+02, -7.5941949052232335e-03,  6.4303043023768989e-08, -9.5556123302074477e-12],
           [ 6.2079999999999995e+02, -7.6645929956689080e-03, -1.1650288519100020e-07,  7.1745712656905565e-12],
           [ 5.8070000000000005e+02, -8.2909995803015796e-03, -1.5675357472441614e-08,  2.8282050974558983e-13],
           [ 5.3920000000000005e+02, -8.4256950547822798e-03, -5.8084083652429367e-08,  7.1865334988714789e-12],
           [ 4.9689999999999998e+02, -8.4719893735348221e-03,  6.7082407726537057e-08, -2.1810030220034242e-12],
           [ 4.1760000000000002e+02, -7.7851070824435887e-03,  2.3641085988224165e-07, -1.3951217268589407e-11],
           [ 3.5050000000000000e+02, -7.1895909501779789e-03, -9.1528246378437989e-07,  7.5152666052728623e-11],
           [ 2.6280000000000001e+02, -3.4224886286560443e-03,  8.6186722236726426e-09, -3.4589544343655092e-13],
           [ 2.2980000000000001e+02, -3.3531868476673263e-03,  3.0803371213450261e-11,  1.4035162569840896e-14],
           [ 1.9709999999999999e+02, -3.3485776318314497e-03,  3.7436784950185437e-08,  1.4396397641294749e-12],
           [ 1.6940000000000001e+02, -2.2119823548932666e-03,  6.9631133751122043e-07, -4.3296870760968538e-11],
           [ 1.7394999999999999e+02, -9.1739334324186014e-04, -2.8793135609593633e-07,  2.1944189425978210e-11],
           [ 1.5800000000000000e+02, -3.3574857469586660e-04,  2.4194101929265054e-08,  2.2273886088065310e-12],
           [ 1.5900000000000000e+02,  7.5000508229625812e-04,  5.2705227842661676e-09,  1.2974084699741429e-13],
           [ 1.6680000000000001e+02,  8.8705836367339774e-04,  4.9782208248334278e-09,  5.2115268220429560e-13],
           [ 1.7619999999999999e+02,  1.1254650470897889e-03,  1.1264475054216646e-07, -3.4126703858276715e-12],
           [ 1.9422000000000000e+02,  2.3428741135670104e-03,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_P = \
    np.array([[ 9.2100000000000000e+06, -5.7000494246866504e+02,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.2100000000000000e+06, -5.7000494246866504e+02,  1.1914267474426390e-02, -2.0005520511547845e-06],
           [ 8.6500000000000000e+06, -5.5218001751523684e+02,  1.1922956094834881e-02, -4.7535468776863077e-09],
           [ 8.1100000000000000e+06, -5.2836016818236487e+02,  2.0971625487329507e-02, -3.0205732180938699e-06],
           [ 7.6000000000000000e+06, -4.9549831062955798e+02,  7.4315398338907950e-03,  7.5374067708523106e-06],
           [ 7.1200000000000000e+06, -4.5809242185355725e+02,  1.0637596337516646e-02, -3.2083654640698215e-06],
           [ 6.6700000000000000e+06, -4.4644535494170873e+02, -8.6721292518100405e-03,  1.4353681727446970e-05],
           [ 6.2300000000000000e+06, -4.2085326908586478e+02,  3.4408081817804151e-02, -1.4402436895679997e-05],
           [ 5.8300000000000000e+06, -3.9520687218123606e+02, -1.4563148156340338e-03,  5.7206035323528032e-06],
           [ 5.4400000000000000e+06, -3.8103529681005938e+02,  3.2838197797663095e-02, -1.2794456355435479e-05],
           [ 5.0800000000000000e+06, -3.5371148380555570e+02,  1.4766431806858417e-02, -2.0900558414704729e-06],
           [ 4.7400000000000000e+06, -3.3050207285410880e+02,  9.2050173124354345e-03, -1.8247530097876661e-07],
           [ 3.3000000000000000e+06, -2.5240413153825639e+02,  9.2077427346421575e-03, -1.8555942437512061e-07],
           [ 2.2500000000000000e+06, -1.7461405229695629e+02,  3.5043035444801973e-03,  1.6603752303724585e-07],
           [ 1.4900000000000000e+06, -1.2756080446689144e+02,  3.0222601541299750e-03,  2.1248837442349003e-07],
           [ 9.5800000000000000e+05, -8.1960782522087513e+01,  1.3830813607131126e-03,  6.9415864910466531e-08],
           [ 3.5000000000000000e+05, -3.4266418445149903e+01,  5.5301247136109845e-04,  4.2798766016590500e-08],
           [ 1.0700000000000000e+05, -1.0904079177900304e+01, -1.0383896638998959e-04,  3.5580287178182705e-08],
           [ 2.3600000000000000e+04, -2.6488945128030852e+00, -4.0723443190999372e-05,  1.0577713948389097e-08],
           [ 3.6900000000000000e+03, -4.0557747427674729e-01, -1.4088956427676755e-05,  2.2128904908197770e-09],
           [ 4.4700000000000000e+02, -4.8546700036360454e-02, -2.5957339920221364e-06,  3.3488462798491418e-10],
           [ 3.7399999999999999e+01, -4.0192831846302870e-03, -2.5082527084974549e-07,  3.0520630032273883e-11],
           [ 2.6699999999999999e+00, -2.7878255352832852e-04, -2.0534312270276564e-08,  2.3465472025316565e-12],
           [ 1.7600000000000002e-01, -1.8423461345253462e-05, -1.4408593316794284e-09,  1.6227340387469627e-13],
           [ 9.8799999999999999e-03, -1.0248440452670061e-06, -8.1223489859538544e-11,  9.1225177864454474e-15],
           [ 6.2700000000000006e-04, -6.2373176325057366e-08, -4.7169919236833793e-12,  5.2575025147109697e-16],
           [ 5.8900000000000002e-05, -8.2381923929823163e-09, -2.1988454953033512e-12,  2.6422979395019618e-16],
           [ 9.5500000000000000e-06,  2.1924929882133486e-08,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_rho = \
    np.array([[ 6.4799999999999997e+01, -3.2500247014290010e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 6.4799999999999997e+01, -3.2500247014290010e-03,  4.9520594791226129e-08, -1.6485692236216649e-14],
           [ 6.1600000000000001e+01, -3.1510493154549711e-03,  4.9553453104790664e-08, -1.6500916035655987e-14],
           [ 5.8500000000000000e+01, -3.0520409733114850e-03,  6.6272635021313043e-08, -1.6683573809559144e-11],
           [ 5.5500000000000000e+01, -2.9695732471037711e-03, -6.5198156363963727e-08,  1.3164483270836392e-10],
           [ 5.2600000000000001e+01, -2.7057966676974207e-03,  4.0119719216923044e-09, -2.2327819642637252e-12],
           [ 4.9899999999999999e+01, -2.7044631033271253e-03, -2.6746829068017513e-09,  2.2311823664994360e-12],
           [ 4.7200000000000003e+01, -2.7031334897423356e-03,  3.2988517645084019e-07, -1.3198287607826710e-10],
           [ 4.4700000000000003e+01, -2.4390302191129322e-03, -3.2655932240938373e-08,  6.5979106871624279e-11],
           [ 4.2299999999999997e+01, -2.3072213621314866e-03,  1.6817298346190764e-09, -9.2624682194803332e-13],
           [ 4.0000000000000000e+01, -2.3066305145547279e-03, -1.8491295867849889e-09,  1.2550576163902946e-12],
           [ 3.7700000000000003e+01, -2.3065755667178588e-03,  1.0197523208320862e-07, -6.0183853742010864e-12],
           [ 2.8000000000000000e+01, -1.7386915952613778e-03,  4.1043064646837649e-08,  2.3690971056548105e-13],
           [ 2.0399999999999999e+01, -1.3130601187481543e-03,  2.7409827462098384e-08,  3.4033470337591226e-13],
           [ 1.4600000000000000e+01, -1.0158396145619360e-03,  2.2283995289738990e-08,  7.0913310291680181e-13],
           [ 1.0199999999999999e+01, -7.4278194772295749e-04,  1.2115894682222395e-08,  3.7131178389520145e-13],
           [ 4.4000000000000004e+00, -3.9438902849134934e-04,  8.2555371479962941e-09,  2.8691207705772832e-13],
           [ 1.5900000000000001e+00, -1.4814599854537974e-04,  5.0615518852214197e-10,  3.0098145648050382e-13],
           [ 4.6899999999999997e-01, -5.1119070392830626e-05, -6.0620999505306953e-10,  1.8484609254308452e-13],
           [ 8.3900000000000002e-02, -9.8528814436033617e-06, -1.1664675619871023e-10,  3.7937814265789500e-14],
           [ 1.1900000000000001e-02, -1.2948327938692728e-06, -6.1711260303137050e-11,  8.3486114055655379e-15],
           [ 1.1500000000000000e-03, -1.2642499312956104e-07, -7.2154922402435800e-12,  9.1497463358860232e-16],
           [ 7.9900000000000004e-05, -8.3959715597480121e-09, -5.8021423397600726e-13,  6.7847007380245989e-17],
           [ 5.8100000000000003e-06, -6.0708845153117898e-10, -4.8010347565703719e-14,  5.3844419752364004e-18],
           [ 3.2000000000000001e-07, -3.3646737319674157e-11, -2.6097979352095549e-15,  2.9616344104770095e-19],
           [ 1.8500000000000000e-08, -1.8791509688705467e-12, -1.4520493342904826e-16,  1.6169108627969595e-20],
           [ 1.3900000000000000e-09, -2.1688440793019366e-13, -6.8530969915167820e-17,  8.1531120890314674e-21],
           [ 1.6100000000000001e-10,  7.0080342012550478e-13,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_dT = \
    np.array([[-7.6500245813713817e-03,  2.1945804542487295e-07,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-7.6500245813713817e-03,  2.1945804542487295e-07, -1.2279603725501243e-10, -2.4141350178736575e-14],
           [-7.5774876456524368e-03, -9.8493575883555157e-08, -4.4952982873325407e-10,  3.2685517610781918e-13],
           [-7.7986473259019310e-03, -1.7513751640315298e-08,  4.1960944706740561e-12,  2.9619055080950994e-15],
           [-7.8090028739126686e-03, -2.5744294856973772e-10,  1.1823094078765076e-12, -9.7998447195536884e-16],
           [-7.8090570318544083e-03, -8.2871895879575068e-10, -6.2907000269757947e-12,  2.8234040744092175e-15],
           [-7.8133457037487773e-03, -4.9463634159490416e-09, -1.3097407840064193e-10,  8.5555195509947486e-14],
           [-7.8636919692973914e-03, -1.0684388169461099e-08,  7.7335843675491729e-10, -5.1746554168380054e-13],
           [-7.6184519450263159e-03, -1.3029737532156665e-08, -1.1208886003743669e-10,  7.3301199572294333e-14],
           [-7.6702258745767844e-03, -1.7835979185747041e-08, -7.6501281272946923e-12,  1.8155451347243835e-14],
           [-7.6776159549570783e-03,  2.1068079185032950e-08,  1.6966566817334167e-10, -1.0718958613713790e-13],
           [-7.5941949052232343e-03,  3.9779077392200775e-08, -1.0482528052157690e-11, -6.9374794081435046e-17],
           [-7.6645929956689063e-03, -6.9774869540722953e-08, -3.9781407551664789e-11,  5.7269507354350769e-15],
           [-8.2909995803015796e-03, -4.0709264544332504e-08,  3.4731247607945999e-12, -1.4890306281496431e-16],
           [-8.4256950547822746e-03, -1.7238016331610481e-08, -7.3616984369271059e-12,  1.8073225389986909e-15],
           [-8.4719893735348134e-03,  4.2922674766433675e-08,  5.5535052765298927e-12, -2.8997130481552973e-16],
           [-7.7851070824435861e-03,  6.7711343283761494e-08, -2.2452460452433973e-12,  1.5298068574384189e-16],
           [-7.1895909501779728e-03,  6.8021052901848765e-08,  1.0183589307456465e-10, -7.0975652265662707e-15],
           [-3.4224886286560352e-03,  1.4624077723065722e-08, -1.0258262539572968e-12,  2.6061950972949885e-17],
           [-3.3531868476673263e-03,  2.0327783145975668e-09, -3.7048722457972825e-12,  3.6333517735658842e-16],
           [-3.3485776318314519e-03,  3.3498941942875717e-08,  1.6094668376672886e-11, -7.7340048002743591e-16],
           [-2.2119823548932662e-03,  1.2710693618195941e-07,  3.1540430879158407e-12, -2.5675675999834043e-16],
           [-9.1739334324185884e-04,  1.1587853900745780e-07, -1.3847050592841923e-11,  8.3673046451785591e-16],
           [-3.3574857469586563e-04,  8.2631585737191090e-08,  1.4755377091943406e-11, -1.2075077543241679e-15],
           [ 7.5000508229625779e-04,  3.0857675522535905e-08, -3.9968640003153996e-12,  2.3643553353982366e-16],
           [ 8.8705836367339828e-04,  1.9483990657781872e-08,  1.2791178545845845e-13,  4.5965155534204287e-17],
           [ 1.1254650470897884e-03,  3.4556601745543476e-08,  1.4134903732195828e-11, -4.5868460724946088e-16],
           [ 2.3428741135670104e-03,  1.7900865535537898e-07,  0.0000000000000000e+00,  0.0000000000000000e+00]])
