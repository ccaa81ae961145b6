DATA_ORIGIN_NOTE = """
    Data extracted from Mars-GRAM 2024, GRAM Suite 2.1 by Eliot Aretskin-Hariton (NASA GRC)

    Notes:
    Data is for the North Pole.
    The data table contains data from -8000 meters to 80,000 meters altitude.
    The altitude is referenced to the MOLA (Mars Orbiter Laser Altimeter) constant potential surface (areoid).
    Dust level = 0.3
    Year = 2000 
    F107 = 68.0
    """
from collections import namedtuple
import sys

import numpy as np

import openmdao.api as om

atm_data = namedtuple('MarsPolarHot', ['alt', 'temp', 'pres', 'rho'])
atm_data.__doc__ = """
    A namedtuple to hold data for the atmosphere model.

    Parameters
    ----------
    alt : float
        Geopotential Altitude in meters.
    temp : float
        Temperature in degK.
    pres : float
        Pressure in pascal.
    rho : float
        Density in kg/m^3.
    """

# turn off ruff formatting
# fmt: off

# _raw_data Units: (Geopotential Altitude in meters, Temp in degK, pressure in mb, density in kg/m^3)
_raw_data = np.array([
    -8000,216.22,1.10E+01,2.70E-02,
    -5000,216.22,8.45E+00,2.07E-02,
    -2000,216.22,6.47E+00,1.58E-02,
    -1955,216.22,6.45E+00,1.58E-02,
    -1945,216.97,6.44E+00,1.57E-02,
    -1000,220.59,5.92E+00,1.42E-02,
    0,223.74,5.42E+00,1.28E-02,
    1000,223.27,4.96E+00,1.18E-02,
    2000,222.81,4.54E+00,1.08E-02,
    3000,222.34,4.15E+00,9.88E-03,
    4000,221.87,3.80E+00,9.06E-03,
    5000,221.41,3.48E+00,8.31E-03,
    6000,220.2,3.17E+00,7.63E-03,
    7000,218.99,2.90E+00,7.00E-03,
    8000,217.78,2.64E+00,6.42E-03,
    9000,216.57,2.41E+00,5.89E-03,
    10000,215.36,2.20E+00,5.41E-03,
    15000,207.53,1.37E+00,3.50E-03,
    20000,198.61,8.41E-01,2.24E-03,
    25000,189.4,5.06E-01,1.41E-03,
    30000,180.37,2.98E-01,8.75E-04,
    40000,164.36,9.90E-02,3.18E-04,
    50000,153.78,3.20E-02,1.10E-04,
    60000,144.89,1.08E-02,3.95E-05,
    70000,135.91,3.49E-03,1.36E-05,
    80000,135.52,8.42E-04,3.10E-06,
])

atm_data.alt = \
    np.array([-8000., -5000., -2000., -1955., -1945., -1000.,     0.,  1000.,  2000.,  3000.,  4000.,
            5000.,  6000.,  7000.,  8000.,  9000., 10000., 15000., 20000., 25000., 30000., 40000.,
           50000., 60000., 70000., 80000.])

atm_data.akima_T = \
    np.array([[ 2.1622000000000000e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1622000000000000e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1622000000000000e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1622000000000000e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1622000000000000e+02,  0.0000000000000000e+00,  2.2052920058866096e-02, -1.4552920058866097e-03],
           [ 2.1697000000000000e+02,  4.4707994113390688e-03, -6.6929356322253667e-07, -8.5430569199471478e-12],
           [ 2.2059000000000000e+02,  3.1829470866306677e-03,  3.5016943053659689e-06, -3.5346413919966303e-09],
           [ 2.2374000000000001e+02, -4.1758847862728655e-04, -1.1479549453604911e-07,  6.2383973163336862e-11],
           [ 2.2327000000000001e+02, -4.6002754820937433e-04,  1.0055096418723561e-08, -1.0027548209357267e-11],
           [ 2.2281000000000000e+02, -4.6999999999999890e-04,  1.6263032587282567e-22, -1.0842021724855044e-25],
           [ 2.2234000000000000e+02, -4.6999999999999890e-04,  1.6263032587282567e-22, -1.0842021724855044e-25],
           [ 2.2187000000000000e+02, -4.6999999999999890e-04,  7.6999999999785133e-07, -7.5999999999786046e-10],
           [ 2.2141000000000000e+02, -1.2099999999978775e-03, -4.2893206347871524e-18,  2.1588633658531363e-21],
           [ 2.2019999999999999e+02, -1.2099999999999795e-03,  2.8189256484623116e-20, -2.8189256484623119e-23],
           [ 2.1899000000000001e+02, -1.2100000000000079e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1778000000000000e+02, -1.2100000000000079e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1656999999999999e+02, -1.2100000000000079e-03,  1.0299920638612293e-19, -7.5026790335996920e-23],
           [ 2.1536000000000001e+02, -1.2100000000000259e-03, -1.0490821256037812e-07,  6.7416425120765508e-12],
           [ 2.0753000000000000e+02, -1.7534589371980657e-03, -2.2605196089611758e-09, -7.6953859028503984e-13],
           [ 1.9861000000000001e+02, -1.8337795275590557e-03, -4.8760216759982482e-09,  6.4638543756181249e-13],
           [ 1.8940000000000001e+02, -1.8340608365019022e-03,  8.6751118028332698e-09, -6.1258890049056838e-13],
           [ 1.8037000000000000e+02, -1.7932538860103628e-03,  8.6874082181155347e-09,  1.0537980382920815e-12],
           [ 1.6436000000000001e+02, -1.3033663101604271e-03,  3.2448805510345995e-08, -7.9121744943034052e-13],
           [ 1.5378000000000000e+02, -8.9175543478260959e-04,  6.9904415496517807e-10, -4.2350067670435255e-14],
           [ 1.4488999999999999e+02, -8.9047957198443682e-04, -2.3947538058771983e-09,  1.6427110043209637e-13],
           [ 1.3591000000000000e+02, -8.8909331797235155e-04,  1.2706866359447057e-07, -4.2059331797235291e-12],
           [ 1.3552000000000001e+02,  3.9050000000000147e-04,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_P = \
    np.array([[ 1.1000000000000000e+03, -9.4500000000000056e-02,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.1000000000000000e+03, -9.4500000000000056e-02,  3.3662100456620934e-06, -6.6514459665141366e-11],
           [ 8.4499999999999989e+02, -7.6098630136986284e-02,  4.9013222274394604e-06, -5.1170406059245249e-10],
           [ 6.4700000000000000e+02, -6.0506706408345712e-02,  1.1138806659270846e-03, -1.6820922470527172e-05],
           [ 6.4500000000000000e+02, -6.2444550483360707e-02, -1.1635301451120199e-02,  7.8797564994562651e-04],
           [ 6.4400000000000000e+02, -5.8757884522076656e-02,  3.0126438904299987e-06,  9.9043254014757378e-10],
           [ 5.9200000000000000e+02, -5.0410544511668112e-02, -1.4063435675195981e-06,  1.8168880791877008e-09],
           [ 5.4200000000000000e+02, -4.7772567409144200e-02,  1.2594205325741210e-06,  5.1314687657005867e-10],
           [ 4.9600000000000000e+02, -4.3714285714285733e-02,  1.9285714285714183e-06, -2.1428571428568077e-10],
           [ 4.5400000000000000e+02, -4.0499999999999953e-02,  1.0000000000000772e-06,  4.9999999999993106e-10],
           [ 4.1500000000000006e+02, -3.6999999999999998e-02,  1.5999999999998447e-06,  4.0000000000009473e-10],
           [ 3.8000000000000000e+02, -3.2600000000000025e-02,  7.7142857142861034e-07, -1.7142857142858627e-10],
           [ 3.4800000000000000e+02, -3.1571428571428563e-02, -8.5714285714287228e-07,  1.4285714285714319e-09],
           [ 3.1700000000000000e+02, -2.9000000000000001e-02,  3.4285714285714268e-06, -1.4285714285714249e-09],
           [ 2.9000000000000000e+02, -2.6428571428571430e-02, -1.4285714285714250e-07,  5.7142857142856304e-10],
           [ 2.6400000000000000e+02, -2.5000000000000005e-02,  3.1891891891891801e-06, -1.1891891891891856e-09],
           [ 2.4100000000000000e+02, -2.2189189189189173e-02,  1.2811215205230410e-06, -9.1932331333838264e-11],
           [ 2.2000000000000003e+02, -1.9902743142144606e-02,  6.8129049357281701e-07, -4.1483730287797398e-12],
           [ 1.3700000000000000e+02, -1.3400966183574899e-02,  5.8264815567294875e-07, -3.6909837915939667e-12],
           [ 8.4099999999999994e+01, -7.8513084112149505e-03,  1.3473162894879071e-07,  1.9106010658839906e-11],
           [ 5.0600000000000001e+01, -5.0710413223140505e-03,  7.8831036697640196e-08,  2.0675445553033914e-11],
           [ 2.9799999999999997e+01, -2.7320725388601040e-03,  3.9419073982066500e-08,  3.4788179903943922e-12],
           [ 9.9000000000000004e+00, -9.0004566210045663e-04,  4.5696917456105461e-09,  1.8434874464435115e-12],
           [ 3.2000000000000002e+00, -2.5560559325519232e-04, -3.8856349457274255e-09,  8.2461942712466565e-13],
           [ 1.0800000000000001e+00, -8.5932464032341188e-05, -9.2397614566630747e-10,  2.2072225489004251e-13],
           [ 3.4899999999999998e-01, -3.8195310478654596e-05,  1.2062095730918890e-11,  1.1594689521345408e-13],
           [ 8.4199999999999997e-02, -3.1699999999999959e-06,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_rho = \
    np.array([[ 2.7000000000000000e-02, -2.3333333333333332e-06,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7000000000000000e-02, -2.3333333333333332e-06,  1.2098765432098774e-10, -1.4403292181069939e-14],
           [ 2.0700000000000000e-02, -1.9962962962962959e-06,  2.1770071557757425e-10, -3.2237687085528807e-14],
           [ 1.5800000000000002e-02, -1.5605095541401290e-06,  1.0548596385704517e-07, -1.5735105281120512e-09],
           [ 1.5800000000000002e-02, -1.6258492652867747e-06, -2.5006325776064897e-06,  1.6632175041351388e-07],
           [ 1.5699999999999999e-02, -1.7419756933624151e-06,  1.3814610131456588e-10,  2.7016086132600099e-14],
           [ 1.4200000000000001e-02, -1.4085014409221901e-06, -3.8299711815561596e-10,  3.9149855907780585e-13],
           [ 1.2800000000000001e-02, -1.0000000000000050e-06,  6.5645053412208276e-24, -2.5410988417629011e-27],
           [ 1.1800000000000000e-02, -9.9999999999999932e-07, -1.0587911840678754e-24,  1.2705494208814505e-27],
           [ 1.0800000000000001e-02, -9.9999999999999784e-07,  1.0666666666666011e-10, -2.6666666666663305e-14],
           [ 9.8799999999999999e-03, -8.6666666666666680e-07,  5.2156862745099954e-11, -5.4901960784324993e-15],
           [ 9.0600000000000003e-03, -7.7882352941176482e-07,  1.6813725490194924e-11,  1.2009803921569028e-14],
           [ 8.3099999999999997e-03, -7.0916666666666746e-07,  2.9166666666667942e-11, -4.2351647362715015e-28],
           [ 7.6299999999999996e-03, -6.5083333333333296e-07,  1.6666666666667000e-11,  4.1666666666664861e-15],
           [ 7.0000000000000001e-03, -6.0499999999999940e-07,  2.4999999999999442e-11,  2.1175823681357508e-28],
           [ 6.4200000000000004e-03, -5.5499999999999998e-07,  3.3108108108108011e-11, -8.1081081081082495e-15],
           [ 5.8900000000000003e-03, -5.1310810810810850e-07,  3.8993993993994104e-11, -5.8858858858858827e-15],
           [ 5.4099999999999999e-03, -4.5277777777777815e-07,  1.4463285024154734e-11, -6.1545893719820989e-17],
           [ 3.5000000000000001e-03, -3.1276086956521734e-07,  1.2473659995399059e-11, -6.4297216471121878e-17],
           [ 2.2399999999999998e-03, -1.9284656084656083e-07,  3.3475099904815912e-12,  4.0436043576611597e-16],
           [ 1.4100000000000000e-03, -1.2904442825928620e-07,  2.3711259363023349e-12,  4.0755194311098039e-16],
           [ 8.7500000000000002e-04, -7.4766773162939315e-08,  1.0610564004587307e-12,  8.4562091583520129e-17],
           [ 3.1799999999999998e-04, -2.8177017678708684e-08,  2.5620892192059960e-13,  4.8149284595026929e-17],
           [ 1.1000000000000000e-04, -8.6080538617886173e-09, -8.9468364332924370e-14,  2.4527375051178586e-17],
           [ 3.9499999999999998e-05, -3.0392086330935258e-09, -2.4631606714628118e-14,  6.9552470023980801e-18],
           [ 1.3600000000000000e-05, -1.4452666666666666e-09,  2.0533333333333325e-15,  3.7473333333333328e-18],
           [ 3.1000000000000000e-06, -2.8000000000000017e-10,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_dT = \
    np.array([[ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  1.3403692585815664e-04, -8.9328931744767047e-06],
           [ 4.4707994113389604e-03,  8.7056482012173128e-07, -2.3773854889131378e-09,  1.4845915946557742e-14],
           [ 3.1829470866306673e-03, -3.5829204316595741e-06, -3.5424415595995668e-09,  3.5248264260011882e-12],
           [-4.1758847862728580e-04, -9.3324272855144125e-08,  6.9394530213262410e-11, -1.8509326940206665e-14],
           [-4.6002754820937417e-04, -1.0063193249239288e-08, -9.7909688733960261e-12,  9.8817103320104713e-15],
           [-4.6999999999999901e-04,  7.5117845052437866e-23,  6.8046417865779848e-26, -3.4744045669667267e-29],
           [-4.6999999999999890e-04,  1.0697854377499576e-22, -1.0553687030113314e-25, -1.4416734738626199e-30],
           [-4.6999999999999890e-04, -1.0842021724885838e-22, -2.2199999999894607e-09,  1.4799999999915821e-12],
           [-1.2099999999978777e-03, -4.1754794066644735e-18,  2.0736450750724518e-21,  1.1622602028388091e-35],
           [-1.2099999999999795e-03, -2.8189256484701502e-20, -2.7969491288776215e-23,  2.7969491288854602e-26],
           [-1.2100000000000077e-03, -2.1976519569012956e-22, -1.2305562070208098e-25,  1.2598038189510964e-28],
           [-1.2100000000000079e-03, -8.7935291408962567e-23,  1.7587058281796321e-25, -8.7935291409000643e-29],
           [-1.2100000000000079e-03, -3.8068562605930246e-35, -1.5772635738046123e-23, -3.3093224976987249e-27],
           [-1.2100000000000270e-03, -4.1473238969188443e-20, -5.9624101847682522e-11,  7.5771488719538553e-15],
           [-1.7534589371980657e-03, -2.7954853080327669e-08,  1.8156113802433832e-12,  1.1250712427651227e-16],
           [-1.8337795275590555e-03, -1.3607049571554198e-09,  5.8870704681589282e-14,  4.0403585807124856e-17],
           [-1.8340608365019022e-03,  2.2582710251948368e-09, -1.8207201099049240e-12,  6.0026878490551222e-16],
           [-1.7932538860103622e-03,  2.9071228794058987e-08,  4.3739037181437001e-12, -2.3821508390502522e-16],
           [-1.3033663101604275e-03,  4.5084777985425427e-08,  3.3128333577666004e-12, -3.7052024025309602e-16],
           [-8.9175543478260937e-04,  1.8537306482861449e-10, -1.1825620261907865e-14,  6.0469417607740993e-19],
           [-8.9047957198443660e-04,  1.3026891241368016e-10,  5.6748094999386782e-16,  2.6816792948537291e-20],
           [-8.8909331797235188e-04,  1.4966356929811870e-10,  1.9170898325786100e-11, -6.3899315029923790e-16],
           [ 3.9050000000000120e-04,  1.9186968499524873e-07,  0.0000000000000000e+00,  0.0000000000000000e+00]])
