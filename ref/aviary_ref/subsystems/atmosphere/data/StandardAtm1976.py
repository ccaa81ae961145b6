DATA_ORIGIN_NOTE = """
    United States standard atmosphere 1976 tables, data
    Based on the original model documented in https://www.ngdc.noaa.gov/stp/space-weather/online-publications/miscellaneous/us-standard-atmosphere-1976/us-standard-atmosphere_st76-1562_noaa.pdf
    based on NASA-TM-X-74335.

    Notes:
    The data table contains data from -5,000 meters to 83,000 meters altitude
    """
from collections import namedtuple
import sys

import numpy as np

import openmdao.api as om

atm_data = namedtuple('USatm1976Data', ['alt', 'temp', 'pres', 'rho'])
atm_data.__doc__ = """
    A namedtuple to hold data for the 1976 standard atmosphere model.

    Parameters
    ----------
    alt : float
        Geopotential Altitude in meters.
    temp : float
        Temperature in degK.
    pres : float
        Pressure in pascal.
    rho : float
        Density in kg/m^3.
    """

# turn off ruff formatting
# fmt: off

# _raw_data Units: (Geopotential Altitude in meters, Temp in degK, pressure in mb, density in kg/m^3)
_raw_data = np.array([
    -5000,320.650,1.776870E+03,1.930466E+00,
    -4950,320.325,1.767424E+03,1.922152E+00,
    -4900,320.000,1.758020E+03,1.913866E+00,
    -4850,319.675,1.748656E+03,1.905608E+00,
    -4800,319.350,1.739332E+03,1.897376E+00,
    -4750,319.025,1.730049E+03,1.889172E+00,
    -4700,318.700,1.720806E+03,1.880995E+00,
    -4650,318.375,1.711603E+03,1.872845E+00,
    -4600,318.050,1.702439E+03,1.864722E+00,
    -4550,317.725,1.693316E+03,1.856626E+00,
    -4500,317.400,1.684232E+03,1.848557E+00,
    -4450,317.075,1.675188E+03,1.840515E+00,
    -4400,316.750,1.666183E+03,1.832499E+00,
    -4350,316.425,1.657217E+03,1.824510E+00,
    -4300,316.100,1.648290E+03,1.816549E+00,
    -4250,315.775,1.639403E+03,1.808613E+00,
    -4200,315.450,1.630554E+03,1.800704E+00,
    -4150,315.125,1.621744E+03,1.792822E+00,
    -4100,314.800,1.612972E+03,1.784966E+00,
    -4050,314.475,1.604239E+03,1.777136E+00,
    -4000,314.150,1.595544E+03,1.769333E+00,
    -3950,313.825,1.586888E+03,1.761556E+00,
    -3900,313.500,1.578269E+03,1.753805E+00,
    -3850,313.175,1.569689E+03,1.746081E+00,
    -3800,312.850,1.561146E+03,1.738382E+00,
    -3750,312.525,1.552641E+03,1.730709E+00,
    -3700,312.200,1.544174E+03,1.723062E+00,
    -3650,311.875,1.535744E+03,1.715442E+00,
    -3600,311.550,1.527351E+03,1.707847E+00,
    -3550,311.225,1.518995E+03,1.700277E+00,
    -3500,310.900,1.510677E+03,1.692734E+00,
    -3450,310.575,1.502395E+03,1.685216E+00,
    -3400,310.250,1.494150E+03,1.677723E+00,
    -3350,309.925,1.485942E+03,1.670256E+00,
    -3300,309.600,1.477771E+03,1.662815E+00,
    -3250,309.275,1.469636E+03,1.655399E+00,
    -3200,308.950,1.461537E+03,1.648008E+00,
    -3150,308.625,1.453474E+03,1.640643E+00,
    -3100,308.300,1.445448E+03,1.633302E+00,
    -3050,307.975,1.437457E+03,1.625987E+00,
    -3000,307.650,1.429502E+03,1.618697E+00,
    -2950,307.325,1.421583E+03,1.611432E+00,
    -2900,307.000,1.413699E+03,1.604192E+00,
    -2850,306.675,1.405851E+03,1.596977E+00,
    -2800,306.350,1.398038E+03,1.589787E+00,
    -2750,306.025,1.390261E+03,1.582622E+00,
    -2700,305.700,1.382518E+03,1.575481E+00,
    -2650,305.375,1.374810E+03,1.568365E+00,
    -2600,305.050,1.367137E+03,1.561273E+00,
    -2550,304.725,1.359499E+03,1.554207E+00,
    -2500,304.400,1.351896E+03,1.547164E+00,
    -2450,304.075,1.344327E+03,1.540146E+00,
    -2400,303.750,1.336792E+03,1.533153E+00,
    -2350,303.425,1.329292E+03,1.526183E+00,
    -2300,303.100,1.321825E+03,1.519238E+00,
    -2250,302.775,1.314393E+03,1.512318E+00,
    -2200,302.450,1.306995E+03,1.505421E+00,
    -2150,302.125,1.299630E+03,1.498549E+00,
    -2100,301.800,1.292299E+03,1.491700E+00,
    -2050,301.475,1.285001E+03,1.484876E+00,
    -2000,301.150,1.277737E+03,1.478075E+00,
    -1950,300.825,1.270506E+03,1.471298E+00,
    -1900,300.500,1.263309E+03,1.464545E+00,
    -1850,300.175,1.256144E+03,1.457816E+00,
    -1800,299.850,1.249012E+03,1.451110E+00,
    -1750,299.525,1.241913E+03,1.444428E+00,
    -1700,299.200,1.234847E+03,1.437770E+00,
    -1650,298.875,1.227814E+03,1.431135E+00,
    -1600,298.550,1.220812E+03,1.424524E+00,
    -1550,298.225,1.213844E+03,1.417936E+00,
    -1500,297.900,1.206907E+03,1.411371E+00,
    -1450,297.575,1.200003E+03,1.404830E+00,
    -1400,297.250,1.193131E+03,1.398311E+00,
    -1350,296.925,1.186290E+03,1.391816E+00,
    -1300,296.600,1.179481E+03,1.385344E+00,
    -1250,296.275,1.172704E+03,1.378896E+00,
    -1200,295.950,1.165959E+03,1.372470E+00,
    -1150,295.625,1.159245E+03,1.366067E+00,
    -1100,295.300,1.152562E+03,1.359687E+00,
    -1050,294.975,1.145911E+03,1.353329E+00,
    -1000,294.650,1.139291E+03,1.346995E+00,
    -950,294.325,1.132702E+03,1.340683E+00,
    -900,294.000,1.126143E+03,1.334394E+00,
    -850,293.675,1.119616E+03,1.328127E+00,
    -800,293.350,1.113119E+03,1.321883E+00,
    -750,293.025,1.106652E+03,1.315662E+00,
    -700,292.700,1.100216E+03,1.309463E+00,
    -650,292.375,1.093811E+03,1.303286E+00,
    -600,292.050,1.087435E+03,1.297132E+00,
    -550,291.725,1.081090E+03,1.291000E+00,
    -500,291.400,1.074775E+03,1.284890E+00,
    -450,291.075,1.068490E+03,1.278802E+00,
    -400,290.750,1.062234E+03,1.272736E+00,
    -350,290.425,1.056008E+03,1.266692E+00,
    -300,290.100,1.049812E+03,1.260671E+00,
    -250,289.775,1.043645E+03,1.254671E+00,
    -200,289.450,1.037508E+03,1.248693E+00,
    -150,289.125,1.031400E+03,1.242737E+00,
    -100,288.800,1.025321E+03,1.236803E+00,
    -50,288.475,1.019271E+03,1.230890E+00,
    0,288.150,1.013250E+03,1.224999E+00,
    50,287.825,1.007258E+03,1.219130E+00,
    100,287.500,1.001294E+03,1.213282E+00,
    150,287.175,9.953596E+02,1.207456E+00,
    200,286.850,9.894533E+02,1.201651E+00,
    250,286.525,9.835754E+02,1.195867E+00,
    300,286.200,9.777258E+02,1.190105E+00,
    350,285.875,9.719044E+02,1.184364E+00,
    400,285.550,9.661111E+02,1.178644E+00,
    450,285.225,9.603458E+02,1.172946E+00,
    500,284.900,9.546084E+02,1.167268E+00,
    550,284.575,9.488988E+02,1.161612E+00,
    600,284.250,9.432168E+02,1.155976E+00,
    650,283.925,9.375625E+02,1.150362E+00,
    700,283.600,9.319356E+02,1.144768E+00,
    750,283.275,9.263361E+02,1.139195E+00,
    800,282.950,9.207639E+02,1.133643E+00,
    850,282.625,9.152188E+02,1.128112E+00,
    900,282.300,9.097009E+02,1.122601E+00,
    950,281.975,9.042098E+02,1.117111E+00,
    1000,281.650,8.987457E+02,1.111642E+00,
    1050,281.325,8.933083E+02,1.106193E+00,
    1100,281.000,8.878976E+02,1.100764E+00,
    1150,280.675,8.825135E+02,1.095356E+00,
    1200,280.350,8.771558E+02,1.089969E+00,
    1250,280.025,8.718245E+02,1.084601E+00,
    1300,279.700,8.665195E+02,1.079254E+00,
    1350,279.375,8.612406E+02,1.073927E+00,
    1400,279.050,8.559878E+02,1.068620E+00,
    1450,278.725,8.507610E+02,1.063333E+00,
    1500,278.400,8.455600E+02,1.058067E+00,
    1550,278.075,8.403849E+02,1.052820E+00,
    1600,277.750,8.352354E+02,1.047593E+00,
    1650,277.425,8.301115E+02,1.042386E+00,
    1700,277.100,8.250130E+02,1.037199E+00,
    1750,276.775,8.199400E+02,1.032032E+00,
    1800,276.450,8.148922E+02,1.026884E+00,
    1850,276.125,8.098697E+02,1.021756E+00,
    1900,275.800,8.048722E+02,1.016648E+00,
    1950,275.475,7.998997E+02,1.011559E+00,
    2000,275.150,7.949522E+02,1.006490E+00,
    2050,274.825,7.900294E+02,1.001440E+00,
    2100,274.500,7.851314E+02,9.964093E-01,
    2150,274.175,7.802579E+02,9.913982E-01,
    2200,273.850,7.754090E+02,9.864065E-01,
    2250,273.525,7.705846E+02,9.814339E-01,
    2300,273.200,7.657844E+02,9.764806E-01,
    2350,272.875,7.610085E+02,9.715465E-01,
    2400,272.550,7.562568E+02,9.666314E-01,
    2450,272.225,7.515291E+02,9.617354E-01,
    2500,271.900,7.468253E+02,9.568583E-01,
    2550,271.575,7.421455E+02,9.520002E-01,
    2600,271.250,7.374894E+02,9.471610E-01,
    2650,270.925,7.328570E+02,9.423407E-01,
    2700,270.600,7.282481E+02,9.375391E-01,
    2750,270.275,7.236628E+02,9.327563E-01,
    2800,269.950,7.191009E+02,9.279921E-01,
    2850,269.625,7.145623E+02,9.232466E-01,
    2900,269.300,7.100469E+02,9.185197E-01,
    2950,268.975,7.055547E+02,9.138113E-01,
    3000,268.650,7.010854E+02,9.091215E-01,
    3050,268.325,6.966392E+02,9.044500E-01,
    3100,268.000,6.922158E+02,8.997969E-01,
    3150,267.675,6.878152E+02,8.951622E-01,
    3200,267.350,6.834372E+02,8.905458E-01,
    3250,267.025,6.790819E+02,8.859475E-01,
    3300,266.700,6.747490E+02,8.813675E-01,
    3350,266.375,6.704386E+02,8.768056E-01,
    3400,266.050,6.661505E+02,8.722618E-01,
    3450,265.725,6.618846E+02,8.677361E-01,
    3500,265.400,6.576408E+02,8.632283E-01,
    3550,265.075,6.534192E+02,8.587384E-01,
    3600,264.750,6.492195E+02,8.542665E-01,
    3650,264.425,6.450416E+02,8.498124E-01,
    3700,264.100,6.408856E+02,8.453760E-01,
    3750,263.775,6.367513E+02,8.409574E-01,
    3800,263.450,6.326386E+02,8.365565E-01,
    3850,263.125,6.285475E+02,8.321733E-01,
    3900,262.800,6.244778E+02,8.278076E-01,
    3950,262.475,6.204294E+02,8.234595E-01,
    4000,262.150,6.164024E+02,8.191289E-01,
    4050,261.825,6.123965E+02,8.148157E-01,
    4100,261.500,6.084117E+02,8.105199E-01,
    4150,261.175,6.044480E+02,8.062414E-01,
    4200,260.850,6.005052E+02,8.019803E-01,
    4250,260.525,5.965832E+02,7.977364E-01,
    4300,260.200,5.926820E+02,7.935097E-01,
    4350,259.875,5.888015E+02,7.893002E-01,
    4400,259.550,5.849416E+02,7.851078E-01,
    4450,259.225,5.811022E+02,7.809324E-01,
    4500,258.900,5.772832E+02,7.767740E-01,
    4550,258.575,5.734846E+02,7.726326E-01,
    4600,258.250,5.697063E+02,7.685081E-01,
    4650,257.925,5.659481E+02,7.644005E-01,
    4700,257.600,5.622100E+02,7.603097E-01,
    4750,257.275,5.584920E+02,7.562357E-01,
    4800,256.950,5.547939E+02,7.521783E-01,
    4850,256.625,5.511156E+02,7.481377E-01,
    4900,256.300,5.474571E+02,7.441137E-01,
    4950,255.975,5.438183E+02,7.401063E-01,
    5000,255.650,5.401991E+02,7.361154E-01,
    5050,255.325,5.365995E+02,7.321409E-01,
    5100,255.000,5.330192E+02,7.281830E-01,
    5150,254.675,5.294584E+02,7.242414E-01,
    5200,254.350,5.259168E+02,7.203161E-01,
    5250,254.025,5.223945E+02,7.164072E-01,
    5300,253.700,5.188913E+02,7.125145E-01,
    5350,253.375,5.154071E+02,7.086380E-01,
    5400,253.050,5.119419E+02,7.047776E-01,
    5450,252.725,5.084955E+02,7.009334E-01,
    5500,252.400,5.050680E+02,6.971052E-01,
    5550,252.075,5.016592E+02,6.932931E-01,
    5600,251.750,4.982691E+02,6.894969E-01,
    5650,251.425,4.948976E+02,6.857166E-01,
    5700,251.100,4.915445E+02,6.819522E-01,
    5750,250.775,4.882099E+02,6.782036E-01,
    5800,250.450,4.848936E+02,6.744709E-01,
    5850,250.125,4.815956E+02,6.707538E-01,
    5900,249.800,4.783157E+02,6.670525E-01,
    5950,249.475,4.750540E+02,6.633668E-01,
    6000,249.150,4.718103E+02,6.596967E-01,
    6050,248.825,4.685845E+02,6.560421E-01,
    6100,248.500,4.653767E+02,6.524031E-01,
    6150,248.175,4.621866E+02,6.487795E-01,
    6200,247.850,4.590143E+02,6.451714E-01,
    6250,247.525,4.558596E+02,6.415786E-01,
    6300,247.200,4.527225E+02,6.380011E-01,
    6350,246.875,4.496029E+02,6.344389E-01,
    6400,246.550,4.465008E+02,6.308920E-01,
    6450,246.225,4.434160E+02,6.273603E-01,
    6500,245.900,4.403485E+02,6.238436E-01,
    6550,245.575,4.372981E+02,6.203421E-01,
    6600,245.250,4.342650E+02,6.168557E-01,
    6650,244.925,4.312488E+02,6.133842E-01,
    6700,244.600,4.282497E+02,6.099278E-01,
    6750,244.275,4.252675E+02,6.064862E-01,
    6800,243.950,4.223021E+02,6.030595E-01,
    6850,243.625,4.193534E+02,5.996477E-01,
    6900,243.300,4.164215E+02,5.962506E-01,
    6950,242.975,4.135062E+02,5.928683E-01,
    7000,242.650,4.106074E+02,5.895007E-01,
    7050,242.325,4.077251E+02,5.861477E-01,
    7100,242.000,4.048593E+02,5.828094E-01,
    7150,241.675,4.020097E+02,5.794856E-01,
    7200,241.350,3.991764E+02,5.761763E-01,
    7250,241.025,3.963593E+02,5.728815E-01,
    7300,240.700,3.935584E+02,5.696011E-01,
    7350,240.375,3.907734E+02,5.663352E-01,
    7400,240.050,3.880045E+02,5.630835E-01,
    7450,239.725,3.852514E+02,5.598462E-01,
    7500,239.400,3.825142E+02,5.566231E-01,
    7550,239.075,3.797928E+02,5.534143E-01,
    7600,238.750,3.770871E+02,5.502196E-01,
    7650,238.425,3.743970E+02,5.470391E-01,
    7700,238.100,3.717224E+02,5.438726E-01,
    7750,237.775,3.690634E+02,5.407202E-01,
    7800,237.450,3.664198E+02,5.375817E-01,
    7850,237.125,3.637915E+02,5.344573E-01,
    7900,236.800,3.611785E+02,5.313467E-01,
    7950,236.475,3.585807E+02,5.282500E-01,
    8000,236.150,3.559981E+02,5.251671E-01,
    8050,235.825,3.534306E+02,5.220981E-01,
    8100,235.500,3.508781E+02,5.190427E-01,
    8150,235.175,3.483405E+02,5.160011E-01,
    8200,234.850,3.458178E+02,5.129731E-01,
    8250,234.525,3.433099E+02,5.099587E-01,
    8300,234.200,3.408168E+02,5.069579E-01,
    8350,233.875,3.383383E+02,5.039706E-01,
    8400,233.550,3.358745E+02,5.009968E-01,
    8450,233.225,3.334252E+02,4.980365E-01,
    8500,232.900,3.309904E+02,4.950895E-01,
    8550,232.575,3.285700E+02,4.921559E-01,
    8600,232.250,3.261640E+02,4.892356E-01,
    8650,231.925,3.237722E+02,4.863286E-01,
    8700,231.600,3.213947E+02,4.834349E-01,
    8750,231.275,3.190313E+02,4.805543E-01,
    8800,230.950,3.166821E+02,4.776869E-01,
    8850,230.625,3.143468E+02,4.748325E-01,
    8900,230.300,3.120255E+02,4.719913E-01,
    8950,229.975,3.097181E+02,4.691631E-01,
    9000,229.650,3.074246E+02,4.663478E-01,
    9050,229.325,3.051448E+02,4.635455E-01,
    9100,229.000,3.028787E+02,4.607561E-01,
    9150,228.675,3.006263E+02,4.579796E-01,
    9200,228.350,2.983875E+02,4.552158E-01,
    9250,228.025,2.961621E+02,4.524649E-01,
    9300,227.700,2.939503E+02,4.497267E-01,
    9350,227.375,2.917518E+02,4.470012E-01,
    9400,227.050,2.895667E+02,4.442883E-01,
    9450,226.725,2.873948E+02,4.415881E-01,
    9500,226.400,2.852362E+02,4.389004E-01,
    9550,226.075,2.830907E+02,4.362252E-01,
    9600,225.750,2.809582E+02,4.335626E-01,
    9650,225.425,2.788388E+02,4.309124E-01,
    9700,225.100,2.767324E+02,4.282746E-01,
    9750,224.775,2.746389E+02,4.256492E-01,
    9800,224.450,2.725582E+02,4.230361E-01,
    9850,224.125,2.704903E+02,4.204353E-01,
    9900,223.800,2.684351E+02,4.178468E-01,
    9950,223.475,2.663926E+02,4.152704E-01,
    10000,223.150,2.643627E+02,4.127063E-01,
    10050,222.825,2.623453E+02,4.101542E-01,
    10100,222.500,2.603404E+02,4.076143E-01,
    10150,222.175,2.583480E+02,4.050864E-01,
    10200,221.850,2.563679E+02,4.025705E-01,
    10250,221.525,2.544001E+02,4.000666E-01,
    10300,221.200,2.524445E+02,3.975746E-01,
    10350,220.875,2.505012E+02,3.950945E-01,
    10400,220.550,2.485700E+02,3.926263E-01,
    10450,220.225,2.466508E+02,3.901699E-01,
    10500,219.900,2.447437E+02,3.877252E-01,
    10550,219.575,2.428485E+02,3.852923E-01,
    10600,219.250,2.409652E+02,3.828711E-01,
    10650,218.925,2.390938E+02,3.804615E-01,
    10700,218.600,2.372342E+02,3.780636E-01,
    10750,218.275,2.353862E+02,3.756772E-01,
    10800,217.950,2.335500E+02,3.733024E-01,
    10850,217.625,2.317254E+02,3.709391E-01,
    10900,217.300,2.299123E+02,3.685872E-01,
    10950,216.975,2.281108E+02,3.662468E-01,
    11000,216.650,2.263206E+02,3.639178E-01,
    11100,216.650,2.227798E+02,3.582242E-01,
    11200,216.650,2.192944E+02,3.526197E-01,
    11300,216.650,2.158635E+02,3.471030E-01,
    11400,216.650,2.124863E+02,3.416725E-01,
    11500,216.650,2.091619E+02,3.363269E-01,
    11600,216.650,2.058895E+02,3.310651E-01,
    11700,216.650,2.026683E+02,3.258855E-01,
    11800,216.650,1.994976E+02,3.207870E-01,
    11900,216.650,1.963764E+02,3.157682E-01,
    12000,216.650,1.933041E+02,3.108279E-01,
    12100,216.650,1.902798E+02,3.059650E-01,
    12200,216.650,1.873028E+02,3.011781E-01,
    12300,216.650,1.843724E+02,2.964661E-01,
    12400,216.650,1.814879E+02,2.918279E-01,
    12500,216.650,1.786485E+02,2.872622E-01,
    12600,216.650,1.758535E+02,2.827679E-01,
    12700,216.650,1.731022E+02,2.783440E-01,
    12800,216.650,1.703940E+02,2.739892E-01,
    12900,216.650,1.677282E+02,2.697026E-01,
    13000,216.650,1.651041E+02,2.654831E-01,
    13100,216.650,1.625210E+02,2.613296E-01,
    13200,216.650,1.599783E+02,2.572410E-01,
    13300,216.650,1.574754E+02,2.532164E-01,
    13400,216.650,1.550117E+02,2.492548E-01,
    13500,216.650,1.525865E+02,2.453552E-01,
    13600,216.650,1.501993E+02,2.415166E-01,
    13700,216.650,1.478494E+02,2.377380E-01,
    13800,216.650,1.455363E+02,2.340186E-01,
    13900,216.650,1.432593E+02,2.303573E-01,
    14000,216.650,1.410180E+02,2.267533E-01,
    14100,216.650,1.388117E+02,2.232057E-01,
    14200,216.650,1.366400E+02,2.197136E-01,
    14300,216.650,1.345023E+02,2.162762E-01,
    14400,216.650,1.323979E+02,2.128925E-01,
    14500,216.650,1.303266E+02,2.095618E-01,
    14600,216.650,1.282876E+02,2.062831E-01,
    14700,216.650,1.262805E+02,2.030558E-01,
    14800,216.650,1.243048E+02,1.998790E-01,
    14900,216.650,1.223601E+02,1.967518E-01,
    15000,216.650,1.204457E+02,1.936736E-01,
    15100,216.650,1.185613E+02,1.906436E-01,
    15200,216.650,1.167064E+02,1.876609E-01,
    15300,216.650,1.148805E+02,1.847249E-01,
    15400,216.650,1.130832E+02,1.818349E-01,
    15500,216.650,1.113140E+02,1.789900E-01,
    15600,216.650,1.095725E+02,1.761897E-01,
    15700,216.650,1.078582E+02,1.734332E-01,
    15800,216.650,1.061707E+02,1.707198E-01,
    15900,216.650,1.045097E+02,1.680489E-01,
    16000,216.650,1.028746E+02,1.654197E-01,
    16100,216.650,1.012651E+02,1.628317E-01,
    16200,216.650,9.968079E+01,1.602842E-01,
    16300,216.650,9.812127E+01,1.577765E-01,
    16400,216.650,9.658615E+01,1.553080E-01,
    16500,216.650,9.507504E+01,1.528782E-01,
    16600,216.650,9.358758E+01,1.504864E-01,
    16700,216.650,9.212338E+01,1.481320E-01,
    16800,216.650,9.068210E+01,1.458145E-01,
    16900,216.650,8.926336E+01,1.435332E-01,
    17000,216.650,8.786682E+01,1.412876E-01,
    17100,216.650,8.649213E+01,1.390771E-01,
    17200,216.650,8.513895E+01,1.369012E-01,
    17300,216.650,8.380693E+01,1.347594E-01,
    17400,216.650,8.249576E+01,1.326511E-01,
    17500,216.650,8.120510E+01,1.305757E-01,
    17600,216.650,7.993463E+01,1.285328E-01,
    17700,216.650,7.868404E+01,1.265219E-01,
    17800,216.650,7.745302E+01,1.245425E-01,
    17900,216.650,7.624125E+01,1.225940E-01,
    18000,216.650,7.504845E+01,1.206760E-01,
    18100,216.650,7.387430E+01,1.187880E-01,
    18200,216.650,7.271853E+01,1.169295E-01,
    18300,216.650,7.158083E+01,1.151001E-01,
    18400,216.650,7.046094E+01,1.132994E-01,
    18500,216.650,6.935857E+01,1.115268E-01,
    18600,216.650,6.827344E+01,1.097819E-01,
    18700,216.650,6.720529E+01,1.080644E-01,
    18800,216.650,6.615385E+01,1.063737E-01,
    18900,216.650,6.511886E+01,1.047095E-01,
    19000,216.650,6.410007E+01,1.030713E-01,
    19100,216.650,6.309721E+01,1.014587E-01,
    19200,216.650,6.211005E+01,9.987136E-02,
    19300,216.650,6.113833E+01,9.830886E-02,
    19400,216.650,6.018181E+01,9.677080E-02,
    19500,216.650,5.924025E+01,9.525680E-02,
    19600,216.650,5.831343E+01,9.376650E-02,
    19700,216.650,5.740111E+01,9.229950E-02,
    19800,216.650,5.650306E+01,9.085546E-02,
    19900,216.650,5.561906E+01,8.943401E-02,
    20000,216.650,5.474889E+01,8.803480E-02,
    20100,216.750,5.389253E+01,8.661782E-02,
    20200,216.850,5.304995E+01,8.522428E-02,
    20300,216.950,5.222092E+01,8.385379E-02,
    20400,217.050,5.140523E+01,8.250595E-02,
    20500,217.150,5.060264E+01,8.118039E-02,
    20600,217.250,4.981294E+01,7.987671E-02,
    20700,217.350,4.903592E+01,7.859456E-02,
    20800,217.450,4.827137E+01,7.733356E-02,
    20900,217.550,4.751909E+01,7.609336E-02,
    21000,217.650,4.677886E+01,7.487361E-02,
    21100,217.750,4.605050E+01,7.367396E-02,
    21200,217.850,4.533381E+01,7.249406E-02,
    21300,217.950,4.462859E+01,7.133359E-02,
    21400,218.050,4.393466E+01,7.019222E-02,
    21500,218.150,4.325183E+01,6.906962E-02,
    21600,218.250,4.257991E+01,6.796547E-02,
    21700,218.350,4.191874E+01,6.687947E-02,
    21800,218.450,4.126813E+01,6.581131E-02,
    21900,218.550,4.062791E+01,6.476069E-02,
    22000,218.650,3.999790E+01,6.372730E-02,
    22100,218.750,3.937795E+01,6.271087E-02,
    22200,218.850,3.876788E+01,6.171110E-02,
    22300,218.950,3.816754E+01,6.072772E-02,
    22400,219.050,3.757676E+01,5.976045E-02,
    22500,219.150,3.699539E+01,5.880901E-02,
    22600,219.250,3.642327E+01,5.787315E-02,
    22700,219.350,3.586025E+01,5.695259E-02,
    22800,219.450,3.530619E+01,5.604709E-02,
    22900,219.550,3.476093E+01,5.515639E-02,
    23000,219.650,3.422434E+01,5.428023E-02,
    23100,219.750,3.369627E+01,5.341839E-02,
    23200,219.850,3.317659E+01,5.257061E-02,
    23300,219.950,3.266515E+01,5.173666E-02,
    23400,220.050,3.216182E+01,5.091632E-02,
    23500,220.150,3.166646E+01,5.010934E-02,
    23600,220.250,3.117896E+01,4.931551E-02,
    23700,220.350,3.069918E+01,4.853461E-02,
    23800,220.450,3.022700E+01,4.776642E-02,
    23900,220.550,2.976228E+01,4.701073E-02,
    24000,220.650,2.930492E+01,4.626733E-02,
    24100,220.750,2.885479E+01,4.553601E-02,
    24200,220.850,2.841177E+01,4.481658E-02,
    24300,220.950,2.797575E+01,4.410883E-02,
    24400,221.050,2.754661E+01,4.341257E-02,
    24500,221.150,2.712425E+01,4.272761E-02,
    24600,221.250,2.670855E+01,4.205376E-02,
    24700,221.350,2.629940E+01,4.139083E-02,
    24800,221.450,2.589670E+01,4.073865E-02,
    24900,221.550,2.550035E+01,4.009702E-02,
    25000,221.650,2.511023E+01,3.946579E-02,
    25100,221.750,2.472626E+01,3.884477E-02,
    25200,221.850,2.434833E+01,3.823380E-02,
    25300,221.950,2.397634E+01,3.763271E-02,
    25400,222.050,2.361019E+01,3.704133E-02,
    25500,222.150,2.324980E+01,3.645950E-02,
    25600,222.250,2.289507E+01,3.588707E-02,
    25700,222.350,2.254591E+01,3.532388E-02,
    25800,222.450,2.220222E+01,3.476977E-02,
    25900,222.550,2.186393E+01,3.422460E-02,
    26000,222.650,2.153094E+01,3.368822E-02,
    26100,222.750,2.120316E+01,3.316048E-02,
    26200,222.850,2.088052E+01,3.264123E-02,
    26300,222.950,2.056293E+01,3.213035E-02,
    26400,223.050,2.025031E+01,3.162768E-02,
    26500,223.150,1.994258E+01,3.113310E-02,
    26600,223.250,1.963967E+01,3.064647E-02,
    26700,223.350,1.934148E+01,3.016766E-02,
    26800,223.450,1.904795E+01,2.969653E-02,
    26900,223.550,1.875901E+01,2.923297E-02,
    27000,223.650,1.847457E+01,2.877685E-02,
    27100,223.750,1.819458E+01,2.832805E-02,
    27200,223.850,1.791894E+01,2.788644E-02,
    27300,223.950,1.764761E+01,2.745191E-02,
    27400,224.050,1.738050E+01,2.702434E-02,
    27500,224.150,1.711755E+01,2.660361E-02,
    27600,224.250,1.685869E+01,2.618962E-02,
    27700,224.350,1.660386E+01,2.578225E-02,
    27800,224.450,1.635300E+01,2.538140E-02,
    27900,224.550,1.610603E+01,2.498695E-02,
    28000,224.650,1.586290E+01,2.459880E-02,
    28100,224.750,1.562354E+01,2.421685E-02,
    28200,224.850,1.538791E+01,2.384100E-02,
    28300,224.950,1.515592E+01,2.347114E-02,
    28400,225.050,1.492754E+01,2.310718E-02,
    28500,225.150,1.470270E+01,2.274903E-02,
    28600,225.250,1.448134E+01,2.239658E-02,
    28700,225.350,1.426341E+01,2.204974E-02,
    28800,225.450,1.404885E+01,2.170843E-02,
    28900,225.550,1.383762E+01,2.137255E-02,
    29000,225.650,1.362965E+01,2.104200E-02,
    29100,225.750,1.342490E+01,2.071672E-02,
    29200,225.850,1.322331E+01,2.039660E-02,
    29300,225.950,1.302483E+01,2.008157E-02,
    29400,226.050,1.282943E+01,1.977154E-02,
    29500,226.150,1.263703E+01,1.946643E-02,
    29600,226.250,1.244761E+01,1.916616E-02,
    29700,226.350,1.226111E+01,1.887065E-02,
    29800,226.450,1.207748E+01,1.857983E-02,
    29900,226.550,1.189668E+01,1.829361E-02,
    30000,226.650,1.171867E+01,1.801193E-02,
    30100,226.750,1.154339E+01,1.773470E-02,
    30200,226.850,1.137081E+01,1.746186E-02,
    30300,226.950,1.120089E+01,1.719334E-02,
    30400,227.050,1.103358E+01,1.692906E-02,
    30500,227.150,1.086884E+01,1.666896E-02,
    30600,227.250,1.070664E+01,1.641296E-02,
    30700,227.350,1.054692E+01,1.616101E-02,
    30800,227.450,1.038965E+01,1.591303E-02,
    30900,227.550,1.023480E+01,1.566896E-02,
    31000,227.650,1.008232E+01,1.542875E-02,
    31100,227.750,9.932178E+00,1.519231E-02,
    31200,227.850,9.784336E+00,1.495961E-02,
    31300,227.950,9.638758E+00,1.473056E-02,
    31400,228.050,9.495409E+00,1.450512E-02,
    31500,228.150,9.354254E+00,1.428323E-02,
    31600,228.250,9.215257E+00,1.406483E-02,
    31700,228.350,9.078385E+00,1.384986E-02,
    31800,228.450,8.943604E+00,1.363827E-02,
    31900,228.550,8.810882E+00,1.343000E-02,
    32000,228.650,8.680187E+00,1.322500E-02,
    32200,229.210,8.424946E+00,1.280476E-02,
    32400,229.770,8.177806E+00,1.239885E-02,
    32600,230.330,7.938491E+00,1.200674E-02,
    32800,230.890,7.706735E+00,1.162795E-02,
    33000,231.450,7.482282E+00,1.126198E-02,
    33200,232.010,7.264885E+00,1.090837E-02,
    33400,232.570,7.054306E+00,1.056668E-02,
    33600,233.130,6.850315E+00,1.023647E-02,
    33800,233.690,6.652692E+00,9.917337E-03,
    34000,234.250,6.461222E+00,9.608882E-03,
    34200,234.810,6.275701E+00,9.310724E-03,
    34400,235.370,6.095929E+00,9.022494E-03,
    34600,235.930,5.921716E+00,8.743841E-03,
    34800,236.490,5.752878E+00,8.474424E-03,
    35000,237.050,5.589235E+00,8.213916E-03,
    35200,237.610,5.430618E+00,7.962002E-03,
    35400,238.170,5.276859E+00,7.718381E-03,
    35600,238.730,5.127799E+00,7.482760E-03,
    35800,239.290,4.983285E+00,7.254859E-03,
    36000,239.850,4.843167E+00,7.034408E-03,
    36200,240.410,4.707302E+00,6.821146E-03,
    36400,240.970,4.575552E+00,6.614824E-03,
    36600,241.530,4.447781E+00,6.415199E-03,
    36800,242.090,4.323863E+00,6.222041E-03,
    37000,242.650,4.203671E+00,6.035125E-03,
    37200,243.210,4.087086E+00,5.854235E-03,
    37400,243.770,3.973991E+00,5.679165E-03,
    37600,244.330,3.864275E+00,5.509714E-03,
    37800,244.890,3.757829E+00,5.345689E-03,
    38000,245.450,3.654547E+00,5.186906E-03,
    38200,246.010,3.554331E+00,5.033185E-03,
    38400,246.570,3.457081E+00,4.884354E-03,
    38600,247.130,3.362703E+00,4.740246E-03,
    38800,247.690,3.271107E+00,4.600702E-03,
    39000,248.250,3.182205E+00,4.465567E-03,
    39200,248.810,3.095910E+00,4.334693E-03,
    39400,249.370,3.012142E+00,4.207936E-03,
    39600,249.930,2.930821E+00,4.085157E-03,
    39800,250.490,2.851870E+00,3.966224E-03,
    40000,251.050,2.775216E+00,3.851007E-03,
    40200,251.610,2.700785E+00,3.739383E-03,
    40400,252.170,2.628510E+00,3.631232E-03,
    40600,252.730,2.558322E+00,3.526438E-03,
    40800,253.290,2.490158E+00,3.424891E-03,
    41000,253.850,2.423955E+00,3.326482E-03,
    41200,254.410,2.359652E+00,3.231108E-03,
    41400,254.970,2.297190E+00,3.138670E-03,
    41600,255.530,2.236514E+00,3.049071E-03,
    41800,256.090,2.177568E+00,2.962217E-03,
    42000,256.650,2.120299E+00,2.878019E-03,
    42200,257.210,2.064656E+00,2.796389E-03,
    42400,257.770,2.010590E+00,2.717246E-03,
    42600,258.330,1.958052E+00,2.640506E-03,
    42800,258.890,1.906996E+00,2.566093E-03,
    43000,259.450,1.857378E+00,2.493931E-03,
    43200,260.010,1.809154E+00,2.423948E-03,
    43400,260.570,1.762281E+00,2.356072E-03,
    43600,261.130,1.716720E+00,2.290237E-03,
    43800,261.690,1.672430E+00,2.226377E-03,
    44000,262.250,1.629374E+00,2.164428E-03,
    44200,262.810,1.587515E+00,2.104329E-03,
    44400,263.370,1.546817E+00,2.046022E-03,
    44600,263.930,1.507245E+00,1.989449E-03,
    44800,264.490,1.468766E+00,1.934556E-03,
    45000,265.050,1.431348E+00,1.881288E-03,
    45200,265.610,1.394959E+00,1.829595E-03,
    45400,266.170,1.359570E+00,1.779427E-03,
    45600,266.730,1.325149E+00,1.730735E-03,
    45800,267.290,1.291669E+00,1.683474E-03,
    46000,267.850,1.259103E+00,1.637598E-03,
    46200,268.410,1.227423E+00,1.593065E-03,
    46400,268.970,1.196604E+00,1.549831E-03,
    46600,269.530,1.166620E+00,1.507857E-03,
    46800,270.090,1.137448E+00,1.467104E-03,
    47000,270.650,1.109063E+00,1.427533E-03,
    47200,270.650,1.081415E+00,1.391945E-03,
    47400,270.650,1.054456E+00,1.357245E-03,
    47600,270.650,1.028169E+00,1.323410E-03,
    47800,270.650,1.002538E+00,1.290418E-03,
    48000,270.650,9.775450E-01,1.258249E-03,
    48200,270.650,9.531755E-01,1.226882E-03,
    48400,270.650,9.294135E-01,1.196296E-03,
    48600,270.650,9.062439E-01,1.166473E-03,
    48800,270.650,8.836519E-01,1.137394E-03,
    49000,270.650,8.616231E-01,1.109040E-03,
    49200,270.650,8.401434E-01,1.081392E-03,
    49400,270.650,8.191992E-01,1.054434E-03,
    49600,270.650,7.987772E-01,1.028147E-03,
    49800,270.650,7.788642E-01,1.002516E-03,
    50000,270.650,7.594477E-01,9.775244E-04,
    50500,270.650,7.129977E-01,9.177363E-04,
    51000,270.650,6.693887E-01,8.616049E-04,
    51500,269.250,6.283441E-01,8.129795E-04,
    52000,267.850,5.896216E-01,7.668661E-04,
    52500,266.450,5.531011E-01,7.231470E-04,
    53000,265.050,5.186678E-01,6.817094E-04,
    53500,263.650,4.862127E-01,6.424455E-04,
    54000,262.250,4.556316E-01,6.052519E-04,
    54500,260.850,4.268255E-01,5.700295E-04,
    55000,259.450,3.997001E-01,5.366837E-04,
    55500,258.050,3.741657E-01,5.051238E-04,
    56000,256.650,3.501366E-01,4.752631E-04,
    56500,255.250,3.275319E-01,4.470186E-04,
    57000,253.850,3.062740E-01,4.203110E-04,
    57500,252.450,2.862895E-01,3.950644E-04,
    58000,251.050,2.675087E-01,3.712064E-04,
    58500,249.650,2.498651E-01,3.486678E-04,
    59000,248.250,2.332956E-01,3.273822E-04,
    59500,246.850,2.177404E-01,3.072866E-04,
    60000,245.450,2.031426E-01,2.883207E-04,
    60500,244.050,1.894483E-01,2.704267E-04,
    61000,242.650,1.766062E-01,2.535499E-04,
    61500,241.250,1.645678E-01,2.376376E-04,
    62000,239.850,1.532869E-01,2.226400E-04,
    62500,238.450,1.427201E-01,2.085093E-04,
    63000,237.050,1.328257E-01,1.952001E-04,
    63500,235.650,1.235648E-01,1.826690E-04,
    64000,234.250,1.149000E-01,1.708749E-04,
    64500,232.850,1.067963E-01,1.597782E-04,
    65000,231.450,9.922030E-02,1.493417E-04,
    65500,230.050,9.214063E-02,1.395297E-04,
    66000,228.650,8.552746E-02,1.303083E-04,
    66500,227.250,7.935262E-02,1.216453E-04,
    67000,225.850,7.358951E-02,1.135099E-04,
    67500,224.450,6.821296E-02,1.058730E-04,
    68000,223.050,6.319922E-02,9.870686E-05,
    68500,221.650,5.852586E-02,9.198518E-05,
    69000,220.250,5.417170E-02,8.568294E-05,
    69500,218.850,5.011677E-02,7.977638E-05,
    70000,217.450,4.634222E-02,7.424294E-05,
    70500,216.050,4.283028E-02,6.906124E-05,
    71000,214.650,3.956420E-02,6.421099E-05,
    71500,213.650,3.653096E-02,5.956566E-05,
    72000,212.650,3.371763E-02,5.523693E-05,
    72500,211.650,3.110922E-02,5.120456E-05,
    73000,210.650,2.869165E-02,4.744953E-05,
    73500,209.650,2.645177E-02,4.395393E-05,
    74000,208.650,2.437728E-02,4.070096E-05,
    74500,207.650,2.245666E-02,3.767481E-05,
    75000,206.650,2.067918E-02,3.486066E-05,
    75500,205.650,1.903476E-02,3.224457E-05,
    76000,204.650,1.751404E-02,2.981346E-05,
    76500,203.650,1.610824E-02,2.755507E-05,
    77000,202.650,1.480918E-02,2.545787E-05,
    77500,201.650,1.360922E-02,2.351109E-05,
    78000,200.650,1.250123E-02,2.170459E-05,
    78500,199.650,1.147859E-02,2.002889E-05,
    79000,198.650,1.053508E-02,1.847511E-05,
    79500,197.650,9.664941E-03,1.703492E-05,
    80000,196.650,8.862795E-03,1.570054E-05,
    80500,195.650,8.123634E-03,1.446466E-05,
    81000,194.650,7.442798E-03,1.332047E-05,
    81500,193.650,6.815948E-03,1.226158E-05,
    82000,192.650,6.239051E-03,1.128203E-05,
    82500,191.650,5.708354E-03,1.037624E-05,
    83000,190.650,5.220369E-03,9.538986E-06,
    83500,189.650,4.771858E-03,8.765415E-06,
    84000,188.650,4.359810E-03,8.050976E-06,
    84500,187.650,3.981430E-03,7.391427E-06,
    ])


atm_data.alt = \
    np.array([-5.000e+03, -4.950e+03, -4.900e+03, -4.850e+03, -4.800e+03, -4.750e+03, -4.700e+03,
           -4.650e+03, -4.600e+03, -4.550e+03, -4.500e+03, -4.450e+03, -4.400e+03, -4.350e+03,
           -4.300e+03, -4.250e+03, -4.200e+03, -4.150e+03, -4.100e+03, -4.050e+03, -4.000e+03,
           -3.950e+03, -3.900e+03, -3.850e+03, -3.800e+03, -3.750e+03, -3.700e+03, -3.650e+03,
           -3.600e+03, -3.550e+03, -3.500e+03, -3.450e+03, -3.400e+03, -3.350e+03, -3.300e+03,
           -3.250e+03, -3.200e+03, -3.150e+03, -3.100e+03, -3.050e+03, -3.000e+03, -2.950e+03,
           -2.900e+03, -2.850e+03, -2.800e+03, -2.750e+03, -2.700e+03, -2.650e+03, -2.600e+03,
           -2.550e+03, -2.500e+03, -2.450e+03, -2.400e+03, -2.350e+03, -2.300e+03, -2.250e+03,
           -2.200e+03, -2.150e+03, -2.100e+03, -2.050e+03, -2.000e+03, -1.950e+03, -1.900e+03,
           -1.850e+03, -1.800e+03, -1.750e+03, -1.700e+03, -1.650e+03, -1.600e+03, -1.550e+03,
           -1.500e+03, -1.450e+03, -1.400e+03, -1.350e+03, -1.300e+03, -1.250e+03, -1.200e+03,
           -1.150e+03, -1.100e+03, -1.050e+03, -1.000e+03, -9.500e+02, -9.000e+02, -8.500e+02,
           -8.000e+02, -7.500e+02, -7.000e+02, -6.500e+02, -6.000e+02, -5.500e+02, -5.000e+02,
           -4.500e+02, -4.000e+02, -3.500e+02, -3.000e+02, -2.500e+02, -2.000e+02, -1.500e+02,
           -1.000e+02, -5.000e+01,  0.000e+00,  5.000e+01,  1.000e+02,  1.500e+02,  2.000e+02,
            2.500e+02,  3.000e+02,  3.500e+02,  4.000e+02,  4.500e+02,  5.000e+02,  5.500e+02,
            6.000e+02,  6.500e+02,  7.000e+02,  7.500e+02,  8.000e+02,  8.500e+02,  9.000e+02,
            9.500e+02,  1.000e+03,  1.050e+03,  1.100e+03,  1.150e+03,  1.200e+03,  1.250e+03,
            1.300e+03,  1.350e+03,  1.400e+03,  1.450e+03,  1.500e+03,  1.550e+03,  1.600e+03,
            1.650e+03,  1.700e+03,  1.750e+03,  1.800e+03,  1.850e+03,  1.900e+03,  1.950e+03,
            2.000e+03,  2.050e+03,  2.100e+03,  2.150e+03,  2.200e+03,  2.250e+03,  2.300e+03,
            2.350e+03,  2.400e+03,  2.450e+03,  2.500e+03,  2.550e+03,  2.600e+03,  2.650e+03,
            2.700e+03,  2.750e+03,  2.800e+03,  2.850e+03,  2.900e+03,  2.950e+03,  3.000e+03,
            3.050e+03,  3.100e+03,  3.150e+03,  3.200e+03,  3.250e+03,  3.300e+03,  3.350e+03,
            3.400e+03,  3.450e+03,  3.500e+03,  3.550e+03,  3.600e+03,  3.650e+03,  3.700e+03,
            3.750e+03,  3.800e+03,  3.850e+03,  3.900e+03,  3.950e+03,  4.000e+03,  4.050e+03,
            4.100e+03,  4.150e+03,  4.200e+03,  4.250e+03,  4.300e+03,  4.350e+03,  4.400e+03,
            4.450e+03,  4.500e+03,  4.550e+03,  4.600e+03,  4.650e+03,  4.700e+03,  4.750e+03,
            4.800e+03,  4.850e+03,  4.900e+03,  4.950e+03,  5.000e+03,  5.050e+03,  5.100e+03,
            5.150e+03,  5.200e+03,  5.250e+03,  5.300e+03,  5.350e+03,  5.400e+03,  5.450e+03,
            5.500e+03,  5.550e+03,  5.600e+03,  5.650e+03,  5.700e+03,  5.750e+03,  5.800e+03,
            5.850e+03,  5.900e+03,  5.950e+03,  6.000e+03,  6.050e+03,  6.100e+03,  6.150e+03,
            6.200e+03,  6.250e+03,  6.300e+03,  6.350e+03,  6.400e+03,  6.450e+03,  6.500e+03,
            6.550e+03,  6.600e+03,  6.650e+03,  6.700e+03,  6.750e+03,  6.800e+03,  6.850e+03,
            6.900e+03,  6.950e+03,  7.000e+03,  7.050e+03,  7.100e+03,  7.150e+03,  7.200e+03,
            7.250e+03,  7.300e+03,  7.350e+03,  7.400e+03,  7.450e+03,  7.500e+03,  7.550e+03,
            7.600e+03,  7.650e+03,  7.700e+03,  7.750e+03,  7.800e+03,  7.850e+03,  7.900e+03,
            7.950e+03,  8.000e+03,  8.050e+03,  8.100e+03,  8.150e+03,  8.200e+03,  8.250e+03,
            8.300e+03,  8.350e+03,  8.400e+03,  8.450e+03,  8.500e+03,  8.550e+03,  8.600e+03,
            8.650e+03,  8.700e+03,  8.750e+03,  8.800e+03,  8.850e+03,  8.900e+03,  8.950e+03,
            9.000e+03,  9.050e+03,  9.100e+03,  9.150e+03,  9.200e+03,  9.250e+03,  9.300e+03,
            9.350e+03,  9.400e+03,  9.450e+03,  9.500e+03,  9.550e+03,  9.600e+03,  9.650e+03,
            9.700e+03,  9.750e+03,  9.800e+03,  9.850e+03,  9.900e+03,  9.950e+03,  1.000e+04,
            1.005e+04,  1.010e+04,  1.015e+04,  1.020e+04,  1.025e+04,  1.030e+04,  1.035e+04,
            1.040e+04,  1.045e+04,  1.050e+04,  1.055e+04,  1.060e+04,  1.065e+04,  1.070e+04,
            1.075e+04,  1.080e+04,  1.085e+04,  1.090e+04,  1.095e+04,  1.100e+04,  1.110e+04,
            1.120e+04,  1.130e+04,  1.140e+04,  1.150e+04,  1.160e+04,  1.170e+04,  1.180e+04,
            1.190e+04,  1.200e+04,  1.210e+04,  1.220e+04,  1.230e+04,  1.240e+04,  1.250e+04,
            1.260e+04,  1.270e+04,  1.280e+04,  1.290e+04,  1.300e+04,  1.310e+04,  1.320e+04,
            1.330e+04,  1.340e+04,  1.350e+04,  1.360e+04,  1.370e+04,  1.380e+04,  1.390e+04,
            1.400e+04,  1.410e+04,  1.420e+04,  1.430e+04,  1.440e+04,  1.450e+04,  1.460e+04,
            1.470e+04,  1.480e+04,  1.490e+04,  1.500e+04,  1.510e+04,  1.520e+04,  1.530e+04,
            1.540e+04,  1.550e+04,  1.560e+04,  1.570e+04,  1.580e+04,  1.590e+04,  1.600e+04,
            1.610e+04,  1.620e+04,  1.630e+04,  1.640e+04,  1.650e+04,  1.660e+04,  1.670e+04,
            1.680e+04,  1.690e+04,  1.700e+04,  1.710e+04,  1.720e+04,  1.730e+04,  1.740e+04,
            1.750e+04,  1.760e+04,  1.770e+04,  1.780e+04,  1.790e+04,  1.800e+04,  1.810e+04,
            1.820e+04,  1.830e+04,  1.840e+04,  1.850e+04,  1.860e+04,  1.870e+04,  1.880e+04,
            1.890e+04,  1.900e+04,  1.910e+04,  1.920e+04,  1.930e+04,  1.940e+04,  1.950e+04,
            1.960e+04,  1.970e+04,  1.980e+04,  1.990e+04,  2.000e+04,  2.010e+04,  2.020e+04,
            2.030e+04,  2.040e+04,  2.050e+04,  2.060e+04,  2.070e+04,  2.080e+04,  2.090e+04,
            2.100e+04,  2.110e+04,  2.120e+04,  2.130e+04,  2.140e+04,  2.150e+04,  2.160e+04,
            2.170e+04,  2.180e+04,  2.190e+04,  2.200e+04,  2.210e+04,  2.220e+04,  2.230e+04,
            2.240e+04,  2.250e+04,  2.260e+04,  2.270e+04,  2.280e+04,  2.290e+04,  2.300e+04,
            2.310e+04,  2.320e+04,  2.330e+04,  2.340e+04,  2.350e+04,  2.360e+04,  2.370e+04,
            2.380e+04,  2.390e+04,  2.400e+04,  2.410e+04,  2.420e+04,  2.430e+04,  2.440e+04,
            2.450e+04,  2.460e+04,  2.470e+04,  2.480e+04,  2.490e+04,  2.500e+04,  2.510e+04,
            2.520e+04,  2.530e+04,  2.540e+04,  2.550e+04,  2.560e+04,  2.570e+04,  2.580e+04,
            2.590e+04,  2.600e+04,  2.610e+04,  2.620e+04,  2.630e+04,  2.640e+04,  2.650e+04,
            2.660e+04,  2.670e+04,  2.680e+04,  2.690e+04,  2.700e+04,  2.710e+04,  2.720e+04,
            2.730e+04,  2.740e+04,  2.750e+04,  2.760e+04,  2.770e+04,  2.780e+04,  2.790e+04,
            2.800e+04,  2.810e+04,  2.820e+04,  2.830e+04,  2.840e+04,  2.850e+04,  2.860e+04,
            2.870e+04,  2.880e+04,  2.890e+04,  2.900e+04,  2.910e+04,  2.920e+04,  2.930e+04,
            2.940e+04,  2.950e+04,  2.960e+04,  2.970e+04,  2.980e+04,  2.990e+04,  3.000e+04,
            3.010e+04,  3.020e+04,  3.030e+04,  3.040e+04,  3.050e+04,  3.060e+04,  3.070e+04,
            3.080e+04,  3.090e+04,  3.100e+04,  3.110e+04,  3.120e+04,  3.130e+04,  3.140e+04,
            3.150e+04,  3.160e+04,  3.170e+04,  3.180e+04,  3.190e+04,  3.200e+04,  3.220e+04,
            3.240e+04,  3.260e+04,  3.280e+04,  3.300e+04,  3.320e+04,  3.340e+04,  3.360e+04,
            3.380e+04,  3.400e+04,  3.420e+04,  3.440e+04,  3.460e+04,  3.480e+04,  3.500e+04,
            3.520e+04,  3.540e+04,  3.560e+04,  3.580e+04,  3.600e+04,  3.620e+04,  3.640e+04,
            3.660e+04,  3.680e+04,  3.700e+04,  3.720e+04,  3.740e+04,  3.760e+04,  3.780e+04,
            3.800e+04,  3.820e+04,  3.840e+04,  3.860e+04,  3.880e+04,  3.900e+04,  3.920e+04,
            3.940e+04,  3.960e+04,  3.980e+04,  4.000e+04,  4.020e+04,  4.040e+04,  4.060e+04,
            4.080e+04,  4.100e+04,  4.120e+04,  4.140e+04,  4.160e+04,  4.180e+04,  4.200e+04,
            4.220e+04,  4.240e+04,  4.260e+04,  4.280e+04,  4.300e+04,  4.320e+04,  4.340e+04,
            4.360e+04,  4.380e+04,  4.400e+04,  4.420e+04,  4.440e+04,  4.460e+04,  4.480e+04,
            4.500e+04,  4.520e+04,  4.540e+04,  4.560e+04,  4.580e+04,  4.600e+04,  4.620e+04,
            4.640e+04,  4.660e+04,  4.680e+04,  4.700e+04,  4.720e+04,  4.740e+04,  4.760e+04,
            4.780e+04,  4.800e+04,  4.820e+04,  4.840e+04,  4.860e+04,  4.880e+04,  4.900e+04,
            4.920e+04,  4.940e+04,  4.960e+04,  4.980e+04,  5.000e+04,  5.050e+04,  5.100e+04,
            5.150e+04,  5.200e+04,  5.250e+04,  5.300e+04,  5.350e+04,  5.400e+04,  5.450e+04,
            5.500e+04,  5.550e+04,  5.600e+04,  5.650e+04,  5.700e+04,  5.750e+04,  5.800e+04,
            5.850e+04,  5.900e+04,  5.950e+04,  6.000e+04,  6.050e+04,  6.100e+04,  6.150e+04,
            6.200e+04,  6.250e+04,  6.300e+04,  6.350e+04,  6.400e+04,  6.450e+04,  6.500e+04,
            6.550e+04,  6.600e+04,  6.650e+04,  6.700e+04,  6.750e+04,  6.800e+04,  6.850e+04,
            6.900e+04,  6.950e+04,  7.000e+04,  7.050e+04,  7.100e+04,  7.150e+04,  7.200e+04,
            7.250e+04,  7.300e+04,  7.350e+04,  7.400e+04,  7.450e+04,  7.500e+04,  7.550e+04,
            7.600e+04,  7.650e+04,  7.700e+04,  7.750e+04,  7.800e+04,  7.850e+04,  7.900e+04,
            7.950e+04,  8.000e+04,  8.050e+04,  8.100e+04,  8.150e+04,  8.200e+04,  8.250e+04,
            8.300e+04,  8.350e+04,  8.400e+04,  8.450e+04])

atm_data.akima_T = \
    np.array([[ 3.2064999999999998e+02, -6.4999999999997725e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 3.2064999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.2032499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.2000000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1967500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1935000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 3.1902499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1869999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1837500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1805000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1772500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 3.1739999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1707499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1675000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1642500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1610000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 3.1577499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1544999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1512500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1480000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1447500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 3.1414999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1382499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1350000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1317500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1285000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 3.1252499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1219999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1187500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1155000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1122500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 3.1089999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1057499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.1025000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0992500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0960000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 3.0927499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0894999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0862500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0830000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0797500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 3.0764999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0732499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0700000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0667500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0635000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 3.0602499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0569999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0537500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0505000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0472500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 3.0439999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0407499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0375000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0342500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0310000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 3.0277499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0244999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0212500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0180000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0147500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 3.0114999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0082499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0050000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 3.0017500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9985000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.9952499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9919999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9887500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9855000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9822500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.9789999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9757499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9725000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9692500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9660000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.9627499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9594999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9562500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9530000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9497500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.9464999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9432499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9400000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9367500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9335000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.9302499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9269999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9237500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9205000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9172500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.9139999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9107499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9075000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9042500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.9010000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.8977499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8944999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8912500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8880000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8847500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.8814999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8782499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8750000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8717500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8685000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.8652499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8619999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8587500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8555000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8522500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.8489999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8457499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8425000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8392500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8360000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.8327499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8294999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8262500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8230000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8197500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.8164999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8132499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8100000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8067500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.8035000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.8002499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7969999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7937500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7905000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7872500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.7839999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7807499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7775000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7742500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7710000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.7677499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7644999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7612500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7580000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7547500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.7514999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7482499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7450000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7417500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7385000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.7352499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7319999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7287500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7255000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7222500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.7189999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7157499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7125000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7092500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.7060000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.7027499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6994999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6962500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6930000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6897500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.6864999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6832499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6800000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6767500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6735000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.6702499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6669999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6637500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6605000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6572500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.6539999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6507499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6475000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6442500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6410000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.6377499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6344999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6312500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6280000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6247500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.6214999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6182499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6150000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6117500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6085000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.6052499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.6019999999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.5987500000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.5955000000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.5922500000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.5889999999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.5857499999999999e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.5825000000000000e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.5792500000000001e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.5760000000000002e+02, -6.4999999999997725e-03, -6.8261368779687362e-17,  9.0968899080223760e-19],
           [ 2.5727499999999998e+02, -6.4999999999997725e-03,  1.7347234759768071e-20,  0.0000000000000000e+00],
           [ 2.5694999999999999e+02, -6.4999999999997725e-03,  3.4694469519536143e-20, -6.9388939039072287e-22],
           [ 2.5662500000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.5630000000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.5597499999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.5565000000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.5532499999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.5500000000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.5467500000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.5434999999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.5402500000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.5369999999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.5337500000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.5305000000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.5272499999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.5240000000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.5207499999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.5175000000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.5142500000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.5109999999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.5077500000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.5044999999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.5012500000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.4980000000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.4947499999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.4915000000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.4882499999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.4850000000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.4817500000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.4784999999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.4752500000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.4719999999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.4687500000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.4655000000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.4622499999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.4590000000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.4557499999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.4525000000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.4492500000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.4459999999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.4427500000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.4394999999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.4362500000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.4330000000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.4297499999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.4265000000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.4232499999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.4200000000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.4167500000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.4134999999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.4102500000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.4069999999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.4037500000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.4005000000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.3972499999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.3940000000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.3907499999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.3875000000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.3842500000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.3809999999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.3777500000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.3744999999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.3712500000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.3680000000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.3647499999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.3615000000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.3582499999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.3550000000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.3517500000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.3484999999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.3452500000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.3419999999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.3387500000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.3355000000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.3322499999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.3290000000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.3257499999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.3225000000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.3192500000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.3159999999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.3127500000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.3094999999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.3062500000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.3030000000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.2997499999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.2965000000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.2932499999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.2900000000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.2867500000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.2834999999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.2802500000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.2769999999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.2737500000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.2705000000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.2672499999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.2640000000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.2607499999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.2575000000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.2542500000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.2509999999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.2477500000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.2444999999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.2412500000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.2380000000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.2347499999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.2315000000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.2282499999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.2250000000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.2217500000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.2184999999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.2152500000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.2119999999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.2087500000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.2055000000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.2022499999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.1990000000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.1957499999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.1925000000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.1892500000000001e+02, -6.4999999999997733e-03, -2.8397423301740334e-17,  3.4069969068184495e-19],
           [ 2.1859999999999999e+02, -6.5000000000000569e-03,  1.7087026238371549e-17, -2.2759572004815711e-19],
           [ 2.1827500000000001e+02, -6.5000000000000569e-03, -2.2724877535296172e-17,  3.4069969068184495e-19],
           [ 2.1794999999999999e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.1762500000000000e+02, -6.4999999999997733e-03,  6.9388939039072285e-20, -6.9388939039072287e-22],
           [ 2.1730000000000001e+02, -6.4999999999997733e-03, -2.2690183065776637e-17,  2.2690183065776637e-19],
           [ 2.1697499999999999e+02, -6.5000000000003423e-03, -1.2999999999997264e-04,  2.5999999999996812e-06],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1665000000000001e+02,  0.0000000000000000e+00, -4.9999999999997158e-06,  4.9999999999997159e-08],
           [ 2.1665000000000001e+02,  4.9999999999997160e-04,  9.9999999999994316e-06, -4.9999999999997159e-08],
           [ 2.1675000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1684999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1694999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.1705000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1715000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1725000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1734999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1744999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.1755000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1765000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1775000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1784999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1794999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.1805000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1815000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1825000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1834999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1844999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.1855000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1865000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1875000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1884999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1894999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.1905000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1915000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1925000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1934999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1944999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.1955000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1965000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1975000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1984999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1994999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2005000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2015000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2025000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2034999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2044999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2055000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2065000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2075000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2084999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2094999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2105000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2115000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2125000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2134999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2144999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2155000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2165000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2175000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2184999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2194999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2205000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2215000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2225000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2234999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2244999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2255000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2265000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2275000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2284999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2294999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2305000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2315000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2325000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2334999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2344999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2355000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2365000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2375000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2384999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2394999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2405000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2415000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2425000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2434999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2444999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2455000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2465000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2475000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2484999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2494999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2505000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2515000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2525000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2534999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2544999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2555000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2565000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2575000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2584999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2594999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2605000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2615000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2625000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2634999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2644999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2655000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2665000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2675000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2684999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2694999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2705000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2715000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2725000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2734999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2744999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2755000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2765000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2775000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2784999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2794999999999999e+02,  9.9999999999994321e-04,  8.5305026931159496e-18, -5.6855561925139850e-20],
           [ 2.2805000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2815000000000001e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2825000000000000e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2834999999999999e+02,  9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.2844999999999999e+02,  9.9999999999994321e-04,  5.6877245968589564e-18, -2.8406096919120217e-20],
           [ 2.2855000000000001e+02,  1.0000000000002273e-03, -1.8000000000006363e-05,  1.8000000000003520e-07],
           [ 2.2865000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.2921000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.2977000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3033000000000001e+02,  2.8000000000000112e-03, -2.1228678537266179e-18,  7.0906822080551990e-21],
           [ 2.3088999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3144999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3200999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3256999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3313000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3369000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3425000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3481000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3537000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3593000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3649000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3705000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3761000000000001e+02,  2.8000000000000112e-03, -2.1228678537266179e-18,  7.0906822080551990e-21],
           [ 2.3816999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3872999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3928999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.3984999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4041000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4097000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4153000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4209000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4265000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4321000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4377000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4433000000000001e+02,  2.8000000000000112e-03, -2.1228678537266179e-18,  7.0906822080551990e-21],
           [ 2.4488999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4544999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4600999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4656999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4713000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4769000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4825000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4881000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4937000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.4993000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5049000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5105000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5161000000000001e+02,  2.8000000000000112e-03, -2.1228678537266179e-18,  7.0906822080551990e-21],
           [ 2.5216999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5272999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5328999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5384999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5441000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5497000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5553000000000000e+02,  2.8000000000000112e-03, -2.1228678537266179e-18,  7.0906822080551990e-21],
           [ 2.5608999999999997e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5664999999999998e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5720999999999998e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5776999999999998e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5832999999999998e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5888999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.5944999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6000999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6056999999999999e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6113000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6169000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6225000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6281000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6337000000000000e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6393000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6449000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6505000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6561000000000001e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6617000000000002e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6673000000000002e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6729000000000002e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6785000000000002e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6841000000000003e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.6897000000000003e+02,  2.8000000000000112e-03, -4.2565777291780902e-18,  1.4203048459560109e-20],
           [ 2.6952999999999997e+02,  2.8000000000000112e-03,  2.1684043449710089e-21,  0.0000000000000000e+00],
           [ 2.7008999999999997e+02,  2.8000000000000112e-03,  7.0000000000000304e-06, -3.5000000000000135e-08],
           [ 2.7064999999999998e+02,  1.4000000000000056e-03, -1.4000000000000056e-05,  3.5000000000000141e-08],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.7064999999999998e+02,  0.0000000000000000e+00,  2.7999999999999546e-06, -5.5999999999999095e-09],
           [ 2.7064999999999998e+02, -1.3999999999999772e-03, -5.5999999999999066e-06,  5.5999999999999079e-09],
           [ 2.6925000000000000e+02, -2.7999999999999549e-03,  3.4694469519536143e-21,  0.0000000000000000e+00],
           [ 2.6785000000000002e+02, -2.7999999999999544e-03, -5.6812193838240435e-19,  6.8001160258290845e-22],
           [ 2.6644999999999999e+02, -2.8000000000000112e-03,  3.4260788650541942e-19, -4.5449755070592350e-22],
           [ 2.6505000000000001e+02, -2.8000000000000112e-03, -4.5449755070592348e-19,  6.8001160258290845e-22],
           [ 2.6364999999999998e+02, -2.7999999999999544e-03,  1.7347234759768071e-21,  0.0000000000000000e+00],
           [ 2.6225000000000000e+02, -2.7999999999999544e-03,  1.7347234759768071e-21,  0.0000000000000000e+00],
           [ 2.6085000000000002e+02, -2.7999999999999544e-03, -5.6812193838240435e-19,  6.8001160258290845e-22],
           [ 2.5944999999999999e+02, -2.8000000000000112e-03,  3.4260788650541942e-19, -4.5449755070592350e-22],
           [ 2.5805000000000001e+02, -2.8000000000000112e-03, -3.7903707950093235e-19,  5.3082538364890299e-22],
           [ 2.5664999999999998e+02, -2.7999999999999922e-03,  2.6628005356243988e-19, -3.7816971776294397e-22],
           [ 2.5525000000000000e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.5384999999999999e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.5244999999999999e+02, -2.8000000000000112e-03,  3.4260788650541942e-19, -4.5449755070592350e-22],
           [ 2.5105000000000001e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.4965000000000001e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.4825000000000000e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.4684999999999999e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.4544999999999999e+02, -2.8000000000000112e-03,  3.4260788650541942e-19, -4.5449755070592350e-22],
           [ 2.4405000000000001e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.4265000000000001e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.4125000000000000e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.3984999999999999e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.3844999999999999e+02, -2.8000000000000112e-03,  3.4260788650541942e-19, -4.5449755070592350e-22],
           [ 2.3705000000000001e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.3565000000000001e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.3425000000000000e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.3284999999999999e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.3144999999999999e+02, -2.8000000000000112e-03,  3.4260788650541942e-19, -4.5449755070592350e-22],
           [ 2.3005000000000001e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.2865000000000001e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.2725000000000000e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.2584999999999999e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.2444999999999999e+02, -2.8000000000000112e-03,  3.4260788650541942e-19, -4.5449755070592350e-22],
           [ 2.2305000000000001e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.2165000000000001e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.2025000000000000e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.1884999999999999e+02, -2.8000000000000112e-03, -8.6736173798840357e-22,  0.0000000000000000e+00],
           [ 2.1744999999999999e+02, -2.8000000000000112e-03,  2.2985086056692695e-19, -2.2898349882893855e-22],
           [ 2.1605000000000001e+02, -2.7999999999999549e-03, -1.6000000000002487e-06,  3.2000000000002690e-09],
           [ 2.1465000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1365000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1265000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1165000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.1065000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0965000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0865000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0765000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0665000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0565000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0465000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0365000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0265000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0165000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.0065000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9965000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9865000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9765000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9665000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9565000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9465000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9365000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9265000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9165000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9065000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8965000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8865000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.8765000000000001e+02, -2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_P = \
    np.array([[ 1.7768700000000000e+05, -1.8934000000000232e+01,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.7768700000000000e+05, -1.8934000000000232e+01,  8.1951219512298222e-04,  4.0975609758788778e-07],
           [ 1.7674239999999999e+05, -1.8848975609756035e+01,  8.1951219512298222e-04,  0.0000000000000000e+00],
           [ 1.7580200000000000e+05, -1.8767024390243730e+01,  7.7085215296129666e-04,  1.9271303831089880e-07],
           [ 1.7486560000000001e+05, -1.8688493827160261e+01,  7.9975308642282533e-04,  2.0246913569508254e-07],
           [ 1.7393320000000001e+05, -1.8607000000000266e+01,  8.3012345678305625e-04, -2.0246913569508254e-07],
           [ 1.7300489999999999e+05, -1.8525506172839673e+01,  7.7012033131126142e-04,  4.0006250973476656e-07],
           [ 1.7208060000000001e+05, -1.8445493670885519e+01,  8.0937646506981762e-04, -3.9006094709748140e-07],
           [ 1.7116030000000002e+05, -1.8367481481481761e+01,  7.5925925924792638e-04,  6.0740740755989013e-07],
           [ 1.7024389999999999e+05, -1.8287000000000269e+01,  8.5037037038823368e-04, -6.0740740756273224e-07],
           [ 1.6933160000000001e+05, -1.8206518518518184e+01,  7.4074074072896681e-04,  5.9259259273858337e-07],
           [ 1.6842320000000001e+05, -1.8127999999999734e+01,  8.1012658228473810e-04, -2.0253164575763094e-07],
           [ 1.6751880000000002e+05, -1.8048506329114428e+01,  7.6025316454327203e-04,  1.9746835467344680e-07],
           [ 1.6661829999999999e+05, -1.7971000000000053e+01,  7.8987341774400483e-04, -1.9746835467344680e-07],
           [ 1.6572170000000001e+05, -1.7893493670885693e+01,  7.6935722503726825e-04,  4.1032385343839909e-07],
           [ 1.6482900000000000e+05, -1.7813480519481178e+01,  8.0960052605753678e-04, -3.9980272877357954e-07],
           [ 1.6394029999999999e+05, -1.7735518987341219e+01,  7.2075949368951338e-04,  5.9240506297726371e-07],
           [ 1.6305540000000002e+05, -1.7658999999999942e+01,  7.9999999996793747e-04, -3.9999999961253254e-07],
           [ 1.6217439999999999e+05, -1.7582000000000260e+01,  7.4000000003131565e-04,  3.9999999961821687e-07],
           [ 1.6129720000000001e+05, -1.7504999999999999e+01,  7.9999999997383499e-04, -3.9999999961537471e-07],
           [ 1.6042389999999999e+05, -1.7427999999999741e+01,  7.2960000002545659e-04,  6.0799999961886899e-07],
           [ 1.5955440000000002e+05, -1.7350480000000044e+01,  7.9919999997109421e-04, -5.9199999968484467e-07],
           [ 1.5868879999999999e+05, -1.7275000000000563e+01,  7.0000000002536924e-04,  7.9999999976791971e-07],
           [ 1.5782689999999999e+05, -1.7198999999999785e+01,  8.1038961037805280e-04, -6.0779220764857199e-07],
           [ 1.5696889999999999e+05, -1.7122519480519337e+01,  7.1091255411616318e-04,  3.8954112550584345e-07],
           [ 1.5611460000000001e+05, -1.7048506666666434e+01,  7.7013333332871532e-04,  0.0000000000000000e+00],
           [ 1.5526410000000001e+05, -1.6971493333333569e+01,  7.4986666666674749e-04,  0.0000000000000000e+00],
           [ 1.5441739999999999e+05, -1.6896506666666895e+01,  7.2026666667049713e-04,  1.9733333334670533e-07],
           [ 1.5357439999999999e+05, -1.6822999999999734e+01,  7.4986666666646332e-04, -1.9733333334102100e-07],
           [ 1.5273510000000001e+05, -1.6749493333333156e+01,  7.2932237442529418e-04,  4.1088584470969641e-07],
           [ 1.5189950000000000e+05, -1.6673479452055304e+01,  7.6957808219042085e-04, -3.9978082182869914e-07],
           [ 1.5106769999999998e+05, -1.6599519999999966e+01,  6.9093698631498060e-04,  3.8926027382615307e-07],
           [ 1.5023950000000000e+05, -1.6527506849314772e+01,  7.6027397258840782e-04, -2.0273972585869162e-07],
           [ 1.4941500000000000e+05, -1.6452999999999882e+01,  7.2986301370633552e-04,  2.0273972592121936e-07],
           [ 1.4859420000000001e+05, -1.6378493150684847e+01,  7.2986301369162734e-04,  5.9685589803848412e-17],
           [ 1.4777710000000001e+05, -1.6305506849315240e+01,  7.0027397260545858e-04,  1.9726027398689896e-07],
           [ 1.4696360000000001e+05, -1.6233999999999796e+01,  7.2986301370299607e-04, -1.9726027409490146e-07],
           [ 1.4615370000000001e+05, -1.6162493150685211e+01,  7.0930349217420026e-04,  4.1119043046080608e-07],
           [ 1.4534739999999999e+05, -1.6088478873239339e+01,  7.4956588849616423e-04, -3.9976847399998407e-07],
           [ 1.4454480000000002e+05, -1.6016520547944729e+01,  6.7096276286889630e-04,  3.8896392046581242e-07],
           [ 1.4374570000000001e+05, -1.5946507042254339e+01,  7.3014084506311866e-04,  2.3874235921539365e-16],
           [ 1.4295019999999998e+05, -1.5873492957746230e+01,  7.1971830988584176e-04, -1.9718309894756206e-07],
           [ 1.4215830000000002e+05, -1.5802999999999740e+01,  6.7999999996700919e-04,  4.0000000037139222e-07],
           [ 1.4136989999999999e+05, -1.5732000000000266e+01,  7.4000000002580888e-04, -4.0000000031454879e-07],
           [ 1.4058510000000001e+05, -1.5661000000000056e+01,  6.6956521737171926e-04,  6.0869565244701115e-07],
           [ 1.3980379999999999e+05, -1.5589478260869525e+01,  7.2955297001282566e-04, -3.9975505230813727e-07],
           [ 1.3902610000000001e+05, -1.5519521126760546e+01,  6.5098999793899992e-04,  3.8865074529752522e-07],
           [ 1.3825179999999999e+05, -1.5451507246376908e+01,  7.2028985509142273e-04, -2.0289855097104239e-07],
           [ 1.3748100000000000e+05, -1.5381000000000057e+01,  6.9999999998536565e-04,  1.7621459846850484e-16],
           [ 1.3671369999999998e+05, -1.5311000000000202e+01,  6.8985507247770533e-04,  2.0289855062145535e-07],
           [ 1.3594989999999999e+05, -1.5240492753622780e+01,  6.8985507245443499e-04,  1.1795009413617663e-16],
           [ 1.3518960000000001e+05, -1.5171507246376461e+01,  6.7014492753713739e-04, -1.1226575225009584e-16],
           [ 1.3443270000000001e+05, -1.5104492753623589e+01,  6.6926238372577273e-04,  4.1185377468764274e-07],
           [ 1.3367919999999998e+05, -1.5034477611940860e+01,  7.1910447762537190e-04, -5.9104477616358508e-07],
           [ 1.3292919999999998e+05, -1.4966999999999549e+01,  6.3044776119468792e-04,  5.9104477606553022e-07],
           [ 1.3218250000000000e+05, -1.4899522388059591e+01,  7.2089552237855517e-04, -2.0895522382886612e-07],
           [ 1.3143929999999999e+05, -1.4829000000000448e+01,  6.6000000000354219e-04,  8.3844042819691820e-17],
           [ 1.3069949999999999e+05, -1.4762999999999456e+01,  6.4000000001001927e-04,  3.9999999981716887e-07],
           [ 1.2996300000000001e+05, -1.4695999999999838e+01,  6.9999999998074716e-04, -3.9999999984416948e-07],
           [ 1.2922989999999999e+05, -1.4629000000000588e+01,  6.4000000001204424e-04,  3.9999999997206711e-07],
           [ 1.2850009999999999e+05, -1.4561999999999600e+01,  7.0000000000266735e-04, -4.0000000005022687e-07],
           [ 1.2777370000000001e+05, -1.4494999999999713e+01,  6.2953846152744573e-04,  6.0923076928958155e-07],
           [ 1.2705060000000001e+05, -1.4427476923077297e+01,  6.8952468427507796e-04, -3.9972445467526546e-07],
           [ 1.2633089999999999e+05, -1.4361522388059859e+01,  6.1104936854668775e-04,  3.8796785300831971e-07],
           [ 1.2561439999999999e+05, -1.4297507692307619e+01,  6.8030769230489343e-04, -2.0307692302878877e-07],
           [ 1.2490120000000000e+05, -1.4230999999999838e+01,  6.6000000000190798e-04, -5.6843418860808016e-17],
           [ 1.2419130000000000e+05, -1.4165000000000072e+01,  6.3937499999177304e-04,  4.1250000014798615e-07],
           [ 1.2348470000000000e+05, -1.4097968749999794e+01,  6.6800373135485810e-04, -5.7257462708690812e-07],
           [ 1.2278140000000001e+05, -1.4035462686567460e+01,  5.7850746266694840e-04,  1.0149253734354603e-06],
           [ 1.2208119999999998e+05, -1.3969999999999999e+01,  7.3074626868077533e-04, -1.0149253734070386e-06],
           [ 1.2138440000000001e+05, -1.3904537313432471e+01,  5.7196872777186768e-04,  7.7555081745970260e-07],
           [ 1.2069070000000000e+05, -1.3841523809524352e+01,  6.8095238095899902e-04, -2.0952380950944872e-07],
           [ 1.2000029999999999e+05, -1.3774999999999771e+01,  6.2000000000800532e-04, -1.1226575225009584e-16],
           [ 1.1931310000000001e+05, -1.3712999999999813e+01,  6.1015873014493851e-04,  1.9682539698067103e-07],
           [ 1.1862900000000000e+05, -1.3650507936507969e+01,  6.6031746032837904e-04, -2.0317460333387771e-07],
           [ 1.1794810000000001e+05, -1.3586000000000132e+01,  6.2984126982968292e-04,  2.0317460336514159e-07],
           [ 1.1727039999999999e+05, -1.3521492063491923e+01,  6.2984126985455191e-04, -2.0463630789890885e-16],
           [ 1.1659590000000001e+05, -1.3458507936508006e+01,  6.1015873014515166e-04,  1.1368683772161603e-16],
           [ 1.1592449999999999e+05, -1.3397492063492644e+01,  6.1968253969212127e-04,  2.0317460319034808e-07],
           [ 1.1525619999999998e+05, -1.3333999999999495e+01,  6.5015873016445621e-04, -2.0317460330261383e-07],
           [ 1.1459110000000001e+05, -1.3270507936507832e+01,  5.9015352587504571e-04,  4.0010408551580668e-07],
           [ 1.1392909999999999e+05, -1.3208491803278962e+01,  6.2919594068464588e-04, -3.8719750206155369e-07],
           [ 1.1327020000000000e+05, -1.3148476190475959e+01,  5.7904761904204350e-04,  6.0952380958809733e-07],
           [ 1.1261430000000000e+05, -1.3085999999999835e+01,  6.6064516129230814e-04, -4.1290322588736219e-07],
           [ 1.1196160000000001e+05, -1.3023032258064767e+01,  5.7112638814722067e-04,  1.9037546286995166e-07],
           [ 1.1131189999999999e+05, -1.2964491803278523e+01,  6.0983606558757237e-04, -2.0321522242738866e-16],
           [ 1.1066520000000001e+05, -1.2903508196721289e+01,  6.1966120216908397e-04,  2.1005464497250160e-07],
           [ 1.1002159999999999e+05, -1.2839966666667097e+01,  6.1866666667807378e-04, -3.8666666672213528e-07],
           [ 1.0938109999999999e+05, -1.2780999999999709e+01,  5.5050847457980721e-04,  5.8983050835763602e-07],
           [ 1.0874350000000000e+05, -1.2721525423729046e+01,  6.5118088356545204e-04, -4.1344817980757397e-07],
           [ 1.0810899999999999e+05, -1.2659508196721054e+01,  5.7015837734546442e-04,  4.0011114174518529e-07],
           [ 1.0747750000000001e+05, -1.2599491525423417e+01,  5.9966101692893409e-04, -1.9661016932843723e-07],
           [ 1.0684900000000000e+05, -1.2541000000000487e+01,  5.7016949153357646e-04,  1.9661016947623013e-07],
           [ 1.0622339999999999e+05, -1.2482508474576054e+01,  6.1016949153213317e-04, -1.5063505998114124e-16],
           [ 1.0560080000000000e+05, -1.2421491525423974e+01,  5.9966101693650128e-04, -1.9661016930285770e-07],
           [ 1.0498119999999998e+05, -1.2363000000000101e+01,  5.6000000001780851e-04,  3.9999999982285321e-07],
           [ 1.0436450000000000e+05, -1.2303999999999647e+01,  6.1016949150975112e-04, -2.0338983031251700e-07],
           [ 1.0375080000000000e+05, -1.2244508474576019e+01,  5.6033898305848592e-04,  1.9661016933127939e-07],
           [ 1.0314000000000001e+05, -1.2187000000000189e+01,  5.7999999998866510e-04,  1.1652900866465644e-16],
           [ 1.0253209999999999e+05, -1.2129000000000451e+01,  5.8000000001346308e-04, -8.8107299234252420e-17],
           [ 1.0192709999999999e+05, -1.2070999999999769e+01,  5.6982456140030279e-04,  2.0350877197046202e-07],
           [ 1.0132500000000000e+05, -1.2012491228069957e+01,  5.8538291120129320e-04, -3.1116699602193874e-07],
           [ 1.0072580000000000e+05, -1.1956286689419979e+01,  5.4052283525447115e-04,  5.0421906283304461e-07],
           [ 1.0012939999999999e+05, -1.1898452762923290e+01,  6.1248293073553836e-04, -3.8855344529906687e-07],
           [ 9.9535960000000006e+04, -1.1840118620689466e+01,  5.3475901197614923e-04,  3.1226803622672610e-07],
           [ 9.8945330000000002e+04, -1.1784300709220155e+01,  5.7202836879600484e-04, -4.0283687921771615e-08],
           [ 9.8357539999999994e+04, -1.1727399999999976e+01,  5.6200000000512069e-04,  3.9999999951589871e-08],
           [ 9.7772580000000002e+04, -1.1670899999999820e+01,  5.5999999999471587e-04,  4.0000000036855007e-08],
           [ 9.7190440000000002e+04, -1.1614600000000063e+01,  5.5800000000012068e-04,  4.0000000008433286e-08],
           [ 9.6611110000000001e+04, -1.1558499999999984e+01,  5.5600000000264769e-04,  3.9999999951589871e-08],
           [ 9.6034580000000002e+04, -1.1502600000000092e+01,  5.5299459459138948e-04,  6.0108108165479737e-08],
           [ 9.5460839999999997e+04, -1.1446849729729704e+01,  5.5299459459870806e-04, -2.8421709430404008e-17],
           [ 9.4889880000000005e+04, -1.1391550270270040e+01,  5.4599626535246416e-04,  1.0018280098904597e-07],
           [ 9.4321680000000008e+04, -1.1336199272727372e+01,  5.5298724302772935e-04, -2.0035769665582847e-08],
           [ 9.3756250000000000e+04, -1.1281050816697093e+01,  5.4103083972638192e-04,  7.9709884290934952e-08],
           [ 9.3193559999999998e+04, -1.1226349908592271e+01,  5.4499083910695132e-04,  4.0146654792749813e-08],
           [ 9.2633610000000001e+04, -1.1171549724770630e+01,  5.4299449541066029e-04,  2.9842794901924206e-17],
           [ 9.2076389999999999e+04, -1.1117250275229344e+01,  5.3498317986139915e-04,  1.2044649455305035e-07],
           [ 9.1521880000000005e+04, -1.1062848608534065e+01,  5.4396648159595886e-04, -5.9886218241445029e-08],
           [ 9.0970090000000011e+04, -1.1008901107011283e+01,  5.2703493464015597e-04,  1.3974411158983459e-07],
           [ 9.0420979999999996e+04, -1.0955149532710347e+01,  5.4099806819980507e-04, -4.0148279769880445e-08],
           [ 8.9874570000000007e+04, -1.0901350837988632e+01,  5.2703164337227545e-04,  7.9702327965947019e-08],
           [ 8.9330830000000002e+04, -1.0848049906191664e+01,  5.3099059793847657e-04,  4.0150517840231718e-08],
           [ 8.8789759999999995e+04, -1.0794649717514014e+01,  5.2799624774046094e-04,  1.9962050886590534e-08],
           [ 8.8251350000000006e+04, -1.0741700377358328e+01,  5.2301319679862960e-04,  5.9887007324732630e-08],
           [ 8.7715580000000002e+04, -1.0688949905123525e+01,  5.2499049065072971e-04,  4.0152236357471346e-08],
           [ 8.7182449999999997e+04, -1.0636149714285766e+01,  5.2199620501792055e-04,  1.9961613948282775e-08],
           [ 8.6651949999999997e+04, -1.0583800381679362e+01,  5.1701334778808672e-04,  5.9885715987206824e-08],
           [ 8.6124059999999998e+04, -1.0531649904030646e+01,  5.1899038088329516e-04,  4.0153994601155318e-08],
           [ 8.5598779999999999e+04, -1.0479449710982802e+01,  5.1699421965011537e-04,  5.8264504332328220e-17],
           [ 8.5076099999999991e+04, -1.0427750289017354e+01,  5.0999599649760087e-04,  1.0019567705938925e-07],
           [ 8.4556000000000000e+04, -1.0375999221789650e+01,  5.1698634731739196e-04, -2.0038230447028127e-08],
           [ 8.4038490000000005e+04, -1.0324450873786258e+01,  5.0402710832123890e-04,  9.9807348101421680e-08],
           [ 8.3523540000000008e+04, -1.0273299607843375e+01,  5.1099018456127968e-04, -1.9960553986209108e-08],
           [ 8.3011149999999994e+04, -1.0222350293542153e+01,  5.0199593141691428e-04,  1.0019878859282017e-07],
           [ 8.2501300000000003e+04, -1.0171399209486015e+01,  5.0998412747002672e-04, -3.9998755016767974e-08],
           [ 8.1994000000000000e+04, -1.0120700787401644e+01,  4.9601555981155349e-04,  1.2000376443666027e-07],
           [ 8.1489220000000001e+04, -1.0070199203187219e+01,  5.0498602013302472e-04, -2.0039127771553920e-08],
           [ 8.0986970000000001e+04, -1.0019850894632214e+01,  4.9403578528849578e-04,  5.9642147115823712e-08],
           [ 8.0487220000000001e+04, -9.9699999999999989e+00,  4.9698189134815606e-04,  6.0362173036310198e-08],
           [ 7.9989970000000001e+04, -9.9198490945674109e+00,  4.9797984695285178e-04, -1.9959112091783027e-08],
           [ 7.9495220000000001e+04, -9.8702008032128195e+00,  4.8601586835154368e-04,  1.2000391810715884e-07],
           [ 7.9002940000000002e+04, -9.8206991869918667e+00,  4.9598367400594868e-04, -3.9998683395481292e-08],
           [ 7.8513139999999999e+04, -9.7714008097167397e+00,  4.8403238866505659e-04,  7.9676113347204593e-08],
           [ 7.8025789999999994e+04, -9.7224000000001247e+00,  4.8998360655815531e-04,  4.0327868890699395e-08],
           [ 7.7540899999999994e+04, -9.6730991803276254e+00,  4.8598360656026073e-04, -5.6843418860808016e-17],
           [ 7.7058460000000006e+04, -9.6245008196720310e+00,  4.7803278687641893e-04,  7.9672131251129492e-08],
           [ 7.6578440000000002e+04, -9.5761000000000056e+00,  4.8499378882770115e-04,  2.0124223475193048e-08],
           [ 7.6100850000000006e+04, -9.5274496894411680e+00,  4.7899381463807346e-04,  3.9999483603025961e-08],
           [ 7.5625679999999993e+04, -9.4792503118503397e+00,  4.7601247402351277e-04,  1.9875259749824181e-08],
           [ 7.5152910000000003e+04, -9.4314999999998701e+00,  4.7398319326774185e-04,  8.0336134557512661e-08],
           [ 7.4682529999999999e+04, -9.3834991596639235e+00,  4.7898525448431429e-04, -2.0041224084366152e-08],
           [ 7.4214550000000003e+04, -9.3357509433961248e+00,  4.6602926127025767e-04,  9.9792133039500194e-08],
           [ 7.3748940000000002e+04, -9.2883995762712974e+00,  4.7298939334172729e-04, -1.9957358357203246e-08],
           [ 7.3285699999999997e+04, -9.2412503171248073e+00,  4.6500628840327350e-04,  8.0001081862235434e-08],
           [ 7.2824809999999998e+04, -9.1941496801705114e+00,  4.7099360341217532e-04, -2.9842794901924206e-17],
           [ 7.2366279999999999e+04, -9.1470503198295159e+00,  4.6201279317354961e-04,  5.9872068315769413e-08],
           [ 7.1910089999999997e+04, -9.1003999999997891e+00,  4.6300215054387197e-04,  1.9956989149250151e-08],
           [ 7.1456230000000010e+04, -9.0539501075267772e+00,  4.5898477828963278e-04,  8.0347444853146044e-08],
           [ 7.1004690000000002e+04, -9.0074490238614153e+00,  4.6297175358770207e-04, -3.9825527197479002e-08],
           [ 7.0555470000000001e+04, -8.9614505399566280e+00,  4.5101065735405401e-04,  1.2000283562514370e-07],
           [ 7.0108540000000008e+04, -8.9154494529540305e+00,  4.6299772600118418e-04, -4.0173338490490092e-08],
           [ 6.9663919999999998e+04, -8.8694509803925907e+00,  4.4803040511457229e-04,  9.9784054656026911e-08],
           [ 6.9221579999999987e+04, -8.8238995594712133e+00,  4.5498897227023603e-04, -1.9955656784986788e-08],
           [ 6.8781520000000004e+04, -8.7785503296700735e+00,  4.4599540902446222e-04,  1.0022368751521072e-07],
           [ 6.8343720000000001e+04, -8.7331991111112544e+00,  4.5398214356328736e-04, -3.9998426753129487e-08],
           [ 6.7908190000000002e+04, -8.6881008849555847e+00,  4.4102868682251997e-04,  9.9780245834324448e-08],
           [ 6.7474900000000009e+04, -8.6432496644295735e+00,  4.4899328858384992e-04,  8.8107299234252420e-17],
           [ 6.7043860000000001e+04, -8.5983503355705331e+00,  4.4001342282690815e-04,  5.9865771693523583e-08],
           [ 6.6615050000000003e+04, -8.5539000000001408e+00,  4.4199999999332105e-04,  1.0231815394945442e-16],
           [ 6.6188459999999992e+04, -8.5097000000000467e+00,  4.3798181819024510e-04,  8.0363636293157025e-08],
           [ 6.5764080000000002e+04, -8.4652990909088235e+00,  4.4198181817581175e-04,  4.4053649617126210e-17],
           [ 6.5341920000000006e+04, -8.4211009090909155e+00,  4.3203636363561062e-04,  3.9636363644035557e-08],
           [ 6.4921950000000004e+04, -8.3776000000000206e+00,  4.3299310345059185e-04,  6.0137930988446451e-08],
           [ 6.4504160000000003e+04, -8.3338496551725445e+00,  4.3699310344567975e-04,  5.8264504332328220e-17],
           [ 6.4088559999999998e+04, -8.2901503448275431e+00,  4.2901610257743526e-04,  3.9815879523530387e-08],
           [ 6.3675130000000005e+04, -8.2469501154733678e+00,  4.2799531660620005e-04,  6.0139857190222310e-08],
           [ 6.3263860000000001e+04, -8.2036995348838211e+00,  4.2898838835956358e-04,  2.0046186332933757e-08],
           [ 6.2854750000000000e+04, -8.1606503496503731e+00,  4.2401398601160878e-04,  1.9860139907734718e-08],
           [ 6.2447779999999999e+04, -8.1180999999999042e+00,  4.2198113207852827e-04,  8.0377358418104457e-08],
           [ 6.2042940000000002e+04, -8.0752990566039102e+00,  4.2698344061616213e-04, -2.0046170851628631e-08],
           [ 6.1640239999999991e+04, -8.0327510588236866e+00,  4.1604235294796511e-04,  5.9576470543731838e-08],
           [ 6.1239649999999994e+04, -7.9906999999998156e+00,  4.1999047618798360e-04,  4.0190476198631586e-08],
           [ 6.0841169999999998e+04, -7.9483995238095266e+00,  4.1898811228428205e-04,  2.0047278103874079e-08],
           [ 6.0444799999999996e+04, -7.9063503579953203e+00,  4.1301671789177873e-04,  3.9808840300992190e-08],
           [ 6.0050519999999997e+04, -7.8647501199038814e+00,  4.1300238652645758e-04,  4.0000231104642131e-08],
           [ 5.9658320000000007e+04, -7.8231498795179508e+00,  4.1399518071697731e-04,  2.0048192819643876e-08],
           [ 5.9268200000000004e+04, -7.7816000000001067e+00,  4.1000000000346759e-04,  3.9999999950168788e-08],
           [ 5.8880150000000001e+04, -7.7403000000001327e+00,  4.0799999999867608e-04,  4.0000000037565548e-08],
           [ 5.8494159999999996e+04, -7.6991999999999825e+00,  4.0700244499140229e-04,  1.9951100205162222e-08],
           [ 5.8110220000000001e+04, -7.6583501222493071e+00,  4.0500243296976991e-04,  4.0000240316118153e-08],
           [ 5.7728320000000000e+04, -7.6175498771499610e+00,  4.0498767858798245e-04,  4.0197288220156223e-08],
           [ 5.7348459999999999e+04, -7.5767496296295116e+00,  4.0199508617783764e-04,  1.9950128292123281e-08],
           [ 5.6970630000000005e+04, -7.5364004950495369e+00,  3.9801980197475830e-04,  3.9801980263831640e-08],
           [ 5.6594809999999998e+04, -7.4963000000000823e+00,  3.9999000000578988e-04,  4.0199999935452975e-08],
           [ 5.6221000000000000e+04, -7.4559994999999857e+00,  3.9898751879309914e-04,  2.0049624107798535e-08],
           [ 5.5849199999999997e+04, -7.4159503759398611e+00,  3.9301755648864402e-04,  3.9799246190597160e-08],
           [ 5.5479389999999999e+04, -7.3763501259445690e+00,  3.9300250613568012e-04,  4.0000255100380855e-08],
           [ 5.5111559999999998e+04, -7.3367498734177499e+00,  3.9399493671053774e-04,  2.0050632901558172e-08],
           [ 5.4745709999999999e+04, -7.2971999999999388e+00,  3.9100254452890227e-04,  1.9949109419314936e-08],
           [ 5.4381830000000002e+04, -7.2579501272264082e+00,  3.8698195281044789e-04,  8.0411834368021574e-08],
           [ 5.4019910000000003e+04, -7.2186488431876024e+00,  3.9096651523053084e-04, -3.9793029562673614e-08],
           [ 5.3659950000000004e+04, -7.1798506393862684e+00,  3.7901258843252349e-04,  1.2000398580838124e-07],
           [ 5.3301919999999998e+04, -7.1410493506494559e+00,  3.9199464453419707e-04, -6.0152630915411009e-08],
           [ 5.2945839999999997e+04, -7.1023010309279035e+00,  3.7703340421341381e-04,  9.9744286864478241e-08],
           [ 5.2591679999999993e+04, -7.0638496083550741e+00,  3.8499216710453866e-04, -2.9132252166164110e-17],
           [ 5.2239449999999997e+04, -7.0253503916448343e+00,  3.7701829046500991e-04,  3.9790848634879695e-08],
           [ 5.1889129999999997e+04, -6.9873501312335655e+00,  3.7599466733567510e-04,  6.0159146727301058e-08],
           [ 5.1540709999999999e+04, -6.9492994708995468e+00,  3.7898675154258044e-04, -1.9946671066151110e-08],
           [ 5.1194189999999995e+04, -6.9115503957782805e+00,  3.7100783114036418e-04,  8.0001688568387401e-08],
           [ 5.0849550000000003e+04, -6.8738495999999865e+00,  3.7799463829053082e-04, -2.0052765874822853e-08],
           [ 5.0506799999999996e+04, -6.8362005319149910e+00,  3.6901859563730709e-04,  5.9840853271708750e-08],
           [ 5.0165919999999998e+04, -6.7988498659517260e+00,  3.7098655181255324e-04,  4.0215344422733779e-08],
           [ 4.9826909999999996e+04, -6.7614495956872984e+00,  3.6899191374903498e-04, -1.4921397450962103e-17],
           [ 4.9489760000000002e+04, -6.7245504043125059e+00,  3.6300799811817442e-04,  8.0001762656678466e-08],
           [ 4.9154450000000004e+04, -6.6876495912807590e+00,  3.6999452078896768e-04, -2.0053903526928709e-08],
           [ 4.8820989999999998e+04, -6.6508005434783142e+00,  3.6001075012435989e-04,  8.0002388859412581e-08],
           [ 4.8489360000000001e+04, -6.6141994505494335e+00,  3.6498624115191450e-04, -1.9944603288024610e-08],
           [ 4.8159559999999998e+04, -6.5778504109589022e+00,  3.5700812811048979e-04,  8.0001821367403628e-08],
           [ 4.7831570000000000e+04, -6.5415495844875968e+00,  3.6299168974677441e-04,  5.8264504332328220e-17],
           [ 4.7505399999999994e+04, -6.5052504155124788e+00,  3.5601662050419595e-04,  1.9833794945611771e-08],
           [ 4.7181029999999999e+04, -6.4694999999999707e+00,  3.5397752808483677e-04,  8.0449438277696571e-08],
           [ 4.6858449999999997e+04, -6.4334988764044052e+00,  3.5997740255263368e-04, -3.9997489223964065e-08],
           [ 4.6537670000000006e+04, -6.3978011173183171e+00,  3.4703619414894860e-04,  9.9723044331767598e-08],
           [ 4.6218660000000003e+04, -6.3623495750709367e+00,  3.5599430226984196e-04, -2.0056017047664910e-08],
           [ 4.5901430000000000e+04, -6.3269005649718100e+00,  3.4701974986806050e-04,  5.9830991354203882e-08],
           [ 4.5585959999999999e+04, -6.2917498575498509e+00,  3.5099715099738303e-04,  0.0000000000000000e+00],
           [ 4.5272250000000000e+04, -6.2566501424501153e+00,  3.4599420375201360e-04,  6.0172905013189393e-08],
           [ 4.4960290000000001e+04, -6.2215994252873177e+00,  3.4798850574741636e-04, -1.4210854715202004e-17],
           [ 4.4650080000000002e+04, -6.1868005747126826e+00,  3.4001136059742977e-04,  8.0002673098533712e-08],
           [ 4.4341599999999999e+04, -6.1521994186046989e+00,  3.4597674418810346e-04, -3.9767441883498119e-08],
           [ 4.4034849999999999e+04, -6.1179000000000086e+00,  3.3596470588168618e-04,  1.2070588236241521e-07],
           [ 4.3729809999999998e+04, -6.0833982352941192e+00,  3.4796429548595854e-04, -7.9991792053135666e-08],
           [ 4.3426500000000000e+04, -6.0492017441859200e+00,  3.3006976744216489e-04,  1.1930232556238708e-07],
           [ 4.3124880000000005e+04, -6.0152999999999883e+00,  3.4300884955458245e-04, -2.0176991124998270e-08],
           [ 4.2824970000000001e+04, -5.9811504424779640e+00,  3.3201769911787691e-04,  5.9823008817971877e-08],
           [ 4.2526750000000000e+04, -5.9475000000000371e+00,  3.3399999999899065e-04,  2.8421709430404008e-17],
           [ 4.2230209999999999e+04, -5.9140999999999257e+00,  3.3099099099217713e-04,  6.0180180163627024e-08],
           [ 4.1935340000000004e+04, -5.8805495495494799e+00,  3.3499099098870387e-04, -7.1054273576010022e-19],
           [ 4.1642150000000001e+04, -5.8470504504506140e+00,  3.2702103916646411e-04,  3.9759396867111717e-08],
           [ 4.1350619999999995e+04, -5.8140501510574625e+00,  3.2800604229882069e-04,  1.9939577028793564e-08],
           [ 4.1060739999999998e+04, -5.7810999999998609e+00,  3.2697247706321876e-04,  6.0550458712782530e-08],
           [ 4.0772510000000002e+04, -5.7479486238531949e+00,  3.2796934437010703e-04, -1.9937346137766100e-08],
           [ 4.0485930000000000e+04, -5.7153012195122193e+00,  3.1804878049001672e-04,  7.9512195095077235e-08],
           [ 4.0200970000000001e+04, -5.6829000000000089e+00,  3.2700307692197229e-04, -2.0061538450732998e-08],
           [ 3.9917639999999999e+04, -5.6503501538461895e+00,  3.1897811646315334e-04,  8.0499209219198060e-08],
           [ 3.9635930000000000e+04, -5.6178485981307293e+00,  3.2295940511078313e-04, -3.9748849896881216e-08],
           [ 3.9355840000000004e+04, -5.5858507739938723e+00,  3.1101518687808748e-04,  1.2000585992879565e-07],
           [ 3.9077339999999997e+04, -5.5538492113565976e+00,  3.2399345426293636e-04, -6.0184542614649669e-08],
           [ 3.8800449999999997e+04, -5.5219012499999147e+00,  3.1004999999915131e-04,  7.9500000001075934e-08],
           [ 3.8525139999999999e+04, -5.4902999999999889e+00,  3.1799999999861941e-04,  1.4210854715202004e-17],
           [ 3.8251419999999998e+04, -5.4585000000000221e+00,  3.1200000000097816e-04,  3.9999999993511894e-08],
           [ 3.7979279999999999e+04, -5.4269999999999712e+00,  3.0999999999986372e-04,  3.9999999993511894e-08],
           [ 3.7708709999999999e+04, -5.3957000000000344e+00,  3.0999999999913540e-04,  1.4210854715202004e-17],
           [ 3.7439699999999997e+04, -5.3647000000000116e+00,  3.0699029126425971e-04,  6.0194174725580756e-08],
           [ 3.7172239999999998e+04, -5.3335495145631393e+00,  3.1099029126002264e-04,  4.4053649617126210e-17],
           [ 3.6906339999999997e+04, -5.3024504854368084e+00,  3.0302267480745824e-04,  3.9740678628419350e-08],
           [ 3.6641980000000003e+04, -5.2718501628663539e+00,  3.0300323596570421e-04,  4.0000427213016109e-08],
           [ 3.6379150000000001e+04, -5.2412498360656841e+00,  3.0499672131325541e-04, -1.4921397450962103e-17],
           [ 3.6117849999999999e+04, -5.2107501639344695e+00,  3.0100325704795594e-04,  4.0000432838382954e-08],
           [ 3.5858070000000000e+04, -5.1803498349833879e+00,  3.0199339934034342e-04,  2.0066006590013784e-08],
           [ 3.5599810000000005e+04, -5.1499999999999284e+00,  2.9799999999747585e-04,  4.0000000021933601e-08],
           [ 3.5343060000000005e+04, -5.1199000000000163e+00,  2.9700334448243385e-04,  1.9933110357328587e-08],
           [ 3.5087810000000005e+04, -5.0900501672240903e+00,  2.9500332196031210e-04,  4.0000450413657525e-08],
           [ 3.4834050000000003e+04, -5.0602498316499558e+00,  2.9699663299531665e-04,  4.3343106881366114e-17],
           [ 3.4581779999999999e+04, -5.0305501683500982e+00,  2.9199312856874825e-04,  6.0204768715266260e-08],
           [ 3.4330990000000005e+04, -5.0008993197278571e+00,  2.9498295860182824e-04, -1.9931280932894425e-08],
           [ 3.4081680000000000e+04, -4.9715505084746736e+00,  2.8701002970857206e-04,  8.0002795709788188e-08],
           [ 3.3833830000000002e+04, -4.9422494845359948e+00,  2.9399308007221236e-04, -2.0067787024657946e-08],
           [ 3.3587450000000004e+04, -4.9130006849314638e+00,  2.8502393705178266e-04,  5.9795231546644351e-08],
           [ 3.3342520000000004e+04, -4.8840498269896813e+00,  2.8899653979198804e-04,  7.1054273576010020e-18],
           [ 3.3099040000000001e+04, -4.8551501730104292e+00,  2.8399293440307006e-04,  6.0210516103609282e-08],
           [ 3.2857000000000000e+04, -4.8262993006993478e+00,  2.8698248093251167e-04, -1.9929338928648123e-08],
           [ 3.2616399999999998e+04, -4.7977505226480615e+00,  2.7901030521814362e-04,  8.0002954887703483e-08],
           [ 3.2377220000000001e+04, -4.7692494699645849e+00,  2.8698932490081933e-04, -3.9998512182393143e-08],
           [ 3.2139470000000001e+04, -4.7408505263158718e+00,  2.7599248120210976e-04,  1.0036090227600881e-07],
           [ 3.1903129999999997e+04, -4.7124985714285881e+00,  2.8397122594041589e-04, -3.9995947359017240e-08],
           [ 3.1668209999999999e+04, -4.6844014184397400e+00,  2.7205673758517790e-04,  7.9432624173136903e-08],
           [ 3.1434679999999997e+04, -4.6565999999999255e+00,  2.8100358423353454e-04, -2.0071684650702083e-08],
           [ 3.1202550000000003e+04, -4.6286501792114505e+00,  2.7399267569958144e-04,  6.0218170546733071e-08],
           [ 3.0971809999999998e+04, -4.6007992753623910e+00,  2.7598550725130625e-04, -5.8264504332328220e-17],
           [ 3.0742459999999999e+04, -4.5732007246376982e+00,  2.7002898550444244e-04,  3.9710144964288932e-08],
           [ 3.0514479999999996e+04, -4.5459000000000191e+00,  2.7299633699881201e-04,  2.0073260056108214e-08],
           [ 3.0287869999999999e+04, -4.5184498168497198e+00,  2.7098160388046468e-04,  4.0294662294826364e-08],
           [ 3.0062630000000001e+04, -4.4910494464944613e+00,  2.6997785977833644e-04, -1.9778597790320874e-08],
           [ 2.9838750000000000e+04, -4.4642000000000550e+00,  2.6298127340830036e-04,  1.0037453184921219e-07],
           [ 2.9616209999999999e+04, -4.4371490636703577e+00,  2.7399217644768825e-04, -6.0218060784222870e-08],
           [ 2.9395030000000002e+04, -4.4102014814814678e+00,  2.5904793850129338e-04,  9.9633822544120671e-08],
           [ 2.9175180000000000e+04, -4.3835494339622594e+00,  2.6898859444877136e-04, -3.9998304058741493e-08],
           [ 2.8956670000000002e+04, -4.3569505617978228e+00,  2.5901106506308834e-04,  8.0003417819085607e-08],
           [ 2.8739479999999996e+04, -4.3304494296578682e+00,  2.6498859315893242e-04, -7.1054273576010020e-18],
           [ 2.8523619999999999e+04, -4.3039505703420282e+00,  2.5802281368765280e-04,  1.9771863092898914e-08],
           [ 2.8309070000000003e+04, -4.2780000000000644e+00,  2.5799999999616576e-04,  4.0000000044670963e-08],
           [ 2.8095819999999996e+04, -4.2519000000001146e+00,  2.6200000000498492e-04, -4.3343106881366114e-17],
           [ 2.7883879999999997e+04, -4.2256999999999421e+00,  2.5599999999792900e-04,  4.0000000022644143e-08],
           [ 2.7673239999999998e+04, -4.1997999999999776e+00,  2.5500389105088673e-04,  1.9922178984899122e-08],
           [ 2.7463889999999999e+04, -4.1741501945525021e+00,  2.5300386053206836e-04,  4.0000610361090592e-08],
           [ 2.7255820000000000e+04, -4.1485498039215827e+00,  2.5499607843167739e-04, -7.1054273576010020e-18],
           [ 2.7049029999999999e+04, -4.1230501960784709e+00,  2.5100389056790460e-04,  4.0000620026603425e-08],
           [ 2.6843509999999998e+04, -4.0976498023714809e+00,  2.5199209486315155e-04,  2.0079051358123936e-08],
           [ 2.6639260000000002e+04, -4.0722999999999780e+00,  2.4900398406060733e-04,  1.9920318765542790e-08],
           [ 2.6436270000000000e+04, -4.0472501992031731e+00,  2.4800796813071455e-04,  1.9920318671040605e-08],
           [ 2.6234530000000002e+04, -4.0223000000000679e+00,  2.4798387096399923e-04,  4.0322580704810208e-08],
           [ 2.6034039999999997e+04, -3.9971991935483793e+00,  2.4798387097275666e-04, -5.8264504332328220e-17],
           [ 2.5834800000000003e+04, -3.9724008064515397e+00,  2.4102817642718933e-04,  5.9759052055952114e-08],
           [ 2.5636790000000001e+04, -3.9478497959184020e+00,  2.4599183673747584e-04, -1.9918367380000749e-08],
           [ 2.5440010000000002e+04, -3.9234000000000013e+00,  2.4098765431912917e-04,  6.0246913607286954e-08],
           [ 2.5244450000000001e+04, -3.8988493827160329e+00,  2.4498765432287686e-04, -2.9132252166164110e-17],
           [ 2.5050120000000003e+04, -3.8743506172839650e+00,  2.3802469135563166e-04,  1.9753086452567456e-08],
           [ 2.4857000000000000e+04, -3.8504000000000089e+00,  2.3698744770119795e-04,  6.0251045993453543e-08],
           [ 2.4665080000000002e+04, -3.8262493723849378e+00,  2.4199156206218043e-04, -2.0082287290534852e-08],
           [ 2.4474369999999999e+04, -3.8022008333333988e+00,  2.3403333333440912e-04,  3.9666666667770302e-08],
           [ 2.4284849999999999e+04, -3.7784999999999496e+00,  2.3699578059134475e-04,  2.0084388167873616e-08],
           [ 2.4096520000000000e+04, -3.7546497890295556e+00,  2.3497879522201614e-04,  4.0339707357617276e-08],
           [ 2.3909379999999997e+04, -3.7308493617021732e+00,  2.3397446808730573e-04, -1.9744680869493435e-08],
           [ 2.3723419999999998e+04, -3.7075999999999660e+00,  2.2799999999916664e-04,  8.0000000009050615e-08],
           [ 2.3538619999999999e+04, -3.6841999999999828e+00,  2.3701287553638651e-04, -2.0257510726295893e-08],
           [ 2.3355000000000000e+04, -3.6606506437767923e+00,  2.2802575107317758e-04,  1.9742489260465847e-08],
           [ 2.3172540000000001e+04, -3.6377000000000224e+00,  2.2596491227979245e-04,  8.0701754402312537e-08],
           [ 2.2991230000000000e+04, -3.6144982456140236e+00,  2.9294893284298240e-04, -1.2596804112330774e-06],
           [ 2.2811080000000002e+04, -3.5946509554139716e+00,  3.4056129348202012e-04, -1.1108437040554975e-06],
           [ 2.2632060000000001e+04, -3.5689261538461858e+00,  3.2938386332082904e-04, -4.8122324859143366e-07],
           [ 2.2277980000000000e+04, -3.5174860786397635e+00,  3.6497546830381643e-04, -4.4114681906259892e-07],
           [ 2.1929439999999999e+04, -3.4577253895508804e+00,  2.6375383015988965e-04,  4.5000653488980188e-08],
           [ 2.1586349999999999e+04, -3.4036246039142335e+00,  2.6024609909907958e-04,  3.9999400435064558e-08],
           [ 2.1248630000000001e+04, -3.3503754020813670e+00,  2.5550804162665307e-04,  4.2459791867877072e-08],
           [ 2.0916189999999999e+04, -3.2980000000000009e+00,  2.5225365853730251e-04,  3.7463414629090863e-08],
           [ 2.0588950000000001e+04, -3.2464253658536677e+00,  2.4774465570203574e-04,  4.5090028343786061e-08],
           [ 2.0266829999999998e+04, -3.1955237338629474e+00,  2.4499077383945079e-04,  3.2465647904089680e-08],
           [ 1.9949760000000002e+04, -3.1455516096579328e+00,  2.3877065469658733e-04,  4.7454418824788291e-08],
           [ 1.9637639999999999e+04, -3.0963738461538712e+00,  2.3748523908576402e-04,  3.2532224529813194e-08],
           [ 1.9330410000000000e+04, -3.0479008316008223e+00,  2.3201663201652512e-04,  3.9916839916820380e-08],
           [ 1.9027980000000000e+04, -3.0003000000000157e+00,  2.2949999999990922e-04,  3.5000000001694783e-08],
           [ 1.8730279999999999e+04, -2.9533499999999826e+00,  2.2574591057831218e-04,  3.7540894217880092e-08],
           [ 1.8437240000000002e+04, -2.9070745910577833e+00,  2.2224597397929369e-04,  3.4999365984589300e-08],
           [ 1.8148790000000001e+04, -2.8615754152823851e+00,  2.1800830564832284e-04,  3.7458471756579568e-08],
           [ 1.7864850000000002e+04, -2.8168500000000232e+00,  2.1525371428520400e-04,  3.2462857146775552e-08],
           [ 1.7585349999999999e+04, -2.7728253714285822e+00,  2.1175365389147327e-04,  3.5000603946144795e-08],
           [ 1.7310220000000001e+04, -2.7294246225319045e+00,  2.0899245063836337e-04,  3.2537746807204116e-08],
           [ 1.7039400000000001e+04, -2.6866500000000180e+00,  2.0499999999992191e-04,  3.5000000000806609e-08],
           [ 1.6772820000000000e+04, -2.6446000000000089e+00,  2.0175395858735179e-04,  3.2460414127477579e-08],
           [ 1.6510410000000000e+04, -2.6032753958587129e+00,  1.9850791717406668e-04,  3.2460414129253933e-08],
           [ 1.6252099999999999e+04, -2.5626000000000206e+00,  1.9600000000000506e-04,  3.0000000001528806e-08],
           [ 1.5997829999999998e+04, -2.5224999999999724e+00,  1.9274584929786177e-04,  3.2541507021388581e-08],
           [ 1.5747540000000001e+04, -2.4829745849297593e+00,  1.8999947061529188e-04,  2.7463786820280945e-08],
           [ 1.5501169999999998e+04, -2.4441507772020898e+00,  1.8600762847472031e-04,  3.5001435463222208e-08],
           [ 1.5258650000000000e+04, -2.4058992084432504e+00,  1.8449219025555854e-04,  2.4998941770082441e-08],
           [ 1.5019930000000000e+04, -2.3682508021390354e+00,  1.8000786839380555e-04,  3.5001529965761341e-08],
           [ 1.4784940000000001e+04, -2.3311991825613023e+00,  1.7874503053654235e-04,  2.2467950765303615e-08],
           [ 1.4553630000000001e+04, -2.2947761379310347e+00,  1.7426115524511233e-04,  3.5002240651671457e-08],
           [ 1.4325930000000000e+04, -2.2588738396624635e+00,  1.7373852866854557e-04,  1.9998679559840583e-08],
           [ 1.4101799999999999e+04, -2.2235261735419583e+00,  1.6901622446268582e-04,  3.2455109569706764e-08],
           [ 1.3881170000000000e+04, -2.1887492753623290e+00,  1.6773072079538488e-04,  2.7620328277144780e-08],
           [ 1.3663999999999998e+04, -2.1543745213549377e+00,  1.6475719311998650e-04,  1.9880204295219529e-08],
           [ 1.3450230000000000e+04, -2.1208266766020825e+00,  1.6051066618767875e-04,  3.7560998331009902e-08],
           [ 1.3239789999999999e+04, -2.0875977134146173e+00,  1.6147272983152661e-04,  1.5044043149092800e-08],
           [ 1.3032660000000002e+04, -2.0548518461538392e+00,  1.5528339089430522e-04,  3.2350706439387974e-08],
           [ 1.2828760000000000e+04, -2.0228246467817961e+00,  1.5524651274273493e-04,  1.9999550753091457e-08],
           [ 1.2628050000000001e+04, -1.9911753577106557e+00,  1.5174378306199944e-04,  3.0097940444084872e-08],
           [ 1.2430480000000000e+04, -1.9599236628849341e+00,  1.5048965114149217e-04,  1.7469777079170970e-08],
           [ 1.2236010000000000e+04, -1.9293016393442610e+00,  1.4602609792176534e-04,  2.9902955207905536e-08],
           [ 1.2044570000000000e+04, -1.8991993311036701e+00,  1.4598662207380376e-04,  2.0066889630276916e-08],
           [ 1.1856130000000001e+04, -1.8694000000000011e+00,  1.4275387263310124e-04,  2.2461273667451209e-08],
           [ 1.1670639999999999e+04, -1.8401753872633562e+00,  1.4025380481167860e-04,  2.5000678218711768e-08],
           [ 1.1488049999999999e+04, -1.8113746059544595e+00,  1.3874611553690074e-04,  1.9999440077356211e-08],
           [ 1.1308320000000000e+04, -1.7830253996447583e+00,  1.3575392417902510e-04,  2.5000722685453171e-08],
           [ 1.1131400000000000e+04, -1.7551245931283888e+00,  1.3424599100824385e-04,  1.9999402756809557e-08],
           [ 1.0957250000000000e+04, -1.7276754128440361e+00,  1.3176151572609208e-04,  1.9926127142388952e-08],
           [ 1.0785820000000000e+04, -1.7007253258845458e+00,  1.2974370934183189e-04,  2.5095495036264736e-08],
           [ 1.0617070000000000e+04, -1.6740237191650915e+00,  1.2873733915573117e-04,  1.4998524951437277e-08],
           [ 1.0450969999999999e+04, -1.6478262955854013e+00,  1.2474709002119778e-04,  2.5158658329704766e-08],
           [ 1.0287460000000001e+04, -1.6221221178312697e+00,  1.2446775849077828e-04,  1.7534198218527308e-08],
           [ 1.0126510000000000e+04, -1.5967025401865598e+00,  1.2192620199677373e-04,  1.9991998687718395e-08],
           [ 9.9680789999999997e+03, -1.5717175398265730e+00,  1.2000079653167406e-04,  1.9746017341226719e-08],
           [ 9.8121270000000004e+03, -1.5471250000000010e+00,  1.1817617065535747e-04,  1.8738293445874632e-08],
           [ 9.6586149999999998e+03, -1.5229276170655526e+00,  1.1622615133884296e-04,  1.9500193167854009e-08],
           [ 9.5075040000000008e+03, -1.4990973810027484e+00,  1.1462457947073900e-04,  1.7492305566468858e-08],
           [ 9.3587579999999998e+03, -1.4756476959416069e+00,  1.1255234677960635e-04,  1.9246126364524943e-08],
           [ 9.2123379999999997e+03, -1.4525598427947493e+00,  1.1109845163991272e-04,  1.6999763077052421e-08],
           [ 9.0682100000000009e+03, -1.4298301595744560e+00,  1.0907780288817115e-04,  1.8237928564079908e-08],
           [ 8.9263360000000011e+03, -1.4074674611398987e+00,  1.0757461744445030e-04,  1.6999939544914967e-08],
           [ 8.7866820000000007e+03, -1.3854425394646619e+00,  1.0577538822359233e-04,  1.7500064229336588e-08],
           [ 8.6492129999999997e+03, -1.3637624598930642e+00,  1.0420075593464695e-04,  1.6238429958814748e-08],
           [ 8.5138949999999986e+03, -1.3424351558073702e+00,  1.0242694624098104e-04,  1.7246118327873817e-08],
           [ 8.3806929999999993e+03, -1.3214323830093373e+00,  1.0104846428073967e-04,  1.5753658127959372e-08],
           [ 8.2495760000000009e+03, -1.3007500804093508e+00,  9.9276998134927293e-05,  1.6238059585083064e-08],
           [ 8.1205100000000002e+03, -1.2804075389948131e+00,  9.7800779896151110e-05,  1.5746100519287153e-08],
           [ 7.9934629999999997e+03, -1.2603750000000038e+00,  9.6274597495520366e-05,  1.5754025044945052e-08],
           [ 7.8684039999999995e+03, -1.2406474597495503e+00,  9.4800751815184991e-05,  1.4738456803309319e-08],
           [ 7.7453019999999997e+03, -1.2212451556824140e+00,  9.3151530534600900e-05,  1.6000262894744211e-08],
           [ 7.6241249999999991e+03, -1.2021348416886501e+00,  9.1973808338174928e-05,  1.3746085484456218e-08],
           [ 7.5048450000000003e+03, -1.1833276974564819e+00,  9.0202369609007071e-05,  1.5746049558185150e-08],
           [ 7.3874300000000003e+03, -1.1648148420479356e+00,  8.9123809734499294e-05,  1.3246107448328104e-08],
           [ 7.2718530000000001e+03, -1.1465926968775852e+00,  8.7427778518498476e-05,  1.4991902574035265e-08],
           [ 7.1580830000000005e+03, -1.1286573840966652e+00,  8.6323088494966177e-05,  1.3507524715450361e-08],
           [ 7.0460939999999991e+03, -1.1109875406562084e+00,  8.4801595733114969e-05,  1.3738108290528574e-08],
           [ 6.9358570000000000e+03, -1.0936150782608696e+00,  8.3476174937293653e-05,  1.3746076713161414e-08],
           [ 6.8273439999999991e+03, -1.0765074609720153e+00,  8.2274615791169133e-05,  1.2999939291180596e-08],
           [ 6.7205290000000005e+03, -1.0596625396350468e+00,  8.0926180121225773e-05,  1.2992162292180253e-08],
           [ 6.6153850000000002e+03, -1.0430875387420366e+00,  7.9649971875670473e-05,  1.3254155446240646e-08],
           [ 6.5118859999999995e+03, -1.0267599197035151e+00,  7.8499961468720959e-05,  1.1992355665313427e-08],
           [ 6.4100070000000005e+03, -1.0107001567398115e+00,  7.7076963294572261e-05,  1.3246041034475908e-08],
           [ 6.3097209999999995e+03, -9.9488738284986289e-01,  7.6098466058793787e-05,  1.1753624398935791e-08],
           [ 6.2110050000000001e+03, -9.7931508090613661e-01,  7.4701618122943186e-05,  1.2491909384682032e-08],
           [ 6.1138330000000005e+03, -9.6400000000000796e-01,  7.3650768202935252e-05,  1.1492317970485111e-08],
           [ 6.0181809999999996e+03, -9.4892507682030636e-01,  7.2450755686751523e-05,  1.2000125164046694e-08],
           [ 5.9240250000000005e+03, -9.3407492192803387e-01,  7.1423843593280135e-05,  1.1253756869877840e-08],
           [ 5.8313429999999998e+03, -9.1945254050328129e-01,  7.0176204111181977e-05,  1.1492009216351739e-08],
           [ 5.7401109999999999e+03, -9.0507253940455457e-01,  6.9100788091005513e-05,  1.1246059545122478e-08],
           [ 5.6503059999999996e+03, -8.9091499999999990e-01,  6.8554307250587868e-05,  5.9569274944770714e-09],
           [ 5.5619059999999999e+03, -8.7702543072504802e-01,  6.7933569227592865e-05,  6.2073802290507636e-09],
           [ 5.4748890000000001e+03, -8.6325249547265803e-01,  6.8295157991058451e-05,  6.2979673547847178e-09],
           [ 5.3892529999999997e+03, -8.4940452485380269e-01,  6.7641308285556478e-05,  6.0394025248822203e-09],
           [ 5.3049949999999999e+03, -8.3569508112094459e-01,  6.5475356002292484e-05,  1.1754552071296941e-08],
           [ 5.2220919999999996e+03, -8.2224737335834741e-01,  6.4523753861674967e-05,  1.0499797218499474e-08],
           [ 5.1405230000000001e+03, -8.0902762866945765e-01,  6.3252573389177552e-05,  1.1237133053998427e-08],
           [ 5.0602640000000001e+03, -7.9604000000000263e-01,  6.2350000000015448e-05,  1.0499999999868948e-08],
           [ 4.9812939999999999e+03, -7.8325500000000381e-01,  6.1325410821652101e-05,  1.0245891783622342e-08],
           [ 4.9035919999999996e+03, -7.7068254108216461e-01,  6.0249965199608015e-05,  1.0754456220474219e-08],
           [ 4.8271369999999997e+03, -7.5830991435562956e-01,  5.9349944113340496e-05,  9.4919944294780119e-09],
           [ 4.7519089999999997e+03, -7.4615516570007701e-01,  5.8202512989932179e-05,  1.0491440109161587e-08],
           [ 4.6778860000000004e+03, -7.3419991989881594e-01,  5.7448397976276320e-05,  9.5080101185862634e-09],
           [ 4.6050500000000002e+03, -7.2242500000000298e-01,  5.6400827526210671e-05,  9.4917247383419239e-09],
           [ 4.5333810000000003e+03, -7.1086008275261114e-01,  5.5426245216165794e-05,  9.7458230994940119e-09],
           [ 4.4628590000000004e+03, -6.9948245901639261e-01,  5.4599180327875587e-05,  9.2540983604783026e-09],
           [ 4.3934660000000003e+03, -6.8828500000000303e-01,  5.3676201372971913e-05,  8.7379862702352548e-09],
           [ 4.3251830000000000e+03, -6.7728762013730193e-01,  5.2726180109813338e-05,  9.5002126320409277e-09],
           [ 4.2579910000000000e+03, -6.6645737773637770e-01,  5.2048406193904162e-05,  8.2537116985470504e-09],
           [ 4.1918739999999998e+03, -6.5580008514664068e-01,  5.0976281652174159e-05,  9.2456981426236610e-09],
           [ 4.1268130000000001e+03, -6.4532745787192691e-01,  5.0275367707527386e-05,  7.9921101174829106e-09],
           [ 4.0627910000000002e+03, -6.3503262102689695e-01,  4.9326188581687580e-05,  9.0002168726233120e-09],
           [ 3.9997900000000000e+03, -6.2489737680438096e-01,  4.8723786719284683e-05,  7.4998132453707468e-09],
           [ 3.9377950000000001e+03, -6.1492762506316323e-01,  4.7701678217948466e-05,  8.7457241367827622e-09],
           [ 3.8767880000000000e+03, -6.0512491769547028e-01,  4.7099189855185356e-05,  7.4998709955309545e-09],
           [ 3.8167540000000004e+03, -5.9548008359456761e-01,  4.6176259876355989e-05,  8.2457606927821557e-09],
           [ 3.7576759999999999e+03, -5.8599745879851328e-01,  4.5524594662912364e-05,  7.4999332224878756e-09],
           [ 3.6995390000000002e+03, -5.7666754186925628e-01,  4.4726235518042221e-05,  7.4918317452210570e-09],
           [ 3.6423270000000002e+03, -5.6749753981329121e-01,  4.3999958276965676e-05,  7.7543985593120370e-09],
           [ 3.5860250000000001e+03, -5.5846491620111838e-01,  4.3374557714918053e-05,  6.7460429626908797e-09],
           [ 3.5306190000000001e+03, -5.4958762336925360e-01,  4.2501659071070287e-05,  7.7457462148267101e-09],
           [ 3.4760930000000003e+03, -5.4085491916859496e-01,  4.1999204004814495e-05,  6.4998768108059938e-09],
           [ 3.4224339999999997e+03, -5.3226008206330810e-01,  4.1150805944026872e-05,  7.5001468907265342e-09],
           [ 3.3696270000000000e+03, -5.2380491646778038e-01,  4.0599177840373594e-05,  6.4998683739991852e-09],
           [ 3.3176589999999997e+03, -5.1549008484848569e-01,  3.9776280560147590e-05,  7.2456792473030168e-09],
           [ 3.2665149999999999e+03, -5.0731745835903685e-01,  3.9275341257087319e-05,  5.9924233327457446e-09],
           [ 3.2161819999999998e+03, -4.9928261740763741e-01,  3.8526153124142093e-05,  7.0002095227117430e-09],
           [ 3.1666460000000002e+03, -4.9136738049712747e-01,  3.8098450822293132e-05,  5.7535414898279855e-09],
           [ 3.1178960000000002e+03, -4.8357508408797428e-01,  3.7250825369376521e-05,  7.0001551031428914e-09],
           [ 3.0699179999999997e+03, -4.7591491436100469e-01,  3.6799891498163206e-05,  5.4925211189882365e-09],
           [ 3.0226999999999998e+03, -4.6839016042780240e-01,  3.6027034287937634e-05,  6.7456999011228372e-09],
           [ 2.9762280000000001e+03, -4.6098238257318147e-01,  3.5673083391643548e-05,  5.5074234013741127e-09],
           [ 2.9304919999999997e+03, -4.5368254319281137e-01,  3.4926267932249843e-05,  5.9916399591686264e-09],
           [ 2.8854790000000003e+03, -4.4651754040758623e-01,  3.4375397143828202e-05,  6.0000693202000307e-09],
           [ 2.8411770000000001e+03, -4.3946245889921448e-01,  3.3899976242682819e-05,  5.2461274947734895e-09],
           [ 2.7975750000000003e+03, -4.3252507982583510e-01,  3.3250784108961871e-05,  6.0001414936672330e-09],
           [ 2.7546610000000001e+03, -4.2569491875923249e-01,  3.2823806542524595e-05,  5.2538104981181271e-09],
           [ 2.7124250000000002e+03, -4.1897254313578386e-01,  3.2176263173305243e-05,  5.4916818451600239e-09],
           [ 2.6708550000000000e+03, -4.1237254004576779e-01,  3.1700800915365758e-05,  5.2459954231642853e-09],
           [ 2.6299400000000001e+03, -4.0587499999999982e-01,  3.1199132492091832e-05,  5.5086750790800396e-09],
           [ 2.5896700000000001e+03, -3.9946991324920905e-01,  3.0749864984250255e-05,  4.4926750786489223e-09],
           [ 2.5500350000000003e+03, -3.9318515999999981e-01,  3.0077038630762499e-05,  5.7456136921874014e-09],
           [ 2.5110230000000001e+03, -3.8699738386308175e-01,  2.9823111504828082e-05,  4.5072712599458773e-09],
           [ 2.4726260000000002e+03, -3.8089754342431753e-01,  2.9150868486323978e-05,  5.2456575683867976e-09],
           [ 2.4348330000000001e+03, -3.7491000000000096e-01,  2.8750769230793118e-05,  4.4923076920944110e-09],
           [ 2.3976340000000000e+03, -3.6902507692307951e-01,  2.8250755852822774e-05,  5.0001337794980404e-09],
           [ 2.3610189999999998e+03, -3.6322492173913029e-01,  2.7923854023598761e-05,  4.2536336772758252e-09],
           [ 2.3249800000000000e+03, -3.5751254192409215e-01,  2.7325411707397331e-05,  5.0000753352819060e-09],
           [ 2.2895070000000001e+03, -3.5189745732255406e-01,  2.6975308711726933e-05,  3.9926451379734829e-09],
           [ 2.2545909999999999e+03, -3.4638261622606964e-01,  2.6426140677462406e-05,  5.0002158326623021e-09],
           [ 2.2202220000000002e+03, -3.4094738161559762e-01,  2.6173080002779847e-05,  4.0073615317770541e-09],
           [ 2.1863930000000000e+03, -3.3559254476908817e-01,  2.5601661665269895e-05,  4.2378602561399249e-09],
           [ 2.1530940000000001e+03, -3.3034507662835000e-01,  2.5200752839962262e-05,  4.5001344355921627e-09],
           [ 2.1203160000000003e+03, -3.2516992202728989e-01,  2.4923860921636788e-05,  3.7535935125010412e-09],
           [ 2.0880520000000001e+03, -3.2007254203758767e-01,  2.4400840751762078e-05,  4.2457962411313053e-09],
           [ 2.0562930000000001e+03, -3.1506500000000132e-01,  2.4075383043897225e-05,  3.7461695609808387e-09],
           [ 2.0250309999999999e+03, -3.1013753830439234e-01,  2.3624439344906433e-05,  4.5094369902631829e-09],
           [ 1.9942580000000000e+03, -3.0527736732570326e-01,  2.3349034277720947e-05,  3.2463897929435604e-09],
           [ 1.9639669999999999e+03, -3.0051016877637060e-01,  2.2778026440469224e-05,  4.2366132326221440e-09],
           [ 1.9341480000000001e+03, -2.9582746509129781e-01,  2.2598428463498353e-05,  3.7622244947299600e-09],
           [ 1.9047950000000001e+03, -2.9119491266375619e-01,  2.2249801947700209e-05,  2.9932468986082484e-09],
           [ 1.8759010000000001e+03, -2.8665515486725784e-01,  2.1675978701052311e-05,  4.7556997150643990e-09],
           [ 1.8474569999999999e+03, -2.8217728813559517e-01,  2.1648159972154081e-05,  2.2472138379470154e-09],
           [ 1.8194579999999999e+03, -2.7778023972602583e-01,  2.0927898371200793e-05,  4.7449888907258324e-09],
           [ 1.7918940000000000e+03, -2.7345231038506385e-01,  2.0972535918490909e-05,  2.5056793214295325e-09],
           [ 1.7647610000000000e+03, -2.6918263282172261e-01,  2.0327265339434297e-05,  3.9906287781388273e-09],
           [ 1.7380500000000002e+03, -2.6499746089049175e-01,  2.0174614635241618e-05,  2.9999426966798024e-09],
           [ 1.7117550000000001e+03, -2.6087253968254298e-01,  1.9800793650791571e-05,  3.2460317461846525e-09],
           [ 1.6858689999999999e+03, -2.5681499999999913e-01,  1.9499116161654783e-05,  3.5088383836479057e-09],
           [ 1.6603860000000002e+03, -2.5280991161615890e-01,  1.9224480722674908e-05,  2.7463543891159681e-09],
           [ 1.6353000000000002e+03, -2.4888262483995016e-01,  1.8751713509168599e-05,  3.7453489032113204e-09],
           [ 1.6106030000000001e+03, -2.4501992167102005e-01,  1.8674523248635444e-05,  2.2469346155462591e-09],
           [ 1.5862900000000000e+03, -2.4121760898282654e-01,  1.8174986674102111e-05,  4.0110315417118964e-09],
           [ 1.5623540000000000e+03, -2.3746228070175476e-01,  1.8148066351138525e-05,  1.7474066639822095e-09],
           [ 1.5387909999999999e+03, -2.3378024523160743e-01,  1.7503511874514544e-05,  3.9894044157495760e-09],
           [ 1.5155920000000001e+03, -2.3015986072423192e-01,  1.7572672876763894e-05,  2.2593436555917725e-09],
           [ 1.4927540000000001e+03, -2.2657754583921152e-01,  1.7076311332260564e-05,  2.9914705983957738e-09],
           [ 1.4702700000000000e+03, -2.2307253945480757e-01,  1.6825387636289769e-05,  3.0000691178921901e-09],
           [ 1.4481340000000000e+03, -2.1961745985401285e-01,  1.6649936725261217e-05,  2.2466181487823534e-09],
           [ 1.4263410000000001e+03, -2.1622007396449719e-01,  1.6275234946028506e-05,  3.2550469893033451e-09],
           [ 1.4048850000000000e+03, -2.1286737556561239e-01,  1.6173770854222836e-05,  1.9998480189631355e-09],
           [ 1.3837619999999999e+03, -2.0957262595419893e-01,  1.5701740267761723e-05,  3.2451927422405546e-09],
           [ 1.3629649999999999e+03, -2.0633492211837917e-01,  1.5623876806790950e-05,  2.2534437700949542e-09],
           [ 1.3424900000000000e+03, -2.0314254344391805e-01,  1.5301509903978271e-05,  2.2392453519204382e-09],
           [ 1.3223309999999999e+03, -2.0001506410256487e-01,  1.5024031642136005e-05,  3.2660938351691812e-09],
           [ 1.3024829999999999e+03, -1.9691227495908262e-01,  1.4997974429186434e-05,  1.2477516164288716e-09],
           [ 1.2829430000000000e+03, -1.9387524752475235e-01,  1.4403599143698598e-05,  3.4887610382450254e-09],
           [ 1.2637030000000000e+03, -1.9088986486486545e-01,  1.4522767382765535e-05,  1.7588126588863329e-09],
           [ 1.2447610000000000e+03, -1.8793254700854586e-01,  1.4076331475296190e-05,  2.4913861017605845e-09],
           [ 1.2261110000000001e+03, -1.8504253913043378e-01,  1.3900782608680385e-05,  2.2460869565255062e-09],
           [ 1.2077480000000000e+03, -1.8219500000000213e-01,  1.3699100719424539e-05,  2.5089928058108504e-09],
           [ 1.1896679999999999e+03, -1.7937991007194284e-01,  1.3524430947072230e-05,  1.7466977236313408e-09],
           [ 1.1718670000000000e+03, -1.7662262295081943e-01,  1.3177134341041397e-05,  2.4909516715077019e-09],
           [ 1.1543389999999999e+03, -1.7391246753246595e-01,  1.3123926920568241e-05,  2.0074840411055116e-09],
           [ 1.1370810000000001e+03, -1.7122745762711924e-01,  1.2874582752649133e-05,  1.9999351852373338e-09],
           [ 1.1200889999999999e+03, -1.6859254302103219e-01,  1.2626200226527606e-05,  1.9922998381716185e-09],
           [ 1.1033580000000002e+03, -1.6600753398058149e-01,  1.2424342977938041e-05,  2.5099682786078327e-09],
           [ 1.0868840000000000e+03, -1.6344736633663570e-01,  1.2323679438110692e-05,  1.4998392824372432e-09],
           [ 1.0706640000000000e+03, -1.6093763527054050e-01,  1.1952705410823162e-05,  2.2364729458379530e-09],
           [ 1.0546920000000000e+03, -1.5848000000000073e-01,  1.1899170124467784e-05,  2.0082987553127211e-09],
           [ 1.0389649999999999e+03, -1.5603991701244796e-01,  1.1744115784923792e-05,  1.5505433956619631e-09],
           [ 1.0234800000000000e+03, -1.5364457755359345e-01,  1.1426326232456263e-05,  2.1944930347406188e-09],
           [ 1.0082320000000000e+03, -1.5129347751606012e-01,  1.1344630721039361e-05,  1.7014443956575589e-09],
           [ 9.9321780000000001e+02, -1.4897350803998252e-01,  1.1132699991521222e-05,  1.8238040829843260e-09],
           [ 9.7843359999999996e+02, -1.4669225391918872e-01,  1.0965078383748107e-05,  1.7746080813507703e-09],
           [ 9.6387579999999991e+02, -1.4444599999999866e-01,  1.0792459539565313e-05,  1.7754046043760852e-09],
           [ 9.4954090000000008e+02, -1.4223424595395423e-01,  1.0622538898474309e-05,  1.6992064105714190e-09],
           [ 9.3542539999999997e+02, -1.4005876198194228e-01,  1.0442700217777879e-05,  1.7491960163984465e-09],
           [ 9.2152569999999992e+02, -1.3791774605789484e-01,  1.0295000029822421e-05,  1.6246054914126340e-09],
           [ 9.0783850000000007e+02, -1.3581000788718803e-01,  1.0125157743764713e-05,  1.6492112811128390e-09],
           [ 8.9436040000000003e+02, -1.3373550000000164e-01,  1.2139887990654519e-05, -2.0048879906492401e-08],
           [ 8.8108819999999992e+02, -1.3190898879906551e-01,  1.4025540687198912e-05, -1.8856526965388420e-08],
           [ 8.6801869999999997e+02, -1.2966957647058733e-01,  1.1579027014447379e-05, -6.6682233075501810e-09],
           [ 8.4249459999999999e+02, -1.2583815246171445e-01,  1.2561740932601831e-05, -6.1048931201401759e-09],
           [ 8.1778060000000005e+02, -1.2154604326309056e-01,  9.1106482906089253e-06,  1.6603401242154536e-09],
           [ 7.9384910000000002e+02, -1.1770254313194109e-01,  8.8024999133180795e-06,  1.6010787319324651e-09],
           [ 7.7067349999999999e+02, -1.1398941371878196e-01,  8.5062053841265112e-06,  1.5418160489201473e-09],
           [ 7.4822820000000002e+02, -1.1040191363926098e-01,  8.2193078965613068e-06,  1.4888014987071708e-09],
           [ 7.2648849999999993e+02, -1.0693553430079156e-01,  7.9443063023226786e-06,  1.4293260081878202e-09],
           [ 7.0543060000000003e+02, -1.0358629265887997e-01,  7.6761582817639475e-06,  1.3890250631837241e-09],
           [ 6.8503150000000005e+02, -1.0034914633859245e-01,  7.4235722598319649e-06,  1.3232971656396142e-09],
           [ 6.6526919999999996e+02, -9.7220921774782962e-02,  7.1705526075198370e-06,  1.2952813319824786e-09],
           [ 6.4612220000000002e+02, -9.4197266971937060e-02,  6.9378815285481980e-06,  1.2297666556852770e-09],
           [ 6.2757010000000002e+02, -9.1274542361835492e-02,  6.7030496971003109e-06,  1.1983105603803612e-09],
           [ 6.0959289999999999e+02, -8.8449525215749683e-02,  6.4840867771760737e-06,  1.1551965078654413e-09],
           [ 5.9217160000000001e+02, -8.5717266923935442e-02,  6.2710249263030902e-06,  1.1015484668627783e-09],
           [ 5.7528779999999995e+02, -8.3076671137390687e-02,  6.0586073253669771e-06,  1.0862418079370107e-09],
           [ 5.5892349999999999e+02, -8.0522879190291385e-02,  5.8671060417295888e-06,  1.0239495486320805e-09],
           [ 5.4306179999999995e+02, -7.8053162827763770e-02,  5.6680026927789787e-06,  1.0015572301992625e-09],
           [ 5.2768589999999995e+02, -7.5665774883028281e-02,  5.4859362959257946e-06,  9.6469059608431112e-10],
           [ 5.1277990000000000e+02, -7.3355637493127832e-02,  5.3083956154485054e-06,  9.2395925095634109e-10],
           [ 4.9832850000000002e+02, -7.1121404136833696e-02,  5.1322695436401004e-06,  8.9875570264338901e-10],
           [ 4.8431670000000003e+02, -6.8960645635060519e-02,  4.9664979565333669e-06,  8.7115109384597329e-10],
           [ 4.7073020000000002e+02, -6.6869508321185656e-02,  4.8077887213945208e-06,  8.2376442266732247e-10],
           [ 4.5755520000000001e+02, -6.4847541101907755e-02,  4.6460154966880554e-06,  8.2095006425086949e-10],
           [ 4.4477809999999999e+02, -6.2890620895522387e-02,  4.5051238345814730e-06,  7.6490321515333702e-10],
           [ 4.3238630000000001e+02, -6.0996782975871369e-02,  4.3516206400863113e-06,  7.6147119635154592e-10],
           [ 4.2036709999999999e+02, -5.9164758176274694e-02,  4.2177041503839790e-06,  7.1793365495446967e-10],
           [ 4.0870860000000005e+02, -5.7391524477526594e-02,  4.0790354557348339e-06,  7.0543465948182117e-10],
           [ 3.9739909999999998e+02, -5.5675258136094835e-02,  3.9507679725964838e-06,  6.7761353939287120e-10],
           [ 3.8642750000000001e+02, -5.4013637322329125e-02,  3.8240342081378653e-06,  6.4576201753568932e-10],
           [ 3.7578289999999998e+02, -5.2406532196969717e-02,  3.6990315944950350e-06,  6.4314695177002119e-10],
           [ 3.6545470000000000e+02, -5.0849741924959301e-02,  3.5887917655893011e-06,  5.9958929603184945e-10],
           [ 3.5543309999999997e+02, -4.9342274503199772e-02,  3.4678250598348116e-06,  5.9273728082488709e-10],
           [ 3.4570810000000000e+02, -4.7884016005566903e-02,  3.3614500305179095e-06,  5.6814998658574761e-10],
           [ 3.3627030000000002e+02, -4.6471257994969484e-02,  3.2557252456673349e-06,  5.5282364589889786e-10],
           [ 3.2711070000000001e+02, -4.5102629059194682e-02,  3.1533055316140119e-06,  5.2419882179792486e-10],
           [ 3.1822050000000002e+02, -4.3778402987933333e-02,  3.0502798793326932e-06,  5.2117530166852225e-10],
           [ 3.0959100000000001e+02, -4.2495749999999999e-02,  2.9606851133354843e-06,  4.9032443332243380e-10],
           [ 3.0121420000000001e+02, -4.1252637022667141e-02,  2.8651992738857808e-06,  4.7742919724522162e-10],
           [ 2.9308209999999997e+02, -4.0049265809443423e-02,  2.7745130911715348e-06,  4.7157978023300302e-10],
           [ 2.8518700000000001e+02, -3.8882870999346814e-02,  2.6919735236699201e-06,  4.3690736531640242e-10],
           [ 2.7752159999999998e+02, -3.7753652706040856e-02,  2.6014876172556975e-06,  4.4637956474816170e-10],
           [ 2.7007850000000002e+02, -3.6659492111368798e-02,  2.5287895347397492e-06,  4.0585511051870197e-10],
           [ 2.6285100000000000e+02, -3.5599273684210654e-02,  2.4439868421061507e-06,  4.1190789473559421e-10],
           [ 2.5583220000000000e+02, -3.4572249999999909e-02,  2.3737895005098572e-06,  3.8730249744996230e-10],
           [ 2.4901580000000001e+02, -3.3576257900101963e-02,  2.2976184539380553e-06,  3.8085523285692758e-10],
           [ 2.4239550000000000e+02, -3.2611507890583910e-02,  2.2276562254277751e-06,  3.6191613746044959e-10],
           [ 2.3596520000000001e+02, -3.1677015463917567e-02,  2.1582602118427884e-06,  3.5908553872310293e-10],
           [ 2.2971899999999999e+02, -3.0770621114533665e-02,  2.0956451620874130e-06,  3.3730205290828653e-10],
           [ 2.2365140000000002e+02, -2.9891886803349706e-02,  2.0276567700861989e-06,  3.3388623330837119e-10],
           [ 2.1775680000000000e+02, -2.9040757747318215e-02,  1.9676158874435896e-06,  3.1836424574105401e-10],
           [ 2.1202990000000003e+02, -2.8215507682851866e-02,  1.9075768285169505e-06,  3.1230792870810819e-10],
           [ 2.0646559999999999e+02, -2.7415000000000120e-02,  1.8506832298151830e-06,  2.9658385092730391e-10],
           [ 2.0105900000000000e+02, -2.6639136645962760e-02,  1.7926543894983792e-06,  2.9014420157569277e-10],
           [ 1.9580519999999999e+02, -2.5887257585974342e-02,  1.7400758597446894e-06,  2.8106035063740074e-10],
           [ 1.9069960000000000e+02, -2.5157499999999975e-02,  1.6881444962342853e-06,  2.7177751882670467e-10],
           [ 1.8573779999999999e+02, -2.4449628899247067e-02,  1.6363647500468142e-06,  2.5889873094403495e-10],
           [ 1.8091540000000001e+02, -2.3764015151515046e-02,  1.5851133763258689e-06,  2.6231190624771004e-10],
           [ 1.7622810000000001e+02, -2.3098492372234981e-02,  1.5425003130796304e-06,  2.3730774047457657e-10],
           [ 1.7167200000000000e+02, -2.2453015318146186e-02,  1.4914031814615947e-06,  2.4336704634638635e-10],
           [ 1.6724299999999999e+02, -2.1827249999999982e-02,  1.4506440501044390e-06,  2.2802974947756794e-10],
           [ 1.6293740000000000e+02, -2.1219628810020898e-02,  1.4056822026622603e-06,  2.2480923721063254e-10],
           [ 1.5875149999999999e+02, -2.0630378820490708e-02,  1.3638259156442506e-06,  2.1534093404811799e-10],
           [ 1.5468170000000001e+02, -2.0059007542147230e-02,  1.3232189971470672e-06,  2.0909356794520525e-10],
           [ 1.5072450000000001e+02, -1.9504628715134961e-02,  1.2850371513486830e-06,  2.0303212162932351e-10],
           [ 1.4687660000000000e+02, -1.8966249999999959e-02,  1.2481804949059269e-06,  1.9034752547150702e-10],
           [ 1.4313480000000001e+02, -1.8444136098981014e-02,  1.2081787163998985e-06,  2.0000889252493742e-10],
           [ 1.3949590000000001e+02, -1.7936863545318055e-02,  1.1768554428761256e-06,  1.7481141856914852e-10],
           [ 1.3595699999999999e+02, -1.7445143997939300e-02,  1.1364399793921052e-06,  1.8390005152059407e-10],
           [ 1.3251489999999998e+02, -1.6968499999999977e-02,  1.1081061850030765e-06,  1.7196907498590737e-10],
           [ 1.2916690000000000e+02, -1.6504621237000441e-02,  1.0756433559205685e-06,  1.6231414540924390e-10],
           [ 1.2591030000000001e+02, -1.6054886197183104e-02,  1.0407184506223099e-06,  1.6856267646536003e-10],
           [ 1.2274230000000000e+02, -1.5618371295758344e-02,  1.0143928739008833e-06,  1.4981802445362608e-10],
           [ 1.1966040000000000e+02, -1.5194635983263557e-02,  9.8132284126755016e-07,  1.5928537525251862e-10],
           [ 1.1666200000000001e+02, -1.4782992601726238e-02,  9.3854448078717343e-07,  2.3209263921913568e-10],
           [ 1.1374480000000000e+02, -1.4379723692705081e-02,  8.8981992162974304e-07,  2.3149270947705333e-10],
           [ 1.1090629999999999e+02, -1.3996016598915943e-02,  8.1918479682537012e-07,  2.0449098877429323e-10],
           [ 1.0814150000000001e+02, -1.3643803761532885e-02,  7.8242794990190932e-07,  1.9545428881330776e-10],
           [ 1.0544560000000001e+02, -1.3307378066914531e-02,  7.9749822639679090e-07,  1.0946054087813614e-10],
           [ 1.0281690000000000e+02, -1.2975243511450435e-02,  7.7967817820085064e-07,  9.5196895255958428e-11],
           [ 1.0025380000000000e+02, -1.2651948612739385e-02,  7.5602566974594146e-07,  1.0608696975429253e-10],
           [ 9.7754499999999993e+01, -1.2336807908470497e-02,  7.4178097219587684e-07,  9.2542850783569610e-11],
           [ 9.5317549999999997e+01, -1.2028990377498126e-02,  7.2072100559474228e-07,  9.6154409479857352e-11],
           [ 9.2941350000000000e+01, -1.1729163446122655e-02,  7.0339077829168449e-07,  9.2132261608583727e-11],
           [ 9.0624390000000005e+01, -1.1436751263412948e-02,  6.8570487696238863e-07,  9.0257200510875115e-11],
           [ 8.8365189999999998e+01, -1.1151638448566687e-02,  6.6870486429543473e-07,  8.7436892689043970e-11],
           [ 8.6162309999999991e+01, -1.0873664075725825e-02,  6.5195796532386585e-07,  8.5562066527971475e-11],
           [ 8.4014340000000004e+01, -1.0602613441612922e-02,  6.3582350181643624e-07,  8.3718531240957462e-11],
           [ 8.1919920000000005e+01, -1.0338237817137438e-02,  6.2007670872527874e-07,  8.0561884808431213e-11],
           [ 7.9877719999999997e+01, -1.0080539707470306e-02,  7.7083464438009247e-07, -7.5318053514216927e-10],
           [ 7.7886420000000001e+01, -9.8625875139353378e-03,  9.0750911877601763e-07, -6.7910774549789783e-10],
           [ 7.5944769999999991e+01, -9.5810767958846785e-03,  6.5385289681183652e-07, -1.4339861008492994e-10],
           [ 7.1299769999999995e+01, -9.0347728566365394e-03,  6.8746614715972659e-07, -1.2304086777330247e-10],
           [ 6.6938869999999994e+01, -8.4395873603067897e-03,  4.2293855502378161e-07,  7.6792331179631468e-11],
           [ 6.2834409999999998e+01, -7.9590545568982880e-03,  3.9435646268713189e-07,  6.9505302218879347e-11],
           [ 5.8962159999999997e+01, -7.5125691175469975e-03,  3.9408752229081258e-07,  4.5701425606399506e-11],
           [ 5.5310110000000002e+01, -7.0842055260513861e-03,  3.7324793880108217e-07,  4.3686226603355251e-11],
           [ 5.1866779999999999e+01, -6.6781929172977893e-03,  3.5359982223391940e-07,  4.1492024723352452e-11],
           [ 4.8621270000000003e+01, -6.2934740765213572e-03,  3.3471186407909789e-07,  3.9592577927238806e-11],
           [ 4.5563160000000003e+01, -5.9290677789968303e-03,  3.1687626156064878e-07,  3.7638592865985032e-11],
           [ 4.2682549999999999e+01, -5.5839625727866909e-03,  2.9981231249017088e-07,  3.5905666166451139e-11],
           [ 3.9970010000000002e+01, -5.2572210106716860e-03,  2.8367056255141667e-07,  3.4022917583899362e-11],
           [ 3.7416570000000000e+01, -4.9480332599323466e-03,  2.6814137884795948e-07,  3.2570282033475558e-11],
           [ 3.5013660000000002e+01, -4.6554641695592779e-03,  2.5366018628065166e-07,  3.0776305675765669e-11],
           [ 3.2753189999999996e+01, -4.3787217540218002e-03,  2.3959777554615099e-07,  2.9371464994910891e-11],
           [ 3.0627399999999998e+01, -4.1170953797294652e-03,  2.2643959906385944e-07,  2.7902320790133827e-11],
           [ 2.8628949999999996e+01, -3.8697290400730097e-03,  2.1389550527406691e-07,  2.6485149743928766e-11],
           [ 2.6750869999999999e+01, -3.6359696724909958e-03,  2.0190754053334929e-07,  2.5183608897281358e-11],
           [ 2.4986509999999999e+01, -3.4151744252846838e-03,  1.9058436025763247e-07,  2.3928980623481171e-11],
           [ 2.3329560000000001e+01, -3.2066433295594395e-03,  1.7987065059773578e-07,  2.2672017042275200e-11],
           [ 2.1774039999999999e+01, -3.0097686661799978e-03,  1.6962977966253518e-07,  2.1575105394935205e-11],
           [ 2.0314260000000001e+01, -2.8239575574712629e-03,  1.5998659820744537e-07,  2.0417033470152001e-11],
           [ 1.8944830000000000e+01, -2.6486581841612049e-03,  1.5075626773755536e-07,  1.9440201169697999e-11],
           [ 1.7660619999999998e+01, -2.4833217655463769e-03,  1.4212359137248317e-07,  1.8319879440540506e-11],
           [ 1.6456779999999998e+01, -2.3274582645934861e-03,  1.3379317586469966e-07,  1.7526706644555717e-11],
           [ 1.5328690000000000e+01, -2.1805200587453688e-03,  1.2611698179059490e-07,  1.6406271400270376e-11],
           [ 1.4272009999999998e+01, -2.0420983734045716e-03,  1.1855251608578355e-07,  1.5768461446734329e-11],
           [ 1.3282570000000000e+01, -1.9117195112337382e-03,  1.1171259038949329e-07,  1.4732864155962006e-11],
           [ 1.2356479999999999e+01, -1.7889572727272725e-03,  1.0493882929671264e-07,  1.4111432315671788e-11],
           [ 1.1490000000000000e+01, -1.6734348691938065e-03,  9.8774910988360527e-08,  1.3229654798500162e-11],
           [ 1.0679630000000000e+01, -1.5647377171065712e-03,  9.2774348209023577e-08,  1.2602172008237962e-11],
           [ 9.9220299999999995e+00, -1.4625117398913696e-03,  8.7221260637527356e-08,  1.1868438290423000e-11],
           [ 9.2140629999999994e+00, -1.3663891505360246e-03,  8.1887393303582955e-08,  1.1245815536927926e-11],
           [ 8.5527459999999991e+00, -1.2760673955797446e-03,  7.6883556982275223e-08,  1.0630468354432682e-11],
           [ 7.9352619999999998e+00, -1.1912109873316442e-03,  7.2160918056396460e-08,  1.0034113213779408e-11],
           [ 7.3589509999999994e+00, -1.1115244843649128e-03,  6.7686322966028455e-08,  9.4852915276007200e-12],
           [ 6.8212960000000002e+00, -1.0367241927531831e-03,  6.3475763930726518e-08,  8.9532431512776711e-12],
           [ 6.3199220000000000e+00, -9.6653349645899804e-04,  5.9498770501640197e-08,  8.4484448327091717e-12],
           [ 5.8525859999999996e+00, -9.0069839233282651e-04,  5.5744820807350191e-08,  7.9759277166139430e-12],
           [ 5.4171700000000005e+00, -8.3897162573801673e-04,  5.2211542251502092e-08,  7.5194184490558903e-12],
           [ 5.0116769999999997e+00, -7.8112051964972261e-04,  4.8874769538392176e-08,  7.0925395221112241e-12],
           [ 4.6342220000000003e+00, -7.2692634546974734e-04,  4.6026794251575330e-08,  6.0997933758345086e-12],
           [ 4.2830279999999998e+00, -6.7632470618629592e-04,  4.3272326172927656e-08,  5.8901723993297699e-12],
           [ 3.9564200000000000e+00, -6.2863475071387072e-04,  4.1159864332093993e-08,  5.6272741912957724e-12],
           [ 3.6530960000000001e+00, -5.8325443073830511e-04,  3.8469163294054457e-08,  5.4153963651082043e-12],
           [ 3.3717629999999996e+00, -5.4072372017041994e-04,  3.5282499405710559e-08,  5.6018818702617554e-12],
           [ 3.1109220000000000e+00, -5.0123980936201329e-04,  3.2826310069671668e-08,  5.2506173087076695e-12],
           [ 2.8691649999999997e+00, -4.6447553631081060e-04,  3.0543748934882815e-08,  4.9106473734776383e-12],
           [ 2.6451769999999999e+00, -4.3024880184581950e-04,  2.8409904560213265e-08,  4.5833982628509276e-12],
           [ 2.4377279999999999e+00, -3.9840134858846771e-04,  2.6405108569883732e-08,  4.2991772141042112e-12],
           [ 2.2456659999999999e+00, -3.6877185710800604e-04,  2.4552673822516505e-08,  3.9980807869889267e-12],
           [ 2.0679179999999997e+00, -3.4122062269524768e-04,  2.2796733542507718e-08,  3.7530236959792098e-12],
           [ 1.9034760000000002e+00, -3.1560912138075566e-04,  2.1184901423040966e-08,  3.4906826769406757e-12],
           [ 1.7514040000000002e+00, -2.9180620795000908e-04,  1.9658823389606371e-08,  3.2671850208223880e-12],
           [ 1.6108240000000000e+00, -2.6969699579478586e-04,  1.8246773979806869e-08,  3.0464352195288571e-12],
           [ 1.4809180000000000e+00, -2.4916539540033224e-04,  1.6928383444646406e-08,  2.8368147120361005e-12],
           [ 1.3609220000000000e+00, -2.3010940092165871e-04,  1.5694605439997143e-08,  2.6563928066413497e-12],
           [ 1.2501230000000001e+00, -2.1242250087668042e-04,  1.4557582768443423e-08,  2.4628379698336638e-12],
           [ 1.1478590000000000e+00, -1.9601778963086166e-04,  1.3478142638780109e-08,  2.3068732458873724e-12],
           [ 1.0535080000000001e+00, -1.8080949205766589e-04,  1.2492386456483475e-08,  2.1419953176958757e-12],
           [ 9.6649410000000002e-01, -1.6671060911291054e-04,  1.1564499939030860e-08,  1.9966365735802922e-12],
           [ 8.8627950000000000e-01, -1.5364863174369451e-04,  1.0703296543303241e-08,  1.8591338881710549e-12],
           [ 8.1236339999999996e-01, -1.4155098478426284e-04,  9.9031051135191436e-09,  1.7289289100130314e-12],
           [ 7.4427979999999994e-01, -1.3035118298823401e-04,  9.1577079855154086e-09,  1.6093159819052100e-12],
           [ 6.8159479999999995e-01, -1.1998648801628961e-04,  8.4663228200285174e-09,  1.4957064251016956e-12],
           [ 6.2390509999999999e-01, -1.1039838537743479e-04,  7.8229041821952823e-09,  1.3901331453486811e-12],
           [ 5.7083539999999999e-01, -1.0153288133622801e-04,  7.2256169748459686e-09,  1.2922913952204130e-12],
           [ 5.2203690000000003e-01, -9.3338045814966790e-05,  6.6718978643352946e-09,  1.1995875311966678e-12],
           [ 4.7718580000000005e-01, -8.5766457302233955e-05,  6.4254683984527083e-09,  5.7649241203049188e-13],
           [ 4.3598100000000006e-01, -7.8908619594758391e-05,  6.1968783790333605e-09,  5.3672162096652343e-13],
           [ 3.9814300000000002e-01, -7.2309200000000138e-05,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_rho = \
    np.array([[ 1.9304660000000000e+00, -1.6655999999999786e-04,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 1.9304660000000000e+00, -1.6655999999999786e-04,  5.5999999999851741e-09, -2.1684043449710090e-23],
           [ 1.9221520000000001e+00, -1.6599999999999948e-04,  5.3925925925932741e-09,  4.1481481477837961e-12],
           [ 1.9138660000000001e+00, -1.6542962962963164e-04,  5.5851851851914085e-09, -3.8518518519735369e-12],
           [ 1.9056080000000000e+00, -1.6490000000000222e-04,  4.9056603773747809e-09,  5.8867924532853691e-12],
           [ 1.8973760000000000e+00, -1.6436528301886532e-04,  5.9131389365817178e-09, -4.1495711845590190e-12],
           [ 1.8891720000000001e+00, -1.6380509090909115e-04,  5.2036363635215134e-09,  1.9636363652285330e-12],
           [ 1.8809950000000000e+00, -1.6326999999999984e-04,  5.4000000001338134e-09, -1.7997756063259374e-21],
           [ 1.8728450000000001e+00, -1.6272999999999982e-04,  5.3999999998665579e-09,  1.7997756063259374e-21],
           [ 1.8647220000000000e+00, -1.6218999999999985e-04,  5.4000000001110452e-09, -1.3444106938820255e-21],
           [ 1.8566260000000001e+00, -1.6164999999999873e-04,  5.2981132074667735e-09,  2.0377358493292589e-12],
           [ 1.8485570000000000e+00, -1.6110490566038216e-04,  5.3962264151200106e-09, -1.9622641503867778e-12],
           [ 1.8405149999999999e+00, -1.6057999999999798e-04,  5.2000000000813336e-09, -8.4567769453869351e-22],
           [ 1.8324990000000001e+00, -1.6005999999999619e-04,  5.3846153845015906e-09,  4.3076923082405186e-12],
           [ 1.8245100000000001e+00, -1.5948923076923417e-04,  5.6783216783446147e-09, -5.8741258741066071e-12],
           [ 1.8165490000000000e+00, -1.5896545454545537e-04,  4.6258741259128926e-09,  5.6643356643581316e-12],
           [ 1.8086130000000000e+00, -1.5846038461538148e-04,  5.7134978229285692e-09, -2.1161103055163808e-12],
           [ 1.8007040000000001e+00, -1.5790490566038008e-04,  5.2981132074678571e-09,  1.3444106938820255e-21],
           [ 1.7928219999999999e+00, -1.5737509433962326e-04,  5.1018867925831366e-09, -1.2793585635328952e-21],
           [ 1.7849660000000001e+00, -1.5686490566037446e-04,  5.1962264149759156e-09,  2.0377358502399884e-12],
           [ 1.7771360000000000e+00, -1.5633000000000010e-04,  5.5018867925108297e-09, -2.0377358502183044e-12],
           [ 1.7693330000000000e+00, -1.5579509433962568e-04,  5.1018867923917750e-09,  1.2793585635328952e-21],
           [ 1.7615559999999999e+00, -1.5528490566037691e-04,  5.0903440622943011e-09,  4.1553829061491069e-12],
           [ 1.7538050000000001e+00, -1.5474470588235136e-04,  5.4938956713345953e-09, -3.9955604866576473e-12],
           [ 1.7460810000000000e+00, -1.5422528301886788e-04,  4.7132815391272371e-09,  3.8475767653953912e-12],
           [ 1.7383820000000001e+00, -1.5372509803921461e-04,  5.5020347760752514e-09, -4.0014798359782469e-12],
           [ 1.7307090000000001e+00, -1.5320490566037701e-04,  5.0903440622259959e-09,  4.1553829066044714e-12],
           [ 1.7230620000000001e+00, -1.5266470588235487e-04,  5.3959276017436248e-09, -2.0361990943828722e-12],
           [ 1.7154419999999999e+00, -1.5214038461538838e-04,  4.8076923077610422e-09,  0.0000000000000000e+00],
           [ 1.7078469999999999e+00, -1.5165961538461233e-04,  4.9846153846535864e-09,  4.1538461530024955e-12],
           [ 1.7002770000000000e+00, -1.5112999999999932e-04,  5.6076923075844447e-09, -4.1538461525688146e-12],
           [ 1.6927340000000000e+00, -1.5060038461538520e-04,  4.7134238311436230e-09,  1.8853695318713298e-12],
           [ 1.6852160000000000e+00, -1.5011490196078166e-04,  5.0980392156450927e-09,  0.0000000000000000e+00],
           [ 1.6777230000000001e+00, -1.4960509803921724e-04,  5.3019607843001914e-09,  0.0000000000000000e+00],
           [ 1.6702560000000000e+00, -1.4907490196078730e-04,  5.0980392157106865e-09,  4.5536491244391183e-22],
           [ 1.6628149999999999e+00, -1.4856509803921281e-04,  4.9019607843741245e-09, -1.2793585635328952e-21],
           [ 1.6553990000000001e+00, -1.4807490196078505e-04,  4.8899559822494166e-09,  4.1616646678484595e-12],
           [ 1.6480079999999999e+00, -1.4755469387755127e-04,  5.3877551021953246e-09, -5.8775510221407282e-12],
           [ 1.6406430000000001e+00, -1.4705999999999785e-04,  4.5061224488590368e-09,  5.8775510216203120e-12],
           [ 1.6333020000000000e+00, -1.4656530612244979e-04,  5.5142056823350708e-09, -4.1616646664823651e-12],
           [ 1.6259870000000001e+00, -1.4604509803921482e-04,  4.8039215686120594e-09,  1.9607843135390977e-12],
           [ 1.6186970000000001e+00, -1.4555000000000207e-04,  4.9999999999871110e-09,  4.5536491244391183e-22],
           [ 1.6114320000000000e+00, -1.4504999999999987e-04,  5.0000000000537900e-09, -4.3368086899420178e-22],
           [ 1.6041920000000001e+00, -1.4454999999999774e-04,  4.9999999999437427e-09,  4.3368086899420178e-22],
           [ 1.5969770000000001e+00, -1.4405000000000003e-04,  4.8979591836702252e-09,  2.0408163263702442e-12],
           [ 1.5897870000000001e+00, -1.4354489795918531e-04,  4.9959183673586566e-09, -1.9591836737361050e-12],
           [ 1.5826220000000000e+00, -1.4306000000000258e-04,  4.5999999999954495e-09,  4.0000000006050825e-12],
           [ 1.5754809999999999e+00, -1.4256999999999849e-04,  5.2941176471090488e-09, -5.8823529420050719e-12],
           [ 1.5683650000000000e+00, -1.4208470588235249e-04,  4.4775969961651950e-09,  8.3304130169079703e-12],
           [ 1.5612729999999999e+00, -1.4157446808510916e-04,  5.4885273258875994e-09, -7.9833124742205790e-12],
           [ 1.5542069999999999e+00, -1.4108549019607706e-04,  4.2279411764802692e-09,  5.6372549019209279e-12],
           [ 1.5471640000000000e+00, -1.4062041666666457e-04,  5.2083333333045709e-09,  0.0000000000000000e+00],
           [ 1.5401460000000000e+00, -1.4009958333333419e-04,  4.9833333333243385e-09, -3.8333333330286761e-12],
           [ 1.5331530000000000e+00, -1.3962999999999950e-04,  4.4083333333694950e-09,  3.8333333330286761e-12],
           [ 1.5261830000000001e+00, -1.3916041666666478e-04,  5.2083333332796339e-09,  4.7704895589362198e-22],
           [ 1.5192380000000001e+00, -1.3863958333333316e-04,  4.9833333333406009e-09, -3.8333333338309847e-12],
           [ 1.5123180000000001e+00, -1.3817000000000289e-04,  4.1999999999848150e-09,  8.0000000002343828e-12],
           [ 1.5054209999999999e+00, -1.3769000000000265e-04,  5.4000000000720139e-09, -8.0000000002994344e-12],
           [ 1.4985489999999999e+00, -1.3720999999999772e-04,  4.1999999999896937e-09,  8.0000000002343828e-12],
           [ 1.4917000000000000e+00, -1.3672999999999705e-04,  5.3061224489399373e-09, -6.1224489795227302e-12],
           [ 1.4848760000000001e+00, -1.3624530612244939e-04,  4.3143725575136474e-09,  3.8349978290002851e-12],
           [ 1.4780750000000000e+00, -1.3578510638298036e-04,  5.0042553191830811e-09, -2.0425531917743490e-12],
           [ 1.4712980000000000e+00, -1.3530000000000044e-04,  4.6978723404169289e-09,  2.0425531917743490e-12],
           [ 1.4645450000000000e+00, -1.3481489361702050e-04,  4.7957446808758126e-09, -1.9574468091993620e-12],
           [ 1.4578160000000000e+00, -1.3435000000000191e-04,  4.5021276595132559e-09,  1.9574468096764110e-12],
           [ 1.4511099999999999e+00, -1.3388510638297796e-04,  4.9021276596870633e-09, -1.3877787807814457e-21],
           [ 1.4444280000000000e+00, -1.3339489361701974e-04,  4.7957446807267348e-09, -1.9574468070526417e-12],
           [ 1.4377700000000000e+00, -1.3293000000000002e-04,  4.4000000001056001e-09,  3.9999999983282582e-12],
           [ 1.4311350000000000e+00, -1.3246000000000210e-04,  4.9021276594599228e-09, -2.0425531895408927e-12],
           [ 1.4245239999999999e+00, -1.3198510638297750e-04,  4.5021276597290119e-09, -2.1250362580715886e-21],
           [ 1.4179360000000001e+00, -1.3153489361702043e-04,  4.4890780140089801e-09,  4.1758865267603477e-12],
           [ 1.4113709999999999e+00, -1.3105466666666883e-04,  4.9866666667941527e-09, -5.8666666675902613e-12],
           [ 1.4048300000000000e+00, -1.3059999999999648e-04,  4.1066666666257980e-09,  5.8666666665277421e-12],
           [ 1.3983110000000001e+00, -1.3014533333333483e-04,  5.2133333332807968e-09, -6.1333333328155231e-12],
           [ 1.3918159999999999e+00, -1.2967000000000276e-04,  4.2933333334218938e-09,  6.1333333323818430e-12],
           [ 1.3853439999999999e+00, -1.2919466666666757e-04,  4.8930496453469242e-09, -3.9943262399901043e-12],
           [ 1.3788959999999999e+00, -1.2873531914893272e-04,  4.1149881797538937e-09,  3.8278959794664853e-12],
           [ 1.3724700000000001e+00, -1.2829511111111147e-04,  4.7022222220507485e-09,  2.3201926491189797e-21],
           [ 1.3660669999999999e+00, -1.2782488888888905e-04,  4.6891725769958750e-09, -3.8278959829359320e-12],
           [ 1.3596870000000001e+00, -1.2738468085106148e-04,  4.1872340424332262e-09,  6.1276595752146262e-12],
           [ 1.3533290000000000e+00, -1.2692000000000389e-04,  5.1063829787777616e-09, -6.1276595744990528e-12],
           [ 1.3469949999999999e+00, -1.2645531914893485e-04,  4.0127659574958494e-09,  5.8723404250393689e-12],
           [ 1.3406830000000001e+00, -1.2600999999999747e-04,  4.7999999999145729e-09, -3.9999999992173037e-12],
           [ 1.3343940000000001e+00, -1.2556000000000012e-04,  4.3022222222683381e-09,  1.9555555545117816e-12],
           [ 1.3281270000000001e+00, -1.2511511111111450e-04,  4.7022222221645893e-09,  1.3877787807814457e-21],
           [ 1.3218829999999999e+00, -1.2464488888888755e-04,  4.4977777778929888e-09, -1.3227266504323155e-21],
           [ 1.3156620000000001e+00, -1.2419511111110820e-04,  4.3022222220948659e-09,  8.4567769453869351e-22],
           [ 1.3094630000000000e+00, -1.2376488888889232e-04,  4.3955555555921180e-09,  2.0444444442718408e-12],
           [ 1.3032859999999999e+00, -1.2331000000000093e-04,  4.7022222222805989e-09, -2.0444444451825711e-12],
           [ 1.2971320000000000e+00, -1.2285511111111174e-04,  4.2044444443887924e-09,  1.9555555567235539e-12],
           [ 1.2909999999999999e+00, -1.2241999999999752e-04,  4.4000000000820188e-09, -1.3227266504323155e-21],
           [ 1.2848900000000001e+00, -1.2197999999999933e-04,  4.3999999998613832e-09,  1.7672495411513724e-21],
           [ 1.2788020000000000e+00, -1.2153999999999999e-04,  4.4977777779165700e-09, -1.9555555575692318e-12],
           [ 1.2727360000000001e+00, -1.2110488888889013e-04,  4.2885788112317157e-09,  4.1839793301409050e-12],
           [ 1.2666919999999999e+00, -1.2064465116279093e-04,  4.6927131784401741e-09, -3.9937984510989532e-12],
           [ 1.2606710000000001e+00, -1.2020533333333009e-04,  3.9156589146154217e-09,  3.8201550396762747e-12],
           [ 1.2546710000000001e+00, -1.1978511627907095e-04,  4.6046511628354701e-09, -2.0465116286404013e-12],
           [ 1.2486930000000001e+00, -1.1934000000000222e-04,  4.2976744185814224e-09,  2.0465116286729271e-12],
           [ 1.2427370000000000e+00, -1.1889488372092901e-04,  4.3953488372672057e-09, -1.9534883728103587e-12],
           [ 1.2368030000000001e+00, -1.1846999999999836e-04,  4.1023255813277630e-09,  1.9534883723333097e-12],
           [ 1.2308900000000000e+00, -1.1804511627907311e-04,  4.5023255814034503e-09,  4.5536491244391183e-22],
           [ 1.2249989999999999e+00, -1.1759488372092937e-04,  4.3953488372878058e-09, -1.9534883732223556e-12],
           [ 1.2191300000000000e+00, -1.1716999999999976e-04,  3.9999999998924899e-09,  4.0000000014507600e-12],
           [ 1.2132820000000000e+00, -1.1673999999999963e-04,  4.5023255814928967e-09, -2.0465116291066081e-12],
           [ 1.2074560000000001e+00, -1.1630511627906863e-04,  4.1023255813055367e-09,  8.5651971626354859e-22],
           [ 1.2016510000000000e+00, -1.1589488372093166e-04,  4.1953488372637860e-09,  2.0465116272959905e-12],
           [ 1.1958670000000000e+00, -1.1546000000000055e-04,  4.5023255813793264e-09, -2.0465116277296710e-12],
           [ 1.1901050000000000e+00, -1.1502511627907056e-04,  4.1023255814123307e-09,  1.0842021724855045e-23],
           [ 1.1843640000000000e+00, -1.1461488372092926e-04,  4.0880317640336966e-09,  4.1928530914478285e-12],
           [ 1.1786440000000000e+00, -1.1417463414634001e-04,  4.5853658536541590e-09, -5.8536585369173808e-12],
           [ 1.1729460000000000e+00, -1.1376000000000153e-04,  3.5999999999412156e-09,  8.0000000011993229e-12],
           [ 1.1672680000000000e+00, -1.1333999999999834e-04,  4.8000000001100009e-09, -8.0000000019257377e-12],
           [ 1.1616120000000001e+00, -1.1292000000000181e-04,  3.5999999998327953e-09,  8.0000000024895227e-12],
           [ 1.1559759999999999e+00, -1.1249999999999982e-04,  4.7069767443818733e-09, -6.1395348859862556e-12],
           [ 1.1503620000000001e+00, -1.1207534883720660e-04,  3.7163925126022987e-09,  3.8116846297884565e-12],
           [ 1.1447680000000000e+00, -1.1167512195122290e-04,  4.4048780488653402e-09, -2.0487804885558835e-12],
           [ 1.1391950000000000e+00, -1.1125000000000052e-04,  4.0975609756041834e-09,  2.0487804881113607e-12],
           [ 1.1336430000000000e+00, -1.1082487804877930e-04,  4.1951219512275142e-09, -1.9512195124611956e-12],
           [ 1.1281120000000000e+00, -1.1041999999999996e-04,  3.9024390243586063e-09,  1.9512195124611956e-12],
           [ 1.1226010000000000e+00, -1.1001512195122064e-04,  4.3024390244147771e-09,  0.0000000000000000e+00],
           [ 1.1171110000000000e+00, -1.0958487804877917e-04,  4.0975609756269516e-09, -4.4452289071905686e-22],
           [ 1.1116420000000000e+00, -1.0917512195121980e-04,  3.9024390243390907e-09,  8.4567769453869351e-22],
           [ 1.1061930000000000e+00, -1.0878487804877958e-04,  4.0975609756727592e-09, -8.8904578143811371e-22],
           [ 1.1007640000000001e+00, -1.0837512195121888e-04,  4.1948780486969636e-09,  2.1512195129630777e-12],
           [ 1.0953560000000000e+00, -1.0793950000000190e-04,  4.1800000000525335e-09, -3.8000000005477236e-12],
           [ 1.0899690000000000e+00, -1.0755000000000070e-04,  3.5076923076939525e-09,  5.8461538460924391e-12],
           [ 1.0846009999999999e+00, -1.0715538461538566e-04,  4.5178236397609379e-09, -4.2026266408763666e-12],
           [ 1.0792539999999999e+00, -1.0673512195121618e-04,  3.8048780488436958e-09,  1.9512195107156300e-12],
           [ 1.0739270000000001e+00, -1.0634000000000144e-04,  4.0975609754757057e-09, -1.9512195103144753e-12],
           [ 1.0686199999999999e+00, -1.0594487804878124e-04,  3.8874296436991427e-09,  4.2026266399656375e-12],
           [ 1.0633330000000001e+00, -1.0552461538461166e-04,  4.2919324576520705e-09, -3.9924953083164681e-12],
           [ 1.0580670000000001e+00, -1.0512536585365884e-04,  3.5171982489483723e-09,  3.8023764845507988e-12],
           [ 1.0528200000000001e+00, -1.0474512820512984e-04,  4.2051282050930989e-09, -2.0512820506643840e-12],
           [ 1.0475930000000000e+00, -1.0434000000000054e-04,  4.0000000000694859e-09, -8.7820375971325873e-22],
           [ 1.0423860000000000e+00, -1.0394000000000012e-04,  3.8974358973562895e-09,  2.0512820524966856e-12],
           [ 1.0371990000000000e+00, -1.0353487179487074e-04,  3.9948717949590340e-09, -1.9487179502659590e-12],
           [ 1.0320320000000001e+00, -1.0315000000000180e-04,  3.7025641024383851e-09,  1.9487179507321657e-12],
           [ 1.0268839999999999e+00, -1.0276512820512747e-04,  4.1025641027466330e-09, -2.3310346708438343e-21],
           [ 1.0217560000000001e+00, -1.0235487179487035e-04,  3.9948717947020786e-09, -1.9487179468073537e-12],
           [ 1.0166480000000000e+00, -1.0197000000000117e-04,  3.6000000001220062e-09,  3.9999999988269908e-12],
           [ 1.0115590000000001e+00, -1.0157999999999772e-04,  4.1323155215502460e-09, -2.6463104318323956e-12],
           [ 1.0064900000000001e+00, -1.0118661577608147e-04,  3.6646310432722811e-09,  1.3536895671463836e-12],
           [ 1.0014400000000001e+00, -1.0081000000000062e-04,  3.9301291989516926e-09, -2.0258397922514812e-13],
           [ 9.9640930000000005e-01, -1.0041850645994963e-04,  3.9301291989855739e-09, -2.2768245622195592e-22],
           [ 9.9139820000000001e-01, -1.0002549354005278e-04,  3.8298708010384893e-09,  0.0000000000000000e+00],
           [ 9.8640649999999996e-01, -9.9642506459948936e-05,  3.7703367269166943e-09,  7.9584944129643121e-13],
           [ 9.8143389999999997e-01, -9.9259503916447584e-05,  3.8700783289987795e-09, -4.4452289071905686e-22],
           [ 9.7648060000000003e-01, -9.8872496083551067e-05,  3.8099216709671034e-09,  6.6136332521615775e-22],
           [ 9.7154649999999998e-01, -9.8491503916449370e-05,  3.7500775023485696e-09,  8.0001653317415476e-13],
           [ 9.6663140000000003e-01, -9.8110496042215706e-05,  3.8299204287622946e-09, -3.9999168904370291e-13],
           [ 9.6173540000000002e-01, -9.7730503937007386e-05,  3.7401574803561360e-09,  5.9842519608286143e-13],
           [ 9.5685830000000005e-01, -9.7352000000001097e-05,  3.8100263851723458e-09, -2.0052770369769284e-13],
           [ 9.5200019999999996e-01, -9.6972501319261663e-05,  3.7399463875324139e-09,  6.0159995455329884e-13],
           [ 9.4716100000000003e-01, -9.6593994680849244e-05,  3.7698668095976614e-09, -1.9946385224935136e-13],
           [ 9.4234070000000003e-01, -9.6218503978781389e-05,  3.6900787222282130e-09,  8.0001706739309127e-13],
           [ 9.3753909999999996e-01, -9.5843495978553025e-05,  3.7699191421386317e-09, -3.9999142136502852e-13],
           [ 9.3275629999999998e-01, -9.5469503999999440e-05,  3.6801599999735487e-09,  5.9840000034110109e-13],
           [ 9.2799209999999999e-01, -9.5096999999999540e-05,  3.7400000000076588e-09,  0.0000000000000000e+00],
           [ 9.2324660000000003e-01, -9.4722999999998788e-05,  3.6999999999953736e-09, -2.1684043449710089e-22],
           [ 9.1851970000000005e-01, -9.4353000000000890e-05,  3.6597826086670942e-09,  8.0434782656017144e-13],
           [ 9.1381129999999999e-01, -9.3980989130434980e-05,  3.7197814336587846e-09, -3.9997649891590148e-13],
           [ 9.0912150000000003e-01, -9.3612010810810957e-05,  3.6104596803430262e-09,  5.9513071712456043e-13],
           [ 9.0444999999999998e-01, -9.3246501362398288e-05,  3.6900272480018558e-09, -4.4452289071905686e-22],
           [ 8.9979690000000001e-01, -9.2877498637601450e-05,  3.6498633122720853e-09,  4.0218879520173559e-13],
           [ 8.9516220000000002e-01, -9.2509495890410188e-05,  3.6398356164531989e-09, -1.9835616471824277e-13],
           [ 8.9054580000000005e-01, -9.2147000000000200e-05,  3.5799999999696318e-09,  8.0000000025112073e-13],
           [ 8.8594750000000000e-01, -9.1783000000001395e-05,  3.6801098901386472e-09, -4.0219780242812395e-13],
           [ 8.8136749999999997e-01, -9.1418005494505836e-05,  3.5802197802229274e-09,  3.9780219781215473e-13],
           [ 8.7680559999999996e-01, -9.1056999999999952e-05,  3.5998888888813551e-09,  4.0222222245575591e-13],
           [ 8.7226179999999998e-01, -9.0693994444443371e-05,  3.5998888889030393e-09, -4.3368086899420178e-22],
           [ 8.6773610000000001e-01, -9.0334005555556374e-05,  3.5501943670322939e-09,  1.9833488140675801e-13],
           [ 8.6322829999999995e-01, -8.9977498607242607e-05,  3.5698602561323126e-09,  4.0223777490223930e-13],
           [ 8.5873840000000001e-01, -8.9617495798317555e-05,  3.5899159663504249e-09,  2.2768245622195592e-22],
           [ 8.5426650000000004e-01, -8.9258504201680805e-05,  3.5201680672174444e-09,  1.9831932783270434e-13],
           [ 8.4981240000000002e-01, -8.8905000000000247e-05,  3.5200000000242524e-09,  3.9999999956177518e-13],
           [ 8.4537600000000002e-01, -8.8550000000001136e-05,  3.5700281689895967e-09, -2.0056337973880722e-13],
           [ 8.4095739999999997e-01, -8.8194501408450217e-05,  3.4999427017104369e-09,  6.0170934645421831e-13],
           [ 8.3655650000000004e-01, -8.7839994318180862e-05,  3.5298577130606774e-09, -1.9942698911527832e-13],
           [ 8.3217330000000000e-01, -8.7488504249293186e-05,  3.4601699716929679e-09,  5.9830028318816339e-13],
           [ 8.2780759999999998e-01, -8.7137999999999937e-05,  3.5200000000125974e-09,  0.0000000000000000e+00],
           [ 8.2345950000000001e-01, -8.6785999999998691e-05,  3.4700286532786352e-09,  1.9942693421128032e-13],
           [ 8.1912890000000005e-01, -8.6437501432664270e-05,  3.4500284881407768e-09,  4.0000330275716605e-13],
           [ 8.1481570000000003e-01, -8.6089498559079514e-05,  3.4799423631013152e-09, -1.9942363079904906e-13],
           [ 8.1051989999999996e-01, -8.5743000000000348e-05,  3.4299130435269580e-09,  6.0173912989989334e-13],
           [ 8.0624140000000000e-01, -8.5395495652173430e-05,  3.4799416938482508e-09, -2.0057300773599144e-13],
           [ 8.0198029999999998e-01, -8.5049005780346625e-05,  3.4002312139031408e-09,  3.9768786084344241e-13],
           [ 7.9773640000000001e-01, -8.4705999999999958e-05,  3.4299708454526384e-09,  2.0058309071861735e-13],
           [ 7.9350969999999998e-01, -8.4361498542274358e-05,  3.4199416909825731e-09,  2.0058309027409448e-13],
           [ 7.8930020000000001e-01, -8.4017999999999032e-05,  3.3900293255049486e-09,  1.9941348962729255e-13],
           [ 7.8510780000000002e-01, -8.3677501466276292e-05,  3.3800586510121998e-09,  1.9941348985497502e-13],
           [ 7.8093239999999997e-01, -8.3338000000001132e-05,  3.3899705014994404e-09,  2.0058997039339860e-13],
           [ 7.7677399999999996e-01, -8.2997498525073143e-05,  3.3899705014782985e-09,  0.0000000000000000e+00],
           [ 7.7263260000000000e-01, -8.2658501474925340e-05,  3.3500293234399978e-09,  4.0000350153479234e-13],
           [ 7.6850810000000003e-01, -8.2320498516319816e-05,  3.3699703264118590e-09, -2.1684043449710089e-22],
           [ 7.6440050000000004e-01, -8.1983501483680297e-05,  3.3199395866866123e-09,  6.0180173789160107e-13],
           [ 7.6030969999999998e-01, -8.1646994011977422e-05,  3.3597604790717301e-09, -3.9760479064992334e-13],
           [ 7.5623569999999996e-01, -8.1314000000000109e-05,  3.2799999999944528e-09,  8.0000000025112073e-13],
           [ 7.5217829999999997e-01, -8.0979999999998821e-05,  3.3801197604874276e-09, -4.0239520980719580e-13],
           [ 7.4813770000000002e-01, -8.0645005988023700e-05,  3.2702093094436797e-09,  5.9820902038355829e-13],
           [ 7.4411369999999999e-01, -8.0313498489426456e-05,  3.2999395770675267e-09,  2.0060422927827003e-13],
           [ 7.4010629999999999e-01, -7.9982000000000116e-05,  3.2899093655477766e-09, -1.9818731107189986e-13],
           [ 7.3611539999999998e-01, -7.9654495468278351e-05,  3.2496658259288787e-09,  8.0487079282248046e-13],
           [ 7.3214089999999998e-01, -7.9323492354739267e-05,  3.3299677458346889e-09, -4.0241302065764649e-13],
           [ 7.2818300000000002e-01, -7.8993513677810731e-05,  3.2105165314097853e-09,  3.9514049618048429e-13],
           [ 7.2424140000000004e-01, -7.8669498470948398e-05,  3.2498465302272459e-09,  4.0245777464765697e-13],
           [ 7.2031610000000001e-01, -7.8341495384615776e-05,  3.2799380840075212e-09, -2.0060783378428664e-13],
           [ 7.1640720000000002e-01, -7.8015006134968392e-05,  3.1902144390300383e-09,  5.9816520699314264e-13],
           [ 7.1251450000000005e-01, -7.7691498452012967e-05,  3.2399380804669712e-09, -1.9938080462892153e-13],
           [ 7.0863799999999999e-01, -7.7369000000001014e-05,  3.1899065420861492e-09,  6.0186915878685657e-13],
           [ 7.0477760000000000e-01, -7.7045495327101457e-05,  3.2499059633681634e-09, -3.9998842649505150e-13],
           [ 7.0093340000000004e-01, -7.6723504643963353e-05,  3.1500917145897483e-09,  8.0002329307712204e-13],
           [ 6.9710519999999998e-01, -7.6402495297806341e-05,  3.2199369122737810e-09, -2.0061912281172518e-13],
           [ 6.9329310000000000e-01, -7.6082006250000091e-05,  3.1402499999682104e-09,  3.9750000044996845e-13],
           [ 6.8949689999999997e-01, -7.5764999999999868e-05,  3.1699684542886294e-09,  2.0063091449697495e-13],
           [ 6.8571660000000001e-01, -7.5446498422712251e-05,  3.1799369084863039e-09, -1.9936908483711784e-13],
           [ 6.8195220000000001e-01, -7.5129999999999926e-05,  3.1197452229417821e-09,  8.0509554119994124e-13],
           [ 6.7820360000000002e-01, -7.4811987261146721e-05,  3.1896481745636228e-09, -5.9805903286332463e-13],
           [ 6.7447089999999998e-01, -7.4497507886436753e-05,  3.0603154574116452e-09,  9.9684542623473137e-13],
           [ 6.7075379999999996e-01, -7.4183999999998800e-05,  3.1801273885702667e-09, -4.0254777114749275e-13],
           [ 6.6705250000000005e-01, -7.3869006369425394e-05,  3.0702226226682752e-09,  5.9809531667565081e-13],
           [ 6.6336680000000003e-01, -7.3557498392283458e-05,  3.1199356913526822e-09, -1.9935691374615984e-13],
           [ 6.5969670000000002e-01, -7.3247000000001286e-05,  3.0699029125928041e-09,  6.0194174814976253e-13],
           [ 6.5604209999999996e-01, -7.2935495145630882e-05,  3.1299022883161012e-09, -3.9998751355345417e-13],
           [ 6.5240310000000001e-01, -7.2625504823150923e-05,  3.0300952061246171e-09,  8.0002513740259564e-13],
           [ 6.4877949999999995e-01, -7.2316495114007969e-05,  3.0999344304246987e-09, -2.0064300532444609e-13],
           [ 6.4517139999999995e-01, -7.2008006493505460e-05,  3.0202597402692317e-09,  3.9740259719046534e-13],
           [ 6.4157860000000000e-01, -7.1702999999999635e-05,  3.0599999999663232e-09,  4.3368086899420178e-22],
           [ 6.3800109999999999e-01, -7.1396999999999710e-05,  3.0499672131411532e-09,  2.0065573738160815e-13],
           [ 6.3443890000000003e-01, -7.1090498360655246e-05,  3.0298354163101733e-09,  4.0263593573596976e-13],
           [ 6.3089200000000001e-01, -7.0784495049506195e-05,  3.0198019801956245e-09, -1.9801980165193647e-13],
           [ 6.2736029999999998e-01, -7.0483999999999009e-05,  2.9700996678096844e-09,  5.9800664397582563e-13],
           [ 6.2384360000000005e-01, -7.0182504983388181e-05,  3.0500996677225815e-09,  4.5536491244391183e-22],
           [ 6.2034210000000001e-01, -6.9877495016612548e-05,  2.9998006644831758e-09, -1.9800664464173295e-13],
           [ 6.1685570000000001e-01, -6.9578999999999071e-05,  2.9298316498330776e-09,  1.0033670032848219e-12],
           [ 6.1338420000000005e-01, -6.9278491582491154e-05,  3.0399299663058763e-09, -6.0196632986446451e-13],
           [ 6.0992780000000002e-01, -6.8979013333334550e-05,  2.9105670033778542e-09,  5.9399326590194036e-13],
           [ 6.0648619999999998e-01, -6.8683501683502473e-05,  2.9799322049395565e-09,  2.0202930215264609e-13],
           [ 6.0305949999999997e-01, -6.8383993243242345e-05,  2.9698307398435796e-09, -1.9931749965784730e-13],
           [ 5.9964770000000001e-01, -6.8088505050505380e-05,  2.9002020201636890e-09,  5.9797979854456574e-13],
           [ 5.9625059999999996e-01, -6.7793999999999914e-05,  2.9600000000520269e-09, -6.6136332521615775e-22],
           [ 5.9286830000000001e-01, -6.7497999999999739e-05,  2.9199999999511085e-09,  6.6136332521615775e-22],
           [ 5.8950069999999999e-01, -6.7205999999999654e-05,  2.8898969072605439e-09,  6.0206185513401665e-13],
           [ 5.8614770000000005e-01, -6.6912494845360108e-05,  2.9399308006862361e-09, -2.0067786980770830e-13],
           [ 5.8280940000000003e-01, -6.6620006849315083e-05,  2.8602739726406726e-09,  3.9726027332076184e-13],
           [ 5.7948560000000005e-01, -6.6331000000001137e-05,  2.8899653978787229e-09,  2.0069204231419267e-13],
           [ 5.7617629999999997e-01, -6.6040498269895909e-05,  2.8999307959191824e-09, -1.9930795947019700e-13],
           [ 5.7288150000000004e-01, -6.5752000000000030e-05,  2.8397202796347416e-09,  8.0559440674300007e-13],
           [ 5.6960109999999997e-01, -6.5461986013986024e-05,  2.9096135698993108e-09, -5.9786580303448568e-13],
           [ 5.6633520000000004e-01, -6.5175508650518879e-05,  2.7803460206978500e-09,  9.9653979294912417e-13],
           [ 5.6308349999999996e-01, -6.4890000000001908e-05,  2.9101045296626603e-09, -6.0209059247638354e-13],
           [ 5.5984619999999996e-01, -6.4603505226479215e-05,  2.7901030521751023e-09,  8.0002954880439496e-13],
           [ 5.5662310000000004e-01, -6.4318494699645699e-05,  2.8698932489783270e-09, -3.9998512138062287e-13],
           [ 5.5341430000000003e-01, -6.4034505263158221e-05,  2.7701037647791336e-09,  8.0002996774011451e-13],
           [ 5.5021960000000003e-01, -6.3751494661922229e-05,  2.8498924839126465e-09, -3.9998490959257050e-13],
           [ 5.4703910000000000e-01, -6.3469505300352977e-05,  2.7501044872930438e-09,  8.0003039564218595e-13],
           [ 5.4387260000000004e-01, -6.3188494623656356e-05,  2.8397849461851222e-09, -5.9784946161408130e-13],
           [ 5.4072019999999998e-01, -6.2908999999999882e-05,  2.7298194946358138e-09,  1.0036101077796899e-12],
           [ 5.3758170000000005e-01, -6.2628490974727980e-05,  2.8399247034140781e-09, -6.0210417730192229e-13],
           [ 5.3445730000000002e-01, -6.2349014285716377e-05,  2.7005714285714643e-09,  7.9428571452249546e-13],
           [ 5.3134669999999995e-01, -6.2073000000000271e-05,  2.8000000000478816e-09, -4.0000000046166307e-13],
           [ 5.2825000000000000e-01, -6.1795999999998973e-05,  2.7197080291533583e-09,  8.0583941652803010e-13],
           [ 5.2516710000000000e-01, -6.1517985401459704e-05,  2.7895965638282882e-09, -5.9777069259152667e-13],
           [ 5.2209810000000001e-01, -6.1243509025271311e-05,  2.6603610108066217e-09,  9.9638989205664425e-13],
           [ 5.1904269999999997e-01, -6.0970000000000184e-05,  2.7801459854364643e-09, -4.0291970848085547e-13],
           [ 5.1600109999999999e-01, -6.0695007299270137e-05,  2.6802919707695778e-09,  3.9708029242078657e-13],
           [ 5.1297309999999996e-01, -6.0424000000000030e-05,  2.7099630996701822e-09,  2.0073800683219174e-13],
           [ 5.0995869999999999e-01, -6.0151498154981804e-05,  2.7099630995922551e-09,  6.7220534694101273e-22],
           [ 5.0695789999999996e-01, -5.9880501845017557e-05,  2.6800738007814799e-09,  1.9926199207364118e-13],
           [ 5.0397060000000005e-01, -5.9610999999998864e-05,  2.6798507462181077e-09,  4.0298507497020349e-13],
           [ 5.0099680000000002e-01, -5.9339992537314777e-05,  2.6898130167172097e-09, -1.9924540865389092e-13],
           [ 4.9803649999999999e-01, -5.9072505576207926e-05,  2.6202230483467456e-09,  5.9776951641106302e-13],
           [ 4.9508950000000002e-01, -5.8806000000000135e-05,  2.6900374531553400e-09, -2.0074906334163236e-13],
           [ 4.9215589999999998e-01, -5.8538501872659670e-05,  2.6400749063926274e-09,  1.9925093611714364e-13],
           [ 4.8923559999999999e-01, -5.8272999999999522e-05,  2.6398484848358852e-09,  4.0303030315229708e-13],
           [ 4.8632860000000000e-01, -5.8005992424242318e-05,  2.6498101772480110e-09, -1.9923384802838717e-13],
           [ 4.8343490000000000e-01, -5.7742505660377723e-05,  2.5701114725565246e-09,  8.0003469987602162e-13],
           [ 4.8055429999999999e-01, -5.7479494252873027e-05,  2.6597701149632173e-09, -5.9770114977167334e-13],
           [ 4.7768690000000003e-01, -5.7217999999999986e-05,  2.5599999999680727e-09,  8.0000000035954086e-13],
           [ 4.7483249999999999e-01, -5.6956000000000510e-05,  2.6501149425546978e-09, -2.0229885080470802e-13],
           [ 4.7199130000000000e-01, -5.6692505747126028e-05,  2.5602298850478224e-09,  1.9770114942927258e-13],
           [ 4.6916310000000000e-01, -5.6435000000000513e-05,  2.5599999999957200e-09,  4.0000000012013931e-13],
           [ 4.6634779999999998e-01, -5.6176000000000006e-05,  2.6100386100525504e-09, -2.0077220088819853e-13],
           [ 4.6354550000000000e-01, -5.5916501930501419e-05,  2.5399209700674583e-09,  6.0235279923659404e-13],
           [ 4.6075610000000000e-01, -5.5657992187500378e-05,  2.5796874999966059e-09, -3.9687499989952276e-13],
           [ 4.5797959999999999e-01, -5.5402999999999984e-05,  2.5000000000110384e-09,  7.9999999990959702e-13],
           [ 4.5521580000000000e-01, -5.5146999999999552e-05,  2.6001562499913885e-09, -4.0312500001007426e-13],
           [ 4.5246490000000000e-01, -5.4890007812500502e-05,  2.4902729743082624e-09,  5.9766551384603930e-13],
           [ 4.4972669999999998e-01, -5.4636498023715837e-05,  2.5399209486231591e-09, -1.9920948606520254e-13],
           [ 4.4700119999999999e-01, -5.4383999999998997e-05,  2.4898804780987110e-09,  6.0239043792216501e-13],
           [ 4.4428830000000002e-01, -5.4130494023904696e-05,  2.5399196862961918e-09, -2.0078416438154555e-13],
           [ 4.4158809999999998e-01, -5.3878007936507911e-05,  2.4702776197284164e-09,  1.9762220892388141e-13],
           [ 4.3890040000000002e-01, -5.3629498007968174e-05,  2.4897998367464182e-09,  4.0320645198848280e-13],
           [ 4.3622519999999998e-01, -5.3377493975903626e-05,  2.5199190361944307e-09, -2.0079036212026536e-13],
           [ 4.3356260000000002e-01, -5.3127008000000051e-05,  2.4403199999543339e-09,  3.9680000056118574e-13],
           [ 4.3091239999999997e-01, -5.2880000000000422e-05,  2.4699595142130717e-09,  2.0080971615903633e-13],
           [ 4.2827460000000001e-01, -5.2631497975707895e-05,  2.4699595141412430e-09,  3.3068166260807887e-22],
           [ 4.2564920000000001e-01, -5.2384502024291277e-05,  2.4400809716744713e-09,  1.9919028318589851e-13],
           [ 4.2303610000000003e-01, -5.2138999999999936e-05,  2.4398360655547547e-09,  4.0327868876342132e-13],
           [ 4.2043530000000001e-01, -5.1891991803278728e-05,  2.4596721311676289e-09, -3.9672131181296006e-13],
           [ 4.1784680000000002e-01, -5.1649000000000549e-05,  2.3697925310994536e-09,  1.0041493779598503e-12],
           [ 4.1527039999999998e-01, -5.1404489626555918e-05,  2.4897891439008835e-09, -7.9993225530951977e-13],
           [ 4.1270630000000003e-01, -5.1161510204080678e-05,  2.3404081632448015e-09,  9.9591836736018585e-13],
           [ 4.1015420000000002e-01, -5.0920000000000976e-05,  2.4601652892494102e-09, -4.0330578491101255e-13],
           [ 4.0761429999999998e-01, -5.0677008264462881e-05,  2.3603305785407760e-09,  3.9669421455948253e-13],
           [ 4.0508640000000001e-01, -5.0437999999999594e-05,  2.3899581589702093e-09,  2.0083682031346063e-13],
           [ 4.0257050000000000e-01, -5.0197497907950236e-05,  2.3899581590088341e-09, -1.1384122811097796e-22],
           [ 4.0006659999999999e-01, -4.9958502092050172e-05,  2.3600836820038155e-09,  1.9916318003436115e-13],
           [ 3.9757460000000000e-01, -4.9720999999999513e-05,  2.3699578059143646e-09,  2.0084388164089489e-13],
           [ 3.9509450000000002e-01, -4.9482497890295797e-05,  2.3599156117932886e-09,  2.0084388219925900e-13],
           [ 3.9262629999999998e-01, -4.9244999999999973e-05,  2.3400000000281702e-09, -3.2526065174565134e-22],
           [ 3.9016990000000001e-01, -4.9010999999999636e-05,  2.3199999999781176e-09,  4.0000000012013931e-13],
           [ 3.8772519999999999e-01, -4.8776000000000937e-05,  2.3600000000066655e-09,  1.1384122811097796e-22],
           [ 3.8529229999999998e-01, -4.8539999999999403e-05,  2.3200000000163358e-09, -2.1684043449710089e-22],
           [ 3.8287110000000002e-01, -4.8307999999999409e-05,  2.2898701298417327e-09,  6.0259740283612201e-13],
           [ 3.8046150000000001e-01, -4.8074493506493965e-05,  2.3498690151173676e-09, -3.9997770481976783e-13],
           [ 3.7806360000000000e-01, -4.7842506437768424e-05,  2.2602575107337333e-09,  5.9742489260782714e-13],
           [ 3.7567719999999999e-01, -4.7612000000000492e-05,  2.3199999999945161e-09,  2.2226144535952843e-22],
           [ 3.7330239999999998e-01, -4.7379999999999360e-05,  2.2800000000154348e-09, -2.2226144535952843e-22],
           [ 3.7093910000000002e-01, -4.7151999999999477e-05,  2.2599999999763596e-09,  4.0000000012013931e-13],
           [ 3.6858720000000000e-01, -4.6923000000000940e-05,  4.5009257510128227e-09, -4.4018515020044456e-11],
           [ 3.6624679999999998e-01, -4.6803046287549977e-05,  5.1123245604047579e-08, -9.3324639706071848e-10],
           [ 3.6391780000000001e-01, -4.8690069705100622e-05, -1.7313223951024083e-07,  9.0672936561244959e-10],
           [ 3.5822419999999999e-01, -5.6114636638775292e-05, -3.0698912975164312e-09,  3.7662576852681069e-11],
           [ 3.5261969999999998e-01, -5.5598737592698153e-05,  4.2523777949042327e-09,  6.4998132078702725e-13],
           [ 3.4710299999999999e-01, -5.4728762594093683e-05,  4.1703224701090151e-09,  6.7303470827241449e-13],
           [ 3.4167249999999999e-01, -5.3874507058823694e-05,  4.1124392016057256e-09,  7.2631386630690659e-13],
           [ 3.3632689999999998e-01, -5.3030229802513355e-05,  4.0673007197676645e-09,  5.4997305367476963e-13],
           [ 3.3106510000000000e-01, -5.2200270466949565e-05,  3.9677935267611166e-09,  7.4911142733825182e-13],
           [ 3.2588549999999999e-01, -5.1384238418777181e-05,  3.9348498291751510e-09,  5.7534358595975981e-13],
           [ 3.2078699999999999e-01, -5.0580008145363338e-05,  3.8576995081605295e-09,  6.2381945473784149e-13],
           [ 3.1576820000000000e-01, -4.9789753660089090e-05,  3.8024518425573763e-09,  6.5084758332561650e-13],
           [ 3.1082789999999999e-01, -4.9009737864077819e-05,  3.7523803938327125e-09,  5.4998246945293101e-13],
           [ 3.0596499999999999e-01, -4.8242762311227722e-05,  3.6752462245569192e-09,  6.2376887722013583e-13],
           [ 3.0117810000000000e-01, -4.7488999999999728e-05,  3.6299185888741575e-09,  6.0081411123633863e-13],
           [ 2.9646610000000001e-01, -4.6744991858887786e-05,  3.5749198223715259e-09,  5.4998766502428050e-13],
           [ 2.9182789999999997e-01, -4.6013508264462705e-05,  3.5077020282424289e-09,  5.7380616389700018e-13],
           [ 2.8726220000000002e-01, -4.5294753673897343e-05,  3.4574507021487295e-09,  6.0086036823955771e-13],
           [ 2.8276790000000002e-01, -4.4585237722420397e-05,  3.4149131785584102e-09,  4.7464045641954289e-13],
           [ 2.7834399999999998e-01, -4.3888015873016128e-05,  3.3402440388825996e-09,  5.9914691279459127e-13],
           [ 2.7398919999999999e-01, -4.3201992657855784e-05,  3.3098531571200157e-09,  5.0073421440478090e-13],
           [ 2.6970260000000001e-01, -4.2524999999999645e-05,  3.2449999999989163e-09,  5.4999999998833110e-13],
           [ 2.6548310000000003e-01, -4.1859500000000218e-05,  3.1950769230743954e-09,  4.9923076924453034e-13],
           [ 2.6132960000000000e-01, -4.1205507692307969e-05,  3.1426167077686791e-09,  5.2460215311205121e-13],
           [ 2.5724100000000000e-01, -4.0561246286160865e-05,  3.1049257232203724e-09,  4.7537138389222451e-13],
           [ 2.5321640000000001e-01, -3.9925999999999990e-05,  3.0499999999982853e-09,  5.0000000000651737e-13],
           [ 2.4925480000000000e-01, -3.9301000000000131e-05,  3.0000000000016316e-09,  4.9999999999432019e-13],
           [ 2.4535520000000000e-01, -3.8685999999999995e-05,  2.9550748752075981e-09,  4.4925124792678276e-13],
           [ 2.4151660000000000e-01, -3.8081507487520686e-05,  2.9025290899588231e-09,  5.2545785248842498e-13],
           [ 2.3773800000000000e-01, -3.7485237933954302e-05,  2.8723809966807333e-09,  3.9998342861034993e-13],
           [ 2.3401859999999999e-01, -3.6898762231759825e-05,  2.8077075172909315e-09,  4.9914800306672144e-13],
           [ 2.3035729999999999e-01, -3.6322246288209637e-05,  2.7799257641922697e-09,  4.2537117904498929e-13],
           [ 2.2675329999999999e-01, -3.5753499999999833e-05,  2.7325382538252864e-09,  4.2461746174564128e-13],
           [ 2.2320570000000001e-01, -3.5194253825382393e-05,  2.6849940900672114e-09,  4.7544163756923233e-13],
           [ 2.1971360000000001e-01, -3.4642991758241867e-05,  2.6524535492355095e-09,  3.7464033182416527e-13],
           [ 2.1627620000000000e-01, -3.4101261838440040e-05,  2.5926161443958986e-09,  5.0002240005437137e-13],
           [ 2.1289250000000001e-01, -3.3567737937559195e-05,  2.5749120078845971e-09,  3.2467367705343823e-13],
           [ 2.0956179999999999e-01, -3.3043015325670666e-05,  2.5126967573152884e-09,  4.7456499391816930e-13],
           [ 2.0628310000000000e-01, -3.2526239024390063e-05,  2.4947804878045603e-09,  3.7609756097217034e-13],
           [ 2.0305580000000001e-01, -3.2015999999999986e-05,  2.4426130653246903e-09,  3.7386934674581369e-13],
           [ 1.9987900000000000e-01, -3.1516261306532708e-05,  2.4001545560127403e-09,  4.2458509314727973e-13],
           [ 1.9675180000000000e-01, -3.1023492842535761e-05,  2.3773127177969373e-09,  3.7615707560362042e-13],
           [ 1.9367360000000000e-01, -3.0536745586708265e-05,  2.3325302800023401e-09,  3.4925587079793088e-13],
           [ 1.9064360000000000e-01, -3.0059761854583853e-05,  2.2877022578061131e-09,  3.9916288031998402e-13],
           [ 1.8766089999999999e-01, -2.9590246516613048e-05,  2.2648431862934076e-09,  3.7621979837710160e-13],
           [ 1.8472490000000000e-01, -2.9125991285403066e-05,  2.2299802334455561e-09,  2.9932620584759024e-13],
           [ 1.8183489999999999e-01, -2.8671015452538538e-05,  2.1776993769841716e-09,  4.2455148402850936e-13],
           [ 1.7899000000000001e-01, -2.8222739032620848e-05,  2.1673234118225721e-09,  3.0066914385272073e-13],
           [ 1.7618970000000000e-01, -2.7780254275940739e-05,  2.1176231781439830e-09,  3.4919581263966879e-13],
           [ 1.7343320000000001e-01, -2.7346253765932769e-05,  2.0849927714849972e-09,  3.7544887842270872e-13],
           [ 1.7071980000000000e-01, -2.6917991745283098e-05,  2.0624513931157787e-09,  2.7466059714751780e-13],
           [ 1.6804890000000000e-01, -2.6497261648745504e-05,  2.0151599822100564e-09,  3.7456505245199256e-13],
           [ 1.6541970000000000e-01, -2.6082992700729939e-05,  1.9998540145978017e-09,  3.0072992700884404e-13],
           [ 1.6283170000000000e-01, -2.5674000000000114e-05,  1.9575407779179715e-09,  3.2459222082292426e-13],
           [ 1.6028419999999999e-01, -2.5272754077791815e-05,  1.9276165876814085e-09,  2.9924190236596842e-13],
           [ 1.5777649999999999e-01, -2.4878253503184564e-05,  1.8999923434882962e-09,  3.2542688358920854e-13],
           [ 1.5530800000000000e-01, -2.4488492227979235e-05,  1.8773872665478526e-09,  2.7535013243551628e-13],
           [ 1.5287819999999999e-01, -2.4104754270696613e-05,  1.8376221295512747e-09,  2.9920577414885122e-13],
           [ 1.5048639999999999e-01, -2.3728253671561893e-05,  1.8099919095031789e-09,  3.2544806117878413e-13],
           [ 1.4813200000000001e-01, -2.3356491847825893e-05,  1.7899196011479495e-09,  2.4998877111041599e-13],
           [ 1.4581450000000001e-01, -2.2991008264463004e-05,  1.7476267198308192e-09,  3.2455924797836322e-13],
           [ 1.4353320000000000e-01, -2.2631746143057493e-05,  1.7324619792181079e-09,  2.4999451358247923e-13],
           [ 1.4128760000000001e-01, -2.2277753911806421e-05,  1.7000782361284800e-09,  2.7460881935295504e-13],
           [ 1.3907710000000001e-01, -2.1929500000000126e-05,  1.6774596182088532e-09,  2.7540381791564997e-13],
           [ 1.3690120000000000e-01, -2.1585745961820883e-05,  1.6499192364179659e-09,  2.7540381790887369e-13],
           [ 1.3475940000000000e-01, -2.1247500000000020e-05,  1.6200757575752226e-09,  2.4924242424318638e-13],
           [ 1.3265109999999999e-01, -2.0916007575757703e-05,  1.5926168464304353e-09,  2.7458911146176584e-13],
           [ 1.3057569999999999e-01, -2.0589246533127780e-05,  1.5799306625595224e-09,  2.2534668719665633e-13],
           [ 1.2853280000000000e-01, -2.0266499999999983e-05,  1.5474562798062529e-09,  2.7543720192626664e-13],
           [ 1.2652189999999999e-01, -1.9948745627980951e-05,  1.5249932047825587e-09,  2.2463075027793892e-13],
           [ 1.2454250000000000e-01, -1.9637008064516118e-05,  1.4926243445076244e-09,  2.7456300652974766e-13],
           [ 1.2259399999999999e-01, -1.9330246305418697e-05,  1.4799261083764125e-09,  2.2536945811686974e-13],
           [ 1.2067600000000001e-01, -1.9027499999999916e-05,  1.4525380710640422e-09,  2.2461928935024594e-13],
           [ 1.1878800000000000e-01, -1.8730253807106603e-05,  1.4300761421328125e-09,  2.2461928933330527e-13],
           [ 1.1692950000000001e-01, -1.8437500000000052e-05,  1.4099125874118543e-09,  2.5087412587802382e-13],
           [ 1.1510010000000000e-01, -1.8147991258741347e-05,  1.3899138273085320e-09,  1.9998760104677573e-13],
           [ 1.1329939999999999e-01, -1.7864008865248230e-05,  1.3577088364958616e-09,  2.2379815986517395e-13],
           [ 1.1152680000000000e-01, -1.7585753153153103e-05,  1.3424392098521239e-09,  2.5092321679463121e-13],
           [ 1.0978190000000000e-01, -1.7309737614678822e-05,  1.3323775254884644e-09,  1.4998621300090053e-13],
           [ 1.0806440000000000e-01, -1.7038762523191099e-05,  1.2901747062460887e-09,  2.7450525664536466e-13],
           [ 1.0637370000000000e-01, -1.6772492424242510e-05,  1.2873916710288785e-09,  1.7532571395807415e-13],
           [ 1.0470950000000000e-01, -1.6509754318617999e-05,  1.2566080266735209e-09,  2.0935159507248476e-13],
           [ 1.0307130000000000e-01, -1.6252152165431130e-05,  1.2410131738070130e-09,  2.0508480503636801e-13],
           [ 1.0145870000000000e-01, -1.5997796986518620e-05,  1.2254479798716255e-09,  1.8521885315289795e-13],
           [ 9.9871360000000006e-02, -1.5747150824949708e-05,  1.2015244744519978e-09,  1.9983775044162531e-13],
           [ 9.8308859999999998e-02, -1.5500850797546043e-05,  1.1835236368382208e-09,  1.8984338622817279e-13],
           [ 9.6770800000000004e-02, -1.5258450768591553e-05,  1.1649993245336912e-09,  1.9508361381698170e-13],
           [ 9.5256800000000003e-02, -1.5019598395270306e-05,  1.1484916945183627e-09,  1.7492258184731869e-13],
           [ 9.3766500000000003e-02, -1.4784652378911220e-05,  1.1272859743904774e-09,  1.9237814722078558e-13],
           [ 9.2299500000000007e-02, -1.4553423839616493e-05,  1.1129847569303533e-09,  1.7253639233778437e-13],
           [ 9.0855459999999999e-02, -1.4325650796460282e-05,  9.7821513634001346e-10,  1.3329282826230312e-12],
           [ 8.9434009999999994e-02, -1.4090019920713580e-05,  2.8235577837992850e-09, -1.8443585766633142e-11],
           [ 8.8034799999999996e-02, -1.4078615936952708e-05, -2.8440849846104461e-09,  1.9322443541376873e-11],
           [ 8.6617819999999998e-02, -1.4067759627633488e-05,  1.4749382675758130e-09, -1.5134199124078616e-12],
           [ 8.5224279999999999e-02, -1.3818174571490565e-05,  1.1137541697186874e-09,  1.8991545186755815e-13],
           [ 8.3853789999999997e-02, -1.3589726273990802e-05,  1.0932625110293779e-09,  2.0000228878341193e-13],
           [ 8.2505949999999995e-02, -1.3365073703121424e-05,  1.0767454616545650e-09,  1.7991569560702665e-13],
           [ 8.1180390000000005e-02, -1.3144327139922297e-05,  1.0557800747654904e-09,  1.9491324457323104e-13],
           [ 7.9876710000000004e-02, -1.2927323727632000e-05,  1.0407374867269880e-09,  1.7499789592005957e-13],
           [ 7.8594559999999994e-02, -1.2713926293408994e-05,  1.0210258681796544e-09,  1.8237065910459811e-13],
           [ 7.7333559999999996e-02, -1.2504249999999925e-05,  1.0049999999997642e-09,  1.7499999999767321e-13],
           [ 7.6093359999999999e-02, -1.2298000000000034e-05,  9.8749999999926852e-10,  1.7500000000512710e-13],
           [ 7.4873609999999993e-02, -1.2095250000000028e-05,  9.7076271186550005e-10,  1.6737288135106769e-13],
           [ 7.3673959999999997e-02, -1.1896076271186391e-05,  9.5377124097390575e-10,  1.6991470890205138e-13],
           [ 7.2494059999999999e-02, -1.1700224581724543e-05,  9.3899163449176165e-10,  1.6254182753947609e-13],
           [ 7.1333590000000002e-02, -1.1507549999999998e-05,  9.2225432756282343e-10,  1.6245672436896658e-13],
           [ 7.0192220000000000e-02, -1.1318225432756366e-05,  9.0651705165978937e-10,  1.5737275903745532e-13],
           [ 6.9069619999999998e-02, -1.1132200839653286e-05,  8.9126259080685166e-10,  1.5745805726237310e-13],
           [ 6.7965470000000000e-02, -1.0949224579774056e-05,  8.7724586838572845e-10,  1.4999929354469655e-13],
           [ 6.6879469999999996e-02, -1.0769275427290572e-05,  8.6125419736603462e-10,  1.5500075539855239e-13],
           [ 6.5811309999999998e-02, -1.0592374565155415e-05,  8.4750811470175277e-10,  1.4237536852197742e-13],
           [ 6.4760689999999996e-02, -1.0418601681159407e-05,  8.3177100884844337e-10,  1.5245802746103255e-13],
           [ 6.3727300000000001e-02, -1.0247673738565887e-05,  8.2023758990917812e-10,  1.3499795749825070e-13],
           [ 6.2710870000000002e-02, -1.0079576281859104e-05,  8.0427144127027310e-10,  1.4491377320367326e-13],
           [ 6.1711099999999998e-02, -9.9143745804089374e-06,  7.9199160817886904e-10,  1.3754195910599963e-13],
           [ 6.0727719999999999e-02, -9.7518499999999836e-06,  7.7826254338868311e-10,  1.3237456611205914e-13],
           [ 5.9760450000000000e-02, -9.5922262543388801e-06,  7.6426231774527553e-10,  1.4000225643746379e-13],
           [ 5.8809010000000002e-02, -9.4351737230967011e-06,  7.5349143321279608e-10,  1.2245797753853893e-13],
           [ 5.7873149999999998e-02, -9.2808016971279857e-06,  7.3852563691129141e-10,  1.3491334368476346e-13],
           [ 5.6952589999999997e-02, -9.1290491694351845e-06,  7.2798338870448400e-10,  1.2508305647694163e-13],
           [ 5.6047090000000001e-02, -8.9796999999999811e-06,  7.1501648351608589e-10,  1.1983516483610896e-13],
           [ 5.5156390000000000e-02, -8.8331016483516807e-06,  7.0201618381613247e-10,  1.3000299700614035e-13],
           [ 5.4280229999999999e-02, -8.6887983216782751e-06,  6.9272948862912313e-10,  1.1253728154064357e-13],
           [ 5.3418390000000003e-02, -8.5468763055062294e-06,  6.7878017589860193e-10,  1.1982879163078717e-13],
           [ 5.2570609999999997e-02, -8.4075254065775905e-06,  6.6824516722623648e-10,  1.2008898549648083e-13],
           [ 5.1736659999999997e-02, -8.2702737035674437e-06,  6.5799126118524337e-10,  1.0745774489582486e-13],
           [ 5.0916320000000001e-02, -8.1354517189835118e-06,  6.4478029066351266e-10,  1.1736899171738841e-13],
           [ 5.0109340000000002e-02, -8.0029745910992927e-06,  6.3599182198539770e-10,  1.0754089007310500e-13],
           [ 4.9315510000000000e-02, -7.8725500000000234e-06,  6.2475422729102068e-10,  1.0745772709119231e-13],
           [ 4.8534609999999999e-02, -7.7443754227290869e-06,  6.1400845458104592e-10,  1.0745772709627452e-13],
           [ 4.7766419999999997e-02, -7.6183499999999870e-06,  6.0400000000035877e-10,  1.0499999999870558e-13],
           [ 4.7010730000000001e-02, -7.4943999999999532e-06,  5.9400827129819178e-10,  9.9917287015232419e-14],
           [ 4.6267330000000002e-02, -7.3726008271298595e-06,  5.8350812508869465e-10,  1.0500146209852884e-13],
           [ 4.5536010000000002e-02, -7.2527491582491664e-06,  5.7499171930311895e-10,  9.4998631885297396e-14],
           [ 4.4816580000000002e-02, -7.1349008554319820e-06,  5.6401710863998658e-10,  9.9914456798295965e-14],
           [ 4.4108830000000002e-02, -7.0191000000000350e-06,  5.5549999999973571e-10,  9.5000000002071775e-14],
           [ 4.3412569999999998e-02, -6.9051500000000257e-06,  5.4600000000054498e-10,  9.4999999998683649e-14],
           [ 4.2727609999999999e-02, -6.7930999999999545e-06,  5.3700823421748857e-10,  8.9917657823873123e-14],
           [ 4.2053760000000003e-02, -6.6830008234217414e-06,  5.2725354342353570e-10,  9.7546907939613152e-14],
           [ 4.1390830000000003e-02, -6.5746237074988434e-06,  5.2024483555599905e-10,  7.9922394322316790e-14],
           [ 4.0738650000000001e-02, -6.4681770685579783e-06,  5.0902499350899990e-10,  9.7456920703776736e-14],
           [ 4.0097019999999997e-02, -6.3634483622350667e-06,  5.0373008088776572e-10,  7.7535414632347830e-14],
           [ 3.9465790000000001e-02, -6.2603762836185397e-06,  4.9277156585045901e-10,  8.9912703349610094e-14],
           [ 3.8844770000000001e-02, -6.1591245893479639e-06,  4.8599178695857084e-10,  8.2541065208292864e-14],
           [ 3.8233799999999998e-02, -6.0594500000000009e-06,  4.7725424601183635e-10,  8.2457539883134218e-14],
           [ 3.7632710000000000e-02, -5.9615254246011388e-06,  4.6926254749050802e-10,  7.9916985206338038e-14],
           [ 3.7041329999999997e-02, -5.8652754055468470e-06,  4.6175398640286172e-10,  8.0000690657626903e-14],
           [ 3.6459499999999999e-02, -5.7705245875465459e-06,  4.5449175093100567e-10,  7.7541245345931764e-14],
           [ 3.5887070000000000e-02, -5.6772999999999710e-06,  4.4650825082528534e-10,  7.4917491746090269e-14],
           [ 3.5323880000000002e-02, -5.5857508250825304e-06,  4.3876244457069489e-10,  7.7458062542431664e-14],
           [ 3.4769769999999998e-02, -5.4956745942921143e-06,  4.3249188584301103e-10,  7.2540570783789386e-14],
           [ 3.4224600000000001e-02, -5.4070000000000001e-06,  4.2449999999933839e-10,  7.5000000003891403e-14],
           [ 3.3688219999999998e-02, -5.3198500000000216e-06,  4.1776190476249770e-10,  6.7380952378486430e-14],
           [ 3.3160479999999999e-02, -5.2342761904761700e-06,  4.1000704305638414e-10,  7.7548617054189959e-14],
           [ 3.2641230000000000e-02, -5.1499483233532658e-06,  4.0548347800167477e-10,  5.9997555311596298e-14],
           [ 3.2130350000000002e-02, -5.0670517010935846e-06,  3.9602597731624291e-10,  7.4910336192339305e-14],
           [ 3.1627679999999998e-02, -4.9855991955445659e-06,  3.9173815350652973e-10,  6.2538019393136570e-14],
           [ 3.1133100000000000e-02, -4.9053754242614607e-06,  3.8375416661077981e-10,  7.0000760036379608e-14],
           [ 3.0646469999999999e-02, -4.8265245681382108e-06,  3.7825354600017120e-10,  5.9921353819546636e-14],
           [ 3.0167659999999999e-02, -4.7490762183235860e-06,  3.7101642996359624e-10,  6.7457532722454190e-14],
           [ 2.9696529999999999e-02, -4.6728492063491931e-06,  3.6673832443226877e-10,  5.7537390598386618e-14],
           [ 2.9232970000000000e-02, -4.5977754197447903e-06,  3.5925412285180124e-10,  6.5000745960205734e-14],
           [ 2.8776850000000000e-02, -4.5239745727956247e-06,  3.5399978924615486e-10,  5.7459387101678723e-14],
           [ 2.8328050000000000e-02, -4.4514508333333434e-06,  3.4726260306214937e-10,  6.2457302710815816e-14],
           [ 2.7886439999999998e-02, -4.3801245936395890e-06,  3.4249187279184859e-10,  5.7540636041546438e-14],
           [ 2.7451910000000000e-02, -4.3098999999999746e-06,  3.3650802919699309e-10,  5.4919708028928732e-14],
           [ 2.7024340000000001e-02, -4.2409508029197107e-06,  3.3050788603137797e-10,  6.0001431656235462e-14],
           [ 2.6603610000000000e-02, -4.1730491827637506e-06,  3.2649195090104994e-10,  4.9998767365069317e-14],
           [ 2.6189620000000000e-02, -4.1062508295625893e-06,  3.1950814271110214e-10,  6.0001529147355991e-14],
           [ 2.5782250000000000e-02, -4.0405491551459508e-06,  3.1549168326173001e-10,  4.9998681976524944e-14],
           [ 2.5381399999999998e-02, -3.9759508580343099e-06,  3.0901716068678144e-10,  5.4914196565620159e-14],
           [ 2.4986950000000001e-02, -3.9124999999999850e-06,  3.0499999999958458e-10,  5.0000000002311919e-14],
           [ 2.4598800000000001e-02, -3.8499999999999987e-06,  2.9974569319138828e-10,  5.2543068087087567e-14],
           [ 2.4216850000000002e-02, -3.7884745693191101e-06,  2.9499971971540749e-10,  4.7459734756419705e-14],
           [ 2.3841000000000001e-02, -3.7280508333333365e-06,  2.8951666666675346e-10,  4.9916666666403425e-14],
           [ 2.3471140000000001e-02, -3.6686499999999920e-06,  2.8549137931029888e-10,  5.0086206896223435e-14],
           [ 2.3107180000000001e-02, -3.6100491379310455e-06,  2.8099151518809995e-10,  4.4998641221947236e-14],
           [ 2.2749030000000000e-02, -3.5525008756567650e-06,  2.7527129764069242e-10,  4.7374589268906494e-14],
           [ 2.2396579999999999e-02, -3.4960253784505593e-06,  2.7149941683786749e-10,  4.7543676679656277e-14],
           [ 2.2049740000000002e-02, -3.4402991847825953e-06,  2.6748369565180308e-10,  4.5081521740564284e-14],
           [ 2.1708430000000001e-02, -3.3854500000000173e-06,  2.6251495327120297e-10,  3.9850467289536432e-14],
           [ 2.1372550000000001e-02, -3.3317514953270914e-06,  2.5725964915413683e-10,  5.2553041168882645e-14],
           [ 2.1042000000000002e-02, -3.2787229742611976e-06,  2.5597685974117731e-10,  3.2528828707308166e-14],
           [ 2.0716720000000001e-02, -3.2265517374517442e-06,  2.4852687501916542e-10,  4.9904994982598294e-14],
           [ 2.0396600000000001e-02, -3.1753492125984323e-06,  2.4673849772263504e-10,  3.7536282616059104e-14],
           [ 2.0081570000000000e-02, -3.1248754245754239e-06,  2.4150849150870146e-10,  4.2457542455993786e-14],
           [ 1.9771540000000001e-02, -3.0753000000000030e-06,  2.3799999999971721e-10,  4.0000000002459403e-14],
           [ 1.9466430000000000e-02, -3.0264999999999887e-06,  2.3425393494259139e-10,  3.7460650574773107e-14],
           [ 1.9166160000000002e-02, -2.9785253934942302e-06,  2.2999932287562392e-10,  4.2546120664465616e-14],
           [ 1.8870649999999999e-02, -2.9312491452991710e-06,  2.2724509449895707e-10,  3.2463584926860874e-14],
           [ 1.8579829999999999e-02, -2.8848262188515734e-06,  2.2176194609213429e-10,  4.5002424235752883e-14],
           [ 1.8293609999999998e-02, -2.8391237569060735e-06,  2.2023773610591016e-10,  2.9998329548856919e-14],
           [ 1.8011929999999999e-02, -2.7941762597984266e-06,  2.1477149015335677e-10,  3.9911078309252558e-14],
           [ 1.7734699999999999e-02, -2.7500246294184773e-06,  2.1273824306228702e-10,  3.5080511224984679e-14],
           [ 1.7461859999999999e-02, -2.7064245654692703e-06,  2.0899954468021411e-10,  3.2461100127165090e-14],
           [ 1.7193340000000001e-02, -2.6636508235294143e-06,  2.0450807730244062e-10,  4.0001579914909455e-14],
           [ 1.6929059999999999e-02, -2.6215491606714801e-06,  2.0274506033123749e-10,  2.7465463836509333e-14],
           [ 1.6668960000000000e-02, -2.5801761846901395e-06,  1.9776161201868314e-10,  4.0002348827786754e-14],
           [ 1.6412960000000001e-02, -2.5394237918215684e-06,  1.9648463040086607e-10,  2.7532878147354291e-14],
           [ 1.6161010000000000e-02, -2.4993008793969733e-06,  1.9177110007284420e-10,  3.2376938970541244e-14],
           [ 1.5913030000000002e-02, -2.4599753512132882e-06,  1.8898879509854755e-10,  3.7647170340910513e-14],
           [ 1.5668959999999999e-02, -2.4210481770833526e-06,  1.8748722587757699e-10,  1.9945449560103525e-14],
           [ 1.5428750000000000e-02, -2.3829523684210346e-06,  1.8102310966083003e-10,  4.5005745495900070e-14],
           [ 1.5192310000000001e-02, -2.3453975741239903e-06,  1.8222359132319247e-10,  1.7521499166519477e-14],
           [ 1.4959610000000000e-02, -2.3084272108843571e-06,  1.7553727324275568e-10,  3.7348356008410310e-14],
           [ 1.4730560000000000e-02, -2.2721993055555532e-06,  1.7548611111105827e-10,  2.5069444444315892e-14],
           [ 1.4505120000000000e-02, -2.2363500000000112e-06,  1.7149999999997795e-10,  3.0000000000743408e-14],
           [ 1.4283229999999999e-02, -2.2011499999999942e-06,  1.6875400291132761e-10,  2.7459970887392803e-14],
           [ 1.4064830000000000e-02, -2.1665754002911081e-06,  1.6575393174818677e-10,  3.0000711628867187e-14],
           [ 1.3849860000000000e-02, -2.1325245925926048e-06,  1.6374598719022907e-10,  2.4999387357132993e-14],
           [ 1.3638269999999999e-02, -2.0990254135338458e-06,  1.9787793892330451e-10, -3.4623803584850526e-13],
           [ 1.3429999999999999e-02, -2.0698369668246392e-06,  5.5718399389613651e-10, -3.5881432564960319e-12],
           [ 1.3225000000000001e-02, -2.0660444657402933e-06, -5.0415434426100830e-10,  1.6418833648122915e-12],
           [ 1.2804760000000000e-02, -2.0706801996672203e-06,  2.3250091168118847e-10, -1.3424956672552686e-13],
           [ 1.2398849999999999e-02, -1.9937897830018069e-06,  1.5976822821495249e-10,  3.2153433970489106e-14],
           [ 1.2006740000000000e-02, -1.9260240796393672e-06,  1.5450014218805915e-10,  2.9351280043850442e-14],
           [ 1.1627950000000000e-02, -1.8607018691588828e-06,  1.4839823888062574e-10,  2.9305534568910354e-14],
           [ 1.1261980000000000e-02, -1.7978259094583630e-06,  1.4325909458368683e-10,  2.8102263540759011e-14],
           [ 1.0908370000000001e-02, -1.7371499999999964e-06,  1.3823972692087233e-10,  2.6301365395507048e-14],
           [ 1.0566680000000000e-02, -1.6786979453841881e-06,  1.3300535870686635e-10,  2.6171841070262743e-14],
           [ 1.0236469999999999e-02, -1.6223551809730106e-06,  1.2855591518539242e-10,  2.4474948398406720e-14],
           [ 9.9173370000000000e-03, -1.5679958210910451e-06,  1.2381094069785039e-10,  2.3965823786769422e-14],
           [ 9.6088819999999991e-03, -1.5155955459574930e-06,  1.1945953525167292e-10,  2.2840972678978635e-14],
           [ 9.3107239999999994e-03, -1.4650708151353456e-06,  1.1517290818926227e-10,  2.2155837437498205e-14],
           [ 9.0224940000000007e-03, -1.4163429513671419e-06,  1.1115767552364909e-10,  2.1160406560288210e-14],
           [ 8.7438410000000005e-03, -1.3693406323704492e-06,  1.0718402420919159e-10,  2.0470688215160798e-14],
           [ 8.4744239999999995e-03, -1.3240105401009543e-06,  1.0343353436616115e-10,  1.9595830693092869e-14],
           [ 8.2139159999999999e-03, -1.2802856266713179e-06,  9.9783056516676369e-11,  1.8975384199490884e-14],
           [ 7.9620019999999993e-03, -1.2380953579607093e-06,  9.6325237010483094e-11,  1.8132763965380639e-14],
           [ 7.7183809999999999e-03, -1.1973893314806697e-06,  9.2908039725786355e-11,  1.7568088387791924e-14],
           [ 7.4827599999999998e-03, -1.1581179449838199e-06,  8.9687703242186348e-11,  1.6885108384577499e-14],
           [ 7.2548589999999998e-03, -1.1202166506807969e-06,  8.6569164903864521e-11,  1.6195442500605085e-14],
           [ 7.0344079999999998e-03, -1.0836455316191785e-06,  8.3531644868172918e-11,  1.5730066138642907e-14],
           [ 6.8211460000000002e-03, -1.0483452657352720e-06,  8.0686773859022387e-11,  1.4947774086670458e-14],
           [ 6.6148240000000001e-03, -1.0142768233012622e-06,  7.7838081919011151e-11,  1.4605172936480426e-14],
           [ 6.4151989999999999e-03, -9.8138896978128005e-07,  7.5210433424771542e-11,  1.3922077408178745e-14],
           [ 6.2220410000000002e-03, -9.4963414712238998e-07,  7.2581157842994818e-11,  1.3447888844706804e-14],
           [ 6.0351249999999997e-03, -9.1898793732382682e-07,  7.0086715445252464e-11,  1.3014855869472245e-14],
           [ 5.8542350000000002e-03, -8.8939146844138969e-07,  6.7716436147839029e-11,  1.2454530295515083e-14],
           [ 5.6791649999999999e-03, -8.6081035034679227e-07,  6.5374205981490077e-11,  1.2012728762333951e-14],
           [ 5.5097139999999998e-03, -8.3321914050271627e-07,  6.3142272685441089e-11,  1.1642149140702897e-14],
           [ 5.3456889999999998e-03, -8.0656517353165507e-07,  6.1028472387213990e-11,  1.1111976355308742e-14],
           [ 5.1869059999999998e-03, -7.8082034741413274e-07,  5.8910806793359970e-11,  1.0829651386527449e-14],
           [ 5.0331849999999999e-03, -7.5595646653040504e-07,  5.6941389441955363e-11,  1.0329716050311154e-14],
           [ 4.8843539999999996e-03, -7.3194034482758555e-07,  5.4991807890424572e-11,  1.0049581237569742e-14],
           [ 4.7402460000000000e-03, -7.0873767192290735e-07,  5.3171971353706821e-11,  9.5819413041304720e-15],
           [ 4.6007019999999999e-03, -6.8631905042492865e-07,  5.1353860453858752e-11,  9.3319583539544751e-15],
           [ 4.4655670000000001e-03, -6.6465767124091093e-07,  4.9646535809982721e-11,  8.9591019728080399e-15],
           [ 4.3346929999999997e-03, -6.4372396468018120e-07,  4.7972385719307573e-11,  8.6121884080004896e-15],
           [ 4.2079359999999998e-03, -6.2350154778349779e-07,  4.6353403491336443e-11,  8.3966771307697227e-15],
           [ 4.0851569999999999e-03, -6.0395258513127074e-07,  4.4846089247919856e-11,  7.9591820421802527e-15],
           [ 3.9662240000000000e-03, -5.8505904758704085e-07,  4.3309859651183526e-11,  7.8018914201119654e-15],
           [ 3.8510070000000000e-03, -5.6679887675615401e-07,  4.1902116482418957e-11,  7.4613364917759654e-15],
           [ 3.7393830000000002e-03, -5.4914266978417341e-07,  4.0502959002431314e-11,  7.1769495921364208e-15],
           [ 3.6312319999999999e-03, -5.3208025223214452e-07,  3.9146483060471511e-11,  7.0238905012501116e-15],
           [ 3.5264379999999998e-03, -5.1557879214780611e-07,  3.7889186998591751e-11,  6.6488687021957073e-15],
           [ 3.4248909999999998e-03, -4.9962525310410614e-07,  3.6603362453651914e-11,  6.4895153344128846e-15],
           [ 3.3264820000000000e-03, -4.8420516628251562e-07,  3.5427079917420047e-11,  6.2437574757820641e-15],
           [ 3.2311079999999999e-03, -4.6928508341845380e-07,  3.4270214575327790e-11,  6.0260125847316664e-15],
           [ 3.1386700000000001e-03, -4.5485387607815505e-07,  3.3133551500377935e-11,  5.8041444519717086e-15],
           [ 3.0490710000000000e-03, -4.4090395814376711e-07,  3.2033539653375250e-11,  5.6812553273124649e-15],
           [ 2.9622170000000001e-03, -4.2740879164313967e-07,  3.1033104065066334e-11,  5.3042707531386097e-15],
           [ 2.8780189999999999e-03, -4.1435903752673661e-07,  2.9971002907671695e-11,  5.3709236300498555e-15],
           [ 2.7963889999999998e-03, -4.0172612552806205e-07,  2.9075417100325061e-11,  4.9010526999480604e-15],
           [ 2.7172460000000000e-03, -3.8950783236393837e-07,  2.8040823639374561e-11,  4.9916909015791002e-15],
           [ 2.6405059999999999e-03, -3.7769249999999911e-07,  2.7213321127394516e-11,  4.6208943630370617e-15],
           [ 2.5660930000000002e-03, -3.6625266422547675e-07,  2.6289142254758516e-11,  4.6208943631032361e-15],
           [ 2.4939310000000000e-03, -3.5518250000000095e-07,  2.5476226303327856e-11,  4.3063684833800221e-15],
           [ 2.4239480000000000e-03, -3.4447524526066426e-07,  2.4614952606629086e-11,  4.3063684834461965e-15],
           [ 2.3560719999999999e-03, -3.3411249999999929e-07,  2.3875411184220457e-11,  4.0604440789076511e-15],
           [ 2.2902370000000001e-03, -3.2407508223684203e-07,  2.3082685113505502e-11,  3.9636303534940361e-15],
           [ 2.2263769999999999e-03, -3.1436637254902039e-07,  2.2345578042194825e-11,  3.8064235145409376e-15],
           [ 2.1644279999999999e-03, -3.0497137051039739e-07,  2.1638705103959518e-11,  3.7157372401240772e-15],
           [ 2.1043289999999998e-03, -2.9586999999999859e-07,  2.0975806451625845e-11,  3.4959677418805102e-15],
           [ 2.0460220000000002e-03, -2.8706016129032248e-07,  2.0270160089869939e-11,  3.5282318086736517e-15],
           [ 1.9894489999999999e-03, -2.7852870943733356e-07,  1.9669352437857267e-11,  3.2459737440708345e-15],
           [ 1.9345560000000000e-03, -2.7027145161290231e-07,  1.9002016129026100e-11,  3.2762096774329426e-15],
           [ 1.8812880000000001e-03, -2.6227750000000019e-07,  1.8443952802359572e-11,  3.0927359882073248e-15],
           [ 1.8295950000000000e-03, -2.5452879056047164e-07,  1.7851200597955475e-11,  2.9637610220204799e-15],
           [ 1.7794270000000001e-03, -2.4703265899864710e-07,  1.7270141192337548e-11,  2.9657690044715242e-15],
           [ 1.7307350000000000e-03, -2.3976871024117534e-07,  1.6775395490332889e-11,  2.7157785777117259e-15],
           [ 1.6834739999999999e-03, -2.3273265861571664e-07,  1.6201185635567370e-11,  2.8105372151021632e-15],
           [ 1.6375980000000001e-03, -2.2591491989567741e-07,  1.5743945403182650e-11,  2.5282703760175472e-15],
           [ 1.5930650000000001e-03, -2.1931394928928224e-07,  1.5201992892818127e-11,  2.5887677679565446e-15],
           [ 1.5498310000000000e-03, -2.1292250000000015e-07,  1.4775000000000871e-11,  2.4375000000037568e-15],
           [ 1.5078570000000000e-03, -2.0671999999999927e-07,  2.2616765949267856e-11, -3.9208829746348825e-14],
           [ 1.4671040000000001e-03, -2.0237835318985391e-07, -1.1625236217406314e-11,  1.7121001083335566e-13],
           [ 1.4275329999999999e-03, -1.8648324637681365e-07,  6.7193478619617416e-11, -1.2238623367775078e-13],
           [ 1.3919449999999999e-03, -1.7429220297029660e-07, -3.1715578186918914e-12,  3.5662863350882710e-14],
           [ 1.3572450000000000e-03, -1.7128128249566730e-07,  1.0263135975624835e-11,  1.3413825135495326e-15],
           [ 1.3234099999999999e-03, -1.6701506220379139e-07,  1.0006716262845091e-11,  1.3429737805702115e-15],
           [ 1.2904180000000000e-03, -1.6285121884498496e-07,  9.7746884498410659e-12,  1.2820288754097886e-15],
           [ 1.2582489999999999e-03, -1.5878749999999941e-07,  9.5192172524042121e-12,  1.2164137379889615e-15],
           [ 1.2268820000000001e-03, -1.5483384345047918e-07,  9.2695328654374900e-12,  1.2484219347674331e-15],
           [ 1.1962959999999999e-03, -1.5097621967213209e-07,  9.0746967213196281e-12,  1.1570081967036467e-15],
           [ 1.1664729999999999e-03, -1.4720749999999980e-07,  8.8249999999980961e-12,  1.1875000000049861e-15],
           [ 1.1373939999999999e-03, -1.4353499999999999e-07,  8.6067137809182514e-12,  1.0914310954137829e-15],
           [ 1.1090399999999999e-03, -1.3996134275618315e-07,  8.3692009823190355e-12,  1.1875639929947501e-15],
           [ 1.0813920000000000e-03, -1.3647115468409619e-07,  8.2121783416958487e-12,  9.6797539391277912e-16],
           [ 1.0544339999999999e-03, -1.3307012630014829e-07,  7.9535218537527275e-12,  1.1105482349631452e-15],
           [ 1.0281470000000001e-03, -1.2975545177045154e-07,  9.9514109599526166e-12, -9.7457605384923708e-15],
           [ 1.0025160000000000e-03, -1.2694437865108953e-07,  1.1678743791300221e-11, -8.7342526792662321e-15],
           [ 9.7752439999999993e-04, -1.2332099145608133e-07,  1.1119242110256333e-11, -7.2593183961864682e-15],
           [ 9.1773630000000004e-04, -1.1764623814296485e-07,  3.7360381749842291e-12,  1.4061676221890232e-14],
           [ 8.6160489999999995e-04, -1.0336394280156295e-07,  1.6834591145041796e-11, -9.2166110838316602e-15],
           [ 8.1297949999999998e-04, -9.3441809969394869e-08, -1.5882450126710201e-13,  5.1776888801137413e-15],
           [ 7.6686609999999998e-04, -8.9717367810576692e-08,  4.3333127046543423e-12,  4.5004583299865539e-16],
           [ 7.2314700000000005e-04, -8.5046520731173385e-08,  4.1268964639181067e-12,  4.3148999685678292e-16],
           [ 6.8170939999999999e-04, -8.0596006769612651e-08,  3.9299371558954274e-12,  4.1295276666000560e-16],
           [ 6.4244550000000001e-04, -7.6356355038722233e-08,  3.7407409990956802e-12,  3.9513815669735857e-16],
           [ 6.0525189999999999e-04, -7.2319260422103521e-08,  3.5595340362352132e-12,  3.7877361594341022e-16],
           [ 5.7002949999999995e-04, -6.8475646173910777e-08,  3.3871831407462815e-12,  3.6181841415052768e-16],
           [ 5.3668369999999995e-04, -6.4817099222551600e-08,  3.2212814497430883e-12,  3.4663399072032284e-16],
           [ 5.0512379999999996e-04, -6.1335842279768309e-08,  3.0632546850325232e-12,  3.3125974900848909e-16],
           [ 4.7526310000000000e-04, -5.8024142782979392e-08,  2.9117426124847434e-12,  3.1708590694830533e-16],
           [ 4.4701860000000002e-04, -5.4874585740283440e-08,  2.7674203837960441e-12,  3.0270219354128828e-16],
           [ 4.2031099999999998e-04, -5.1880138711331403e-08,  2.6291178146828573e-12,  2.8951921596011596e-16],
           [ 3.9506440000000001e-04, -4.9033881484678446e-08,  2.4972696697856341e-12,  2.7698659914226874e-16],
           [ 3.7120639999999998e-04, -4.6328871865536090e-08,  2.3714627869232246e-12,  2.6376188829791903e-16],
           [ 3.4866779999999999e-04, -4.3759587662389413e-08,  2.2503903692033665e-12,  2.5276991115096387e-16],
           [ 3.2738219999999999e-04, -4.1319619859822837e-08,  2.1363099711453987e-12,  2.4105949700080133e-16],
           [ 3.0728660000000003e-04, -3.9002515265926824e-08,  2.0267235072305498e-12,  2.2941404924616587e-16],
           [ 2.8832070000000003e-04, -3.6803731221761630e-08,  1.9212303673058140e-12,  2.2046415243477592e-16],
           [ 2.7042670000000001e-04, -3.4717152740129734e-08,  1.8228648245901463e-12,  2.0848131133836369e-16],
           [ 2.5354989999999998e-04, -3.2737926932035815e-08,  1.7264143132696213e-12,  2.0047910160420167e-16],
           [ 2.3763760000000000e-04, -3.0861153292563023e-08,  1.6369420033357793e-12,  1.8992916358044299e-16],
           [ 2.2264000000000000e-04, -2.9081764416541898e-08,  1.5497656296933972e-12,  1.8192640678078754e-16],
           [ 2.0850930000000000e-04, -2.7395553981762887e-08,  1.4680406302919760e-12,  1.7253466646763971e-16],
           [ 1.9520010000000001e-04, -2.5798112351620168e-08,  1.3890314464669307e-12,  1.6558651354671558e-16],
           [ 1.8266900000000000e-04, -2.4284891019993214e-08,  1.3152960009578592e-12,  1.5617207805729567e-16],
           [ 1.7087490000000001e-04, -2.2852465960492393e-08,  1.2430465638093113e-12,  1.5017071435086680e-16],
           [ 1.5977820000000000e-04, -2.1496791360919938e-08,  1.1766656035772821e-12,  1.4183423652509197e-16],
           [ 1.4934169999999999e-04, -2.0213750079948844e-08,  1.1117953151457825e-12,  1.3540968950387290e-16],
           [ 1.3952969999999999e-04, -1.9000397497675163e-08,  1.0506688674670487e-12,  1.2905225576667142e-16],
           [ 1.3030830000000001e-04, -1.7852939438383111e-08,  9.9275410134203484e-13,  1.2224955084832534e-16],
           [ 1.2164530000000000e-04, -1.6768498173904839e-08,  9.3703012500352094e-13,  1.1673244561228850e-16],
           [ 1.1350990000000000e-04, -1.5743918714692105e-08,  8.8499738358382665e-13,  1.1048009160075000e-16],
           [ 1.0587299999999999e-04, -1.4776061262407716e-08,  8.3495884158786918e-13,  1.0520736645520885e-16],
           [ 9.8706860000000006e-05, -1.3862196895978437e-08,  7.8776074172067564e-13,  9.9826100472293723e-17],
           [ 9.1985179999999993e-05, -1.2999566578903541e-08,  7.4273644784386931e-13,  9.4873419926421503e-17],
           [ 8.5682939999999995e-05, -1.2185675066114844e-08,  7.0010963536204218e-13,  9.0000993735357350e-17],
           [ 7.9776380000000003e-05, -1.1418064685451288e-08,  6.5965320708179357e-13,  8.5432327641524878e-17],
           [ 7.4242939999999996e-05, -1.0694337232638356e-08,  4.8600795401479410e-13,  3.5173302252383666e-16],
           [ 6.9061239999999998e-05, -9.9445295117306780e-09,  5.5688660490434377e-13, -1.3765516288597449e-16],
           [ 6.4210989999999998e-05, -9.4908842789908134e-09,  2.8320104191284574e-13,  2.3449503213757775e-16],
           [ 5.9565660000000002e-05, -9.0318119629747761e-09,  8.6550849506173150e-13, -2.3360913822435370e-16],
           [ 5.5236930000000002e-05, -8.3415103215813148e-09,  5.1554504134059446e-13,  7.5991203644045586e-17],
           [ 5.1204559999999998e-05, -7.7689718775076895e-09,  4.8215160680560793e-13,  7.1344296419581830e-17],
           [ 4.7449530000000002e-05, -7.2333120483874002e-09,  4.5064458717428442e-13,  6.7159019201030157e-17],
           [ 4.3953930000000002e-05, -6.7322981968123464e-09,  4.2122948698320924e-13,  6.2973813282959148e-17],
           [ 4.0700959999999999e-05, -6.2638383498669236e-09,  3.9345296640425240e-13,  5.9247466659206805e-17],
           [ 3.7674810000000001e-05, -5.8259497834682703e-09,  3.6751766881187184e-13,  5.5563796249325429e-17],
           [ 3.4860660000000000e-05, -5.4167592674694011e-09,  3.4307311065647382e-13,  5.2170848564634950e-17],
           [ 3.2244569999999997e-05, -5.0345580203894518e-09,  3.2017224968329739e-13,  4.9007582191229973e-17],
           [ 2.9813459999999999e-05, -4.6776300840627361e-09,  2.9877278410638323e-13,  4.5854768038190375e-17],
           [ 2.7555070000000001e-05, -4.3444662239277076e-09,  2.7855859259609690e-13,  4.3147710518632049e-17],
           [ 2.5457870000000000e-05, -4.0335468484426383e-09,  2.5981344028215272e-13,  4.0320513206233243e-17],
           [ 2.3511089999999999e-05, -3.7434930232558107e-09,  2.4205410675324945e-13,  3.7863879516769384e-17],
           [ 2.1704590000000002e-05, -3.4730410068649855e-09,  2.2555275858640977e-13,  3.5458510287111477e-17],
           [ 2.0028890000000000e-05, -3.2208943655632433e-09,  2.1008637017023439e-13,  3.3164721912496432e-17],
           [ 1.8475109999999999e-05, -2.9859344539586346e-09,  1.9554125588357763e-13,  3.1135304067383259e-17],
           [ 1.7034920000000000e-05, -2.7670417200245187e-09,  1.8204262693351105e-13,  2.9041626231048488e-17],
           [ 1.5700539999999999e-05, -2.5632178734177225e-09,  1.6928165689178119e-13,  2.7268179887332015e-17],
           [ 1.4464660000000000e-05, -2.3734850816104444e-09,  1.5750137654995443e-13,  2.5417573341874023e-17],
           [ 1.3320470000000000e-05, -2.1969205250540840e-09,  1.4636966968697435e-13,  2.3822760842385349e-17],
           [ 1.2261580000000000e-05, -2.0326837847353207e-09,  1.3603714873327194e-13,  2.2260841474742164e-17],
           [ 1.1282030000000000e-05, -1.8799510048959929e-09,  1.2636222043814633e-13,  2.0759578707679630e-17],
           [ 1.0376240000000000e-05, -1.7380191004270875e-09,  1.1729664696949041e-13,  1.9451107769364948e-17],
           [ 9.5389859999999997e-06, -1.6061341226305732e-09,  1.0893440498848858e-13,  1.8099680545321705e-17],
           [ 8.7654150000000002e-06, -1.4836249572330948e-09,  1.0512364552918109e-13,  8.7405378740213761e-18],
           [ 8.0509760000000007e-06, -1.3719459082983981e-09,  1.0161163319358640e-13,  8.1683668064098834e-18],
           [ 7.3914269999999998e-06, -1.2642080000000034e-09,  0.0000000000000000e+00,  0.0000000000000000e+00]])

atm_data.akima_dT = \
    np.array([[-6.4999999999997725e-03,  5.2041704279304223e-20,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997725e-03,  5.2041704279304223e-20, -4.8148248609680897e-37, -6.9388939039072251e-24],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -6.2450045135165054e-21,  8.3266726846886731e-23],
           [-6.4999999999997759e-03,  0.0000000000000000e+00,  6.2450045135165054e-21, -8.3266726846886731e-23],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-6.4999999999997707e-03,  0.0000000000000000e+00, -5.7245874707234626e-21,  7.2858385991025894e-23],
           [-6.4999999999997759e-03, -2.6020852139652108e-20,  7.3954000817958616e-21, -9.5866297356613018e-23],
           [-6.4999999999997707e-03, -5.4780741346635922e-21, -2.6272396360121357e-21,  2.6980446758479241e-23],
           [-6.4999999999997742e-03, -6.5848687047282877e-20,  7.0942276662999173e-21, -9.4728396795363518e-23],
           [-6.4999999999997716e-03, -6.6888896382517495e-20, -2.8513416668238157e-19,  3.4396039039112544e-21],
           [-6.5000000000000578e-03, -2.7832762852862745e-18,  5.6706359791311586e-20, -2.6963019221421306e-37],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.5491711287512283e-21,  1.0359487916189192e-23],
           [-6.4999999999997716e-03,  2.6380587422688769e-20, -3.2975734278360772e-23, -9.8927202835082935e-24],
           [-6.4999999999997716e-03, -5.1112388131459500e-20, -2.8550390738204926e-19,  3.4406881146041837e-21],
           [-6.5000000000000578e-03, -2.7963422668050100e-18,  5.7228999052060996e-20, -5.2263926074944353e-24],
           [-6.5000000000000552e-03,  2.8873596938448823e-18,  2.1966382515756820e-19, -3.3000187558233751e-21],
           [-6.4999999999997742e-03,  1.0360154092639264e-19, -1.7204203425742912e-21,  1.3784472192650457e-23],
           [-6.4999999999997716e-03,  3.4943048113841923e-20, -1.3977219245535860e-21,  1.3977219245534948e-23],
           [-6.4999999999997716e-03, -4.5555650607614723e-33, -6.8278716014447099e-19,  9.1038288019262807e-21],
           [-6.5000000000003406e-03, -5.7870491117396747e-33,  7.8000000000004149e-06, -1.0400000000000555e-07],
           [ 5.2041704279304213e-18, -4.5550406094357202e-33, -1.5612511283790353e-21,  1.0408340855860387e-23],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  9.9999999999994304e-08, -4.9999999999997139e-10],
           [ 4.9999999999997150e-04,  4.9999999999997158e-06,  4.9999999999997199e-08, -4.9999999999997191e-10],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  1.3010426069826052e-22, -8.6736173798840369e-25],
           [ 9.9999999999994364e-04,  0.0000000000000000e+00, -1.3010426069826052e-22,  8.6736173798840369e-25],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 9.9999999999994321e-04,  0.0000000000000000e+00,  2.8536201179827515e-20, -9.0287595792873626e-35],
           [ 1.0000000000002286e-03,  5.7072402359627925e-18,  5.3999999999982013e-07, -3.5999999999989904e-09],
           [ 2.8000000000000099e-03,  2.1684043449711796e-20, -5.4210108624292267e-23,  4.2656339002639169e-38],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  6.5052130349130260e-23, -2.1684043449710092e-25],
           [ 2.8000000000000130e-03,  0.0000000000000000e+00, -6.5052130349130260e-23,  2.1684043449710092e-25],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  6.5052130349130260e-23, -2.1684043449710092e-25],
           [ 2.8000000000000130e-03,  0.0000000000000000e+00, -6.5052130349130260e-23,  2.1684043449710092e-25],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  6.5052130349130260e-23, -2.1684043449710092e-25],
           [ 2.8000000000000130e-03,  0.0000000000000000e+00, -6.5052130349130260e-23,  2.1684043449710092e-25],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  6.5052130349130260e-23, -2.1684043449710092e-25],
           [ 2.8000000000000130e-03,  0.0000000000000000e+00, -6.5052130349130260e-23,  2.1684043449710092e-25],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  6.5052130349130260e-23, -2.1684043449710092e-25],
           [ 2.8000000000000130e-03,  0.0000000000000000e+00, -6.5052130349130260e-23,  2.1684043449710092e-25],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 2.8000000000000121e-03,  0.0000000000000000e+00,  4.3368086899420203e-23, -1.0842021724855058e-25],
           [ 2.8000000000000130e-03,  4.3368086899420126e-21,  1.3658536585365805e-08, -6.8292682926829253e-11],
           [ 2.8000000000000121e-03, -2.7317073170731826e-06, -4.2682926829268365e-08,  1.0670731707317083e-10],
           [ 1.4000000000000074e-03, -7.0000000000000312e-06, -3.5000000000000241e-08,  1.7500000000000108e-10],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [ 0.0000000000000000e+00,  0.0000000000000000e+00, -1.1199999999999822e-08,  1.1199999999999825e-11],
           [-1.3999999999999772e-03, -2.7999999999999533e-06, -1.4789773927740354e-10,  2.9579547855481557e-13],
           [-2.7999999999999527e-03, -2.7260511303612452e-06,  1.0904204521445240e-08, -1.0904204521445492e-11],
           [-2.7999999999999514e-03, -1.2229800505635918e-19, -1.4164914452116360e-22,  2.8329828904230424e-25],
           [-2.8000000000000125e-03, -5.1473432795794559e-20,  1.1682713641283697e-22, -3.4744129788203730e-27],
           [-2.8000000000000095e-03,  6.2747893882927115e-20,  3.7072492443510838e-22, -5.6223000235967703e-25],
           [-2.7999999999999557e-03,  1.1800316548277717e-20, -1.7343613894827706e-23,  1.1772090260219839e-26],
           [-2.7999999999999527e-03,  3.2857703486148937e-21, -2.1184571984490783e-24, -8.9061669975614191e-27],
           [-2.7999999999999527e-03, -5.5123120980052483e-21, -6.5972751141205691e-22,  8.6272059184653591e-25],
           [-2.8000000000000125e-03, -1.8199379625160189e-20,  6.0191861241875977e-23, -2.3300075319435879e-26],
           [-2.8000000000000095e-03,  2.4517425127138870e-20,  1.0906146080210805e-22, -1.7741474403462704e-25],
           [-2.7999999999999922e-03,  5.1782790327666016e-22, -1.9571486241982001e-22,  2.5058053514838880e-25],
           [-2.8000000000000095e-03, -7.2616331552517511e-21, -6.1723881819640055e-25,  9.4643285456781142e-27],
           [-2.8000000000000121e-03, -7.8062556418956317e-22, -3.4694469519536085e-25,  3.8163916471489746e-27],
           [-2.8000000000000121e-03,  1.7347234759768068e-21,  2.4286128663675302e-23, -3.4694469519536143e-26],
           [-2.8000000000000095e-03,  0.0000000000000000e+00, -3.1225022567582534e-23,  4.1633363423443370e-26],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  3.1225022567582534e-23, -4.1633363423443370e-26],
           [-2.8000000000000095e-03,  0.0000000000000000e+00, -3.1225022567582534e-23,  4.1633363423443370e-26],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  3.1225022567582534e-23, -4.1633363423443370e-26],
           [-2.8000000000000095e-03,  0.0000000000000000e+00, -3.1225022567582534e-23,  4.1633363423443370e-26],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  3.1225022567582534e-23, -4.1633363423443370e-26],
           [-2.8000000000000095e-03,  0.0000000000000000e+00, -3.1225022567582534e-23,  4.1633363423443370e-26],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  3.1225022567582534e-23, -4.1633363423443370e-26],
           [-2.8000000000000095e-03,  0.0000000000000000e+00, -3.1225022567582534e-23,  4.1633363423443370e-26],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.8000000000000121e-03,  0.0000000000000000e+00,  2.3592239273288009e-22, -6.8563106020185592e-38],
           [-2.7999999999999531e-03,  2.3592239273282864e-19,  9.5999999999984597e-09, -1.2799999999998252e-11],
           [-2.0000000000000018e-03,  6.9388939039074708e-21, -6.9388939039081978e-24,  9.6898350326982810e-40],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00],
           [-2.0000000000000000e-03,  0.0000000000000000e+00,  0.0000000000000000e+00,  0.0000000000000000e+00]])
