// the elements of data/gs_Mix.lat (0..5 multipoles, 6 gap, 7 drift)
struct MixEl { int t; double v; double T[10],S[10]; };
static const MixEl MIX[]={
{7,12.0,{0},{0}},
{0,0.11,{9450000000.0,1240000000.0,101000000.0,10100000.0,364000.0,42800.0,-3180.0,-15.5,13.3,0.298},{30800000000.0,-1980000000.0,-10600000.0,-5770000.0,66500.0,7490.0,-3290.0,-127.0,-6.62,0.833}},
{7,8.0,{0},{0}},
{1,0.0025,{20400000000.0,-1740000000.0,102000000.0,-8230000.0,178000.0,-37800.0,-3360.0,167.0,-8.72,-0.569},{37100000000.0,1910000000.0,-72000000.0,10500000.0,59600.0,18000.0,-1990.0,198.0,5.72,0.933}},
{7,9.5,{0},{0}},
{6,0.05,{30300000000.0,-1030000000.0,-47400000.0,-7610000.0,-538000.0,-44000.0,-1340.0,46.4,-14.9,0.356},{-12500000000.0,-974000000.0,109000000.0,-439000.0,-280000.0,-1900.0,1380.0,-199.0,14.3,-0.954}},
{7,11.0,{0},{0}},
{5,1.6e-05,{19200000000.0,1770000000.0,-165000000.0,6560000.0,-203000.0,7950.0,-3310.0,-204.0,-9.57,0.91},{-23300000000.0,1310000000.0,147000000.0,10100000.0,-236000.0,-14700.0,167.0,124.0,-11.8,0.497}},
{7,3.0,{0},{0}},
{3,1.9e-05,{22900000000.0,1840000000.0,-158000000.0,10200000.0,-621000.0,-16100.0,748.0,188.0,-4.8,0.848},{3470000000.0,-961000000.0,-62600000.0,-7350000.0,-641000.0,-35600.0,1280.0,224.0,-10.2,-0.903}},
{7,14.0,{0},{0}},
{6,-0.04,{37400000000.0,172000000.0,-32200000.0,-5980000.0,143000.0,33000.0,-299.0,-35.2,-13.3,0.832},{-35900000000.0,-33000000.0,116000000.0,-8420000.0,352000.0,45500.0,880.0,130.0,-11.8,-0.131}},
{7,7.0,{0},{0}},
{2,0.014,{-27000000000.0,1770000000.0,-70100000.0,-1070000.0,758000.0,35700.0,3210.0,-20.9,-0.355,0.459},{-1610000000.0,-1070000000.0,-32900000.0,-8050000.0,-187000.0,49400.0,3100.0,57.1,-0.0203,-0.323}},
{7,6.0,{0},{0}},
{4,0.00017,{-31600000000.0,-1170000000.0,96400000.0,8370000.0,-211000.0,29000.0,1860.0,87.6,4.92,0.519},{-10500000000.0,1050000000.0,-74900000.0,-326000.0,410000.0,19300.0,-1390.0,200.0,4.49,0.161}},
{7,29.5,{0},{0}},
};
