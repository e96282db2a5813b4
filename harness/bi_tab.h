// transit time factor fits of the built-in cavity types (transcribed; they agree with the integrals over the shipped tables)
static const double MLP[7][4][2][10]={
{{{1.256386e+02,-3.108322e+04,3.354464e+06,-2.089452e+08,8.280687e+09,-2.165867e+11,3.739846e+12,-4.112154e+13,2.613462e14,-7.316972e14},
  {1.394183e+02,-3.299673e+04,3.438044e+06,-2.070369e+08,7.942886e+09,-2.013750e+11,3.374738e+12,-3.605780e+13,2.229446e+14,-6.079177e+14}},
 {{-9.450041e-01,-3.641390e+01,9.926186e+03,-1.449193e+06,1.281752e+08,-7.150297e+09,2.534164e+11,-5.535252e+12,6.794778e+13,-3.586197e+14},
  {9.928055e-02,-5.545119e+01,1.280168e+04,-1.636888e+06,1.279801e+08,-6.379800e+09,2.036575e+11,-4.029152e+12,4.496323e+13,-2.161712e+14}},
 {{-1.000000e+00,2.778823e-07,6.820327e+01,4.235106e-03,-1.926935e+03,1.083516e+01,2.996807e+04,6.108642e+03,-3.864554e+05,6.094390e+05},
  {-4.530303e-10,1.625011e-07,-2.583224e-05,2.478684e+01,-1.431967e-01,-1.545412e+03,-1.569820e+02,3.856713e+04,-3.159828e+04,-2.700076e+05}},
 {{-1.000000e+00,-2.406447e-07,9.480040e+01,-7.659927e-03,-4.926996e+03,-3.504383e+01,1.712590e+05,-1.964643e+04,-4.142976e+06,6.085390e+06},
  {3.958048e-11,-2.496811e-08,7.027794e-06,-8.662787e+01,1.246098e-01,9.462491e+03,4.481784e+02,-4.552412e+05,3.026543e+05,8.798256e+06}}},
{{{1.038803e+00,-9.121320e+00,8.943931e+02,-5.619149e+04,2.132552e+06,-5.330725e+07,8.799404e+08,-9.246033e+09,5.612073e+10,-1.499544e+11},
  {1.305154e-02,-2.585211e+00,2.696971e+02,-1.488249e+04,5.095765e+05,-1.154148e+07,1.714580e+08,-1.604935e+09,8.570757e+09,-1.983302e+10}},
 {{9.989307e-01,7.299233e-01,-2.932580e+02,3.052166e+04,-2.753614e+06,1.570331e+08,-5.677804e+09,1.265012e+11,-1.584238e+12,8.533351e+12},
  {-3.040839e-03,2.016667e+00,-4.313590e+02,5.855139e+04,-4.873584e+06,2.605444e+08,-8.968899e+09,1.923697e+11,-2.339920e+12,1.233014e+13}},
 {{1.000000e+00,-4.410575e-06,-8.884752e+01,-7.927594e-02,4.663277e+03,-2.515405e+02,-1.797134e+05,-1.904305e+05,8.999378e+06,-2.951362e+07},
  {6.387813e-08,-2.300899e-05,3.676251e-03,-1.703282e+02,2.066461e+01,1.704569e+04,2.316653e+04,-1.328926e+06,4.853676e+06,1.132796e+06}},
 {{1.000000e+00,-5.025186e-06,-1.468976e+02,-2.520376e-01,2.048799e+04,-2.224267e+03,-2.532091e+06,-4.613480e+06,3.611911e+08,-1.891951e+09},
  {-1.801149e-08,1.123280e-05,-3.126902e-03,4.655245e+02,-5.431878e+01,-1.477730e+05,-1.922110e+05,2.795761e+07,-1.290046e+08,-4.656951e+08}}},
{{{-1.005885e+00,1.526489e+00,-1.047651e+02,1.125013e+04,-4.669147e+05,1.255841e+07,-2.237287e+08,2.535541e+09,-1.656906e+10,4.758398e+10},
  {-2.586200e-02,5.884367e+00,-6.407538e+02,3.888964e+04,-1.488484e+06,3.782592e+07,-6.361033e+08,6.817810e+09,-4.227114e+10,1.155597e+11}},
 {{-9.999028e-01,-6.783669e-02,1.415756e+02,-2.950990e+03,2.640980e+05,-1.570742e+07,5.770450e+08,-1.303686e+10,1.654958e+11,-9.030017e+11},
  {2.108581e-04,-3.700608e-01,2.851611e+01,-3.502994e+03,2.983061e+05,-1.522679e+07,4.958029e+08,-1.002040e+10,1.142835e+11,-5.617061e+11}},
 {{0,0,0,0,0,0,0,0,0,0},
  {0,0,0,0,0,0,0,0,0,0}},
 {{0,0,0,0,0,0,0,0,0,0},
  {0,0,0,0,0,0,0,0,0,0}}},
{{{1.038941e+00,-9.238897e+00,9.127945e+02,-5.779110e+04,2.206120e+06,-5.544764e+07,9.192347e+08,-9.691159e+09,5.896915e+10,-1.578312e+11},
  {1.248096e-01,-2.923507e+01,3.069331e+03,-1.848380e+05,7.094882e+06,-1.801113e+08,3.024208e+09,-3.239241e+10,2.008767e+11,-5.496217e+11}},
 {{1.000003e+00,-1.015639e-03,-1.215634e+02,1.720764e+01,3.921401e+03,2.674841e+05,-1.236263e+07,3.128128e+08,-4.385795e+09,2.594631e+10},
  {-1.756250e-05,2.603597e-01,-2.551122e+00,-4.840638e+01,-2.870201e+04,1.552398e+06,-5.135200e+07,1.075958e+09,-1.277425e+10,6.540748e+10}},
 {{1.000000e+00,6.239107e-06,-1.697479e+02,3.444883e-02,1.225241e+04,-1.663533e+02,-5.526645e+05,-3.593353e+05,2.749580e+07,-9.689870e+07},
  {2.128708e-07,-7.985618e-05,1.240259e-02,-3.211339e+02,7.098731e+01,3.474652e+04,8.187145e+04,-3.731688e+06,1.802053e+07,-1.819958e+07}},
 {{9.998746e-01,-2.431292e-05,-5.019138e+02,-1.176338e+00,1.006054e+05,-9.908805e+03,-1.148028e+07,-1.922707e+07,1.432258e+09,-7.054482e+09},
  {6.003340e-08,-1.482633e-02,1.037590e-02,-2.235440e+03,1.790006e+02,6.456882e+05,6.261020e+05,-1.055477e+08,4.110502e+08,2.241301e+09}}},
{{{1.703336e+00,-1.671357e+02,1.697657e+04,-9.843253e+05,3.518178e+07,-8.043084e+08,1.165760e+10,-1.014721e+11,4.632851e+11,-7.604796e+11},
  {1.452657e+01,-3.409550e+03,3.524921e+05,-2.106663e+07,8.022856e+08,-2.019481e+10,3.360597e+11,-3.565836e+12,2.189668e+13,-5.930241e+13}},
 {{1.003228e+00,-1.783406e+00,1.765330e+02,-5.326467e+04,4.242623e+06,-2.139672e+08,6.970488e+09,-1.411958e+11,1.617248e+12,-8.000662e+12},
  {-1.581533e-03,1.277444e+00,-2.742508e+02,3.966879e+04,-3.513478e+06,1.962939e+08,-6.991916e+09,1.539708e+11,-1.910236e+12,1.021016e+13}},
 {{9.999990e-01,3.477993e-04,-2.717994e+02,4.554376e+00,3.083481e+04,8.441315e+03,-2.439843e+06,1.322379e+06,1.501750e+08,-6.822135e+08},
  {1.709084e-06,-6.240506e-04,1.013278e-01,-2.649338e+02,5.944163e+02,4.588900e+04,7.110518e+05,-2.226574e+07,1.658524e+08,-3.976459e+08}},
 {{1.000000e+00,-4.358956e-05,-7.923870e+02,-2.472669e+00,2.241378e+05,-2.539286e+04,-3.385480e+07,-6.375134e+07,5.652166e+09,-3.355877e+10},
  {1.163146e-07,-7.302018e-05,2.048587e-02,-3.689694e+02,3.632907e+02,1.757838e+05,1.327057e+06,-9.520645e+07,9.406709e+08,-2.139562e+09}}},
{{{6.853803e-01,7.075414e+01,-7.117391e+03,3.985674e+05,-1.442888e+07,3.446369e+08,-5.420826e+09,5.414689e+10,-3.116216e+11,7.869717e+11},
  {1.021102e+00,-2.441117e+02,2.575274e+04,-1.569273e+06,6.090118e+07,-1.562284e+09,2.649289e+10,-2.864139e+11,1.791634e+12,-4.941947e+12}},
 {{1.014129e+00,-8.016304e+00,1.631339e+03,-2.561826e+05,2.115355e+07,-1.118723e+09,3.821029e+10,-8.140248e+11,9.839613e+12,-5.154137e+13},
  {-4.688714e-03,3.299051e+00,-8.101936e+02,1.163814e+05,-1.017331e+07,5.607330e+08,-1.967300e+10,4.261388e+11,-5.194592e+12,2.725370e+13}},
 {{0,0,0,0,0,0,0,0,0,0},
  {0,0,0,0,0,0,0,0,0,0}},
 {{0,0,0,0,0,0,0,0,0,0},
  {0,0,0,0,0,0,0,0,0,0}}},
{{{-1.997432e+00,2.439177e+02,-2.613724e+04,1.627837e+06,-6.429625e+07,1.676173e+09,-2.885455e+10,3.163675e+11,-2.005326e+12,5.600545e+12},
  {-2.470704e+00,5.862902e+02,-6.135071e+04,3.711527e+06,-1.431267e+08,3.649414e+09,-6.153570e+10,6.617859e+11,-4.119861e+12,1.131390e+13}},
 {{-1.000925e+00,5.170302e-01,9.311761e+01,1.591517e+04,-1.302247e+06,6.647808e+07,-2.215417e+09,4.603390e+10,-5.420873e+11,2.764042e+12},
  {3.119419e-04,-4.540868e-01,5.433028e+01,-7.571946e+03,6.792565e+05,-3.728390e+07,1.299263e+09,-2.793705e+10,3.377097e+11,-1.755126e+12}},
 {{-9.999997e-01,-1.049624e-04,2.445420e+02,-1.288731e+00,-2.401575e+04,-1.972894e+03,1.494708e+06,2.898145e+05,-8.782506e+07,3.566907e+08},
  {-7.925695e-07,2.884963e-04,-4.667266e-02,2.950936e+02,-2.712131e+02,-4.260259e+04,-3.199682e+05,1.103376e+07,-7.304474e+07,1.479036e+08}},
 {{-1.000000e+00,4.357777e-05,7.605879e+02,2.285787e+00,-2.009415e+05,2.149581e+04,2.773856e+07,4.886782e+07,-4.127019e+09,2.299278e+10},
  {-1.483304e-07,9.278457e-05,-2.592071e-02,1.690272e+03,-4.545599e+02,-6.192487e+05,-1.632321e+06,1.664856e+08,-1.124066e+09,-3.121299e+08}}},
};
