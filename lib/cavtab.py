"""Fit coefficients of the built-in cavity multipole transit-time factors (constants of the model, FLAME 911d172)."""
MLP = {
  ('EFocus1', 1): {'T': [125.6386, -31083.22, 3354464.0, -208945200.0, 8280687000.0, -216586700000.0, 3739846000000.0, -41121540000000.0, 261346200000000.0, -731697200000000.0],
     'S': [139.4183, -32996.73, 3438044.0, -207036900.0, 7942886000.0, -201375000000.0, 3374738000000.0, -36057800000000.0, 222944600000000.0, -607917700000000.0]},
  ('EFocus1', 2): {'T': [-0.9450041, -36.4139, 9926.186, -1449193.0, 128175200.0, -7150297000.0, 253416400000.0, -5535252000000.0, 67947780000000.0, -358619700000000.0],
     'S': [0.09928055, -55.45119, 12801.68, -1636888.0, 127980100.0, -6379800000.0, 203657500000.0, -4029152000000.0, 44963230000000.0, -216171200000000.0]},
  ('EFocus1', 3): {'T': [-1.0, 2.778823e-07, 68.20327, 0.004235106, -1926.935, 10.83516, 29968.07, 6108.642, -386455.4, 609439.0],
     'S': [-4.530303e-10, 1.625011e-07, -2.583224e-05, 24.78684, -0.1431967, -1545.412, -156.982, 38567.13, -31598.28, -270007.6]},
  ('EFocus1', 4): {'T': [-1.0, -2.406447e-07, 94.8004, -0.007659927, -4926.996, -35.04383, 171259.0, -19646.43, -4142976.0, 6085390.0],
     'S': [3.958048e-11, -2.496811e-08, 7.027794e-06, -86.62787, 0.1246098, 9462.491, 448.1784, -455241.2, 302654.3, 8798256.0]},
  ('EFocus2', 1): {'T': [1.038803, -9.12132, 894.3931, -56191.49, 2132552.0, -53307250.0, 879940400.0, -9246033000.0, 56120730000.0, -149954400000.0],
     'S': [0.01305154, -2.585211, 269.6971, -14882.49, 509576.5, -11541480.0, 171458000.0, -1604935000.0, 8570757000.0, -19833020000.0]},
  ('EFocus2', 2): {'T': [0.9989307, 0.7299233, -293.258, 30521.66, -2753614.0, 157033100.0, -5677804000.0, 126501200000.0, -1584238000000.0, 8533351000000.0],
     'S': [-0.003040839, 2.016667, -431.359, 58551.39, -4873584.0, 260544400.0, -8968899000.0, 192369700000.0, -2339920000000.0, 12330140000000.0]},
  ('EFocus2', 3): {'T': [1.0, -4.410575e-06, -88.84752, -0.07927594, 4663.277, -251.5405, -179713.4, -190430.5, 8999378.0, -29513620.0],
     'S': [6.387813e-08, -2.300899e-05, 0.003676251, -170.3282, 20.66461, 17045.69, 23166.53, -1328926.0, 4853676.0, 1132796.0]},
  ('EFocus2', 4): {'T': [1.0, -5.025186e-06, -146.8976, -0.2520376, 20487.99, -2224.267, -2532091.0, -4613480.0, 361191100.0, -1891951000.0],
     'S': [-1.801149e-08, 1.12328e-05, -0.003126902, 465.5245, -54.31878, -147773.0, -192211.0, 27957610.0, -129004600.0, -465695100.0]},
  ('EDipole', 1): {'T': [-1.005885, 1.526489, -104.7651, 11250.13, -466914.7, 12558410.0, -223728700.0, 2535541000.0, -16569060000.0, 47583980000.0],
     'S': [-0.025862, 5.884367, -640.7538, 38889.64, -1488484.0, 37825920.0, -636103300.0, 6817810000.0, -42271140000.0, 115559700000.0]},
  ('EDipole', 2): {'T': [-0.9999028, -0.06783669, 141.5756, -2950.99, 264098.0, -15707420.0, 577045000.0, -13036860000.0, 165495800000.0, -903001700000.0],
     'S': [0.0002108581, -0.3700608, 28.51611, -3502.994, 298306.1, -15226790.0, 495802900.0, -10020400000.0, 114283500000.0, -561706100000.0]},
  ('EQuad', 1): {'T': [1.038941, -9.238897, 912.7945, -57791.1, 2206120.0, -55447640.0, 919234700.0, -9691159000.0, 58969150000.0, -157831200000.0],
     'S': [0.1248096, -29.23507, 3069.331, -184838.0, 7094882.0, -180111300.0, 3024208000.0, -32392410000.0, 200876700000.0, -549621700000.0]},
  ('EQuad', 2): {'T': [1.000003, -0.001015639, -121.5634, 17.20764, 3921.401, 267484.1, -12362630.0, 312812800.0, -4385795000.0, 25946310000.0],
     'S': [-1.75625e-05, 0.2603597, -2.551122, -48.40638, -28702.01, 1552398.0, -51352000.0, 1075958000.0, -12774250000.0, 65407480000.0]},
  ('EQuad', 3): {'T': [1.0, 6.239107e-06, -169.7479, 0.03444883, 12252.41, -166.3533, -552664.5, -359335.3, 27495800.0, -96898700.0],
     'S': [2.128708e-07, -7.985618e-05, 0.01240259, -321.1339, 70.98731, 34746.52, 81871.45, -3731688.0, 18020530.0, -18199580.0]},
  ('EQuad', 4): {'T': [0.9998746, -2.431292e-05, -501.9138, -1.176338, 100605.4, -9908.805, -11480280.0, -19227070.0, 1432258000.0, -7054482000.0],
     'S': [6.00334e-08, -0.01482633, 0.0103759, -2235.44, 179.0006, 645688.2, 626102.0, -105547700.0, 411050200.0, 2241301000.0]},
  ('HMono', 1): {'T': [1.703336, -167.1357, 16976.57, -984325.3, 35181780.0, -804308400.0, 11657600000.0, -101472100000.0, 463285100000.0, -760479600000.0],
     'S': [14.52657, -3409.55, 352492.1, -21066630.0, 802285600.0, -20194810000.0, 336059700000.0, -3565836000000.0, 21896680000000.0, -59302410000000.0]},
  ('HMono', 2): {'T': [1.003228, -1.783406, 176.533, -53264.67, 4242623.0, -213967200.0, 6970488000.0, -141195800000.0, 1617248000000.0, -8000662000000.0],
     'S': [-0.001581533, 1.277444, -274.2508, 39668.79, -3513478.0, 196293900.0, -6991916000.0, 153970800000.0, -1910236000000.0, 10210160000000.0]},
  ('HMono', 3): {'T': [0.999999, 0.0003477993, -271.7994, 4.554376, 30834.81, 8441.315, -2439843.0, 1322379.0, 150175000.0, -682213500.0],
     'S': [1.709084e-06, -0.0006240506, 0.1013278, -264.9338, 594.4163, 45889.0, 711051.8, -22265740.0, 165852400.0, -397645900.0]},
  ('HMono', 4): {'T': [1.0, -4.358956e-05, -792.387, -2.472669, 224137.8, -25392.86, -33854800.0, -63751340.0, 5652166000.0, -33558770000.0],
     'S': [1.163146e-07, -7.302018e-05, 0.02048587, -368.9694, 363.2907, 175783.8, 1327057.0, -95206450.0, 940670900.0, -2139562000.0]},
  ('HDipole', 1): {'T': [0.6853803, 70.75414, -7117.391, 398567.4, -14428880.0, 344636900.0, -5420826000.0, 54146890000.0, -311621600000.0, 786971700000.0],
     'S': [1.021102, -244.1117, 25752.74, -1569273.0, 60901180.0, -1562284000.0, 26492890000.0, -286413900000.0, 1791634000000.0, -4941947000000.0]},
  ('HDipole', 2): {'T': [1.014129, -8.016304, 1631.339, -256182.6, 21153550.0, -1118723000.0, 38210290000.0, -814024800000.0, 9839613000000.0, -51541370000000.0],
     'S': [-0.004688714, 3.299051, -810.1936, 116381.4, -10173310.0, 560733000.0, -19673000000.0, 426138800000.0, -5194592000000.0, 27253700000000.0]},
  ('HQuad', 1): {'T': [-1.997432, 243.9177, -26137.24, 1627837.0, -64296250.0, 1676173000.0, -28854550000.0, 316367500000.0, -2005326000000.0, 5600545000000.0],
     'S': [-2.470704, 586.2902, -61350.71, 3711527.0, -143126700.0, 3649414000.0, -61535700000.0, 661785900000.0, -4119861000000.0, 11313900000000.0]},
  ('HQuad', 2): {'T': [-1.000925, 0.5170302, 93.11761, 15915.17, -1302247.0, 66478080.0, -2215417000.0, 46033900000.0, -542087300000.0, 2764042000000.0],
     'S': [0.0003119419, -0.4540868, 54.33028, -7571.946, 679256.5, -37283900.0, 1299263000.0, -27937050000.0, 337709700000.0, -1755126000000.0]},
  ('HQuad', 3): {'T': [-0.9999997, -0.0001049624, 244.542, -1.288731, -24015.75, -1972.894, 1494708.0, 289814.5, -87825060.0, 356690700.0],
     'S': [-7.925695e-07, 0.0002884963, -0.04667266, 295.0936, -271.2131, -42602.59, -319968.2, 11033760.0, -73044740.0, 147903600.0]},
  ('HQuad', 4): {'T': [-1.0, 4.357777e-05, 760.5879, 2.285787, -200941.5, 21495.81, 27738560.0, 48867820.0, -4127019000.0, 22992780000.0],
     'S': [-1.483304e-07, 9.278457e-05, -0.02592071, 1690.272, -454.5599, -619248.7, -1632321.0, 166485600.0, -1124066000.0, -312129900.0]},
}
