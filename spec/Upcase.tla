------------------------------- MODULE Upcase -------------------------------
(* Generated by lib/gen_upcase.pl from an independent source of Unicode data. *)
(* 1185 simple uppercase mappings within the Basic Multilingual Plane.          *)
EXTENDS Integers, Sequences

UpPage0 == <<
  0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,
  16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,
  32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,
  48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,
  64,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,
  80,81,82,83,84,85,86,87,88,89,90,91,92,93,94,95,
  96,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,
  80,81,82,83,84,85,86,87,88,89,90,123,124,125,126,127,
  128,129,130,131,132,133,134,135,136,137,138,139,140,141,142,143,
  144,145,146,147,148,149,150,151,152,153,154,155,156,157,158,159,
  160,161,162,163,164,165,166,167,168,169,170,171,172,173,174,175,
  176,177,178,179,180,924,182,183,184,185,186,187,188,189,190,191,
  192,193,194,195,196,197,198,199,200,201,202,203,204,205,206,207,
  208,209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,
  192,193,194,195,196,197,198,199,200,201,202,203,204,205,206,207,
  208,209,210,211,212,213,214,247,216,217,218,219,220,221,222,376
>>
UpPage1 == <<
  256,256,258,258,260,260,262,262,264,264,266,266,268,268,270,270,
  272,272,274,274,276,276,278,278,280,280,282,282,284,284,286,286,
  288,288,290,290,292,292,294,294,296,296,298,298,300,300,302,302,
  304,73,306,306,308,308,310,310,312,313,313,315,315,317,317,319,
  319,321,321,323,323,325,325,327,327,329,330,330,332,332,334,334,
  336,336,338,338,340,340,342,342,344,344,346,346,348,348,350,350,
  352,352,354,354,356,356,358,358,360,360,362,362,364,364,366,366,
  368,368,370,370,372,372,374,374,376,377,377,379,379,381,381,83,
  579,385,386,386,388,388,390,391,391,393,394,395,395,397,398,399,
  400,401,401,403,404,502,406,407,408,408,573,411,412,413,544,415,
  416,416,418,418,420,420,422,423,423,425,426,427,428,428,430,431,
  431,433,434,435,435,437,437,439,440,440,442,443,444,444,446,503,
  448,449,450,451,452,452,452,455,455,455,458,458,458,461,461,463,
  463,465,465,467,467,469,469,471,471,473,473,475,475,398,478,478,
  480,480,482,482,484,484,486,486,488,488,490,490,492,492,494,494,
  496,497,497,497,500,500,502,503,504,504,506,506,508,508,510,510
>>
UpPage2 == <<
  512,512,514,514,516,516,518,518,520,520,522,522,524,524,526,526,
  528,528,530,530,532,532,534,534,536,536,538,538,540,540,542,542,
  544,545,546,546,548,548,550,550,552,552,554,554,556,556,558,558,
  560,560,562,562,564,565,566,567,568,569,570,571,571,573,574,11390,
  11391,577,577,579,580,581,582,582,584,584,586,586,588,588,590,590,
  11375,11373,11376,385,390,597,393,394,600,399,602,400,42923,605,606,607,
  403,42924,610,404,612,42893,42922,615,407,406,42926,11362,42925,621,622,412,
  624,11374,413,627,628,415,630,631,632,633,634,635,636,11364,638,639,
  422,641,42949,425,644,645,646,42929,430,580,433,434,581,653,654,655,
  656,657,439,659,660,661,662,663,664,665,666,667,668,42930,42928,671,
  672,673,674,675,676,677,678,679,680,681,682,683,684,685,686,687,
  688,689,690,691,692,693,694,695,696,697,698,699,700,701,702,703,
  704,705,706,707,708,709,710,711,712,713,714,715,716,717,718,719,
  720,721,722,723,724,725,726,727,728,729,730,731,732,733,734,735,
  736,737,738,739,740,741,742,743,744,745,746,747,748,749,750,751,
  752,753,754,755,756,757,758,759,760,761,762,763,764,765,766,767
>>
UpPage3 == <<
  768,769,770,771,772,773,774,775,776,777,778,779,780,781,782,783,
  784,785,786,787,788,789,790,791,792,793,794,795,796,797,798,799,
  800,801,802,803,804,805,806,807,808,809,810,811,812,813,814,815,
  816,817,818,819,820,821,822,823,824,825,826,827,828,829,830,831,
  832,833,834,835,836,921,838,839,840,841,842,843,844,845,846,847,
  848,849,850,851,852,853,854,855,856,857,858,859,860,861,862,863,
  864,865,866,867,868,869,870,871,872,873,874,875,876,877,878,879,
  880,880,882,882,884,885,886,886,888,889,890,1021,1022,1023,894,895,
  896,897,898,899,900,901,902,903,904,905,906,907,908,909,910,911,
  912,913,914,915,916,917,918,919,920,921,922,923,924,925,926,927,
  928,929,930,931,932,933,934,935,936,937,938,939,902,904,905,906,
  944,913,914,915,916,917,918,919,920,921,922,923,924,925,926,927,
  928,929,931,931,932,933,934,935,936,937,938,939,908,910,911,975,
  914,920,978,979,980,934,928,975,984,984,986,986,988,988,990,990,
  992,992,994,994,996,996,998,998,1000,1000,1002,1002,1004,1004,1006,1006,
  922,929,1017,895,1012,917,1014,1015,1015,1017,1018,1018,1020,1021,1022,1023
>>
UpPage4 == <<
  1024,1025,1026,1027,1028,1029,1030,1031,1032,1033,1034,1035,1036,1037,1038,1039,
  1040,1041,1042,1043,1044,1045,1046,1047,1048,1049,1050,1051,1052,1053,1054,1055,
  1056,1057,1058,1059,1060,1061,1062,1063,1064,1065,1066,1067,1068,1069,1070,1071,
  1040,1041,1042,1043,1044,1045,1046,1047,1048,1049,1050,1051,1052,1053,1054,1055,
  1056,1057,1058,1059,1060,1061,1062,1063,1064,1065,1066,1067,1068,1069,1070,1071,
  1024,1025,1026,1027,1028,1029,1030,1031,1032,1033,1034,1035,1036,1037,1038,1039,
  1120,1120,1122,1122,1124,1124,1126,1126,1128,1128,1130,1130,1132,1132,1134,1134,
  1136,1136,1138,1138,1140,1140,1142,1142,1144,1144,1146,1146,1148,1148,1150,1150,
  1152,1152,1154,1155,1156,1157,1158,1159,1160,1161,1162,1162,1164,1164,1166,1166,
  1168,1168,1170,1170,1172,1172,1174,1174,1176,1176,1178,1178,1180,1180,1182,1182,
  1184,1184,1186,1186,1188,1188,1190,1190,1192,1192,1194,1194,1196,1196,1198,1198,
  1200,1200,1202,1202,1204,1204,1206,1206,1208,1208,1210,1210,1212,1212,1214,1214,
  1216,1217,1217,1219,1219,1221,1221,1223,1223,1225,1225,1227,1227,1229,1229,1216,
  1232,1232,1234,1234,1236,1236,1238,1238,1240,1240,1242,1242,1244,1244,1246,1246,
  1248,1248,1250,1250,1252,1252,1254,1254,1256,1256,1258,1258,1260,1260,1262,1262,
  1264,1264,1266,1266,1268,1268,1270,1270,1272,1272,1274,1274,1276,1276,1278,1278
>>
UpPage5 == <<
  1280,1280,1282,1282,1284,1284,1286,1286,1288,1288,1290,1290,1292,1292,1294,1294,
  1296,1296,1298,1298,1300,1300,1302,1302,1304,1304,1306,1306,1308,1308,1310,1310,
  1312,1312,1314,1314,1316,1316,1318,1318,1320,1320,1322,1322,1324,1324,1326,1326,
  1328,1329,1330,1331,1332,1333,1334,1335,1336,1337,1338,1339,1340,1341,1342,1343,
  1344,1345,1346,1347,1348,1349,1350,1351,1352,1353,1354,1355,1356,1357,1358,1359,
  1360,1361,1362,1363,1364,1365,1366,1367,1368,1369,1370,1371,1372,1373,1374,1375,
  1376,1329,1330,1331,1332,1333,1334,1335,1336,1337,1338,1339,1340,1341,1342,1343,
  1344,1345,1346,1347,1348,1349,1350,1351,1352,1353,1354,1355,1356,1357,1358,1359,
  1360,1361,1362,1363,1364,1365,1366,1415,1416,1417,1418,1419,1420,1421,1422,1423,
  1424,1425,1426,1427,1428,1429,1430,1431,1432,1433,1434,1435,1436,1437,1438,1439,
  1440,1441,1442,1443,1444,1445,1446,1447,1448,1449,1450,1451,1452,1453,1454,1455,
  1456,1457,1458,1459,1460,1461,1462,1463,1464,1465,1466,1467,1468,1469,1470,1471,
  1472,1473,1474,1475,1476,1477,1478,1479,1480,1481,1482,1483,1484,1485,1486,1487,
  1488,1489,1490,1491,1492,1493,1494,1495,1496,1497,1498,1499,1500,1501,1502,1503,
  1504,1505,1506,1507,1508,1509,1510,1511,1512,1513,1514,1515,1516,1517,1518,1519,
  1520,1521,1522,1523,1524,1525,1526,1527,1528,1529,1530,1531,1532,1533,1534,1535
>>
UpPage16 == <<
  4096,4097,4098,4099,4100,4101,4102,4103,4104,4105,4106,4107,4108,4109,4110,4111,
  4112,4113,4114,4115,4116,4117,4118,4119,4120,4121,4122,4123,4124,4125,4126,4127,
  4128,4129,4130,4131,4132,4133,4134,4135,4136,4137,4138,4139,4140,4141,4142,4143,
  4144,4145,4146,4147,4148,4149,4150,4151,4152,4153,4154,4155,4156,4157,4158,4159,
  4160,4161,4162,4163,4164,4165,4166,4167,4168,4169,4170,4171,4172,4173,4174,4175,
  4176,4177,4178,4179,4180,4181,4182,4183,4184,4185,4186,4187,4188,4189,4190,4191,
  4192,4193,4194,4195,4196,4197,4198,4199,4200,4201,4202,4203,4204,4205,4206,4207,
  4208,4209,4210,4211,4212,4213,4214,4215,4216,4217,4218,4219,4220,4221,4222,4223,
  4224,4225,4226,4227,4228,4229,4230,4231,4232,4233,4234,4235,4236,4237,4238,4239,
  4240,4241,4242,4243,4244,4245,4246,4247,4248,4249,4250,4251,4252,4253,4254,4255,
  4256,4257,4258,4259,4260,4261,4262,4263,4264,4265,4266,4267,4268,4269,4270,4271,
  4272,4273,4274,4275,4276,4277,4278,4279,4280,4281,4282,4283,4284,4285,4286,4287,
  4288,4289,4290,4291,4292,4293,4294,4295,4296,4297,4298,4299,4300,4301,4302,4303,
  7312,7313,7314,7315,7316,7317,7318,7319,7320,7321,7322,7323,7324,7325,7326,7327,
  7328,7329,7330,7331,7332,7333,7334,7335,7336,7337,7338,7339,7340,7341,7342,7343,
  7344,7345,7346,7347,7348,7349,7350,7351,7352,7353,7354,4347,4348,7357,7358,7359
>>
UpPage19 == <<
  4864,4865,4866,4867,4868,4869,4870,4871,4872,4873,4874,4875,4876,4877,4878,4879,
  4880,4881,4882,4883,4884,4885,4886,4887,4888,4889,4890,4891,4892,4893,4894,4895,
  4896,4897,4898,4899,4900,4901,4902,4903,4904,4905,4906,4907,4908,4909,4910,4911,
  4912,4913,4914,4915,4916,4917,4918,4919,4920,4921,4922,4923,4924,4925,4926,4927,
  4928,4929,4930,4931,4932,4933,4934,4935,4936,4937,4938,4939,4940,4941,4942,4943,
  4944,4945,4946,4947,4948,4949,4950,4951,4952,4953,4954,4955,4956,4957,4958,4959,
  4960,4961,4962,4963,4964,4965,4966,4967,4968,4969,4970,4971,4972,4973,4974,4975,
  4976,4977,4978,4979,4980,4981,4982,4983,4984,4985,4986,4987,4988,4989,4990,4991,
  4992,4993,4994,4995,4996,4997,4998,4999,5000,5001,5002,5003,5004,5005,5006,5007,
  5008,5009,5010,5011,5012,5013,5014,5015,5016,5017,5018,5019,5020,5021,5022,5023,
  5024,5025,5026,5027,5028,5029,5030,5031,5032,5033,5034,5035,5036,5037,5038,5039,
  5040,5041,5042,5043,5044,5045,5046,5047,5048,5049,5050,5051,5052,5053,5054,5055,
  5056,5057,5058,5059,5060,5061,5062,5063,5064,5065,5066,5067,5068,5069,5070,5071,
  5072,5073,5074,5075,5076,5077,5078,5079,5080,5081,5082,5083,5084,5085,5086,5087,
  5088,5089,5090,5091,5092,5093,5094,5095,5096,5097,5098,5099,5100,5101,5102,5103,
  5104,5105,5106,5107,5108,5109,5110,5111,5104,5105,5106,5107,5108,5109,5118,5119
>>
UpPage28 == <<
  7168,7169,7170,7171,7172,7173,7174,7175,7176,7177,7178,7179,7180,7181,7182,7183,
  7184,7185,7186,7187,7188,7189,7190,7191,7192,7193,7194,7195,7196,7197,7198,7199,
  7200,7201,7202,7203,7204,7205,7206,7207,7208,7209,7210,7211,7212,7213,7214,7215,
  7216,7217,7218,7219,7220,7221,7222,7223,7224,7225,7226,7227,7228,7229,7230,7231,
  7232,7233,7234,7235,7236,7237,7238,7239,7240,7241,7242,7243,7244,7245,7246,7247,
  7248,7249,7250,7251,7252,7253,7254,7255,7256,7257,7258,7259,7260,7261,7262,7263,
  7264,7265,7266,7267,7268,7269,7270,7271,7272,7273,7274,7275,7276,7277,7278,7279,
  7280,7281,7282,7283,7284,7285,7286,7287,7288,7289,7290,7291,7292,7293,7294,7295,
  1042,1044,1054,1057,1058,1058,1066,1122,42570,7305,7306,7307,7308,7309,7310,7311,
  7312,7313,7314,7315,7316,7317,7318,7319,7320,7321,7322,7323,7324,7325,7326,7327,
  7328,7329,7330,7331,7332,7333,7334,7335,7336,7337,7338,7339,7340,7341,7342,7343,
  7344,7345,7346,7347,7348,7349,7350,7351,7352,7353,7354,7355,7356,7357,7358,7359,
  7360,7361,7362,7363,7364,7365,7366,7367,7368,7369,7370,7371,7372,7373,7374,7375,
  7376,7377,7378,7379,7380,7381,7382,7383,7384,7385,7386,7387,7388,7389,7390,7391,
  7392,7393,7394,7395,7396,7397,7398,7399,7400,7401,7402,7403,7404,7405,7406,7407,
  7408,7409,7410,7411,7412,7413,7414,7415,7416,7417,7418,7419,7420,7421,7422,7423
>>
UpPage29 == <<
  7424,7425,7426,7427,7428,7429,7430,7431,7432,7433,7434,7435,7436,7437,7438,7439,
  7440,7441,7442,7443,7444,7445,7446,7447,7448,7449,7450,7451,7452,7453,7454,7455,
  7456,7457,7458,7459,7460,7461,7462,7463,7464,7465,7466,7467,7468,7469,7470,7471,
  7472,7473,7474,7475,7476,7477,7478,7479,7480,7481,7482,7483,7484,7485,7486,7487,
  7488,7489,7490,7491,7492,7493,7494,7495,7496,7497,7498,7499,7500,7501,7502,7503,
  7504,7505,7506,7507,7508,7509,7510,7511,7512,7513,7514,7515,7516,7517,7518,7519,
  7520,7521,7522,7523,7524,7525,7526,7527,7528,7529,7530,7531,7532,7533,7534,7535,
  7536,7537,7538,7539,7540,7541,7542,7543,7544,42877,7546,7547,7548,11363,7550,7551,
  7552,7553,7554,7555,7556,7557,7558,7559,7560,7561,7562,7563,7564,7565,42950,7567,
  7568,7569,7570,7571,7572,7573,7574,7575,7576,7577,7578,7579,7580,7581,7582,7583,
  7584,7585,7586,7587,7588,7589,7590,7591,7592,7593,7594,7595,7596,7597,7598,7599,
  7600,7601,7602,7603,7604,7605,7606,7607,7608,7609,7610,7611,7612,7613,7614,7615,
  7616,7617,7618,7619,7620,7621,7622,7623,7624,7625,7626,7627,7628,7629,7630,7631,
  7632,7633,7634,7635,7636,7637,7638,7639,7640,7641,7642,7643,7644,7645,7646,7647,
  7648,7649,7650,7651,7652,7653,7654,7655,7656,7657,7658,7659,7660,7661,7662,7663,
  7664,7665,7666,7667,7668,7669,7670,7671,7672,7673,7674,7675,7676,7677,7678,7679
>>
UpPage30 == <<
  7680,7680,7682,7682,7684,7684,7686,7686,7688,7688,7690,7690,7692,7692,7694,7694,
  7696,7696,7698,7698,7700,7700,7702,7702,7704,7704,7706,7706,7708,7708,7710,7710,
  7712,7712,7714,7714,7716,7716,7718,7718,7720,7720,7722,7722,7724,7724,7726,7726,
  7728,7728,7730,7730,7732,7732,7734,7734,7736,7736,7738,7738,7740,7740,7742,7742,
  7744,7744,7746,7746,7748,7748,7750,7750,7752,7752,7754,7754,7756,7756,7758,7758,
  7760,7760,7762,7762,7764,7764,7766,7766,7768,7768,7770,7770,7772,7772,7774,7774,
  7776,7776,7778,7778,7780,7780,7782,7782,7784,7784,7786,7786,7788,7788,7790,7790,
  7792,7792,7794,7794,7796,7796,7798,7798,7800,7800,7802,7802,7804,7804,7806,7806,
  7808,7808,7810,7810,7812,7812,7814,7814,7816,7816,7818,7818,7820,7820,7822,7822,
  7824,7824,7826,7826,7828,7828,7830,7831,7832,7833,7834,7776,7836,7837,7838,7839,
  7840,7840,7842,7842,7844,7844,7846,7846,7848,7848,7850,7850,7852,7852,7854,7854,
  7856,7856,7858,7858,7860,7860,7862,7862,7864,7864,7866,7866,7868,7868,7870,7870,
  7872,7872,7874,7874,7876,7876,7878,7878,7880,7880,7882,7882,7884,7884,7886,7886,
  7888,7888,7890,7890,7892,7892,7894,7894,7896,7896,7898,7898,7900,7900,7902,7902,
  7904,7904,7906,7906,7908,7908,7910,7910,7912,7912,7914,7914,7916,7916,7918,7918,
  7920,7920,7922,7922,7924,7924,7926,7926,7928,7928,7930,7930,7932,7932,7934,7934
>>
UpPage31 == <<
  7944,7945,7946,7947,7948,7949,7950,7951,7944,7945,7946,7947,7948,7949,7950,7951,
  7960,7961,7962,7963,7964,7965,7958,7959,7960,7961,7962,7963,7964,7965,7966,7967,
  7976,7977,7978,7979,7980,7981,7982,7983,7976,7977,7978,7979,7980,7981,7982,7983,
  7992,7993,7994,7995,7996,7997,7998,7999,7992,7993,7994,7995,7996,7997,7998,7999,
  8008,8009,8010,8011,8012,8013,8006,8007,8008,8009,8010,8011,8012,8013,8014,8015,
  8016,8025,8018,8027,8020,8029,8022,8031,8024,8025,8026,8027,8028,8029,8030,8031,
  8040,8041,8042,8043,8044,8045,8046,8047,8040,8041,8042,8043,8044,8045,8046,8047,
  8122,8123,8136,8137,8138,8139,8154,8155,8184,8185,8170,8171,8186,8187,8062,8063,
  8072,8073,8074,8075,8076,8077,8078,8079,8072,8073,8074,8075,8076,8077,8078,8079,
  8088,8089,8090,8091,8092,8093,8094,8095,8088,8089,8090,8091,8092,8093,8094,8095,
  8104,8105,8106,8107,8108,8109,8110,8111,8104,8105,8106,8107,8108,8109,8110,8111,
  8120,8121,8114,8124,8116,8117,8118,8119,8120,8121,8122,8123,8124,8125,921,8127,
  8128,8129,8130,8140,8132,8133,8134,8135,8136,8137,8138,8139,8140,8141,8142,8143,
  8152,8153,8146,8147,8148,8149,8150,8151,8152,8153,8154,8155,8156,8157,8158,8159,
  8168,8169,8162,8163,8164,8172,8166,8167,8168,8169,8170,8171,8172,8173,8174,8175,
  8176,8177,8178,8188,8180,8181,8182,8183,8184,8185,8186,8187,8188,8189,8190,8191
>>
UpPage33 == <<
  8448,8449,8450,8451,8452,8453,8454,8455,8456,8457,8458,8459,8460,8461,8462,8463,
  8464,8465,8466,8467,8468,8469,8470,8471,8472,8473,8474,8475,8476,8477,8478,8479,
  8480,8481,8482,8483,8484,8485,8486,8487,8488,8489,8490,8491,8492,8493,8494,8495,
  8496,8497,8498,8499,8500,8501,8502,8503,8504,8505,8506,8507,8508,8509,8510,8511,
  8512,8513,8514,8515,8516,8517,8518,8519,8520,8521,8522,8523,8524,8525,8498,8527,
  8528,8529,8530,8531,8532,8533,8534,8535,8536,8537,8538,8539,8540,8541,8542,8543,
  8544,8545,8546,8547,8548,8549,8550,8551,8552,8553,8554,8555,8556,8557,8558,8559,
  8544,8545,8546,8547,8548,8549,8550,8551,8552,8553,8554,8555,8556,8557,8558,8559,
  8576,8577,8578,8579,8579,8581,8582,8583,8584,8585,8586,8587,8588,8589,8590,8591,
  8592,8593,8594,8595,8596,8597,8598,8599,8600,8601,8602,8603,8604,8605,8606,8607,
  8608,8609,8610,8611,8612,8613,8614,8615,8616,8617,8618,8619,8620,8621,8622,8623,
  8624,8625,8626,8627,8628,8629,8630,8631,8632,8633,8634,8635,8636,8637,8638,8639,
  8640,8641,8642,8643,8644,8645,8646,8647,8648,8649,8650,8651,8652,8653,8654,8655,
  8656,8657,8658,8659,8660,8661,8662,8663,8664,8665,8666,8667,8668,8669,8670,8671,
  8672,8673,8674,8675,8676,8677,8678,8679,8680,8681,8682,8683,8684,8685,8686,8687,
  8688,8689,8690,8691,8692,8693,8694,8695,8696,8697,8698,8699,8700,8701,8702,8703
>>
UpPage36 == <<
  9216,9217,9218,9219,9220,9221,9222,9223,9224,9225,9226,9227,9228,9229,9230,9231,
  9232,9233,9234,9235,9236,9237,9238,9239,9240,9241,9242,9243,9244,9245,9246,9247,
  9248,9249,9250,9251,9252,9253,9254,9255,9256,9257,9258,9259,9260,9261,9262,9263,
  9264,9265,9266,9267,9268,9269,9270,9271,9272,9273,9274,9275,9276,9277,9278,9279,
  9280,9281,9282,9283,9284,9285,9286,9287,9288,9289,9290,9291,9292,9293,9294,9295,
  9296,9297,9298,9299,9300,9301,9302,9303,9304,9305,9306,9307,9308,9309,9310,9311,
  9312,9313,9314,9315,9316,9317,9318,9319,9320,9321,9322,9323,9324,9325,9326,9327,
  9328,9329,9330,9331,9332,9333,9334,9335,9336,9337,9338,9339,9340,9341,9342,9343,
  9344,9345,9346,9347,9348,9349,9350,9351,9352,9353,9354,9355,9356,9357,9358,9359,
  9360,9361,9362,9363,9364,9365,9366,9367,9368,9369,9370,9371,9372,9373,9374,9375,
  9376,9377,9378,9379,9380,9381,9382,9383,9384,9385,9386,9387,9388,9389,9390,9391,
  9392,9393,9394,9395,9396,9397,9398,9399,9400,9401,9402,9403,9404,9405,9406,9407,
  9408,9409,9410,9411,9412,9413,9414,9415,9416,9417,9418,9419,9420,9421,9422,9423,
  9398,9399,9400,9401,9402,9403,9404,9405,9406,9407,9408,9409,9410,9411,9412,9413,
  9414,9415,9416,9417,9418,9419,9420,9421,9422,9423,9450,9451,9452,9453,9454,9455,
  9456,9457,9458,9459,9460,9461,9462,9463,9464,9465,9466,9467,9468,9469,9470,9471
>>
UpPage44 == <<
  11264,11265,11266,11267,11268,11269,11270,11271,11272,11273,11274,11275,11276,11277,11278,11279,
  11280,11281,11282,11283,11284,11285,11286,11287,11288,11289,11290,11291,11292,11293,11294,11295,
  11296,11297,11298,11299,11300,11301,11302,11303,11304,11305,11306,11307,11308,11309,11310,11311,
  11264,11265,11266,11267,11268,11269,11270,11271,11272,11273,11274,11275,11276,11277,11278,11279,
  11280,11281,11282,11283,11284,11285,11286,11287,11288,11289,11290,11291,11292,11293,11294,11295,
  11296,11297,11298,11299,11300,11301,11302,11303,11304,11305,11306,11307,11308,11309,11310,11359,
  11360,11360,11362,11363,11364,570,574,11367,11367,11369,11369,11371,11371,11373,11374,11375,
  11376,11377,11378,11378,11380,11381,11381,11383,11384,11385,11386,11387,11388,11389,11390,11391,
  11392,11392,11394,11394,11396,11396,11398,11398,11400,11400,11402,11402,11404,11404,11406,11406,
  11408,11408,11410,11410,11412,11412,11414,11414,11416,11416,11418,11418,11420,11420,11422,11422,
  11424,11424,11426,11426,11428,11428,11430,11430,11432,11432,11434,11434,11436,11436,11438,11438,
  11440,11440,11442,11442,11444,11444,11446,11446,11448,11448,11450,11450,11452,11452,11454,11454,
  11456,11456,11458,11458,11460,11460,11462,11462,11464,11464,11466,11466,11468,11468,11470,11470,
  11472,11472,11474,11474,11476,11476,11478,11478,11480,11480,11482,11482,11484,11484,11486,11486,
  11488,11488,11490,11490,11492,11493,11494,11495,11496,11497,11498,11499,11499,11501,11501,11503,
  11504,11505,11506,11506,11508,11509,11510,11511,11512,11513,11514,11515,11516,11517,11518,11519
>>
UpPage45 == <<
  4256,4257,4258,4259,4260,4261,4262,4263,4264,4265,4266,4267,4268,4269,4270,4271,
  4272,4273,4274,4275,4276,4277,4278,4279,4280,4281,4282,4283,4284,4285,4286,4287,
  4288,4289,4290,4291,4292,4293,11558,4295,11560,11561,11562,11563,11564,4301,11566,11567,
  11568,11569,11570,11571,11572,11573,11574,11575,11576,11577,11578,11579,11580,11581,11582,11583,
  11584,11585,11586,11587,11588,11589,11590,11591,11592,11593,11594,11595,11596,11597,11598,11599,
  11600,11601,11602,11603,11604,11605,11606,11607,11608,11609,11610,11611,11612,11613,11614,11615,
  11616,11617,11618,11619,11620,11621,11622,11623,11624,11625,11626,11627,11628,11629,11630,11631,
  11632,11633,11634,11635,11636,11637,11638,11639,11640,11641,11642,11643,11644,11645,11646,11647,
  11648,11649,11650,11651,11652,11653,11654,11655,11656,11657,11658,11659,11660,11661,11662,11663,
  11664,11665,11666,11667,11668,11669,11670,11671,11672,11673,11674,11675,11676,11677,11678,11679,
  11680,11681,11682,11683,11684,11685,11686,11687,11688,11689,11690,11691,11692,11693,11694,11695,
  11696,11697,11698,11699,11700,11701,11702,11703,11704,11705,11706,11707,11708,11709,11710,11711,
  11712,11713,11714,11715,11716,11717,11718,11719,11720,11721,11722,11723,11724,11725,11726,11727,
  11728,11729,11730,11731,11732,11733,11734,11735,11736,11737,11738,11739,11740,11741,11742,11743,
  11744,11745,11746,11747,11748,11749,11750,11751,11752,11753,11754,11755,11756,11757,11758,11759,
  11760,11761,11762,11763,11764,11765,11766,11767,11768,11769,11770,11771,11772,11773,11774,11775
>>
UpPage166 == <<
  42496,42497,42498,42499,42500,42501,42502,42503,42504,42505,42506,42507,42508,42509,42510,42511,
  42512,42513,42514,42515,42516,42517,42518,42519,42520,42521,42522,42523,42524,42525,42526,42527,
  42528,42529,42530,42531,42532,42533,42534,42535,42536,42537,42538,42539,42540,42541,42542,42543,
  42544,42545,42546,42547,42548,42549,42550,42551,42552,42553,42554,42555,42556,42557,42558,42559,
  42560,42560,42562,42562,42564,42564,42566,42566,42568,42568,42570,42570,42572,42572,42574,42574,
  42576,42576,42578,42578,42580,42580,42582,42582,42584,42584,42586,42586,42588,42588,42590,42590,
  42592,42592,42594,42594,42596,42596,42598,42598,42600,42600,42602,42602,42604,42604,42606,42607,
  42608,42609,42610,42611,42612,42613,42614,42615,42616,42617,42618,42619,42620,42621,42622,42623,
  42624,42624,42626,42626,42628,42628,42630,42630,42632,42632,42634,42634,42636,42636,42638,42638,
  42640,42640,42642,42642,42644,42644,42646,42646,42648,42648,42650,42650,42652,42653,42654,42655,
  42656,42657,42658,42659,42660,42661,42662,42663,42664,42665,42666,42667,42668,42669,42670,42671,
  42672,42673,42674,42675,42676,42677,42678,42679,42680,42681,42682,42683,42684,42685,42686,42687,
  42688,42689,42690,42691,42692,42693,42694,42695,42696,42697,42698,42699,42700,42701,42702,42703,
  42704,42705,42706,42707,42708,42709,42710,42711,42712,42713,42714,42715,42716,42717,42718,42719,
  42720,42721,42722,42723,42724,42725,42726,42727,42728,42729,42730,42731,42732,42733,42734,42735,
  42736,42737,42738,42739,42740,42741,42742,42743,42744,42745,42746,42747,42748,42749,42750,42751
>>
UpPage167 == <<
  42752,42753,42754,42755,42756,42757,42758,42759,42760,42761,42762,42763,42764,42765,42766,42767,
  42768,42769,42770,42771,42772,42773,42774,42775,42776,42777,42778,42779,42780,42781,42782,42783,
  42784,42785,42786,42786,42788,42788,42790,42790,42792,42792,42794,42794,42796,42796,42798,42798,
  42800,42801,42802,42802,42804,42804,42806,42806,42808,42808,42810,42810,42812,42812,42814,42814,
  42816,42816,42818,42818,42820,42820,42822,42822,42824,42824,42826,42826,42828,42828,42830,42830,
  42832,42832,42834,42834,42836,42836,42838,42838,42840,42840,42842,42842,42844,42844,42846,42846,
  42848,42848,42850,42850,42852,42852,42854,42854,42856,42856,42858,42858,42860,42860,42862,42862,
  42864,42865,42866,42867,42868,42869,42870,42871,42872,42873,42873,42875,42875,42877,42878,42878,
  42880,42880,42882,42882,42884,42884,42886,42886,42888,42889,42890,42891,42891,42893,42894,42895,
  42896,42896,42898,42898,42948,42901,42902,42902,42904,42904,42906,42906,42908,42908,42910,42910,
  42912,42912,42914,42914,42916,42916,42918,42918,42920,42920,42922,42923,42924,42925,42926,42927,
  42928,42929,42930,42931,42932,42932,42934,42934,42936,42936,42938,42938,42940,42940,42942,42942,
  42944,42945,42946,42946,42948,42949,42950,42951,42951,42953,42953,42955,42956,42957,42958,42959,
  42960,42961,42962,42963,42964,42965,42966,42967,42968,42969,42970,42971,42972,42973,42974,42975,
  42976,42977,42978,42979,42980,42981,42982,42983,42984,42985,42986,42987,42988,42989,42990,42991,
  42992,42993,42994,42995,42996,42997,42997,42999,43000,43001,43002,43003,43004,43005,43006,43007
>>
UpPage171 == <<
  43776,43777,43778,43779,43780,43781,43782,43783,43784,43785,43786,43787,43788,43789,43790,43791,
  43792,43793,43794,43795,43796,43797,43798,43799,43800,43801,43802,43803,43804,43805,43806,43807,
  43808,43809,43810,43811,43812,43813,43814,43815,43816,43817,43818,43819,43820,43821,43822,43823,
  43824,43825,43826,43827,43828,43829,43830,43831,43832,43833,43834,43835,43836,43837,43838,43839,
  43840,43841,43842,43843,43844,43845,43846,43847,43848,43849,43850,43851,43852,43853,43854,43855,
  43856,43857,43858,42931,43860,43861,43862,43863,43864,43865,43866,43867,43868,43869,43870,43871,
  43872,43873,43874,43875,43876,43877,43878,43879,43880,43881,43882,43883,43884,43885,43886,43887,
  5024,5025,5026,5027,5028,5029,5030,5031,5032,5033,5034,5035,5036,5037,5038,5039,
  5040,5041,5042,5043,5044,5045,5046,5047,5048,5049,5050,5051,5052,5053,5054,5055,
  5056,5057,5058,5059,5060,5061,5062,5063,5064,5065,5066,5067,5068,5069,5070,5071,
  5072,5073,5074,5075,5076,5077,5078,5079,5080,5081,5082,5083,5084,5085,5086,5087,
  5088,5089,5090,5091,5092,5093,5094,5095,5096,5097,5098,5099,5100,5101,5102,5103,
  43968,43969,43970,43971,43972,43973,43974,43975,43976,43977,43978,43979,43980,43981,43982,43983,
  43984,43985,43986,43987,43988,43989,43990,43991,43992,43993,43994,43995,43996,43997,43998,43999,
  44000,44001,44002,44003,44004,44005,44006,44007,44008,44009,44010,44011,44012,44013,44014,44015,
  44016,44017,44018,44019,44020,44021,44022,44023,44024,44025,44026,44027,44028,44029,44030,44031
>>
UpPage255 == <<
  65280,65281,65282,65283,65284,65285,65286,65287,65288,65289,65290,65291,65292,65293,65294,65295,
  65296,65297,65298,65299,65300,65301,65302,65303,65304,65305,65306,65307,65308,65309,65310,65311,
  65312,65313,65314,65315,65316,65317,65318,65319,65320,65321,65322,65323,65324,65325,65326,65327,
  65328,65329,65330,65331,65332,65333,65334,65335,65336,65337,65338,65339,65340,65341,65342,65343,
  65344,65313,65314,65315,65316,65317,65318,65319,65320,65321,65322,65323,65324,65325,65326,65327,
  65328,65329,65330,65331,65332,65333,65334,65335,65336,65337,65338,65371,65372,65373,65374,65375,
  65376,65377,65378,65379,65380,65381,65382,65383,65384,65385,65386,65387,65388,65389,65390,65391,
  65392,65393,65394,65395,65396,65397,65398,65399,65400,65401,65402,65403,65404,65405,65406,65407,
  65408,65409,65410,65411,65412,65413,65414,65415,65416,65417,65418,65419,65420,65421,65422,65423,
  65424,65425,65426,65427,65428,65429,65430,65431,65432,65433,65434,65435,65436,65437,65438,65439,
  65440,65441,65442,65443,65444,65445,65446,65447,65448,65449,65450,65451,65452,65453,65454,65455,
  65456,65457,65458,65459,65460,65461,65462,65463,65464,65465,65466,65467,65468,65469,65470,65471,
  65472,65473,65474,65475,65476,65477,65478,65479,65480,65481,65482,65483,65484,65485,65486,65487,
  65488,65489,65490,65491,65492,65493,65494,65495,65496,65497,65498,65499,65500,65501,65502,65503,
  65504,65505,65506,65507,65508,65509,65510,65511,65512,65513,65514,65515,65516,65517,65518,65519,
  65520,65521,65522,65523,65524,65525,65526,65527,65528,65529,65530,65531,65532,65533,65534,65535
>>

UpPages == <<
  UpPage0, UpPage1, UpPage2, UpPage3, UpPage4, UpPage5, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  UpPage16, <<>>, <<>>, UpPage19, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, UpPage28, UpPage29, UpPage30, UpPage31,
  <<>>, UpPage33, <<>>, <<>>, UpPage36, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, UpPage44, UpPage45, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, UpPage166, UpPage167,
  <<>>, <<>>, <<>>, UpPage171, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>,
  <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, UpPage255
>>

(* the uppercase code unit of a code unit; surrogates and units without a mapping stay *)
Up(u) == IF u < 128 THEN IF u >= 97 /\ u <= 122 THEN u - 32 ELSE u
         ELSE LET pg == UpPages[u \div 256 + 1]
              IN IF pg = <<>> THEN u ELSE pg[(u % 256) + 1]
=============================================================================
