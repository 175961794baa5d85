// generated by tools/mkgrid.py
static const int kGridStart = 816, kGridFinal = 816, kGridStates = 820;
static const unsigned short kGridOff[] = {0,1,4,16,27,41,44,50,53,56,59,62,65,68,71,74,77,88,91,96,101,106,116,125,128,133,138,141,144,149,154,159,169,172,177,182,185,211,216,221,230,233,238,243,246,263,282,301,320,339,358,377,382,387,392,395,398,401,406,411,414,433,452,471,489,508,527,546,565,584,602,621,640,659,678,697,716,723,728,733,740,743,750,757,760,765,770,773,778,783,786,805,824,843,862,881,900,919,924,929,934,937,940,943,948,953,956,975,994,1013,1031,1050,1069,1088,1095,1100,1105,1116,1123,1132,1137,1142,1145,1148,1151,1156,1161,1164,1175,1186,1189,1194,1199,1202,1207,1212,1215,1236,1257,1276,1295,1314,1333,1351,1370,1389,1408,1427,1445,1464,1483,1503,1508,1513,1518,1521,1524,1527,1532,1537,1540,1549,1554,1559,1569,1572,1577,1582,1585,1590,1595,1600,1610,1613,1618,1623,1626,1633,1638,1643,1657,1666,1680,1694,1697,1702,1707,1710,1715,1720,1723,1726,1731,1736,1741,1751,1754,1759,1764,1767,1770,1773,1776,1779,1782,1785,1788,1791,1794,1805,1808,1811,1814,1825,1851,1860,1863,1868,1873,1878,1888,1897,1900,1905,1910,1913,1916,1921,1926,1931,1941,1944,1949,1954,1957,1983,1988,1993,2003,2012,2015,2020,2025,2028,2046,2066,2086,2106,2126,2146,2166,2171,2176,2181,2184,2187,2190,2195,2200,2203,2223,2243,2263,2282,2302,2322,2342,2362,2382,2401,2421,2441,2461,2481,2501,2521,2528,2533,2538,2545,2548,2555,2562,2565,2570,2575,2578,2583,2588,2591,2611,2631,2651,2671,2691,2711,2731,2736,2741,2746,2749,2752,2755,2760,2765,2768,2788,2808,2828,2847,2867,2887,2907,2914,2919,2924,2935,2942,2951,2956,2961,2964,2967,2970,2975,2980,2983,2994,3005,3008,3013,3018,3021,3026,3031,3034,3056,3078,3098,3118,3138,3158,3177,3197,3217,3237,3257,3276,3296,3316,3337,3342,3347,3352,3355,3358,3361,3366,3371,3374,3383,3388,3393,3403,3406,3411,3416,3419,3424,3429,3434,3444,3447,3452,3457,3460,3467,3472,3477,3491,3500,3514,3528,3531,3536,3541,3544,3549,3554,3557,3560,3565,3570,3575,3585,3588,3593,3598,3601,3616,3619,3622,3625,3628,3631,3634,3637,3640,3643,3646,3649,3652,3655,3658,3661,3664,3669,3680,3683,3686,3689,3692,3695,3698,3701,3704,3707,3710,3713,3716,3721,3724,3727,3730,3733,3744,3747,3750,3753,3756,3759,3764,3767,3770,3773,3776,3787,3790,3793,3796,3799,3802,3805,3816,3819,3822,3825,3828,3833,3836,3839,3842,3845,3856,3859,3862,3865,3868,3871,3874,3885,3890,3893,3896,3899,3914,3917,3920,3923,3926,3929,3932,3935,3938,3941,3944,3947,3950,3953,3956,3959,3962,3967,3972,3983,3986,3989,3992,3995,3998,4001,4004,4007,4010,4013,4016,4019,4024,4027,4030,4033,4036,4041,4044,4047,4050,4053,4056,4061,4064,4067,4070,4073,4078,4081,4084,4087,4090,4093,4096,4101,4104,4107,4110,4113,4118,4121,4124,4127,4130,4135,4138,4141,4144,4147,4150,4153,4158,4161,4164,4167,4174,4177,4180,4183,4186,4189,4198,4201,4208,4213,4220,4223,4228,4231,4234,4237,4240,4243,4246,4249,4252,4255,4258,4261,4266,4269,4272,4275,4278,4281,4290,4293,4300,4305,4312,4315,4320,4323,4326,4329,4332,4335,4338,4341,4344,4347,4350,4353,4356,4359,4362,4371,4374,4381,4386,4393,4396,4401,4404,4407,4410,4413,4416,4419,4422,4425,4428,4431,4434,4437,4440,4443,4452,4455,4462,4467,4474,4477,4482,4485,4488,4491,4494,4497,4500,4503,4506,4509,4512,4515,4520,4523,4526,4529,4532,4537,4540,4543,4546,4549,4552,4555,4560,4563,4566,4569,4572,4575,4578,4581,4584,4587,4590,4593,4596,4603,4608,4613,4620,4625,4632,4639,4642,4647,4652,4655,4660,4665,4668,4671,4674,4681,4684,4687,4690,4693,4696,4705,4708,4715,4726,4733,4736,4741,4744,4747,4750,4753,4756,4759,4762,4765,4768,4771,4774,4779,4782,4785,4788,4791,4794,4803,4806,4813,4824,4831,4834,4839,4842,4845,4848,4851,4854,4857,4860,4863,4866,4869,4872,4875,4878,4881,4890,4893,4900,4911,4918,4921,4926,4929,4932,4935,4938,4941,4944,4947,4950,4953,4956,4959,4962,4965,4968,4977,4980,4987,4998,5005,5008,5013,5016,5019,5022,5025,5028,5031,5034,5037,5040,5043,5046,5051,5054,5057,5060,5063,5074,5077,5080,5083,5086,5089,5092,5103,5106,5109,5112,5115,5118,5121,5124,5127,5130,5133,5136,5139,5146,5151,5156,5163,5174,5181,5188,5191,5196,5201,5204,5209,5214,5217,5227,5237,5256,5263,5266,5279,5292,5305,5318,5331};
struct GridEdge { unsigned char lo, hi; unsigned short to; };
static const GridEdge kGridEdges[] = {
{0,255,816},{0,9,1},{10,10,816},{11,255,1},{0,41,0},{42,42,3},{43,43,810},{44,46,0},{47,47,813},{48,62,0},{63,63,811},{64,64,0},
{65,90,812},{91,96,0},{97,122,812},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,57,0},{58,58,398},
{59,61,0},{62,62,816},{63,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,61,0},{62,62,816},{63,63,0},
{64,64,6},{65,90,213},{91,96,0},{97,122,213},{123,255,0},{0,61,0},{62,62,817},{63,255,0},{0,104,0},{105,105,7},{106,114,0},{115,115,199},
{116,116,209},{117,255,0},{0,109,0},{110,110,8},{111,255,0},{0,109,0},{110,110,9},{111,255,0},{0,100,0},{101,101,10},{102,255,0},{0,113,0},
{114,114,11},{115,255,0},{0,44,0},{45,45,12},{46,255,0},{0,103,0},{104,104,13},{105,255,0},{0,115,0},{116,116,14},{117,255,0},{0,108,0},
{109,109,15},{110,255,0},{0,107,0},{108,108,16},{109,255,0},{0,35,0},{36,36,17},{37,41,0},{42,42,27},{43,57,0},{58,58,36},{59,60,0},
{61,61,160},{62,93,0},{94,94,190},{95,255,0},{0,60,0},{61,61,18},{62,255,0},{0,33,0},{34,34,19},{35,38,0},{39,39,24},{40,255,0},
{0,33,20},{34,34,21},{35,91,20},{92,92,23},{93,255,20},{0,33,20},{34,34,21},{35,91,20},{92,92,23},{93,255,20},{0,8,0},{9,13,4},
{14,31,0},{32,32,4},{33,33,22},{34,46,0},{47,47,5},{48,61,0},{62,62,816},{63,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},
{33,46,0},{47,47,5},{48,61,0},{62,62,816},{63,255,0},{0,91,20},{92,92,23},{93,255,20},{0,38,25},{39,39,21},{40,91,25},{92,92,26},
{93,255,25},{0,38,25},{39,39,21},{40,91,25},{92,92,26},{93,255,25},{0,91,25},{92,92,26},{93,255,25},{0,60,0},{61,61,28},{62,255,0},
{0,33,0},{34,34,29},{35,38,0},{39,39,33},{40,255,0},{0,33,30},{34,34,31},{35,91,30},{92,92,32},{93,255,30},{0,33,30},{34,34,31},
{35,91,30},{92,92,32},{93,255,30},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,33,22},{34,46,0},{47,47,5},{48,61,0},{62,62,816},
{63,255,0},{0,91,30},{92,92,32},{93,255,30},{0,38,34},{39,39,31},{40,91,34},{92,92,35},{93,255,34},{0,38,34},{39,39,31},{40,91,34},
{92,92,35},{93,255,34},{0,91,34},{92,92,35},{93,255,34},{0,33,0},{34,34,37},{35,38,0},{39,39,41},{40,44,0},{45,46,44},{47,47,0},
{48,57,44},{58,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,97,45},{98,98,44},{99,99,60},{100,101,44},{102,102,70},{103,111,44},
{112,112,90},{113,113,44},{114,114,106},{115,115,44},{116,116,136},{117,122,44},{123,255,0},{0,33,38},{34,34,39},{35,91,38},{92,92,40},{93,255,38},
{0,33,38},{34,34,39},{35,91,38},{92,92,40},{93,255,38},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,61,0},
{62,62,816},{63,255,0},{0,91,38},{92,92,40},{93,255,38},{0,38,42},{39,39,39},{40,91,42},{92,92,43},{93,255,42},{0,38,42},{39,39,39},
{40,91,42},{92,92,43},{93,255,42},{0,91,42},{92,92,43},{93,255,42},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},
{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,122,44},{123,255,0},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},
{95,95,44},{96,96,0},{97,111,44},{112,112,46},{113,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},
{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,111,44},{112,112,47},{113,122,44},
{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},
{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,100,44},{101,101,48},{102,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},
{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,109,44},
{110,110,49},{111,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},
{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,99,44},{100,100,50},{101,122,44},{123,255,0},{0,8,0},{9,13,4},
{14,31,0},{32,32,4},{33,39,0},{40,40,51},{41,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},
{91,94,0},{95,95,44},{96,96,0},{97,122,44},{123,255,0},{0,33,0},{34,34,52},{35,38,0},{39,39,57},{40,255,0},{0,33,53},{34,34,54},
{35,91,53},{92,92,56},{93,255,53},{0,33,53},{34,34,54},{35,91,53},{92,92,56},{93,255,53},{0,40,0},{41,41,55},{42,255,0},{0,57,0},
{58,58,36},{59,255,0},{0,91,53},{92,92,56},{93,255,53},{0,38,58},{39,39,54},{40,91,58},{92,92,59},{93,255,58},{0,38,58},{39,39,54},
{40,91,58},{92,92,59},{93,255,58},{0,91,58},{92,92,59},{93,255,58},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},
{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,110,44},{111,111,61},{112,122,44},
{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},
{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,107,44},{108,108,62},{109,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},
{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,107,44},
{108,108,63},{109,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},
{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,97,64},{98,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},
{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},
{97,111,44},{112,112,65},{113,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},
{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,114,44},{115,115,66},{116,122,44},{123,255,0},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},
{95,95,44},{96,96,0},{97,100,44},{101,101,67},{102,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},
{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,118,44},{119,119,68},{120,122,44},
{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},
{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,114,44},{115,115,69},{116,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},
{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,58,36},{59,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},
{97,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},
{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,104,44},{105,105,71},{106,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},
{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},
{97,107,44},{108,108,72},{109,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},
{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,115,44},{116,116,73},{117,122,44},{123,255,0},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},
{95,95,44},{96,96,0},{97,100,44},{101,101,74},{102,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},
{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,113,44},{114,114,75},{115,122,44},
{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,39,0},{40,40,76},{41,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},
{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,122,44},{123,255,0},{0,33,0},{34,34,77},{35,38,0},{39,39,84},
{40,46,0},{47,47,87},{48,255,0},{0,33,78},{34,34,79},{35,91,78},{92,92,83},{93,255,78},{0,33,78},{34,34,79},{35,91,78},{92,92,83},
{93,255,78},{0,40,0},{41,41,80},{42,98,0},{99,99,81},{100,104,0},{105,105,82},{106,255,0},{0,57,0},{58,58,36},{59,255,0},{0,40,0},
{41,41,80},{42,98,0},{99,99,81},{100,104,0},{105,105,82},{106,255,0},{0,40,0},{41,41,80},{42,98,0},{99,99,81},{100,104,0},{105,105,82},
{106,255,0},{0,91,78},{92,92,83},{93,255,78},{0,38,85},{39,39,79},{40,91,85},{92,92,86},{93,255,85},{0,38,85},{39,39,79},{40,91,85},
{92,92,86},{93,255,85},{0,91,85},{92,92,86},{93,255,85},{0,46,88},{47,47,79},{48,91,88},{92,92,89},{93,255,88},{0,46,88},{47,47,79},
{48,91,88},{92,92,89},{93,255,88},{0,91,88},{92,92,89},{93,255,88},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},
{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,113,44},{114,114,91},{115,122,44},
{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},
{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,100,44},{101,101,92},{102,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},
{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,111,44},
{112,112,93},{113,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},
{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,100,44},{101,101,94},{102,122,44},{123,255,0},{0,8,0},{9,13,4},
{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},
{96,96,0},{97,109,44},{110,110,95},{111,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},
{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,99,44},{100,100,96},{101,122,44},{123,255,0},
{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,39,0},{40,40,97},{41,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},
{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,122,44},{123,255,0},{0,33,0},{34,34,98},{35,38,0},{39,39,103},{40,255,0},
{0,33,99},{34,34,100},{35,91,99},{92,92,102},{93,255,99},{0,33,99},{34,34,100},{35,91,99},{92,92,102},{93,255,99},{0,40,0},{41,41,101},
{42,255,0},{0,57,0},{58,58,36},{59,255,0},{0,91,99},{92,92,102},{93,255,99},{0,38,104},{39,39,100},{40,91,104},{92,92,105},{93,255,104},
{0,38,104},{39,39,100},{40,91,104},{92,92,105},{93,255,104},{0,91,104},{92,92,105},{93,255,104},{0,8,0},{9,13,4},{14,31,0},{32,32,4},
{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,100,44},
{101,101,107},{102,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},
{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,111,44},{112,112,108},{113,122,44},{123,255,0},{0,8,0},{9,13,4},
{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},
{96,96,0},{97,107,44},{108,108,109},{109,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},
{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,97,110},{98,122,44},{123,255,0},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},
{95,95,44},{96,96,0},{97,98,44},{99,99,111},{100,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},
{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,100,44},{101,101,112},{102,122,44},
{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,39,0},{40,40,113},{41,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},
{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,122,44},{123,255,0},{0,33,0},{34,34,114},{35,38,0},{39,39,130},
{40,46,0},{47,47,133},{48,255,0},{0,33,115},{34,34,116},{35,91,115},{92,92,129},{93,255,115},{0,33,115},{34,34,116},{35,91,115},{92,92,129},
{93,255,115},{0,8,0},{9,13,117},{14,31,0},{32,32,117},{33,43,0},{44,44,118},{45,98,0},{99,99,127},{100,104,0},{105,105,128},{106,255,0},
{0,8,0},{9,13,117},{14,31,0},{32,32,117},{33,43,0},{44,44,118},{45,255,0},{0,8,0},{9,13,118},{14,31,0},{32,32,118},{33,33,0},
{34,34,119},{35,38,0},{39,39,124},{40,255,0},{0,33,120},{34,34,121},{35,91,120},{92,92,123},{93,255,120},{0,33,120},{34,34,121},{35,91,120},
{92,92,123},{93,255,120},{0,40,0},{41,41,122},{42,255,0},{0,57,0},{58,58,36},{59,255,0},{0,91,120},{92,92,123},{93,255,120},{0,38,125},
{39,39,121},{40,91,125},{92,92,126},{93,255,125},{0,38,125},{39,39,121},{40,91,125},{92,92,126},{93,255,125},{0,91,125},{92,92,126},{93,255,125},
{0,8,0},{9,13,117},{14,31,0},{32,32,117},{33,43,0},{44,44,118},{45,98,0},{99,99,127},{100,104,0},{105,105,128},{106,255,0},{0,8,0},
{9,13,117},{14,31,0},{32,32,117},{33,43,0},{44,44,118},{45,98,0},{99,99,127},{100,104,0},{105,105,128},{106,255,0},{0,91,115},{92,92,129},
{93,255,115},{0,38,131},{39,39,116},{40,91,131},{92,92,132},{93,255,131},{0,38,131},{39,39,116},{40,91,131},{92,92,132},{93,255,131},{0,91,131},
{92,92,132},{93,255,131},{0,46,134},{47,47,116},{48,91,134},{92,92,135},{93,255,134},{0,46,134},{47,47,116},{48,91,134},{92,92,135},{93,255,134},
{0,91,134},{92,92,135},{93,255,134},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},
{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,110,44},{111,111,137},{112,113,44},{114,114,148},{115,122,44},{123,255,0},
{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},
{91,94,0},{95,95,44},{96,96,0},{97,107,44},{108,108,138},{109,116,44},{117,117,143},{118,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},
{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},
{97,110,44},{111,111,139},{112,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},
{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,118,44},{119,119,140},{120,122,44},{123,255,0},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},
{95,95,44},{96,96,0},{97,100,44},{101,101,141},{102,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},
{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,113,44},{114,114,142},{115,122,44},
{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,58,36},{59,61,0},{62,62,816},
{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},
{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,111,44},{112,112,144},
{113,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},
{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,111,44},{112,112,145},{113,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},
{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},
{97,100,44},{101,101,146},{102,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},
{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,113,44},{114,114,147},{115,122,44},{123,255,0},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,58,36},{59,61,0},{62,62,816},{63,64,0},{65,90,44},
{91,94,0},{95,95,44},{96,96,0},{97,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},
{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},{96,96,0},{97,104,44},{105,105,149},{106,122,44},{123,255,0},
{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,44},{47,47,5},{48,57,44},{58,61,0},{62,62,816},{63,64,0},{65,90,44},
{91,94,0},{95,95,44},{96,96,0},{97,108,44},{109,109,150},{110,122,44},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,39,0},
{40,40,151},{41,44,0},{45,46,44},{47,47,5},{48,57,44},{58,58,36},{59,61,0},{62,62,816},{63,64,0},{65,90,44},{91,94,0},{95,95,44},
{96,96,0},{97,122,44},{123,255,0},{0,33,0},{34,34,152},{35,38,0},{39,39,157},{40,255,0},{0,33,153},{34,34,154},{35,91,153},{92,92,156},
{93,255,153},{0,33,153},{34,34,154},{35,91,153},{92,92,156},{93,255,153},{0,40,0},{41,41,155},{42,255,0},{0,57,0},{58,58,36},{59,255,0},
{0,91,153},{92,92,156},{93,255,153},{0,38,158},{39,39,154},{40,91,158},{92,92,159},{93,255,158},{0,38,158},{39,39,154},{40,91,158},{92,92,159},
{93,255,158},{0,91,158},{92,92,159},{93,255,158},{0,33,0},{34,34,161},{35,38,0},{39,39,165},{40,60,0},{61,61,168},{62,125,0},{126,126,176},
{127,255,0},{0,33,162},{34,34,163},{35,91,162},{92,92,164},{93,255,162},{0,33,162},{34,34,163},{35,91,162},{92,92,164},{93,255,162},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,33,22},{34,46,0},{47,47,5},{48,61,0},{62,62,816},{63,255,0},{0,91,162},{92,92,164},{93,255,162},
{0,38,166},{39,39,163},{40,91,166},{92,92,167},{93,255,166},{0,38,166},{39,39,163},{40,91,166},{92,92,167},{93,255,166},{0,91,166},{92,92,167},
{93,255,166},{0,33,0},{34,34,169},{35,38,0},{39,39,173},{40,255,0},{0,33,170},{34,34,171},{35,91,170},{92,92,172},{93,255,170},{0,33,170},
{34,34,171},{35,91,170},{92,92,172},{93,255,170},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,33,22},{34,46,0},{47,47,5},{48,61,0},
{62,62,816},{63,255,0},{0,91,170},{92,92,172},{93,255,170},{0,38,174},{39,39,171},{40,91,174},{92,92,175},{93,255,174},{0,38,174},{39,39,171},
{40,91,174},{92,92,175},{93,255,174},{0,91,174},{92,92,175},{93,255,174},{0,33,0},{34,34,177},{35,38,0},{39,39,184},{40,46,0},{47,47,187},
{48,255,0},{0,33,178},{34,34,179},{35,91,178},{92,92,183},{93,255,178},{0,33,178},{34,34,179},{35,91,178},{92,92,183},{93,255,178},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,33,180},{34,46,0},{47,47,5},{48,61,0},{62,62,816},{63,98,0},{99,99,181},{100,104,0},{105,105,182},
{106,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,61,0},{62,62,816},{63,255,0},{0,8,0},{9,13,4},
{14,31,0},{32,32,4},{33,33,180},{34,46,0},{47,47,5},{48,61,0},{62,62,816},{63,98,0},{99,99,181},{100,104,0},{105,105,182},{106,255,0},
{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,33,180},{34,46,0},{47,47,5},{48,61,0},{62,62,816},{63,98,0},{99,99,181},{100,104,0},
{105,105,182},{106,255,0},{0,91,178},{92,92,183},{93,255,178},{0,38,185},{39,39,179},{40,91,185},{92,92,186},{93,255,185},{0,38,185},{39,39,179},
{40,91,185},{92,92,186},{93,255,185},{0,91,185},{92,92,186},{93,255,185},{0,46,188},{47,47,179},{48,91,188},{92,92,189},{93,255,188},{0,46,188},
{47,47,179},{48,91,188},{92,92,189},{93,255,188},{0,91,188},{92,92,189},{93,255,188},{0,60,0},{61,61,191},{62,255,0},{0,33,0},{34,34,192},
{35,38,0},{39,39,196},{40,255,0},{0,33,193},{34,34,194},{35,91,193},{92,92,195},{93,255,193},{0,33,193},{34,34,194},{35,91,193},{92,92,195},
{93,255,193},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,33,22},{34,46,0},{47,47,5},{48,61,0},{62,62,816},{63,255,0},{0,91,193},
{92,92,195},{93,255,193},{0,38,197},{39,39,194},{40,91,197},{92,92,198},{93,255,197},{0,38,197},{39,39,194},{40,91,197},{92,92,198},{93,255,197},
{0,91,197},{92,92,198},{93,255,197},{0,115,0},{116,116,200},{117,255,0},{0,113,0},{114,114,201},{115,255,0},{0,104,0},{105,105,202},{106,255,0},
{0,111,0},{112,112,203},{113,255,0},{0,44,0},{45,45,204},{46,255,0},{0,115,0},{116,116,205},{117,255,0},{0,96,0},{97,97,206},{98,255,0},
{0,102,0},{103,103,207},{104,255,0},{0,114,0},{115,115,208},{116,255,0},{0,35,0},{36,36,17},{37,41,0},{42,42,27},{43,57,0},{58,58,36},
{59,60,0},{61,61,160},{62,93,0},{94,94,190},{95,255,0},{0,100,0},{101,101,210},{102,255,0},{0,119,0},{120,120,211},{121,255,0},{0,115,0},
{116,116,212},{117,255,0},{0,35,0},{36,36,17},{37,41,0},{42,42,27},{43,57,0},{58,58,36},{59,60,0},{61,61,160},{62,93,0},{94,94,190},
{95,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,33,214},{34,35,0},{36,36,215},{37,41,0},{42,42,225},{43,44,0},{45,45,213},
{46,46,0},{47,47,5},{48,57,213},{58,58,234},{59,60,0},{61,61,359},{62,62,816},{63,64,0},{65,90,213},{91,93,0},{94,94,389},{95,95,213},
{96,96,0},{97,122,213},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,61,0},{62,62,816},{63,255,0},
{0,60,0},{61,61,216},{62,255,0},{0,33,0},{34,34,217},{35,38,0},{39,39,222},{40,255,0},{0,33,218},{34,34,219},{35,91,218},{92,92,221},
{93,255,218},{0,33,218},{34,34,219},{35,91,218},{92,92,221},{93,255,218},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,33,220},{34,46,0},
{47,47,5},{48,61,0},{62,62,816},{63,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,61,0},{62,62,816},
{63,255,0},{0,91,218},{92,92,221},{93,255,218},{0,38,223},{39,39,219},{40,91,223},{92,92,224},{93,255,223},{0,38,223},{39,39,219},{40,91,223},
{92,92,224},{93,255,223},{0,91,223},{92,92,224},{93,255,223},{0,60,0},{61,61,226},{62,255,0},{0,33,0},{34,34,227},{35,38,0},{39,39,231},
{40,255,0},{0,33,228},{34,34,229},{35,91,228},{92,92,230},{93,255,228},{0,33,228},{34,34,229},{35,91,228},{92,92,230},{93,255,228},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,33,220},{34,46,0},{47,47,5},{48,61,0},{62,62,816},{63,255,0},{0,91,228},{92,92,230},{93,255,228},
{0,38,232},{39,39,229},{40,91,232},{92,92,233},{93,255,232},{0,38,232},{39,39,229},{40,91,232},{92,92,233},{93,255,232},{0,91,232},{92,92,233},
{93,255,232},{0,33,0},{34,34,235},{35,38,0},{39,39,240},{40,44,0},{45,46,243},{47,47,0},{48,57,243},{58,64,0},{65,90,243},{91,94,0},
{95,95,243},{96,96,0},{97,97,244},{98,98,243},{99,99,259},{100,101,243},{102,102,269},{103,111,243},{112,112,289},{113,113,243},{114,114,305},{115,115,243},
{116,116,335},{117,122,243},{123,255,0},{0,33,236},{34,34,237},{35,91,236},{92,92,239},{93,255,236},{0,33,236},{34,34,237},{35,91,236},{92,92,239},
{93,255,236},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,61,0},{62,62,816},{63,63,238},{64,255,0},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,61,0},{62,62,816},{63,255,0},{0,91,236},{92,92,239},{93,255,236},{0,38,241},
{39,39,237},{40,91,241},{92,92,242},{93,255,241},{0,38,241},{39,39,237},{40,91,241},{92,92,242},{93,255,241},{0,91,241},{92,92,242},{93,255,241},
{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},
{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},
{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,111,243},{112,112,245},
{113,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},
{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,111,243},{112,112,246},{113,122,243},{123,255,0},{0,8,0},{9,13,4},
{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},
{95,95,243},{96,96,0},{97,100,243},{101,101,247},{102,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},
{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,109,243},{110,110,248},
{111,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},
{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,99,243},{100,100,249},{101,122,243},{123,255,0},{0,8,0},{9,13,4},
{14,31,0},{32,32,4},{33,39,0},{40,40,250},{41,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},
{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,122,243},{123,255,0},{0,33,0},{34,34,251},{35,38,0},{39,39,256},{40,255,0},{0,33,252},
{34,34,253},{35,91,252},{92,92,255},{93,255,252},{0,33,252},{34,34,253},{35,91,252},{92,92,255},{93,255,252},{0,40,0},{41,41,254},{42,255,0},
{0,57,0},{58,58,234},{59,255,0},{0,91,252},{92,92,255},{93,255,252},{0,38,257},{39,39,253},{40,91,257},{92,92,258},{93,255,257},{0,38,257},
{39,39,253},{40,91,257},{92,92,258},{93,255,257},{0,91,257},{92,92,258},{93,255,257},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},
{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,110,243},
{111,111,260},{112,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},
{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,107,243},{108,108,261},{109,122,243},{123,255,0},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},
{91,94,0},{95,95,243},{96,96,0},{97,107,243},{108,108,262},{109,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},
{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,97,263},
{98,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},
{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,111,243},{112,112,264},{113,122,243},{123,255,0},{0,8,0},{9,13,4},
{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},
{95,95,243},{96,96,0},{97,114,243},{115,115,265},{116,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},
{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,100,243},{101,101,266},
{102,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},
{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,118,243},{119,119,267},{120,122,243},{123,255,0},{0,8,0},{9,13,4},
{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},
{95,95,243},{96,96,0},{97,114,243},{115,115,268},{116,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},
{47,47,5},{48,57,243},{58,58,234},{59,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,122,243},
{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},
{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,104,243},{105,105,270},{106,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},
{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},
{96,96,0},{97,107,243},{108,108,271},{109,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},
{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,115,243},{116,116,272},{117,122,243},
{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},
{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,100,243},{101,101,273},{102,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},
{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},
{96,96,0},{97,113,243},{114,114,274},{115,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,39,0},{40,40,275},{41,44,0},
{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,122,243},
{123,255,0},{0,33,0},{34,34,276},{35,38,0},{39,39,283},{40,46,0},{47,47,286},{48,255,0},{0,33,277},{34,34,278},{35,91,277},{92,92,282},
{93,255,277},{0,33,277},{34,34,278},{35,91,277},{92,92,282},{93,255,277},{0,40,0},{41,41,279},{42,98,0},{99,99,280},{100,104,0},{105,105,281},
{106,255,0},{0,57,0},{58,58,234},{59,255,0},{0,40,0},{41,41,279},{42,98,0},{99,99,280},{100,104,0},{105,105,281},{106,255,0},{0,40,0},
{41,41,279},{42,98,0},{99,99,280},{100,104,0},{105,105,281},{106,255,0},{0,91,277},{92,92,282},{93,255,277},{0,38,284},{39,39,278},{40,91,284},
{92,92,285},{93,255,284},{0,38,284},{39,39,278},{40,91,284},{92,92,285},{93,255,284},{0,91,284},{92,92,285},{93,255,284},{0,46,287},{47,47,278},
{48,91,287},{92,92,288},{93,255,287},{0,46,287},{47,47,278},{48,91,287},{92,92,288},{93,255,287},{0,91,287},{92,92,288},{93,255,287},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},
{91,94,0},{95,95,243},{96,96,0},{97,113,243},{114,114,290},{115,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},
{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,100,243},
{101,101,291},{102,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},
{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,111,243},{112,112,292},{113,122,243},{123,255,0},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},
{91,94,0},{95,95,243},{96,96,0},{97,100,243},{101,101,293},{102,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},
{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,109,243},
{110,110,294},{111,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},
{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,99,243},{100,100,295},{101,122,243},{123,255,0},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,39,0},{40,40,296},{41,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},
{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,122,243},{123,255,0},{0,33,0},{34,34,297},{35,38,0},{39,39,302},{40,255,0},
{0,33,298},{34,34,299},{35,91,298},{92,92,301},{93,255,298},{0,33,298},{34,34,299},{35,91,298},{92,92,301},{93,255,298},{0,40,0},{41,41,300},
{42,255,0},{0,57,0},{58,58,234},{59,255,0},{0,91,298},{92,92,301},{93,255,298},{0,38,303},{39,39,299},{40,91,303},{92,92,304},{93,255,303},
{0,38,303},{39,39,299},{40,91,303},{92,92,304},{93,255,303},{0,91,303},{92,92,304},{93,255,303},{0,8,0},{9,13,4},{14,31,0},{32,32,4},
{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},
{97,100,243},{101,101,306},{102,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},
{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,111,243},{112,112,307},{113,122,243},{123,255,0},
{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},
{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,107,243},{108,108,308},{109,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},
{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},
{97,97,309},{98,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},
{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,98,243},{99,99,310},{100,122,243},{123,255,0},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},
{91,94,0},{95,95,243},{96,96,0},{97,100,243},{101,101,311},{102,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,39,0},
{40,40,312},{41,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},
{96,96,0},{97,122,243},{123,255,0},{0,33,0},{34,34,313},{35,38,0},{39,39,329},{40,46,0},{47,47,332},{48,255,0},{0,33,314},{34,34,315},
{35,91,314},{92,92,328},{93,255,314},{0,33,314},{34,34,315},{35,91,314},{92,92,328},{93,255,314},{0,8,0},{9,13,316},{14,31,0},{32,32,316},
{33,43,0},{44,44,317},{45,98,0},{99,99,326},{100,104,0},{105,105,327},{106,255,0},{0,8,0},{9,13,316},{14,31,0},{32,32,316},{33,43,0},
{44,44,317},{45,255,0},{0,8,0},{9,13,317},{14,31,0},{32,32,317},{33,33,0},{34,34,318},{35,38,0},{39,39,323},{40,255,0},{0,33,319},
{34,34,320},{35,91,319},{92,92,322},{93,255,319},{0,33,319},{34,34,320},{35,91,319},{92,92,322},{93,255,319},{0,40,0},{41,41,321},{42,255,0},
{0,57,0},{58,58,234},{59,255,0},{0,91,319},{92,92,322},{93,255,319},{0,38,324},{39,39,320},{40,91,324},{92,92,325},{93,255,324},{0,38,324},
{39,39,320},{40,91,324},{92,92,325},{93,255,324},{0,91,324},{92,92,325},{93,255,324},{0,8,0},{9,13,316},{14,31,0},{32,32,316},{33,43,0},
{44,44,317},{45,98,0},{99,99,326},{100,104,0},{105,105,327},{106,255,0},{0,8,0},{9,13,316},{14,31,0},{32,32,316},{33,43,0},{44,44,317},
{45,98,0},{99,99,326},{100,104,0},{105,105,327},{106,255,0},{0,91,314},{92,92,328},{93,255,314},{0,38,330},{39,39,315},{40,91,330},{92,92,331},
{93,255,330},{0,38,330},{39,39,315},{40,91,330},{92,92,331},{93,255,330},{0,91,330},{92,92,331},{93,255,330},{0,46,333},{47,47,315},{48,91,333},
{92,92,334},{93,255,333},{0,46,333},{47,47,315},{48,91,333},{92,92,334},{93,255,333},{0,91,333},{92,92,334},{93,255,333},{0,8,0},{9,13,4},
{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},
{95,95,243},{96,96,0},{97,110,243},{111,111,336},{112,113,243},{114,114,347},{115,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},
{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},
{97,107,243},{108,108,337},{109,116,243},{117,117,342},{118,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},
{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,110,243},{111,111,338},
{112,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},
{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,118,243},{119,119,339},{120,122,243},{123,255,0},{0,8,0},{9,13,4},
{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},
{95,95,243},{96,96,0},{97,100,243},{101,101,340},{102,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},
{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,113,243},{114,114,341},
{115,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,58,234},{59,61,0},
{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},
{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},
{96,96,0},{97,111,243},{112,112,343},{113,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},
{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,111,243},{112,112,344},{113,122,243},
{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},
{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,100,243},{101,101,345},{102,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},
{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},
{96,96,0},{97,113,243},{114,114,346},{115,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},
{48,57,243},{58,58,234},{59,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,122,243},{123,255,0},
{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},
{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,104,243},{105,105,348},{106,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},
{33,44,0},{45,46,243},{47,47,5},{48,57,243},{58,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},
{97,108,243},{109,109,349},{110,122,243},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,39,0},{40,40,350},{41,44,0},{45,46,243},
{47,47,5},{48,57,243},{58,58,234},{59,61,0},{62,62,816},{63,63,238},{64,64,0},{65,90,243},{91,94,0},{95,95,243},{96,96,0},{97,122,243},
{123,255,0},{0,33,0},{34,34,351},{35,38,0},{39,39,356},{40,255,0},{0,33,352},{34,34,353},{35,91,352},{92,92,355},{93,255,352},{0,33,352},
{34,34,353},{35,91,352},{92,92,355},{93,255,352},{0,40,0},{41,41,354},{42,255,0},{0,57,0},{58,58,234},{59,255,0},{0,91,352},{92,92,355},
{93,255,352},{0,38,357},{39,39,353},{40,91,357},{92,92,358},{93,255,357},{0,38,357},{39,39,353},{40,91,357},{92,92,358},{93,255,357},{0,91,357},
{92,92,358},{93,255,357},{0,33,0},{34,34,360},{35,38,0},{39,39,364},{40,60,0},{61,61,367},{62,125,0},{126,126,375},{127,255,0},{0,33,361},
{34,34,362},{35,91,361},{92,92,363},{93,255,361},{0,33,361},{34,34,362},{35,91,361},{92,92,363},{93,255,361},{0,8,0},{9,13,4},{14,31,0},
{32,32,4},{33,33,220},{34,46,0},{47,47,5},{48,61,0},{62,62,816},{63,255,0},{0,91,361},{92,92,363},{93,255,361},{0,38,365},{39,39,362},
{40,91,365},{92,92,366},{93,255,365},{0,38,365},{39,39,362},{40,91,365},{92,92,366},{93,255,365},{0,91,365},{92,92,366},{93,255,365},{0,33,0},
{34,34,368},{35,38,0},{39,39,372},{40,255,0},{0,33,369},{34,34,370},{35,91,369},{92,92,371},{93,255,369},{0,33,369},{34,34,370},{35,91,369},
{92,92,371},{93,255,369},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,33,220},{34,46,0},{47,47,5},{48,61,0},{62,62,816},{63,255,0},
{0,91,369},{92,92,371},{93,255,369},{0,38,373},{39,39,370},{40,91,373},{92,92,374},{93,255,373},{0,38,373},{39,39,370},{40,91,373},{92,92,374},
{93,255,373},{0,91,373},{92,92,374},{93,255,373},{0,33,0},{34,34,376},{35,38,0},{39,39,383},{40,46,0},{47,47,386},{48,255,0},{0,33,377},
{34,34,378},{35,91,377},{92,92,382},{93,255,377},{0,33,377},{34,34,378},{35,91,377},{92,92,382},{93,255,377},{0,8,0},{9,13,4},{14,31,0},
{32,32,4},{33,33,379},{34,46,0},{47,47,5},{48,61,0},{62,62,816},{63,98,0},{99,99,380},{100,104,0},{105,105,381},{106,255,0},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,61,0},{62,62,816},{63,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},
{33,33,379},{34,46,0},{47,47,5},{48,61,0},{62,62,816},{63,98,0},{99,99,380},{100,104,0},{105,105,381},{106,255,0},{0,8,0},{9,13,4},
{14,31,0},{32,32,4},{33,33,379},{34,46,0},{47,47,5},{48,61,0},{62,62,816},{63,98,0},{99,99,380},{100,104,0},{105,105,381},{106,255,0},
{0,91,377},{92,92,382},{93,255,377},{0,38,384},{39,39,378},{40,91,384},{92,92,385},{93,255,384},{0,38,384},{39,39,378},{40,91,384},{92,92,385},
{93,255,384},{0,91,384},{92,92,385},{93,255,384},{0,46,387},{47,47,378},{48,91,387},{92,92,388},{93,255,387},{0,46,387},{47,47,378},{48,91,387},
{92,92,388},{93,255,387},{0,91,387},{92,92,388},{93,255,387},{0,60,0},{61,61,390},{62,255,0},{0,33,0},{34,34,391},{35,38,0},{39,39,395},
{40,255,0},{0,33,392},{34,34,393},{35,91,392},{92,92,394},{93,255,392},{0,33,392},{34,34,393},{35,91,392},{92,92,394},{93,255,392},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,33,220},{34,46,0},{47,47,5},{48,61,0},{62,62,816},{63,255,0},{0,91,392},{92,92,394},{93,255,392},
{0,38,396},{39,39,393},{40,91,396},{92,92,397},{93,255,396},{0,38,396},{39,39,393},{40,91,396},{92,92,397},{93,255,396},{0,91,396},{92,92,397},
{93,255,396},{0,96,0},{97,97,399},{98,98,0},{99,99,417},{100,100,0},{101,101,430},{102,102,435},{103,107,0},{108,108,453},{109,109,0},{110,110,470},
{111,111,767},{112,115,0},{116,116,784},{117,255,0},{0,115,0},{116,116,400},{117,255,0},{0,115,0},{116,116,401},{117,255,0},{0,113,0},{114,114,402},
{115,255,0},{0,104,0},{105,105,403},{106,255,0},{0,97,0},{98,98,404},{99,255,0},{0,116,0},{117,117,405},{118,255,0},{0,115,0},{116,116,406},
{117,255,0},{0,100,0},{101,101,407},{102,255,0},{0,44,0},{45,45,408},{46,255,0},{0,98,0},{99,99,409},{100,255,0},{0,110,0},{111,111,410},
{112,255,0},{0,116,0},{117,117,411},{118,255,0},{0,109,0},{110,110,412},{111,255,0},{0,115,0},{116,116,413},{117,255,0},{0,39,0},{40,40,414},
{41,255,0},{0,47,0},{48,57,415},{58,255,0},{0,40,0},{41,41,416},{42,47,0},{48,57,415},{58,255,0},{0,8,0},{9,13,4},{14,31,0},
{32,32,4},{33,46,0},{47,47,5},{48,57,0},{58,58,398},{59,61,0},{62,62,816},{63,255,0},{0,103,0},{104,104,418},{105,255,0},{0,104,0},
{105,105,419},{106,255,0},{0,107,0},{108,108,420},{109,255,0},{0,99,0},{100,100,421},{101,255,0},{0,44,0},{45,45,422},{46,255,0},{0,98,0},
{99,99,423},{100,255,0},{0,110,0},{111,111,424},{112,255,0},{0,116,0},{117,117,425},{118,255,0},{0,109,0},{110,110,426},{111,255,0},{0,115,0},
{116,116,427},{117,255,0},{0,39,0},{40,40,428},{41,255,0},{0,47,0},{48,57,429},{58,255,0},{0,40,0},{41,41,416},{42,47,0},{48,57,429},
{58,255,0},{0,108,0},{109,109,431},{110,255,0},{0,111,0},{112,112,432},{113,255,0},{0,115,0},{116,116,433},{117,255,0},{0,120,0},{121,121,434},
{122,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,57,0},{58,58,398},{59,61,0},{62,62,816},{63,255,0},
{0,104,0},{105,105,436},{106,255,0},{0,113,0},{114,114,437},{115,255,0},{0,114,0},{115,115,438},{116,255,0},{0,115,0},{116,116,439},{117,255,0},
{0,44,0},{45,45,440},{46,255,0},{0,98,0},{99,99,441},{100,110,0},{111,111,446},{112,255,0},{0,103,0},{104,104,442},{105,255,0},{0,104,0},
{105,105,443},{106,255,0},{0,107,0},{108,108,444},{109,255,0},{0,99,0},{100,100,445},{101,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},
{33,46,0},{47,47,5},{48,57,0},{58,58,398},{59,61,0},{62,62,816},{63,255,0},{0,101,0},{102,102,447},{103,255,0},{0,44,0},{45,45,448},
{46,255,0},{0,115,0},{116,116,449},{117,255,0},{0,120,0},{121,121,450},{122,255,0},{0,111,0},{112,112,451},{113,255,0},{0,100,0},{101,101,452},
{102,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,57,0},{58,58,398},{59,61,0},{62,62,816},{63,255,0},
{0,96,0},{97,97,454},{98,255,0},{0,114,0},{115,115,455},{116,255,0},{0,115,0},{116,116,456},{117,255,0},{0,44,0},{45,45,457},{46,255,0},
{0,98,0},{99,99,458},{100,110,0},{111,111,463},{112,255,0},{0,103,0},{104,104,459},{105,255,0},{0,104,0},{105,105,460},{106,255,0},{0,107,0},
{108,108,461},{109,255,0},{0,99,0},{100,100,462},{101,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,57,0},
{58,58,398},{59,61,0},{62,62,816},{63,255,0},{0,101,0},{102,102,464},{103,255,0},{0,44,0},{45,45,465},{46,255,0},{0,115,0},{116,116,466},
{117,255,0},{0,120,0},{121,121,467},{122,255,0},{0,111,0},{112,112,468},{113,255,0},{0,100,0},{101,101,469},{102,255,0},{0,8,0},{9,13,4},
{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,57,0},{58,58,398},{59,61,0},{62,62,816},{63,255,0},{0,110,0},{111,111,471},{112,115,0},
{116,116,679},{117,255,0},{0,115,0},{116,116,472},{117,255,0},{0,39,0},{40,40,473},{41,255,0},{0,57,0},{58,58,474},{59,255,0},{0,96,0},
{97,97,475},{98,98,0},{99,99,494},{100,100,0},{101,101,507},{102,102,512},{103,107,0},{108,108,530},{109,109,0},{110,110,547},{111,111,636},{112,115,0},
{116,116,653},{117,255,0},{0,115,0},{116,116,476},{117,255,0},{0,115,0},{116,116,477},{117,255,0},{0,113,0},{114,114,478},{115,255,0},{0,104,0},
{105,105,479},{106,255,0},{0,97,0},{98,98,480},{99,255,0},{0,116,0},{117,117,481},{118,255,0},{0,115,0},{116,116,482},{117,255,0},{0,100,0},
{101,101,483},{102,255,0},{0,44,0},{45,45,484},{46,255,0},{0,98,0},{99,99,485},{100,255,0},{0,110,0},{111,111,486},{112,255,0},{0,116,0},
{117,117,487},{118,255,0},{0,109,0},{110,110,488},{111,255,0},{0,115,0},{116,116,489},{117,255,0},{0,39,0},{40,40,490},{41,255,0},{0,47,0},
{48,57,491},{58,255,0},{0,40,0},{41,41,492},{42,47,0},{48,57,491},{58,255,0},{0,40,0},{41,41,493},{42,57,0},{58,58,474},{59,255,0},
{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,57,0},{58,58,398},{59,61,0},{62,62,816},{63,255,0},{0,103,0},
{104,104,495},{105,255,0},{0,104,0},{105,105,496},{106,255,0},{0,107,0},{108,108,497},{109,255,0},{0,99,0},{100,100,498},{101,255,0},{0,44,0},
{45,45,499},{46,255,0},{0,98,0},{99,99,500},{100,255,0},{0,110,0},{111,111,501},{112,255,0},{0,116,0},{117,117,502},{118,255,0},{0,109,0},
{110,110,503},{111,255,0},{0,115,0},{116,116,504},{117,255,0},{0,39,0},{40,40,505},{41,255,0},{0,47,0},{48,57,506},{58,255,0},{0,40,0},
{41,41,492},{42,47,0},{48,57,506},{58,255,0},{0,108,0},{109,109,508},{110,255,0},{0,111,0},{112,112,509},{113,255,0},{0,115,0},{116,116,510},
{117,255,0},{0,120,0},{121,121,511},{122,255,0},{0,40,0},{41,41,493},{42,57,0},{58,58,474},{59,255,0},{0,104,0},{105,105,513},{106,255,0},
{0,113,0},{114,114,514},{115,255,0},{0,114,0},{115,115,515},{116,255,0},{0,115,0},{116,116,516},{117,255,0},{0,44,0},{45,45,517},{46,255,0},
{0,98,0},{99,99,518},{100,110,0},{111,111,523},{112,255,0},{0,103,0},{104,104,519},{105,255,0},{0,104,0},{105,105,520},{106,255,0},{0,107,0},
{108,108,521},{109,255,0},{0,99,0},{100,100,522},{101,255,0},{0,40,0},{41,41,493},{42,57,0},{58,58,474},{59,255,0},{0,101,0},{102,102,524},
{103,255,0},{0,44,0},{45,45,525},{46,255,0},{0,115,0},{116,116,526},{117,255,0},{0,120,0},{121,121,527},{122,255,0},{0,111,0},{112,112,528},
{113,255,0},{0,100,0},{101,101,529},{102,255,0},{0,40,0},{41,41,493},{42,57,0},{58,58,474},{59,255,0},{0,96,0},{97,97,531},{98,255,0},
{0,114,0},{115,115,532},{116,255,0},{0,115,0},{116,116,533},{117,255,0},{0,44,0},{45,45,534},{46,255,0},{0,98,0},{99,99,535},{100,110,0},
{111,111,540},{112,255,0},{0,103,0},{104,104,536},{105,255,0},{0,104,0},{105,105,537},{106,255,0},{0,107,0},{108,108,538},{109,255,0},{0,99,0},
{100,100,539},{101,255,0},{0,40,0},{41,41,493},{42,57,0},{58,58,474},{59,255,0},{0,101,0},{102,102,541},{103,255,0},{0,44,0},{45,45,542},
{46,255,0},{0,115,0},{116,116,543},{117,255,0},{0,120,0},{121,121,544},{122,255,0},{0,111,0},{112,112,545},{113,255,0},{0,100,0},{101,101,546},
{102,255,0},{0,40,0},{41,41,493},{42,57,0},{58,58,474},{59,255,0},{0,115,0},{116,116,548},{117,255,0},{0,103,0},{104,104,549},{105,255,0},
{0,44,0},{45,45,550},{46,255,0},{0,98,0},{99,99,551},{100,107,0},{108,108,570},{109,110,0},{111,111,615},{112,255,0},{0,103,0},{104,104,552},
{105,255,0},{0,104,0},{105,105,553},{106,255,0},{0,107,0},{108,108,554},{109,255,0},{0,99,0},{100,100,555},{101,255,0},{0,39,0},{40,40,556},
{41,255,0},{0,44,0},{45,45,557},{46,47,0},{48,57,558},{58,100,0},{101,101,563},{102,110,0},{111,111,567},{112,255,0},{0,47,0},{48,57,558},
{58,255,0},{0,40,0},{41,41,559},{42,47,0},{48,57,558},{58,109,0},{110,110,560},{111,255,0},{0,40,0},{41,41,493},{42,57,0},{58,58,474},
{59,255,0},{0,40,0},{41,41,559},{42,42,0},{43,43,561},{44,44,0},{45,45,561},{46,255,0},{0,47,0},{48,57,562},{58,255,0},{0,40,0},
{41,41,559},{42,47,0},{48,57,562},{58,255,0},{0,117,0},{118,118,564},{119,255,0},{0,100,0},{101,101,565},{102,255,0},{0,109,0},{110,110,566},
{111,255,0},{0,40,0},{41,41,559},{42,255,0},{0,99,0},{100,100,568},{101,255,0},{0,99,0},{100,100,569},{101,255,0},{0,40,0},{41,41,559},
{42,255,0},{0,96,0},{97,97,571},{98,255,0},{0,114,0},{115,115,572},{116,255,0},{0,115,0},{116,116,573},{117,255,0},{0,44,0},{45,45,574},
{46,255,0},{0,98,0},{99,99,575},{100,110,0},{111,111,594},{112,255,0},{0,103,0},{104,104,576},{105,255,0},{0,104,0},{105,105,577},{106,255,0},
{0,107,0},{108,108,578},{109,255,0},{0,99,0},{100,100,579},{101,255,0},{0,39,0},{40,40,580},{41,255,0},{0,44,0},{45,45,581},{46,47,0},
{48,57,582},{58,100,0},{101,101,587},{102,110,0},{111,111,591},{112,255,0},{0,47,0},{48,57,582},{58,255,0},{0,40,0},{41,41,583},{42,47,0},
{48,57,582},{58,109,0},{110,110,584},{111,255,0},{0,40,0},{41,41,493},{42,57,0},{58,58,474},{59,255,0},{0,40,0},{41,41,583},{42,42,0},
{43,43,585},{44,44,0},{45,45,585},{46,255,0},{0,47,0},{48,57,586},{58,255,0},{0,40,0},{41,41,583},{42,47,0},{48,57,586},{58,255,0},
{0,117,0},{118,118,588},{119,255,0},{0,100,0},{101,101,589},{102,255,0},{0,109,0},{110,110,590},{111,255,0},{0,40,0},{41,41,583},{42,255,0},
{0,99,0},{100,100,592},{101,255,0},{0,99,0},{100,100,593},{101,255,0},{0,40,0},{41,41,583},{42,255,0},{0,101,0},{102,102,595},{103,255,0},
{0,44,0},{45,45,596},{46,255,0},{0,115,0},{116,116,597},{117,255,0},{0,120,0},{121,121,598},{122,255,0},{0,111,0},{112,112,599},{113,255,0},
{0,100,0},{101,101,600},{102,255,0},{0,39,0},{40,40,601},{41,255,0},{0,44,0},{45,45,602},{46,47,0},{48,57,603},{58,100,0},{101,101,608},
{102,110,0},{111,111,612},{112,255,0},{0,47,0},{48,57,603},{58,255,0},{0,40,0},{41,41,604},{42,47,0},{48,57,603},{58,109,0},{110,110,605},
{111,255,0},{0,40,0},{41,41,493},{42,57,0},{58,58,474},{59,255,0},{0,40,0},{41,41,604},{42,42,0},{43,43,606},{44,44,0},{45,45,606},
{46,255,0},{0,47,0},{48,57,607},{58,255,0},{0,40,0},{41,41,604},{42,47,0},{48,57,607},{58,255,0},{0,117,0},{118,118,609},{119,255,0},
{0,100,0},{101,101,610},{102,255,0},{0,109,0},{110,110,611},{111,255,0},{0,40,0},{41,41,604},{42,255,0},{0,99,0},{100,100,613},{101,255,0},
{0,99,0},{100,100,614},{101,255,0},{0,40,0},{41,41,604},{42,255,0},{0,101,0},{102,102,616},{103,255,0},{0,44,0},{45,45,617},{46,255,0},
{0,115,0},{116,116,618},{117,255,0},{0,120,0},{121,121,619},{122,255,0},{0,111,0},{112,112,620},{113,255,0},{0,100,0},{101,101,621},{102,255,0},
{0,39,0},{40,40,622},{41,255,0},{0,44,0},{45,45,623},{46,47,0},{48,57,624},{58,100,0},{101,101,629},{102,110,0},{111,111,633},{112,255,0},
{0,47,0},{48,57,624},{58,255,0},{0,40,0},{41,41,625},{42,47,0},{48,57,624},{58,109,0},{110,110,626},{111,255,0},{0,40,0},{41,41,493},
{42,57,0},{58,58,474},{59,255,0},{0,40,0},{41,41,625},{42,42,0},{43,43,627},{44,44,0},{45,45,627},{46,255,0},{0,47,0},{48,57,628},
{58,255,0},{0,40,0},{41,41,625},{42,47,0},{48,57,628},{58,255,0},{0,117,0},{118,118,630},{119,255,0},{0,100,0},{101,101,631},{102,255,0},
{0,109,0},{110,110,632},{111,255,0},{0,40,0},{41,41,625},{42,255,0},{0,99,0},{100,100,634},{101,255,0},{0,99,0},{100,100,635},{101,255,0},
{0,40,0},{41,41,625},{42,255,0},{0,109,0},{110,110,637},{111,255,0},{0,107,0},{108,108,638},{109,255,0},{0,120,0},{121,121,639},{122,255,0},
{0,44,0},{45,45,640},{46,255,0},{0,98,0},{99,99,641},{100,110,0},{111,111,646},{112,255,0},{0,103,0},{104,104,642},{105,255,0},{0,104,0},
{105,105,643},{106,255,0},{0,107,0},{108,108,644},{109,255,0},{0,99,0},{100,100,645},{101,255,0},{0,40,0},{41,41,493},{42,57,0},{58,58,474},
{59,255,0},{0,101,0},{102,102,647},{103,255,0},{0,44,0},{45,45,648},{46,255,0},{0,115,0},{116,116,649},{117,255,0},{0,120,0},{121,121,650},
{122,255,0},{0,111,0},{112,112,651},{113,255,0},{0,100,0},{101,101,652},{102,255,0},{0,40,0},{41,41,493},{42,57,0},{58,58,474},{59,255,0},
{0,120,0},{121,121,654},{122,255,0},{0,111,0},{112,112,655},{113,255,0},{0,100,0},{101,101,656},{102,255,0},{0,44,0},{45,45,657},{46,255,0},
{0,108,0},{109,109,658},{110,255,0},{0,96,0},{97,97,659},{98,255,0},{0,115,0},{116,116,660},{117,255,0},{0,98,0},{99,99,661},{100,255,0},
{0,103,0},{104,104,662},{105,255,0},{0,100,0},{101,101,663},{102,255,0},{0,114,0},{115,115,664},{116,255,0},{0,39,0},{40,40,665},{41,255,0},
{0,33,0},{34,34,666},{35,38,0},{39,39,673},{40,46,0},{47,47,676},{48,255,0},{0,33,667},{34,34,668},{35,91,667},{92,92,672},{93,255,667},
{0,33,667},{34,34,668},{35,91,667},{92,92,672},{93,255,667},{0,40,0},{41,41,669},{42,98,0},{99,99,670},{100,104,0},{105,105,671},{106,255,0},
{0,40,0},{41,41,493},{42,57,0},{58,58,474},{59,255,0},{0,40,0},{41,41,669},{42,98,0},{99,99,670},{100,104,0},{105,105,671},{106,255,0},
{0,40,0},{41,41,669},{42,98,0},{99,99,670},{100,104,0},{105,105,671},{106,255,0},{0,91,667},{92,92,672},{93,255,667},{0,38,674},{39,39,668},
{40,91,674},{92,92,675},{93,255,674},{0,38,674},{39,39,668},{40,91,674},{92,92,675},{93,255,674},{0,91,674},{92,92,675},{93,255,674},{0,46,677},
{47,47,668},{48,91,677},{92,92,678},{93,255,677},{0,46,677},{47,47,668},{48,91,677},{92,92,678},{93,255,677},{0,91,677},{92,92,678},{93,255,677},
{0,103,0},{104,104,680},{105,255,0},{0,44,0},{45,45,681},{46,255,0},{0,98,0},{99,99,682},{100,107,0},{108,108,701},{109,110,0},{111,111,746},
{112,255,0},{0,103,0},{104,104,683},{105,255,0},{0,104,0},{105,105,684},{106,255,0},{0,107,0},{108,108,685},{109,255,0},{0,99,0},{100,100,686},
{101,255,0},{0,39,0},{40,40,687},{41,255,0},{0,44,0},{45,45,688},{46,47,0},{48,57,689},{58,100,0},{101,101,694},{102,110,0},{111,111,698},
{112,255,0},{0,47,0},{48,57,689},{58,255,0},{0,40,0},{41,41,690},{42,47,0},{48,57,689},{58,109,0},{110,110,691},{111,255,0},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,57,0},{58,58,398},{59,61,0},{62,62,816},{63,255,0},{0,40,0},{41,41,690},
{42,42,0},{43,43,692},{44,44,0},{45,45,692},{46,255,0},{0,47,0},{48,57,693},{58,255,0},{0,40,0},{41,41,690},{42,47,0},{48,57,693},
{58,255,0},{0,117,0},{118,118,695},{119,255,0},{0,100,0},{101,101,696},{102,255,0},{0,109,0},{110,110,697},{111,255,0},{0,40,0},{41,41,690},
{42,255,0},{0,99,0},{100,100,699},{101,255,0},{0,99,0},{100,100,700},{101,255,0},{0,40,0},{41,41,690},{42,255,0},{0,96,0},{97,97,702},
{98,255,0},{0,114,0},{115,115,703},{116,255,0},{0,115,0},{116,116,704},{117,255,0},{0,44,0},{45,45,705},{46,255,0},{0,98,0},{99,99,706},
{100,110,0},{111,111,725},{112,255,0},{0,103,0},{104,104,707},{105,255,0},{0,104,0},{105,105,708},{106,255,0},{0,107,0},{108,108,709},{109,255,0},
{0,99,0},{100,100,710},{101,255,0},{0,39,0},{40,40,711},{41,255,0},{0,44,0},{45,45,712},{46,47,0},{48,57,713},{58,100,0},{101,101,718},
{102,110,0},{111,111,722},{112,255,0},{0,47,0},{48,57,713},{58,255,0},{0,40,0},{41,41,714},{42,47,0},{48,57,713},{58,109,0},{110,110,715},
{111,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,57,0},{58,58,398},{59,61,0},{62,62,816},{63,255,0},
{0,40,0},{41,41,714},{42,42,0},{43,43,716},{44,44,0},{45,45,716},{46,255,0},{0,47,0},{48,57,717},{58,255,0},{0,40,0},{41,41,714},
{42,47,0},{48,57,717},{58,255,0},{0,117,0},{118,118,719},{119,255,0},{0,100,0},{101,101,720},{102,255,0},{0,109,0},{110,110,721},{111,255,0},
{0,40,0},{41,41,714},{42,255,0},{0,99,0},{100,100,723},{101,255,0},{0,99,0},{100,100,724},{101,255,0},{0,40,0},{41,41,714},{42,255,0},
{0,101,0},{102,102,726},{103,255,0},{0,44,0},{45,45,727},{46,255,0},{0,115,0},{116,116,728},{117,255,0},{0,120,0},{121,121,729},{122,255,0},
{0,111,0},{112,112,730},{113,255,0},{0,100,0},{101,101,731},{102,255,0},{0,39,0},{40,40,732},{41,255,0},{0,44,0},{45,45,733},{46,47,0},
{48,57,734},{58,100,0},{101,101,739},{102,110,0},{111,111,743},{112,255,0},{0,47,0},{48,57,734},{58,255,0},{0,40,0},{41,41,735},{42,47,0},
{48,57,734},{58,109,0},{110,110,736},{111,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,57,0},{58,58,398},
{59,61,0},{62,62,816},{63,255,0},{0,40,0},{41,41,735},{42,42,0},{43,43,737},{44,44,0},{45,45,737},{46,255,0},{0,47,0},{48,57,738},
{58,255,0},{0,40,0},{41,41,735},{42,47,0},{48,57,738},{58,255,0},{0,117,0},{118,118,740},{119,255,0},{0,100,0},{101,101,741},{102,255,0},
{0,109,0},{110,110,742},{111,255,0},{0,40,0},{41,41,735},{42,255,0},{0,99,0},{100,100,744},{101,255,0},{0,99,0},{100,100,745},{101,255,0},
{0,40,0},{41,41,735},{42,255,0},{0,101,0},{102,102,747},{103,255,0},{0,44,0},{45,45,748},{46,255,0},{0,115,0},{116,116,749},{117,255,0},
{0,120,0},{121,121,750},{122,255,0},{0,111,0},{112,112,751},{113,255,0},{0,100,0},{101,101,752},{102,255,0},{0,39,0},{40,40,753},{41,255,0},
{0,44,0},{45,45,754},{46,47,0},{48,57,755},{58,100,0},{101,101,760},{102,110,0},{111,111,764},{112,255,0},{0,47,0},{48,57,755},{58,255,0},
{0,40,0},{41,41,756},{42,47,0},{48,57,755},{58,109,0},{110,110,757},{111,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},
{47,47,5},{48,57,0},{58,58,398},{59,61,0},{62,62,816},{63,255,0},{0,40,0},{41,41,756},{42,42,0},{43,43,758},{44,44,0},{45,45,758},
{46,255,0},{0,47,0},{48,57,759},{58,255,0},{0,40,0},{41,41,756},{42,47,0},{48,57,759},{58,255,0},{0,117,0},{118,118,761},{119,255,0},
{0,100,0},{101,101,762},{102,255,0},{0,109,0},{110,110,763},{111,255,0},{0,40,0},{41,41,756},{42,255,0},{0,99,0},{100,100,765},{101,255,0},
{0,99,0},{100,100,766},{101,255,0},{0,40,0},{41,41,756},{42,255,0},{0,109,0},{110,110,768},{111,255,0},{0,107,0},{108,108,769},{109,255,0},
{0,120,0},{121,121,770},{122,255,0},{0,44,0},{45,45,771},{46,255,0},{0,98,0},{99,99,772},{100,110,0},{111,111,777},{112,255,0},{0,103,0},
{104,104,773},{105,255,0},{0,104,0},{105,105,774},{106,255,0},{0,107,0},{108,108,775},{109,255,0},{0,99,0},{100,100,776},{101,255,0},{0,8,0},
{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,57,0},{58,58,398},{59,61,0},{62,62,816},{63,255,0},{0,101,0},{102,102,778},
{103,255,0},{0,44,0},{45,45,779},{46,255,0},{0,115,0},{116,116,780},{117,255,0},{0,120,0},{121,121,781},{122,255,0},{0,111,0},{112,112,782},
{113,255,0},{0,100,0},{101,101,783},{102,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,57,0},{58,58,398},
{59,61,0},{62,62,816},{63,255,0},{0,120,0},{121,121,785},{122,255,0},{0,111,0},{112,112,786},{113,255,0},{0,100,0},{101,101,787},{102,255,0},
{0,44,0},{45,45,788},{46,255,0},{0,108,0},{109,109,789},{110,255,0},{0,96,0},{97,97,790},{98,255,0},{0,115,0},{116,116,791},{117,255,0},
{0,98,0},{99,99,792},{100,255,0},{0,103,0},{104,104,793},{105,255,0},{0,100,0},{101,101,794},{102,255,0},{0,114,0},{115,115,795},{116,255,0},
{0,39,0},{40,40,796},{41,255,0},{0,33,0},{34,34,797},{35,38,0},{39,39,804},{40,46,0},{47,47,807},{48,255,0},{0,33,798},{34,34,799},
{35,91,798},{92,92,803},{93,255,798},{0,33,798},{34,34,799},{35,91,798},{92,92,803},{93,255,798},{0,40,0},{41,41,800},{42,98,0},{99,99,801},
{100,104,0},{105,105,802},{106,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,46,0},{47,47,5},{48,57,0},{58,58,398},{59,61,0},
{62,62,816},{63,255,0},{0,40,0},{41,41,800},{42,98,0},{99,99,801},{100,104,0},{105,105,802},{106,255,0},{0,40,0},{41,41,800},{42,98,0},
{99,99,801},{100,104,0},{105,105,802},{106,255,0},{0,91,798},{92,92,803},{93,255,798},{0,38,805},{39,39,799},{40,91,805},{92,92,806},{93,255,805},
{0,38,805},{39,39,799},{40,91,805},{92,92,806},{93,255,805},{0,91,805},{92,92,806},{93,255,805},{0,46,808},{47,47,799},{48,91,808},{92,92,809},
{93,255,808},{0,46,808},{47,47,799},{48,91,808},{92,92,809},{93,255,808},{0,91,808},{92,92,809},{93,255,808},{0,41,0},{42,42,3},{43,43,810},
{44,62,0},{63,63,811},{64,64,0},{65,90,812},{91,96,0},{97,122,812},{123,255,0},{0,41,0},{42,42,3},{43,43,810},{44,62,0},{63,63,811},
{64,64,0},{65,90,812},{91,96,0},{97,122,812},{123,255,0},{0,8,0},{9,13,4},{14,31,0},{32,32,4},{33,44,0},{45,45,812},{46,46,0},
{47,47,5},{48,57,812},{58,58,398},{59,61,0},{62,62,816},{63,64,0},{65,90,812},{91,94,0},{95,95,812},{96,96,0},{97,122,812},{123,255,0},
{0,41,0},{42,42,814},{43,64,0},{65,90,815},{91,96,0},{97,122,815},{123,255,0},{0,61,0},{62,62,816},{63,255,0},{0,44,0},{45,45,815},
{46,47,0},{48,57,815},{58,61,0},{62,62,816},{63,64,0},{65,90,815},{91,94,0},{95,95,815},{96,96,0},{97,122,815},{123,255,0},{0,8,0},
{9,13,816},{14,31,0},{32,32,816},{33,34,0},{35,35,1},{36,59,0},{60,60,2},{61,122,0},{123,123,818},{124,124,0},{125,125,819},{126,255,0},
{0,8,0},{9,13,816},{14,31,0},{32,32,816},{33,34,0},{35,35,1},{36,59,0},{60,60,2},{61,122,0},{123,123,818},{124,124,0},{125,125,819},
{126,255,0},{0,8,0},{9,13,816},{14,31,0},{32,32,816},{33,34,0},{35,35,1},{36,59,0},{60,60,2},{61,122,0},{123,123,818},{124,124,0},
{125,125,819},{126,255,0},{0,8,0},{9,13,816},{14,31,0},{32,32,816},{33,34,0},{35,35,1},{36,59,0},{60,60,2},{61,122,0},{123,123,818},
{124,124,0},{125,125,819},{126,255,0},
};
