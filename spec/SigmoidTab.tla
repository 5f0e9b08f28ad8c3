----------------------------- MODULE SigmoidTab -----------------------------
(* Values of Sigmoid's definitions at the steps and points, worked out once  *)
(* (SigmoidMC checks every one of them against its definition).              *)
EXTENDS Integers
StretchTab == <<
  << -2303957, -2298499, -2293048, -2287605, -2282168, -2276739, -2271316, -2265900, -2260491,
     -2255089, -2249694, -2244305, -2238924, -2233549, -2228181, -2222819, -2217464, -2212116,
     -2206774, -2201439, -2196110, -2190788, -2185473, -2180163, -2174861, -2169564, -2164274,
     -2158990, -2153713, -2148442, -2143177, -2137918, -2132666, -2127419, -2122179, -2116945,
     -2111717, -2106495, -2101279, -2096069, -2090865, -2085667, -2080475, -2075289, -2070108,
     -2064934, -2059765, -2054602, -2049445, -2044293, -2039148, -2034008, -2028873, -2023745,
     -2018621, -2013504, -2008392, -2003286, -1998185, -1993089, -1987999, -1982915, -1977836,
     -1972762, -1967694, -1962631, -1957574, -1952521, -1947474, -1942433, -1937396, -1932365,
     -1927339, -1922318, -1917302, -1912291, -1907286, -1902285, -1897290, -1892300, -1887314,
     -1882334, -1877359, -1872388, -1867423, -1862462, -1857506, -1852556, -1847610, -1842668,
     -1837732, -1832801, -1827874, -1822952, -1818034, -1813122, -1808214, -1803310, -1798412,
     -1793518, -1788628, -1783744, -1778863, -1773988, -1769116, -1764250, -1759387, -1754530,
     -1749676, -1744827, -1739983, -1735143, -1730307, -1725476, -1720649, -1715826, -1711008,
     -1706193, -1701384, -1696578, -1691776, -1686979, -1682186, -1677397, -1672613, -1667832,
     -1663056, -1658283, -1653515, -1648751, -1643991, -1639234, -1634482, -1629734, -1624990,
     -1620250, -1615513, -1610781, -1606053, -1601328, -1596607, -1591891, -1587178, -1582468,
     -1577763, -1573061, -1568364, -1563670, -1558979, -1554293, -1549610, -1544931, -1540255,
     -1535584, -1530915, -1526251, -1521590, -1516933, -1512279, -1507629, -1502982, -1498339,
     -1493699, -1489063, -1484431, -1479802, -1475176, -1470554, -1465935, -1461320, -1456708,
     -1452099, -1447494, -1442892, -1438294, -1433698, -1429107, -1424518, -1419933, -1415351,
     -1410772, -1406196, -1401624, -1397055, -1392489, -1387927, -1383367, -1378811, -1374257,
     -1369707, -1365160, -1360616, -1356075, -1351538, -1347003, -1342471, -1337943, -1333417,
     -1328894, -1324375, -1319858, -1315345, -1310834, -1306326, -1301821, -1297319, -1292820,
     -1288324, -1283831, -1279340, -1274852, -1270368, -1265886, -1261407, -1256930, -1252457,
     -1247986, -1243518, -1239052, -1234590, -1230130, -1225673, -1221218, -1216766, -1212317,
     -1207871, -1203427, -1198986, -1194547, -1190111, -1185677, -1181247, -1176818, -1172393,
     -1167969, -1163549, -1159131, -1154715, -1150302, -1145891, -1141483, -1137077, -1132674,
     -1128273, -1123875, -1119479, -1115085, -1110694, -1106305, -1101919, -1097535, -1093153,
     -1088774, -1084396, -1080022, -1075649, -1071279, -1066911, -1062545, -1058182, -1053821,
     -1049462, -1045105, -1040751, -1036398, -1032048, -1027700, -1023354, -1019011, -1014669,
     -1010330, -1005993, -1001658, -997325, -992994, -988665, -984338, -980013, -975691, -971370,
     -967051, -962735, -958420, -954107, -949797, -945488, -941181, -936877, -932574, -928273,
     -923974, -919677, -915382, -911088, -906797, -902508, -898220, -893934, -889650, -885368,
     -881088, -876809, -872532, -868257, -863984, -859713, -855443, -851175, -846909, -842645,
     -838382, -834121, -829862, -825604, -821348, -817094, -812841, -808590, -804341, -800093,
     -795847, -791603, -787360, -783119, -778879, -774641, -770405, -766170, -761936, -757704,
     -753474, -749245, -745018, -740792, -736567, -732345, -728123, -723903, -719685, -715468,
     -711252, -707038, -702825, -698614, -694404, -690195, -685988, -681782, -677577, -673374,
     -669172, -664972, -660773, -656575, -652378, -648183, -643989, -639797, -635605, -631415,
     -627226, -623038, -618852, -614667, -610483, -606300, -602118, -597938, -593759, -589581,
     -585404, -581228, -577054, -572880, -568708, -564537, -560366, -556197, -552030, -547863,
     -543697, -539532, -535369, -531206, -527045, -522884, -518725, -514566, -510409, -506252,
     -502097, -497942, -493789, -489636, -485485, -481334, -477184, -473035, -468888, -464741,
     -460595, -456449, -452305, -448162, -444019, -439878, -435737, -431597, -427458, -423320,
     -419182, -415045, -410910, -406775, -402640, -398507, -394374, -390242, -386111, -381981,
     -377851, -373722, -369594, -365466, -361339, -357213, -353088, -348963, -344839, -340715,
     -336593, -332471, -328349, -324228, -320108, -315988, -311869, -307751, -303633, -299516,
     -295399, -291283, -287168, -283053, -278938, -274825, -270711, -266598, -262486, -258374,
     -254263, -250152, -246042, -241932, -237823, -233714, -229605, -225497, -221389, -217282,
     -213175, -209069, -204963, -200857, -196752, -192647, -188543, -184439, -180335, -176232,
     -172129, -168026, -163923, -159821, -155719, -151618, -147517, -143416, -139315, -135215,
     -131115, -127015, -122915, -118816, -114717, -110618, -106519, -102420, -98322, -94224,
     -90126, -86028, -81930, -77833, -73736, -69638, -65541, -61444, -57348, -53251, -49154,
     -45058, -40961, -36865, -32769, -28672, -24576, -20480, -16384, -12288, -8192, -4096 >>,
  << -4080869, -4076192, -4071523, -4066861, -4062207, -4057561, -4052922, -4048292, -4043668,
     -4039053, -4034445, -4029844, -4025251, -4020665, -4016087, -4011517, -4006953, -4002397,
     -3997849, -3993307, -3988773, -3984246, -3979727, -3975214, -3970709, -3966211, -3961720,
     -3957236, -3952759, -3948289, -3943827, -3939371, -3934922, -3930480, -3926045, -3921616,
     -3917195, -3912780, -3908372, -3903971, -3899577, -3895190, -3890809, -3886434, -3882067,
     -3877706, -3873351, -3869004, -3864662, -3860328, -3855999, -3851678, -3847362, -3843053,
     -3838751, -3834455, -3830165, -3825882, -3821604, -3817334, -3813069, -3808811, -3804559,
     -3800313, -3796073, -3791839, -3787612, -3783390, -3779175, -3774966, -3770763, -3766566,
     -3762375, -3758189, -3754010, -3749837, -3745670, -3741508, -3737352, -3733203, -3729059,
     -3724921, -3720788, -3716662, -3712541, -3708426, -3704317, -3700213, -3696115, -3692023,
     -3687936, -3683855, -3679780, -3675710, -3671646, -3667587, -3663534, -3659486, -3655443,
     -3651407, -3647375, -3643349, -3639329, -3635314, -3631304, -3627299, -3623300, -3619307,
     -3615318, -3611335, -3607357, -3603384, -3599417, -3595455, -3591498, -3587546, -3583599,
     -3579657, -3575721, -3571790, -3567863, -3563942, -3560026, -3556115, -3552209, -3548308,
     -3544412, -3540521, -3536635, -3532754, -3528878, -3525006, -3521140, -3517278, -3513422,
     -3509570, -3505723, -3501881, -3498043, -3494211, -3490383, -3486560, -3482742, -3478928,
     -3475119, -3471315, -3467516, -3463721, -3459931, -3456145, -3452364, -3448588, -3444816,
     -3441049, -3437286, -3433528, -3429775, -3426026, -3422281, -3418542, -3414806, -3411075,
     -3407348, -3403626, -3399909, -3396195, -3392486, -3388782, -3385082, -3381386, -3377695,
     -3374007, -3370325, -3366646, -3362972, -3359302, -3355636, -3351975, -3348318, -3344665,
     -3341016, -3337371, -3333731, -3330095, -3326463, -3322835, -3319211, -3315591, -3311976,
     -3308365, -3304757, -3301154, -3297555, -3293960, -3290368, -3286781, -3283198, -3279619,
     -3276044, -3272473, -3268906, -3265343, -3261783, -3258228, -3254677, -3251129, -3247586,
     -3244046, -3240510, -3236978, -3233450, -3229926, -3226405, -3222889, -3219376, -3215867,
     -3212361, -3208860, -3205362, -3201868, -3198378, -3194892, -3191409, -3187930, -3184454,
     -3180983, -3177515, -3174050, -3170590, -3167132, -3163679, -3160229, -3156783, -3153340,
     -3149901, -3146466, -3143034, -3139606, -3136181, -3132760, -3129342, -3125928, -3122517,
     -3119110, -3115707, -3112306, -3108910, -3105517, -3102127, -3098740, -3095358, -3091978,
     -3088602, -3085229, -3081860, -3078494, -3075132, -3071773, -3068417, -3065064, -3061715,
     -3058369, -3055027, -3051688, -3048352, -3045020, -3041690, -3038364, -3035042, -3031722,
     -3028406, -3025093, -3021783, -3018477, -3015173, -3011873, -3008576, -3005283, -3001992,
     -2998705, -2995420, -2992139, -2988861, -2985587, -2982315, -2979046, -2975781, -2972519,
     -2969259, -2966003, -2962750, -2959500, -2956253, -2953009, -2949768, -2946530, -2943296,
     -2940064, -2936835, -2933609, -2930386, -2927167, -2923950, -2920736, -2917525, -2914317,
     -2911112, -2907910, -2904711, -2901515, -2898321, -2895131, -2891944, -2888759, -2885577,
     -2882398, -2879223, -2876049, -2872879, -2869712, -2866547, -2863386, -2860227, -2857071,
     -2853917, -2850767, -2847619, -2844474, -2841332, -2838193, -2835056, -2831923, -2828792,
     -2825663, -2822538, -2819415, -2816295, -2813178, -2810063, -2806951, -2803842, -2800735,
     -2797631, -2794530, -2791431, -2788336, -2785242, -2782152, -2779064, -2775979, -2772896,
     -2769816, -2766738, -2763663, -2760591, -2757522, -2754455, -2751390, -2748328, -2745269,
     -2742212, -2739158, -2736106, -2733057, -2730011, -2726967, -2723925, -2720886, -2717850,
     -2714816, -2711784, -2708755, -2705729, -2702705, -2699683, -2696664, -2693648, -2690633,
     -2687622, -2684612, -2681606, -2678601, -2675599, -2672600, -2669603, -2666608, -2663615,
     -2660626, -2657638, -2654653, -2651670, -2648690, -2645712, -2642736, -2639763, -2636792,
     -2633823, -2630857, -2627893, -2624931, -2621972, -2619015, -2616060, -2613108, -2610158,
     -2607210, -2604264, -2601321, -2598380, -2595441, -2592505, -2589571, -2586639, -2583709,
     -2580782, -2577857, -2574934, -2572013, -2569094, -2566178, -2563264, -2560352, -2557442,
     -2554535, -2551630, -2548727, -2545826, -2542927, -2540030, -2537136, -2534244, -2531353,
     -2528465, -2525580, -2522696, -2519814, -2516935, -2514058, -2511182, -2508309, -2505438,
     -2502570, -2499703, -2496838, -2493975, -2491115, -2488256, -2485400, -2482546, -2479694,
     -2476843, -2473995, -2471149, -2468305, -2465463, -2462623, -2459785, -2456949, -2454115,
     -2451284, -2448454, -2445626, -2442800, -2439976, -2437154, -2434334, -2431516, -2428700,
     -2425887, -2423074, -2420264, -2417456, -2414650, -2411846, -2409044, -2406244, -2403445,
     -2400649, -2397854, -2395062, -2392271, -2389482, -2386696, -2383911, -2381128, -2378347,
     -2375567, -2372790, -2370014, -2367241, -2364469, -2361699, -2358931, -2356165, -2353401,
     -2350639, -2347878, -2345119, -2342362, -2339607, -2336854, -2334103, -2331353, -2328605,
     -2325860, -2323115, -2320373, -2317633, -2314894, -2312157, -2309422, -2306689 >>,
  << -5679193, -5674828, -5670471, -5666121, -5661780, -5657446, -5653121, -5648803, -5644493,
     -5640190, -5635895, -5631608, -5627329, -5623057, -5618792, -5614536, -5610286, -5606045,
     -5601810, -5597583, -5593364, -5589152, -5584947, -5580750, -5576559, -5572377, -5568201,
     -5564032, -5559871, -5555717, -5551570, -5547430, -5543297, -5539172, -5535053, -5530941,
     -5526837, -5522739, -5518648, -5514564, -5510487, -5506416, -5502353, -5498296, -5494247,
     -5490203, -5486167, -5482137, -5478114, -5474098, -5470088, -5466085, -5462088, -5458098,
     -5454115, -5450138, -5446167, -5442203, -5438246, -5434295, -5430350, -5426412, -5422480,
     -5418554, -5414634, -5410721, -5406815, -5402914, -5399020, -5395131, -5391249, -5387373,
     -5383504, -5379640, -5375783, -5371931, -5368086, -5364246, -5360413, -5356586, -5352764,
     -5348949, -5345139, -5341336, -5337538, -5333746, -5329960, -5326180, -5322405, -5318637,
     -5314874, -5311117, -5307366, -5303620, -5299880, -5296146, -5292417, -5288694, -5284977,
     -5281265, -5277559, -5273858, -5270163, -5266474, -5262790, -5259111, -5255438, -5251770,
     -5248108, -5244452, -5240800, -5237154, -5233514, -5229878, -5226248, -5222624, -5219004,
     -5215390, -5211782, -5208178, -5204580, -5200987, -5197399, -5193816, -5190239, -5186666,
     -5183099, -5179537, -5175980, -5172428, -5168881, -5165339, -5161802, -5158271, -5154744,
     -5151222, -5147705, -5144193, -5140686, -5137184, -5133687, -5130195, -5126708, -5123225,
     -5119748, -5116275, -5112807, -5109344, -5105886, -5102432, -5098983, -5095539, -5092100,
     -5088666, -5085236, -5081810, -5078390, -5074974, -5071563, -5068156, -5064754, -5061357,
     -5057964, -5054576, -5051193, -5047813, -5044439, -5041069, -5037704, -5034343, -5030986,
     -5027634, -5024286, -5020943, -5017605, -5014270, -5010941, -5007615, -5004294, -5000977,
     -4997665, -4994357, -4991053, -4987754, -4984459, -4981168, -4977881, -4974599, -4971321,
     -4968048, -4964778, -4961513, -4958252, -4954995, -4951742, -4948494, -4945249, -4942009,
     -4938773, -4935541, -4932313, -4929089, -4925870, -4922654, -4919443, -4916235, -4913032,
     -4909832, -4906637, -4903445, -4900258, -4897075, -4893895, -4890720, -4887548, -4884381,
     -4881217, -4878057, -4874902, -4871750, -4868602, -4865458, -4862317, -4859181, -4856048,
     -4852919, -4849795, -4846673, -4843556, -4840443, -4837333, -4834227, -4831125, -4828026,
     -4824932, -4821841, -4818753, -4815670, -4812590, -4809514, -4806441, -4803372, -4800307,
     -4797246, -4794188, -4791134, -4788083, -4785036, -4781993, -4778953, -4775917, -4772884,
     -4769855, -4766830, -4763808, -4760789, -4757774, -4754763, -4751755, -4748751, -4745750,
     -4742752, -4739758, -4736768, -4733781, -4730797, -4727817, -4724840, -4721867, -4718897,
     -4715931, -4712968, -4710008, -4707052, -4704099, -4701149, -4698203, -4695260, -4692320,
     -4689384, -4686451, -4683521, -4680595, -4677672, -4674752, -4671835, -4668922, -4666012,
     -4663105, -4660202, -4657301, -4654404, -4651511, -4648620, -4645732, -4642848, -4639967,
     -4637089, -4634214, -4631343, -4628474, -4625609, -4622747, -4619888, -4617032, -4614179,
     -4611329, -4608483, -4605639, -4602799, -4599962, -4597127, -4594296, -4591468, -4588643,
     -4585821, -4583001, -4580185, -4577372, -4574562, -4571755, -4568951, -4566150, -4563352,
     -4560557, -4557765, -4554975, -4552189, -4549406, -4546626, -4543848, -4541073, -4538302,
     -4535533, -4532767, -4530004, -4527244, -4524487, -4521733, -4518981, -4516233, -4513487,
     -4510744, -4508004, -4505267, -4502532, -4499801, -4497072, -4494346, -4491623, -4488903,
     -4486185, -4483470, -4480758, -4478049, -4475342, -4472638, -4469937, -4467239, -4464543,
     -4461851, -4459161, -4456473, -4453788, -4451106, -4448427, -4445750, -4443077, -4440405,
     -4437737, -4435071, -4432407, -4429747, -4427089, -4424433, -4421781, -4419131, -4416483,
     -4413838, -4411196, -4408556, -4405919, -4403285, -4400653, -4398024, -4395397, -4392773,
     -4390151, -4387532, -4384916, -4382302, -4379690, -4377081, -4374475, -4371871, -4369270,
     -4366671, -4364075, -4361481, -4358890, -4356301, -4353715, -4351131, -4348549, -4345970,
     -4343394, -4340820, -4338248, -4335679, -4333113, -4330548, -4327987, -4325427, -4322870,
     -4320316, -4317763, -4315214, -4312666, -4310121, -4307579, -4305038, -4302501, -4299965,
     -4297432, -4294901, -4292373, -4289847, -4287323, -4284802, -4282283, -4279766, -4277252,
     -4274740, -4272230, -4269722, -4267217, -4264714, -4262214, -4259716, -4257220, -4254726,
     -4252235, -4249745, -4247259, -4244774, -4242292, -4239811, -4237334, -4234858, -4232385,
     -4229913, -4227444, -4224978, -4222513, -4220051, -4217591, -4215133, -4212677, -4210224,
     -4207772, -4205323, -4202876, -4200432, -4197989, -4195549, -4193110, -4190674, -4188240,
     -4185808, -4183379, -4180951, -4178526, -4176103, -4173681, -4171262, -4168846, -4166431,
     -4164018, -4161608, -4159199, -4156793, -4154388, -4151986, -4149586, -4147188, -4144792,
     -4142398, -4140006, -4137617, -4135229, -4132843, -4130460, -4128078, -4125698, -4123321,
     -4120945, -4118572, -4116201, -4113831, -4111464, -4109098, -4106735, -4104374, -4102014,
     -4099657, -4097302, -4094948, -4092597, -4090247, -4087900, -4085554, -4083211 >>,
  << -7201593, -7197369, -7193153, -7188945, -7184744, -7180552, -7176367, -7172190, -7168021,
     -7163860, -7159706, -7155560, -7151422, -7147292, -7143168, -7139053, -7134945, -7130845,
     -7126752, -7122666, -7118588, -7114518, -7110455, -7106399, -7102350, -7098309, -7094275,
     -7090248, -7086228, -7082216, -7078211, -7074213, -7070222, -7066238, -7062261, -7058291,
     -7054328, -7050372, -7046423, -7042481, -7038546, -7034618, -7030697, -7026782, -7022874,
     -7018974, -7015079, -7011192, -7007311, -7003437, -6999569, -6995709, -6991854, -6988007,
     -6984166, -6980331, -6976503, -6972682, -6968867, -6965058, -6961256, -6957460, -6953671,
     -6949888, -6946111, -6942340, -6938576, -6934818, -6931067, -6927322, -6923582, -6919849,
     -6916123, -6912402, -6908687, -6904979, -6901276, -6897580, -6893890, -6890206, -6886527,
     -6882855, -6879189, -6875528, -6871874, -6868225, -6864582, -6860946, -6857315, -6853689,
     -6850070, -6846456, -6842848, -6839246, -6835650, -6832059, -6828474, -6824895, -6821321,
     -6817753, -6814190, -6810634, -6807082, -6803537, -6799996, -6796462, -6792932, -6789409,
     -6785890, -6782378, -6778870, -6775368, -6771872, -6768380, -6764895, -6761414, -6757939,
     -6754469, -6751004, -6747545, -6744091, -6740642, -6737199, -6733760, -6730327, -6726899,
     -6723476, -6720059, -6716646, -6713239, -6709836, -6706439, -6703047, -6699660, -6696278,
     -6692900, -6689528, -6686161, -6682799, -6679442, -6676090, -6672742, -6669400, -6666062,
     -6662730, -6659402, -6656079, -6652761, -6649448, -6646139, -6642835, -6639536, -6636242,
     -6632953, -6629668, -6626388, -6623113, -6619842, -6616577, -6613315, -6610059, -6606807,
     -6603560, -6600317, -6597079, -6593845, -6590616, -6587392, -6584172, -6580957, -6577746,
     -6574540, -6571338, -6568141, -6564948, -6561759, -6558575, -6555396, -6552220, -6549050,
     -6545883, -6542721, -6539564, -6536410, -6533261, -6530117, -6526976, -6523840, -6520708,
     -6517581, -6514458, -6511339, -6508224, -6505113, -6502007, -6498905, -6495807, -6492713,
     -6489623, -6486538, -6483457, -6480379, -6477306, -6474237, -6471173, -6468112, -6465055,
     -6462002, -6458954, -6455909, -6452869, -6449832, -6446800, -6443771, -6440746, -6437726,
     -6434709, -6431697, -6428688, -6425683, -6422682, -6419685, -6416692, -6413703, -6410717,
     -6407736, -6404758, -6401784, -6398815, -6395848, -6392886, -6389928, -6386973, -6384022,
     -6381075, -6378131, -6375192, -6372256, -6369323, -6366395, -6363470, -6360549, -6357632,
     -6354718, -6351808, -6348902, -6345999, -6343100, -6340204, -6337313, -6334424, -6331540,
     -6328659, -6325781, -6322907, -6320037, -6317170, -6314307, -6311448, -6308591, -6305739,
     -6302890, -6300044, -6297202, -6294363, -6291528, -6288697, -6285868, -6283044, -6280222,
     -6277404, -6274590, -6271779, -6268971, -6266167, -6263366, -6260568, -6257774, -6254984,
     -6252196, -6249412, -6246631, -6243854, -6241080, -6238309, -6235541, -6232777, -6230016,
     -6227259, -6224504, -6221753, -6219005, -6216261, -6213519, -6210781, -6208046, -6205314,
     -6202586, -6199861, -6197138, -6194419, -6191704, -6188991, -6186282, -6183575, -6180872,
     -6178172, -6175475, -6172781, -6170091, -6167403, -6164719, -6162037, -6159359, -6156684,
     -6154011, -6151342, -6148676, -6146013, -6143353, -6140696, -6138042, -6135391, -6132743,
     -6130098, -6127456, -6124817, -6122181, -6119548, -6116918, -6114291, -6111667, -6109046,
     -6106428, -6103812, -6101200, -6098590, -6095984, -6093380, -6090779, -6088181, -6085586,
     -6082994, -6080405, -6077819, -6075235, -6072654, -6070076, -6067501, -6064929, -6062360,
     -6059793, -6057229, -6054668, -6052110, -6049555, -6047002, -6044452, -6041905, -6039361,
     -6036819, -6034281, -6031744, -6029211, -6026680, -6024153, -6021627, -6019105, -6016585,
     -6014068, -6011554, -6009042, -6006533, -6004027, -6001523, -5999022, -5996524, -5994028,
     -5991535, -5989045, -5986557, -5984072, -5981590, -5979110, -5976632, -5974158, -5971686,
     -5969216, -5966749, -5964285, -5961823, -5959364, -5956907, -5954453, -5952002, -5949553,
     -5947106, -5944663, -5942221, -5939782, -5937346, -5934912, -5932481, -5930052, -5927626,
     -5925202, -5922781, -5920362, -5917946, -5915532, -5913120, -5910711, -5908305, -5905901,
     -5903499, -5901100, -5898703, -5896309, -5893917, -5891527, -5889140, -5886756, -5884373,
     -5881993, -5879616, -5877241, -5874868, -5872498, -5870130, -5867764, -5865401, -5863040,
     -5860681, -5858325, -5855971, -5853620, -5851271, -5848924, -5846579, -5844237, -5841897,
     -5839559, -5837224, -5834891, -5832560, -5830232, -5827906, -5825582, -5823260, -5820941,
     -5818623, -5816309, -5813996, -5811686, -5809378, -5807072, -5804768, -5802467, -5800168,
     -5797871, -5795576, -5793283, -5790993, -5788705, -5786419, -5784135, -5781854, -5779574,
     -5777297, -5775022, -5772749, -5770479, -5768210, -5765944, -5763679, -5761417, -5759158,
     -5756900, -5754644, -5752391, -5750139, -5747890, -5745643, -5743398, -5741155, -5738914,
     -5736675, -5734439, -5732204, -5729972, -5727742, -5725513, -5723287, -5721063, -5718841,
     -5716621, -5714403, -5712187, -5709973, -5707761, -5705552, -5703344, -5701138, -5698935,
     -5696733, -5694534, -5692336, -5690141, -5687947, -5685755, -5683566, -5681378 >>,
  << -8688783, -8684626, -8680477, -8676336, -8672203, -8668078, -8663960, -8659850, -8655748,
     -8651654, -8647568, -8643489, -8639418, -8635355, -8631299, -8627251, -8623210, -8619177,
     -8615151, -8611133, -8607122, -8603119, -8599123, -8595134, -8591153, -8587179, -8583212,
     -8579252, -8575300, -8571355, -8567417, -8563486, -8559563, -8555646, -8551737, -8547834,
     -8543939, -8540050, -8536168, -8532294, -8528426, -8524565, -8520711, -8516864, -8513024,
     -8509190, -8505363, -8501543, -8497730, -8493923, -8490123, -8486330, -8482543, -8478763,
     -8474989, -8471222, -8467462, -8463708, -8459960, -8456219, -8452484, -8448756, -8445034,
     -8441318, -8437609, -8433906, -8430210, -8426519, -8422835, -8419158, -8415486, -8411821,
     -8408161, -8404508, -8400861, -8397220, -8393586, -8389957, -8386334, -8382717, -8379107,
     -8375502, -8371903, -8368311, -8364724, -8361143, -8357568, -8353999, -8350435, -8346878,
     -8343326, -8339780, -8336240, -8332705, -8329177, -8325654, -8322136, -8318625, -8315119,
     -8311618, -8308124, -8304634, -8301151, -8297673, -8294200, -8290734, -8287272, -8283816,
     -8280366, -8276921, -8273481, -8270047, -8266618, -8263195, -8259777, -8256364, -8252957,
     -8249555, -8246158, -8242767, -8239381, -8236000, -8232624, -8229253, -8225888, -8222528,
     -8219173, -8215823, -8212479, -8209139, -8205805, -8202475, -8199151, -8195832, -8192518,
     -8189209, -8185905, -8182605, -8179311, -8176022, -8172738, -8169458, -8166184, -8162915,
     -8159650, -8156390, -8153135, -8149885, -8146640, -8143400, -8140164, -8136933, -8133707,
     -8130486, -8127269, -8124057, -8120850, -8117648, -8114450, -8111257, -8108069, -8104885,
     -8101706, -8098531, -8095361, -8092196, -8089035, -8085879, -8082727, -8079580, -8076437,
     -8073299, -8070166, -8067036, -8063912, -8060792, -8057676, -8054564, -8051458, -8048355,
     -8045257, -8042163, -8039074, -8035989, -8032908, -8029832, -8026760, -8023692, -8020628,
     -8017569, -8014514, -8011463, -8008417, -8005375, -8002337, -7999303, -7996274, -7993248,
     -7990227, -7987210, -7984197, -7981188, -7978183, -7975183, -7972186, -7969194, -7966206,
     -7963221, -7960241, -7957265, -7954293, -7951325, -7948361, -7945401, -7942445, -7939493,
     -7936545, -7933600, -7930660, -7927724, -7924791, -7921863, -7918938, -7916018, -7913101,
     -7910188, -7907279, -7904374, -7901472, -7898575, -7895681, -7892791, -7889905, -7887023,
     -7884144, -7881269, -7878398, -7875531, -7872667, -7869807, -7866951, -7864099, -7861250,
     -7858405, -7855564, -7852726, -7849892, -7847062, -7844235, -7841412, -7838592, -7835776,
     -7832964, -7830155, -7827350, -7824549, -7821751, -7818956, -7816166, -7813378, -7810594,
     -7807814, -7805037, -7802264, -7799494, -7796728, -7793965, -7791206, -7788450, -7785697,
     -7782948, -7780202, -7777460, -7774721, -7771986, -7769254, -7766525, -7763800, -7761078,
     -7758360, -7755645, -7752933, -7750224, -7747519, -7744817, -7742119, -7739423, -7736731,
     -7734043, -7731357, -7728675, -7725996, -7723321, -7720648, -7717979, -7715313, -7712650,
     -7709991, -7707335, -7704682, -7702032, -7699385, -7696741, -7694101, -7691464, -7688830,
     -7686199, -7683571, -7680946, -7678325, -7675706, -7673091, -7670478, -7667869, -7665263,
     -7662660, -7660060, -7657463, -7654869, -7652278, -7649691, -7647106, -7644524, -7641945,
     -7639370, -7636797, -7634227, -7631660, -7629097, -7626536, -7623978, -7621423, -7618871,
     -7616322, -7613776, -7611233, -7608693, -7606155, -7603621, -7601090, -7598561, -7596035,
     -7593512, -7590992, -7588475, -7585961, -7583450, -7580941, -7578435, -7575933, -7573433,
     -7570935, -7568441, -7565949, -7563461, -7560975, -7558491, -7556011, -7553533, -7551058,
     -7548586, -7546117, -7543650, -7541187, -7538725, -7536267, -7533811, -7531358, -7528908,
     -7526461, -7524016, -7521574, -7519134, -7516697, -7514263, -7511832, -7509403, -7506977,
     -7504553, -7502133, -7499714, -7497299, -7494886, -7492476, -7490068, -7487663, -7485260,
     -7482861, -7480463, -7478069, -7475677, -7473287, -7470900, -7468516, -7466134, -7463755,
     -7461378, -7459004, -7456632, -7454263, -7451896, -7449532, -7447171, -7444812, -7442455,
     -7440101, -7437749, -7435400, -7433054, -7430710, -7428368, -7426029, -7423692, -7421358,
     -7419026, -7416696, -7414370, -7412045, -7409723, -7407403, -7405086, -7402771, -7400459,
     -7398149, -7395841, -7393536, -7391233, -7388933, -7386635, -7384339, -7382045, -7379754,
     -7377466, -7375180, -7372896, -7370614, -7368335, -7366058, -7363783, -7361511, -7359241,
     -7356973, -7354708, -7352445, -7350184, -7347926, -7345670, -7343416, -7341164, -7338915,
     -7336668, -7334423, -7332180, -7329940, -7327702, -7325466, -7323233, -7321001, -7318772,
     -7316545, -7314321, -7312098, -7309878, -7307660, -7305444, -7303231, -7301019, -7298810,
     -7296603, -7294398, -7292196, -7289995, -7287797, -7285601, -7283407, -7281215, -7279025,
     -7276838, -7274652, -7272469, -7270288, -7268109, -7265932, -7263757, -7261585, -7259414,
     -7257246, -7255079, -7252915, -7250753, -7248593, -7246435, -7244279, -7242126, -7239974,
     -7237824, -7235677, -7233531, -7231388, -7229246, -7227107, -7224970, -7222834, -7220701,
     -7218570, -7216441, -7214314, -7212188, -7210065, -7207944, -7205825, -7203708 >>,
  << -10158997, -10154872, -10150756, -10146648, -10142547, -10138455, -10134370, -10130293,
     -10126224, -10122163, -10118109, -10114063, -10110025, -10105994, -10101971, -10097956,
     -10093948, -10089947, -10085954, -10081969, -10077991, -10074020, -10070057, -10066101,
     -10062153, -10058212, -10054278, -10050351, -10046432, -10042519, -10038614, -10034716,
     -10030825, -10026941, -10023065, -10019195, -10015332, -10011477, -10007628, -10003786,
     -9999951, -9996123, -9992302, -9988488, -9984680, -9980879, -9977085, -9973298, -9969518,
     -9965744, -9961977, -9958216, -9954462, -9950715, -9946974, -9943240, -9939512, -9935791,
     -9932076, -9928368, -9924666, -9920971, -9917282, -9913599, -9909923, -9906253, -9902589,
     -9898931, -9895280, -9891635, -9887997, -9884364, -9880738, -9877117, -9873503, -9869895,
     -9866293, -9862697, -9859108, -9855524, -9851946, -9848374, -9844809, -9841249, -9837695,
     -9834147, -9830604, -9827068, -9823538, -9820013, -9816494, -9812981, -9809474, -9805972,
     -9802477, -9798986, -9795502, -9792023, -9788550, -9785083, -9781621, -9778165, -9774714,
     -9771269, -9767830, -9764395, -9760967, -9757544, -9754126, -9750714, -9747308, -9743906,
     -9740511, -9737120, -9733735, -9730355, -9726981, -9723612, -9720248, -9716890, -9713537,
     -9710189, -9706846, -9703508, -9700176, -9696849, -9693527, -9690210, -9686898, -9683592,
     -9680290, -9676994, -9673703, -9670416, -9667135, -9663859, -9660588, -9657322, -9654061,
     -9650804, -9647553, -9644307, -9641065, -9637829, -9634597, -9631370, -9628148, -9624931,
     -9621719, -9618512, -9615309, -9612111, -9608918, -9605730, -9602546, -9599367, -9596193,
     -9593024, -9589859, -9586699, -9583544, -9580393, -9577247, -9574105, -9570968, -9567836,
     -9564708, -9561585, -9558466, -9555352, -9552243, -9549137, -9546037, -9542941, -9539849,
     -9536762, -9533679, -9530601, -9527527, -9524458, -9521392, -9518332, -9515275, -9512223,
     -9509176, -9506132, -9503093, -9500059, -9497028, -9494002, -9490980, -9487963, -9484949,
     -9481940, -9478935, -9475934, -9472938, -9469946, -9466957, -9463973, -9460994, -9458018,
     -9455046, -9452079, -9449115, -9446156, -9443201, -9440250, -9437303, -9434360, -9431421,
     -9428486, -9425555, -9422628, -9419705, -9416786, -9413871, -9410959, -9408052, -9405149,
     -9402250, -9399355, -9396463, -9393575, -9390692, -9387812, -9384936, -9382064, -9379196,
     -9376331, -9373471, -9370614, -9367761, -9364911, -9362066, -9359224, -9356386, -9353552,
     -9350722, -9347895, -9345072, -9342253, -9339437, -9336625, -9333817, -9331013, -9328212,
     -9325414, -9322621, -9319831, -9317044, -9314262, -9311483, -9308707, -9305935, -9303167,
     -9300402, -9297641, -9294883, -9292129, -9289378, -9286631, -9283887, -9281147, -9278410,
     -9275677, -9272948, -9270221, -9267499, -9264779, -9262063, -9259351, -9256642, -9253936,
     -9251234, -9248535, -9245840, -9243148, -9240459, -9237774, -9235092, -9232413, -9229738,
     -9227066, -9224397, -9221732, -9219070, -9216411, -9213756, -9211103, -9208454, -9205809,
     -9203166, -9200527, -9197891, -9195259, -9192629, -9190003, -9187380, -9184760, -9182143,
     -9179530, -9176919, -9174312, -9171708, -9169107, -9166509, -9163915, -9161323, -9158735,
     -9156150, -9153568, -9150989, -9148413, -9145840, -9143270, -9140703, -9138140, -9135579,
     -9133021, -9130467, -9127915, -9125367, -9122821, -9120279, -9117739, -9115203, -9112669,
     -9110139, -9107611, -9105087, -9102565, -9100047, -9097531, -9095018, -9092508, -9090001,
     -9087497, -9084996, -9082498, -9080003, -9077510, -9075021, -9072534, -9070050, -9067569,
     -9065091, -9062616, -9060144, -9057674, -9055207, -9052743, -9050282, -9047824, -9045368,
     -9042916, -9040466, -9038019, -9035574, -9033133, -9030694, -9028258, -9025825, -9023394,
     -9020966, -9018541, -9016119, -9013699, -9011282, -9008868, -9006457, -9004048, -9001642,
     -8999238, -8996838, -8994439, -8992044, -8989651, -8987261, -8984874, -8982489, -8980107,
     -8977727, -8975350, -8972976, -8970604, -8968235, -8965868, -8963505, -8961143, -8958785,
     -8956428, -8954075, -8951724, -8949375, -8947029, -8944686, -8942345, -8940007, -8937671,
     -8935338, -8933007, -8930679, -8928353, -8926030, -8923709, -8921391, -8919076, -8916762,
     -8914452, -8912143, -8909838, -8907534, -8905233, -8902935, -8900639, -8898346, -8896054,
     -8893766, -8891479, -8889196, -8886914, -8884635, -8882359, -8880084, -8877813, -8875543,
     -8873276, -8871011, -8868749, -8866489, -8864232, -8861976, -8859724, -8857473, -8855225,
     -8852979, -8850736, -8848494, -8846256, -8844019, -8841785, -8839553, -8837323, -8835096,
     -8832871, -8830648, -8828428, -8826210, -8823994, -8821780, -8819569, -8817360, -8815153,
     -8812949, -8810746, -8808546, -8806348, -8804153, -8801959, -8799768, -8797579, -8795392,
     -8793208, -8791026, -8788846, -8786668, -8784492, -8782318, -8780147, -8777978, -8775811,
     -8773646, -8771483, -8769323, -8767165, -8765008, -8762854, -8760703, -8758553, -8756405,
     -8754260, -8752116, -8749975, -8747836, -8745699, -8743564, -8741431, -8739301, -8737172,
     -8735045, -8732921, -8730799, -8728678, -8726560, -8724444, -8722330, -8720218, -8718108,
     -8716000, -8713894, -8711791, -8709689, -8707589, -8705492, -8703396, -8701302, -8699211,
     -8697121, -8695034, -8692948, -8690865 >>,
  << -11620872, -11616764, -11612664, -11608572, -11604487, -11600411, -11596342, -11592282,
     -11588229, -11584184, -11580146, -11576116, -11572094, -11568080, -11564073, -11560074,
     -11556082, -11552098, -11548121, -11544152, -11540190, -11536236, -11532289, -11528349,
     -11524417, -11520492, -11516574, -11512664, -11508760, -11504864, -11500975, -11497093,
     -11493219, -11489351, -11485491, -11481637, -11477791, -11473951, -11470119, -11466293,
     -11462474, -11458663, -11454858, -11451059, -11447268, -11443484, -11439706, -11435935,
     -11432170, -11428413, -11424662, -11420917, -11417180, -11413449, -11409724, -11406006,
     -11402295, -11398590, -11394891, -11391199, -11387513, -11383834, -11380161, -11376495,
     -11372835, -11369181, -11365533, -11361892, -11358257, -11354628, -11351006, -11347390,
     -11343779, -11340175, -11336578, -11332986, -11329400, -11325820, -11322247, -11318679,
     -11315118, -11311562, -11308013, -11304469, -11300931, -11297399, -11293873, -11290353,
     -11286839, -11283331, -11279828, -11276331, -11272840, -11269355, -11265875, -11262401,
     -11258933, -11255471, -11252014, -11248563, -11245117, -11241677, -11238243, -11234814,
     -11231390, -11227973, -11224560, -11221154, -11217752, -11214356, -11210966, -11207581,
     -11204201, -11200827, -11197458, -11194095, -11190737, -11187384, -11184036, -11180694,
     -11177357, -11174025, -11170699, -11167378, -11164062, -11160751, -11157445, -11154144,
     -11150849, -11147559, -11144273, -11140993, -11137718, -11134448, -11131183, -11127923,
     -11124668, -11121418, -11118173, -11114934, -11111698, -11108468, -11105243, -11102023,
     -11098808, -11095597, -11092391, -11089190, -11085994, -11082803, -11079617, -11076435,
     -11073259, -11070086, -11066919, -11063757, -11060599, -11057445, -11054297, -11051153,
     -11048014, -11044879, -11041750, -11038624, -11035504, -11032388, -11029276, -11026169,
     -11023067, -11019969, -11016875, -11013787, -11010702, -11007622, -11004547, -11001476,
     -10998410, -10995348, -10992290, -10989237, -10986188, -10983143, -10980103, -10977068,
     -10974036, -10971009, -10967986, -10964968, -10961954, -10958944, -10955938, -10952937,
     -10949940, -10946947, -10943958, -10940974, -10937993, -10935017, -10932045, -10929078,
     -10926114, -10923155, -10920199, -10917248, -10914301, -10911358, -10908419, -10905484,
     -10902553, -10899627, -10896704, -10893785, -10890870, -10887960, -10885053, -10882150,
     -10879251, -10876357, -10873466, -10870579, -10867696, -10864817, -10861942, -10859070,
     -10856203, -10853339, -10850480, -10847624, -10844772, -10841924, -10839079, -10836239,
     -10833402, -10830569, -10827740, -10824914, -10822093, -10819275, -10816461, -10813650,
     -10810844, -10808041, -10805241, -10802446, -10799654, -10796865, -10794081, -10791300,
     -10788523, -10785749, -10782979, -10780212, -10777449, -10774690, -10771935, -10769182,
     -10766434, -10763689, -10760947, -10758210, -10755475, -10752744, -10750017, -10747293,
     -10744573, -10741856, -10739142, -10736433, -10733726, -10731023, -10728323, -10725627,
     -10722935, -10720245, -10717559, -10714877, -10712198, -10709522, -10706849, -10704180,
     -10701515, -10698852, -10696193, -10693538, -10690885, -10688236, -10685591, -10682948,
     -10680309, -10677673, -10675040, -10672411, -10669785, -10667162, -10664542, -10661926,
     -10659313, -10656703, -10654096, -10651492, -10648892, -10646295, -10643701, -10641110,
     -10638522, -10635938, -10633356, -10630778, -10628203, -10625631, -10623062, -10620496,
     -10617933, -10615374, -10612817, -10610263, -10607713, -10605166, -10602621, -10600080,
     -10597542, -10595007, -10592474, -10589945, -10587419, -10584896, -10582376, -10579859,
     -10577344, -10574833, -10572325, -10569820, -10567317, -10564818, -10562321, -10559828,
     -10557337, -10554850, -10552365, -10549883, -10547404, -10544928, -10542454, -10539984,
     -10537517, -10535052, -10532590, -10530131, -10527675, -10525222, -10522772, -10520324,
     -10517879, -10515437, -10512998, -10510562, -10508128, -10505698, -10503269, -10500844,
     -10498422, -10496002, -10493585, -10491171, -10488759, -10486351, -10483945, -10481541,
     -10479141, -10476743, -10474348, -10471955, -10469565, -10467178, -10464794, -10462412,
     -10460033, -10457656, -10455283, -10452912, -10450543, -10448177, -10445814, -10443453,
     -10441095, -10438740, -10436387, -10434037, -10431689, -10429345, -10427002, -10424662,
     -10422325, -10419990, -10417658, -10415329, -10413002, -10410677, -10408355, -10406036,
     -10403719, -10401405, -10399093, -10396783, -10394477, -10392172, -10389870, -10387571,
     -10385274, -10382980, -10380688, -10378398, -10376111, -10373827, -10371545, -10369265,
     -10366988, -10364713, -10362441, -10360171, -10357903, -10355638, -10353376, -10351116,
     -10348858, -10346602, -10344349, -10342098, -10339850, -10337604, -10335361, -10333119,
     -10330880, -10328644, -10326410, -10324178, -10321949, -10319721, -10317497, -10315274,
     -10313054, -10310836, -10308621, -10306407, -10304196, -10301988, -10299781, -10297577,
     -10295376, -10293176, -10290979, -10288784, -10286591, -10284401, -10282212, -10280026,
     -10277843, -10275661, -10273482, -10271305, -10269130, -10266958, -10264787, -10262619,
     -10260453, -10258289, -10256128, -10253969, -10251811, -10249656, -10247504, -10245353,
     -10243204, -10241058, -10238914, -10236772, -10234632, -10232495, -10230359, -10228226,
     -10226094, -10223965, -10221838, -10219713, -10217591, -10215470, -10213352, -10211235,
     -10209121, -10207009, -10204898, -10202790, -10200684, -10198581, -10196479, -10194379,
     -10192281, -10190186, -10188092, -10186001, -10183911, -10181824, -10179739, -10177655,
     -10175574, -10173495, -10171418, -10169342, -10167269, -10165198, -10163129, -10161062 >>,
  << -24711779, -24711779, -23258128, -22407790, -21804461, -21336479, -20954107, -20630814,
     -20350762, -20103737, -19882764, -19682868, -19500376, -19332498, -19177067, -19032362,
     -18896999, -18769844, -18649958, -18536555, -18428969, -18326633, -18229057, -18135819,
     -18046549, -17960923, -17878655, -17799492, -17723208, -17649600, -17578487, -17509706,
     -17443108, -17378559, -17315937, -17255130, -17196035, -17138559, -17082616, -17028125,
     -16975014, -16923214, -16872662, -16823298, -16775070, -16727925, -16681816, -16636698,
     -16592530, -16549272, -16506888, -16465343, -16424604, -16384641, -16345425, -16306928,
     -16269124, -16231990, -16195501, -16159635, -16124372, -16089691, -16055575, -16022003,
     -15988961, -15956430, -15924396, -15892843, -15861758, -15831126, -15800934, -15771171,
     -15741824, -15712881, -15684332, -15656166, -15628372, -15600942, -15573866, -15547134,
     -15520739, -15494671, -15468922, -15443486, -15418354, -15393520, -15368975, -15344714,
     -15320731, -15297018, -15273570, -15250380, -15227444, -15204756, -15182311, -15160102,
     -15138126, -15116378, -15094853, -15073546, -15052452, -15031569, -15010891, -14990415,
     -14970137, -14950052, -14930158, -14910450, -14890925, -14871581, -14852412, -14833418,
     -14814593, -14795935, -14777442, -14759110, -14740937, -14722919, -14705055, -14687342,
     -14669776, -14652356, -14635080, -14617944, -14600947, -14584086, -14567360, -14550765,
     -14534301, -14517965, -14501754, -14485668, -14469704, -14453860, -14438135, -14422527,
     -14407034, -14391654, -14376386, -14361228, -14346178, -14331236, -14316399, -14301666,
     -14287036, -14272507, -14258077, -14243746, -14229512, -14215374, -14201330, -14187379,
     -14173520, -14159753, -14146074, -14132484, -14118982, -14105565, -14092234, -14078987,
     -14065822, -14052740, -14039739, -14026817, -14013974, -14001209, -13988522, -13975910,
     -13963374, -13950912, -13938523, -13926207, -13913963, -13901789, -13889686, -13877652,
     -13865686, -13853788, -13841957, -13830192, -13818493, -13806858, -13795288, -13783781,
     -13772336, -13760953, -13749632, -13738371, -13727170, -13716029, -13704946, -13693921,
     -13682954, -13672043, -13661189, -13650391, -13639648, -13628959, -13618325, -13607744,
     -13597216, -13586740, -13576316, -13565944, -13555622, -13545351, -13535130, -13524958,
     -13514836, -13504761, -13494735, -13484756, -13474825, -13464940, -13455101, -13445308,
     -13435560, -13425858, -13416199, -13406585, -13397015, -13387488, -13378004, -13368563,
     -13359164, -13349806, -13340490, -13331215, -13321981, -13312787, -13303633, -13294519,
     -13285443, -13276407, -13267410, -13258451, -13249530, -13240646, -13231800, -13222991,
     -13214219, -13205483, -13196783, -13188119, -13179490, -13170897, -13162338, -13153814,
     -13145325, -13136870, -13128448, -13120060, -13111706, -13103384, -13095095, -13086839,
     -13078615, -13070423, -13062263, -13054134, -13046036, -13037970, -13029934, -13021929,
     -13013954, -13006009, -12998094, -12990209, -12982353, -12974526, -12966729, -12958960,
     -12951219, -12943507, -12935824, -12928168, -12920539, -12912939, -12905365, -12897819,
     -12890300, -12882807, -12875341, -12867902, -12860488, -12853101, -12845739, -12838403,
     -12831093, -12823808, -12816548, -12809313, -12802102, -12794916, -12787755, -12780618,
     -12773505, -12766416, -12759350, -12752309, -12745291, -12738296, -12731324, -12724375,
     -12717449, -12710546, -12703665, -12696807, -12689971, -12683157, -12676365, -12669595,
     -12662846, -12656119, -12649414, -12642730, -12636067, -12629424, -12622803, -12616203,
     -12609623, -12603063, -12596524, -12590005, -12583507, -12577028, -12570569, -12564130,
     -12557710, -12551310, -12544929, -12538568, -12532226, -12525903, -12519598, -12513313,
     -12507046, -12500797, -12494568, -12488356, -12482163, -12475988, -12469831, -12463692,
     -12457570, -12451467, -12445381, -12439312, -12433261, -12427228, -12421211, -12415212,
     -12409230, -12403264, -12397315, -12391384, -12385468, -12379570, -12373688, -12367822,
     -12361972, -12356139, -12350321, -12344520, -12338735, -12332965, -12327211, -12321473,
     -12315751, -12310044, -12304352, -12298676, -12293014, -12287368, -12281737, -12276122,
     -12270521, -12264934, -12259363, -12253806, -12248264, -12242736, -12237223, -12231725,
     -12226240, -12220770, -12215314, -12209872, -12204443, -12199029, -12193629, -12188243,
     -12182870, -12177511, -12172165, -12166833, -12161515, -12156209, -12150917, -12145639,
     -12140373, -12135121, -12129882, -12124655, -12119442, -12114241, -12109053, -12103878,
     -12098716, -12093566, -12088429, -12083304, -12078191, -12073091, -12068004, -12062928,
     -12057865, -12052813, -12047774, -12042747, -12037732, -12032729, -12027737, -12022757,
     -12017789, -12012833, -12007888, -12002955, -11998033, -11993123, -11988224, -11983337,
     -11978461, -11973596, -11968742, -11963899, -11959068, -11954247, -11949438, -11944639,
     -11939851, -11935074, -11930308, -11925553, -11920808, -11916074, -11911351, -11906638,
     -11901935, -11897243, -11892562, -11887891, -11883230, -11878579, -11873939, -11869308,
     -11864688, -11860078, -11855478, -11850888, -11846308, -11841738, -11837178, -11832627,
     -11828087, -11823556, -11819034, -11814523, -11810021, -11805529, -11801046, -11796572,
     -11792109, -11787654, -11783209, -11778773, -11774347, -11769929, -11765521, -11761123,
     -11756733, -11752352, -11747981, -11743618, -11739265, -11734920, -11730585, -11726258,
     -11721940, -11717631, -11713331, -11709039, -11704756, -11700482, -11696216, -11691959,
     -11687711, -11683471, -11679239, -11675016, -11670802, -11666596, -11662398, -11658208,
     -11654027, -11649854, -11645689, -11641533, -11637385, -11633244, -11629112, -11624988 >> >>
UpperPoints ==
  << 1073741824, 1077936127, 1082130175, 1086324223, 1090517759, 1094710783, 1098903039,
     1103094527, 1107285247, 1111474943, 1115663615, 1119850751, 1124036607, 1128220927,
     1132403711, 1136584447, 1140763647, 1144940543, 1149115391, 1153287679, 1157457663,
     1161625087, 1165790207, 1169952255, 1174111231, 1178267199, 1182420223, 1186569983,
     1190716159, 1194859007, 1198998015, 1203133439, 1207264767, 1211392255, 1215515615,
     1219634431, 1223749119, 1227859455, 1231965183, 1236065663, 1240161791, 1244253183,
     1248338943, 1252419583, 1256495103, 1260565247, 1264629759, 1268688639, 1272741887,
     1276788991, 1280830463, 1284865535, 1288894719, 1292917503, 1296933631, 1300943359,
     1304946687, 1308943103, 1312932863, 1316915455, 1320891063, 1324859391, 1328820735,
     1332774655, 1336721151, 1340660223, 1344591359, 1348514815, 1352430847, 1356338431,
     1360238079, 1364129727, 1368013055, 1371888127, 1375755135, 1379613183, 1383462783,
     1387303679, 1391136063, 1394959359, 1398773759, 1402579327, 1406375727, 1410162943,
     1413940735, 1417709567, 1421468415, 1425218047, 1428958239, 1432688511, 1436409375,
     1440120319, 1443821311, 1447512255, 1451193599, 1454864383, 1458525183, 1462175487,
     1465815807, 1469445663, 1473065215, 1476674047, 1480272383, 1483860223, 1487437311,
     1491003519, 1494558975, 1498103551, 1501637375, 1505159935, 1508671775, 1512172383,
     1515661631, 1519139839, 1522606847, 1526062591, 1529506943, 1532939903, 1536361215,
     1539771391, 1543169535, 1546556415, 1549931519, 1553295167, 1556646911, 1559986943,
     1563315231, 1566631679, 1569936383, 1573228799, 1576509439, 1579778303, 1583034879,
     1586279743, 1589512319, 1592732671, 1595941119, 1599137407, 1602321151, 1605492863,
     1608652543, 1611799807, 1614934527, 1618057471, 1621167615, 1624265471, 1627351039,
     1630424063, 1633484799, 1636532991, 1639568895, 1642592255, 1645603071, 1648601343,
     1651587071, 1654560511, 1657521279, 1660469503, 1663405055, 1666328191, 1669238783,
     1672136559, 1675021951, 1677894623, 1680754943, 1683602431, 1686437375, 1689259775,
     1692069375, 1694866431, 1697650943, 1700422783, 1703181951, 1705928703, 1708662783,
     1711384319, 1714093055, 1716789247, 1719472927, 1722143999, 1724802559, 1727448575,
     1730081919, 1732702719, 1735311103, 1737906943, 1740490111, 1743060991, 1745619231,
     1748164991, 1750698367, 1753219327, 1755727871, 1758223871, 1760707391, 1763178751,
     1765637631, 1768084223, 1770518527, 1772940543, 1775350015, 1777747327, 1780132351,
     1782505343, 1784866047, 1787214591, 1789550847, 1791875071, 1794187263, 1796487167,
     1798775167, 1801051007, 1803314943, 1805566847, 1807806719, 1810034815, 1812250879,
     1814455039, 1816647423, 1818828031, 1820996863, 1823153919, 1825299071, 1827432703,
     1829554591, 1831664895, 1833763583, 1835850751, 1837926271, 1839990271, 1842042879,
     1844084095, 1846113663, 1848132095, 1850139135, 1852134815, 1854119167, 1856092543,
     1858054527, 1860005311, 1861944959, 1863873791, 1865791231, 1867697743, 1869593343,
     1871477887, 1873351679, 1875214463, 1877066511, 1878907727, 1880738175, 1882557951,
     1884366975, 1886165503, 1887953279, 1889730535, 1891497291, 1893253503, 1894999423,
     1896734719, 1898459903, 1900174591, 1901879167, 1903573247, 1905257407, 1906931199,
     1908594943, 1910248639, 1911892287, 1913526015, 1915149631, 1916763423, 1918367359,
     1919961471, 1921545727, 1923120255, 1924685183, 1926240383, 1927785983, 1929321983,
     1930848383, 1932365415, 1933872959, 1935371135, 1936859903, 1938339327, 1939809535,
     1941270399, 1942722175, 1944164735, 1945598335, 1947022719, 1948438143, 1949844607,
     1951241983, 1952630623, 1954010367, 1955381311, 1956743487, 1958096895, 1959441663,
     1960777855, 1962105343, 1963424367, 1964734847, 1966036863, 1967330367, 1968615551,
     1969892479, 1971160959, 1972421247, 1973673407, 1974917311, 1976153087, 1977380799,
     1978600399, 1979811967, 1981015743, 1982211455, 1983399423, 1984579391, 1985751743,
     1986916159, 1988072959, 1989222079, 1990363583, 1991497471, 1992623807, 1993742655,
     1994854111, 1995958015, 1997054591, 1998143839, 1999225791, 2000300415, 2001367935,
     2002428223, 2003481279, 2004527343, 2005566335, 2006598271, 2007623231, 2008641291,
     2009652479, 2010656767, 2011654143, 2012644799, 2013628799, 2014606015, 2015576511,
     2016540415, 2017497759, 2018448511, 2019392767, 2020330559, 2021261951, 2022186943,
     2023105471, 2024017727, 2024923775, 2025823487, 2026716991, 2027604355, 2028485567,
     2029360703, 2030229695, 2031092735, 2031949759, 2032800895, 2033646015, 2034485311,
     2035318719, 2036146303, 2036968191, 2037784319, 2038594687, 2039399423, 2040198527,
     2040992017, 2041779967, 2042562335, 2043339231, 2044110719, 2044876735, 2045637375,
     2046392639, 2047142559, 2047887199, 2048626559, 2049360703, 2050089663, 2050813503,
     2051532223, 2052245759, 2052954303, 2053657791, 2054356287, 2055049823, 2055738431,
     2056422079, 2057100927, 2057774895, 2058444095, 2059108479, 2059768127, 2060423039,
     2061073295, 2061718879, 2062359871, 2062996231, 2063628063, 2064255359, 2064878143,
     2065496383, 2066110239, 2066719679, 2067324735, 2067925471, 2068521791, 2069113903,
     2069701631, 2070285215, 2070864511, 2071439663, 2072010639, 2072577471, 2073140255,
     2073698911, 2074253503, 2074804095, 2075350719, 2075893343, 2076432031, 2076966815,
     2077497695, 2078024703, 2078547935, 2079067295, 2079582847, 2080094655, 2080602783,
     2081107135, 2081607839, 2082104895, 2082598335, 2083088127, 2083574335, 2084056959,
     2084536095, 2085011711, 2085483839, 2085952511, 2086417727, 2086879535, 2087337951,
     2087792991, 2088244703, 2088693087, 2089138175, 2089579967, 2090018511, 2090453855,
     2090885955, 2091314879, 2091740639, 2092163263, 2092582763, 2092999167, 2093412495,
     2093822751, 2094229991, 2094634239, 2095035455, 2095433727, 2095829039, 2096221407,
     2096610879, 2096997469, 2097381199, 2097762063, 2098140127, 2098515359, 2098887799,
     2099257487, 2099624415, 2099988639, 2100350143, 2100708943, 2101065055, 2101418575,
     2101769387, 2102117631, 2102463263, 2102806335, 2103146839, 2103484799, 2103820255,
     2104153167, 2104483631, 2104811615, 2105137119, 2105460223, 2105780911, 2106099167,
     2106415083, 2106728623, 2107039807, 2107348655, 2107655199, 2107959439, 2108261391,
     2108561119, 2108858543, 2109153775, 2109446763, 2109737583, 2110026175, 2110312639,
     2110596927, 2110879103, 2111159135, 2111437087, 2111712911, 2111986687, 2112258383,
     2112528047, 2112795679, 2113061311, 2113324927, 2113586559, 2113846207, 2114103919,
     2114359679, 2114613503, 2114865407, 2115115423, 2115363551, 2115609807, 2115854191,
     2116096735, 2116337447, 2116576335, 2116813431, 2117048719, 2117282239, 2117513983,
     2117743983, 2117972239, 2118198751, 2118423583, 2118646703, 2118868095, 2119087855,
     2119305919, 2119522351, 2119737135, 2119950298, 2120161839, 2120371775, 2120580119,
     2120786879, 2120992067, 2121195711, 2121397791, 2121598351, 2121797375, 2121994899,
     2122190927, 2122385455, 2122578495, 2122770079, 2122960207, 2123148879, 2123336143,
     2123521951, 2123706351, 2123889367, 2124070975, 2124251199, 2124430055, 2124607559,
     2124783695, 2124958491, 2125131959, 2125304111, 2125474943, 2125644471, 2125812703,
     2125979663, 2126145351, 2126309775, 2126472935, 2126634847, 2126795527, 2126954991,
     2127113231, 2127270271, 2127426095, 2127580735, 2127734199, 2127886495, 2128037607,
     2128187583, 2128336399, 2128484095, 2128630647, 2128776091, 2128920415, 2129063631,
     2129205767, 2129346799, 2129486755, 2129625655, 2129763471, 2129900235, 2130035967,
     2130170647, 2130304303, 2130436927, 2130568545, 2130699151, 2130828755, 2130957375,
     2131084991, 2131211647, 2131337327, 2131462039, 2131585791, 2131708599, 2131830471,
     2131951399, 2132071407, 2132190495, 2132308663, 2132425935, 2132542295, 2132657771,
     2132772351, 2132886055, 2132998895, 2133110855, 2133221967, 2133332223, 2133441631,
     2133550191, 2133657927, 2133764831, 2133870919, 2133976183, 2134080647, 2134184303,
     2134287163, 2134389231, 2134490519, 2134591023, 2134690759, 2134789727, 2134887927,
     2134985380, 2135082083, 2135178039, 2135273255, 2135367735, 2135461495, 2135554539,
     2135646855, 2135738467, 2135829373, 2135919579, 2136009087, 2136097911, 2136186051,
     2136273511, 2136360303, 2136446415, 2136531869, 2136616663, 2136700811, 2136784307,
     2136867159, 2136949371, 2137030951, 2137111903, 2137192224, 2137271931, 2137351023,
     2137429511, 2137507387, 2137584666, 2137661347, 2137737439, 2137812942, 2137887863,
     2137962210, 2138035975, 2138109183, 2138181815, 2138253895, 2138325414, 2138396379,
     2138466799, 2138536679, 2138606019, 2138674819, 2138743089, 2138810835, 2138878059,
     2138944759, 2139010947, 2139076627, 2139141795, 2139206463, 2139270627, 2139334299,
     2139397480, 2139460171, 2139522379, 2139584111, 2139645359, 2139706134, 2139766447,
     2139826283, 2139885663, 2139944583, 2140003047, 2140061063, 2140118625, 2140175747,
     2140232424, 2140288667, 2140344470, 2140399843, 2140454795, 2140509313, 2140563412,
     2140617095, 2140670359, 2140723214, 2140775659, 2140827699, 2140879339, 2140930579,
     2140981421, 2141031867, 2141081923, 2141131596, 2141180881, 2141229791, 2141278315,
     2141326467, 2141374249, 2141421661, 2141468703, 2141515375, 2141561694, 2141607652,
     2141653259, 2141698511, 2141743407, 2141787959, 2141832169, 2141876031, 2141919557,
     2141962751, 2142005600, 2142048123, 2142090319, 2142132183, 2142173727, 2142214947,
     2142255851, 2142296431, 2142336705, 2142376661, 2142416311, 2142455655, 2142494687,
     2142533426, 2142571859, 2142609995, 2142647839, 2142685387, 2142722641, 2142759611,
     2142796299, 2142832697, 2142868809, 2142904643, 2142940203, 2142975487, 2143010503,
     2143045237, 2143079705, 2143113905, 2143147843, 2143181515, 2143214927, 2143248081,
     2143280979, 2143313621, 2143346009, 2143378148, 2143410035, 2143441678, 2143473074,
     2143504229, 2143535143, 2143565813, 2143596243, 2143626438, 2143656403, 2143686137,
     2143715641, 2143744907, 2143773950, 2143802771, 2143831371, 2143859744, 2143887894,
     2143915833, 2143943557, 2143971053, 2143998343, 2144025430, 2144052291, 2144078955,
     2144105409, 2144131655, 2144157709, 2144183542, 2144209189, 2144234629, 2144259877,
     2144284927, 2144309781, 2144334445, 2144358915, 2144383197, 2144407291, 2144431196,
     2144454921, 2144478451, 2144501817, 2144524979, 2144547977, 2144570790, 2144593424,
     2144615895, 2144638174, 2144660288, 2144682241, 2144704004, 2144725607, 2144747052,
     2144768313, 2144789415, 2144810361, 2144831140, 2144851750, 2144872207, 2144892509,
     2144912653, 2144932630, 2144952457, 2144972132, 2144991661, 2145011033, 2145030245,
     2145049313, 2145068237, 2145087015, 2145105648, 2145124139, 2145142478, 2145160673,
     2145178727, 2145196645, 2145214422, 2145232063, 2145249567, 2145266936, 2145284170,
     2145301271, 2145318238, 2145335074, 2145351779, 2145368353, 2145384798, 2145401116,
     2145417305, 2145433370, 2145449308, 2145465124, 2145480815, 2145496385, 2145511834,
     2145527164, 2145542375, 2145557469, 2145572446, 2145587308, 2145602057, 2145616693,
     2145631208, 2145645605, 2145659891, 2145674069, 2145688140, 2145702104, 2145715964,
     2145729712, 2145743341, 2145756868, 2145770295, 2145783621, 2145796852, 2145809962,
     2145822969, 2145835880, 2145848700, 2145861425, 2145874026, 2145886538, 2145898961,
     2145911298, 2145923514, 2145935638, 2145947681, 2145959641, 2145971476, 2145983232,
     2145994911, 2146006487, 2146017963, 2146029368, 2146040688, 2146051894, 2146063031,
     2146074095, 2146085038, 2146095916, 2146106726, 2146117415, 2146128044, 2146138597,
     2146149042, 2146159431, 2146169728, 2146179938, 2146190098, 2146200140, 2146210124,
     2146220039, 2146229851, 2146239622, 2146249280, 2146258884, 2146268414, 2146277855,
     2146287258, 2146296537, 2146305787, 2146314934, 2146324029, 2146333048, 2146341992,
     2146350883, 2146359679, 2146368442, 2146377094, 2146385729, 2146394239, 2146402740,
     2146411120, 2146419487, 2146427739, 2146435976, 2146444100, 2146452212, 2146460208,
     2146468198, 2146476066, 2146483935, 2146491679, 2146499419, 2146507051, 2146514664,
     2146522187, 2146529672, 2146537092, 2146544448, 2146551769, 2146558998, 2146566226,
     2146573327, 2146580427, 2146587438, 2146594411, 2146601338, 2146608183, 2146615028,
     2146621751, 2146628467, 2146635118, 2146641707, 2146648292, 2146654753, 2146661214,
     2146667612, 2146673945, 2146680278, 2146686495, 2146692700, 2146698871, 2146704949,
     2146711027, 2146717030, 2146722980, 2146728930, 2146734774, 2146740596, 2146746416,
     2146752110, 2146757804, 2146763481, 2146769047, 2146774613, 2146780155, 2146785593,
     2146791031, 2146796446, 2146801756, 2146807067, 2146812365, 2146817547, 2146822730,
     2146827912, 2146832975, 2146838030, 2146843084, 2146848050, 2146852976, 2146857903,
     2146862783, 2146867581, 2146872379, 2146877178, 2146881855, 2146886526, 2146891196,
     2146895810, 2146900353, 2146904895, 2146909438, 2146913874, 2146918289, 2146922703,
     2146927102, 2146931389, 2146935676, 2146939962, 2146944211, 2146948370, 2146952528,
     2146956687, 2146960800, 2146964830, 2146968861, 2146972892, 2146976885, 2146980788,
     2146984691, 2146988593, 2146992484, 2146996259, 2147000034, 2147003808, 2147007583,
     2147011261, 2147014908, 2147018555, 2147022202, 2147025815, 2147029334, 2147032853,
     2147036372, 2147039891, 2147043332, 2147046723, 2147050114, 2147053505, 2147056896,
     2147060188, 2147063451, 2147066714, 2147069977, 2147073240, 2147076406, 2147079541,
     2147082676, 2147085811, 2147088946, 2147092014, 2147095021, 2147098028, 2147101035,
     2147104042, 2147107039, 2147109918, 2147112797, 2147115676, 2147118555, 2147121434,
     2147124264, 2147127015, 2147129766, 2147132517, 2147135268, 2147138019, 2147140715,
     2147143338, 2147145961, 2147148584, 2147151207, 2147153830, 2147156430, 2147158925,
     2147161420, 2147163915, 2147166410, 2147168905, 2147171400, 2147173816, 2147176183,
     2147178550, 2147180917, 2147183284, 2147185651, 2147188019, 2147190296, 2147192536,
     2147194775, 2147197014, 2147199253, 2147201492, 2147203731, 2147205922, 2147208033,
     2147210144, 2147212255, 2147214366, 2147216477, 2147218588, 2147220699, 2147222731,
     2147224714, 2147226697, 2147228680, 2147230663, 2147232646, 2147234629, 2147236613,
     2147238550, 2147240405, 2147242260, 2147244115, 2147245970, 2147247825, 2147249680,
     2147251535, 2147253390, 2147255178, 2147256905, 2147258632, 2147260359, 2147262086,
     2147263813, 2147265540, 2147267267, 2147268995, 2147270717, 2147272316, 2147273915,
     2147275514, 2147277113, 2147278712, 2147280311, 2147281910, 2147283509, 2147285108,
     2147286707, 2147288204, 2147289675, 2147291146, 2147292617, 2147294088, 2147295559,
     2147297030, 2147298501, 2147299972, 2147301443, 2147302914, 2147304301, 2147305644,
     2147306987, 2147308330, 2147309673, 2147311015, 2147312358, 2147313701, 2147315044,
     2147316387, 2147317730, 2147319073, 2147320358, 2147321572, 2147322787, 2147324002,
     2147325217, 2147326432, 2147327646, 2147328861, 2147330076, 2147331291, 2147332505,
     2147333720, 2147334935, 2147336150, 2147337241, 2147338328, 2147339414, 2147340501,
     2147341588, 2147342674, 2147343761, 2147344848, 2147345934, 2147347021, 2147348108,
     2147349194, 2147350281, 2147351368, 2147352454, 2147353427, 2147354386, 2147355344,
     2147356303, 2147357261, 2147358220, 2147359178, 2147360137, 2147361095, 2147362054,
     2147363012, 2147363971, 2147364929, 2147365888, 2147366846, 2147367805, 2147368764,
     2147369620, 2147370450, 2147371281, 2147372111, 2147372941, 2147373772, 2147374602,
     2147375432, 2147376263, 2147377093, 2147377923, 2147378754, 2147379584, 2147380414,
     2147381245, 2147382075, 2147382905, 2147383736, 2147384566, 2147385388, 2147386090,
     2147386792, 2147387494, 2147388196, 2147388898, 2147389600, 2147390302, 2147391004,
     2147391706, 2147392408, 2147393110, 2147393812, 2147394514, 2147395216, 2147395919,
     2147396621, 2147397323, 2147398025, 2147398727, 2147399429, 2147400131, 2147400833,
     2147401535, 2147402144, 2147402717, 2147403291, 2147403864, 2147404438, 2147405012,
     2147405585, 2147406159, 2147406732, 2147407306, 2147407880, 2147408453, 2147409027,
     2147409601, 2147410174, 2147410748, 2147411321, 2147411895, 2147412469, 2147413042,
     2147413616, 2147414189, 2147414763, 2147415337, 2147415910, 2147416484, 2147417057,
     2147417631, 2147418184, 2147418629, 2147419074, 2147419519, 2147419963, 2147420408,
     2147420853, 2147421298, 2147421743, 2147422188, 2147422633, 2147423078, 2147423523,
     2147423968, 2147424413, 2147424858, 2147425303, 2147425747, 2147426192, 2147426637,
     2147427082, 2147427527, 2147427972, 2147428417, 2147428862, 2147429307, 2147429752,
     2147430197, 2147430642, 2147431087, 2147431531, 2147431976, 2147432421, 2147432866,
     2147433311, 2147433756, 2147434201, 2147434602, 2147434918, 2147435234, 2147435549,
     2147435865, 2147436181, 2147436496, 2147436812, 2147437128, 2147437444, 2147437759,
     2147438075, 2147438391, 2147438706, 2147439022, 2147439338, 2147439653, 2147439969,
     2147440285, 2147440600, 2147440916, 2147441232, 2147441547, 2147441863, 2147442179,
     2147442494, 2147442810, 2147443126, 2147443441, 2147443757, 2147444073, 2147444389,
     2147444704, 2147445020, 2147445336, 2147445651, 2147445967, 2147446283, 2147446598,
     2147446914, 2147447230, 2147447545, 2147447861, 2147448177, 2147448492, 2147448808,
     2147449124, 2147449439, 2147449755, 2147450071, 2147450386, 2147450702, 2147450961,
     2147451145, 2147451330, 2147451515, 2147451699, 2147451884, 2147452069, 2147452253,
     2147452438, 2147452623, 2147452807, 2147452992, 2147453177, 2147453361, 2147453546,
     2147453731, 2147453915, 2147454100, 2147454285, 2147454469, 2147454654, 2147454839,
     2147455023, 2147455208, 2147455393, 2147455577, 2147455762, 2147455947, 2147456131,
     2147456316, 2147456500, 2147456685, 2147456870, 2147457054, 2147457239, 2147457424,
     2147457608, 2147457793, 2147457978, 2147458162, 2147458347, 2147458532, 2147458716,
     2147458901, 2147459086, 2147459270, 2147459455, 2147459640, 2147459824, 2147460009,
     2147460194, 2147460378, 2147460563, 2147460748, 2147460932, 2147461117, 2147461302,
     2147461486, 2147461671, 2147461856, 2147462040, 2147462225, 2147462410, 2147462594,
     2147462779, 2147462964, 2147463148, 2147463333, 2147463518, 2147463702, 2147463887,
     2147464072, 2147464256, 2147464441, 2147464626, 2147464810, 2147464995, 2147465180,
     2147465364, 2147465549, 2147465734, 2147465918, 2147466103, 2147466288, 2147466472,
     2147466657, 2147466842, 2147467026, 2147467211, 2147467264, 2147467264, 2147467264,
     2147467264, 2147467264, 2147467264, 2147467264, 2147467264, 2147467264, 2147467264,
     2147467264, 2147467264, 2147467264, 2147467264, 2147467264, 2147467264, 2147467264,
     2147467264, 2147467264, 2147467264, 2147467264, 2147467264, 2147467264, 2147467264,
     2147467264, 2147467264, 2147467264, 2147467264 >>
=============================================================================
