------------------------------- MODULE Field -------------------------------
(* Exact arithmetic for quantum amplitudes.                                                  *)
(* P = 40961 = 5*2^13 + 1 is prime, so GF(P) has a primitive 8192nd root of unity Z.  The ring  *)
(* Z[zeta_8192, 1/2] maps onto GF(P) by zeta |-> Z; every gate of the instruction sets at an   *)
(* angle that is a multiple of 1/2048 half turns has its matrix entries in that ring, so the   *)
(* image is exact: two circuits that implement the same channel have identical images.         *)
(* Products of two residues stay below 2^31, TLC's integer range.                              *)
EXTENDS Integers, Sequences, TLC

P == 40961
Half == 20481            \* 1/2
Sq2 == 34746               \* sqrt 2 = Z^1024 + Z^-1024 (invariant under Z |-> 1/Z)
ISq2 == 17373            \* 1 / sqrt 2
ZLo == <<1, 243, 18088, 12557, 20237, 2271, 19360, 34926, 8091, 40946, 37316, 15407, 16450, 24133, 6896, 
    37288, 8603, 1518, 225, 13714, 14661, 39977, 6654, 19443, 14134, 34799, 18191, 37586, 40056, 
    25851, 14760, 23073, 36043, 33756, 10508, 13862, 9664, 13575, 21845, 24366, 22554, 32809, 26153, 
    6224, 37836, 18884, 1180, 13, 3159, 30339, 40358, 17315, 29523, 5914, 3467, 23261, 40766, 34537, 
    36447, 9045, 27002, 7726, 34173, 29917, 19734, 2925, 14438, 26749, 28169, 4580, 6993, 19898, 
    1816, 31678, 38047, 29196, 8375, 28036, 13222, 17988, 29218, 13721, 16362, 2749, 12631, 38219, 
    30031, 6475, 16907, 12301, 39951, 336, 40687, 15340, 169, 106, 25758, 33122, 20290, 15150, 
    35921, 4110, 15666, 38426, 39371, 23240, 35663, 23338, 18516, 34639, 20272, 10776, 38025, 23850, 
    20049, 38509, 18579, 8987, 12908, 23608, 2204, 3079, 10899, 26953, 36780, 8042, 29039, 11185>> 
ZHi == <<1, 14529, 19808, 39407, 32406, 21040, 39178, 23106, 31679, 26395, 16073, 5956, 25092, 8768, 1562, 
    1904, 14541, 30312, 31337, 13758, 302, 4931, 1710, 22224, 37894, 5125, 34988, 14642, 23145, 
    24856, 20648, 37389, 40960, 26432, 21153, 1554, 8555, 19921, 1783, 17855, 9282, 14566, 24888, 
    35005, 15869, 32193, 39399, 39057, 26420, 10649, 9624, 27203, 40659, 36030, 39251, 18737, 3067, 
    35836, 5973, 26319, 17816, 16105, 20313, 3572>> 

FAdd(a, b) == (a + b) % P
FSub(a, b) == (a - b) % P
FMul(a, b) == (a * b) % P
FNeg(a) == (P - a) % P

\* zeta^k, for any integer k
ZPow(k) == LET m == k % 8192 IN (ZHi[(m \div 128) + 1] * ZLo[(m % 128) + 1]) % P

\* Fixed random tables: input states and output functionals.
RT == <<<<21223, 9887, 25876, 3165, 4748, 35120, 6169, 23966, 38194, 3802, 33256, 14071, 2458, 5633, 28420, 
    27406, 4579, 15773, 5945, 36114, 27822, 3874, 37058, 8114, 14631, 38208, 4055, 37822, 38375, 
    25997, 3250, 14489, 3053, 36482, 8728, 18980, 27469, 9454, 35435, 7720, 37416, 20217, 36718, 
    11845, 6754, 38116, 37435, 12313, 24406, 6386, 35897, 4115, 36987, 3907, 40568, 13498, 32534, 
    34847, 28023, 20588, 30514, 38376, 29700, 23697, 19646, 16281, 11782, 15998, 5365, 37646, 19678, 
    34420, 32448, 22511, 29415, 18871, 39909, 4798, 7738, 33551, 27403, 10811, 22417, 9961, 32045, 
    27637, 2570, 5087, 36575, 37554, 20562, 22291, 22950, 38953, 32551, 38005, 29898, 4507, 6134, 
    17691, 31071, 4260, 3977, 20291, 37877, 29206, 18652, 25284, 22742, 1479, 30258, 23296, 11014, 
    40038, 7674, 32355, 3864, 14301, 18838, 8477, 16228, 26077, 25622, 32540, 5281, 10903, 29438, 
    26323, 36009, 18209, 8974, 28215, 36060, 18247, 27217, 23513, 24933, 15123, 9891, 5439, 11549, 
    9916, 15202, 15292, 791, 31783, 38609, 11951, 17220, 18477, 269, 9548, 27457, 35035, 24200, 
    39965, 37116, 20881, 8225, 33784, 40475, 3539, 29927, 36653, 25715, 26088, 26148, 25830, 6786, 
    31558, 26244, 4080, 12492, 4414, 13682, 28877, 10637, 7205, 22286, 39370, 3446, 6710, 16, 37145, 
    9914, 35168, 6650, 23830, 40222, 1672, 4609, 13629, 40244, 24657, 9736, 16532, 22767, 39471, 
    23866, 31074, 8051, 7560, 31987, 30540, 31484, 31709, 20438, 5629, 9445, 6697, 22455, 17352, 
    31367, 10581, 33839, 1514, 13449, 34620, 23708, 9608, 35598, 1773, 34611, 19536, 5965, 17113, 
    33974, 24033, 10948, 23311, 14601, 34904, 35493, 32945, 21605, 14618, 40189, 12790, 15689, 
    26260, 14860, 13102, 33924, 32295, 23303, 1900, 1831, 18312, 30949, 16986, 12691, 39659, 22563, 
    29310, 22907, 23897>> ,
<<5279, 14449, 6695, 14867, 30808, 12892, 22134, 13394, 31632, 40899, 39995, 126, 31423, 22545, 
    5557, 7859, 25464, 13063, 31329, 11700, 28438, 21792, 5686, 25942, 30354, 26306, 5566, 10411, 
    11142, 8326, 1806, 9906, 38720, 30498, 9580, 40081, 39051, 31088, 22965, 10218, 35957, 35933, 
    8585, 1403, 934, 6736, 34511, 9126, 28431, 12767, 13831, 1835, 16505, 13945, 19200, 32845, 
    15764, 38433, 21365, 16998, 35675, 27461, 8591, 3992, 23186, 30027, 38231, 33867, 27567, 32877, 
    8570, 34854, 9951, 34309, 33460, 1226, 28845, 12001, 39883, 258, 9818, 11295, 9278, 31031, 
    40574, 7887, 36470, 4048, 21364, 33971, 34782, 36402, 31621, 6954, 36720, 3724, 16286, 12538, 
    18149, 2766, 6406, 33274, 29634, 36814, 1827, 4153, 29049, 21340, 40143, 33132, 39724, 33566, 
    13069, 18166, 29645, 33303, 34950, 31329, 33277, 16231, 34290, 17013, 36669, 13277, 29330, 8988, 
    27305, 7971, 25714, 28975, 20709, 4755, 15771, 28072, 4793, 13939, 19843, 8019, 10122, 23999, 
    9371, 16588, 8996, 30654, 14391, 6169, 26101, 31934, 10669, 14662, 10582, 28281, 33791, 26465, 
    22225, 27609, 12829, 23372, 20875, 6043, 23984, 1277, 22150, 36311, 30060, 28866, 1186, 25189, 
    21726, 33911, 40890, 19363, 33572, 4214, 7396, 14979, 6867, 5510, 17405, 17821, 2595, 11899, 
    17724, 8491, 27673, 16949, 26605, 9789, 35167, 33737, 37395, 32415, 21434, 5863, 18289, 3771, 
    12016, 27874, 4746, 17625, 1104, 5805, 17076, 5489, 39858, 14576, 4367, 17332, 7975, 29739, 757, 
    22227, 36246, 27379, 17555, 40744, 8469, 2832, 34532, 15627, 7174, 10581, 17164, 3302, 11872, 
    13224, 20447, 19989, 34806, 13492, 19003, 29209, 32774, 11659, 17729, 22742, 1191, 16414, 2422, 
    1006, 1209, 33139, 36114, 12417, 33701, 31114, 16101, 29299, 6966, 28324, 32441, 35777, 25762, 
    33207, 20171, 14103>> ,
<<15045, 22460, 13018, 9157, 26523, 22778, 3565, 8508, 935, 4635, 16751, 28230, 10699, 3631, 5537, 
    24962, 33158, 18477, 39242, 15874, 19206, 2965, 30111, 12148, 10325, 17632, 29218, 238, 17252, 
    23865, 21557, 35854, 21204, 16021, 2258, 20287, 14279, 23370, 11991, 71, 21977, 25011, 5498, 
    31107, 18280, 32950, 13172, 16265, 33079, 325, 5955, 17313, 5883, 9429, 26183, 38457, 2731, 
    25820, 1475, 19638, 19939, 15258, 5537, 38377, 34681, 10175, 39097, 25528, 21374, 32388, 9796, 
    18624, 40548, 9487, 2870, 33619, 28131, 33132, 9130, 34325, 33055, 37256, 1054, 38278, 15070, 
    5577, 2043, 2744, 8723, 23640, 6876, 24683, 29583, 36604, 3328, 1235, 34829, 16028, 32067, 
    17288, 218, 29947, 4595, 32963, 35075, 6026, 34472, 4329, 31055, 16528, 4880, 17404, 15387, 
    13450, 15122, 30169, 32372, 25072, 5030, 31393, 18830, 3064, 40435, 12996, 5078, 39303, 9662, 
    21744, 16643, 19951, 40708, 37209, 8746, 818, 31616, 3976, 31838, 17615, 6523, 14267, 32088, 
    19062, 33852, 18714, 30453, 30534, 30563, 7767, 35985, 13059, 20426, 5627, 30995, 1148, 18979, 
    30080, 5012, 33202, 29456, 17607, 25353, 13752, 13810, 4890, 38108, 5919, 9290, 34346, 17158, 
    23564, 8691, 39543, 33342, 18322, 7385, 23933, 15164, 32630, 31860, 25827, 1628, 10425, 236, 
    32224, 29542, 26570, 19789, 9222, 27275, 22542, 24649, 20715, 7924, 21714, 115, 21270, 22170, 
    26101, 7868, 12829, 769, 18995, 16595, 24394, 4259, 25750, 25570, 38613, 5007, 23640, 28053, 
    18033, 3164, 18392, 6666, 3383, 18719, 9760, 16340, 17415, 28590, 33487, 20684, 12442, 24468, 
    28033, 1902, 26218, 36317, 35995, 13333, 5281, 3243, 26928, 29548, 40300, 9082, 18757, 31823, 
    3210, 36052, 8344, 11192, 30946, 27189, 22523, 18465, 19515, 16761, 17051, 26622, 15642, 19716, 
    31666, 36525, 25846>> ,
<<7848, 10967, 10595, 4927, 13624, 32808, 32577, 36071, 14420, 29687, 21813, 29489, 28012, 9149, 
    35900, 12610, 15997, 5946, 11449, 22411, 36430, 5970, 20925, 15672, 24138, 16932, 37331, 13248, 
    1317, 27053, 25090, 27125, 34352, 13763, 24699, 17711, 22165, 4068, 32647, 18188, 37637, 23603, 
    8250, 32991, 34684, 14154, 6069, 17762, 16283, 25203, 26199, 29220, 28301, 20449, 1430, 8340, 
    2114, 27866, 31017, 38482, 32102, 12, 4794, 25659, 34594, 30681, 29423, 16284, 7147, 14667, 
    10118, 9966, 34234, 7137, 29972, 5571, 36144, 2592, 90, 8235, 15243, 37316, 2464, 19909, 8387, 
    16502, 34620, 28668, 7349, 6518, 4611, 19684, 34370, 38201, 12564, 25434, 17098, 14653, 39392, 
    76, 686, 35225, 19761, 30192, 18259, 20733, 15884, 31150, 34491, 15386, 35849, 16192, 1919, 
    26989, 20146, 3625, 1428, 12722, 32658, 27527, 5315, 16860, 14932, 27809, 24263, 14863, 32306, 
    2235, 22155, 27562, 23745, 25976, 12982, 443, 19144, 33088, 4420, 13450, 32486, 13135, 20429, 
    12710, 15127, 30482, 14513, 17369, 19329, 7144, 40869, 32491, 39984, 12276, 14636, 31789, 27331, 
    3698, 38981, 9594, 25786, 3563, 13956, 1549, 39068, 9301, 27223, 3398, 3942, 12066, 25777, 
    29468, 20592, 7420, 5202, 10855, 21578, 12497, 12158, 34394, 30646, 2091, 20436, 24814, 24503, 
    21739, 28996, 11093, 7141, 189, 5128, 18338, 5293, 23034, 27538, 8108, 36775, 13593, 24913, 
    23373, 20231, 28341, 5752, 3229, 31029, 12827, 24427, 35490, 29252, 12651, 21189, 23872, 31100, 
    1985, 26923, 16254, 26528, 2665, 24614, 2285, 30413, 4102, 4064, 16844, 12776, 4120, 39690, 
    22222, 23788, 17847, 21953, 40435, 2857, 17182, 20742, 18064, 19491, 248, 39032, 4282, 1590, 
    15327, 7030, 31142, 30523, 25331, 16453, 28177, 32341, 8698, 32542, 11990, 571, 19879, 9917, 
    39798, 15476, 21483>> ,
<<20942, 30198, 23715, 39041, 5179, 33547, 12932, 25670, 10482, 16208, 26723, 4243, 2220, 31569, 
    36215, 35692, 21349, 10532, 27955, 6896, 4730, 17360, 40934, 5511, 13654, 6320, 27595, 32669, 
    29293, 11351, 15349, 8712, 27319, 30208, 40653, 15397, 35296, 7941, 19263, 19254, 18311, 37152, 
    17542, 24444, 16650, 17062, 13055, 28797, 16216, 12173, 16079, 15434, 10049, 18439, 37899, 
    12338, 21387, 4248, 25957, 16493, 16119, 33249, 34493, 15164, 6590, 30404, 2427, 6707, 295, 
    31115, 15147, 29380, 24503, 2646, 19247, 15263, 7813, 3303, 12424, 39354, 38221, 12725, 4923, 
    24395, 33599, 11650, 29434, 39521, 17036, 416, 6933, 39070, 40629, 22918, 14264, 2455, 24164, 
    22284, 9265, 2895, 13368, 16707, 2506, 39284, 13333, 746, 21447, 26804, 24367, 12134, 40699, 
    20461, 5108, 13331, 2063, 32482, 35917, 31688, 4147, 26750, 6645, 25907, 36054, 10129, 34997, 
    5974, 10728, 26069, 17772, 26856, 18567, 20159, 27384, 3366, 20471, 37128, 23409, 27138, 27293, 
    1194, 23841, 12924, 25607, 26541, 13348, 386, 28454, 10261, 27772, 7441, 5931, 26622, 37867, 
    23903, 30206, 10653, 8519, 973, 3388, 36147, 9339, 26000, 5835, 37544, 40777, 24304, 33061, 
    11252, 9561, 22803, 18567, 10605, 34155, 11259, 4398, 7130, 25149, 32147, 12933, 19767, 8301, 
    2851, 31637, 20613, 3498, 39823, 25422, 5656, 40655, 10504, 14554, 40702, 26509, 40287, 12853, 
    30996, 11991, 37056, 14296, 2734, 26198, 33941, 10256, 25139, 23542, 8065, 9796, 16192, 12622, 
    2694, 36854, 2499, 21247, 7716, 25549, 39291, 29867, 36049, 20069, 27530, 20199, 38183, 16336, 
    27902, 25508, 24082, 29281, 33003, 28728, 11716, 1532, 230, 40560, 32080, 30493, 15418, 29283, 
    40539, 30035, 11769, 31013, 26237, 7018, 4399, 8419, 23500, 28220, 23943, 6011, 28965, 33053, 
    33434, 2672, 2665, 8538, 5390>> ,
<<20561, 33521, 5241, 3557, 33026, 24764, 8926, 1695, 4351, 40248, 7182, 12695, 8626, 32236, 18867, 
    10821, 14492, 4294, 22997, 40007, 16530, 10405, 21224, 40209, 18022, 29911, 9410, 16657, 32914, 
    31465, 13653, 38790, 17228, 40362, 33162, 15559, 20912, 24397, 2414, 13038, 11934, 26442, 10567, 
    18232, 21485, 24697, 11059, 17324, 7542, 34782, 3184, 23579, 29691, 36385, 34174, 38014, 6856, 
    16518, 35108, 25838, 24345, 17351, 24625, 24180, 37838, 9582, 23610, 21682, 5334, 28986, 15077, 
    11584, 40330, 3165, 19424, 33824, 16624, 20321, 38396, 20490, 118, 2215, 14526, 9789, 19070, 
    40374, 28327, 27374, 33599, 23862, 3132, 8653, 32008, 14894, 40143, 2988, 1461, 3565, 172, 
    37167, 23263, 19906, 6971, 34282, 23407, 35004, 14698, 27082, 38247, 19737, 38607, 8764, 13382, 
    24002, 40890, 31124, 10396, 8831, 925, 15964, 9786, 29548, 6279, 4173, 9483, 17680, 26343, 
    17318, 754, 3679, 36853, 22960, 38976, 37911, 29082, 39445, 33921, 32300, 16286, 10820, 27, 
    2884, 4033, 34835, 1654, 26607, 12168, 15576, 10435, 3826, 6876, 810, 40150, 36106, 12928, 9324, 
    27079, 13076, 33965, 39852, 33224, 27214, 40186, 11446, 33331, 20276, 4180, 19679, 3178, 31322, 
    35285, 417, 24587, 28617, 30492, 5275, 29655, 11495, 14808, 6900, 17133, 15224, 2544, 8079, 
    21989, 17256, 3443, 17432, 36294, 28578, 34292, 17387, 19374, 14222, 5599, 33255, 998, 11127, 
    17064, 15474, 13290, 10433, 21422, 12579, 25475, 21533, 39403, 15675, 24868, 35151, 30769, 
    30943, 34775, 419, 1738, 28654, 15325, 37378, 20169, 13892, 25662, 40805, 38361, 5099, 37042, 
    11243, 9477, 2158, 1764, 7334, 6992, 40762, 10605, 22601, 9296, 1884, 2024, 2730, 9071, 2795, 
    4446, 3060, 4310, 38698, 23817, 13063, 34990, 4322, 25156, 7020, 16160, 13483, 13315, 7339, 
    2220, 2257>> ,
<<5733, 18833, 31269, 6546, 8694, 6414, 13435, 19298, 20916, 22054, 27772, 17116, 1371, 22997, 
    16824, 18521, 3173, 24119, 21026, 39454, 33013, 31201, 18852, 40520, 2031, 27062, 2048, 28604, 
    33989, 6443, 22727, 30733, 3154, 35251, 37100, 14194, 5957, 37654, 18817, 11166, 28578, 86, 
    34312, 13241, 18897, 3537, 286, 22794, 32167, 6272, 32210, 12093, 32413, 38834, 22754, 33761, 
    17078, 37881, 10414, 18595, 14072, 15174, 32658, 10866, 7204, 5301, 32132, 36783, 6853, 21407, 
    23306, 6236, 26298, 25861, 5648, 27665, 1650, 24377, 13509, 19867, 17249, 28054, 35713, 32846, 
    11214, 24859, 15308, 30207, 8316, 34836, 38935, 39673, 2221, 22839, 38115, 21409, 34193, 10180, 
    29512, 36290, 21191, 11112, 30354, 28758, 16857, 37957, 15141, 8262, 21893, 30279, 15594, 33273, 
    12555, 17530, 19760, 40458, 10132, 10223, 16226, 21402, 39512, 34222, 22848, 10547, 15481, 
    21501, 12405, 16954, 6672, 10788, 6661, 12808, 25182, 9894, 9721, 19799, 19491, 28504, 17946, 
    12858, 7162, 7004, 18403, 13530, 25451, 30404, 2224, 827, 26151, 28609, 14579, 32800, 19413, 
    30362, 1450, 9294, 16857, 39565, 26524, 362, 15879, 28183, 37617, 38498, 27601, 14980, 38258, 
    14982, 11896, 8141, 29747, 28347, 20514, 17027, 6414, 27498, 15886, 26224, 10254, 16388, 27760, 
    31638, 29832, 1289, 40736, 26827, 33965, 11998, 21500, 697, 25475, 32103, 6972, 2500, 16465, 
    35610, 14280, 10541, 13095, 34028, 22821, 6625, 37655, 29936, 35458, 13434, 31178, 33567, 1056, 
    24243, 34190, 22470, 26893, 29945, 13769, 12046, 25723, 33672, 8022, 40240, 23297, 3711, 16546, 
    17981, 25025, 26194, 4031, 873, 4928, 27433, 27561, 23077, 38023, 17378, 7161, 14709, 19890, 
    26246, 34543, 14347, 25688, 30286, 13895, 10783, 8474, 4516, 12660, 30747, 36835, 14811, 9586, 
    23143, 27086, 30678, 19291, 35932>> ,
<<8203, 30763, 23249, 15104, 17526, 24652, 16617, 27926, 12183, 31561, 177, 18430, 23461, 16055, 
    19781, 20993, 31428, 31780, 28082, 40853, 5599, 23753, 10011, 19869, 25239, 3740, 5589, 37001, 
    21280, 9202, 34777, 22620, 38172, 983, 753, 13747, 4719, 19202, 16386, 39860, 6653, 37912, 9355, 
    15312, 12168, 29620, 22705, 10006, 13667, 26378, 35031, 11005, 39946, 39870, 5925, 35947, 19468, 
    12935, 32406, 13966, 34787, 5153, 28744, 7667, 36377, 7761, 17334, 27463, 15347, 9132, 31015, 
    32315, 36517, 3831, 31744, 30612, 9465, 32203, 16159, 32649, 10789, 35360, 39296, 433, 10510, 
    21017, 30669, 36869, 32612, 19453, 30525, 24574, 27907, 27448, 4942, 11831, 23618, 1870, 1348, 
    39956, 3007, 21657, 6159, 33465, 31731, 31764, 9470, 2222, 13983, 27237, 8317, 22191, 6191, 
    23997, 22369, 31100, 34442, 36316, 13811, 18623, 28521, 22411, 27682, 16488, 36309, 3456, 18950, 
    19195, 23277, 32358, 26459, 21871, 33014, 17806, 33190, 22598, 13339, 32257, 7729, 21686, 12604, 
    20782, 19610, 8361, 38434, 5740, 2625, 26141, 36327, 26610, 35744, 37621, 3258, 26115, 19688, 
    7111, 408, 3041, 12448, 31134, 39891, 3942, 32824, 35629, 40091, 24645, 40416, 9638, 39080, 
    5440, 13927, 2587, 30008, 11397, 6643, 11882, 2424, 27629, 6594, 880, 24175, 9090, 20274, 36838, 
    16909, 19795, 12110, 27643, 2245, 20872, 1337, 28225, 37116, 37899, 3580, 32622, 37193, 34220, 
    2581, 7789, 27596, 37705, 26520, 29260, 4406, 927, 25372, 38920, 38796, 10178, 31159, 27029, 
    35967, 6688, 5435, 30946, 13912, 9947, 1018, 27984, 314, 612, 7974, 5777, 14303, 7953, 8453, 
    30955, 1166, 18052, 37290, 15878, 29543, 12283, 3286, 23978, 9490, 5525, 19212, 36536, 32644, 
    30185, 16650, 3452, 2096, 748, 3969, 966, 40516, 5222, 25491, 20386, 20480, 39330, 10879, 
    31873>> >>
\* the i-th coordinate (1-based) of random vector number k
Rnd(k, i) == RT[k][((i - 1) % 256) + 1]
=============================================================================
