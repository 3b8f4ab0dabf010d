------------------------------- MODULE Tables -------------------------------
(* written by tools/mktables.py *)
EXTENDS Integers, Sequences
(* 10^6 exp(-i/32) *)
ExpTab == <<1000000, 969233, 939413, 910510, 882497, 855345, 829029, 803523, 778801, 754840, 731616, 709106, 687289, 666144, 645649, 625784, 606531, 587870, 
569783, 552252, 535261, 518793, 502832, 487361, 472367, 457833, 443747, 430095, 416862, 404037, 391606, 379557, 367879, 356561, 345591, 334958, 
324652, 314664, 304983, 295599, 286505, 277690, 269146, 260866, 252840, 245061, 237521, 230213, 223130, 216265, 209611, 203162, 196912, 190853, 
184981, 179290, 173774, 168427, 163246, 158223, 153355, 148637, 144064, 139631, 135335, 131171, 127136, 123224, 119433, 115758, 112197, 108745, 
105399, 102156, 99013, 95967, 93014, 90153, 87379, 84691, 82085, 79560, 77112, 74739, 72440, 70211, 68051, 65957, 63928, 61961, 60055, 58207, 56416, 
54680, 52998, 51367, 49787, 48255, 46771, 45332, 43937, 42585, 41275, 40005, 38774, 37581, 36425, 35304, 34218, 33165, 32145, 31156, 30197, 29268, 
28368, 27495, 26649, 25829, 25035, 24264, 23518, 22794, 22093, 21413, 20754, 20116, 19497, 18897, 18316, 17752, 17206, 16677, 16163, 15666, 15184, 
14717, 14264, 13825, 13400, 12988, 12588, 12201, 11825, 11462, 11109, 10767, 10436, 10115, 9804, 9502, 9210, 8926, 8652, 8386, 8128, 7877, 7635, 
7400, 7173, 6952, 6738, 6531, 6330, 6135, 5946, 5763, 5586, 5414, 5248, 5086, 4930, 4778, 4631, 4488, 4350, 4216, 4087, 3961, 3839, 3721, 3607, 3496, 
3388, 3284, 3183, 3085, 2990, 2898, 2809, 2722, 2639, 2557, 2479, 2402, 2329, 2257, 2187, 2120, 2055, 1992, 1930, 1871, 1813, 1758, 1704, 1651, 1600, 
1551, 1503, 1457, 1412, 1369, 1327, 1286, 1246, 1208, 1171, 1135, 1100, 1066, 1033, 1002, 971, 941, 912, 884, 857, 830, 805, 780, 756, 733, 710, 688, 
667, 647, 627, 607, 589, 571, 553, 536, 520, 504, 488, 473, 459, 444, 431, 417, 405, 392, 380, 368, 357, 346, 335, 325, 315, 305, 296, 287, 278, 270, 
261, 253, 245, 238, 231, 223, 217, 210, 203, 197, 191, 185, 180, 174, 169, 163, 158, 154, 149, 144, 140, 136, 131, 127, 123, 120, 116, 112, 109, 106, 
102, 99, 96, 93, 90, 88, 85, 82, 80, 77, 75, 73, 70, 68, 66, 64, 62, 60, 58, 57, 55, 53, 51, 50, 48, 47, 45, 44, 43, 41, 40, 39, 38, 36, 35, 34, 33, 
32, 31, 30, 29, 28, 28, 27, 26, 25, 24, 24, 23, 22, 21, 21, 20, 20, 19, 18, 18, 17, 17, 16, 16, 15, 15, 14, 14, 13, 13, 13, 12, 12, 11, 11, 11, 10, 
10, 10, 10, 9, 9, 9, 8, 8, 8, 8, 7, 7, 7, 7, 7, 6, 6, 6, 6, 6, 5, 5, 5, 5, 5, 5, 4, 4, 4, 4, 4, 4, 4, 4, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2, 
2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 
0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
(* 10^6 (2 J1(i/64)/(i/64))^2 *)
AiryTab == <<1000000, 999939, 999756, 999451, 999024, 998475, 997805, 997013, 996100, 995066, 993912, 992637, 991243, 989729, 988097, 986345, 984476, 982490, 
980387, 978168, 975833, 973383, 970820, 968144, 965355, 962454, 959443, 956322, 953092, 949754, 946310, 942759, 939104, 935345, 931484, 927521, 
923458, 919296, 915036, 910680, 906228, 901683, 897045, 892315, 887496, 882589, 877594, 872514, 867350, 862103, 856776, 851369, 845884, 840322, 
834686, 828977, 823196, 817346, 811427, 805442, 799392, 793279, 787104, 780870, 774578, 768230, 761827, 755372, 748866, 742311, 735709, 729061, 
722369, 715636, 708863, 702051, 695203, 688321, 681406, 674460, 667484, 660482, 653454, 646403, 639330, 632237, 625125, 617998, 610856, 603701, 
596535, 589360, 582178, 574990, 567798, 560604, 553410, 546217, 539027, 531842, 524663, 517493, 510332, 503183, 496046, 488925, 481819, 474732, 
467664, 460617, 453592, 446591, 439616, 432668, 425748, 418858, 411999, 405173, 398381, 391624, 384904, 378222, 371579, 364976, 358415, 351897, 
345423, 338994, 332612, 326276, 319990, 313753, 307566, 301431, 295349, 289320, 283345, 277426, 271562, 265756, 260007, 254317, 248686, 243115, 
237605, 232156, 226769, 221445, 216183, 210986, 205853, 200784, 195781, 190843, 185971, 181165, 176427, 171755, 167151, 162614, 158146, 153745, 
149413, 145149, 140954, 136827, 132769, 128781, 124860, 121009, 117227, 113513, 109869, 106293, 102785, 99346, 95975, 92672, 89437, 86269, 83169, 
80136, 77169, 74269, 71435, 68667, 65964, 63326, 60752, 58243, 55797, 53414, 51094, 48836, 46639, 44504, 42428, 40413, 38457, 36560, 34721, 32939, 
31214, 29545, 27931, 26372, 24868, 23416, 22017, 20670, 19374, 18128, 16932, 15785, 14686, 13634, 12629, 11669, 10754, 9884, 9056, 8271, 7528, 6825, 
6162, 5539, 4954, 4406, 3895, 3420, 2979, 2573, 2200, 1860, 1551, 1273, 1024, 805, 614, 451, 314, 203, 117, 55, 17, 1, 6, 33, 80, 146, 231, 334, 454, 
591, 743, 909, 1090, 1285, 1492, 1711, 1942, 2183, 2435, 2695, 2965, 3242, 3527, 3819, 4117, 4420, 4729, 5042, 5358, 5679, 6002, 6327, 6654, 6982, 
7312, 7641, 7970, 8299, 8626, 8952, 9276, 9598, 9917, 10233, 10546, 10855, 11159, 11459, 11755, 12045, 12330, 12609, 12882, 13149, 13410, 13664, 
13911, 14151, 14383, 14609, 14826, 15036, 15238, 15431, 15617, 15794, 15963, 16123, 16274, 16417, 16551, 16676, 16793, 16900, 16999, 17089, 17169, 
17241, 17304, 17358, 17403, 17439, 17467, 17486, 17496, 17497, 17490, 17475, 17451, 17419, 17379, 17331, 17275, 17211, 17139, 17060, 16974, 16880, 
16779, 16671, 16557, 16436, 16308, 16174, 16034, 15888, 15736, 15578, 15416, 15247, 15074, 14896, 14714, 14527, 14335, 14140, 13940, 13737, 13531, 
13321, 13108, 12893, 12674, 12453, 12230, 12005, 11778, 11549, 11318, 11087, 10854, 10620, 10386, 10151, 9915, 9680, 9444, 9209, 8974, 8740, 8506, 
8273, 8041, 7811, 7581, 7354, 7127, 6903, 6681, 6461, 6243, 6027, 5814, 5603, 5396, 5191, 4989, 4790, 4594, 4402, 4213, 4028, 3846, 3667, 3493, 3322, 
3156, 2993, 2834, 2680, 2529, 2383, 2241, 2103, 1969, 1840, 1716, 1595, 1479, 1368, 1261, 1159, 1061, 967, 878, 793, 713, 638, 566, 500, 437, 379, 
325, 276, 231, 190, 153, 120, 91, 67, 46, 29, 16, 7, 2, 0, 2, 7, 16, 28, 43, 62, 83, 108, 136, 166, 199, 235, 274, 315, 358, 404, 451, 502, 554, 608, 
663, 721, 780, 841, 903, 966, 1031, 1097, 1164, 1232, 1301, 1370, 1441, 1511, 1583, 1655, 1727, 1799, 1871, 1944, 2016, 2088, 2160, 2232, 2304, 2374, 
2445, 2515, 2584, 2652, 2720, 2786, 2852, 2916, 2980, 3042, 3103, 3163, 3222, 3279, 3334, 3388, 3441, 3492, 3541, 3589, 3635, 3679, 3721, 3762, 3801, 
3837, 3872, 3905, 3936, 3965, 3992, 4017, 4040, 4061, 4080, 4097, 4112, 4125, 4135, 4144, 4151, 4155, 4157, 4158, 4156, 4153, 4147, 4139, 4130, 4118, 
4105, 4090, 4072, 4053, 4032, 4010, 3985, 3959, 3931, 3902, 3871, 3838, 3804, 3768, 3731, 3692, 3652, 3610, 3568, 3524, 3479, 3432, 3385, 3337, 3287, 
3237, 3185, 3133, 3080, 3026, 2972, 2917, 2861, 2805, 2748, 2690, 2633, 2575, 2516, 2458, 2399, 2340, 2281, 2222, 2163, 2104, 2045, 1986, 1928, 1869, 
1811, 1753, 1696, 1639, 1583, 1527, 1471, 1417, 1362, 1309, 1256, 1204, 1153, 1102, 1053, 1004, 956, 909, 863, 818, 774, 731, 689, 649, 609, 571, 
533, 497, 462, 429, 396, 365, 335, 306, 279, 253, 228, 204, 182, 161, 141, 123, 106, 90, 76, 62, 51, 40, 31, 22, 16, 10, 6, 3, 1, 0, 0, 2, 5, 9, 14, 
20, 27, 35, 44, 55, 66, 78, 91, 105, 120, 136, 152, 169, 187, 206, 226, 246, 267, 288, 310, 332, 355, 379, 403, 427, 452, 477, 503, 529, 555, 581, 
607, 634, 661, 688, 715, 742, 769, 796, 823, 850, 876, 903, 929, 956, 982, 1008, 1033, 1058, 1083, 1108, 1132, 1156, 1179, 1202, 1225, 1247, 1268, 
1289, 1309, 1329, 1348, 1367, 1385, 1402, 1419, 1435, 1450, 1465, 1479, 1492, 1505, 1516, 1527, 1538, 1547, 1556, 1564, 1571, 1578, 1583, 1588, 1592, 
1595, 1598, 1600, 1600, 1601, 1600, 1599, 1596, 1593, 1590, 1585, 1580, 1574, 1567, 1560, 1552, 1543, 1533, 1523, 1512, 1501, 1489, 1476, 1462, 1448, 
1434, 1419, 1403, 1387, 1370, 1353, 1335, 1317, 1298, 1279, 1260, 1240, 1220, 1199, 1179, 1157, 1136, 1114, 1092, 1070, 1048, 1025, 1002, 979, 956, 
933, 910, 887, 864, 840, 817, 794, 770, 747, 724, 701, 678, 655, 633, 610, 588, 566, 544, 523, 502, 481, 460, 439, 419, 400, 380, 361, 343, 324, 307, 
289, 272, 256, 240, 224, 209, 194, 180, 167, 153, 141, 129, 117, 106, 95, 85, 76, 67, 59, 51, 44, 37, 31, 25, 20, 16, 12, 9, 6, 4, 2, 1, 0, 0, 0, 1, 
3, 5, 7, 10, 14, 17, 22, 27, 32, 37, 44, 50, 57, 64, 72, 80, 88, 97, 106, 116, 125, 136, 146, 156, 167, 178, 190, 201, 213, 225, 237, 249, 261, 274, 
286, 299, 312, 324, 337, 350, 363, 376, 389, 402, 415, 428, 440, 453, 466, 478, 491, 503, 515, 527, 539, 550, 562, 573, 584, 595, 606, 616, 626, 636, 
646, 655, 664, 673, 681, 689, 697, 705, 712, 719, 725, 731, 737, 743, 748, 752, 757, 761, 764, 767, 770, 773, 775, 776, 778, 779, 779, 779, 779, 779, 
778, 776, 775, 773, 770, 767, 764, 761, 757, 752, 748, 743, 738, 732, 726, 720, 714, 707, 700, 692, 685, 677, 669, 660, 652, 643, 634, 624, 615, 605, 
595, 585, 575, 565, 554, 543, 532, 522, 510, 499, 488, 477, 466, 454, 443, 431, 420, 408, 397, 385, 374, 362, 351, 339, 328, 317, 306, 295, 284, 273, 
262, 251, 241, 230, 220, 210, 200, 190, 181, 171, 162, 153, 145, 136, 128, 120, 112, 104, 97, 90, 83, 76, 70, 64, 58, 52, 47, 42, 37, 33, 28, 24, 21, 
18, 15, 12, 9, 7, 5, 4, 2, 1, 1, 0, 0, 0, 0, 1, 2, 3, 5, 6, 8, 11, 13, 16, 19, 22, 25, 29, 33, 37, 41, 46, 50, 55, 60, 65, 71, 76, 82, 88, 94, 100, 
106, 112, 119, 125, 132, 139, 146, 152, 159, 166, 173, 181, 188, 195, 202, 209, 216, 223, 231, 238, 245, 252, 259, 266, 273, 280, 286, 293, 300, 306, 
313, 319, 325, 331, 337, 343, 349, 354, 360, 365, 370, 375, 380, 385, 389, 393, 397, 401, 405, 408, 412, 415, 418, 421, 423, 425, 428, 429, 431, 433, 
434, 435, 436, 436, 437, 437, 437, 437, 436, 436, 435, 434, 432, 431, 429, 427, 425, 423, 421, 418, 415, 412, 409, 405, 402, 398, 394, 390, 386, 381, 
377, 372, 367, 362, 357, 352, 347, 341, 336, 330, 325, 319, 313, 307, 301, 295, 288, 282, 276, 269, 263, 257, 250, 244, 237, 231, 224, 217, 211, 204, 
198, 192, 185, 179, 172, 166, 160, 154, 148, 141, 136, 130, 124, 118, 112, 107, 101, 96, 91, 86, 81, 76, 71, 67, 62, 58, 54, 50, 46, 42, 38, 35, 32, 
28, 25, 23, 20, 17, 15, 13, 11, 9, 7, 6, 5, 3, 2, 2, 1, 0, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 9, 11, 12, 14, 17, 19, 21, 24, 26, 29, 32, 35, 38, 41, 
45, 48, 52, 55, 59, 63, 66, 70, 74, 78, 82, 86, 91, 95, 99, 103, 108, 112, 116, 121, 125, 129, 134, 138, 143, 147, 151, 156, 160, 164, 168, 173, 177, 
181, 185, 189, 193, 197, 200, 204, 208, 211, 215, 218, 222, 225, 228, 231, 234, 237, 240, 242, 245, 247, 249, 252, 254, 256, 257, 259, 261, 262, 263, 
265, 266, 267, 267, 268, 268, 269, 269, 269, 269, 269, 269, 268, 268, 267, 267, 266, 265, 263, 262, 261, 259, 258, 256, 254, 252, 250, 248, 245, 243, 
240, 238, 235, 232, 229, 226, 223, 220, 217, 214, 210, 207, 203, 200, 196, 193, 189, 185, 181, 177, 174, 170, 166, 162, 158, 154, 150, 146, 142, 138, 
134, 130, 125, 121, 117, 113, 110, 106, 102, 98, 94, 90, 86, 83, 79, 75, 72, 68, 65, 62, 58, 55, 52, 49, 46, 43, 40, 37, 35, 32, 30, 27, 25, 23, 21, 
19, 17, 15, 13, 11, 10, 9, 7, 6, 5, 4, 3, 2, 2, 1, 1, 0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 4, 5, 7, 8, 9, 10, 12, 13, 15, 17, 18, 20, 22, 24, 26, 28, 
31, 33, 35, 37, 40, 42, 45, 47, 50, 53, 55, 58, 61, 64, 66, 69, 72, 75, 78, 81, 83, 86, 89, 92, 95, 98, 101, 103, 106, 109, 112, 115, 117, 120, 123, 
125, 128, 130, 133, 135, 138, 140, 142, 145, 147, 149, 151, 153, 155, 157, 158, 160, 162, 163, 165>>
(* 10^4 times the linear value of the sRGB byte i *)
SrgbTab == <<0, 3, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 37, 40, 44, 48, 52, 56, 60, 65, 70, 75, 80, 86, 91, 97, 103, 110, 116, 123, 130, 137, 144, 152, 160, 168, 
176, 185, 194, 203, 212, 222, 232, 242, 252, 262, 273, 284, 296, 307, 319, 331, 343, 356, 369, 382, 395, 409, 423, 437, 452, 467, 482, 497, 513, 529, 
545, 561, 578, 595, 612, 630, 648, 666, 685, 704, 723, 742, 762, 782, 802, 823, 844, 865, 887, 908, 931, 953, 976, 999, 1022, 1046, 1070, 1095, 1119, 
1144, 1170, 1195, 1221, 1248, 1274, 1301, 1329, 1356, 1384, 1413, 1441, 1470, 1500, 1529, 1559, 1590, 1620, 1651, 1683, 1714, 1746, 1779, 1812, 1845, 
1878, 1912, 1946, 1981, 2016, 2051, 2086, 2122, 2159, 2195, 2232, 2270, 2307, 2346, 2384, 2423, 2462, 2502, 2542, 2582, 2623, 2664, 2705, 2747, 2789, 
2831, 2874, 2918, 2961, 3005, 3050, 3095, 3140, 3185, 3231, 3278, 3325, 3372, 3419, 3467, 3515, 3564, 3613, 3663, 3712, 3763, 3813, 3864, 3916, 3968, 
4020, 4072, 4125, 4179, 4233, 4287, 4342, 4397, 4452, 4508, 4564, 4621, 4678, 4735, 4793, 4851, 4910, 4969, 5029, 5089, 5149, 5210, 5271, 5333, 5395, 
5457, 5520, 5583, 5647, 5711, 5776, 5841, 5906, 5972, 6038, 6105, 6172, 6240, 6308, 6376, 6445, 6514, 6584, 6654, 6724, 6795, 6867, 6939, 7011, 7084, 
7157, 7231, 7305, 7379, 7454, 7529, 7605, 7682, 7758, 7835, 7913, 7991, 8070, 8148, 8228, 8308, 8388, 8469, 8550, 8632, 8714, 8796, 8879, 8963, 9047, 
9131, 9216, 9301, 9387, 9473, 9560, 9647, 9734, 9823, 9911, 10000>>
(* 65535 times the sRGB value of i/1000 *)
EncTab == <<0, 847, 1693, 2540, 3323, 3998, 4598, 5142, 5643, 6108, 6544, 6955, 7345, 7716, 8071, 8412, 8739, 9055, 9360, 9655, 9942, 10220, 10491, 10754, 11011, 
11262, 11507, 11746, 11981, 12210, 12435, 12656, 12872, 13085, 13294, 13499, 13701, 13900, 14095, 14288, 14478, 14665, 14849, 15031, 15210, 15387, 
15562, 15735, 15905, 16073, 16240, 16404, 16567, 16727, 16886, 17044, 17199, 17353, 17506, 17656, 17806, 17954, 18100, 18246, 18389, 18532, 18673, 
18813, 18952, 19090, 19226, 19361, 19496, 19629, 19761, 19892, 20022, 20151, 20279, 20406, 20532, 20658, 20782, 20905, 21028, 21150, 21271, 21391, 
21510, 21629, 21746, 21863, 21980, 22095, 22210, 22324, 22437, 22550, 22662, 22773, 22884, 22994, 23104, 23212, 23321, 23428, 23535, 23642, 23747, 
23853, 23957, 24061, 24165, 24268, 24371, 24473, 24574, 24675, 24775, 24875, 24975, 25074, 25172, 25270, 25368, 25465, 25562, 25658, 25754, 25849, 
25944, 26039, 26133, 26226, 26320, 26412, 26505, 26597, 26689, 26780, 26871, 26961, 27051, 27141, 27231, 27320, 27408, 27497, 27585, 27672, 27760, 
27846, 27933, 28019, 28105, 28191, 28276, 28361, 28446, 28530, 28614, 28698, 28782, 28865, 28948, 29030, 29112, 29194, 29276, 29357, 29439, 29519, 
29600, 29680, 29760, 29840, 29920, 29999, 30078, 30157, 30235, 30313, 30391, 30469, 30546, 30624, 30700, 30777, 30854, 30930, 31006, 31082, 31157, 
31233, 31308, 31383, 31457, 31532, 31606, 31680, 31754, 31827, 31901, 31974, 32047, 32119, 32192, 32264, 32336, 32408, 32480, 32551, 32623, 32694, 
32765, 32835, 32906, 32976, 33046, 33116, 33186, 33256, 33325, 33394, 33463, 33532, 33601, 33669, 33738, 33806, 33874, 33942, 34009, 34077, 34144, 
34211, 34278, 34345, 34412, 34478, 34544, 34610, 34676, 34742, 34808, 34873, 34939, 35004, 35069, 35134, 35199, 35263, 35328, 35392, 35456, 35520, 
35584, 35648, 35711, 35775, 35838, 35901, 35964, 36027, 36090, 36152, 36215, 36277, 36339, 36401, 36463, 36525, 36587, 36648, 36710, 36771, 36832, 
36893, 36954, 37014, 37075, 37135, 37196, 37256, 37316, 37376, 37436, 37496, 37555, 37615, 37674, 37733, 37793, 37852, 37910, 37969, 38028, 38086, 
38145, 38203, 38261, 38319, 38377, 38435, 38493, 38551, 38608, 38666, 38723, 38780, 38837, 38894, 38951, 39008, 39065, 39121, 39178, 39234, 39290, 
39346, 39402, 39458, 39514, 39570, 39626, 39681, 39737, 39792, 39847, 39902, 39957, 40012, 40067, 40122, 40177, 40231, 40286, 40340, 40394, 40449, 
40503, 40557, 40611, 40664, 40718, 40772, 40825, 40879, 40932, 40985, 41039, 41092, 41145, 41198, 41251, 41303, 41356, 41409, 41461, 41513, 41566, 
41618, 41670, 41722, 41774, 41826, 41878, 41930, 41981, 42033, 42084, 42136, 42187, 42238, 42290, 42341, 42392, 42443, 42493, 42544, 42595, 42646, 
42696, 42747, 42797, 42847, 42897, 42948, 42998, 43048, 43098, 43147, 43197, 43247, 43297, 43346, 43396, 43445, 43494, 43544, 43593, 43642, 43691, 
43740, 43789, 43838, 43887, 43935, 43984, 44033, 44081, 44129, 44178, 44226, 44274, 44322, 44371, 44419, 44467, 44514, 44562, 44610, 44658, 44705, 
44753, 44800, 44848, 44895, 44942, 44990, 45037, 45084, 45131, 45178, 45225, 45272, 45318, 45365, 45412, 45458, 45505, 45551, 45598, 45644, 45690, 
45737, 45783, 45829, 45875, 45921, 45967, 46013, 46059, 46104, 46150, 46196, 46241, 46287, 46332, 46378, 46423, 46468, 46514, 46559, 46604, 46649, 
46694, 46739, 46784, 46829, 46873, 46918, 46963, 47007, 47052, 47096, 47141, 47185, 47230, 47274, 47318, 47362, 47406, 47450, 47494, 47538, 47582, 
47626, 47670, 47714, 47757, 47801, 47845, 47888, 47932, 47975, 48019, 48062, 48105, 48148, 48192, 48235, 48278, 48321, 48364, 48407, 48450, 48493, 
48535, 48578, 48621, 48663, 48706, 48749, 48791, 48833, 48876, 48918, 48961, 49003, 49045, 49087, 49129, 49171, 49213, 49255, 49297, 49339, 49381, 
49423, 49465, 49506, 49548, 49590, 49631, 49673, 49714, 49755, 49797, 49838, 49879, 49921, 49962, 50003, 50044, 50085, 50126, 50167, 50208, 50249, 
50290, 50331, 50372, 50412, 50453, 50494, 50534, 50575, 50615, 50656, 50696, 50736, 50777, 50817, 50857, 50898, 50938, 50978, 51018, 51058, 51098, 
51138, 51178, 51218, 51258, 51297, 51337, 51377, 51417, 51456, 51496, 51535, 51575, 51614, 51654, 51693, 51733, 51772, 51811, 51851, 51890, 51929, 
51968, 52007, 52046, 52085, 52124, 52163, 52202, 52241, 52280, 52319, 52357, 52396, 52435, 52473, 52512, 52550, 52589, 52628, 52666, 52704, 52743, 
52781, 52819, 52858, 52896, 52934, 52972, 53010, 53048, 53087, 53125, 53163, 53201, 53238, 53276, 53314, 53352, 53390, 53427, 53465, 53503, 53540, 
53578, 53616, 53653, 53691, 53728, 53766, 53803, 53840, 53878, 53915, 53952, 53989, 54027, 54064, 54101, 54138, 54175, 54212, 54249, 54286, 54323, 
54360, 54397, 54433, 54470, 54507, 54544, 54580, 54617, 54654, 54690, 54727, 54763, 54800, 54836, 54873, 54909, 54946, 54982, 55018, 55054, 55091, 
55127, 55163, 55199, 55235, 55272, 55308, 55344, 55380, 55416, 55452, 55487, 55523, 55559, 55595, 55631, 55666, 55702, 55738, 55774, 55809, 55845, 
55880, 55916, 55951, 55987, 56022, 56058, 56093, 56129, 56164, 56199, 56235, 56270, 56305, 56340, 56375, 56410, 56446, 56481, 56516, 56551, 56586, 
56621, 56656, 56691, 56725, 56760, 56795, 56830, 56865, 56899, 56934, 56969, 57003, 57038, 57073, 57107, 57142, 57176, 57211, 57245, 57280, 57314, 
57348, 57383, 57417, 57451, 57486, 57520, 57554, 57588, 57623, 57657, 57691, 57725, 57759, 57793, 57827, 57861, 57895, 57929, 57963, 57997, 58030, 
58064, 58098, 58132, 58166, 58199, 58233, 58267, 58300, 58334, 58368, 58401, 58435, 58468, 58502, 58535, 58569, 58602, 58635, 58669, 58702, 58735, 
58769, 58802, 58835, 58868, 58902, 58935, 58968, 59001, 59034, 59067, 59100, 59133, 59166, 59199, 59232, 59265, 59298, 59331, 59364, 59396, 59429, 
59462, 59495, 59528, 59560, 59593, 59626, 59658, 59691, 59723, 59756, 59788, 59821, 59854, 59886, 59918, 59951, 59983, 60016, 60048, 60080, 60113, 
60145, 60177, 60209, 60242, 60274, 60306, 60338, 60370, 60402, 60434, 60467, 60499, 60531, 60563, 60595, 60626, 60658, 60690, 60722, 60754, 60786, 
60818, 60850, 60881, 60913, 60945, 60976, 61008, 61040, 61071, 61103, 61135, 61166, 61198, 61229, 61261, 61292, 61324, 61355, 61387, 61418, 61449, 
61481, 61512, 61543, 61575, 61606, 61637, 61669, 61700, 61731, 61762, 61793, 61824, 61856, 61887, 61918, 61949, 61980, 62011, 62042, 62073, 62104, 
62135, 62165, 62196, 62227, 62258, 62289, 62320, 62350, 62381, 62412, 62443, 62473, 62504, 62535, 62565, 62596, 62627, 62657, 62688, 62718, 62749, 
62779, 62810, 62840, 62871, 62901, 62932, 62962, 62992, 63023, 63053, 63083, 63114, 63144, 63174, 63204, 63235, 63265, 63295, 63325, 63355, 63385, 
63416, 63446, 63476, 63506, 63536, 63566, 63596, 63626, 63656, 63686, 63715, 63745, 63775, 63805, 63835, 63865, 63895, 63924, 63954, 63984, 64014, 
64043, 64073, 64103, 64132, 64162, 64192, 64221, 64251, 64280, 64310, 64339, 64369, 64398, 64428, 64457, 64487, 64516, 64546, 64575, 64604, 64634, 
64663, 64692, 64722, 64751, 64780, 64809, 64839, 64868, 64897, 64926, 64955, 64985, 65014, 65043, 65072, 65101, 65130, 65159, 65188, 65217, 65246, 
65275, 65304, 65333, 65362, 65391, 65420, 65448, 65477, 65506, 65535>>
(* 3 * 10^4 times the sine and cosine of i/200 *)
SinTab == <<0, 150, 300, 450, 600, 750, 900, 1050, 1200, 1350, 1499, 1649, 1799, 1949, 2098, 2248, 2397, 2547, 2696, 2846, 2995, 3144, 3293, 3442, 3591, 3740, 
3889, 4038, 4186, 4335, 4483, 4631, 4780, 4928, 5075, 5223, 5371, 5518, 5666, 5813, 5960, 6107, 6254, 6400, 6547, 6693, 6839, 6985, 7131, 7277, 7422, 
7567, 7712, 7857, 8002, 8146, 8291, 8435, 8579, 8722, 8866, 9009, 9152, 9294, 9437, 9579, 9721, 9863, 10005, 10146, 10287, 10428, 10568, 10708, 
10848, 10988, 11128, 11267, 11406, 11544, 11683, 11821, 11958, 12096, 12233, 12370, 12506, 12642, 12778, 12914, 13049, 13184, 13318, 13453, 13587, 
13720, 13853, 13986, 14119, 14251, 14383, 14514, 14645, 14776, 14906, 15036, 15166, 15295, 15424, 15553, 15681, 15808, 15936, 16062, 16189, 16315, 
16441, 16566, 16691, 16815, 16939, 17063, 17186, 17309, 17431, 17553, 17674, 17795, 17916, 18036, 18156, 18275, 18394, 18512, 18630, 18747, 18864, 
18980, 19096, 19212, 19327, 19441, 19555, 19669, 19782, 19894, 20006, 20118, 20229, 20339, 20449, 20559, 20668, 20776, 20884, 20991, 21098, 21205, 
21311, 21416, 21521, 21625, 21729, 21832, 21934, 22036, 22138, 22239, 22339, 22439, 22538, 22637, 22735, 22833, 22930, 23026, 23122, 23217, 23312, 
23406, 23500, 23593, 23685, 23777, 23868, 23959, 24049, 24138, 24227, 24315, 24402, 24489, 24576, 24661, 24747, 24831, 24915, 24998, 25081, 25163, 
25244, 25325, 25405, 25484, 25563, 25641, 25719, 25796, 25872, 25948, 26023, 26097, 26171, 26244, 26316, 26388, 26459, 26529, 26599, 26668, 26736, 
26804, 26871, 26937, 27003, 27068, 27132, 27196, 27259, 27321, 27383, 27444, 27504, 27564, 27623, 27681, 27738, 27795, 27851, 27906, 27961, 28015, 
28068, 28121, 28173, 28224, 28275, 28324, 28374, 28422, 28470, 28516, 28563, 28608, 28653, 28697, 28740, 28783, 28825, 28866, 28907, 28947, 28986, 
29024, 29061, 29098, 29134, 29170, 29205, 29238, 29272, 29304, 29336, 29367, 29397, 29427, 29456, 29484, 29511, 29538, 29563, 29589, 29613, 29637, 
29660, 29682, 29703, 29724, 29744, 29763, 29781, 29799, 29816, 29832, 29848, 29862, 29876, 29890, 29902, 29914, 29925, 29935, 29945, 29953, 29961, 
29969, 29975, 29981, 29986, 29990, 29994, 29996, 29998, 29999, 30000, 30000, 29999, 29997, 29994, 29991, 29987, 29982, 29977, 29971, 29964, 29956, 
29947, 29938, 29928, 29917, 29906, 29894, 29881, 29867, 29853, 29837, 29821, 29805, 29787, 29769, 29750, 29730, 29710, 29689, 29667, 29644, 29621, 
29596, 29572, 29546, 29520, 29492, 29465, 29436, 29407, 29377, 29346, 29314, 29282, 29249, 29215, 29181, 29146, 29110, 29073, 29036, 28998, 28959, 
28919, 28879, 28838, 28797, 28754, 28711, 28667, 28623, 28577, 28531, 28485, 28437, 28389, 28340, 28291, 28240, 28189, 28138, 28085, 28032, 27978, 
27924, 27869, 27813, 27756, 27699, 27641, 27582, 27523, 27463, 27402, 27341, 27279, 27216, 27153, 27089, 27024, 26958, 26892, 26825, 26758, 26690, 
26621, 26551, 26481, 26410, 26339, 26267, 26194, 26121, 26046, 25972, 25896, 25820, 25744, 25666, 25588, 25510, 25430, 25350, 25270, 25189, 25107, 
25025, 24942, 24858, 24774, 24689, 24603, 24517, 24430, 24343, 24255, 24166, 24077, 23987, 23897, 23806, 23714, 23622, 23529, 23436, 23342, 23248, 
23153, 23057, 22961, 22864, 22766, 22668, 22570, 22471, 22371, 22271, 22170, 22069, 21967, 21865, 21762, 21658, 21554, 21449, 21344, 21239, 21132, 
21026, 20918, 20811, 20702, 20593, 20484, 20374, 20264, 20153, 20042, 19930, 19817, 19705, 19591, 19477, 19363, 19248, 19133, 19017, 18901, 18784, 
18667, 18549, 18431, 18313, 18194, 18074, 17954, 17834, 17713, 17592, 17470, 17348, 17225, 17102, 16979, 16855, 16731, 16606, 16481, 16355, 16229, 
16103, 15976, 15849, 15721, 15593, 15465, 15336, 15207, 15078, 14948, 14818, 14687, 14556, 14425, 14293, 14161, 14029, 13896, 13763, 13629, 13495, 
13361, 13227, 13092, 12957, 12821, 12686, 12550, 12413, 12276, 12139, 12002, 11864, 11727, 11588, 11450, 11311, 11172, 11033, 10893, 10753, 10613, 
10472, 10332, 10191, 10050, 9908, 9766, 9625, 9482, 9340, 9197, 9054, 8911, 8768, 8624, 8481, 8337, 8192, 8048, 7903, 7759, 7614, 7468, 7323, 7177, 
7032, 6886, 6740, 6594, 6447, 6301, 6154, 6007, 5860, 5713, 5565, 5418, 5270, 5123, 4975, 4827, 4679, 4530, 4382, 4234, 4085, 3936, 3788, 3639, 3490, 
3341, 3192, 3043, 2893, 2744, 2595, 2445, 2296, 2146, 1996, 1847, 1697, 1547, 1397, 1247, 1098, 948, 798, 648, 498, 348, 198, 48, -102, -252, -402, 
-552, -702, -852, -1002, -1152, -1302, -1452, -1601, -1751, -1901, -2051, -2200, -2350, -2499, -2649, -2798, -2947, -3097, -3246, -3395, -3544, 
-3693, -3842, -3990, -4139, -4287, -4436, -4584, -4732, -4880, -5028, -5176, -5324, -5471, -5619, -5766, -5913, -6060, -6207, -6354, -6500, -6647, 
-6793, -6939, -7085, -7230, -7376, -7521, -7666, -7811, -7956, -8100, -8245, -8389, -8533, -8676, -8820, -8963, -9106, -9249, -9392, -9534, -9676, 
-9818, -9960, -10101, -10242, -10383, -10523, -10664, -10804, -10944, -11083, -11222, -11361, -11500, -11639, -11777, -11914, -12052, -12189, -12326, 
-12463, -12599, -12735, -12871, -13006, -13141, -13276, -13410, -13544, -13678, -13811, -13944, -14077, -14209, -14341, -14472, -14604, -14734, 
-14865, -14995, -15125, -15254, -15383, -15512, -15640, -15768, -15895, -16022, -16149, -16275, -16401, -16526, -16651, -16776, -16900, -17024, 
-17147, -17270, -17392, -17514, -17636, -17757, -17878, -17998, -18118, -18237, -18356, -18474, -18592, -18710, -18827, -18943, -19059, -19175, 
-19290, -19405, -19519, -19632, -19746, -19858, -19970, -20082, -20193, -20304, -20414, -20524, -20633, -20742, -20850, -20957, -21064, -21171, 
-21277, -21382, -21487, -21592, -21696, -21799, -21902, -22004, -22106, -22207, -22307, -22407, -22507, -22606, -22704, -22802, -22899, -22996, 
-23092, -23187, -23282, -23376, -23470, -23563, -23656, -23748, -23839, -23930, -24020, -24110, -24199, -24287, -24375, -24462, -24548, -24634, 
-24720, -24804, -24888, -24972, -25055, -25137, -25218, -25299, -25380, -25459, -25538, -25617, -25694, -25771, -25848, -25924, -25999, -26073, 
-26147, -26220, -26293, -26365, -26436, -26507, -26577, -26646, -26715, -26782, -26850, -26916, -26982, -27047, -27112, -27176, -27239, -27302, 
-27363, -27425, -27485, -27545, -27604, -27662, -27720, -27777, -27833, -27889, -27944, -27998, -28052, -28104, -28157, -28208, -28259, -28309, 
-28358, -28407, -28454, -28502, -28548, -28594, -28639, -28683, -28727, -28770, -28812, -28853, -28894, -28934, -28973, -29012, -29050, -29087, 
-29123, -29159, -29194, -29228, -29261, -29294, -29326, -29357, -29388, -29417, -29447, -29475, -29502, -29529, -29555, -29581, -29605, -29629, 
-29652, -29675, -29696, -29717, -29737, -29757, -29776, -29794, -29811, -29827, -29843, -29858, -29872, -29886, -29898, -29910, -29921, -29932, 
-29942, -29951, -29959, -29966, -29973, -29979, -29984, -29989, -29992, -29995, -29998, -29999, -30000, -30000, -29999, -29998, -29995, -29992, 
-29989, -29984, -29979, -29973, -29966, -29958, -29950, -29941, -29931, -29921, -29910, -29898, -29885, -29871, -29857, -29842, -29826, -29810, 
-29793, -29775, -29756, -29737, -29716, -29695, -29674, -29651, -29628, -29604, -29580, -29554, -29528, -29501, -29474, -29445, -29416, -29386, 
-29356, -29324, -29292, -29260, -29226, -29192, -29157, -29121, -29085, -29048, -29010, -28971, -28932, -28892, -28851, -28810, -28768, -28725, 
-28681, -28637, -28592, -28546, -28500, -28452, -28404, -28356, -28306, -28256, -28206, -28154, -28102, -28049, -27996, -27941, -27886, -27831, 
-27774, -27717, -27660, -27601, -27542, -27482, -27422, -27361, -27299, -27236, -27173, -27109, -27045, -26979, -26913, -26847, -26779, -26711, 
-26643, -26574, -26504, -26433, -26362, -26290, -26217, -26144, -26070, -25996, -25920, -25845, -25768, -25691, -25613, -25535, -25456, -25376, 
-25296, -25215, -25133, -25051, -24968, -24885, -24800, -24716, -24630, -24544, -24458, -24371, -24283, -24195, -24106, -24016, -23926, -23835, 
-23744, -23652, -23559, -23466, -23372, -23278, -23183, -23087, -22991, -22895, -22798, -22700, -22601, -22502, -22403, -22303, -22202, -22101, 
-21999, -21897, -21794, -21691, -21587, -21483, -21378, -21272, -21166, -21060, -20953, -20845, -20737, -20628, -20519, -20409, -20299, -20188, 
-20077, -19965, -19853, -19741, -19627, -19514, -19400, -19285, -19170, -19054, -18938, -18821, -18704, -18587, -18469, -18350, -18232, -18112, 
-17992, -17872, -17751, -17630, -17509, -17387, -17264, -17141, -17018, -16894, -16770, -16646, -16521, -16395, -16269, -16143, -16016, -15889, 
-15762, -15634, -15506, -15377, -15248, -15119, -14989, -14859, -14729, -14598, -14467, -14335, -14203, -14071, -13938, -13805, -13672, -13538, 
-13404, -13270, -13135, -13000, -12865, -12729, -12593, -12457, -12320, -12183, -12046, -11908, -11771, -11632, -11494, -11355, -11216, -11077, 
-10938, -10798, -10658, -10517, -10377, -10236, -10095, -9953, -9812, -9670, -9528, -9385, -9243, -9100, -8957, -8814, -8670, -8526, -8382, -8238, 
-8094, -7949, -7805, -7660, -7515, -7369, -7224, -7078, -6932, -6786, -6640, -6494, -6347, -6201, -6054, -5907, -5760, -5612, -5465, -5317, -5170, 
-5022, -4874, -4726, -4578, -4429, -4281, -4132, -3984, -3835, -3686, -3537, -3388, -3239, -3090, -2941, -2792, -2642, -2493, -2343, -2194, -2044, 
-1894, -1745, -1595, -1445, -1295, -1145, -995, -845, -695, -546, -396, -246, -96, 54, 204, 354, 504, 654, 804, 954, 1104, 1254, 1404, 1554, 1704, 
1853, 2003, 2153, 2302, 2452, 2601, 2751, 2900, 3049, 3198, 3347, 3496, 3645, 3794, 3943, 4092, 4240, 4389, 4537, 4685, 4833, 4981, 5129, 5277, 5424, 
5572, 5719, 5866, 6013, 6160, 6307, 6454, 6600, 6746, 6892, 7038, 7184, 7329, 7475, 7620, 7765, 7910, 8054, 8199, 8343, 8487, 8631, 8774, 8918, 9061, 
9204, 9346, 9489, 9631, 9773, 9914, 10056, 10197, 10338, 10479, 10619, 10759, 10899, 11039, 11178, 11317, 11456, 11594, 11733, 11871, 12008, 12145, 
12283, 12419, 12556, 12692, 12827, 12963, 13098, 13233, 13367, 13501, 13635, 13769, 13902, 14034, 14167, 14299, 14431, 14562, 14693, 14823, 14954, 
15083, 15213, 15342, 15471, 15599, 15727, 15855, 15982, 16108, 16235, 16361, 16486, 16611, 16736, 16860, 16984, 17108, 17231, 17353, 17475, 17597, 
17718, 17839, 17960, 18079, 18199, 18318, 18436, 18555, 18672, 18789, 18906, 19022, 19138, 19253, 19368, 19482, 19596, 19710, 19822, 19935, 20047, 
20158, 20269, 20379, 20489, 20598, 20707, 20815, 20923, 21030, 21137, 21243, 21349, 21454, 21559, 21663, 21766, 21869, 21971, 22073, 22175, 22275, 
22376, 22475, 22574, 22673, 22771, 22868, 22965, 23061, 23157, 23252, 23346, 23440, 23534, 23626, 23718, 23810, 23901, 23991, 24081, 24170, 24259, 
24347, 24434, 24521, 24607, 24692, 24777, 24862, 24945, 25028, 25111, 25192, 25274, 25354, 25434, 25513, 25592, 25670, 25747, 25824, 25900, 25975, 
26050, 26124, 26197, 26270, 26342, 26414, 26484, 26554, 26624, 26693, 26761, 26828, 26895, 26961, 27027, 27091, 27156, 27219, 27282, 27344, 27405, 
27466, 27526, 27585, 27644, 27702, 27759, 27815, 27871, 27926, 27981, 28035, 28088, 28140, 28192, 28243, 28293, 28342, 28391, 28439, 28487, 28533, 
28579, 28625, 28669, 28713, 28756, 28798, 28840, 28881, 28921, 28961, 29000, 29038, 29075, 29112, 29147, 29183, 29217, 29251, 29284, 29316, 29347, 
29378, 29408, 29437, 29466, 29494, 29521, 29547, 29573, 29598, 29622, 29645, 29668, 29690, 29711, 29731, 29751, 29770, 29788, 29805, 29822, 29838, 
29853, 29868, 29881, 29894, 29906, 29918, 29929, 29939, 29948, 29956, 29964, 29971, 29977, 29983, 29987, 29991, 29995, 29997, 29999, 30000, 30000, 
29999, 29998, 29996, 29993, 29990, 29986, 29981, 29975, 29968, 29961, 29953, 29944, 29935, 29924, 29913, 29902, 29889, 29876, 29862, 29847, 29832, 
29815, 29798, 29781, 29762, 29743, 29723, 29702, 29681, 29659, 29636, 29612, 29588, 29562, 29536, 29510, 29482, 29454, 29425, 29396, 29366, 29335, 
29303, 29270, 29237, 29203, 29168, 29133, 29097, 29060, 29022, 28984, 28945, 28905, 28864, 28823, 28781, 28739, 28695, 28651, 28606, 28561, 28514, 
28467, 28420, 28371, 28322, 28272, 28222, 28171, 28119, 28066, 28013, 27959, 27904, 27849, 27792, 27736, 27678, 27620, 27561, 27501, 27441, 27380, 
27319, 27256, 27193, 27130, 27065, 27000, 26934, 26868, 26801, 26733, 26665, 26596, 26526, 26456, 26385, 26313, 26240, 26167, 26094, 26019, 25944, 
25869, 25792, 25716, 25638, 25560, 25481, 25401, 25321, 25241, 25159, 25077, 24994, 24911, 24827, 24743, 24658, 24572, 24486, 24399, 24311, 24223, 
24134, 24045, 23955, 23864, 23773, 23681, 23589, 23496, 23402, 23308, 23213, 23118, 23022, 22926, 22829, 22731, 22633, 22534, 22435, 22335, 22234, 
22133, 22032, 21930, 21827, 21724, 21620, 21516, 21411, 21306, 21200, 21094, 20987, 20879, 20771, 20663, 20554, 20444, 20334, 20224, 20113, 20001, 
19889, 19777, 19663, 19550, 19436, 19321, 19206, 19091, 18975, 18859, 18742, 18624, 18507, 18388, 18269, 18150, 18031, 17911, 17790, 17669, 17548, 
17426, 17303, 17181, 17057, 16934, 16810, 16685, 16560, 16435, 16309, 16183, 16057, 15930, 15803, 15675, 15547, 15418, 15290, 15160, 15031, 14901, 
14770, 14640, 14508, 14377, 14245, 14113, 13980, 13847, 13714, 13581, 13447, 13312, 13178, 13043, 12908, 12772, 12636, 12500, 12364, 12227, 12090, 
11952, 11814, 11676, 11538, 11399, 11261, 11121, 10982, 10842, 10702, 10562, 10421, 10281, 10140, 9998, 9857, 9715, 9573, 9431, 9288, 9145, 9002, 
8859, 8716, 8572, 8428, 8284, 8140, 7996, 7851, 7706, 7561, 7416, 7270, 7125, 6979, 6833, 6687, 6540, 6394, 6247, 6100, 5954, 5806, 5659, 5512, 5364, 
5217, 5069, 4921, 4773, 4625, 4477, 4328, 4180, 4031, 3882, 3734, 3585, 3436, 3287, 3138, 2988, 2839, 2690, 2540, 2391, 2241, 2092, 1942, 1792, 1643, 
1493, 1343, 1193, 1043, 893, 743, 593, 443, 293, 143, -7, -157, -307, -457, -607, -757, -907, -1056, -1206, -1356, -1506, -1656, -1806, -1955, -2105, 
-2255, -2404, -2554, -2703, -2852, -3002, -3151, -3300, -3449, -3598, -3747, -3896, -4044, -4193, -4341, -4490, -4638, -4786, -4934, -5082, -5230, 
-5377, -5525, -5672, -5820, -5967, -6114, -6260, -6407, -6553, -6700, -6846, -6992, -7138, -7283, -7429, -7574, -7719, -7864, -8008, -8153, -8297, 
-8441, -8585, -8729, -8872, -9015, -9158, -9301, -9443, -9586, -9728, -9869, -10011, -10152, -10293, -10434, -10574, -10715, -10855, -10994, -11134, 
-11273, -11412, -11550, -11689, -11827, -11964, -12102, -12239, -12376, -12512, -12648, -12784, -12920, -13055, -13190, -13324, -13459, -13593, 
-13726, -13859, -13992, -14125, -14257, -14389, -14520, -14651, -14782, -14912, -15042, -15172, -15301, -15430, -15558, -15686, -15814, -15941, 
-16068, -16195, -16321>>
CosTab == <<30000, 30000, 29999, 29997, 29994, 29991, 29987, 29982, 29976, 29970, 29963, 29955, 29946, 29937, 29927, 29916, 29904, 29892, 29879, 29865, 29850, 
29835, 29819, 29802, 29784, 29766, 29747, 29727, 29706, 29685, 29663, 29640, 29617, 29593, 29568, 29542, 29515, 29488, 29460, 29431, 29402, 29372, 
29341, 29309, 29277, 29244, 29210, 29175, 29140, 29104, 29067, 29030, 28992, 28953, 28913, 28873, 28832, 28790, 28747, 28704, 28660, 28615, 28570, 
28524, 28477, 28430, 28381, 28332, 28283, 28232, 28181, 28129, 28077, 28024, 27970, 27915, 27860, 27804, 27747, 27690, 27632, 27573, 27514, 27453, 
27393, 27331, 27269, 27206, 27143, 27078, 27013, 26948, 26882, 26815, 26747, 26679, 26610, 26540, 26470, 26399, 26327, 26255, 26182, 26109, 26035, 
25960, 25884, 25808, 25731, 25654, 25576, 25497, 25418, 25338, 25257, 25176, 25094, 25011, 24928, 24844, 24760, 24675, 24589, 24503, 24416, 24329, 
24241, 24152, 24063, 23973, 23883, 23791, 23700, 23608, 23515, 23421, 23327, 23233, 23137, 23042, 22945, 22848, 22751, 22653, 22554, 22455, 22355, 
22255, 22154, 22053, 21951, 21848, 21745, 21641, 21537, 21433, 21327, 21222, 21115, 21009, 20901, 20793, 20685, 20576, 20467, 20357, 20246, 20135, 
20024, 19912, 19799, 19687, 19573, 19459, 19345, 19230, 19115, 18999, 18882, 18766, 18648, 18531, 18412, 18294, 18175, 18055, 17935, 17815, 17694, 
17572, 17450, 17328, 17206, 17083, 16959, 16835, 16711, 16586, 16461, 16335, 16209, 16083, 15956, 15829, 15701, 15573, 15445, 15316, 15187, 15057, 
14927, 14797, 14666, 14535, 14404, 14272, 14140, 14007, 13875, 13741, 13608, 13474, 13340, 13205, 13070, 12935, 12800, 12664, 12528, 12391, 12255, 
12118, 11980, 11843, 11705, 11566, 11428, 11289, 11150, 11010, 10871, 10731, 10591, 10450, 10309, 10168, 10027, 9886, 9744, 9602, 9460, 9317, 9175, 
9032, 8888, 8745, 8601, 8458, 8314, 8169, 8025, 7880, 7736, 7590, 7445, 7300, 7154, 7009, 6863, 6716, 6570, 6424, 6277, 6130, 5983, 5836, 5689, 5542, 
5394, 5247, 5099, 4951, 4803, 4655, 4507, 4358, 4210, 4061, 3913, 3764, 3615, 3466, 3317, 3168, 3019, 2869, 2720, 2571, 2421, 2272, 2122, 1972, 1823, 
1673, 1523, 1373, 1224, 1074, 924, 774, 624, 474, 324, 174, 24, -126, -276, -426, -576, -726, -876, -1026, -1176, -1326, -1476, -1625, -1775, -1925, 
-2074, -2224, -2374, -2523, -2673, -2822, -2971, -3120, -3270, -3419, -3568, -3717, -3865, -4014, -4163, -4311, -4460, -4608, -4756, -4904, -5052, 
-5200, -5347, -5495, -5642, -5790, -5937, -6084, -6230, -6377, -6524, -6670, -6816, -6962, -7108, -7254, -7399, -7544, -7689, -7834, -7979, -8123, 
-8268, -8412, -8556, -8699, -8843, -8986, -9129, -9272, -9414, -9557, -9699, -9841, -9982, -10123, -10264, -10405, -10546, -10686, -10826, -10966, 
-11105, -11245, -11384, -11522, -11661, -11799, -11936, -12074, -12211, -12348, -12484, -12621, -12757, -12892, -13027, -13162, -13297, -13431, 
-13565, -13699, -13832, -13965, -14098, -14230, -14362, -14493, -14624, -14755, -14886, -15016, -15145, -15275, -15404, -15532, -15660, -15788, 
-15915, -16042, -16169, -16295, -16421, -16546, -16671, -16795, -16920, -17043, -17166, -17289, -17412, -17534, -17655, -17776, -17897, -18017, 
-18137, -18256, -18375, -18493, -18611, -18728, -18845, -18962, -19078, -19193, -19308, -19423, -19537, -19650, -19764, -19876, -19988, -20100, 
-20211, -20322, -20432, -20541, -20650, -20759, -20867, -20974, -21081, -21188, -21294, -21399, -21504, -21608, -21712, -21815, -21918, -22020, 
-22122, -22223, -22323, -22423, -22523, -22621, -22720, -22817, -22914, -23011, -23107, -23202, -23297, -23391, -23485, -23578, -23670, -23762, 
-23854, -23944, -24034, -24124, -24213, -24301, -24389, -24476, -24562, -24648, -24733, -24818, -24902, -24985, -25068, -25150, -25231, -25312, 
-25392, -25472, -25551, -25629, -25707, -25784, -25860, -25936, -26011, -26085, -26159, -26232, -26305, -26376, -26447, -26518, -26588, -26657, 
-26725, -26793, -26860, -26927, -26993, -27058, -27122, -27186, -27249, -27311, -27373, -27434, -27495, -27554, -27613, -27671, -27729, -27786, 
-27842, -27898, -27953, -28007, -28060, -28113, -28165, -28216, -28267, -28317, -28366, -28414, -28462, -28509, -28555, -28601, -28646, -28690, 
-28734, -28776, -28818, -28860, -28900, -28940, -28979, -29018, -29056, -29092, -29129, -29164, -29199, -29233, -29266, -29299, -29331, -29362, 
-29392, -29422, -29451, -29479, -29507, -29533, -29559, -29585, -29609, -29633, -29656, -29678, -29700, -29721, -29741, -29760, -29779, -29796, 
-29813, -29830, -29845, -29860, -29874, -29888, -29900, -29912, -29923, -29934, -29943, -29952, -29960, -29967, -29974, -29980, -29985, -29989, 
-29993, -29996, -29998, -29999, -30000, -30000, -29999, -29997, -29995, -29992, -29988, -29983, -29978, -29972, -29965, -29957, -29949, -29940, 
-29930, -29919, -29908, -29896, -29883, -29869, -29855, -29840, -29824, -29807, -29790, -29772, -29753, -29733, -29713, -29692, -29670, -29648, 
-29624, -29600, -29576, -29550, -29524, -29497, -29469, -29441, -29411, -29382, -29351, -29319, -29287, -29254, -29221, -29187, -29151, -29116, 
-29079, -29042, -29004, -28965, -28926, -28886, -28845, -28803, -28761, -28718, -28674, -28630, -28585, -28539, -28492, -28445, -28397, -28348, 
-28299, -28248, -28198, -28146, -28094, -28041, -27987, -27933, -27878, -27822, -27765, -27708, -27650, -27592, -27533, -27473, -27412, -27351, 
-27289, -27226, -27163, -27099, -27034, -26969, -26903, -26836, -26769, -26701, -26632, -26562, -26492, -26422, -26350, -26278, -26206, -26132, 
-26058, -25984, -25908, -25832, -25756, -25679, -25601, -25522, -25443, -25363, -25283, -25202, -25120, -25038, -24955, -24871, -24787, -24702, 
-24617, -24531, -24444, -24357, -24269, -24180, -24091, -24002, -23911, -23821, -23729, -23637, -23544, -23451, -23357, -23263, -23168, -23072, 
-22976, -22879, -22782, -22684, -22586, -22487, -22387, -22287, -22186, -22085, -21983, -21881, -21778, -21675, -21571, -21466, -21361, -21255, 
-21149, -21043, -20935, -20828, -20720, -20611, -20502, -20392, -20282, -20171, -20059, -19948, -19835, -19723, -19609, -19496, -19381, -19267, 
-19151, -19036, -18919, -18803, -18686, -18568, -18450, -18332, -18213, -18093, -17973, -17853, -17732, -17611, -17489, -17367, -17245, -17122, 
-16998, -16875, -16750, -16626, -16501, -16375, -16249, -16123, -15996, -15869, -15742, -15614, -15486, -15357, -15228, -15098, -14969, -14838, 
-14708, -14577, -14446, -14314, -14182, -14050, -13917, -13784, -13650, -13517, -13383, -13248, -13113, -12978, -12843, -12707, -12571, -12435, 
-12298, -12161, -12024, -11886, -11749, -11610, -11472, -11333, -11194, -11055, -10915, -10775, -10635, -10495, -10354, -10213, -10072, -9931, -9789, 
-9647, -9505, -9363, -9220, -9077, -8934, -8791, -8647, -8503, -8360, -8215, -8071, -7926, -7782, -7637, -7492, -7346, -7201, -7055, -6909, -6763, 
-6617, -6470, -6324, -6177, -6030, -5883, -5736, -5589, -5441, -5294, -5146, -4998, -4850, -4702, -4554, -4406, -4257, -4109, -3960, -3811, -3663, 
-3514, -3365, -3215, -3066, -2917, -2768, -2618, -2469, -2319, -2170, -2020, -1870, -1721, -1571, -1421, -1271, -1121, -971, -822, -672, -522, -372, 
-222, -72, 78, 228, 378, 528, 678, 828, 978, 1128, 1278, 1428, 1578, 1727, 1877, 2027, 2176, 2326, 2476, 2625, 2774, 2924, 3073, 3222, 3371, 3520, 
3669, 3818, 3967, 4115, 4264, 4412, 4561, 4709, 4857, 5005, 5153, 5300, 5448, 5595, 5743, 5890, 6037, 6184, 6330, 6477, 6623, 6770, 6916, 7061, 7207, 
7353, 7498, 7643, 7788, 7933, 8077, 8222, 8366, 8510, 8654, 8797, 8940, 9083, 9226, 9369, 9511, 9653, 9795, 9937, 10078, 10220, 10360, 10501, 10642, 
10782, 10921, 11061, 11200, 11339, 11478, 11617, 11755, 11893, 12030, 12167, 12304, 12441, 12577, 12713, 12849, 12984, 13119, 13254, 13389, 13523, 
13656, 13790, 13923, 14056, 14188, 14320, 14451, 14583, 14714, 14844, 14974, 15104, 15234, 15363, 15491, 15619, 15747, 15875, 16002, 16129, 16255, 
16381, 16506, 16631, 16756, 16880, 17004, 17127, 17250, 17373, 17495, 17616, 17738, 17858, 17979, 18098, 18218, 18337, 18455, 18573, 18691, 18808, 
18925, 19041, 19156, 19272, 19386, 19501, 19614, 19728, 19840, 19953, 20064, 20176, 20286, 20397, 20506, 20616, 20724, 20833, 20940, 21047, 21154, 
21260, 21366, 21471, 21575, 21679, 21783, 21885, 21988, 22090, 22191, 22291, 22392, 22491, 22590, 22688, 22786, 22884, 22980, 23076, 23172, 23267, 
23361, 23455, 23548, 23641, 23733, 23825, 23915, 24006, 24095, 24184, 24273, 24361, 24448, 24535, 24621, 24706, 24791, 24875, 24958, 25041, 25124, 
25205, 25286, 25367, 25447, 25526, 25604, 25682, 25759, 25836, 25912, 25987, 26062, 26136, 26209, 26282, 26354, 26425, 26496, 26566, 26635, 26704, 
26772, 26839, 26906, 26972, 27037, 27102, 27166, 27229, 27292, 27354, 27415, 27475, 27535, 27594, 27653, 27711, 27768, 27824, 27880, 27935, 27989, 
28043, 28096, 28148, 28200, 28251, 28301, 28350, 28399, 28447, 28494, 28541, 28587, 28632, 28676, 28720, 28763, 28805, 28847, 28887, 28928, 28967, 
29006, 29044, 29081, 29117, 29153, 29188, 29222, 29256, 29289, 29321, 29352, 29383, 29413, 29442, 29470, 29498, 29525, 29551, 29577, 29601, 29625, 
29649, 29671, 29693, 29714, 29734, 29754, 29773, 29791, 29808, 29825, 29840, 29856, 29870, 29883, 29896, 29908, 29920, 29930, 29940, 29949, 29958, 
29965, 29972, 29978, 29983, 29988, 29992, 29995, 29997, 29999, 30000, 30000, 29999, 29998, 29996, 29993, 29989, 29985, 29980, 29974, 29967, 29960, 
29952, 29943, 29933, 29923, 29912, 29900, 29887, 29874, 29860, 29845, 29829, 29813, 29796, 29778, 29759, 29740, 29720, 29699, 29677, 29655, 29632, 
29608, 29584, 29558, 29532, 29506, 29478, 29450, 29421, 29391, 29361, 29330, 29298, 29265, 29232, 29198, 29163, 29127, 29091, 29054, 29016, 28978, 
28938, 28899, 28858, 28817, 28774, 28732, 28688, 28644, 28599, 28553, 28507, 28460, 28412, 28364, 28314, 28264, 28214, 28162, 28110, 28058, 28004, 
27950, 27895, 27840, 27783, 27727, 27669, 27611, 27552, 27492, 27431, 27370, 27309, 27246, 27183, 27119, 27055, 26990, 26924, 26857, 26790, 26722, 
26654, 26585, 26515, 26444, 26373, 26301, 26229, 26156, 26082, 26007, 25932, 25857, 25780, 25703, 25626, 25547, 25468, 25389, 25308, 25228, 25146, 
25064, 24981, 24898, 24814, 24729, 24644, 24558, 24472, 24385, 24297, 24209, 24120, 24030, 23940, 23850, 23758, 23666, 23574, 23481, 23387, 23293, 
23198, 23103, 23007, 22910, 22813, 22715, 22617, 22518, 22419, 22319, 22218, 22117, 22016, 21914, 21811, 21708, 21604, 21499, 21395, 21289, 21183, 
21077, 20970, 20862, 20754, 20645, 20536, 20427, 20317, 20206, 20095, 19983, 19871, 19759, 19645, 19532, 19418, 19303, 19188, 19073, 18957, 18840, 
18723, 18606, 18488, 18369, 18251, 18131, 18012, 17891, 17771, 17650, 17528, 17406, 17284, 17161, 17038, 16914, 16790, 16665, 16541, 16415, 16289, 
16163, 16037, 15910, 15782, 15655, 15526, 15398, 15269, 15140, 15010, 14880, 14749, 14619, 14487, 14356, 14224, 14092, 13959, 13826, 13693, 13559, 
13425, 13291, 13156, 13021, 12886, 12751, 12615, 12478, 12342, 12205, 12068, 11930, 11792, 11654, 11516, 11377, 11238, 11099, 10960, 10820, 10680, 
10540, 10399, 10258, 10117, 9976, 9834, 9692, 9550, 9408, 9265, 9123, 8980, 8836, 8693, 8549, 8405, 8261, 8117, 7972, 7828, 7683, 7538, 7393, 7247, 
7101, 6956, 6810, 6663, 6517, 6371, 6224, 6077, 5930, 5783, 5636, 5488, 5341, 5193, 5045, 4897, 4749, 4601, 4453, 4305, 4156, 4007, 3859, 3710, 3561, 
3412, 3263, 3114, 2965, 2815, 2666, 2516, 2367, 2217, 2068, 1918, 1768, 1619, 1469, 1319, 1169, 1019, 869, 719, 569, 419, 269, 119, -31, -181, -331, 
-481, -631, -780, -930, -1080, -1230, -1380, -1530, -1680, -1829, -1979, -2129, -2278, -2428, -2577, -2727, -2876, -3025, -3175, -3324, -3473, -3622, 
-3771, -3919, -4068, -4217, -4365, -4513, -4662, -4810, -4958, -5106, -5253, -5401, -5548, -5696, -5843, -5990, -6137, -6284, -6430, -6577, -6723, 
-6869, -7015, -7161, -7306, -7452, -7597, -7742, -7887, -8031, -8176, -8320, -8464, -8608, -8751, -8895, -9038, -9181, -9324, -9466, -9608, -9750, 
-9892, -10033, -10175, -10316, -10456, -10597, -10737, -10877, -11017, -11156, -11295, -11434, -11572, -11711, -11849, -11986, -12124, -12261, 
-12397, -12534, -12670, -12806, -12941, -13076, -13211, -13346, -13480, -13614, -13747, -13880, -14013, -14146, -14278, -14410, -14541, -14672, 
-14803, -14933, -15063, -15192, -15322, -15450, -15579, -15707, -15834, -15961, -16088, -16215, -16341, -16466, -16591, -16716, -16841, -16964, 
-17088, -17211, -17334, -17456, -17578, -17699, -17820, -17940, -18060, -18180, -18299, -18418, -18536, -18654, -18771, -18888, -19004, -19120, 
-19235, -19350, -19464, -19578, -19692, -19804, -19917, -20029, -20140, -20251, -20362, -20472, -20581, -20690, -20798, -20906, -21013, -21120, 
-21226, -21332, -21437, -21542, -21646, -21750, -21853, -21955, -22057, -22159, -22259, -22360, -22459, -22559, -22657, -22755, -22853, -22950, 
-23046, -23142, -23237, -23331, -23425, -23519, -23612, -23704, -23795, -23887, -23977, -24067, -24156, -24245, -24333, -24420, -24507, -24593, 
-24679, -24764, -24848, -24932, -25015, -25098, -25179, -25261, -25341, -25421, -25501, -25579, -25657, -25735, -25811, -25888, -25963, -26038, 
-26112, -26186, -26258, -26331, -26402, -26473, -26543, -26613, -26682, -26750, -26818, -26885, -26951, -27016, -27081, -27145, -27209, -27272, 
-27334, -27395, -27456, -27516, -27576, -27634, -27692, -27750, -27806, -27862, -27918, -27972, -28026, -28079, -28132, -28183, -28235, -28285, 
-28334, -28383, -28432, -28479, -28526, -28572, -28617, -28662, -28706, -28749, -28792, -28834, -28875, -28915, -28955, -28993, -29032, -29069, 
-29106, -29142, -29177, -29212, -29245, -29278, -29311, -29342, -29373, -29403, -29433, -29461, -29489, -29517, -29543, -29569, -29594, -29618, 
-29641, -29664, -29686, -29707, -29728, -29748, -29767, -29785, -29803, -29819, -29835, -29851, -29865, -29879, -29892, -29905, -29916, -29927, 
-29937, -29946, -29955, -29963, -29970, -29976, -29982, -29987, -29991, -29994, -29997, -29999, -30000, -30000, -30000, -29998, -29997, -29994, 
-29990, -29986, -29981, -29976, -29969, -29962, -29954, -29946, -29936, -29926, -29915, -29904, -29891, -29878, -29864, -29849, -29834, -29818, 
-29801, -29783, -29765, -29746, -29726, -29706, -29684, -29662, -29639, -29616, -29591, -29566, -29541, -29514, -29487, -29459, -29430, -29401, 
-29370, -29340, -29308, -29275, -29242, -29208, -29174, -29139, -29103, -29066, -29028, -28990, -28951, -28911, -28871, -28830, -28788, -28745, 
-28702, -28658, -28613, -28568, -28522, -28475, -28427, -28379, -28330, -28280, -28230, -28179, -28127, -28075, -28021, -27967, -27913, -27857, 
-27801, -27745, -27687, -27629, -27570, -27511, -27451, -27390, -27328, -27266, -27203, -27140, -27075, -27011, -26945, -26879, -26812, -26744, 
-26676, -26607, -26537, -26467, -26396, -26324, -26252, -26179, -26106, -26031, -25956, -25881, -25805, -25728, -25650, -25572, -25494, -25414, 
-25334, -25253, -25172>>
=============================================================================
