------------------------------- MODULE TrigTab -------------------------------
(* Generated by tools/gen_trig.py: CosTab[L][a+1] = 100000 * cos(2 pi a / L), rounded; 0 <= a < L; SinTab likewise. *)
EXTENDS Integers, Sequences
Denominators == {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 50, 52, 54, 55, 56, 60, 63, 64, 65, 66, 70, 72, 75, 77, 80, 84, 90, 96, 99, 100, 105, 110, 112, 120, 126, 128, 140, 168, 210}
CosTab == <<
 <<100000>>,
 <<100000, -100000>>,
 <<100000, -50000, -50000>>,
 <<100000, 0, -100000, 0>>,
 <<100000, 30902, -80902, -80902, 30902>>,
 <<100000, 50000, -50000, -100000, -50000, 50000>>,
 <<100000, 62349, -22252, -90097, -90097, -22252, 62349>>,
 <<100000, 70711, 0, -70711, -100000, -70711, 0, 70711>>,
 <<100000, 76604, 17365, -50000, -93969, -93969, -50000, 17365, 76604>>,
 <<100000, 80902, 30902, -30902, -80902, -100000, -80902, -30902, 30902, 80902>>,
 <<100000, 84125, 41542, -14231, -65486, -95949, -95949, -65486, -14231, 41542, 84125>>,
 <<100000, 86603, 50000, 0, -50000, -86603, -100000, -86603, -50000, 0, 50000, 86603>>,
 <<100000, 88546, 56806, 12054, -35460, -74851, -97094, -97094, -74851, -35460, 12054, 56806, 88546>>,
 <<100000, 90097, 62349, 22252, -22252, -62349, -90097, -100000, -90097, -62349, -22252, 22252, 62349, 90097>>,
 <<100000, 91355, 66913, 30902, -10453, -50000, -80902, -97815, -97815, -80902, -50000, -10453, 30902, 66913, 91355>>,
 <<100000, 92388, 70711, 38268, 0, -38268, -70711, -92388, -100000, -92388, -70711, -38268, 0, 38268, 70711, 92388>>,
 <<100000, 93247, 73901, 44574, 9227, -27366, -60263, -85022, -98297, -98297, -85022, -60263, -27366, 9227, 44574, 73901, 93247>>,
 <<100000, 93969, 76604, 50000, 17365, -17365, -50000, -76604, -93969, -100000, -93969, -76604, -50000, -17365, 17365, 50000, 76604, 93969>>,
 <<100000, 94582, 78914, 54695, 24549, -8258, -40170, -67728, -87947, -98636, -98636, -87947, -67728, -40170, -8258, 24549, 54695, 78914, 94582>>,
 <<100000, 95106, 80902, 58779, 30902, 0, -30902, -58779, -80902, -95106, -100000, -95106, -80902, -58779, -30902, 0, 30902, 58779, 80902, 95106>>,
 <<100000, 95557, 82624, 62349, 36534, 7473, -22252, -50000, -73305, -90097, -98883, -98883, -90097, -73305, -50000, -22252, 7473, 36534, 62349, 82624, 95557>>,
 <<100000, 95949, 84125, 65486, 41542, 14231, -14231, -41542, -65486, -84125, -95949, -100000, -95949, -84125, -65486, -41542, -14231, 14231, 41542, 65486, 84125, 95949>>,
 <<100000, 96292, 85442, 68255, 46007, 20346, -6824, -33488, -57668, -77571, -91721, -99069, -99069, -91721, -77571, -57668, -33488, -6824, 20346, 46007, 68255, 85442, 96292>>,
 <<100000, 96593, 86603, 70711, 50000, 25882, 0, -25882, -50000, -70711, -86603, -96593, -100000, -96593, -86603, -70711, -50000, -25882, 0, 25882, 50000, 70711, 86603, 96593>>,
 <<100000, 96858, 87631, 72897, 53583, 30902, 6279, -18738, -42578, -63742, -80902, -92978, -99211, -99211, -92978, -80902, -63742, -42578, -18738, 6279, 30902, 53583, 72897, 87631, 96858>>,
 <<100000, 97094, 88546, 74851, 56806, 35460, 12054, -12054, -35460, -56806, -74851, -88546, -97094, -100000, -97094, -88546, -74851, -56806, -35460, -12054, 12054, 35460, 56806, 74851, 88546, 97094>>,
 <<100000, 97304, 89363, 76604, 59716, 39608, 17365, -5814, -28680, -50000, -68624, -83549, -93969, -99324, -99324, -93969, -83549, -68624, -50000, -28680, -5814, 17365, 39608, 59716, 76604, 89363, 97304>>,
 <<100000, 97493, 90097, 78183, 62349, 43388, 22252, 0, -22252, -43388, -62349, -78183, -90097, -97493, -100000, -97493, -90097, -78183, -62349, -43388, -22252, 0, 22252, 43388, 62349, 78183, 90097, 97493>>,
 <<100000, 97662, 90758, 79609, 64739, 46841, 26753, 5414, -16178, -37014, -56119, -72600, -85686, -94765, -99414, -99414, -94765, -85686, -72600, -56119, -37014, -16178, 5414, 26753, 46841, 64739, 79609, 90758, 97662>>,
 <<100000, 97815, 91355, 80902, 66913, 50000, 30902, 10453, -10453, -30902, -50000, -66913, -80902, -91355, -97815, -100000, -97815, -91355, -80902, -66913, -50000, -30902, -10453, 10453, 30902, 50000, 66913, 80902, 91355, 97815>>,
 <<100000, 97953, 91896, 82076, 68897, 52896, 34731, 15143, -5065, -25065, -44039, -61211, -75876, -87435, -95414, -99487, -99487, -95414, -87435, -75876, -61211, -44039, -25065, -5065, 15143, 34731, 52896, 68897, 82076, 91896, 97953>>,
 <<100000, 98079, 92388, 83147, 70711, 55557, 38268, 19509, 0, -19509, -38268, -55557, -70711, -83147, -92388, -98079, -100000, -98079, -92388, -83147, -70711, -55557, -38268, -19509, 0, 19509, 38268, 55557, 70711, 83147, 92388, 98079>>,
 <<100000, 98193, 92837, 84125, 72373, 58006, 41542, 23576, 4758, -14231, -32707, -50000, -65486, -78605, -88884, -95949, -99547, -99547, -95949, -88884, -78605, -65486, -50000, -32707, -14231, 4758, 23576, 41542, 58006, 72373, 84125, 92837, 98193>>,
 <<100000, 98297, 93247, 85022, 73901, 60263, 44574, 27366, 9227, -9227, -27366, -44574, -60263, -73901, -85022, -93247, -98297, -100000, -98297, -93247, -85022, -73901, -60263, -44574, -27366, -9227, 9227, 27366, 44574, 60263, 73901, 85022, 93247, 98297>>,
 <<100000, 98393, 93623, 85845, 75307, 62349, 47387, 30902, 13423, -4486, -22252, -39303, -55090, -69106, -80902, -90097, -96396, -99597, -99597, -96396, -90097, -80902, -69106, -55090, -39303, -22252, -4486, 13423, 30902, 47387, 62349, 75307, 85845, 93623, 98393>>,
 <<100000, 98481, 93969, 86603, 76604, 64279, 50000, 34202, 17365, 0, -17365, -34202, -50000, -64279, -76604, -86603, -93969, -98481, -100000, -98481, -93969, -86603, -76604, -64279, -50000, -34202, -17365, 0, 17365, 34202, 50000, 64279, 76604, 86603, 93969, 98481>>,
 <<100000, 98562, 94288, 87301, 77804, 66067, 52431, 37286, 21068, 4244, -12702, -29282, -45020, -59463, -72196, -82851, -91123, -96773, -99640, -99640, -96773, -91123, -82851, -72196, -59463, -45020, -29282, -12702, 4244, 21068, 37286, 52431, 66067, 77804, 87301, 94288, 98562>>,
 <<100000, 98636, 94582, 87947, 78914, 67728, 54695, 40170, 24549, 8258, -8258, -24549, -40170, -54695, -67728, -78914, -87947, -94582, -98636, -100000, -98636, -94582, -87947, -78914, -67728, -54695, -40170, -24549, -8258, 8258, 24549, 40170, 54695, 67728, 78914, 87947, 94582, 98636>>,
 <<100000, 98705, 94854, 88546, 79944, 69272, 56806, 42869, 27822, 12054, -4027, -20003, -35460, -50000, -63245, -74851, -84519, -91998, -97094, -99676, -99676, -97094, -91998, -84519, -74851, -63245, -50000, -35460, -20003, -4027, 12054, 27822, 42869, 56806, 69272, 79944, 88546, 94854, 98705>>,
 <<100000, 98769, 95106, 89101, 80902, 70711, 58779, 45399, 30902, 15643, 0, -15643, -30902, -45399, -58779, -70711, -80902, -89101, -95106, -98769, -100000, -98769, -95106, -89101, -80902, -70711, -58779, -45399, -30902, -15643, 0, 15643, 30902, 45399, 58779, 70711, 80902, 89101, 95106, 98769>>,
 <<100000, 98828, 95340, 89617, 81793, 72052, 60623, 47772, 33802, 19039, 3830, -11468, -26498, -40907, -54357, -66533, -77149, -85957, -92750, -97370, -99707, -99707, -97370, -92750, -85957, -77149, -66533, -54357, -40907, -26498, -11468, 3830, 19039, 33802, 47772, 60623, 72052, 81793, 89617, 95340, 98828>>,
 <<100000, 98883, 95557, 90097, 82624, 73305, 62349, 50000, 36534, 22252, 7473, -7473, -22252, -36534, -50000, -62349, -73305, -82624, -90097, -95557, -98883, -100000, -98883, -95557, -90097, -82624, -73305, -62349, -50000, -36534, -22252, -7473, 7473, 22252, 36534, 50000, 62349, 73305, 82624, 90097, 95557, 98883>>,
 <<100000, 98934, 95760, 90545, 83400, 74477, 63967, 52094, 39110, 25293, 10937, -3652, -18164, -32288, -45724, -58186, -69407, -79150, -87205, -93402, -97608, -99733, -99733, -97608, -93402, -87205, -79150, -69407, -58186, -45724, -32288, -18164, -3652, 10937, 25293, 39110, 52094, 63967, 74477, 83400, 90545, 95760, 98934>>,
 <<100000, 98982, 95949, 90963, 84125, 75575, 65486, 54064, 41542, 28173, 14231, 0, -14231, -28173, -41542, -54064, -65486, -75575, -84125, -90963, -95949, -98982, -100000, -98982, -95949, -90963, -84125, -75575, -65486, -54064, -41542, -28173, -14231, 0, 14231, 28173, 41542, 54064, 65486, 75575, 84125, 90963, 95949, 98982>>,
 <<100000, 99027, 96126, 91355, 84805, 76604, 66913, 55919, 43837, 30902, 17365, 3490, -10453, -24192, -37461, -50000, -61566, -71934, -80902, -88295, -93969, -97815, -99756, -99756, -97815, -93969, -88295, -80902, -71934, -61566, -50000, -37461, -24192, -10453, 3490, 17365, 30902, 43837, 55919, 66913, 76604, 84805, 91355, 96126, 99027>>,
 <<100000, 99069, 96292, 91721, 85442, 77571, 68255, 57668, 46007, 33488, 20346, 6824, -6824, -20346, -33488, -46007, -57668, -68255, -77571, -85442, -91721, -96292, -99069, -100000, -99069, -96292, -91721, -85442, -77571, -68255, -57668, -46007, -33488, -20346, -6824, 6824, 20346, 33488, 46007, 57668, 68255, 77571, 85442, 91721, 96292, 99069>>,
 <<100000, 99108, 96447, 92065, 86040, 78480, 69519, 59318, 48058, 35941, 23182, 10010, -3341, -16633, -29628, -42093, -53808, -64563, -74165, -82444, -89252, -94467, -97996, -99777, -99777, -97996, -94467, -89252, -82444, -74165, -64563, -53808, -42093, -29628, -16633, -3341, 10010, 23182, 35941, 48058, 59318, 69519, 78480, 86040, 92065, 96447, 99108>>,
 <<100000, 99144, 96593, 92388, 86603, 79335, 70711, 60876, 50000, 38268, 25882, 13053, 0, -13053, -25882, -38268, -50000, -60876, -70711, -79335, -86603, -92388, -96593, -99144, -100000, -99144, -96593, -92388, -86603, -79335, -70711, -60876, -50000, -38268, -25882, -13053, 0, 13053, 25882, 38268, 50000, 60876, 70711, 79335, 86603, 92388, 96593, 99144>>,
 <<>>,
 <<100000, 99211, 96858, 92978, 87631, 80902, 72897, 63742, 53583, 42578, 30902, 18738, 6279, -6279, -18738, -30902, -42578, -53583, -63742, -72897, -80902, -87631, -92978, -96858, -99211, -100000, -99211, -96858, -92978, -87631, -80902, -72897, -63742, -53583, -42578, -30902, -18738, -6279, 6279, 18738, 30902, 42578, 53583, 63742, 72897, 80902, 87631, 92978, 96858, 99211>>,
 <<>>,
 <<100000, 99271, 97094, 93502, 88546, 82298, 74851, 66312, 56806, 46472, 35460, 23932, 12054, 0, -12054, -23932, -35460, -46472, -56806, -66312, -74851, -82298, -88546, -93502, -97094, -99271, -100000, -99271, -97094, -93502, -88546, -82298, -74851, -66312, -56806, -46472, -35460, -23932, -12054, 0, 12054, 23932, 35460, 46472, 56806, 66312, 74851, 82298, 88546, 93502, 97094, 99271>>,
 <<>>,
 <<100000, 99324, 97304, 93969, 89363, 83549, 76604, 68624, 59716, 50000, 39608, 28680, 17365, 5814, -5814, -17365, -28680, -39608, -50000, -59716, -68624, -76604, -83549, -89363, -93969, -97304, -99324, -100000, -99324, -97304, -93969, -89363, -83549, -76604, -68624, -59716, -50000, -39608, -28680, -17365, -5814, 5814, 17365, 28680, 39608, 50000, 59716, 68624, 76604, 83549, 89363, 93969, 97304, 99324>>,
 <<100000, 99348, 97401, 94184, 89740, 84125, 77414, 69694, 61065, 51640, 41542, 30902, 19859, 8558, -2856, -14231, -25422, -36281, -46667, -56444, -65486, -73674, -80902, -87075, -92112, -95949, -98535, -99837, -99837, -98535, -95949, -92112, -87075, -80902, -73674, -65486, -56444, -46667, -36281, -25422, -14231, -2856, 8558, 19859, 30902, 41542, 51640, 61065, 69694, 77414, 84125, 89740, 94184, 97401, 99348>>,
 <<100000, 99371, 97493, 94388, 90097, 84672, 78183, 70711, 62349, 53203, 43388, 33028, 22252, 11196, 0, -11196, -22252, -33028, -43388, -53203, -62349, -70711, -78183, -84672, -90097, -94388, -97493, -99371, -100000, -99371, -97493, -94388, -90097, -84672, -78183, -70711, -62349, -53203, -43388, -33028, -22252, -11196, 0, 11196, 22252, 33028, 43388, 53203, 62349, 70711, 78183, 84672, 90097, 94388, 97493, 99371>>,
 <<>>,
 <<>>,
 <<>>,
 <<100000, 99452, 97815, 95106, 91355, 86603, 80902, 74314, 66913, 58779, 50000, 40674, 30902, 20791, 10453, 0, -10453, -20791, -30902, -40674, -50000, -58779, -66913, -74314, -80902, -86603, -91355, -95106, -97815, -99452, -100000, -99452, -97815, -95106, -91355, -86603, -80902, -74314, -66913, -58779, -50000, -40674, -30902, -20791, -10453, 0, 10453, 20791, 30902, 40674, 50000, 58779, 66913, 74314, 80902, 86603, 91355, 95106, 97815, 99452>>,
 <<>>,
 <<>>,
 <<100000, 99503, 98017, 95557, 92148, 87822, 82624, 76604, 69824, 62349, 54255, 45621, 36534, 27084, 17365, 7473, -2493, -12434, -22252, -31849, -41129, -50000, -58374, -66169, -73305, -79713, -85329, -90097, -93969, -96908, -98883, -99876, -99876, -98883, -96908, -93969, -90097, -85329, -79713, -73305, -66169, -58374, -50000, -41129, -31849, -22252, -12434, -2493, 7473, 17365, 27084, 36534, 45621, 54255, 62349, 69824, 76604, 82624, 87822, 92148, 95557, 98017, 99503>>,
 <<100000, 99518, 98079, 95694, 92388, 88192, 83147, 77301, 70711, 63439, 55557, 47140, 38268, 29028, 19509, 9802, 0, -9802, -19509, -29028, -38268, -47140, -55557, -63439, -70711, -77301, -83147, -88192, -92388, -95694, -98079, -99518, -100000, -99518, -98079, -95694, -92388, -88192, -83147, -77301, -70711, -63439, -55557, -47140, -38268, -29028, -19509, -9802, 0, 9802, 19509, 29028, 38268, 47140, 55557, 63439, 70711, 77301, 83147, 88192, 92388, 95694, 98079, 99518>>,
 <<100000, 99533, 98137, 95825, 92617, 88546, 83647, 77967, 71560, 64484, 56806, 48598, 39936, 30902, 21578, 12054, 2416, -7243, -16836, -26271, -35460, -44319, -52764, -60716, -68102, -74851, -80902, -86197, -90687, -94331, -97094, -98951, -99883, -99883, -98951, -97094, -94331, -90687, -86197, -80902, -74851, -68102, -60716, -52764, -44319, -35460, -26271, -16836, -7243, 2416, 12054, 21578, 30902, 39936, 48598, 56806, 64484, 71560, 77967, 83647, 88546, 92617, 95825, 98137, 99533>>,
 <<100000, 99547, 98193, 95949, 92837, 88884, 84125, 78605, 72373, 65486, 58006, 50000, 41542, 32707, 23576, 14231, 4758, -4758, -14231, -23576, -32707, -41542, -50000, -58006, -65486, -72373, -78605, -84125, -88884, -92837, -95949, -98193, -99547, -100000, -99547, -98193, -95949, -92837, -88884, -84125, -78605, -72373, -65486, -58006, -50000, -41542, -32707, -23576, -14231, -4758, 4758, 14231, 23576, 32707, 41542, 50000, 58006, 65486, 72373, 78605, 84125, 88884, 92837, 95949, 98193, 99547>>,
 <<>>,
 <<>>,
 <<>>,
 <<100000, 99597, 98393, 96396, 93623, 90097, 85845, 80902, 75307, 69106, 62349, 55090, 47387, 39303, 30902, 22252, 13423, 4486, -4486, -13423, -22252, -30902, -39303, -47387, -55090, -62349, -69106, -75307, -80902, -85845, -90097, -93623, -96396, -98393, -99597, -100000, -99597, -98393, -96396, -93623, -90097, -85845, -80902, -75307, -69106, -62349, -55090, -47387, -39303, -30902, -22252, -13423, -4486, 4486, 13423, 22252, 30902, 39303, 47387, 55090, 62349, 69106, 75307, 80902, 85845, 90097, 93623, 96396, 98393, 99597>>,
 <<>>,
 <<100000, 99619, 98481, 96593, 93969, 90631, 86603, 81915, 76604, 70711, 64279, 57358, 50000, 42262, 34202, 25882, 17365, 8716, 0, -8716, -17365, -25882, -34202, -42262, -50000, -57358, -64279, -70711, -76604, -81915, -86603, -90631, -93969, -96593, -98481, -99619, -100000, -99619, -98481, -96593, -93969, -90631, -86603, -81915, -76604, -70711, -64279, -57358, -50000, -42262, -34202, -25882, -17365, -8716, 0, 8716, 17365, 25882, 34202, 42262, 50000, 57358, 64279, 70711, 76604, 81915, 86603, 90631, 93969, 96593, 98481, 99619>>,
 <<>>,
 <<>>,
 <<100000, 99649, 98600, 96858, 94438, 91355, 87631, 83292, 78369, 72897, 66913, 60460, 53583, 46330, 38752, 30902, 22835, 14608, 6279, -2094, -10453, -18738, -26892, -34857, -42578, -50000, -57071, -63742, -69966, -75700, -80902, -85536, -89571, -92978, -95732, -97815, -99211, -99912, -99912, -99211, -97815, -95732, -92978, -89571, -85536, -80902, -75700, -69966, -63742, -57071, -50000, -42578, -34857, -26892, -18738, -10453, -2094, 6279, 14608, 22835, 30902, 38752, 46330, 53583, 60460, 66913, 72897, 78369, 83292, 87631, 91355, 94438, 96858, 98600, 99649>>,
 <<>>,
 <<100000, 99667, 98671, 97019, 94720, 91792, 88252, 84125, 79439, 74223, 68514, 62349, 55769, 48818, 41542, 33989, 26210, 18257, 10182, 2040, -6116, -14231, -22252, -30125, -37797, -45217, -52337, -59108, -65486, -71428, -76895, -81850, -86261, -90097, -93334, -95949, -97926, -99252, -99917, -99917, -99252, -97926, -95949, -93334, -90097, -86261, -81850, -76895, -71428, -65486, -59108, -52337, -45217, -37797, -30125, -22252, -14231, -6116, 2040, 10182, 18257, 26210, 33989, 41542, 48818, 55769, 62349, 68514, 74223, 79439, 84125, 88252, 91792, 94720, 97019, 98671, 99667>>,
 <<>>,
 <<>>,
 <<100000, 99692, 98769, 97237, 95106, 92388, 89101, 85264, 80902, 76041, 70711, 64945, 58779, 52250, 45399, 38268, 30902, 23345, 15643, 7846, 0, -7846, -15643, -23345, -30902, -38268, -45399, -52250, -58779, -64945, -70711, -76041, -80902, -85264, -89101, -92388, -95106, -97237, -98769, -99692, -100000, -99692, -98769, -97237, -95106, -92388, -89101, -85264, -80902, -76041, -70711, -64945, -58779, -52250, -45399, -38268, -30902, -23345, -15643, -7846, 0, 7846, 15643, 23345, 30902, 38268, 45399, 52250, 58779, 64945, 70711, 76041, 80902, 85264, 89101, 92388, 95106, 97237, 98769, 99692>>,
 <<>>,
 <<>>,
 <<>>,
 <<100000, 99720, 98883, 97493, 95557, 93087, 90097, 86603, 82624, 78183, 73305, 68017, 62349, 56332, 50000, 43388, 36534, 29476, 22252, 14904, 7473, 0, -7473, -14904, -22252, -29476, -36534, -43388, -50000, -56332, -62349, -68017, -73305, -78183, -82624, -86603, -90097, -93087, -95557, -97493, -98883, -99720, -100000, -99720, -98883, -97493, -95557, -93087, -90097, -86603, -82624, -78183, -73305, -68017, -62349, -56332, -50000, -43388, -36534, -29476, -22252, -14904, -7473, 0, 7473, 14904, 22252, 29476, 36534, 43388, 50000, 56332, 62349, 68017, 73305, 78183, 82624, 86603, 90097, 93087, 95557, 97493, 98883, 99720>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<100000, 99756, 99027, 97815, 96126, 93969, 91355, 88295, 84805, 80902, 76604, 71934, 66913, 61566, 55919, 50000, 43837, 37461, 30902, 24192, 17365, 10453, 3490, -3490, -10453, -17365, -24192, -30902, -37461, -43837, -50000, -55919, -61566, -66913, -71934, -76604, -80902, -84805, -88295, -91355, -93969, -96126, -97815, -99027, -99756, -100000, -99756, -99027, -97815, -96126, -93969, -91355, -88295, -84805, -80902, -76604, -71934, -66913, -61566, -55919, -50000, -43837, -37461, -30902, -24192, -17365, -10453, -3490, 3490, 10453, 17365, 24192, 30902, 37461, 43837, 50000, 55919, 61566, 66913, 71934, 76604, 80902, 84805, 88295, 91355, 93969, 96126, 97815, 99027, 99756>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<100000, 99786, 99144, 98079, 96593, 94693, 92388, 89687, 86603, 83147, 79335, 75184, 70711, 65935, 60876, 55557, 50000, 44229, 38268, 32144, 25882, 19509, 13053, 6540, 0, -6540, -13053, -19509, -25882, -32144, -38268, -44229, -50000, -55557, -60876, -65935, -70711, -75184, -79335, -83147, -86603, -89687, -92388, -94693, -96593, -98079, -99144, -99786, -100000, -99786, -99144, -98079, -96593, -94693, -92388, -89687, -86603, -83147, -79335, -75184, -70711, -65935, -60876, -55557, -50000, -44229, -38268, -32144, -25882, -19509, -13053, -6540, 0, 6540, 13053, 19509, 25882, 32144, 38268, 44229, 50000, 55557, 60876, 65935, 70711, 75184, 79335, 83147, 86603, 89687, 92388, 94693, 96593, 98079, 99144, 99786>>,
 <<>>,
 <<>>,
 <<100000, 99799, 99195, 98193, 96795, 95007, 92837, 90293, 87385, 84125, 80527, 76604, 72373, 67851, 63055, 58006, 52723, 47227, 41542, 35689, 29692, 23576, 17365, 11084, 4758, -1587, -7925, -14231, -20481, -26647, -32707, -38635, -44407, -50000, -55392, -60561, -65486, -70147, -74526, -78605, -82368, -85798, -88884, -91611, -93969, -95949, -97543, -98744, -99547, -99950, -99950, -99547, -98744, -97543, -95949, -93969, -91611, -88884, -85798, -82368, -78605, -74526, -70147, -65486, -60561, -55392, -50000, -44407, -38635, -32707, -26647, -20481, -14231, -7925, -1587, 4758, 11084, 17365, 23576, 29692, 35689, 41542, 47227, 52723, 58006, 63055, 67851, 72373, 76604, 80527, 84125, 87385, 90293, 92837, 95007, 96795, 98193, 99195, 99799>>,
 <<100000, 99803, 99211, 98229, 96858, 95106, 92978, 90483, 87631, 84433, 80902, 77051, 72897, 68455, 63742, 58779, 53583, 48175, 42578, 36812, 30902, 24869, 18738, 12533, 6279, 0, -6279, -12533, -18738, -24869, -30902, -36812, -42578, -48175, -53583, -58779, -63742, -68455, -72897, -77051, -80902, -84433, -87631, -90483, -92978, -95106, -96858, -98229, -99211, -99803, -100000, -99803, -99211, -98229, -96858, -95106, -92978, -90483, -87631, -84433, -80902, -77051, -72897, -68455, -63742, -58779, -53583, -48175, -42578, -36812, -30902, -24869, -18738, -12533, -6279, 0, 6279, 12533, 18738, 24869, 30902, 36812, 42578, 48175, 53583, 58779, 63742, 68455, 72897, 77051, 80902, 84433, 87631, 90483, 92978, 95106, 96858, 98229, 99211, 99803>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<100000, 99821, 99285, 98393, 97149, 95557, 93623, 91355, 88759, 85845, 82624, 79107, 75307, 71238, 66913, 62349, 57562, 52568, 47387, 42036, 36534, 30902, 25159, 19326, 13423, 7473, 1496, -4486, -10453, -16382, -22252, -28043, -33733, -39303, -44731, -50000, -55090, -59982, -64660, -69106, -73305, -77242, -80902, -84272, -87341, -90097, -92530, -94633, -96396, -97815, -98883, -99597, -99955, -99955, -99597, -98883, -97815, -96396, -94633, -92530, -90097, -87341, -84272, -80902, -77242, -73305, -69106, -64660, -59982, -55090, -50000, -44731, -39303, -33733, -28043, -22252, -16382, -10453, -4486, 1496, 7473, 13423, 19326, 25159, 30902, 36534, 42036, 47387, 52568, 57562, 62349, 66913, 71238, 75307, 79107, 82624, 85845, 88759, 91355, 93623, 95557, 97149, 98393, 99285, 99821>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<100000, 99837, 99348, 98535, 97401, 95949, 94184, 92112, 89740, 87075, 84125, 80902, 77414, 73674, 69694, 65486, 61065, 56444, 51640, 46667, 41542, 36281, 30902, 25422, 19859, 14231, 8558, 2856, -2856, -8558, -14231, -19859, -25422, -30902, -36281, -41542, -46667, -51640, -56444, -61065, -65486, -69694, -73674, -77414, -80902, -84125, -87075, -89740, -92112, -94184, -95949, -97401, -98535, -99348, -99837, -100000, -99837, -99348, -98535, -97401, -95949, -94184, -92112, -89740, -87075, -84125, -80902, -77414, -73674, -69694, -65486, -61065, -56444, -51640, -46667, -41542, -36281, -30902, -25422, -19859, -14231, -8558, -2856, 2856, 8558, 14231, 19859, 25422, 30902, 36281, 41542, 46667, 51640, 56444, 61065, 65486, 69694, 73674, 77414, 80902, 84125, 87075, 89740, 92112, 94184, 95949, 97401, 98535, 99348, 99837>>,
 <<>>,
 <<100000, 99843, 99371, 98587, 97493, 96092, 94388, 92388, 90097, 87522, 84672, 81556, 78183, 74564, 70711, 66635, 62349, 57867, 53203, 48372, 43388, 38268, 33028, 27684, 22252, 16751, 11196, 5607, 0, -5607, -11196, -16751, -22252, -27684, -33028, -38268, -43388, -48372, -53203, -57867, -62349, -66635, -70711, -74564, -78183, -81556, -84672, -87522, -90097, -92388, -94388, -96092, -97493, -98587, -99371, -99843, -100000, -99843, -99371, -98587, -97493, -96092, -94388, -92388, -90097, -87522, -84672, -81556, -78183, -74564, -70711, -66635, -62349, -57867, -53203, -48372, -43388, -38268, -33028, -27684, -22252, -16751, -11196, -5607, 0, 5607, 11196, 16751, 22252, 27684, 33028, 38268, 43388, 48372, 53203, 57867, 62349, 66635, 70711, 74564, 78183, 81556, 84672, 87522, 90097, 92388, 94388, 96092, 97493, 98587, 99371, 99843>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<100000, 99863, 99452, 98769, 97815, 96593, 95106, 93358, 91355, 89101, 86603, 83867, 80902, 77715, 74314, 70711, 66913, 62932, 58779, 54464, 50000, 45399, 40674, 35837, 30902, 25882, 20791, 15643, 10453, 5234, 0, -5234, -10453, -15643, -20791, -25882, -30902, -35837, -40674, -45399, -50000, -54464, -58779, -62932, -66913, -70711, -74314, -77715, -80902, -83867, -86603, -89101, -91355, -93358, -95106, -96593, -97815, -98769, -99452, -99863, -100000, -99863, -99452, -98769, -97815, -96593, -95106, -93358, -91355, -89101, -86603, -83867, -80902, -77715, -74314, -70711, -66913, -62932, -58779, -54464, -50000, -45399, -40674, -35837, -30902, -25882, -20791, -15643, -10453, -5234, 0, 5234, 10453, 15643, 20791, 25882, 30902, 35837, 40674, 45399, 50000, 54464, 58779, 62932, 66913, 70711, 74314, 77715, 80902, 83867, 86603, 89101, 91355, 93358, 95106, 96593, 97815, 98769, 99452, 99863>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<100000, 99876, 99503, 98883, 98017, 96908, 95557, 93969, 92148, 90097, 87822, 85329, 82624, 79713, 76604, 73305, 69824, 66169, 62349, 58374, 54255, 50000, 45621, 41129, 36534, 31849, 27084, 22252, 17365, 12434, 7473, 2493, -2493, -7473, -12434, -17365, -22252, -27084, -31849, -36534, -41129, -45621, -50000, -54255, -58374, -62349, -66169, -69824, -73305, -76604, -79713, -82624, -85329, -87822, -90097, -92148, -93969, -95557, -96908, -98017, -98883, -99503, -99876, -100000, -99876, -99503, -98883, -98017, -96908, -95557, -93969, -92148, -90097, -87822, -85329, -82624, -79713, -76604, -73305, -69824, -66169, -62349, -58374, -54255, -50000, -45621, -41129, -36534, -31849, -27084, -22252, -17365, -12434, -7473, -2493, 2493, 7473, 12434, 17365, 22252, 27084, 31849, 36534, 41129, 45621, 50000, 54255, 58374, 62349, 66169, 69824, 73305, 76604, 79713, 82624, 85329, 87822, 90097, 92148, 93969, 95557, 96908, 98017, 98883, 99503, 99876>>,
 <<>>,
 <<100000, 99880, 99518, 98918, 98079, 97003, 95694, 94154, 92388, 90399, 88192, 85773, 83147, 80321, 77301, 74095, 70711, 67156, 63439, 59570, 55557, 51410, 47140, 42756, 38268, 33689, 29028, 24298, 19509, 14673, 9802, 4907, 0, -4907, -9802, -14673, -19509, -24298, -29028, -33689, -38268, -42756, -47140, -51410, -55557, -59570, -63439, -67156, -70711, -74095, -77301, -80321, -83147, -85773, -88192, -90399, -92388, -94154, -95694, -97003, -98079, -98918, -99518, -99880, -100000, -99880, -99518, -98918, -98079, -97003, -95694, -94154, -92388, -90399, -88192, -85773, -83147, -80321, -77301, -74095, -70711, -67156, -63439, -59570, -55557, -51410, -47140, -42756, -38268, -33689, -29028, -24298, -19509, -14673, -9802, -4907, 0, 4907, 9802, 14673, 19509, 24298, 29028, 33689, 38268, 42756, 47140, 51410, 55557, 59570, 63439, 67156, 70711, 74095, 77301, 80321, 83147, 85773, 88192, 90399, 92388, 94154, 95694, 97003, 98079, 98918, 99518, 99880>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<100000, 99899, 99597, 99095, 98393, 97493, 96396, 95106, 93623, 91953, 90097, 88060, 85845, 83457, 80902, 78183, 75307, 72279, 69106, 65794, 62349, 58779, 55090, 51290, 47387, 43388, 39303, 35137, 30902, 26604, 22252, 17856, 13423, 8964, 4486, 0, -4486, -8964, -13423, -17856, -22252, -26604, -30902, -35137, -39303, -43388, -47387, -51290, -55090, -58779, -62349, -65794, -69106, -72279, -75307, -78183, -80902, -83457, -85845, -88060, -90097, -91953, -93623, -95106, -96396, -97493, -98393, -99095, -99597, -99899, -100000, -99899, -99597, -99095, -98393, -97493, -96396, -95106, -93623, -91953, -90097, -88060, -85845, -83457, -80902, -78183, -75307, -72279, -69106, -65794, -62349, -58779, -55090, -51290, -47387, -43388, -39303, -35137, -30902, -26604, -22252, -17856, -13423, -8964, -4486, 0, 4486, 8964, 13423, 17856, 22252, 26604, 30902, 35137, 39303, 43388, 47387, 51290, 55090, 58779, 62349, 65794, 69106, 72279, 75307, 78183, 80902, 83457, 85845, 88060, 90097, 91953, 93623, 95106, 96396, 97493, 98393, 99095, 99597, 99899>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<100000, 99930, 99720, 99371, 98883, 98257, 97493, 96593, 95557, 94388, 93087, 91656, 90097, 88412, 86603, 84672, 82624, 80460, 78183, 75797, 73305, 70711, 68017, 65229, 62349, 59382, 56332, 53203, 50000, 46727, 43388, 39989, 36534, 33028, 29476, 25882, 22252, 18591, 14904, 11196, 7473, 3739, 0, -3739, -7473, -11196, -14904, -18591, -22252, -25882, -29476, -33028, -36534, -39989, -43388, -46727, -50000, -53203, -56332, -59382, -62349, -65229, -68017, -70711, -73305, -75797, -78183, -80460, -82624, -84672, -86603, -88412, -90097, -91656, -93087, -94388, -95557, -96593, -97493, -98257, -98883, -99371, -99720, -99930, -100000, -99930, -99720, -99371, -98883, -98257, -97493, -96593, -95557, -94388, -93087, -91656, -90097, -88412, -86603, -84672, -82624, -80460, -78183, -75797, -73305, -70711, -68017, -65229, -62349, -59382, -56332, -53203, -50000, -46727, -43388, -39989, -36534, -33028, -29476, -25882, -22252, -18591, -14904, -11196, -7473, -3739, 0, 3739, 7473, 11196, 14904, 18591, 22252, 25882, 29476, 33028, 36534, 39989, 43388, 46727, 50000, 53203, 56332, 59382, 62349, 65229, 68017, 70711, 73305, 75797, 78183, 80460, 82624, 84672, 86603, 88412, 90097, 91656, 93087, 94388, 95557, 96593, 97493, 98257, 98883, 99371, 99720, 99930>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<100000, 99955, 99821, 99597, 99285, 98883, 98393, 97815, 97149, 96396, 95557, 94633, 93623, 92530, 91355, 90097, 88759, 87341, 85845, 84272, 82624, 80902, 79107, 77242, 75307, 73305, 71238, 69106, 66913, 64660, 62349, 59982, 57562, 55090, 52568, 50000, 47387, 44731, 42036, 39303, 36534, 33733, 30902, 28043, 25159, 22252, 19326, 16382, 13423, 10453, 7473, 4486, 1496, -1496, -4486, -7473, -10453, -13423, -16382, -19326, -22252, -25159, -28043, -30902, -33733, -36534, -39303, -42036, -44731, -47387, -50000, -52568, -55090, -57562, -59982, -62349, -64660, -66913, -69106, -71238, -73305, -75307, -77242, -79107, -80902, -82624, -84272, -85845, -87341, -88759, -90097, -91355, -92530, -93623, -94633, -95557, -96396, -97149, -97815, -98393, -98883, -99285, -99597, -99821, -99955, -100000, -99955, -99821, -99597, -99285, -98883, -98393, -97815, -97149, -96396, -95557, -94633, -93623, -92530, -91355, -90097, -88759, -87341, -85845, -84272, -82624, -80902, -79107, -77242, -75307, -73305, -71238, -69106, -66913, -64660, -62349, -59982, -57562, -55090, -52568, -50000, -47387, -44731, -42036, -39303, -36534, -33733, -30902, -28043, -25159, -22252, -19326, -16382, -13423, -10453, -7473, -4486, -1496, 1496, 4486, 7473, 10453, 13423, 16382, 19326, 22252, 25159, 28043, 30902, 33733, 36534, 39303, 42036, 44731, 47387, 50000, 52568, 55090, 57562, 59982, 62349, 64660, 66913, 69106, 71238, 73305, 75307, 77242, 79107, 80902, 82624, 84272, 85845, 87341, 88759, 90097, 91355, 92530, 93623, 94633, 95557, 96396, 97149, 97815, 98393, 98883, 99285, 99597, 99821, 99955>>
>>
SinTab == <<
 <<0>>,
 <<0, 0>>,
 <<0, 86603, -86603>>,
 <<0, 100000, 0, -100000>>,
 <<0, 95106, 58779, -58779, -95106>>,
 <<0, 86603, 86603, 0, -86603, -86603>>,
 <<0, 78183, 97493, 43388, -43388, -97493, -78183>>,
 <<0, 70711, 100000, 70711, 0, -70711, -100000, -70711>>,
 <<0, 64279, 98481, 86603, 34202, -34202, -86603, -98481, -64279>>,
 <<0, 58779, 95106, 95106, 58779, 0, -58779, -95106, -95106, -58779>>,
 <<0, 54064, 90963, 98982, 75575, 28173, -28173, -75575, -98982, -90963, -54064>>,
 <<0, 50000, 86603, 100000, 86603, 50000, 0, -50000, -86603, -100000, -86603, -50000>>,
 <<0, 46472, 82298, 99271, 93502, 66312, 23932, -23932, -66312, -93502, -99271, -82298, -46472>>,
 <<0, 43388, 78183, 97493, 97493, 78183, 43388, 0, -43388, -78183, -97493, -97493, -78183, -43388>>,
 <<0, 40674, 74314, 95106, 99452, 86603, 58779, 20791, -20791, -58779, -86603, -99452, -95106, -74314, -40674>>,
 <<0, 38268, 70711, 92388, 100000, 92388, 70711, 38268, 0, -38268, -70711, -92388, -100000, -92388, -70711, -38268>>,
 <<0, 36124, 67370, 89516, 99573, 96183, 79802, 52643, 18375, -18375, -52643, -79802, -96183, -99573, -89516, -67370, -36124>>,
 <<0, 34202, 64279, 86603, 98481, 98481, 86603, 64279, 34202, 0, -34202, -64279, -86603, -98481, -98481, -86603, -64279, -34202>>,
 <<0, 32470, 61421, 83717, 96940, 99658, 91577, 73572, 47595, 16459, -16459, -47595, -73572, -91577, -99658, -96940, -83717, -61421, -32470>>,
 <<0, 30902, 58779, 80902, 95106, 100000, 95106, 80902, 58779, 30902, 0, -30902, -58779, -80902, -95106, -100000, -95106, -80902, -58779, -30902>>,
 <<0, 29476, 56332, 78183, 93087, 99720, 97493, 86603, 68017, 43388, 14904, -14904, -43388, -68017, -86603, -97493, -99720, -93087, -78183, -56332, -29476>>,
 <<0, 28173, 54064, 75575, 90963, 98982, 98982, 90963, 75575, 54064, 28173, 0, -28173, -54064, -75575, -90963, -98982, -98982, -90963, -75575, -54064, -28173>>,
 <<0, 26980, 51958, 73084, 88789, 97908, 99767, 94226, 81697, 63109, 39840, 13617, -13617, -39840, -63109, -81697, -94226, -99767, -97908, -88789, -73084, -51958, -26980>>,
 <<0, 25882, 50000, 70711, 86603, 96593, 100000, 96593, 86603, 70711, 50000, 25882, 0, -25882, -50000, -70711, -86603, -96593, -100000, -96593, -86603, -70711, -50000, -25882>>,
 <<0, 24869, 48175, 68455, 84433, 95106, 99803, 98229, 90483, 77051, 58779, 36812, 12533, -12533, -36812, -58779, -77051, -90483, -98229, -99803, -95106, -84433, -68455, -48175, -24869>>,
 <<0, 23932, 46472, 66312, 82298, 93502, 99271, 99271, 93502, 82298, 66312, 46472, 23932, 0, -23932, -46472, -66312, -82298, -93502, -99271, -99271, -93502, -82298, -66312, -46472, -23932>>,
 <<0, 23062, 44880, 64279, 80212, 91822, 98481, 99831, 95799, 86603, 72737, 54951, 34202, 11609, -11609, -34202, -54951, -72737, -86603, -95799, -99831, -98481, -91822, -80212, -64279, -44880, -23062>>,
 <<0, 22252, 43388, 62349, 78183, 90097, 97493, 100000, 97493, 90097, 78183, 62349, 43388, 22252, 0, -22252, -43388, -62349, -78183, -90097, -97493, -100000, -97493, -90097, -78183, -62349, -43388, -22252>>,
 <<0, 21497, 41989, 60517, 76216, 88351, 96355, 99853, 98683, 92898, 82769, 68770, 51555, 31930, 10812, -10812, -31930, -51555, -68770, -82769, -92898, -98683, -99853, -96355, -88351, -76216, -60517, -41989, -21497>>,
 <<0, 20791, 40674, 58779, 74314, 86603, 95106, 99452, 99452, 95106, 86603, 74314, 58779, 40674, 20791, 0, -20791, -40674, -58779, -74314, -86603, -95106, -99452, -99452, -95106, -86603, -74314, -58779, -40674, -20791>>,
 <<0, 20130, 39436, 57127, 72479, 84864, 93775, 98847, 99872, 96808, 89780, 79078, 65137, 48530, 29936, 10117, -10117, -29936, -48530, -65137, -79078, -89780, -96808, -99872, -98847, -93775, -84864, -72479, -57127, -39436, -20130>>,
 <<0, 19509, 38268, 55557, 70711, 83147, 92388, 98079, 100000, 98079, 92388, 83147, 70711, 55557, 38268, 19509, 0, -19509, -38268, -55557, -70711, -83147, -92388, -98079, -100000, -98079, -92388, -83147, -70711, -55557, -38268, -19509>>,
 <<0, 18925, 37166, 54064, 69008, 81458, 90963, 97181, 99887, 98982, 94500, 86603, 75575, 61816, 45823, 28173, 9506, -9506, -28173, -45823, -61816, -75575, -86603, -94500, -98982, -99887, -97181, -90963, -81458, -69008, -54064, -37166, -18925>>,
 <<0, 18375, 36124, 52643, 67370, 79802, 89516, 96183, 99573, 99573, 96183, 89516, 79802, 67370, 52643, 36124, 18375, 0, -18375, -36124, -52643, -67370, -79802, -89516, -96183, -99573, -99573, -96183, -89516, -79802, -67370, -52643, -36124, -18375>>,
 <<0, 17856, 35137, 51290, 65794, 78183, 88060, 95106, 99095, 99899, 97493, 91953, 83457, 72279, 58779, 43388, 26604, 8964, -8964, -26604, -43388, -58779, -72279, -83457, -91953, -97493, -99899, -99095, -95106, -88060, -78183, -65794, -51290, -35137, -17856>>,
 <<0, 17365, 34202, 50000, 64279, 76604, 86603, 93969, 98481, 100000, 98481, 93969, 86603, 76604, 64279, 50000, 34202, 17365, 0, -17365, -34202, -50000, -64279, -76604, -86603, -93969, -98481, -100000, -98481, -93969, -86603, -76604, -64279, -50000, -34202, -17365>>,
 <<0, 16900, 33314, 48769, 62822, 75067, 85153, 92789, 97756, 99910, 99190, 95617, 89293, 80400, 69194, 55997, 41190, 25198, 8481, -8481, -25198, -41190, -55997, -69194, -80400, -89293, -95617, -99190, -99910, -97756, -92789, -85153, -75067, -62822, -48769, -33314, -16900>>,
 <<0, 16459, 32470, 47595, 61421, 73572, 83717, 91577, 96940, 99658, 99658, 96940, 91577, 83717, 73572, 61421, 47595, 32470, 16459, 0, -16459, -32470, -47595, -61421, -73572, -83717, -91577, -96940, -99658, -99658, -96940, -91577, -83717, -73572, -61421, -47595, -32470, -16459>>,
 <<0, 16041, 31667, 46472, 60074, 72120, 82298, 90345, 96052, 99271, 99919, 97979, 93502, 86603, 77460, 66312, 53447, 39197, 23932, 8047, -8047, -23932, -39197, -53447, -66312, -77460, -86603, -93502, -97979, -99919, -99271, -96052, -90345, -82298, -72120, -60074, -46472, -31667, -16041>>,
 <<0, 15643, 30902, 45399, 58779, 70711, 80902, 89101, 95106, 98769, 100000, 98769, 95106, 89101, 80902, 70711, 58779, 45399, 30902, 15643, 0, -15643, -30902, -45399, -58779, -70711, -80902, -89101, -95106, -98769, -100000, -98769, -95106, -89101, -80902, -70711, -58779, -45399, -30902, -15643>>,
 <<0, 15265, 30172, 44372, 57532, 69343, 79529, 87851, 94114, 98171, 99927, 99340, 96425, 91250, 83937, 74655, 63624, 51102, 37382, 22785, 7655, -7655, -22785, -37382, -51102, -63624, -74655, -83937, -91250, -96425, -99340, -99927, -98171, -94114, -87851, -79529, -69343, -57532, -44372, -30172, -15265>>,
 <<0, 14904, 29476, 43388, 56332, 68017, 78183, 86603, 93087, 97493, 99720, 99720, 97493, 93087, 86603, 78183, 68017, 56332, 43388, 29476, 14904, 0, -14904, -29476, -43388, -56332, -68017, -78183, -86603, -93087, -97493, -99720, -99720, -97493, -93087, -86603, -78183, -68017, -56332, -43388, -29476, -14904>>,
 <<0, 14560, 28810, 42446, 55177, 66732, 76865, 85359, 92035, 96748, 99400, 99933, 98337, 94644, 88934, 81329, 71990, 61117, 48942, 35723, 21743, 7300, -7300, -21743, -35723, -48942, -61117, -71990, -81329, -88934, -94644, -98337, -99933, -99400, -96748, -92035, -85359, -76865, -66732, -55177, -42446, -28810, -14560>>,
 <<0, 14231, 28173, 41542, 54064, 65486, 75575, 84125, 90963, 95949, 98982, 100000, 98982, 95949, 90963, 84125, 75575, 65486, 54064, 41542, 28173, 14231, 0, -14231, -28173, -41542, -54064, -65486, -75575, -84125, -90963, -95949, -98982, -100000, -98982, -95949, -90963, -84125, -75575, -65486, -54064, -41542, -28173, -14231>>,
 <<0, 13917, 27564, 40674, 52992, 64279, 74314, 82904, 89879, 95106, 98481, 99939, 99452, 97030, 92718, 86603, 78801, 69466, 58779, 46947, 34202, 20791, 6976, -6976, -20791, -34202, -46947, -58779, -69466, -78801, -86603, -92718, -97030, -99452, -99939, -98481, -95106, -89879, -82904, -74314, -64279, -52992, -40674, -27564, -13917>>,
 <<0, 13617, 26980, 39840, 51958, 63109, 73084, 81697, 88789, 94226, 97908, 99767, 99767, 97908, 94226, 88789, 81697, 73084, 63109, 51958, 39840, 26980, 13617, 0, -13617, -26980, -39840, -51958, -63109, -73084, -81697, -88789, -94226, -97908, -99767, -99767, -97908, -94226, -88789, -81697, -73084, -63109, -51958, -39840, -26980, -13617>>,
 <<0, 13329, 26420, 39039, 50962, 61975, 71882, 80507, 87695, 93318, 97276, 99498, 99944, 98607, 95510, 90709, 84289, 76365, 67078, 56595, 45101, 32802, 19919, 6679, -6679, -19919, -32802, -45101, -56595, -67078, -76365, -84289, -90709, -95510, -98607, -99944, -99498, -97276, -93318, -87695, -80507, -71882, -61975, -50962, -39039, -26420, -13329>>,
 <<0, 13053, 25882, 38268, 50000, 60876, 70711, 79335, 86603, 92388, 96593, 99144, 100000, 99144, 96593, 92388, 86603, 79335, 70711, 60876, 50000, 38268, 25882, 13053, 0, -13053, -25882, -38268, -50000, -60876, -70711, -79335, -86603, -92388, -96593, -99144, -100000, -99144, -96593, -92388, -86603, -79335, -70711, -60876, -50000, -38268, -25882, -13053>>,
 <<>>,
 <<0, 12533, 24869, 36812, 48175, 58779, 68455, 77051, 84433, 90483, 95106, 98229, 99803, 99803, 98229, 95106, 90483, 84433, 77051, 68455, 58779, 48175, 36812, 24869, 12533, 0, -12533, -24869, -36812, -48175, -58779, -68455, -77051, -84433, -90483, -95106, -98229, -99803, -99803, -98229, -95106, -90483, -84433, -77051, -68455, -58779, -48175, -36812, -24869, -12533>>,
 <<>>,
 <<0, 12054, 23932, 35460, 46472, 56806, 66312, 74851, 82298, 88546, 93502, 97094, 99271, 100000, 99271, 97094, 93502, 88546, 82298, 74851, 66312, 56806, 46472, 35460, 23932, 12054, 0, -12054, -23932, -35460, -46472, -56806, -66312, -74851, -82298, -88546, -93502, -97094, -99271, -100000, -99271, -97094, -93502, -88546, -82298, -74851, -66312, -56806, -46472, -35460, -23932, -12054>>,
 <<>>,
 <<0, 11609, 23062, 34202, 44880, 54951, 64279, 72737, 80212, 86603, 91822, 95799, 98481, 99831, 99831, 98481, 95799, 91822, 86603, 80212, 72737, 64279, 54951, 44880, 34202, 23062, 11609, 0, -11609, -23062, -34202, -44880, -54951, -64279, -72737, -80212, -86603, -91822, -95799, -98481, -99831, -99831, -98481, -95799, -91822, -86603, -80212, -72737, -64279, -54951, -44880, -34202, -23062, -11609>>,
 <<0, 11399, 22650, 33605, 44122, 54064, 63301, 71713, 79190, 85635, 90963, 95106, 98008, 99633, 99959, 98982, 96715, 93186, 88443, 82547, 75575, 67617, 58779, 49173, 38927, 28173, 17052, 5709, -5709, -17052, -28173, -38927, -49173, -58779, -67617, -75575, -82547, -88443, -93186, -96715, -98982, -99959, -99633, -98008, -95106, -90963, -85635, -79190, -71713, -63301, -54064, -44122, -33605, -22650, -11399>>,
 <<0, 11196, 22252, 33028, 43388, 53203, 62349, 70711, 78183, 84672, 90097, 94388, 97493, 99371, 100000, 99371, 97493, 94388, 90097, 84672, 78183, 70711, 62349, 53203, 43388, 33028, 22252, 11196, 0, -11196, -22252, -33028, -43388, -53203, -62349, -70711, -78183, -84672, -90097, -94388, -97493, -99371, -100000, -99371, -97493, -94388, -90097, -84672, -78183, -70711, -62349, -53203, -43388, -33028, -22252, -11196>>,
 <<>>,
 <<>>,
 <<>>,
 <<0, 10453, 20791, 30902, 40674, 50000, 58779, 66913, 74314, 80902, 86603, 91355, 95106, 97815, 99452, 100000, 99452, 97815, 95106, 91355, 86603, 80902, 74314, 66913, 58779, 50000, 40674, 30902, 20791, 10453, 0, -10453, -20791, -30902, -40674, -50000, -58779, -66913, -74314, -80902, -86603, -91355, -95106, -97815, -99452, -100000, -99452, -97815, -95106, -91355, -86603, -80902, -74314, -66913, -58779, -50000, -40674, -30902, -20791, -10453>>,
 <<>>,
 <<>>,
 <<0, 9957, 19815, 29476, 38843, 47825, 56332, 64279, 71587, 78183, 84003, 88987, 93087, 96262, 98481, 99720, 99969, 99224, 97493, 94793, 91151, 86603, 81194, 74978, 68017, 60380, 52144, 43388, 34202, 24676, 14904, 4985, -4985, -14904, -24676, -34202, -43388, -52144, -60380, -68017, -74978, -81194, -86603, -91151, -94793, -97493, -99224, -99969, -99720, -98481, -96262, -93087, -88987, -84003, -78183, -71587, -64279, -56332, -47825, -38843, -29476, -19815, -9957>>,
 <<0, 9802, 19509, 29028, 38268, 47140, 55557, 63439, 70711, 77301, 83147, 88192, 92388, 95694, 98079, 99518, 100000, 99518, 98079, 95694, 92388, 88192, 83147, 77301, 70711, 63439, 55557, 47140, 38268, 29028, 19509, 9802, 0, -9802, -19509, -29028, -38268, -47140, -55557, -63439, -70711, -77301, -83147, -88192, -92388, -95694, -98079, -99518, -100000, -99518, -98079, -95694, -92388, -88192, -83147, -77301, -70711, -63439, -55557, -47140, -38268, -29028, -19509, -9802>>,
 <<0, 9651, 19213, 28595, 37709, 46472, 54801, 62619, 69851, 76432, 82298, 87397, 91679, 95106, 97644, 99271, 99971, 99737, 98573, 96488, 93502, 89643, 84947, 79458, 73227, 66312, 58779, 50696, 42140, 33191, 23932, 14449, 4831, -4831, -14449, -23932, -33191, -42140, -50696, -58779, -66312, -73227, -79458, -84947, -89643, -93502, -96488, -98573, -99737, -99971, -99271, -97644, -95106, -91679, -87397, -82298, -76432, -69851, -62619, -54801, -46472, -37709, -28595, -19213, -9651>>,
 <<0, 9506, 18925, 28173, 37166, 45823, 54064, 61816, 69008, 75575, 81458, 86603, 90963, 94500, 97181, 98982, 99887, 99887, 98982, 97181, 94500, 90963, 86603, 81458, 75575, 69008, 61816, 54064, 45823, 37166, 28173, 18925, 9506, 0, -9506, -18925, -28173, -37166, -45823, -54064, -61816, -69008, -75575, -81458, -86603, -90963, -94500, -97181, -98982, -99887, -99887, -98982, -97181, -94500, -90963, -86603, -81458, -75575, -69008, -61816, -54064, -45823, -37166, -28173, -18925, -9506>>,
 <<>>,
 <<>>,
 <<>>,
 <<0, 8964, 17856, 26604, 35137, 43388, 51290, 58779, 65794, 72279, 78183, 83457, 88060, 91953, 95106, 97493, 99095, 99899, 99899, 99095, 97493, 95106, 91953, 88060, 83457, 78183, 72279, 65794, 58779, 51290, 43388, 35137, 26604, 17856, 8964, 0, -8964, -17856, -26604, -35137, -43388, -51290, -58779, -65794, -72279, -78183, -83457, -88060, -91953, -95106, -97493, -99095, -99899, -99899, -99095, -97493, -95106, -91953, -88060, -83457, -78183, -72279, -65794, -58779, -51290, -43388, -35137, -26604, -17856, -8964>>,
 <<>>,
 <<0, 8716, 17365, 25882, 34202, 42262, 50000, 57358, 64279, 70711, 76604, 81915, 86603, 90631, 93969, 96593, 98481, 99619, 100000, 99619, 98481, 96593, 93969, 90631, 86603, 81915, 76604, 70711, 64279, 57358, 50000, 42262, 34202, 25882, 17365, 8716, 0, -8716, -17365, -25882, -34202, -42262, -50000, -57358, -64279, -70711, -76604, -81915, -86603, -90631, -93969, -96593, -98481, -99619, -100000, -99619, -98481, -96593, -93969, -90631, -86603, -81915, -76604, -70711, -64279, -57358, -50000, -42262, -34202, -25882, -17365, -8716>>,
 <<>>,
 <<>>,
 <<0, 8368, 16677, 24869, 32887, 40674, 48175, 55339, 62115, 68455, 74314, 79653, 84433, 88620, 92186, 95106, 97358, 98927, 99803, 99978, 99452, 98229, 96316, 93728, 90483, 86603, 82115, 77051, 71447, 65342, 58779, 51803, 44464, 36812, 28903, 20791, 12533, 4188, -4188, -12533, -20791, -28903, -36812, -44464, -51803, -58779, -65342, -71447, -77051, -82115, -86603, -90483, -93728, -96316, -98229, -99452, -99978, -99803, -98927, -97358, -95106, -92186, -88620, -84433, -79653, -74314, -68455, -62115, -55339, -48175, -40674, -32887, -24869, -16677, -8368>>,
 <<>>,
 <<0, 8151, 16248, 24236, 32063, 39677, 47027, 54064, 60741, 67014, 72841, 78183, 83005, 87275, 90963, 94047, 96504, 98319, 99480, 99979, 99813, 98982, 97493, 95355, 92582, 89193, 85211, 80661, 75575, 69986, 63931, 57450, 50588, 43388, 35900, 28173, 20259, 12209, 4079, -4079, -12209, -20259, -28173, -35900, -43388, -50588, -57450, -63931, -69986, -75575, -80661, -85211, -89193, -92582, -95355, -97493, -98982, -99813, -99979, -99480, -98319, -96504, -94047, -90963, -87275, -83005, -78183, -72841, -67014, -60741, -54064, -47027, -39677, -32063, -24236, -16248, -8151>>,
 <<>>,
 <<>>,
 <<0, 7846, 15643, 23345, 30902, 38268, 45399, 52250, 58779, 64945, 70711, 76041, 80902, 85264, 89101, 92388, 95106, 97237, 98769, 99692, 100000, 99692, 98769, 97237, 95106, 92388, 89101, 85264, 80902, 76041, 70711, 64945, 58779, 52250, 45399, 38268, 30902, 23345, 15643, 7846, 0, -7846, -15643, -23345, -30902, -38268, -45399, -52250, -58779, -64945, -70711, -76041, -80902, -85264, -89101, -92388, -95106, -97237, -98769, -99692, -100000, -99692, -98769, -97237, -95106, -92388, -89101, -85264, -80902, -76041, -70711, -64945, -58779, -52250, -45399, -38268, -30902, -23345, -15643, -7846>>,
 <<>>,
 <<>>,
 <<>>,
 <<0, 7473, 14904, 22252, 29476, 36534, 43388, 50000, 56332, 62349, 68017, 73305, 78183, 82624, 86603, 90097, 93087, 95557, 97493, 98883, 99720, 100000, 99720, 98883, 97493, 95557, 93087, 90097, 86603, 82624, 78183, 73305, 68017, 62349, 56332, 50000, 43388, 36534, 29476, 22252, 14904, 7473, 0, -7473, -14904, -22252, -29476, -36534, -43388, -50000, -56332, -62349, -68017, -73305, -78183, -82624, -86603, -90097, -93087, -95557, -97493, -98883, -99720, -100000, -99720, -98883, -97493, -95557, -93087, -90097, -86603, -82624, -78183, -73305, -68017, -62349, -56332, -50000, -43388, -36534, -29476, -22252, -14904, -7473>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<0, 6976, 13917, 20791, 27564, 34202, 40674, 46947, 52992, 58779, 64279, 69466, 74314, 78801, 82904, 86603, 89879, 92718, 95106, 97030, 98481, 99452, 99939, 99939, 99452, 98481, 97030, 95106, 92718, 89879, 86603, 82904, 78801, 74314, 69466, 64279, 58779, 52992, 46947, 40674, 34202, 27564, 20791, 13917, 6976, 0, -6976, -13917, -20791, -27564, -34202, -40674, -46947, -52992, -58779, -64279, -69466, -74314, -78801, -82904, -86603, -89879, -92718, -95106, -97030, -98481, -99452, -99939, -99939, -99452, -98481, -97030, -95106, -92718, -89879, -86603, -82904, -78801, -74314, -69466, -64279, -58779, -52992, -46947, -40674, -34202, -27564, -20791, -13917, -6976>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<0, 6540, 13053, 19509, 25882, 32144, 38268, 44229, 50000, 55557, 60876, 65935, 70711, 75184, 79335, 83147, 86603, 89687, 92388, 94693, 96593, 98079, 99144, 99786, 100000, 99786, 99144, 98079, 96593, 94693, 92388, 89687, 86603, 83147, 79335, 75184, 70711, 65935, 60876, 55557, 50000, 44229, 38268, 32144, 25882, 19509, 13053, 6540, 0, -6540, -13053, -19509, -25882, -32144, -38268, -44229, -50000, -55557, -60876, -65935, -70711, -75184, -79335, -83147, -86603, -89687, -92388, -94693, -96593, -98079, -99144, -99786, -100000, -99786, -99144, -98079, -96593, -94693, -92388, -89687, -86603, -83147, -79335, -75184, -70711, -65935, -60876, -55557, -50000, -44229, -38268, -32144, -25882, -19509, -13053, -6540>>,
 <<>>,
 <<>>,
 <<0, 6342, 12659, 18925, 25115, 31203, 37166, 42979, 48620, 54064, 59291, 64279, 69008, 73459, 77615, 81458, 84973, 88145, 90963, 93415, 95490, 97181, 98481, 99384, 99887, 99987, 99685, 98982, 97880, 96384, 94500, 92235, 89599, 86603, 83257, 79576, 75575, 71269, 66677, 61816, 56706, 51368, 45823, 40093, 34202, 28173, 22031, 15800, 9506, 3173, -3173, -9506, -15800, -22031, -28173, -34202, -40093, -45823, -51368, -56706, -61816, -66677, -71269, -75575, -79576, -83257, -86603, -89599, -92235, -94500, -96384, -97880, -98982, -99685, -99987, -99887, -99384, -98481, -97181, -95490, -93415, -90963, -88145, -84973, -81458, -77615, -73459, -69008, -64279, -59291, -54064, -48620, -42979, -37166, -31203, -25115, -18925, -12659, -6342>>,
 <<0, 6279, 12533, 18738, 24869, 30902, 36812, 42578, 48175, 53583, 58779, 63742, 68455, 72897, 77051, 80902, 84433, 87631, 90483, 92978, 95106, 96858, 98229, 99211, 99803, 100000, 99803, 99211, 98229, 96858, 95106, 92978, 90483, 87631, 84433, 80902, 77051, 72897, 68455, 63742, 58779, 53583, 48175, 42578, 36812, 30902, 24869, 18738, 12533, 6279, 0, -6279, -12533, -18738, -24869, -30902, -36812, -42578, -48175, -53583, -58779, -63742, -68455, -72897, -77051, -80902, -84433, -87631, -90483, -92978, -95106, -96858, -98229, -99211, -99803, -100000, -99803, -99211, -98229, -96858, -95106, -92978, -90483, -87631, -84433, -80902, -77051, -72897, -68455, -63742, -58779, -53583, -48175, -42578, -36812, -30902, -24869, -18738, -12533, -6279>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<0, 5980, 11939, 17856, 23708, 29476, 35137, 40674, 46064, 51290, 56332, 61172, 65794, 70180, 74314, 78183, 81772, 85068, 88060, 90736, 93087, 95106, 96783, 98115, 99095, 99720, 99989, 99899, 99452, 98649, 97493, 95988, 94139, 91953, 89438, 86603, 83457, 80013, 76283, 72279, 68017, 63512, 58779, 53835, 48699, 43388, 37923, 32321, 26604, 20791, 14904, 8964, 2992, -2992, -8964, -14904, -20791, -26604, -32321, -37923, -43388, -48699, -53835, -58779, -63512, -68017, -72279, -76283, -80013, -83457, -86603, -89438, -91953, -94139, -95988, -97493, -98649, -99452, -99899, -99989, -99720, -99095, -98115, -96783, -95106, -93087, -90736, -88060, -85068, -81772, -78183, -74314, -70180, -65794, -61172, -56332, -51290, -46064, -40674, -35137, -29476, -23708, -17856, -11939, -5980>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<0, 5709, 11399, 17052, 22650, 28173, 33605, 38927, 44122, 49173, 54064, 58779, 63301, 67617, 71713, 75575, 79190, 82547, 85635, 88443, 90963, 93186, 95106, 96715, 98008, 98982, 99633, 99959, 99959, 99633, 98982, 98008, 96715, 95106, 93186, 90963, 88443, 85635, 82547, 79190, 75575, 71713, 67617, 63301, 58779, 54064, 49173, 44122, 38927, 33605, 28173, 22650, 17052, 11399, 5709, 0, -5709, -11399, -17052, -22650, -28173, -33605, -38927, -44122, -49173, -54064, -58779, -63301, -67617, -71713, -75575, -79190, -82547, -85635, -88443, -90963, -93186, -95106, -96715, -98008, -98982, -99633, -99959, -99959, -99633, -98982, -98008, -96715, -95106, -93186, -90963, -88443, -85635, -82547, -79190, -75575, -71713, -67617, -63301, -58779, -54064, -49173, -44122, -38927, -33605, -28173, -22650, -17052, -11399, -5709>>,
 <<>>,
 <<0, 5607, 11196, 16751, 22252, 27684, 33028, 38268, 43388, 48372, 53203, 57867, 62349, 66635, 70711, 74564, 78183, 81556, 84672, 87522, 90097, 92388, 94388, 96092, 97493, 98587, 99371, 99843, 100000, 99843, 99371, 98587, 97493, 96092, 94388, 92388, 90097, 87522, 84672, 81556, 78183, 74564, 70711, 66635, 62349, 57867, 53203, 48372, 43388, 38268, 33028, 27684, 22252, 16751, 11196, 5607, 0, -5607, -11196, -16751, -22252, -27684, -33028, -38268, -43388, -48372, -53203, -57867, -62349, -66635, -70711, -74564, -78183, -81556, -84672, -87522, -90097, -92388, -94388, -96092, -97493, -98587, -99371, -99843, -100000, -99843, -99371, -98587, -97493, -96092, -94388, -92388, -90097, -87522, -84672, -81556, -78183, -74564, -70711, -66635, -62349, -57867, -53203, -48372, -43388, -38268, -33028, -27684, -22252, -16751, -11196, -5607>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<0, 5234, 10453, 15643, 20791, 25882, 30902, 35837, 40674, 45399, 50000, 54464, 58779, 62932, 66913, 70711, 74314, 77715, 80902, 83867, 86603, 89101, 91355, 93358, 95106, 96593, 97815, 98769, 99452, 99863, 100000, 99863, 99452, 98769, 97815, 96593, 95106, 93358, 91355, 89101, 86603, 83867, 80902, 77715, 74314, 70711, 66913, 62932, 58779, 54464, 50000, 45399, 40674, 35837, 30902, 25882, 20791, 15643, 10453, 5234, 0, -5234, -10453, -15643, -20791, -25882, -30902, -35837, -40674, -45399, -50000, -54464, -58779, -62932, -66913, -70711, -74314, -77715, -80902, -83867, -86603, -89101, -91355, -93358, -95106, -96593, -97815, -98769, -99452, -99863, -100000, -99863, -99452, -98769, -97815, -96593, -95106, -93358, -91355, -89101, -86603, -83867, -80902, -77715, -74314, -70711, -66913, -62932, -58779, -54464, -50000, -45399, -40674, -35837, -30902, -25882, -20791, -15643, -10453, -5234>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<0, 4985, 9957, 14904, 19815, 24676, 29476, 34202, 38843, 43388, 47825, 52144, 56332, 60380, 64279, 68017, 71587, 74978, 78183, 81194, 84003, 86603, 88987, 91151, 93087, 94793, 96262, 97493, 98481, 99224, 99720, 99969, 99969, 99720, 99224, 98481, 97493, 96262, 94793, 93087, 91151, 88987, 86603, 84003, 81194, 78183, 74978, 71587, 68017, 64279, 60380, 56332, 52144, 47825, 43388, 38843, 34202, 29476, 24676, 19815, 14904, 9957, 4985, 0, -4985, -9957, -14904, -19815, -24676, -29476, -34202, -38843, -43388, -47825, -52144, -56332, -60380, -64279, -68017, -71587, -74978, -78183, -81194, -84003, -86603, -88987, -91151, -93087, -94793, -96262, -97493, -98481, -99224, -99720, -99969, -99969, -99720, -99224, -98481, -97493, -96262, -94793, -93087, -91151, -88987, -86603, -84003, -81194, -78183, -74978, -71587, -68017, -64279, -60380, -56332, -52144, -47825, -43388, -38843, -34202, -29476, -24676, -19815, -14904, -9957, -4985>>,
 <<>>,
 <<0, 4907, 9802, 14673, 19509, 24298, 29028, 33689, 38268, 42756, 47140, 51410, 55557, 59570, 63439, 67156, 70711, 74095, 77301, 80321, 83147, 85773, 88192, 90399, 92388, 94154, 95694, 97003, 98079, 98918, 99518, 99880, 100000, 99880, 99518, 98918, 98079, 97003, 95694, 94154, 92388, 90399, 88192, 85773, 83147, 80321, 77301, 74095, 70711, 67156, 63439, 59570, 55557, 51410, 47140, 42756, 38268, 33689, 29028, 24298, 19509, 14673, 9802, 4907, 0, -4907, -9802, -14673, -19509, -24298, -29028, -33689, -38268, -42756, -47140, -51410, -55557, -59570, -63439, -67156, -70711, -74095, -77301, -80321, -83147, -85773, -88192, -90399, -92388, -94154, -95694, -97003, -98079, -98918, -99518, -99880, -100000, -99880, -99518, -98918, -98079, -97003, -95694, -94154, -92388, -90399, -88192, -85773, -83147, -80321, -77301, -74095, -70711, -67156, -63439, -59570, -55557, -51410, -47140, -42756, -38268, -33689, -29028, -24298, -19509, -14673, -9802, -4907>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<0, 4486, 8964, 13423, 17856, 22252, 26604, 30902, 35137, 39303, 43388, 47387, 51290, 55090, 58779, 62349, 65794, 69106, 72279, 75307, 78183, 80902, 83457, 85845, 88060, 90097, 91953, 93623, 95106, 96396, 97493, 98393, 99095, 99597, 99899, 100000, 99899, 99597, 99095, 98393, 97493, 96396, 95106, 93623, 91953, 90097, 88060, 85845, 83457, 80902, 78183, 75307, 72279, 69106, 65794, 62349, 58779, 55090, 51290, 47387, 43388, 39303, 35137, 30902, 26604, 22252, 17856, 13423, 8964, 4486, 0, -4486, -8964, -13423, -17856, -22252, -26604, -30902, -35137, -39303, -43388, -47387, -51290, -55090, -58779, -62349, -65794, -69106, -72279, -75307, -78183, -80902, -83457, -85845, -88060, -90097, -91953, -93623, -95106, -96396, -97493, -98393, -99095, -99597, -99899, -100000, -99899, -99597, -99095, -98393, -97493, -96396, -95106, -93623, -91953, -90097, -88060, -85845, -83457, -80902, -78183, -75307, -72279, -69106, -65794, -62349, -58779, -55090, -51290, -47387, -43388, -39303, -35137, -30902, -26604, -22252, -17856, -13423, -8964, -4486>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<0, 3739, 7473, 11196, 14904, 18591, 22252, 25882, 29476, 33028, 36534, 39989, 43388, 46727, 50000, 53203, 56332, 59382, 62349, 65229, 68017, 70711, 73305, 75797, 78183, 80460, 82624, 84672, 86603, 88412, 90097, 91656, 93087, 94388, 95557, 96593, 97493, 98257, 98883, 99371, 99720, 99930, 100000, 99930, 99720, 99371, 98883, 98257, 97493, 96593, 95557, 94388, 93087, 91656, 90097, 88412, 86603, 84672, 82624, 80460, 78183, 75797, 73305, 70711, 68017, 65229, 62349, 59382, 56332, 53203, 50000, 46727, 43388, 39989, 36534, 33028, 29476, 25882, 22252, 18591, 14904, 11196, 7473, 3739, 0, -3739, -7473, -11196, -14904, -18591, -22252, -25882, -29476, -33028, -36534, -39989, -43388, -46727, -50000, -53203, -56332, -59382, -62349, -65229, -68017, -70711, -73305, -75797, -78183, -80460, -82624, -84672, -86603, -88412, -90097, -91656, -93087, -94388, -95557, -96593, -97493, -98257, -98883, -99371, -99720, -99930, -100000, -99930, -99720, -99371, -98883, -98257, -97493, -96593, -95557, -94388, -93087, -91656, -90097, -88412, -86603, -84672, -82624, -80460, -78183, -75797, -73305, -70711, -68017, -65229, -62349, -59382, -56332, -53203, -50000, -46727, -43388, -39989, -36534, -33028, -29476, -25882, -22252, -18591, -14904, -11196, -7473, -3739>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<>>,
 <<0, 2992, 5980, 8964, 11939, 14904, 17856, 20791, 23708, 26604, 29476, 32321, 35137, 37923, 40674, 43388, 46064, 48699, 51290, 53835, 56332, 58779, 61172, 63512, 65794, 68017, 70180, 72279, 74314, 76283, 78183, 80013, 81772, 83457, 85068, 86603, 88060, 89438, 90736, 91953, 93087, 94139, 95106, 95988, 96783, 97493, 98115, 98649, 99095, 99452, 99720, 99899, 99989, 99989, 99899, 99720, 99452, 99095, 98649, 98115, 97493, 96783, 95988, 95106, 94139, 93087, 91953, 90736, 89438, 88060, 86603, 85068, 83457, 81772, 80013, 78183, 76283, 74314, 72279, 70180, 68017, 65794, 63512, 61172, 58779, 56332, 53835, 51290, 48699, 46064, 43388, 40674, 37923, 35137, 32321, 29476, 26604, 23708, 20791, 17856, 14904, 11939, 8964, 5980, 2992, 0, -2992, -5980, -8964, -11939, -14904, -17856, -20791, -23708, -26604, -29476, -32321, -35137, -37923, -40674, -43388, -46064, -48699, -51290, -53835, -56332, -58779, -61172, -63512, -65794, -68017, -70180, -72279, -74314, -76283, -78183, -80013, -81772, -83457, -85068, -86603, -88060, -89438, -90736, -91953, -93087, -94139, -95106, -95988, -96783, -97493, -98115, -98649, -99095, -99452, -99720, -99899, -99989, -99989, -99899, -99720, -99452, -99095, -98649, -98115, -97493, -96783, -95988, -95106, -94139, -93087, -91953, -90736, -89438, -88060, -86603, -85068, -83457, -81772, -80013, -78183, -76283, -74314, -72279, -70180, -68017, -65794, -63512, -61172, -58779, -56332, -53835, -51290, -48699, -46064, -43388, -40674, -37923, -35137, -32321, -29476, -26604, -23708, -20791, -17856, -14904, -11939, -8964, -5980, -2992>>
>>
=============================================================================
