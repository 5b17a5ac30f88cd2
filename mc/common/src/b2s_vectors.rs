// generated with Python hashlib.blake2s: (digest,fanout,depth,leaf,node_offset,node_depth,inner,salt,person,msg_len,out)
pub const V: &[(u8,u8,u8,u32,u64,u8,u8,[u8;8],[u8;8],usize,&str)] = &[
(1,1,1,0,0,0,0,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],0,"a1"),
(1,1,1,13,0,1,1,[0,0,0,0,0,0,0,0],[1,0,0,0,0,0,0,0],1,"ff"),
(1,1,1,26,0,2,2,[0,1,0,0,0,0,0,0],[2,39,0,0,0,0,0,0],63,"b3"),
(1,1,1,39,0,0,3,[0,1,2,0,0,0,0,0],[3,40,77,0,0,0,0,0],64,"9a"),
(1,1,1,52,0,1,4,[0,1,2,3,0,0,0,0],[4,41,78,115,0,0,0,0],65,"7f"),
(1,1,1,65,0,2,5,[0,1,2,3,4,0,0,0],[5,42,79,116,153,0,0,0],128,"7d"),
(1,1,1,78,0,0,6,[0,1,2,3,4,5,0,0],[6,43,80,117,154,191,0,0],200,"a7"),
(1,1,1,91,1,1,7,[0,0,0,0,0,0,0,0],[7,44,81,118,155,192,229,0],0,"78"),
(1,1,1,104,1,2,8,[0,0,0,0,0,0,0,0],[8,45,82,119,156,193,230,11],1,"88"),
(1,1,1,117,1,0,9,[0,1,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],63,"be"),
(1,1,1,130,1,1,10,[0,1,2,0,0,0,0,0],[10,0,0,0,0,0,0,0],64,"c8"),
(1,1,1,143,1,2,11,[0,1,2,3,0,0,0,0],[11,48,0,0,0,0,0,0],65,"d5"),
(1,1,1,156,1,0,12,[0,1,2,3,4,0,0,0],[12,49,86,0,0,0,0,0],128,"e0"),
(1,1,1,169,1,1,13,[0,1,2,3,4,5,0,0],[13,50,87,124,0,0,0,0],200,"0f"),
(1,1,1,182,412316860416,2,14,[0,0,0,0,0,0,0,0],[14,51,88,125,162,0,0,0],0,"4b"),
(1,1,1,195,412316860416,0,15,[0,0,0,0,0,0,0,0],[15,52,89,126,163,200,0,0],1,"12"),
(1,1,1,208,412316860416,1,16,[0,1,0,0,0,0,0,0],[16,53,90,127,164,201,238,0],63,"f2"),
(1,1,1,221,412316860416,2,17,[0,1,2,0,0,0,0,0],[17,54,91,128,165,202,239,20],64,"87"),
(1,1,1,234,412316860416,0,18,[0,1,2,3,0,0,0,0],[0,0,0,0,0,0,0,0],65,"bf"),
(1,1,1,247,412316860416,1,19,[0,1,2,3,4,0,0,0],[19,0,0,0,0,0,0,0],128,"74"),
(1,1,1,260,412316860416,2,20,[0,1,2,3,4,5,0,0],[20,57,0,0,0,0,0,0],200,"20"),
(1,1,1,273,281470681743367,0,21,[0,0,0,0,0,0,0,0],[21,58,95,0,0,0,0,0],0,"15"),
(1,1,1,286,281470681743367,1,22,[0,0,0,0,0,0,0,0],[22,59,96,133,0,0,0,0],1,"50"),
(1,1,1,299,281470681743367,2,23,[0,1,0,0,0,0,0,0],[23,60,97,134,171,0,0,0],63,"6b"),
(1,1,1,312,281470681743367,0,24,[0,1,2,0,0,0,0,0],[24,61,98,135,172,209,0,0],64,"58"),
(1,1,1,325,281470681743367,1,25,[0,1,2,3,0,0,0,0],[25,62,99,136,173,210,247,0],65,"c7"),
(1,1,1,338,281470681743367,2,26,[0,1,2,3,4,0,0,0],[26,63,100,137,174,211,248,29],128,"60"),
(1,1,1,351,281470681743367,0,27,[0,1,2,3,4,5,0,0],[0,0,0,0,0,0,0,0],200,"3f"),
(1,1,1,364,281474976710655,1,28,[0,0,0,0,0,0,0,0],[28,0,0,0,0,0,0,0],0,"1d"),
(1,1,1,377,281474976710655,2,29,[0,0,0,0,0,0,0,0],[29,66,0,0,0,0,0,0],1,"50"),
(1,1,1,390,281474976710655,0,30,[0,1,0,0,0,0,0,0],[30,67,104,0,0,0,0,0],63,"15"),
(1,1,1,403,281474976710655,1,31,[0,1,2,0,0,0,0,0],[31,68,105,142,0,0,0,0],64,"b4"),
(1,1,1,416,281474976710655,2,32,[0,1,2,3,0,0,0,0],[32,69,106,143,180,0,0,0],65,"f1"),
(1,1,1,429,281474976710655,0,0,[0,1,2,3,4,0,0,0],[33,70,107,144,181,218,0,0],128,"6f"),
(1,1,1,442,281474976710655,1,1,[0,1,2,3,4,5,0,0],[34,71,108,145,182,219,0,0],200,"88"),
(1,0,1,455,0,2,2,[0,0,0,0,0,0,0,0],[35,72,109,146,183,220,1,38],0,"16"),
(1,0,1,468,0,0,3,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],1,"ae"),
(1,0,1,481,0,1,4,[0,1,0,0,0,0,0,0],[37,0,0,0,0,0,0,0],63,"42"),
(1,0,1,494,0,2,5,[0,1,2,0,0,0,0,0],[38,75,0,0,0,0,0,0],64,"d9"),
(1,0,1,507,0,0,6,[0,1,2,3,0,0,0,0],[39,76,113,0,0,0,0,0],65,"cb"),
(1,0,1,520,0,1,7,[0,1,2,3,4,0,0,0],[40,77,114,151,0,0,0,0],128,"f9"),
(1,0,1,533,0,2,8,[0,1,2,3,4,5,0,0],[41,78,115,152,189,0,0,0],200,"f7"),
(1,0,1,546,1,0,9,[0,0,0,0,0,0,0,0],[42,79,116,153,190,227,0,0],0,"ae"),
(1,0,1,559,1,1,10,[0,0,0,0,0,0,0,0],[43,80,117,154,191,228,9,0],1,"69"),
(1,0,1,572,1,2,11,[0,1,0,0,0,0,0,0],[44,81,118,155,192,229,10,47],63,"5e"),
(1,0,1,585,1,0,12,[0,1,2,0,0,0,0,0],[0,0,0,0,0,0,0,0],64,"29"),
(1,0,1,598,1,1,13,[0,1,2,3,0,0,0,0],[46,0,0,0,0,0,0,0],65,"4e"),
(1,0,1,611,1,2,14,[0,1,2,3,4,0,0,0],[47,84,0,0,0,0,0,0],128,"70"),
(1,0,1,624,1,0,15,[0,1,2,3,4,5,0,0],[48,85,122,0,0,0,0,0],200,"da"),
(1,0,1,637,412316860416,1,16,[0,0,0,0,0,0,0,0],[49,86,123,160,0,0,0,0],0,"e5"),
(1,0,1,650,412316860416,2,17,[0,0,0,0,0,0,0,0],[50,87,124,161,198,0,0,0],1,"4d"),
(1,0,1,663,412316860416,0,18,[0,1,0,0,0,0,0,0],[51,88,125,162,199,236,0,0],63,"50"),
(1,0,1,676,412316860416,1,19,[0,1,2,0,0,0,0,0],[52,89,126,163,200,237,18,0],64,"64"),
(1,0,1,689,412316860416,2,20,[0,1,2,3,0,0,0,0],[53,90,127,164,201,238,19,56],65,"c8"),
(1,0,1,702,412316860416,0,21,[0,1,2,3,4,0,0,0],[0,0,0,0,0,0,0,0],128,"8e"),
(1,0,1,715,412316860416,1,22,[0,1,2,3,4,5,0,0],[55,0,0,0,0,0,0,0],200,"b0"),
(1,0,1,728,281470681743367,2,23,[0,0,0,0,0,0,0,0],[56,93,0,0,0,0,0,0],0,"72"),
(1,0,1,741,281470681743367,0,24,[0,0,0,0,0,0,0,0],[57,94,131,0,0,0,0,0],1,"30"),
(1,0,1,754,281470681743367,1,25,[0,1,0,0,0,0,0,0],[58,95,132,169,0,0,0,0],63,"5e"),
(1,0,1,767,281470681743367,2,26,[0,1,2,0,0,0,0,0],[59,96,133,170,207,0,0,0],64,"d1"),
(1,0,1,780,281470681743367,0,27,[0,1,2,3,0,0,0,0],[60,97,134,171,208,245,0,0],65,"b6"),
(1,0,1,793,281470681743367,1,28,[0,1,2,3,4,0,0,0],[61,98,135,172,209,246,27,0],128,"7d"),
(1,0,1,806,281470681743367,2,29,[0,1,2,3,4,5,0,0],[62,99,136,173,210,247,28,65],200,"2f"),
(1,0,1,819,281474976710655,0,30,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],0,"a2"),
(1,0,1,832,281474976710655,1,31,[0,0,0,0,0,0,0,0],[64,0,0,0,0,0,0,0],1,"3c"),
(1,0,1,845,281474976710655,2,32,[0,1,0,0,0,0,0,0],[65,102,0,0,0,0,0,0],63,"f9"),
(1,0,1,858,281474976710655,0,0,[0,1,2,0,0,0,0,0],[66,103,140,0,0,0,0,0],64,"f9"),
(1,0,1,871,281474976710655,1,1,[0,1,2,3,0,0,0,0],[67,104,141,178,0,0,0,0],65,"79"),
(1,0,1,884,281474976710655,2,2,[0,1,2,3,4,0,0,0],[68,105,142,179,216,0,0,0],128,"69"),
(1,0,1,897,281474976710655,0,3,[0,1,2,3,4,5,0,0],[69,106,143,180,217,254,0,0],200,"37"),
(1,2,2,910,0,1,4,[0,0,0,0,0,0,0,0],[70,107,144,181,218,255,36,0],0,"39"),
(1,2,2,923,0,2,5,[0,0,0,0,0,0,0,0],[71,108,145,182,219,0,37,74],1,"19"),
(1,2,2,936,0,0,6,[0,1,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],63,"fc"),
(1,2,2,949,0,1,7,[0,1,2,0,0,0,0,0],[73,0,0,0,0,0,0,0],64,"92"),
(1,2,2,962,0,2,8,[0,1,2,3,0,0,0,0],[74,111,0,0,0,0,0,0],65,"3f"),
(1,2,2,975,0,0,9,[0,1,2,3,4,0,0,0],[75,112,149,0,0,0,0,0],128,"94"),
(1,2,2,988,0,1,10,[0,1,2,3,4,5,0,0],[76,113,150,187,0,0,0,0],200,"11"),
(1,2,2,1001,1,2,11,[0,0,0,0,0,0,0,0],[77,114,151,188,225,0,0,0],0,"a4"),
(1,2,2,1014,1,0,12,[0,0,0,0,0,0,0,0],[78,115,152,189,226,7,0,0],1,"94"),
(1,2,2,1027,1,1,13,[0,1,0,0,0,0,0,0],[79,116,153,190,227,8,45,0],63,"b0"),
(1,2,2,1040,1,2,14,[0,1,2,0,0,0,0,0],[80,117,154,191,228,9,46,83],64,"a5"),
(1,2,2,1053,1,0,15,[0,1,2,3,0,0,0,0],[0,0,0,0,0,0,0,0],65,"1c"),
(1,2,2,1066,1,1,16,[0,1,2,3,4,0,0,0],[82,0,0,0,0,0,0,0],128,"2b"),
(1,2,2,1079,1,2,17,[0,1,2,3,4,5,0,0],[83,120,0,0,0,0,0,0],200,"b6"),
(1,2,2,1092,412316860416,0,18,[0,0,0,0,0,0,0,0],[84,121,158,0,0,0,0,0],0,"4d"),
(1,2,2,1105,412316860416,1,19,[0,0,0,0,0,0,0,0],[85,122,159,196,0,0,0,0],1,"60"),
(1,2,2,1118,412316860416,2,20,[0,1,0,0,0,0,0,0],[86,123,160,197,234,0,0,0],63,"86"),
(1,2,2,1131,412316860416,0,21,[0,1,2,0,0,0,0,0],[87,124,161,198,235,16,0,0],64,"29"),
(1,2,2,1144,412316860416,1,22,[0,1,2,3,0,0,0,0],[88,125,162,199,236,17,54,0],65,"07"),
(1,2,2,1157,412316860416,2,23,[0,1,2,3,4,0,0,0],[89,126,163,200,237,18,55,92],128,"28"),
(1,2,2,1170,412316860416,0,24,[0,1,2,3,4,5,0,0],[0,0,0,0,0,0,0,0],200,"4d"),
(1,2,2,1183,281470681743367,1,25,[0,0,0,0,0,0,0,0],[91,0,0,0,0,0,0,0],0,"41"),
(1,2,2,1196,281470681743367,2,26,[0,0,0,0,0,0,0,0],[92,129,0,0,0,0,0,0],1,"13"),
(1,2,2,1209,281470681743367,0,27,[0,1,0,0,0,0,0,0],[93,130,167,0,0,0,0,0],63,"25"),
(1,2,2,1222,281470681743367,1,28,[0,1,2,0,0,0,0,0],[94,131,168,205,0,0,0,0],64,"9f"),
(1,2,2,1235,281470681743367,2,29,[0,1,2,3,0,0,0,0],[95,132,169,206,243,0,0,0],65,"45"),
(1,2,2,1248,281470681743367,0,30,[0,1,2,3,4,0,0,0],[96,133,170,207,244,25,0,0],128,"1a"),
(1,2,2,1261,281470681743367,1,31,[0,1,2,3,4,5,0,0],[97,134,171,208,245,26,63,0],200,"bd"),
(1,2,2,1274,281474976710655,2,32,[0,0,0,0,0,0,0,0],[98,135,172,209,246,27,64,101],0,"f0"),
(1,2,2,1287,281474976710655,0,0,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],1,"e8"),
(1,2,2,1300,281474976710655,1,1,[0,1,0,0,0,0,0,0],[100,0,0,0,0,0,0,0],63,"44"),
(1,2,2,1313,281474976710655,2,2,[0,1,2,0,0,0,0,0],[101,138,0,0,0,0,0,0],64,"b4"),
(1,2,2,1326,281474976710655,0,3,[0,1,2,3,0,0,0,0],[102,139,176,0,0,0,0,0],65,"e4"),
(1,2,2,1339,281474976710655,1,4,[0,1,2,3,4,0,0,0],[103,140,177,214,0,0,0,0],128,"d8"),
(1,2,2,1352,281474976710655,2,5,[0,1,2,3,4,5,0,0],[104,141,178,215,252,0,0,0],200,"92"),
(1,0,1,1365,0,0,6,[0,0,0,0,0,0,0,0],[105,142,179,216,253,34,0,0],0,"7f"),
(1,0,1,1378,0,1,7,[0,0,0,0,0,0,0,0],[106,143,180,217,254,35,72,0],1,"2f"),
(1,0,1,1391,0,2,8,[0,1,0,0,0,0,0,0],[107,144,181,218,255,36,73,110],63,"dd"),
(1,0,1,1404,0,0,9,[0,1,2,0,0,0,0,0],[0,0,0,0,0,0,0,0],64,"a1"),
(1,0,1,1417,0,1,10,[0,1,2,3,0,0,0,0],[109,0,0,0,0,0,0,0],65,"48"),
(1,0,1,1430,0,2,11,[0,1,2,3,4,0,0,0],[110,147,0,0,0,0,0,0],128,"4a"),
(1,0,1,1443,0,0,12,[0,1,2,3,4,5,0,0],[111,148,185,0,0,0,0,0],200,"6d"),
(1,0,1,1456,1,1,13,[0,0,0,0,0,0,0,0],[112,149,186,223,0,0,0,0],0,"80"),
(1,0,1,1469,1,2,14,[0,0,0,0,0,0,0,0],[113,150,187,224,5,0,0,0],1,"af"),
(1,0,1,1482,1,0,15,[0,1,0,0,0,0,0,0],[114,151,188,225,6,43,0,0],63,"a1"),
(1,0,1,1495,1,1,16,[0,1,2,0,0,0,0,0],[115,152,189,226,7,44,81,0],64,"43"),
(1,0,1,1508,1,2,17,[0,1,2,3,0,0,0,0],[116,153,190,227,8,45,82,119],65,"b0"),
(1,0,1,1521,1,0,18,[0,1,2,3,4,0,0,0],[0,0,0,0,0,0,0,0],128,"19"),
(1,0,1,1534,1,1,19,[0,1,2,3,4,5,0,0],[118,0,0,0,0,0,0,0],200,"6a"),
(1,0,1,1547,412316860416,2,20,[0,0,0,0,0,0,0,0],[119,156,0,0,0,0,0,0],0,"db"),
(1,0,1,1560,412316860416,0,21,[0,0,0,0,0,0,0,0],[120,157,194,0,0,0,0,0],1,"3b"),
(1,0,1,1573,412316860416,1,22,[0,1,0,0,0,0,0,0],[121,158,195,232,0,0,0,0],63,"46"),
(1,0,1,1586,412316860416,2,23,[0,1,2,0,0,0,0,0],[122,159,196,233,14,0,0,0],64,"c6"),
(1,0,1,1599,412316860416,0,24,[0,1,2,3,0,0,0,0],[123,160,197,234,15,52,0,0],65,"eb"),
(1,0,1,1612,412316860416,1,25,[0,1,2,3,4,0,0,0],[124,161,198,235,16,53,90,0],128,"3d"),
(1,0,1,1625,412316860416,2,26,[0,1,2,3,4,5,0,0],[125,162,199,236,17,54,91,128],200,"d5"),
(1,0,1,1638,281470681743367,0,27,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],0,"9b"),
(1,0,1,1651,281470681743367,1,28,[0,0,0,0,0,0,0,0],[127,0,0,0,0,0,0,0],1,"12"),
(1,0,1,1664,281470681743367,2,29,[0,1,0,0,0,0,0,0],[128,165,0,0,0,0,0,0],63,"99"),
(1,0,1,1677,281470681743367,0,30,[0,1,2,0,0,0,0,0],[129,166,203,0,0,0,0,0],64,"ea"),
(1,0,1,1690,281470681743367,1,31,[0,1,2,3,0,0,0,0],[130,167,204,241,0,0,0,0],65,"33"),
(1,0,1,1703,281470681743367,2,32,[0,1,2,3,4,0,0,0],[131,168,205,242,23,0,0,0],128,"ca"),
(1,0,1,1716,281470681743367,0,0,[0,1,2,3,4,5,0,0],[132,169,206,243,24,61,0,0],200,"e3"),
(1,0,1,1729,281474976710655,1,1,[0,0,0,0,0,0,0,0],[133,170,207,244,25,62,99,0],0,"10"),
(1,0,1,1742,281474976710655,2,2,[0,0,0,0,0,0,0,0],[134,171,208,245,26,63,100,137],1,"0c"),
(1,0,1,1755,281474976710655,0,3,[0,1,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],63,"49"),
(1,0,1,1768,281474976710655,1,4,[0,1,2,0,0,0,0,0],[136,0,0,0,0,0,0,0],64,"68"),
(1,0,1,1781,281474976710655,2,5,[0,1,2,3,0,0,0,0],[137,174,0,0,0,0,0,0],65,"d3"),
(1,0,1,1794,281474976710655,0,6,[0,1,2,3,4,0,0,0],[138,175,212,0,0,0,0,0],128,"43"),
(1,0,1,1807,281474976710655,1,7,[0,1,2,3,4,5,0,0],[139,176,213,250,0,0,0,0],200,"47"),
(7,1,1,1820,0,2,8,[0,0,0,0,0,0,0,0],[140,177,214,251,32,0,0,0],0,"b8963a501cfa48"),
(7,1,1,1833,0,0,9,[0,0,0,0,0,0,0,0],[141,178,215,252,33,70,0,0],1,"06e814cbb1046d"),
(7,1,1,1846,0,1,10,[0,1,0,0,0,0,0,0],[142,179,216,253,34,71,108,0],63,"baa4a933641d1b"),
(7,1,1,1859,0,2,11,[0,1,2,0,0,0,0,0],[143,180,217,254,35,72,109,146],64,"08256e65bd8bba"),
(7,1,1,1872,0,0,12,[0,1,2,3,0,0,0,0],[0,0,0,0,0,0,0,0],65,"b22b4aeda140c6"),
(7,1,1,1885,0,1,13,[0,1,2,3,4,0,0,0],[145,0,0,0,0,0,0,0],128,"2ff620ed6be751"),
(7,1,1,1898,0,2,14,[0,1,2,3,4,5,0,0],[146,183,0,0,0,0,0,0],200,"267fefc1937061"),
(7,1,1,1911,1,0,15,[0,0,0,0,0,0,0,0],[147,184,221,0,0,0,0,0],0,"bbc56f9ebfb79e"),
(7,1,1,1924,1,1,16,[0,0,0,0,0,0,0,0],[148,185,222,3,0,0,0,0],1,"e7f327138b2d38"),
(7,1,1,1937,1,2,17,[0,1,0,0,0,0,0,0],[149,186,223,4,41,0,0,0],63,"b0ef0c936c1f9c"),
(7,1,1,1950,1,0,18,[0,1,2,0,0,0,0,0],[150,187,224,5,42,79,0,0],64,"f03a9cdb95aa51"),
(7,1,1,1963,1,1,19,[0,1,2,3,0,0,0,0],[151,188,225,6,43,80,117,0],65,"648dcb0cbb4e08"),
(7,1,1,1976,1,2,20,[0,1,2,3,4,0,0,0],[152,189,226,7,44,81,118,155],128,"0cf8898d319b70"),
(7,1,1,1989,1,0,21,[0,1,2,3,4,5,0,0],[0,0,0,0,0,0,0,0],200,"261d338eabd02e"),
(7,1,1,2002,412316860416,1,22,[0,0,0,0,0,0,0,0],[154,0,0,0,0,0,0,0],0,"de874cec770bdb"),
(7,1,1,2015,412316860416,2,23,[0,0,0,0,0,0,0,0],[155,192,0,0,0,0,0,0],1,"8f031e4b4fbcce"),
(7,1,1,2028,412316860416,0,24,[0,1,0,0,0,0,0,0],[156,193,230,0,0,0,0,0],63,"403ea3fda481ef"),
(7,1,1,2041,412316860416,1,25,[0,1,2,0,0,0,0,0],[157,194,231,12,0,0,0,0],64,"04953ef4fdb8e5"),
(7,1,1,2054,412316860416,2,26,[0,1,2,3,0,0,0,0],[158,195,232,13,50,0,0,0],65,"b2105e4033cea1"),
(7,1,1,2067,412316860416,0,27,[0,1,2,3,4,0,0,0],[159,196,233,14,51,88,0,0],128,"d09c1d63eca17e"),
(7,1,1,2080,412316860416,1,28,[0,1,2,3,4,5,0,0],[160,197,234,15,52,89,126,0],200,"c396c02d6df5e9"),
(7,1,1,2093,281470681743367,2,29,[0,0,0,0,0,0,0,0],[161,198,235,16,53,90,127,164],0,"ae3fb2ea19a12a"),
(7,1,1,2106,281470681743367,0,30,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],1,"722bbb756ae686"),
(7,1,1,2119,281470681743367,1,31,[0,1,0,0,0,0,0,0],[163,0,0,0,0,0,0,0],63,"027e2388c2670d"),
(7,1,1,2132,281470681743367,2,32,[0,1,2,0,0,0,0,0],[164,201,0,0,0,0,0,0],64,"04f6e347b27bc2"),
(7,1,1,2145,281470681743367,0,0,[0,1,2,3,0,0,0,0],[165,202,239,0,0,0,0,0],65,"905466b328b22f"),
(7,1,1,2158,281470681743367,1,1,[0,1,2,3,4,0,0,0],[166,203,240,21,0,0,0,0],128,"aabad84ba3faa1"),
(7,1,1,2171,281470681743367,2,2,[0,1,2,3,4,5,0,0],[167,204,241,22,59,0,0,0],200,"80f4860907ae28"),
(7,1,1,2184,281474976710655,0,3,[0,0,0,0,0,0,0,0],[168,205,242,23,60,97,0,0],0,"62911a86390a1b"),
(7,1,1,2197,281474976710655,1,4,[0,0,0,0,0,0,0,0],[169,206,243,24,61,98,135,0],1,"c8060befd08200"),
(7,1,1,2210,281474976710655,2,5,[0,1,0,0,0,0,0,0],[170,207,244,25,62,99,136,173],63,"a8b13e23ffc336"),
(7,1,1,2223,281474976710655,0,6,[0,1,2,0,0,0,0,0],[0,0,0,0,0,0,0,0],64,"b253f4303c4f33"),
(7,1,1,2236,281474976710655,1,7,[0,1,2,3,0,0,0,0],[172,0,0,0,0,0,0,0],65,"4eff35f4858134"),
(7,1,1,2249,281474976710655,2,8,[0,1,2,3,4,0,0,0],[173,210,0,0,0,0,0,0],128,"77cf5cd43b12b4"),
(7,1,1,2262,281474976710655,0,9,[0,1,2,3,4,5,0,0],[174,211,248,0,0,0,0,0],200,"08960624eed706"),
(7,0,1,2275,0,1,10,[0,0,0,0,0,0,0,0],[175,212,249,30,0,0,0,0],0,"926a6436417532"),
(7,0,1,2288,0,2,11,[0,0,0,0,0,0,0,0],[176,213,250,31,68,0,0,0],1,"3bec6b67f80a65"),
(7,0,1,2301,0,0,12,[0,1,0,0,0,0,0,0],[177,214,251,32,69,106,0,0],63,"0d2cf7406b78e6"),
(7,0,1,2314,0,1,13,[0,1,2,0,0,0,0,0],[178,215,252,33,70,107,144,0],64,"81d64a158a7e78"),
(7,0,1,2327,0,2,14,[0,1,2,3,0,0,0,0],[179,216,253,34,71,108,145,182],65,"4afe3c53af32b1"),
(7,0,1,2340,0,0,15,[0,1,2,3,4,0,0,0],[0,0,0,0,0,0,0,0],128,"4ad93ff7fe67b4"),
(7,0,1,2353,0,1,16,[0,1,2,3,4,5,0,0],[181,0,0,0,0,0,0,0],200,"c443d6315b3e67"),
(7,0,1,2366,1,2,17,[0,0,0,0,0,0,0,0],[182,219,0,0,0,0,0,0],0,"6d27814a1c5684"),
(7,0,1,2379,1,0,18,[0,0,0,0,0,0,0,0],[183,220,1,0,0,0,0,0],1,"04f1d7a2a8da21"),
(7,0,1,2392,1,1,19,[0,1,0,0,0,0,0,0],[184,221,2,39,0,0,0,0],63,"c0848e431b76db"),
(7,0,1,2405,1,2,20,[0,1,2,0,0,0,0,0],[185,222,3,40,77,0,0,0],64,"da25a3ef48a2d9"),
(7,0,1,2418,1,0,21,[0,1,2,3,0,0,0,0],[186,223,4,41,78,115,0,0],65,"5108d43d1e1e60"),
(7,0,1,2431,1,1,22,[0,1,2,3,4,0,0,0],[187,224,5,42,79,116,153,0],128,"d4e1067a6af1a5"),
(7,0,1,2444,1,2,23,[0,1,2,3,4,5,0,0],[188,225,6,43,80,117,154,191],200,"2c872de3989864"),
(7,0,1,2457,412316860416,0,24,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],0,"21f42af76f797a"),
(7,0,1,2470,412316860416,1,25,[0,0,0,0,0,0,0,0],[190,0,0,0,0,0,0,0],1,"72d8125c8b5a92"),
(7,0,1,2483,412316860416,2,26,[0,1,0,0,0,0,0,0],[191,228,0,0,0,0,0,0],63,"4d2723ab0eb8da"),
(7,0,1,2496,412316860416,0,27,[0,1,2,0,0,0,0,0],[192,229,10,0,0,0,0,0],64,"9655ced31e6809"),
(7,0,1,2509,412316860416,1,28,[0,1,2,3,0,0,0,0],[193,230,11,48,0,0,0,0],65,"484e08bec47de9"),
(7,0,1,2522,412316860416,2,29,[0,1,2,3,4,0,0,0],[194,231,12,49,86,0,0,0],128,"8186955af375d8"),
(7,0,1,2535,412316860416,0,30,[0,1,2,3,4,5,0,0],[195,232,13,50,87,124,0,0],200,"82ba007ed60bd5"),
(7,0,1,2548,281470681743367,1,31,[0,0,0,0,0,0,0,0],[196,233,14,51,88,125,162,0],0,"f95dce2b0df086"),
(7,0,1,2561,281470681743367,2,32,[0,0,0,0,0,0,0,0],[197,234,15,52,89,126,163,200],1,"f26756a44f42ab"),
(7,0,1,2574,281470681743367,0,0,[0,1,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],63,"e2c803de7fd729"),
(7,0,1,2587,281470681743367,1,1,[0,1,2,0,0,0,0,0],[199,0,0,0,0,0,0,0],64,"81b8fa2042d9f9"),
(7,0,1,2600,281470681743367,2,2,[0,1,2,3,0,0,0,0],[200,237,0,0,0,0,0,0],65,"5307dafef492f4"),
(7,0,1,2613,281470681743367,0,3,[0,1,2,3,4,0,0,0],[201,238,19,0,0,0,0,0],128,"cb4832e51b04f6"),
(7,0,1,2626,281470681743367,1,4,[0,1,2,3,4,5,0,0],[202,239,20,57,0,0,0,0],200,"d3206414d39440"),
(7,0,1,2639,281474976710655,2,5,[0,0,0,0,0,0,0,0],[203,240,21,58,95,0,0,0],0,"852a42516cb462"),
(7,0,1,2652,281474976710655,0,6,[0,0,0,0,0,0,0,0],[204,241,22,59,96,133,0,0],1,"99e5243d96b202"),
(7,0,1,2665,281474976710655,1,7,[0,1,0,0,0,0,0,0],[205,242,23,60,97,134,171,0],63,"283e65f43e45ed"),
(7,0,1,2678,281474976710655,2,8,[0,1,2,0,0,0,0,0],[206,243,24,61,98,135,172,209],64,"7a4c621827b41c"),
(7,0,1,2691,281474976710655,0,9,[0,1,2,3,0,0,0,0],[0,0,0,0,0,0,0,0],65,"281648928b1aeb"),
(7,0,1,2704,281474976710655,1,10,[0,1,2,3,4,0,0,0],[208,0,0,0,0,0,0,0],128,"db1f3ed4104c78"),
(7,0,1,2717,281474976710655,2,11,[0,1,2,3,4,5,0,0],[209,246,0,0,0,0,0,0],200,"648768abbc9974"),
(7,2,2,2730,0,0,12,[0,0,0,0,0,0,0,0],[210,247,28,0,0,0,0,0],0,"ed5068cb52a313"),
(7,2,2,2743,0,1,13,[0,0,0,0,0,0,0,0],[211,248,29,66,0,0,0,0],1,"e73ce993ac184e"),
(7,2,2,2756,0,2,14,[0,1,0,0,0,0,0,0],[212,249,30,67,104,0,0,0],63,"67f67a7cd32e93"),
(7,2,2,2769,0,0,15,[0,1,2,0,0,0,0,0],[213,250,31,68,105,142,0,0],64,"b7c59c1f58024a"),
(7,2,2,2782,0,1,16,[0,1,2,3,0,0,0,0],[214,251,32,69,106,143,180,0],65,"326641f53f8d99"),
(7,2,2,2795,0,2,17,[0,1,2,3,4,0,0,0],[215,252,33,70,107,144,181,218],128,"54424c0be52deb"),
(7,2,2,2808,0,0,18,[0,1,2,3,4,5,0,0],[0,0,0,0,0,0,0,0],200,"bae1c1d00e9160"),
(7,2,2,2821,1,1,19,[0,0,0,0,0,0,0,0],[217,0,0,0,0,0,0,0],0,"eca3fe2206a0b2"),
(7,2,2,2834,1,2,20,[0,0,0,0,0,0,0,0],[218,255,0,0,0,0,0,0],1,"d52acb99a1cfa8"),
(7,2,2,2847,1,0,21,[0,1,0,0,0,0,0,0],[219,0,37,0,0,0,0,0],63,"a2a7196066984e"),
(7,2,2,2860,1,1,22,[0,1,2,0,0,0,0,0],[220,1,38,75,0,0,0,0],64,"11a91c230cc881"),
(7,2,2,2873,1,2,23,[0,1,2,3,0,0,0,0],[221,2,39,76,113,0,0,0],65,"1e1197c6be8685"),
(7,2,2,2886,1,0,24,[0,1,2,3,4,0,0,0],[222,3,40,77,114,151,0,0],128,"d87b008a232cbe"),
(7,2,2,2899,1,1,25,[0,1,2,3,4,5,0,0],[223,4,41,78,115,152,189,0],200,"6c3175a4ca3019"),
(7,2,2,2912,412316860416,2,26,[0,0,0,0,0,0,0,0],[224,5,42,79,116,153,190,227],0,"9fb68a1824a260"),
(7,2,2,2925,412316860416,0,27,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],1,"4805550a38e483"),
(7,2,2,2938,412316860416,1,28,[0,1,0,0,0,0,0,0],[226,0,0,0,0,0,0,0],63,"aba2bf6427cdb5"),
(7,2,2,2951,412316860416,2,29,[0,1,2,0,0,0,0,0],[227,8,0,0,0,0,0,0],64,"28514eb46c9ea8"),
(7,2,2,2964,412316860416,0,30,[0,1,2,3,0,0,0,0],[228,9,46,0,0,0,0,0],65,"58af682aa1071c"),
(7,2,2,2977,412316860416,1,31,[0,1,2,3,4,0,0,0],[229,10,47,84,0,0,0,0],128,"b793539dd18088"),
(7,2,2,2990,412316860416,2,32,[0,1,2,3,4,5,0,0],[230,11,48,85,122,0,0,0],200,"56ca3256e0f53b"),
(7,2,2,3003,281470681743367,0,0,[0,0,0,0,0,0,0,0],[231,12,49,86,123,160,0,0],0,"0173b15b7eb30a"),
(7,2,2,3016,281470681743367,1,1,[0,0,0,0,0,0,0,0],[232,13,50,87,124,161,198,0],1,"8b6ad3b65442f4"),
(7,2,2,3029,281470681743367,2,2,[0,1,0,0,0,0,0,0],[233,14,51,88,125,162,199,236],63,"1e78cd630ad109"),
(7,2,2,3042,281470681743367,0,3,[0,1,2,0,0,0,0,0],[0,0,0,0,0,0,0,0],64,"0f90e2e1886f1e"),
(7,2,2,3055,281470681743367,1,4,[0,1,2,3,0,0,0,0],[235,0,0,0,0,0,0,0],65,"530517cd0279dc"),
(7,2,2,3068,281470681743367,2,5,[0,1,2,3,4,0,0,0],[236,17,0,0,0,0,0,0],128,"0eb8b3e8d94253"),
(7,2,2,3081,281470681743367,0,6,[0,1,2,3,4,5,0,0],[237,18,55,0,0,0,0,0],200,"0a8b99f46ecbc5"),
(7,2,2,3094,281474976710655,1,7,[0,0,0,0,0,0,0,0],[238,19,56,93,0,0,0,0],0,"c6497a91d0f3cd"),
(7,2,2,3107,281474976710655,2,8,[0,0,0,0,0,0,0,0],[239,20,57,94,131,0,0,0],1,"84ddc872fdd8cc"),
(7,2,2,3120,281474976710655,0,9,[0,1,0,0,0,0,0,0],[240,21,58,95,132,169,0,0],63,"a040d43c32e287"),
(7,2,2,3133,281474976710655,1,10,[0,1,2,0,0,0,0,0],[241,22,59,96,133,170,207,0],64,"0335cf5403bece"),
(7,2,2,3146,281474976710655,2,11,[0,1,2,3,0,0,0,0],[242,23,60,97,134,171,208,245],65,"303a02ad01646b"),
(7,2,2,3159,281474976710655,0,12,[0,1,2,3,4,0,0,0],[0,0,0,0,0,0,0,0],128,"fd77dae3b964aa"),
(7,2,2,3172,281474976710655,1,13,[0,1,2,3,4,5,0,0],[244,0,0,0,0,0,0,0],200,"6ce0d90c22483d"),
(7,0,1,3185,0,2,14,[0,0,0,0,0,0,0,0],[245,26,0,0,0,0,0,0],0,"9cfd7177534428"),
(7,0,1,3198,0,0,15,[0,0,0,0,0,0,0,0],[246,27,64,0,0,0,0,0],1,"4a02d2b0212d3d"),
(7,0,1,3211,0,1,16,[0,1,0,0,0,0,0,0],[247,28,65,102,0,0,0,0],63,"74c1b75791ae96"),
(7,0,1,3224,0,2,17,[0,1,2,0,0,0,0,0],[248,29,66,103,140,0,0,0],64,"bda94b598dde8b"),
(7,0,1,3237,0,0,18,[0,1,2,3,0,0,0,0],[249,30,67,104,141,178,0,0],65,"0ef4237170df1a"),
(7,0,1,3250,0,1,19,[0,1,2,3,4,0,0,0],[250,31,68,105,142,179,216,0],128,"0ea94f72d38e03"),
(7,0,1,3263,0,2,20,[0,1,2,3,4,5,0,0],[251,32,69,106,143,180,217,254],200,"64b8389268786b"),
(7,0,1,3276,1,0,21,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],0,"3ce2eee255aac9"),
(7,0,1,3289,1,1,22,[0,0,0,0,0,0,0,0],[253,0,0,0,0,0,0,0],1,"270dbb17f08015"),
(7,0,1,3302,1,2,23,[0,1,0,0,0,0,0,0],[254,35,0,0,0,0,0,0],63,"2d2bec354ea1f7"),
(7,0,1,3315,1,0,24,[0,1,2,0,0,0,0,0],[255,36,73,0,0,0,0,0],64,"50945b94dd03be"),
(7,0,1,3328,1,1,25,[0,1,2,3,0,0,0,0],[0,37,74,111,0,0,0,0],65,"4a5ab6f4f7741c"),
(7,0,1,3341,1,2,26,[0,1,2,3,4,0,0,0],[1,38,75,112,149,0,0,0],128,"e1be82548591ab"),
(7,0,1,3354,1,0,27,[0,1,2,3,4,5,0,0],[2,39,76,113,150,187,0,0],200,"78d79f36225c57"),
(7,0,1,3367,412316860416,1,28,[0,0,0,0,0,0,0,0],[3,40,77,114,151,188,225,0],0,"74d860bbb54bda"),
(7,0,1,3380,412316860416,2,29,[0,0,0,0,0,0,0,0],[4,41,78,115,152,189,226,7],1,"3abca554ac9184"),
(7,0,1,3393,412316860416,0,30,[0,1,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],63,"d3c3f3f7ab7726"),
(7,0,1,3406,412316860416,1,31,[0,1,2,0,0,0,0,0],[6,0,0,0,0,0,0,0],64,"ad12a637e5e4e0"),
(7,0,1,3419,412316860416,2,32,[0,1,2,3,0,0,0,0],[7,44,0,0,0,0,0,0],65,"96c696d4716f43"),
(7,0,1,3432,412316860416,0,0,[0,1,2,3,4,0,0,0],[8,45,82,0,0,0,0,0],128,"4eecb3a2596bf4"),
(7,0,1,3445,412316860416,1,1,[0,1,2,3,4,5,0,0],[9,46,83,120,0,0,0,0],200,"268eef8c6f7a5b"),
(7,0,1,3458,281470681743367,2,2,[0,0,0,0,0,0,0,0],[10,47,84,121,158,0,0,0],0,"64e138bc1ac87a"),
(7,0,1,3471,281470681743367,0,3,[0,0,0,0,0,0,0,0],[11,48,85,122,159,196,0,0],1,"fd7fa2d2f3e3ce"),
(7,0,1,3484,281470681743367,1,4,[0,1,0,0,0,0,0,0],[12,49,86,123,160,197,234,0],63,"153ed341367ece"),
(7,0,1,3497,281470681743367,2,5,[0,1,2,0,0,0,0,0],[13,50,87,124,161,198,235,16],64,"f37097065109cc"),
(7,0,1,3510,281470681743367,0,6,[0,1,2,3,0,0,0,0],[0,0,0,0,0,0,0,0],65,"b832b51d639ef9"),
(7,0,1,3523,281470681743367,1,7,[0,1,2,3,4,0,0,0],[15,0,0,0,0,0,0,0],128,"cf2bc89f9829c6"),
(7,0,1,3536,281470681743367,2,8,[0,1,2,3,4,5,0,0],[16,53,0,0,0,0,0,0],200,"d731db423f971e"),
(7,0,1,3549,281474976710655,0,9,[0,0,0,0,0,0,0,0],[17,54,91,0,0,0,0,0],0,"2cd48bbff2477a"),
(7,0,1,3562,281474976710655,1,10,[0,0,0,0,0,0,0,0],[18,55,92,129,0,0,0,0],1,"e11a8c52019c36"),
(7,0,1,3575,281474976710655,2,11,[0,1,0,0,0,0,0,0],[19,56,93,130,167,0,0,0],63,"c3d233b437907f"),
(7,0,1,3588,281474976710655,0,12,[0,1,2,0,0,0,0,0],[20,57,94,131,168,205,0,0],64,"9cbcb94dadd5d1"),
(7,0,1,3601,281474976710655,1,13,[0,1,2,3,0,0,0,0],[21,58,95,132,169,206,243,0],65,"d8dc182e1d085d"),
(7,0,1,3614,281474976710655,2,14,[0,1,2,3,4,0,0,0],[22,59,96,133,170,207,244,25],128,"c5f5a7c7495c27"),
(7,0,1,3627,281474976710655,0,15,[0,1,2,3,4,5,0,0],[0,0,0,0,0,0,0,0],200,"eee2ca6c83d66f"),
(31,1,1,3640,0,1,16,[0,0,0,0,0,0,0,0],[24,0,0,0,0,0,0,0],0,"b30c9f875141183edb1118461712e8b2d8715091063286a6490ee86f7f5efc"),
(31,1,1,3653,0,2,17,[0,0,0,0,0,0,0,0],[25,62,0,0,0,0,0,0],1,"1b634f26d583aea7568a2eb8dcdb102d354c790812f5d8ada3ef820b432613"),
(31,1,1,3666,0,0,18,[0,1,0,0,0,0,0,0],[26,63,100,0,0,0,0,0],63,"dd70bd0cd5a6ffcfbbddb27fc105d8d5c49c426ee1579ec3b4146b0af4f108"),
(31,1,1,3679,0,1,19,[0,1,2,0,0,0,0,0],[27,64,101,138,0,0,0,0],64,"a95ea7de02e47fb2704cde8276317b47e97ac6dc80131173fb07924d6920b1"),
(31,1,1,3692,0,2,20,[0,1,2,3,0,0,0,0],[28,65,102,139,176,0,0,0],65,"66046deeb8f7754f8fa210cba33e939ab4b8ec76c8a5e4350942ddc6c40b37"),
(31,1,1,3705,0,0,21,[0,1,2,3,4,0,0,0],[29,66,103,140,177,214,0,0],128,"cc069eb4c4271ef6aaf0cb44574e16825958abf8efe4e067196c6aa9c2bf5b"),
(31,1,1,3718,0,1,22,[0,1,2,3,4,5,0,0],[30,67,104,141,178,215,252,0],200,"8bb9eb57cbf8ac27f27eadf3e3db9cc4cd6d601b111422c32d5be74715f6db"),
(31,1,1,3731,1,2,23,[0,0,0,0,0,0,0,0],[31,68,105,142,179,216,253,34],0,"f3b2d8da4acf7f06469694c738e7691698f3fc1ab60fd94f7b93356c7fd434"),
(31,1,1,3744,1,0,24,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],1,"5a2edb1842a4faa7f3fb90467bbb9d293bf36244536f2b72231923965102b9"),
(31,1,1,3757,1,1,25,[0,1,0,0,0,0,0,0],[33,0,0,0,0,0,0,0],63,"d609fa17f25657ab62c50ad734fecb722d3551d898ef8eb0bdf43afe14476d"),
(31,1,1,3770,1,2,26,[0,1,2,0,0,0,0,0],[34,71,0,0,0,0,0,0],64,"6862ae8298ed9989709e436dd753fe183f240a7354a16c37a09addd9146c3d"),
(31,1,1,3783,1,0,27,[0,1,2,3,0,0,0,0],[35,72,109,0,0,0,0,0],65,"c29c54ca5dd5ef359b35c11d1d547347733eddd6b64b031413d3635ba005d0"),
(31,1,1,3796,1,1,28,[0,1,2,3,4,0,0,0],[36,73,110,147,0,0,0,0],128,"e741c2c02136ea5399eff4a9f1d90cd5f600149b76434b6344d0947f935a39"),
(31,1,1,3809,1,2,29,[0,1,2,3,4,5,0,0],[37,74,111,148,185,0,0,0],200,"081b0cf3ab38962603b6e15662cb0be106d9cb4db3179d01e9792b8cb5e8f5"),
(31,1,1,3822,412316860416,0,30,[0,0,0,0,0,0,0,0],[38,75,112,149,186,223,0,0],0,"5bf0cb0186c66ea1e722ec67243cd87defa08e3d2e5103bb80d61c9d94a230"),
(31,1,1,3835,412316860416,1,31,[0,0,0,0,0,0,0,0],[39,76,113,150,187,224,5,0],1,"edee814613553af0208684c585c5c979946574a83d403b1cd7bc502eaeb4aa"),
(31,1,1,3848,412316860416,2,32,[0,1,0,0,0,0,0,0],[40,77,114,151,188,225,6,43],63,"e05faee0c4bcb88fa5a515334379cab2e0d209a492ef12821152a7882d97a5"),
(31,1,1,3861,412316860416,0,0,[0,1,2,0,0,0,0,0],[0,0,0,0,0,0,0,0],64,"78bfaef04ee971c5f0811b4f0288c2a1631b59087c27bcaa5cb2f272974623"),
(31,1,1,3874,412316860416,1,1,[0,1,2,3,0,0,0,0],[42,0,0,0,0,0,0,0],65,"c62286dba862550a3d17cc40ccb15b563ebf433fe2f0dee4993c86d0504321"),
(31,1,1,3887,412316860416,2,2,[0,1,2,3,4,0,0,0],[43,80,0,0,0,0,0,0],128,"5fc7539d4662ab6ecd0249593a1337bdbf9acff6e293a26e2d28f69bf33b5a"),
(31,1,1,3900,412316860416,0,3,[0,1,2,3,4,5,0,0],[44,81,118,0,0,0,0,0],200,"c1e491b7aef4c723c7629a094379ab7bbebbd84effc46bc23bc5ecf3516ee9"),
(31,1,1,3913,281470681743367,1,4,[0,0,0,0,0,0,0,0],[45,82,119,156,0,0,0,0],0,"6e32f17433e98a9f6eab588b7b278e70e29bccd509e4fc91bde55afd4f4a0b"),
(31,1,1,3926,281470681743367,2,5,[0,0,0,0,0,0,0,0],[46,83,120,157,194,0,0,0],1,"949fa9aa2a5c08fb74c0c8587dbd7d3cb023097a24dc1083a3ef3e44708ebc"),
(31,1,1,3939,281470681743367,0,6,[0,1,0,0,0,0,0,0],[47,84,121,158,195,232,0,0],63,"3cf3ab5b2ffa2c1826a02368873aa5de0200281e02b6679e97fe6072491fde"),
(31,1,1,3952,281470681743367,1,7,[0,1,2,0,0,0,0,0],[48,85,122,159,196,233,14,0],64,"8cae7e3f99aa2bb65dbaaf3d4946efbad8d5acf2d452032e37ce3b7e32367e"),
(31,1,1,3965,281470681743367,2,8,[0,1,2,3,0,0,0,0],[49,86,123,160,197,234,15,52],65,"c2ec199c3bee921549370550a569e24bcb2879ecc4210943b3e304061a3394"),
(31,1,1,3978,281470681743367,0,9,[0,1,2,3,4,0,0,0],[0,0,0,0,0,0,0,0],128,"85f9887ada0ce57249057f1a94c673feedf1dd1757dff26097809de9c3b0b1"),
(31,1,1,3991,281470681743367,1,10,[0,1,2,3,4,5,0,0],[51,0,0,0,0,0,0,0],200,"01bc4541faeb647754a45146dbf840cdfc25ded0c05377eb8827b72fe0e3da"),
(31,1,1,4004,281474976710655,2,11,[0,0,0,0,0,0,0,0],[52,89,0,0,0,0,0,0],0,"e31e2ceb13c5128a33f95ff2c886e27e6b3f5f326bfdeffde3b5a07ca2c234"),
(31,1,1,4017,281474976710655,0,12,[0,0,0,0,0,0,0,0],[53,90,127,0,0,0,0,0],1,"60e8059c806d06d528ce8bb00a3dc904fbc41f35162629da9962b845ad4747"),
(31,1,1,4030,281474976710655,1,13,[0,1,0,0,0,0,0,0],[54,91,128,165,0,0,0,0],63,"b713d43f9180a7cd778cec42aa0f04dc2a03cf148f93c2330a38597ee6c8a7"),
(31,1,1,4043,281474976710655,2,14,[0,1,2,0,0,0,0,0],[55,92,129,166,203,0,0,0],64,"045eeda95a4c27c4fa3ce22de1c50965fef7a81f71a0213ec307ab25a8f3ec"),
(31,1,1,4056,281474976710655,0,15,[0,1,2,3,0,0,0,0],[56,93,130,167,204,241,0,0],65,"74e61274e792e5794a155c64c59714522e6355b00c712ce64e78143367ce77"),
(31,1,1,4069,281474976710655,1,16,[0,1,2,3,4,0,0,0],[57,94,131,168,205,242,23,0],128,"a0a1896ba8b3f4b7122d552ec44dfdc7c50789074b5751c1593b18207e0c2f"),
(31,1,1,4082,281474976710655,2,17,[0,1,2,3,4,5,0,0],[58,95,132,169,206,243,24,61],200,"1f3f0db85b4a7fd5ee4ec27a997cd99d5469b885da23308a236995db31ad38"),
(31,0,1,4095,0,0,18,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],0,"f62915522104da680ff2af856ca692e74253774a4475723c8ed4e0a708243b"),
(31,0,1,4108,0,1,19,[0,0,0,0,0,0,0,0],[60,0,0,0,0,0,0,0],1,"a8cc94be575a7a7873fbb8bf6bffa51f733d7f14e93101146d50cbbdd1f2e9"),
(31,0,1,4121,0,2,20,[0,1,0,0,0,0,0,0],[61,98,0,0,0,0,0,0],63,"2ed2bd6b4f11d95be3fe0668b142ecfd14ec48795a40334e3d4a143e87cd13"),
(31,0,1,4134,0,0,21,[0,1,2,0,0,0,0,0],[62,99,136,0,0,0,0,0],64,"48b33d903fe1c83862fccaeb34d8d6ddb95a98ce60e013f64681a8f5425a3b"),
(31,0,1,4147,0,1,22,[0,1,2,3,0,0,0,0],[63,100,137,174,0,0,0,0],65,"85647609e3d450373c0f6a534f2ec1b4f4b92eb21bc2371fe0cc27f881aced"),
(31,0,1,4160,0,2,23,[0,1,2,3,4,0,0,0],[64,101,138,175,212,0,0,0],128,"4d5448d6408f116fd292e5e7af0c1173ce01e2199eef43e132b8670072781e"),
(31,0,1,4173,0,0,24,[0,1,2,3,4,5,0,0],[65,102,139,176,213,250,0,0],200,"5197992e8e32f9c7c5cd52d16cd97f501ddd24120fbbd74892c321dbd22add"),
(31,0,1,4186,1,1,25,[0,0,0,0,0,0,0,0],[66,103,140,177,214,251,32,0],0,"3dce62783747ea24612c20e2502030e1fa0011042a93c5e4e6c0ff832a46c8"),
(31,0,1,4199,1,2,26,[0,0,0,0,0,0,0,0],[67,104,141,178,215,252,33,70],1,"9d7e17491048a4934415c894ded0a0c0e0f1e96b83ea6e359be123b6966cda"),
(31,0,1,4212,1,0,27,[0,1,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],63,"aba42bded41e1ea67ab3af70fb7a6ae1c53551af87d362be81c1d8df0f3317"),
(31,0,1,4225,1,1,28,[0,1,2,0,0,0,0,0],[69,0,0,0,0,0,0,0],64,"d95467ad63bbb7c07410cd37496b911f255afba454bdf216b8f0c52e12acbb"),
(31,0,1,4238,1,2,29,[0,1,2,3,0,0,0,0],[70,107,0,0,0,0,0,0],65,"09175f0ca3578dc816c0f4330b6f86f50277a38442c1005ae2b6e7804217c0"),
(31,0,1,4251,1,0,30,[0,1,2,3,4,0,0,0],[71,108,145,0,0,0,0,0],128,"635b7a379b5e1d48b08933229f40093d31dc3c813456ee02780d2c0eb8d907"),
(31,0,1,4264,1,1,31,[0,1,2,3,4,5,0,0],[72,109,146,183,0,0,0,0],200,"86bf0cd5ae2ba22405e94ec6db92d584cbe05b65e80d8d7acc51aa8b8ef624"),
(31,0,1,4277,412316860416,2,32,[0,0,0,0,0,0,0,0],[73,110,147,184,221,0,0,0],0,"795e9d0cf7378aafc89896fac5e969da343ea0fd46e76c49f2b9e86a427338"),
(31,0,1,4290,412316860416,0,0,[0,0,0,0,0,0,0,0],[74,111,148,185,222,3,0,0],1,"bf3663584c77d725d80651c8d9e1428a0ad97358b6c8c9680b31491c63eff6"),
(31,0,1,4303,412316860416,1,1,[0,1,0,0,0,0,0,0],[75,112,149,186,223,4,41,0],63,"ca64f07d5ad8f6ff63e044119f508887f40eb436b8eaab5666355744a53f65"),
(31,0,1,4316,412316860416,2,2,[0,1,2,0,0,0,0,0],[76,113,150,187,224,5,42,79],64,"a7652853ba2d6f079000d2b784f9373c42bbd431a57094b3422fa3656fc88d"),
(31,0,1,4329,412316860416,0,3,[0,1,2,3,0,0,0,0],[0,0,0,0,0,0,0,0],65,"e1f86fab364e018ae5db9bc94bd3a91c4b9672c1b3334f24bfd0162dc2854a"),
(31,0,1,4342,412316860416,1,4,[0,1,2,3,4,0,0,0],[78,0,0,0,0,0,0,0],128,"00640c4d64ca1b41f36f2a6cbe14ddcda4b3783328a00c6b94b6cf6b9ddbbe"),
(31,0,1,4355,412316860416,2,5,[0,1,2,3,4,5,0,0],[79,116,0,0,0,0,0,0],200,"549e140be706cab23c3aae2ebba23c3bbdf586ba18f5fd037595fd9f42a579"),
(31,0,1,4368,281470681743367,0,6,[0,0,0,0,0,0,0,0],[80,117,154,0,0,0,0,0],0,"8fc6708801dbc6c2e0f27a728558c0441865ca3f6ed98a0506b720e884e2e8"),
(31,0,1,4381,281470681743367,1,7,[0,0,0,0,0,0,0,0],[81,118,155,192,0,0,0,0],1,"6fc4cbdbfee6ccdab992c183183b8ac29de9f410eced1e6c69c53f548e8d0e"),
(31,0,1,4394,281470681743367,2,8,[0,1,0,0,0,0,0,0],[82,119,156,193,230,0,0,0],63,"d205b2b6855c9b86c40ade9d802f83714a0013726b45550e143ca77fb7fc5f"),
(31,0,1,4407,281470681743367,0,9,[0,1,2,0,0,0,0,0],[83,120,157,194,231,12,0,0],64,"193583060d39a89df7416efd2c6b921450ec79fea58dcfc83eb59fd7c7b43c"),
(31,0,1,4420,281470681743367,1,10,[0,1,2,3,0,0,0,0],[84,121,158,195,232,13,50,0],65,"4e4c1fb6312fdcefbd88a04bb8109f890dd9c84a6d1a329e8c9d145435cbca"),
(31,0,1,4433,281470681743367,2,11,[0,1,2,3,4,0,0,0],[85,122,159,196,233,14,51,88],128,"36a2411aa80660813b23452b2dba3f909d2bc64fe9c99b917789b9a801c5d8"),
(31,0,1,4446,281470681743367,0,12,[0,1,2,3,4,5,0,0],[0,0,0,0,0,0,0,0],200,"b9aef035e0bcda3e54602ab695e53cc43cc4b771762376ae9dd38ec0773db1"),
(31,0,1,4459,281474976710655,1,13,[0,0,0,0,0,0,0,0],[87,0,0,0,0,0,0,0],0,"8dab8f3fed3798c99ec1934625e9bc53f09c1cc77510237d9d5ea6d67cf3b0"),
(31,0,1,4472,281474976710655,2,14,[0,0,0,0,0,0,0,0],[88,125,0,0,0,0,0,0],1,"7a04fd1c1aefc577459f1590d9300f840c8e37b3838ab77a281e9c56f98ecb"),
(31,0,1,4485,281474976710655,0,15,[0,1,0,0,0,0,0,0],[89,126,163,0,0,0,0,0],63,"19a0247aeb331c235a20e0d12bffdff3e89bd0eef8de97950f112e0dce951b"),
(31,0,1,4498,281474976710655,1,16,[0,1,2,0,0,0,0,0],[90,127,164,201,0,0,0,0],64,"4d83529c57b1537c03c29ad9b740fdcbca4e949a0bb7ed3ab1d0f13029865d"),
(31,0,1,4511,281474976710655,2,17,[0,1,2,3,0,0,0,0],[91,128,165,202,239,0,0,0],65,"3736f57b57cd52a78182077889451531ba6db1e26440680cf9911d3ea68243"),
(31,0,1,4524,281474976710655,0,18,[0,1,2,3,4,0,0,0],[92,129,166,203,240,21,0,0],128,"e547cf737c7ae881a5a66056ae40092b6010ea783970c25c76ad4fa1713574"),
(31,0,1,4537,281474976710655,1,19,[0,1,2,3,4,5,0,0],[93,130,167,204,241,22,59,0],200,"c56464d50b4b12e347f16934fe042e913db6f47a8c719c74e486ddb6496170"),
(31,2,2,4550,0,2,20,[0,0,0,0,0,0,0,0],[94,131,168,205,242,23,60,97],0,"7cfd5f2fddff228126c0403c195316a7b04671f176954c9e008969706945e6"),
(31,2,2,4563,0,0,21,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],1,"5e8a6a0195648c1ffe1c966abcabe62e1febf36a985b6bc5890e3bddf851b2"),
(31,2,2,4576,0,1,22,[0,1,0,0,0,0,0,0],[96,0,0,0,0,0,0,0],63,"392e81d16f746cd0e3acbdd5f7743b7ba557a4abe28e34c8129079c249ce5d"),
(31,2,2,4589,0,2,23,[0,1,2,0,0,0,0,0],[97,134,0,0,0,0,0,0],64,"a4552b178109f5c3844ba110e61193bd0616f4a053a3b96829ff8e3ff21ac4"),
(31,2,2,4602,0,0,24,[0,1,2,3,0,0,0,0],[98,135,172,0,0,0,0,0],65,"567eeec8213b787cc39022a3f2b998f5ab63e79229712b1ef0f106d0229adc"),
(31,2,2,4615,0,1,25,[0,1,2,3,4,0,0,0],[99,136,173,210,0,0,0,0],128,"047fac0bd016564e9941ca6a334166bc48e70c545a5b818c744617d0e7c1a7"),
(31,2,2,4628,0,2,26,[0,1,2,3,4,5,0,0],[100,137,174,211,248,0,0,0],200,"26cdfd57233368ce8011dc3999729b279add6dc38bd13acee0b78495da654c"),
(31,2,2,4641,1,0,27,[0,0,0,0,0,0,0,0],[101,138,175,212,249,30,0,0],0,"503d5b94efa81aa7c8222a4c4b7f31294ac8a942e7a2fe0aa9867f7b998090"),
(31,2,2,4654,1,1,28,[0,0,0,0,0,0,0,0],[102,139,176,213,250,31,68,0],1,"ce07267b368172df0cb53f587865472e316164425194fa06c896437a7bda93"),
(31,2,2,4667,1,2,29,[0,1,0,0,0,0,0,0],[103,140,177,214,251,32,69,106],63,"681efc827a5b2a670f572b514bf92d88f0bea6db6d22a0c25e77dde00b7d4c"),
(31,2,2,4680,1,0,30,[0,1,2,0,0,0,0,0],[0,0,0,0,0,0,0,0],64,"569ddc3198fcfc2ba0acc6d3269099f9e6ffdce3ec955f0de109e3051b09a4"),
(31,2,2,4693,1,1,31,[0,1,2,3,0,0,0,0],[105,0,0,0,0,0,0,0],65,"bb6e9d19e83f75f7db6622c649213e32d3bebe4a77cbfb84299616fa0b45a2"),
(31,2,2,4706,1,2,32,[0,1,2,3,4,0,0,0],[106,143,0,0,0,0,0,0],128,"f74a0374ce76613a3a29a97ff5ec9968b51cf7de303bcfa02386bbd9d078f3"),
(31,2,2,4719,1,0,0,[0,1,2,3,4,5,0,0],[107,144,181,0,0,0,0,0],200,"84aa9c380732e2013b965adf773c5310b7b2b14355264681930d0ceff71174"),
(31,2,2,4732,412316860416,1,1,[0,0,0,0,0,0,0,0],[108,145,182,219,0,0,0,0],0,"7872542453b788cd1dce4c97a1dda89d1a2a94f3a92538b713d5da5a829b00"),
(31,2,2,4745,412316860416,2,2,[0,0,0,0,0,0,0,0],[109,146,183,220,1,0,0,0],1,"e69592539b4b40840197de22bccf6a4627f9b41a5a3980819c065ff5810974"),
(31,2,2,4758,412316860416,0,3,[0,1,0,0,0,0,0,0],[110,147,184,221,2,39,0,0],63,"12afd95d9ea10d052814801c922b99fc0f7c5b076951502d300f13b09ecd72"),
(31,2,2,4771,412316860416,1,4,[0,1,2,0,0,0,0,0],[111,148,185,222,3,40,77,0],64,"5166b78640c991feb6666c2d8aa068539c28cd788063f01382d7d3353f8943"),
(31,2,2,4784,412316860416,2,5,[0,1,2,3,0,0,0,0],[112,149,186,223,4,41,78,115],65,"ceb2967b4e4ff8485eccb88662db65a3c070c7420546271896eef1767bc767"),
(31,2,2,4797,412316860416,0,6,[0,1,2,3,4,0,0,0],[0,0,0,0,0,0,0,0],128,"2e74edde47ad755bc6adf6b0a0ff592ca1975af520ea4324c55eaf1ba16aae"),
(31,2,2,4810,412316860416,1,7,[0,1,2,3,4,5,0,0],[114,0,0,0,0,0,0,0],200,"163effdb034528ea2b27d2b5ea9ace6ba5e2e06b203c7959e030a45308ae3f"),
(31,2,2,4823,281470681743367,2,8,[0,0,0,0,0,0,0,0],[115,152,0,0,0,0,0,0],0,"da0b81d45ddef8c3b9884e68ea4ba46ae1ae0777fee5d3aa89aead735a5d5c"),
(31,2,2,4836,281470681743367,0,9,[0,0,0,0,0,0,0,0],[116,153,190,0,0,0,0,0],1,"f8345355db74156b1a54e6de4cf15d28971f7bb4d252746366c46e885576c1"),
(31,2,2,4849,281470681743367,1,10,[0,1,0,0,0,0,0,0],[117,154,191,228,0,0,0,0],63,"a43372d4cf1fb86f383595f19f6d443c6f6299dbca7783a6de681c8304af5b"),
(31,2,2,4862,281470681743367,2,11,[0,1,2,0,0,0,0,0],[118,155,192,229,10,0,0,0],64,"106c04c273004614450c88b4622287195f5cfe9f857f5107d0dfa8fc4fbd69"),
(31,2,2,4875,281470681743367,0,12,[0,1,2,3,0,0,0,0],[119,156,193,230,11,48,0,0],65,"739b597969321398d06bccdf1cf18c4da7f380999140db76cf30cda11ae953"),
(31,2,2,4888,281470681743367,1,13,[0,1,2,3,4,0,0,0],[120,157,194,231,12,49,86,0],128,"522e750045945f3eb09ea1818f5228b5c80f43de5ce969e3fa18fa8467d50f"),
(31,2,2,4901,281470681743367,2,14,[0,1,2,3,4,5,0,0],[121,158,195,232,13,50,87,124],200,"ad07d7fd908e05b6c96d2d04e5bdf9c793b484e8ddb27e32b85e6f4037d674"),
(31,2,2,4914,281474976710655,0,15,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],0,"ecf21b23c354c0aa2072020efbbf80c45f0faf276dd493154049d0d7506905"),
(31,2,2,4927,281474976710655,1,16,[0,0,0,0,0,0,0,0],[123,0,0,0,0,0,0,0],1,"ad31c660d7c487b790a2cb015e1aa4e35872cfd9cbcdb20b98d40bd1da0c7d"),
(31,2,2,4940,281474976710655,2,17,[0,1,0,0,0,0,0,0],[124,161,0,0,0,0,0,0],63,"7fb8c4c033c037e537a52c0638493597a0bc1e9aabba3f52e4dfc24398f7fb"),
(31,2,2,4953,281474976710655,0,18,[0,1,2,0,0,0,0,0],[125,162,199,0,0,0,0,0],64,"aaf214d2624cba006407491a160925c5b44cb4991bd46b99d2d415b4a1c92f"),
(31,2,2,4966,281474976710655,1,19,[0,1,2,3,0,0,0,0],[126,163,200,237,0,0,0,0],65,"e7ff5fe739be4376309d9d3c2c7883a522563392cc0df74ae5082a35b925db"),
(31,2,2,4979,281474976710655,2,20,[0,1,2,3,4,0,0,0],[127,164,201,238,19,0,0,0],128,"203b154e07e3467fa939177a72e9edc74e45428f9b8e8372698dce77e0d7b9"),
(31,2,2,4992,281474976710655,0,21,[0,1,2,3,4,5,0,0],[128,165,202,239,20,57,0,0],200,"61e83361803c438d11cec51b7cb321fe1d156f5ab406ef05093490351c9e5c"),
(31,0,1,5,0,1,22,[0,0,0,0,0,0,0,0],[129,166,203,240,21,58,95,0],0,"66e424c1d27df3291007aee06672eddbe8ccca4c7ead24b7d66badc686d5c0"),
(31,0,1,18,0,2,23,[0,0,0,0,0,0,0,0],[130,167,204,241,22,59,96,133],1,"cda7421a12337b52588335ddb90b17b108f2766f19a757d2533356a4c2897e"),
(31,0,1,31,0,0,24,[0,1,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],63,"286bdca52ecea430b1a249e11ef9ff6ebf6b4262ede5808cb42d3fb130f2b2"),
(31,0,1,44,0,1,25,[0,1,2,0,0,0,0,0],[132,0,0,0,0,0,0,0],64,"930b57c3ac59efa4bff8c2679d2ace1be160246b0ee1180b4e9127a5128446"),
(31,0,1,57,0,2,26,[0,1,2,3,0,0,0,0],[133,170,0,0,0,0,0,0],65,"2a2854a07ddc75506b4b272816a27e0de43797abebc338a53c8f0cd9f151c4"),
(31,0,1,70,0,0,27,[0,1,2,3,4,0,0,0],[134,171,208,0,0,0,0,0],128,"733fb6311ad1462207d4c781190d48d483678c666e18f7b9b61ac797382f8b"),
(31,0,1,83,0,1,28,[0,1,2,3,4,5,0,0],[135,172,209,246,0,0,0,0],200,"8e27b36fb7e129805498868a303795ba90d540bb00affc32774ed231b1be5a"),
(31,0,1,96,1,2,29,[0,0,0,0,0,0,0,0],[136,173,210,247,28,0,0,0],0,"a3adeca76eb7b166b1c563d97a4ec8061fb03798052cdbe147e0d4205b0469"),
(31,0,1,109,1,0,30,[0,0,0,0,0,0,0,0],[137,174,211,248,29,66,0,0],1,"9762c853336edd3561b98c8c6984795e9198df100a82d02f0d7dee88dcb97f"),
(31,0,1,122,1,1,31,[0,1,0,0,0,0,0,0],[138,175,212,249,30,67,104,0],63,"35f28cecd1bc62619a9a3aa91b1cefff5199edd4b65544146d52355ff7ad44"),
(31,0,1,135,1,2,32,[0,1,2,0,0,0,0,0],[139,176,213,250,31,68,105,142],64,"ceb8b10853bdd0beff4c54f90a0c8364455c664e77cee15617572e6ae3a93b"),
(31,0,1,148,1,0,0,[0,1,2,3,0,0,0,0],[0,0,0,0,0,0,0,0],65,"f5d75368dc56da9c8d48b712e426061981698c5fc67943ef9027d4e4adf1e4"),
(31,0,1,161,1,1,1,[0,1,2,3,4,0,0,0],[141,0,0,0,0,0,0,0],128,"af097e4585fea67fc3a4ac766c86c6e992b3e209bc6ed0803f4e9ca7308812"),
(31,0,1,174,1,2,2,[0,1,2,3,4,5,0,0],[142,179,0,0,0,0,0,0],200,"8b2516a44dd25667653df24080484511ce7ada75c4a6a4589310bdc0b143c7"),
(31,0,1,187,412316860416,0,3,[0,0,0,0,0,0,0,0],[143,180,217,0,0,0,0,0],0,"2ea42a7b8c140d632deff83d21ebc1051f774e7ae7f6ad1b6dfc9688e8b1b9"),
(31,0,1,200,412316860416,1,4,[0,0,0,0,0,0,0,0],[144,181,218,255,0,0,0,0],1,"878853542e7a28b5d6ab47f72b73c79e923139e0a3f6c38da28191aa58f687"),
(31,0,1,213,412316860416,2,5,[0,1,0,0,0,0,0,0],[145,182,219,0,37,0,0,0],63,"c6adb1f259de4fddd2f3844b266265fc781e8638985676511e8ad1f21e8339"),
(31,0,1,226,412316860416,0,6,[0,1,2,0,0,0,0,0],[146,183,220,1,38,75,0,0],64,"2c742ad14a987de801fcbc8fcd8c8ca4c50846f5661f4a0d570719f623e6aa"),
(31,0,1,239,412316860416,1,7,[0,1,2,3,0,0,0,0],[147,184,221,2,39,76,113,0],65,"c7f03865aaf8d44e6c15a6e3b0e39c1c9a46da229b1130bc6c6d37ab790f8f"),
(31,0,1,252,412316860416,2,8,[0,1,2,3,4,0,0,0],[148,185,222,3,40,77,114,151],128,"6b64ae9e75fc6376c80666fa7718e3addd4229631172735a1cb97a1baab22b"),
(31,0,1,265,412316860416,0,9,[0,1,2,3,4,5,0,0],[0,0,0,0,0,0,0,0],200,"ad147d9eb105c6a684380696663641e4f5caa57a5aae21f442c77066bef590"),
(31,0,1,278,281470681743367,1,10,[0,0,0,0,0,0,0,0],[150,0,0,0,0,0,0,0],0,"4d0749ba20d8de78c2a3d698a4f8507196b8e544463eb58ce4f712c6c61019"),
(31,0,1,291,281470681743367,2,11,[0,0,0,0,0,0,0,0],[151,188,0,0,0,0,0,0],1,"8af46f7dcce3906c40deb187a1b18b52531d5ce99d40336e64188da0aa540b"),
(31,0,1,304,281470681743367,0,12,[0,1,0,0,0,0,0,0],[152,189,226,0,0,0,0,0],63,"2ea7e3743cf68439f3c21fe468b5b91be30d3322e7f738dd9f88beca25a6e6"),
(31,0,1,317,281470681743367,1,13,[0,1,2,0,0,0,0,0],[153,190,227,8,0,0,0,0],64,"662352be1227838ed5edd438729718e8b499e77e4e21f751e8707170f0ed31"),
(31,0,1,330,281470681743367,2,14,[0,1,2,3,0,0,0,0],[154,191,228,9,46,0,0,0],65,"ecf74ce9009f9ccc15255e7d4cf9440a68133d656012c673d69cc088ee6259"),
(31,0,1,343,281470681743367,0,15,[0,1,2,3,4,0,0,0],[155,192,229,10,47,84,0,0],128,"d2fe18db5eadcf8b92ac8254292dfa7d7717e9cc8d69612a04df704173f594"),
(31,0,1,356,281470681743367,1,16,[0,1,2,3,4,5,0,0],[156,193,230,11,48,85,122,0],200,"fe2dd4020d025bae7fdf91e9c8a268cd95ff974e694c693aaeea5f04065e6b"),
(31,0,1,369,281474976710655,2,17,[0,0,0,0,0,0,0,0],[157,194,231,12,49,86,123,160],0,"c294be6b062623ed3d3816d851154a63303772f54e47adf450a86e9787c89f"),
(31,0,1,382,281474976710655,0,18,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],1,"c30bd042e455c49ce86d701b253d5126e83164fa311021da9109ccbb1bc2d6"),
(31,0,1,395,281474976710655,1,19,[0,1,0,0,0,0,0,0],[159,0,0,0,0,0,0,0],63,"b0ba19f55ce080482c204b42de2987cb8dfd8bfd6611fd9a30bf528106ae97"),
(31,0,1,408,281474976710655,2,20,[0,1,2,0,0,0,0,0],[160,197,0,0,0,0,0,0],64,"f322354484947b2806b994b790c27d9abee52f2cf412c65eb40638b8e112b3"),
(31,0,1,421,281474976710655,0,21,[0,1,2,3,0,0,0,0],[161,198,235,0,0,0,0,0],65,"014161c25db13a74a333516e5e84c013269cce86e91d32f5b0f41008ffda71"),
(31,0,1,434,281474976710655,1,22,[0,1,2,3,4,0,0,0],[162,199,236,17,0,0,0,0],128,"5d0b5ede67494caddc01aa9bb8052961292cbdf9ff370944c6b35423befcb3"),
(31,0,1,447,281474976710655,2,23,[0,1,2,3,4,5,0,0],[163,200,237,18,55,0,0,0],200,"abc564629ff2a2e759fdb3d5dff3f8ff3c0dfbbb35da5f976c37bb54478f8b"),
(32,1,1,460,0,0,24,[0,0,0,0,0,0,0,0],[164,201,238,19,56,93,0,0],0,"bb1127383f07b54844dfd45c49ed43ee32a267140af7e4a4028edd9445ab0c1b"),
(32,1,1,473,0,1,25,[0,0,0,0,0,0,0,0],[165,202,239,20,57,94,131,0],1,"b037542204ad33d83302ea7cb766c5c3b9508f00b6c07c5dc8aee9e5c8680382"),
(32,1,1,486,0,2,26,[0,1,0,0,0,0,0,0],[166,203,240,21,58,95,132,169],63,"cb10254093de1b05e4156403e1eb717c5024c621a4694d5a50412cb13870bbf3"),
(32,1,1,499,0,0,27,[0,1,2,0,0,0,0,0],[0,0,0,0,0,0,0,0],64,"157340777e0c672736e92d6ff803b9e5492212068747b24894fef7090f967d90"),
(32,1,1,512,0,1,28,[0,1,2,3,0,0,0,0],[168,0,0,0,0,0,0,0],65,"4a3d718b55afa2b88782337b996a1b88fc70e5329b928a0539dea966bcf4367d"),
(32,1,1,525,0,2,29,[0,1,2,3,4,0,0,0],[169,206,0,0,0,0,0,0],128,"949c02f9d8aeb682f391afdf849928ae5c659d6b8373f665f98db7a9340d2e04"),
(32,1,1,538,0,0,30,[0,1,2,3,4,5,0,0],[170,207,244,0,0,0,0,0],200,"3c22492a3e554516c83dd6648084e1fc90dc10e4aea1f379fd63d4cc374754cc"),
(32,1,1,551,1,1,31,[0,0,0,0,0,0,0,0],[171,208,245,26,0,0,0,0],0,"858dd6a4ba399c1dad091930c5f27d0e5e4d2c5f6856714c4b8522a1854e89b1"),
(32,1,1,564,1,2,32,[0,0,0,0,0,0,0,0],[172,209,246,27,64,0,0,0],1,"6ce7e338c6566a75793f816242e53912ab5409ada0f37ee8723a23da78a13aa8"),
(32,1,1,577,1,0,0,[0,1,0,0,0,0,0,0],[173,210,247,28,65,102,0,0],63,"d6b480840594cf0473d30fba4a299778e8395ebdf9f119f22a8cf76129838d77"),
(32,1,1,590,1,1,1,[0,1,2,0,0,0,0,0],[174,211,248,29,66,103,140,0],64,"9bf4e3d8b51942b9db753bfaeb70fef9d0e72ae9cc44054c56687ecfa40c2672"),
(32,1,1,603,1,2,2,[0,1,2,3,0,0,0,0],[175,212,249,30,67,104,141,178],65,"fe2ab65a69c49bd85ef872395316100c99001238b26a16da7453db9fcdc05e7d"),
(32,1,1,616,1,0,3,[0,1,2,3,4,0,0,0],[0,0,0,0,0,0,0,0],128,"da9a46cd2441256467700ad38fbe312dd9002be140c6dc9bbf7d3b43666a21f9"),
(32,1,1,629,1,1,4,[0,1,2,3,4,5,0,0],[177,0,0,0,0,0,0,0],200,"cca75de6b8c202ead1236abc5ced5829dc57981e1f758ef91135aa848f2f528b"),
(32,1,1,642,412316860416,2,5,[0,0,0,0,0,0,0,0],[178,215,0,0,0,0,0,0],0,"598c0989247062eef61be60a17165e8b2060d9b01057278612b8588de3a66fca"),
(32,1,1,655,412316860416,0,6,[0,0,0,0,0,0,0,0],[179,216,253,0,0,0,0,0],1,"58f12292538c5719e3ee12dcb6a2f4f07f2ee64c68a7cceaae25e1f9b51cbfe4"),
(32,1,1,668,412316860416,1,7,[0,1,0,0,0,0,0,0],[180,217,254,35,0,0,0,0],63,"0053441164c8f4ab2ccc461c7dc6f1f0bb18e409587effa1575940fe093892eb"),
(32,1,1,681,412316860416,2,8,[0,1,2,0,0,0,0,0],[181,218,255,36,73,0,0,0],64,"bc4254c88bf07d1a01a9b949684ebbda208d2f6d4c849f9d56222717087d3d06"),
(32,1,1,694,412316860416,0,9,[0,1,2,3,0,0,0,0],[182,219,0,37,74,111,0,0],65,"43b49997f1880c77e68cbfff4458a510dea62d3ac76ad2c3ef345111c87da051"),
(32,1,1,707,412316860416,1,10,[0,1,2,3,4,0,0,0],[183,220,1,38,75,112,149,0],128,"e416102656a9533dad5368ff041abd7c989ab714e7a2c599d2fb279e2ca7f695"),
(32,1,1,720,412316860416,2,11,[0,1,2,3,4,5,0,0],[184,221,2,39,76,113,150,187],200,"462ae1ed588363ca8d1753223501224b7c512a0aded00eee81e68fa5f632d73c"),
(32,1,1,733,281470681743367,0,12,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],0,"7327e7ee37078686c020952e08562e654ec0a7cb6753ff29c05ea8dc81f96240"),
(32,1,1,746,281470681743367,1,13,[0,0,0,0,0,0,0,0],[186,0,0,0,0,0,0,0],1,"cba49443392907c5c7f62499f48942b2e5470e963d65389af20d5f50ccb53d48"),
(32,1,1,759,281470681743367,2,14,[0,1,0,0,0,0,0,0],[187,224,0,0,0,0,0,0],63,"d7654041c836f7a1afe85c098d197cf71bbad3c0d40be74503748d2067429ab1"),
(32,1,1,772,281470681743367,0,15,[0,1,2,0,0,0,0,0],[188,225,6,0,0,0,0,0],64,"7b2ec5177b42bad7de0b0eb374a5a569ba1450350cf4b68bf3eab05e29df925f"),
(32,1,1,785,281470681743367,1,16,[0,1,2,3,0,0,0,0],[189,226,7,44,0,0,0,0],65,"370544f3f4423aed8bec51a4542a6253097873d074930ecc1e40ba068bd1698a"),
(32,1,1,798,281470681743367,2,17,[0,1,2,3,4,0,0,0],[190,227,8,45,82,0,0,0],128,"5c09630d7c173e536dca210c743d3d6c3696395e619c19739a8aa24b0adf26fd"),
(32,1,1,811,281470681743367,0,18,[0,1,2,3,4,5,0,0],[191,228,9,46,83,120,0,0],200,"2b668f31b1a80a60945e366374537f2c719a5f8f03d70e6019b67d1a3bb6b68d"),
(32,1,1,824,281474976710655,1,19,[0,0,0,0,0,0,0,0],[192,229,10,47,84,121,158,0],0,"089b774b71f9471f45a3edee6049958a75b27d7e5d819d878c1bebbfaec07910"),
(32,1,1,837,281474976710655,2,20,[0,0,0,0,0,0,0,0],[193,230,11,48,85,122,159,196],1,"d05b91f054391f26d347ef459a6c34ade96b833c169fd558ebfbef0712a05536"),
(32,1,1,850,281474976710655,0,21,[0,1,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],63,"ae2cfc6e108e8b660bcff55450fa7f3262a735ec98df890a842a534707e7ae71"),
(32,1,1,863,281474976710655,1,22,[0,1,2,0,0,0,0,0],[195,0,0,0,0,0,0,0],64,"5024666ea537b93d4596b21686ec9e7f4b0209fa36473c1b537bda68aadf3261"),
(32,1,1,876,281474976710655,2,23,[0,1,2,3,0,0,0,0],[196,233,0,0,0,0,0,0],65,"c25d7604a6dca3c101c010be9257363f651f0d7f4dd81814ea80b36d748f10f5"),
(32,1,1,889,281474976710655,0,24,[0,1,2,3,4,0,0,0],[197,234,15,0,0,0,0,0],128,"b40aabfac36951903d37be9158a53bd6596fb5301ec3d5ccb1900492faeb7e9a"),
(32,1,1,902,281474976710655,1,25,[0,1,2,3,4,5,0,0],[198,235,16,53,0,0,0,0],200,"cfee03748810167e1c0c2a2dc0835f8bff1c17775dc2847643358806bd8eb47b"),
(32,0,1,915,0,2,26,[0,0,0,0,0,0,0,0],[199,236,17,54,91,0,0,0],0,"d7b375a902f7d0eb265ad638636b10d6859d3761fe5442e7389d2e9fe74666ce"),
(32,0,1,928,0,0,27,[0,0,0,0,0,0,0,0],[200,237,18,55,92,129,0,0],1,"85ea6bd9b7f0a042923f7b207cc465ef40fa86337e4ddd9351a5e9d4c8cc1cd2"),
(32,0,1,941,0,1,28,[0,1,0,0,0,0,0,0],[201,238,19,56,93,130,167,0],63,"c6b6fb3361132e35d44eca5311b7724436b899b8ca1f038e2c7e5260e7703267"),
(32,0,1,954,0,2,29,[0,1,2,0,0,0,0,0],[202,239,20,57,94,131,168,205],64,"adbeb68c05879500da8f01c6968842aa5aa30e63f180d145fee0b32d2e31daba"),
(32,0,1,967,0,0,30,[0,1,2,3,0,0,0,0],[0,0,0,0,0,0,0,0],65,"40dcda2cacf53ce19f3703e1c8692deb37eaa7e333a46cfc995e871cb0b986b0"),
(32,0,1,980,0,1,31,[0,1,2,3,4,0,0,0],[204,0,0,0,0,0,0,0],128,"e5cf29d77637f22712487f66eef695ebccf55c4ebff99572f8b2521c25aaa6dd"),
(32,0,1,993,0,2,32,[0,1,2,3,4,5,0,0],[205,242,0,0,0,0,0,0],200,"e7d218ceb09f5e962a031ab6bfd8151dbc71c93c80fb88f175ea9737dcfa3b7b"),
(32,0,1,1006,1,0,0,[0,0,0,0,0,0,0,0],[206,243,24,0,0,0,0,0],0,"99489a916d807b690dbb32a1e2ac0977dbec23543c46071cb027ce2547f131b3"),
(32,0,1,1019,1,1,1,[0,0,0,0,0,0,0,0],[207,244,25,62,0,0,0,0],1,"8fd2a84c80fc5c6d6884b5267d943901bcf4099d8fa9d981e2dee16f8a224729"),
(32,0,1,1032,1,2,2,[0,1,0,0,0,0,0,0],[208,245,26,63,100,0,0,0],63,"c39892aab957471f316b79c95488dc5368952582692527fcc5160f3e4441ac83"),
(32,0,1,1045,1,0,3,[0,1,2,0,0,0,0,0],[209,246,27,64,101,138,0,0],64,"7186961b8e4871df45ee28a9a692a3ddb4e60cfd27f221d915f4267121e4549a"),
(32,0,1,1058,1,1,4,[0,1,2,3,0,0,0,0],[210,247,28,65,102,139,176,0],65,"c369a926ccdabc498fdec035236de90b7809ffd90875544c0470cc45dcacdba1"),
(32,0,1,1071,1,2,5,[0,1,2,3,4,0,0,0],[211,248,29,66,103,140,177,214],128,"bd1fd4db0018f0f058c30a79ff4ecb536657c30458016bbeda3c193496f78977"),
(32,0,1,1084,1,0,6,[0,1,2,3,4,5,0,0],[0,0,0,0,0,0,0,0],200,"181e546f799eda41b61a2fd325f4f8d8b4a264c0445393df54c216400e13ebae"),
(32,0,1,1097,412316860416,1,7,[0,0,0,0,0,0,0,0],[213,0,0,0,0,0,0,0],0,"9b2b54661ddf2a37df4296d6eb8883b98cad77cc59dca5b0ec7be8f234e1bc89"),
(32,0,1,1110,412316860416,2,8,[0,0,0,0,0,0,0,0],[214,251,0,0,0,0,0,0],1,"f4504653d015f7bb1ab0c904b2dbaeb37379d8ef278e13cda6657eb352560a3e"),
(32,0,1,1123,412316860416,0,9,[0,1,0,0,0,0,0,0],[215,252,33,0,0,0,0,0],63,"30f27df08c1bc24a14171a021c6740245b0a5f255762085ca5750c96c3f1483a"),
(32,0,1,1136,412316860416,1,10,[0,1,2,0,0,0,0,0],[216,253,34,71,0,0,0,0],64,"2bd59ce2e8b000406fd1d5fc1edb9347f8e3a3fc7aac65cb6dd12f9ddc96f29f"),
(32,0,1,1149,412316860416,2,11,[0,1,2,3,0,0,0,0],[217,254,35,72,109,0,0,0],65,"68476ab5d26ffd89106921eb3933990624511b49d16e38daa81c8f6e3cacc0ce"),
(32,0,1,1162,412316860416,0,12,[0,1,2,3,4,0,0,0],[218,255,36,73,110,147,0,0],128,"53b784437a8a1a8d9d95b6dfac564dc605f830952530c7e285736ac50c1a828d"),
(32,0,1,1175,412316860416,1,13,[0,1,2,3,4,5,0,0],[219,0,37,74,111,148,185,0],200,"80decd742eafa9d1f9f7f5bb84fbd02a41e8f72bb9e87f113efb38cb35385b6d"),
(32,0,1,1188,281470681743367,2,14,[0,0,0,0,0,0,0,0],[220,1,38,75,112,149,186,223],0,"8fd549e0f9a4a1d931821ad99b3549834c570328be58788fd00f6115599df3c4"),
(32,0,1,1201,281470681743367,0,15,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],1,"651c07770b962f634214763944b93384bb79cc36fef3f77da976445445879f4d"),
(32,0,1,1214,281470681743367,1,16,[0,1,0,0,0,0,0,0],[222,0,0,0,0,0,0,0],63,"3b50c4203e7aca2650ea5184c27805bf380ce116aa83510e8e9ef3a096898be3"),
(32,0,1,1227,281470681743367,2,17,[0,1,2,0,0,0,0,0],[223,4,0,0,0,0,0,0],64,"54138e78d65f6cab5d2fffafe9cd67df7bb50cdea041f097c110e91281944826"),
(32,0,1,1240,281470681743367,0,18,[0,1,2,3,0,0,0,0],[224,5,42,0,0,0,0,0],65,"d8c9ec334a36a34c702877ba10d162a79eeff233ebe37579ef6e7828fa98e646"),
(32,0,1,1253,281470681743367,1,19,[0,1,2,3,4,0,0,0],[225,6,43,80,0,0,0,0],128,"9cc97d9b97348f8558913fca41875e7cb8462b096804c51ce808452c75f0c07c"),
(32,0,1,1266,281470681743367,2,20,[0,1,2,3,4,5,0,0],[226,7,44,81,118,0,0,0],200,"b5eb10f621e837a9a576fe264c73b230d895f0bf36fb0ca5051584402bc1cb35"),
(32,0,1,1279,281474976710655,0,21,[0,0,0,0,0,0,0,0],[227,8,45,82,119,156,0,0],0,"6d38766022594d286ee2e7f42863387f66d9849967c03ad174b18f4a7a608602"),
(32,0,1,1292,281474976710655,1,22,[0,0,0,0,0,0,0,0],[228,9,46,83,120,157,194,0],1,"653c829aa96d7e193cd8b82dc85bb55e415ca2d75da29482880e2e510288aa6f"),
(32,0,1,1305,281474976710655,2,23,[0,1,0,0,0,0,0,0],[229,10,47,84,121,158,195,232],63,"46cea9529324d7c82911a9a4969faaaa409199c4b0ec9031676c5ca660a252c1"),
(32,0,1,1318,281474976710655,0,24,[0,1,2,0,0,0,0,0],[0,0,0,0,0,0,0,0],64,"1f1b77e168455613f4f1cd5de428e5604e655a337b5008e1c330a162e5c3f589"),
(32,0,1,1331,281474976710655,1,25,[0,1,2,3,0,0,0,0],[231,0,0,0,0,0,0,0],65,"fdc8b25913eb3368eb9e55c9270e2aed515e63faa4b15a6b2396a674a16455f7"),
(32,0,1,1344,281474976710655,2,26,[0,1,2,3,4,0,0,0],[232,13,0,0,0,0,0,0],128,"c2fa580a58770ac58b577abed0358c40f46c53828c79186e6362a351d0b2babb"),
(32,0,1,1357,281474976710655,0,27,[0,1,2,3,4,5,0,0],[233,14,51,0,0,0,0,0],200,"b67cced5c51e0cab41a45d2f5bb36fad26be7efa06dd2fbf9a15c0758b9ce1ca"),
(32,2,2,1370,0,1,28,[0,0,0,0,0,0,0,0],[234,15,52,89,0,0,0,0],0,"df8cdbd3e205cfb9141d9cb32012a7710ce6fc73ed218d0b2caf7d555108f57f"),
(32,2,2,1383,0,2,29,[0,0,0,0,0,0,0,0],[235,16,53,90,127,0,0,0],1,"736a8839776208080543e506fd6040d98c4b827922bdead36261ff4d21e5c3c6"),
(32,2,2,1396,0,0,30,[0,1,0,0,0,0,0,0],[236,17,54,91,128,165,0,0],63,"c5f644422b13610b5dc98b336b3c65d683df7bfb7dbb14ddfcd9fb8836621b65"),
(32,2,2,1409,0,1,31,[0,1,2,0,0,0,0,0],[237,18,55,92,129,166,203,0],64,"87bb27d741e9411fdb1aaa55db1f26e5fba48815ab7e0eb1b8b1d1f53868d522"),
(32,2,2,1422,0,2,32,[0,1,2,3,0,0,0,0],[238,19,56,93,130,167,204,241],65,"4433e23bec711e9924d3c2b0a3347f1b3310b2ece6d72b34fbb73438476b5dd6"),
(32,2,2,1435,0,0,0,[0,1,2,3,4,0,0,0],[0,0,0,0,0,0,0,0],128,"159b553c3b950a3275f83903030144c151a41adec4b31d7f02d637f21e90b0c4"),
(32,2,2,1448,0,1,1,[0,1,2,3,4,5,0,0],[240,0,0,0,0,0,0,0],200,"65668824db5f70f17992c6650c9dd4d3c6202ac00c12fe56e3b2e174044d8c48"),
(32,2,2,1461,1,2,2,[0,0,0,0,0,0,0,0],[241,22,0,0,0,0,0,0],0,"218b577e1ac6909d56b9cf5587d08ce3c74ee2cc7de1b10e3490327a6010ee5d"),
(32,2,2,1474,1,0,3,[0,0,0,0,0,0,0,0],[242,23,60,0,0,0,0,0],1,"c82e4aee55a10e48e6e27512d516c9ff251aee271db2ca715f5f08e282978a7d"),
(32,2,2,1487,1,1,4,[0,1,0,0,0,0,0,0],[243,24,61,98,0,0,0,0],63,"bc37183d78db55f27c2a5424db297485d5c0f960819b1f378cdd2f62680b785e"),
(32,2,2,1500,1,2,5,[0,1,2,0,0,0,0,0],[244,25,62,99,136,0,0,0],64,"e0c7a42beb3d0a2f0198fd60a6e64d33e698cd352d19a595512abd6ef3296449"),
(32,2,2,1513,1,0,6,[0,1,2,3,0,0,0,0],[245,26,63,100,137,174,0,0],65,"fbc306a297c2646882df083f67e81d181730ced598e2a65b7f7a3fb3d14cf1ee"),
(32,2,2,1526,1,1,7,[0,1,2,3,4,0,0,0],[246,27,64,101,138,175,212,0],128,"5c32712dc3501bdba0c9a842d2fe38860fe79299121cd360649270d72d14ec6d"),
(32,2,2,1539,1,2,8,[0,1,2,3,4,5,0,0],[247,28,65,102,139,176,213,250],200,"4bd48f97d928a50e929e755fae8e9b7bc5c487159dd779145ccaf53a449a1042"),
(32,2,2,1552,412316860416,0,9,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],0,"65f515d248bebc3781faa3978d94eec4e8aa3e77dbd3211ff64e7778fc0fc17c"),
(32,2,2,1565,412316860416,1,10,[0,0,0,0,0,0,0,0],[249,0,0,0,0,0,0,0],1,"3a4ef6d677ae69f04fef01354fb7f834b6d34b73e51e4f0ea9f4ea14b6d386ed"),
(32,2,2,1578,412316860416,2,11,[0,1,0,0,0,0,0,0],[250,31,0,0,0,0,0,0],63,"233f9325be3a0b5ecaae05c960180e02bfe932b4b52881030d097da33d7f3291"),
(32,2,2,1591,412316860416,0,12,[0,1,2,0,0,0,0,0],[251,32,69,0,0,0,0,0],64,"986fed5b44a5e076e578278a8765bb59b05140abc4e94109c4a7abbf00f11c9f"),
(32,2,2,1604,412316860416,1,13,[0,1,2,3,0,0,0,0],[252,33,70,107,0,0,0,0],65,"56f98c55942c289b7b5556bf7ecc3b82b7c19495a7f34222788e99062f54a125"),
(32,2,2,1617,412316860416,2,14,[0,1,2,3,4,0,0,0],[253,34,71,108,145,0,0,0],128,"b6e1b1ea74f1025c2876f9a2cf6981f922979f5945ee9a500365b4afaf3ec457"),
(32,2,2,1630,412316860416,0,15,[0,1,2,3,4,5,0,0],[254,35,72,109,146,183,0,0],200,"5d05a3906e31929ed199771ac29fb8a8d1cff4cf75009a690f9b03a32e260710"),
(32,2,2,1643,281470681743367,1,16,[0,0,0,0,0,0,0,0],[255,36,73,110,147,184,221,0],0,"8f4d31cf901a75e1c566a29a90fd15fe614eeb811b3899a1e91107ee2edbe7a2"),
(32,2,2,1656,281470681743367,2,17,[0,0,0,0,0,0,0,0],[0,37,74,111,148,185,222,3],1,"3f759cd882cd4a48caa26d40c71ec50ef7d592418d5db7e453a9d1e9542bfed0"),
(32,2,2,1669,281470681743367,0,18,[0,1,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],63,"eb86804f3fc7a50efe911ec7faec02503d6bd107007b9ade9d1e865f09b326b6"),
(32,2,2,1682,281470681743367,1,19,[0,1,2,0,0,0,0,0],[2,0,0,0,0,0,0,0],64,"945b3b170cc24bec837d26acda98f9b150176c0525fbfbab1c70757fc2f7eb03"),
(32,2,2,1695,281470681743367,2,20,[0,1,2,3,0,0,0,0],[3,40,0,0,0,0,0,0],65,"11a80f405a9c53c0db251af1935e050c0b21deb9c477c3457e92aa12e56589ba"),
(32,2,2,1708,281470681743367,0,21,[0,1,2,3,4,0,0,0],[4,41,78,0,0,0,0,0],128,"4b6ae4b3341f5073763aca25528cb9c3e5f81cd302f865a645ab572c9268e809"),
(32,2,2,1721,281470681743367,1,22,[0,1,2,3,4,5,0,0],[5,42,79,116,0,0,0,0],200,"664b22411fa960f3697943e742235bef5b0df7cad8229664881d47190c754385"),
(32,2,2,1734,281474976710655,2,23,[0,0,0,0,0,0,0,0],[6,43,80,117,154,0,0,0],0,"518eb2483b32d1b5ff81d60353df3d5021f082d2914b85d7b6c3d15f988f1d48"),
(32,2,2,1747,281474976710655,0,24,[0,0,0,0,0,0,0,0],[7,44,81,118,155,192,0,0],1,"00d0718f12004b7aa5ac47fc4a13b496c1855abc7e4c4686a8643094e0880d80"),
(32,2,2,1760,281474976710655,1,25,[0,1,0,0,0,0,0,0],[8,45,82,119,156,193,230,0],63,"eee4c29ee32cacfc5a06f2d6f7d89107e1f7648181dcb1a76caba4f316ea056f"),
(32,2,2,1773,281474976710655,2,26,[0,1,2,0,0,0,0,0],[9,46,83,120,157,194,231,12],64,"534e02ade809e9f6f86eb80d6efa2fb48d2db1923d7e0199a5a87804701174d0"),
(32,2,2,1786,281474976710655,0,27,[0,1,2,3,0,0,0,0],[0,0,0,0,0,0,0,0],65,"772e03e80df69548eed74394370ab85d417a51c4eec3bb55e50d01a272252c86"),
(32,2,2,1799,281474976710655,1,28,[0,1,2,3,4,0,0,0],[11,0,0,0,0,0,0,0],128,"23faf6b5d54c1a4a3c18ba34bc667f4d1a80a2035257dc29544d7bcfa3ea6b5b"),
(32,2,2,1812,281474976710655,2,29,[0,1,2,3,4,5,0,0],[12,49,0,0,0,0,0,0],200,"6297f01b9b64ce576ffd394e76cb7210ded114fc3e4ed4c4022d0b63cb7f7e8f"),
(32,0,1,1825,0,0,30,[0,0,0,0,0,0,0,0],[13,50,87,0,0,0,0,0],0,"00f1d40abc96716e16d24ce585b95e720e2c9cd509a1816ee393c5d28380a619"),
(32,0,1,1838,0,1,31,[0,0,0,0,0,0,0,0],[14,51,88,125,0,0,0,0],1,"939d50b4382043245dd7b42466b7a6b421dff102f8ad7fcee38f45a8950314e8"),
(32,0,1,1851,0,2,32,[0,1,0,0,0,0,0,0],[15,52,89,126,163,0,0,0],63,"ed3f3ce7f340956c770bc0d04695c1ef6b4709b64ba27253670a150d63482fd5"),
(32,0,1,1864,0,0,0,[0,1,2,0,0,0,0,0],[16,53,90,127,164,201,0,0],64,"723e3585da9bda33b406c4657b9ec74c48b3fbd26e0e9d4a8e6ae6b77d843891"),
(32,0,1,1877,0,1,1,[0,1,2,3,0,0,0,0],[17,54,91,128,165,202,239,0],65,"55e3e90d6f56d8bf3fd129ad8495d087603538b09d6b6e72109b711a9bd66b07"),
(32,0,1,1890,0,2,2,[0,1,2,3,4,0,0,0],[18,55,92,129,166,203,240,21],128,"5fd5bd9ab80a1726d70680dd7b7ddc238429bd0115da7a10e86d5738b3db7358"),
(32,0,1,1903,0,0,3,[0,1,2,3,4,5,0,0],[0,0,0,0,0,0,0,0],200,"e45a62cdd4f82bec4e9fabb7479588f15fc559d43e8ae6bace78a6d2cdef069d"),
(32,0,1,1916,1,1,4,[0,0,0,0,0,0,0,0],[20,0,0,0,0,0,0,0],0,"b4f85bf220ef9bcc42750e15d9f5cc681abb13967eadb423832f53f4f64841ff"),
(32,0,1,1929,1,2,5,[0,0,0,0,0,0,0,0],[21,58,0,0,0,0,0,0],1,"324a2d189b57a334ebff44177410cd905613dbb6d932c800dab44f6993628443"),
(32,0,1,1942,1,0,6,[0,1,0,0,0,0,0,0],[22,59,96,0,0,0,0,0],63,"ff6e4f3118795faf7919243621174056ddf0ca85774f8ced7a36957b4a8220e8"),
(32,0,1,1955,1,1,7,[0,1,2,0,0,0,0,0],[23,60,97,134,0,0,0,0],64,"95f00eede9a40840700d4020620e79409c0716ec40a5b1b5f0b7fd019f4aed89"),
(32,0,1,1968,1,2,8,[0,1,2,3,0,0,0,0],[24,61,98,135,172,0,0,0],65,"baa2b59aff3d5160716d6c7be5abbc75db320951225fe2ae5e4e2e7391aca6a5"),
(32,0,1,1981,1,0,9,[0,1,2,3,4,0,0,0],[25,62,99,136,173,210,0,0],128,"168c9828ee41f936d868da5bf5a9abad9001e7f3d9bf8e47d8bb155a0f045d1d"),
(32,0,1,1994,1,1,10,[0,1,2,3,4,5,0,0],[26,63,100,137,174,211,248,0],200,"7ef8fcebd606632f5981f8888479727ac56ef9c9f9b8a74a38e455ea3c0942c8"),
(32,0,1,2007,412316860416,2,11,[0,0,0,0,0,0,0,0],[27,64,101,138,175,212,249,30],0,"77a9c264b932cb531ac18114cb89e267dcf0189e2de0a5ac8e12b5b2930a151e"),
(32,0,1,2020,412316860416,0,12,[0,0,0,0,0,0,0,0],[0,0,0,0,0,0,0,0],1,"5f0dbc6e83ffbacb7208b3228a72fa91a219a3ba5812b1d94a8b414edb307870"),
(32,0,1,2033,412316860416,1,13,[0,1,0,0,0,0,0,0],[29,0,0,0,0,0,0,0],63,"3f1d1eea6f56625f6c7bd801d0593cf14e0038f1de4fa01d843c4c30bb032bcd"),
(32,0,1,2046,412316860416,2,14,[0,1,2,0,0,0,0,0],[30,67,0,0,0,0,0,0],64,"4dc192e881291a34e50e62bd749aabd9cef01950c3809d5bf4e119c4beaa66a5"),
(32,0,1,2059,412316860416,0,15,[0,1,2,3,0,0,0,0],[31,68,105,0,0,0,0,0],65,"96305c4ebb4cbd59b733ac15e4bc41b14411bdaf900e4cf3c56fc0669415fd8c"),
(32,0,1,2072,412316860416,1,16,[0,1,2,3,4,0,0,0],[32,69,106,143,0,0,0,0],128,"32e7e44f5225b0eacfa4666e19e18179b08db3294b74b3725831bab13277d282"),
(32,0,1,2085,412316860416,2,17,[0,1,2,3,4,5,0,0],[33,70,107,144,181,0,0,0],200,"b04b7ac3f7509448ce8d1ac302cf96ba50b1b0097dc8374f631a9d7a9de83d3c"),
(32,0,1,2098,281470681743367,0,18,[0,0,0,0,0,0,0,0],[34,71,108,145,182,219,0,0],0,"0c6783d91047242ad5e870f122a30a601fd25224791df41504f4601c87e2cb05"),
(32,0,1,2111,281470681743367,1,19,[0,0,0,0,0,0,0,0],[35,72,109,146,183,220,1,0],1,"35ea3a9df847bf79b17e82c80b18dad43ddfa87c272aa15d93950207b7037df3"),
(32,0,1,2124,281470681743367,2,20,[0,1,0,0,0,0,0,0],[36,73,110,147,184,221,2,39],63,"0929a4c5b18735622b84dc0baf87696543b276be126410686102ae001d6ae254"),
(32,0,1,2137,281470681743367,0,21,[0,1,2,0,0,0,0,0],[0,0,0,0,0,0,0,0],64,"344984a5fe5349c832da84e06802e3acf20dc0f7f95cec67c22d5c777f35920b"),
(32,0,1,2150,281470681743367,1,22,[0,1,2,3,0,0,0,0],[38,0,0,0,0,0,0,0],65,"b3f8d080789cdcd17ac64c84570cd90f3b524587a525e49f87a0425cbd6150bd"),
(32,0,1,2163,281470681743367,2,23,[0,1,2,3,4,0,0,0],[39,76,0,0,0,0,0,0],128,"9527e1a6f2393a756402d0f840a7175e95b5c4c96ca8ed794f1f85c8939a7ac7"),
(32,0,1,2176,281470681743367,0,24,[0,1,2,3,4,5,0,0],[40,77,114,0,0,0,0,0],200,"f7554217d6f59ac5b168e3b172b5b538f70c0117d52c50daa84b85934bfb8ce7"),
(32,0,1,2189,281474976710655,1,25,[0,0,0,0,0,0,0,0],[41,78,115,152,0,0,0,0],0,"7dcfaf69412856f91feda88e1c51645969c80d327fa6f05861127a0e7cc303c3"),
(32,0,1,2202,281474976710655,2,26,[0,0,0,0,0,0,0,0],[42,79,116,153,190,0,0,0],1,"74ffe5ab227fb4b0460917615d7b0fc6a70c3a4d16ed53e317e51c3de03b32bc"),
(32,0,1,2215,281474976710655,0,27,[0,1,0,0,0,0,0,0],[43,80,117,154,191,228,0,0],63,"49b3bb684d311d9e1e2628ec3d781bc9661438f1b799137db7f7e26c59bff2ee"),
(32,0,1,2228,281474976710655,1,28,[0,1,2,0,0,0,0,0],[44,81,118,155,192,229,10,0],64,"ab9a0025741569225f505d70e22a61f73b75ff446d4b5409e621abce5a85a8b4"),
(32,0,1,2241,281474976710655,2,29,[0,1,2,3,0,0,0,0],[45,82,119,156,193,230,11,48],65,"8c388516c8400ae70fe64531012cf1ef365596622fe00bee9583c02380ab7f0a"),
(32,0,1,2254,281474976710655,0,30,[0,1,2,3,4,0,0,0],[0,0,0,0,0,0,0,0],128,"65a2ddba6f972b3569926fc51433a09b444993ee047d9669d4ab1cad1f327047"),
(32,0,1,2267,281474976710655,1,31,[0,1,2,3,4,5,0,0],[47,0,0,0,0,0,0,0],200,"662bfa10998f4d262fd6a93998b2c003d43781e613d3b8f0e01d4a7ba4144475"),
];
