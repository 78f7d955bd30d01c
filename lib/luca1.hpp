// The luca1 data set (a temperature profile), pinned: there is no published certificate to check it against.
#ifndef VERIF_LUCA1_HPP
#define VERIF_LUCA1_HPP
static const double LUCA1[][2] = {
{0.0, 337.1442908},
{60.0, 336.9744037},
{120.0, 336.9824174},
{180.0, 336.5960922},
{240.0, 335.255398},
{300.0, 335.5252764},
{360.0, 334.3072227},
{420.0, 334.9410065},
{480.0, 334.4445171},
{540.0, 332.8497379},
{600.0, 333.9870947},
{660.0, 332.2910747},
{720.0, 334.1350198},
{780.0, 332.0067778},
{840.0, 333.8810337},
{900.0, 331.8969311},
{960.0, 332.7588098},
{1020.0, 331.5910934},
{1080.0, 330.9132806},
{1140.0, 330.5956971},
{1200.0, 332.4400475},
{1260.0, 332.3796281},
{1320.0, 331.814891},
{1380.0, 329.9387639},
{1440.0, 329.5636731},
{1500.0, 330.0219347},
{1560.0, 329.7540461},
{1620.0, 330.6068489},
{1680.0, 329.597415},
{1740.0, 329.3769882},
{1800.0, 330.0688911},
{1860.0, 328.3634273},
{1920.0, 328.5975643},
{1980.0, 328.434937},
{2040.0, 328.2632795},
{2100.0, 328.1946805},
{2160.0, 326.8960196},
{2220.0, 328.6338314},
{2340.0, 327.1479591},
{2400.0, 326.5556453},
{2460.0, 327.9179143},
{2520.0, 327.9942847},
{2580.0, 328.4017316},
{2640.0, 327.2529231},
{2700.0, 327.3911318},
{2760.0, 326.6970198},
{2820.0, 326.6950885},
{2880.0, 325.4782815},
{2940.0, 324.8187344},
{3000.0, 326.9839012},
{3060.0, 325.1536111},
{3120.0, 326.8089144},
{3180.0, 325.8877202},
{3240.0, 324.7849329},
{3300.0, 325.6072575},
{3360.0, 324.9948122},
{3420.0, 325.4887436},
{3480.0, 326.0431928},
{3540.0, 323.6113226},
{3600.0, 325.9838914},
{3660.0, 324.1924508},
{3720.0, 324.5970406},
{3780.0, 324.8230764},
{3840.0, 324.9237099},
{3900.0, 324.2666625},
{3960.0, 323.6965632},
{4020.0, 321.9786247},
{4080.0, 322.8748345},
{4140.0, 322.8899082},
{4200.0, 323.9822995},
{4260.0, 321.1392998},
{4320.0, 323.6433758},
{4380.0, 323.2831224},
{4440.0, 323.0677065},
{4500.0, 322.035195},
{4560.0, 320.2140103},
{4620.0, 322.0256243},
{4680.0, 321.7293684},
{4740.0, 320.3009872},
{4800.0, 319.6279384},
{4860.0, 319.4813218},
{4980.0, 319.9187445},
{5040.0, 319.6932013},
{5100.0, 319.1582722},
{5160.0, 320.7196917},
{5220.0, 319.4144958},
{5280.0, 318.8384286},
{5340.0, 319.9096955},
{5400.0, 318.1323327},
{5460.0, 319.0491528},
{5520.0, 318.2715763},
{5580.0, 319.2434569},
{5640.0, 319.3683525},
{5700.0, 318.7220745},
{5760.0, 317.3729954},
{5820.0, 316.1924805},
{5880.0, 317.6607081},
{5940.0, 317.4401266},
{6000.0, 316.8007575},
{6060.0, 316.3831204},
{6180.0, 315.3087716},
{6240.0, 316.4643641},
{6300.0, 315.545849},
{6360.0, 315.0653973},
{6420.0, 315.4820921},
{6480.0, 316.0636043},
{6540.0, 315.8050276},
{6600.0, 317.15843},
{6660.0, 315.0013158},
{6720.0, 316.3060765},
{6780.0, 314.7660777},
{6840.0, 316.5689015},
{6900.0, 314.9915883},
{6960.0, 314.8268058},
{7020.0, 313.6818342},
{7080.0, 313.9843479},
{7140.0, 314.85659},
{7200.0, 313.6457786},
{7260.0, 313.9740967},
{7320.0, 313.055651},
{7380.0, 314.9535052},
{7440.0, 314.8975508},
{7500.0, 314.655686},
{7560.0, 313.8751524},
{7620.0, 312.7129912},
{7680.0, 314.6638683},
{7740.0, 313.5441028},
{7800.0, 312.707546},
{7860.0, 312.5758631},
{7920.0, 313.6651482},
{7980.0, 312.0994893},
{8040.0, 311.4212523},
{8100.0, 313.4662091},
{8160.0, 314.06175},
{8220.0, 313.9324801},
{8280.0, 311.2821648},
{8340.0, 314.2439145},
{8400.0, 313.9891592},
{8520.0, 312.6230376},
{8580.0, 312.6748777},
{8640.0, 311.7325204},
{8700.0, 311.9418737},
{8760.0, 312.6439556},
{8820.0, 313.2380496},
{8880.0, 313.1371983},
{8940.0, 313.1932226},
{9000.0, 312.6721982},
{9060.0, 311.6082809},
{9120.0, 312.6828219},
{9180.0, 311.4888788},
{9240.0, 310.3933265},
{9300.0, 312.8019786},
{9360.0, 311.7547666},
{9420.0, 310.553449},
{9480.0, 312.2085369},
{9540.0, 312.7470519},
{9600.0, 310.6600828},
{9660.0, 311.9492027},
{9720.0, 311.3306919},
{9780.0, 310.1125428},
{9840.0, 310.6858603},
{9900.0, 310.5374625},
{9960.0, 309.616072},
{10020.0, 311.7214697},
{10080.0, 310.7412576},
{10140.0, 309.255049},
{10200.0, 310.9959456},
{10260.0, 309.5496629},
{10320.0, 309.8922506},
{10380.0, 309.2589913},
{10440.0, 309.6225286},
{10500.0, 311.4041382},
{10560.0, 308.9472363},
{10620.0, 309.4356973},
{10680.0, 308.6938563},
{10740.0, 308.8859748},
{10800.0, 311.5421611},
{10860.0, 308.8003615},
{10920.0, 310.5179815},
{10980.0, 310.9961059},
{11040.0, 309.5454753},
{11100.0, 308.8832005},
{11160.0, 309.0879641},
{11220.0, 309.1384432},
{11280.0, 308.5626005},
{11340.0, 310.3581126},
{11400.0, 309.722625},
{11460.0, 309.5528934},
{11520.0, 309.8827313},
{11580.0, 308.7161182},
{11640.0, 309.6421889},
{11700.0, 310.9313043},
{11760.0, 310.30758},
{11820.0, 308.8335661},
{11880.0, 309.2443618},
{11940.0, 307.8976394},
{12000.0, 308.1901883},
{12060.0, 309.0817311},
{12120.0, 310.5508054},
{12180.0, 308.9074166},
{12240.0, 307.7294688},
{12300.0, 310.0647507},
{12360.0, 308.2555717},
{12420.0, 309.0918719},
{12480.0, 308.4474127},
{12540.0, 308.9598839},
{12600.0, 310.5361995},
{12660.0, 309.8934223},
{12720.0, 309.2699092},
{12780.0, 308.8803725},
{12840.0, 308.8688793},
{12900.0, 307.6696575},
{12960.0, 309.4188047},
{13020.0, 309.0433909},
{13080.0, 309.3836838},
{13140.0, 307.4465841},
{13200.0, 309.3869415},
{13260.0, 308.4820491},
{13320.0, 309.6412089},
{13380.0, 307.6391334},
{13440.0, 310.2361889},
{13500.0, 307.692014},
{13560.0, 307.6061464},
{13620.0, 309.9988997},
{13680.0, 309.6635524},
{13740.0, 307.2992441},
{13800.0, 309.5478944},
{13860.0, 309.7384236},
{13920.0, 307.6155164},
{13980.0, 309.7216317},
{14040.0, 307.0322128},
{14100.0, 309.5891705},
{14160.0, 308.6442173},
{14220.0, 308.2093349},
{14340.0, 307.0311527},
{14400.0, 307.4621258},
{14460.0, 308.9132837},
{14520.0, 307.6651043},
{14580.0, 308.9875313},
{14700.0, 306.7033955},
{14760.0, 307.7732745},
{14820.0, 307.8833902},
{14880.0, 307.8650017},
{14940.0, 309.1836698},
{15000.0, 307.1342834},
{15060.0, 308.7995078},
{15120.0, 308.7250358},
{15180.0, 307.0102584},
{15240.0, 307.4185696},
{15300.0, 306.7896699},
{15360.0, 306.3319703},
{15420.0, 307.0610922},
{15480.0, 307.4909859},
{15540.0, 306.189724},
{15600.0, 308.5292718},
{15660.0, 306.9459035},
{15720.0, 308.0883136},
{15780.0, 306.6247203},
{15840.0, 308.6184201},
{15900.0, 308.6830487},
{15960.0, 306.0353728},
{16020.0, 308.4789734},
{16080.0, 308.097129},
{16140.0, 307.4498101},
{16200.0, 306.4571618},
{16260.0, 306.3348016},
{16320.0, 307.449898},
{16380.0, 306.8918064},
{16440.0, 306.4379689},
{16500.0, 308.3057104},
{16560.0, 305.8244024},
{16620.0, 307.7832466},
{16680.0, 305.9537608},
{16740.0, 308.4256222},
{16800.0, 307.6612404},
{16860.0, 305.9978287},
{16920.0, 306.1627269},
{16980.0, 307.4821939},
{17040.0, 307.0098737},
{17100.0, 305.9258368},
{17160.0, 308.0316925},
{17220.0, 308.404896},
{17280.0, 306.6772489},
{17340.0, 307.1441669},
{17400.0, 307.769201},
{17460.0, 307.0541718},
{17520.0, 306.3905305},
{17580.0, 307.5552371},
{17640.0, 307.0951414},
{17700.0, 307.311043},
{17760.0, 308.6336743},
{17820.0, 307.0834437},
{17880.0, 306.7422114},
{17940.0, 306.7223216},
{18000.0, 308.2104013},
{18060.0, 307.5611921},
{18120.0, 306.5807061},
{18180.0, 307.7215757},
{18240.0, 308.1577335},
{18300.0, 307.6429405},
{18360.0, 307.8988021},
{18420.0, 308.1819402},
{18480.0, 308.2631038},
{18540.0, 307.4730703},
{18600.0, 305.9205743},
{18660.0, 308.0726969},
{18720.0, 306.2175604},
{18780.0, 307.7846751},
{18840.0, 305.6169576},
{18900.0, 305.2916826},
{18960.0, 306.4418186},
{19020.0, 307.9873754},
{19080.0, 306.3515944},
{19140.0, 307.8798629},
{19200.0, 306.8339679},
{19260.0, 307.6220998},
{19320.0, 305.4361687},
{19380.0, 306.584915},
{19440.0, 306.5069071},
{19500.0, 308.011441},
{19560.0, 306.3209287},
{19620.0, 305.6135625},
{19680.0, 306.9757229},
{19740.0, 306.7890305},
{19800.0, 306.916095},
{19860.0, 306.5813547},
{19920.0, 306.744411},
{19980.0, 306.8335505},
{20040.0, 306.5867868},
{20100.0, 308.1741714},
{20160.0, 306.0897144},
{20220.0, 305.4680507},
{20280.0, 307.8125832},
{20340.0, 307.3571521},
{20400.0, 306.0402141},
{20460.0, 307.184291},
{20520.0, 307.1835549},
{20580.0, 307.0372405},
{20640.0, 307.0840199},
{20700.0, 305.6962037},
{20760.0, 305.2478807},
{20820.0, 306.3991056},
{20880.0, 307.9055191},
{20940.0, 305.8134413},
{21000.0, 305.8399075},
{21060.0, 305.5569301},
{21120.0, 306.6018084},
{21180.0, 304.9970244},
{21240.0, 307.2292339},
{21300.0, 307.7746954},
{21360.0, 307.6803197},
{21420.0, 307.3820439},
{21480.0, 307.9751343},
{21540.0, 307.4492357},
{21600.0, 305.1299735},
{21660.0, 307.5105224},
{21720.0, 306.8530443},
{21780.0, 305.7680432},
{21840.0, 307.3193381},
{21900.0, 306.8631509},
{21960.0, 306.8185668},
{22020.0, 307.0390632},
{22080.0, 305.4182244},
{22140.0, 307.700534},
{22200.0, 306.1784029},
{22260.0, 307.5712078},
{22320.0, 306.1657809},
{22380.0, 305.189449},
{22440.0, 305.8711327},
{22500.0, 307.4817421},
{22560.0, 305.3787481},
{22620.0, 306.0472523},
{22680.0, 306.2071925},
{22740.0, 305.9580448},
{22800.0, 307.9557773},
{22860.0, 305.754064},
{22920.0, 306.1769804},
{23040.0, 307.3841333},
{23100.0, 307.2805372},
{23160.0, 305.7400142},
{23220.0, 305.5328498},
{23280.0, 307.6712751},
{23340.0, 307.7788903},
{23400.0, 306.8111616},
{23460.0, 306.1689617},
{23520.0, 305.6462088},
{23580.0, 305.859433},
{23640.0, 306.1031148},
{23700.0, 306.9101377},
{23760.0, 305.4886536},
{23820.0, 307.6575571},
{23880.0, 304.9825334},
{23940.0, 305.8299527},
{24000.0, 305.4030654},
{24060.0, 306.3010376},
{24120.0, 306.357146},
{24180.0, 307.057029},
{24240.0, 306.4965379},
{24300.0, 305.5599069},
{24360.0, 305.5645026},
{24420.0, 306.2943541},
{24480.0, 307.1203741},
{24540.0, 307.5704016},
{24600.0, 307.8517386},
{24660.0, 306.0768634},
{24720.0, 307.2010159},
{24780.0, 305.5804168},
{24840.0, 306.5364965},
{24900.0, 306.3469362},
{24960.0, 306.8309923},
{25020.0, 306.6511972},
{25080.0, 306.9782457},
{25140.0, 305.2733407},
{25200.0, 305.4728793},
{25260.0, 305.2912188},
{25320.0, 307.8001396},
{25380.0, 305.627772},
{25440.0, 307.1668523},
{25500.0, 306.4876935},
{25560.0, 307.3750693},
{25620.0, 305.7695079},
{25680.0, 306.8056921},
{25740.0, 307.0369189},
{25800.0, 306.5110383},
{25860.0, 306.0620944},
{25920.0, 307.4957863},
{25980.0, 306.9752775},
{26040.0, 306.5710425},
{26100.0, 305.4477758},
{26160.0, 305.4528515},
{26220.0, 305.7233082},
{26280.0, 306.3863738},
{26340.0, 305.7117551},
{26400.0, 306.2012565},
{26460.0, 305.927307},
{26520.0, 307.4829772},
{26580.0, 305.0606872},
{26640.0, 307.7354487},
{26700.0, 306.1107522},
{26760.0, 306.1136096},
{26820.0, 304.9820865},
{26880.0, 307.0581987},
{26940.0, 307.050172},
{27000.0, 305.0797664},
{27060.0, 305.622729},
{27120.0, 304.9810833},
{27180.0, 306.5723329},
{27240.0, 307.2196545},
{27300.0, 307.2654846},
{27360.0, 307.7160309},
{27420.0, 307.4282317},
{27480.0, 306.9246549},
{27540.0, 307.1567933},
{27600.0, 304.9786722},
{27660.0, 305.1201814},
{27720.0, 306.8880356},
{27780.0, 305.4620093},
{27840.0, 305.0589237},
{27900.0, 307.4431505},
{27960.0, 304.7908602},
{28020.0, 305.8305925},
{28080.0, 304.8857783},
{28140.0, 307.2814716},
{28200.0, 307.3583644},
{28260.0, 305.4137979},
{28320.0, 306.2091732},
{28380.0, 304.8884508},
{28440.0, 307.556866},
{28500.0, 307.3039035},
{28560.0, 306.9252168},
{28620.0, 305.1672539},
{28680.0, 305.2869234},
{28740.0, 306.2486871},
{28800.0, 305.4460185},
{28860.0, 305.2625659},
{28920.0, 306.6338623},
{28980.0, 307.4689719},
{29040.0, 305.0662185},
{29100.0, 305.8718175},
{29160.0, 306.7560277},
{29220.0, 307.0427027},
{29280.0, 305.0387176},
{29340.0, 305.4424005},
{29400.0, 305.6777791},
{29460.0, 305.1410258},
{29520.0, 306.6966423},
{29580.0, 304.8519419},
{29640.0, 306.1619919},
{29700.0, 305.3890482},
{29760.0, 305.7128601},
{29820.0, 306.9203805},
{29880.0, 306.0250744},
{29940.0, 305.2912094},
{30000.0, 306.6868383},
{30060.0, 304.846985},
{30120.0, 304.7523684},
{30180.0, 307.6827671},
{30240.0, 304.8480043},
{30300.0, 306.0399757},
{30360.0, 307.5736516},
{30420.0, 306.2654723},
{30480.0, 305.4405891},
{30540.0, 304.9586484},
{30600.0, 307.2184755},
{30660.0, 306.2588872},
{30720.0, 306.7142365},
{30780.0, 305.5502765},
{30840.0, 305.8823466},
{30900.0, 307.7645003},
{30960.0, 306.8094696},
{31020.0, 307.2397953},
{31080.0, 307.0704621},
{31140.0, 307.0551947},
{31200.0, 307.2942226},
{31260.0, 307.4862859},
{31320.0, 306.9189325},
{31380.0, 305.3964363},
{31440.0, 305.019566},
{31500.0, 306.7367947},
{31560.0, 307.0990798},
{31620.0, 307.3439834},
{31680.0, 305.4991304},
{31740.0, 305.0246621},
{31800.0, 305.6974766},
{31860.0, 307.3646664},
{31920.0, 305.5134816},
{31980.0, 307.1263851},
{32040.0, 305.3737373},
{32100.0, 306.3000549},
{32160.0, 306.8270476},
{32220.0, 307.1980537},
{32280.0, 305.1637352},
{32340.0, 305.0388343},
{32400.0, 306.6245695},
{32460.0, 307.4167664},
{32520.0, 306.1423806},
{32580.0, 307.6053206},
{32640.0, 306.1912851},
{32700.0, 304.9290219},
{32760.0, 307.7331187},
{32820.0, 306.0684097},
{32880.0, 307.8110142},
{32940.0, 305.9730081},
{33000.0, 305.3432728},
{33060.0, 307.4122775},
{33120.0, 306.4808796},
{33180.0, 306.9049017},
{33240.0, 306.4334538},
{33300.0, 307.0952438},
{33360.0, 306.3211153},
{33420.0, 306.511188},
{33480.0, 306.4861401},
{33540.0, 306.7099309},
{33600.0, 305.2563924},
{33660.0, 306.5516842},
{33720.0, 306.8426088},
{33780.0, 307.2826085},
{33840.0, 306.9847809},
{33900.0, 307.4888327},
{33960.0, 307.5039328},
{34020.0, 307.4879898},
{34080.0, 305.4206951},
{34140.0, 307.7067811},
{34200.0, 307.4928402},
{34260.0, 305.6940031},
{34320.0, 306.9157713},
{34380.0, 307.7426473},
{34440.0, 307.2470943},
{34500.0, 305.7712094},
{34560.0, 305.5839218},
{34620.0, 307.1594446},
{34680.0, 306.4227357},
{34740.0, 307.5168061},
{34800.0, 307.71615},
{34860.0, 305.9652921},
{34920.0, 307.1660465},
{34980.0, 307.6245405},
{35040.0, 305.0945084},
{35100.0, 306.1365997},
{35160.0, 305.3019045},
{35220.0, 306.5104383},
{35280.0, 304.8732433},
{35340.0, 306.5101915},
{35400.0, 307.0313022},
{35460.0, 306.9501966},
{35520.0, 304.8972697},
{35580.0, 306.0793411},
{35640.0, 305.1392824},
{35700.0, 305.8013785},
{35760.0, 306.9592517},
{35820.0, 305.8477576},
{35880.0, 305.6857825},
{35940.0, 305.0814681},
{36000.0, 307.5763435},
{36060.0, 307.0051189},
{36120.0, 305.0225708},
{36180.0, 305.2497508},
{36240.0, 306.5764733},
{36300.0, 306.3426292},
{36360.0, 305.5495827},
{36420.0, 306.8298108},
{36480.0, 306.8085155},
{36540.0, 306.2967501},
{36600.0, 307.6348655},
{36660.0, 305.0412606},
{36720.0, 306.7269981},
{36780.0, 307.5228473},
{36840.0, 306.6590694},
{36900.0, 305.8149035},
{36960.0, 306.1341824},
{37020.0, 307.5910359},
{37080.0, 307.311384},
{37140.0, 305.4218405},
{37200.0, 306.4511726},
{37260.0, 307.118042},
{37320.0, 305.3233664},
{37380.0, 307.7590667},
{37440.0, 305.9716328},
{37500.0, 306.8776062},
{37560.0, 305.3084645},
{37620.0, 306.1507973},
{37680.0, 305.0561959},
{37740.0, 307.3528002},
{37800.0, 306.7036441},
{37860.0, 305.1209326},
{37920.0, 306.9318865},
{37980.0, 306.9471204},
{38040.0, 305.1141925},
{38100.0, 306.5349586},
{38160.0, 306.1560218},
{38220.0, 306.8049769}};
#endif
