// Correctly rounded powers, generated from exact rationals (pi: 110 digits).
pub static POW2: [f64; 401] = [6.223015277861142e-61, 1.2446030555722283e-60, 2.4892061111444567e-60, 4.9784122222889134e-60, 9.956824444577827e-60, 1.9913648889155653e-59, 3.982729777831131e-59, 7.965459555662261e-59, 1.5930919111324523e-58, 3.1861838222649046e-58, 6.372367644529809e-58, 1.2744735289059618e-57, 2.5489470578119236e-57, 5.0978941156238473e-57, 1.0195788231247695e-56, 2.039157646249539e-56, 4.078315292499078e-56, 8.156630584998156e-56, 1.6313261169996311e-55, 3.2626522339992623e-55, 6.525304467998525e-55, 1.305060893599705e-54, 2.61012178719941e-54, 5.22024357439882e-54, 1.044048714879764e-53, 2.088097429759528e-53, 4.176194859519056e-53, 8.352389719038111e-53, 1.6704779438076223e-52, 3.3409558876152446e-52, 6.681911775230489e-52, 1.3363823550460978e-51, 2.6727647100921956e-51, 5.345529420184391e-51, 1.0691058840368783e-50, 2.1382117680737565e-50, 4.276423536147513e-50, 8.552847072295026e-50, 1.7105694144590052e-49, 3.4211388289180104e-49, 6.842277657836021e-49, 1.3684555315672042e-48, 2.7369110631344083e-48, 5.473822126268817e-48, 1.0947644252537633e-47, 2.1895288505075267e-47, 4.3790577010150533e-47, 8.758115402030107e-47, 1.7516230804060213e-46, 3.503246160812043e-46, 7.006492321624085e-46, 1.401298464324817e-45, 2.802596928649634e-45, 5.605193857299268e-45, 1.1210387714598537e-44, 2.2420775429197073e-44, 4.484155085839415e-44, 8.96831017167883e-44, 1.793662034335766e-43, 3.587324068671532e-43, 7.174648137343064e-43, 1.4349296274686127e-42, 2.8698592549372254e-42, 5.739718509874451e-42, 1.1479437019748901e-41, 2.2958874039497803e-41, 4.591774807899561e-41, 9.183549615799121e-41, 1.8367099231598242e-40, 3.6734198463196485e-40, 7.346839692639297e-40, 1.4693679385278594e-39, 2.938735877055719e-39, 5.877471754111438e-39, 1.1754943508222875e-38, 2.350988701644575e-38, 4.70197740328915e-38, 9.4039548065783e-38, 1.88079096131566e-37, 3.76158192263132e-37, 7.52316384526264e-37, 1.504632769052528e-36, 3.009265538105056e-36, 6.018531076210112e-36, 1.2037062152420224e-35, 2.407412430484045e-35, 4.81482486096809e-35, 9.62964972193618e-35, 1.925929944387236e-34, 3.851859888774472e-34, 7.703719777548943e-34, 1.5407439555097887e-33, 3.0814879110195774e-33, 6.162975822039155e-33, 1.232595164407831e-32, 2.465190328815662e-32, 4.930380657631324e-32, 9.860761315262648e-32, 1.9721522630525295e-31, 3.944304526105059e-31, 7.888609052210118e-31, 1.5777218104420236e-30, 3.1554436208840472e-30, 6.310887241768095e-30, 1.262177448353619e-29, 2.524354896707238e-29, 5.048709793414476e-29, 1.0097419586828951e-28, 2.0194839173657902e-28, 4.0389678347315804e-28, 8.077935669463161e-28, 1.6155871338926322e-27, 3.2311742677852644e-27, 6.462348535570529e-27, 1.2924697071141057e-26, 2.5849394142282115e-26, 5.169878828456423e-26, 1.0339757656912846e-25, 2.0679515313825692e-25, 4.1359030627651384e-25, 8.271806125530277e-25, 1.6543612251060553e-24, 3.308722450212111e-24, 6.617444900424222e-24, 1.3234889800848443e-23, 2.6469779601696886e-23, 5.293955920339377e-23, 1.0587911840678754e-22, 2.117582368135751e-22, 4.235164736271502e-22, 8.470329472543003e-22, 1.6940658945086007e-21, 3.3881317890172014e-21, 6.776263578034403e-21, 1.3552527156068805e-20, 2.710505431213761e-20, 5.421010862427522e-20, 1.0842021724855044e-19, 2.168404344971009e-19, 4.336808689942018e-19, 8.673617379884035e-19, 1.734723475976807e-18, 3.469446951953614e-18, 6.938893903907228e-18, 1.3877787807814457e-17, 2.7755575615628914e-17, 5.551115123125783e-17, 1.1102230246251565e-16, 2.220446049250313e-16, 4.440892098500626e-16, 8.881784197001252e-16, 1.7763568394002505e-15, 3.552713678800501e-15, 7.105427357601002e-15, 1.4210854715202004e-14, 2.842170943040401e-14, 5.684341886080802e-14, 1.1368683772161603e-13, 2.2737367544323206e-13, 4.547473508864641e-13, 9.094947017729282e-13, 1.8189894035458565e-12, 3.637978807091713e-12, 7.275957614183426e-12, 1.4551915228366852e-11, 2.9103830456733704e-11, 5.820766091346741e-11, 1.1641532182693481e-10, 2.3283064365386963e-10, 4.656612873077393e-10, 9.313225746154785e-10, 1.862645149230957e-09, 3.725290298461914e-09, 7.450580596923828e-09, 1.4901161193847656e-08, 2.9802322387695312e-08, 5.960464477539063e-08, 1.1920928955078125e-07, 2.384185791015625e-07, 4.76837158203125e-07, 9.5367431640625e-07, 1.9073486328125e-06, 3.814697265625e-06, 7.62939453125e-06, 1.52587890625e-05, 3.0517578125e-05, 6.103515625e-05, 0.0001220703125, 0.000244140625, 0.00048828125, 0.0009765625, 0.001953125, 0.00390625, 0.0078125, 0.015625, 0.03125, 0.0625, 0.125, 0.25, 0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0, 256.0, 512.0, 1024.0, 2048.0, 4096.0, 8192.0, 16384.0, 32768.0, 65536.0, 131072.0, 262144.0, 524288.0, 1048576.0, 2097152.0, 4194304.0, 8388608.0, 16777216.0, 33554432.0, 67108864.0, 134217728.0, 268435456.0, 536870912.0, 1073741824.0, 2147483648.0, 4294967296.0, 8589934592.0, 17179869184.0, 34359738368.0, 68719476736.0, 137438953472.0, 274877906944.0, 549755813888.0, 1099511627776.0, 2199023255552.0, 4398046511104.0, 8796093022208.0, 17592186044416.0, 35184372088832.0, 70368744177664.0, 140737488355328.0, 281474976710656.0, 562949953421312.0, 1125899906842624.0, 2251799813685248.0, 4503599627370496.0, 9007199254740992.0, 1.8014398509481984e+16, 3.602879701896397e+16, 7.205759403792794e+16, 1.4411518807585587e+17, 2.8823037615171174e+17, 5.764607523034235e+17, 1.152921504606847e+18, 2.305843009213694e+18, 4.611686018427388e+18, 9.223372036854776e+18, 1.8446744073709552e+19, 3.6893488147419103e+19, 7.378697629483821e+19, 1.4757395258967641e+20, 2.9514790517935283e+20, 5.902958103587057e+20, 1.1805916207174113e+21, 2.3611832414348226e+21, 4.722366482869645e+21, 9.44473296573929e+21, 1.888946593147858e+22, 3.777893186295716e+22, 7.555786372591432e+22, 1.5111572745182865e+23, 3.022314549036573e+23, 6.044629098073146e+23, 1.2089258196146292e+24, 2.4178516392292583e+24, 4.835703278458517e+24, 9.671406556917033e+24, 1.9342813113834067e+25, 3.8685626227668134e+25, 7.737125245533627e+25, 1.5474250491067253e+26, 3.094850098213451e+26, 6.189700196426902e+26, 1.2379400392853803e+27, 2.4758800785707605e+27, 4.951760157141521e+27, 9.903520314283042e+27, 1.9807040628566084e+28, 3.961408125713217e+28, 7.922816251426434e+28, 1.5845632502852868e+29, 3.1691265005705735e+29, 6.338253001141147e+29, 1.2676506002282294e+30, 2.535301200456459e+30, 5.070602400912918e+30, 1.0141204801825835e+31, 2.028240960365167e+31, 4.056481920730334e+31, 8.112963841460668e+31, 1.6225927682921336e+32, 3.2451855365842673e+32, 6.490371073168535e+32, 1.298074214633707e+33, 2.596148429267414e+33, 5.192296858534828e+33, 1.0384593717069655e+34, 2.076918743413931e+34, 4.153837486827862e+34, 8.307674973655724e+34, 1.661534994731145e+35, 3.32306998946229e+35, 6.64613997892458e+35, 1.329227995784916e+36, 2.658455991569832e+36, 5.316911983139664e+36, 1.0633823966279327e+37, 2.1267647932558654e+37, 4.253529586511731e+37, 8.507059173023462e+37, 1.7014118346046923e+38, 3.402823669209385e+38, 6.80564733841877e+38, 1.361129467683754e+39, 2.722258935367508e+39, 5.444517870735016e+39, 1.0889035741470031e+40, 2.1778071482940062e+40, 4.3556142965880123e+40, 8.711228593176025e+40, 1.742245718635205e+41, 3.48449143727041e+41, 6.96898287454082e+41, 1.393796574908164e+42, 2.787593149816328e+42, 5.575186299632656e+42, 1.1150372599265312e+43, 2.2300745198530623e+43, 4.460149039706125e+43, 8.92029807941225e+43, 1.78405961588245e+44, 3.5681192317649e+44, 7.1362384635298e+44, 1.42724769270596e+45, 2.85449538541192e+45, 5.70899077082384e+45, 1.141798154164768e+46, 2.283596308329536e+46, 4.567192616659072e+46, 9.134385233318143e+46, 1.8268770466636286e+47, 3.6537540933272573e+47, 7.307508186654515e+47, 1.461501637330903e+48, 2.923003274661806e+48, 5.846006549323612e+48, 1.1692013098647223e+49, 2.3384026197294447e+49, 4.6768052394588893e+49, 9.353610478917779e+49, 1.8707220957835557e+50, 3.7414441915671115e+50, 7.482888383134223e+50, 1.4965776766268446e+51, 2.9931553532536892e+51, 5.986310706507379e+51, 1.1972621413014757e+52, 2.3945242826029513e+52, 4.789048565205903e+52, 9.578097130411805e+52, 1.915619426082361e+53, 3.831238852164722e+53, 7.662477704329444e+53, 1.532495540865889e+54, 3.064991081731778e+54, 6.129982163463556e+54, 1.2259964326927111e+55, 2.4519928653854222e+55, 4.9039857307708443e+55, 9.807971461541689e+55, 1.9615942923083377e+56, 3.9231885846166755e+56, 7.846377169233351e+56, 1.5692754338466702e+57, 3.1385508676933404e+57, 6.277101735386681e+57, 1.2554203470773362e+58, 2.5108406941546723e+58, 5.021681388309345e+58, 1.004336277661869e+59, 2.008672555323738e+59, 4.017345110647476e+59, 8.034690221294951e+59, 1.6069380442589903e+60];
pub static POW3: [f64; 401] = [3.764861949599026e-96, 1.1294585848797079e-95, 3.388375754639124e-95, 1.0165127263917372e-94, 3.0495381791752115e-94, 9.148614537525634e-94, 2.74458436125769e-93, 8.23375308377307e-93, 2.4701259251319212e-92, 7.410377775395764e-92, 2.223113332618729e-91, 6.669339997856187e-91, 2.0008019993568564e-90, 6.002405998070568e-90, 1.8007217994211705e-89, 5.402165398263512e-89, 1.6206496194790536e-88, 4.8619488584371605e-88, 1.4585846575311483e-87, 4.375753972593444e-87, 1.3127261917780333e-86, 3.9381785753341e-86, 1.18145357260023e-85, 3.5443607178006903e-85, 1.063308215340207e-84, 3.189924646020621e-84, 9.569773938061863e-84, 2.870932181418559e-83, 8.612796544255677e-83, 2.583838963276703e-82, 7.75151688983011e-82, 2.3254550669490328e-81, 6.976365200847098e-81, 2.0929095602541296e-80, 6.278728680762389e-80, 1.8836186042287166e-79, 5.65085581268615e-79, 1.695256743805845e-78, 5.085770231417534e-78, 1.5257310694252604e-77, 4.577193208275781e-77, 1.3731579624827343e-76, 4.119473887448203e-76, 1.235842166234461e-75, 3.7075264987033827e-75, 1.1122579496110148e-74, 3.3367738488330445e-74, 1.0010321546499133e-73, 3.00309646394974e-73, 9.00928939184922e-73, 2.702786817554766e-72, 8.108360452664298e-72, 2.4325081357992894e-71, 7.297524407397869e-71, 2.1892573222193606e-70, 6.567771966658081e-70, 1.9703315899974245e-69, 5.910994769992273e-69, 1.773298430997682e-68, 5.319895292993046e-68, 1.595968587897914e-67, 4.787905763693741e-67, 1.4363717291081225e-66, 4.309115187324367e-66, 1.29273455619731e-65, 3.878203668591931e-65, 1.1634611005775791e-64, 3.4903833017327374e-64, 1.0471149905198212e-63, 3.141344971559464e-63, 9.424034914678391e-63, 2.8272104744035175e-62, 8.481631423210552e-62, 2.5444894269631658e-61, 7.633468280889496e-61, 2.2900404842668492e-60, 6.870121452800547e-60, 2.061036435840164e-59, 6.1831093075204925e-59, 1.8549327922561476e-58, 5.564798376768443e-58, 1.669439513030533e-57, 5.0083185390915987e-57, 1.5024955617274797e-56, 4.507486685182439e-56, 1.3522460055547316e-55, 4.056738016664195e-55, 1.2170214049992586e-54, 3.6510642149977757e-54, 1.0953192644993327e-53, 3.285957793497998e-53, 9.857873380493993e-53, 2.9573620141481982e-52, 8.872086042444594e-52, 2.6616258127333785e-51, 7.984877438200135e-51, 2.3954632314600405e-50, 7.186389694380122e-50, 2.1559169083140366e-49, 6.467750724942109e-49, 1.9403252174826328e-48, 5.820975652447899e-48, 1.7462926957343695e-47, 5.238878087203109e-47, 1.5716634261609327e-46, 4.714990278482798e-46, 1.4144970835448392e-45, 4.243491250634518e-45, 1.2730473751903554e-44, 3.819142125571066e-44, 1.1457426376713199e-43, 3.4372279130139596e-43, 1.0311683739041878e-42, 3.093505121712564e-42, 9.28051536513769e-42, 2.7841546095413073e-41, 8.352463828623922e-41, 2.5057391485871765e-40, 7.517217445761529e-40, 2.255165233728459e-39, 6.765495701185377e-39, 2.029648710355613e-38, 6.08894613106684e-38, 1.8266838393200516e-37, 5.480051517960155e-37, 1.6440154553880465e-36, 4.93204636616414e-36, 1.479613909849242e-35, 4.438841729547726e-35, 1.3316525188643176e-34, 3.994957556592953e-34, 1.198487266977886e-33, 3.595461800933658e-33, 1.0786385402800974e-32, 3.235915620840292e-32, 9.707746862520875e-32, 2.912324058756263e-31, 8.736972176268789e-31, 2.6210916528806364e-30, 7.86327495864191e-30, 2.3589824875925728e-29, 7.076947462777718e-29, 2.1230842388333153e-28, 6.369252716499947e-28, 1.910775814949984e-27, 5.732327444849952e-27, 1.7196982334549857e-26, 5.1590947003649566e-26, 1.547728410109487e-25, 4.643185230328461e-25, 1.3929555690985384e-24, 4.178866707295615e-24, 1.2536600121886846e-23, 3.7609800365660536e-23, 1.128294010969816e-22, 3.384882032909448e-22, 1.0154646098728345e-21, 3.0463938296185032e-21, 9.13918148885551e-21, 2.741754446656653e-20, 8.225263339969959e-20, 2.4675790019909876e-19, 7.402737005972963e-19, 2.220821101791889e-18, 6.662463305375667e-18, 1.9987389916127e-17, 5.9962169748381e-17, 1.79886509245143e-16, 5.39659527735429e-16, 1.618978583206287e-15, 4.8569357496188614e-15, 1.4570807248856583e-14, 4.371242174656975e-14, 1.3113726523970925e-13, 3.9341179571912774e-13, 1.1802353871573832e-12, 3.5407061614721497e-12, 1.062211848441645e-11, 3.186635545324935e-11, 9.559906635974805e-11, 2.8679719907924413e-10, 8.603915972377324e-10, 2.581174791713197e-09, 7.743524375139592e-09, 2.3230573125418773e-08, 6.969171937625632e-08, 2.0907515812876897e-07, 6.272254743863069e-07, 1.8816764231589208e-06, 5.645029269476762e-06, 1.6935087808430286e-05, 5.080526342529086e-05, 0.00015241579027587258, 0.0004572473708276177, 0.0013717421124828531, 0.00411522633744856, 0.012345679012345678, 0.037037037037037035, 0.1111111111111111, 0.3333333333333333, 1.0, 3.0, 9.0, 27.0, 81.0, 243.0, 729.0, 2187.0, 6561.0, 19683.0, 59049.0, 177147.0, 531441.0, 1594323.0, 4782969.0, 14348907.0, 43046721.0, 129140163.0, 387420489.0, 1162261467.0, 3486784401.0, 10460353203.0, 31381059609.0, 94143178827.0, 282429536481.0, 847288609443.0, 2541865828329.0, 7625597484987.0, 22876792454961.0, 68630377364883.0, 205891132094649.0, 617673396283947.0, 1853020188851841.0, 5559060566555523.0, 1.6677181699666568e+16, 5.0031545098999704e+16, 1.5009463529699914e+17, 4.502839058909974e+17, 1.350851717672992e+18, 4.052555153018976e+18, 1.2157665459056929e+19, 3.647299637717079e+19, 1.0941898913151237e+20, 3.2825696739453705e+20, 9.847709021836112e+20, 2.9543127065508336e+21, 8.862938119652501e+21, 2.65888143589575e+22, 7.976644307687251e+22, 2.3929932923061753e+23, 7.178979876918526e+23, 2.1536939630755577e+24, 6.461081889226673e+24, 1.938324566768002e+25, 5.814973700304006e+25, 1.7444921100912017e+26, 5.233476330273606e+26, 1.5700428990820816e+27, 4.710128697246245e+27, 1.4130386091738735e+28, 4.23911582752162e+28, 1.271734748256486e+29, 3.8152042447694586e+29, 1.1445612734308374e+30, 3.4336838202925124e+30, 1.0301051460877538e+31, 3.090315438263261e+31, 9.270946314789783e+31, 2.7812838944369352e+32, 8.343851683310805e+32, 2.5031555049932416e+33, 7.509466514979725e+33, 2.252839954493917e+34, 6.758519863481753e+34, 2.0275559590445257e+35, 6.0826678771335774e+35, 1.8248003631400732e+36, 5.474401089420219e+36, 1.6423203268260657e+37, 4.926960980478197e+37, 1.4780882941434593e+38, 4.434264882430378e+38, 1.3302794647291133e+39, 3.99083839418734e+39, 1.197251518256202e+40, 3.591754554768606e+40, 1.0775263664305817e+41, 3.2325790992917455e+41, 9.697737297875236e+41, 2.909321189362571e+42, 8.727963568087712e+42, 2.6183890704263137e+43, 7.855167211278941e+43, 2.3565501633836824e+44, 7.069650490151047e+44, 2.1208951470453142e+45, 6.362685441135942e+45, 1.9088056323407826e+46, 5.726416897022348e+46, 1.7179250691067045e+47, 5.153775207320113e+47, 1.546132562196034e+48, 4.638397686588102e+48, 1.3915193059764306e+49, 4.174557917929292e+49, 1.2523673753787875e+50, 3.757102126136363e+50, 1.1271306378409088e+51, 3.381391913522726e+51, 1.0144175740568179e+52, 3.043252722170454e+52, 9.129758166511361e+52, 2.7389274499534083e+53, 8.216782349860226e+53, 2.4650347049580673e+54, 7.395104114874203e+54, 2.2185312344622608e+55, 6.655593703386782e+55, 1.9966781110160347e+56, 5.990034333048104e+56, 1.797010299914431e+57, 5.3910308997432935e+57, 1.617309269922988e+58, 4.851927809768964e+58, 1.4555783429306893e+59, 4.3667350287920675e+59, 1.3100205086376204e+60, 3.930061525912861e+60, 1.1790184577738583e+61, 3.537055373321575e+61, 1.0611166119964724e+62, 3.1833498359894176e+62, 9.550049507968253e+62, 2.8650148523904758e+63, 8.595044557171427e+63, 2.5785133671514282e+64, 7.735540101454285e+64, 2.320662030436285e+65, 6.961986091308856e+65, 2.088595827392657e+66, 6.2657874821779706e+66, 1.8797362446533912e+67, 5.639208733960174e+67, 1.691762620188052e+68, 5.075287860564156e+68, 1.5225863581692467e+69, 4.5677590745077406e+69, 1.3703277223523221e+70, 4.1109831670569665e+70, 1.2332949501170899e+71, 3.69988485035127e+71, 1.109965455105381e+72, 3.329896365316143e+72, 9.989689095948428e+72, 2.996906728784528e+73, 8.990720186353585e+73, 2.697216055906076e+74, 8.091648167718227e+74, 2.427494450315468e+75, 7.282483350946405e+75, 2.184745005283921e+76, 6.554235015851764e+76, 1.9662705047555292e+77, 5.898811514266588e+77, 1.7696434542799761e+78, 5.308930362839929e+78, 1.5926791088519785e+79, 4.778037326555936e+79, 1.4334111979667808e+80, 4.300233593900342e+80, 1.2900700781701028e+81, 3.870210234510308e+81, 1.1610630703530924e+82, 3.483189211059277e+82, 1.0449567633177832e+83, 3.1348702899533495e+83, 9.404610869860048e+83, 2.8213832609580145e+84, 8.464149782874044e+84, 2.539244934862213e+85, 7.61773480458664e+85, 2.2853204413759918e+86, 6.855961324127975e+86, 2.0567883972383925e+87, 6.170365191715178e+87, 1.8511095575145533e+88, 5.55332867254366e+88, 1.665998601763098e+89, 4.997995805289294e+89, 1.4993987415867883e+90, 4.498196224760364e+90, 1.3494588674281094e+91, 4.0483766022843285e+91, 1.2145129806852985e+92, 3.6435389420558956e+92, 1.0930616826167685e+93, 3.279185047850306e+93, 9.837555143550917e+93, 2.9512665430652752e+94, 8.853799629195826e+94, 2.6561398887587478e+95];
pub static POW5: [f64; 401] = [1.6069380442589902e-140, 8.034690221294951e-140, 4.017345110647475e-139, 2.0086725553237378e-138, 1.004336277661869e-137, 5.021681388309345e-137, 2.5108406941546723e-136, 1.2554203470773362e-135, 6.277101735386681e-135, 3.1385508676933404e-134, 1.5692754338466702e-133, 7.846377169233351e-133, 3.923188584616675e-132, 1.9615942923083378e-131, 9.807971461541688e-131, 4.903985730770844e-130, 2.4519928653854223e-129, 1.225996432692711e-128, 6.129982163463556e-128, 3.064991081731778e-127, 1.532495540865889e-126, 7.662477704329444e-126, 3.831238852164722e-125, 1.915619426082361e-124, 9.578097130411805e-124, 4.7890485652059027e-123, 2.3945242826029513e-122, 1.1972621413014757e-121, 5.986310706507379e-121, 2.993155353253689e-120, 1.4965776766268446e-119, 7.482888383134223e-119, 3.7414441915671117e-118, 1.8707220957835557e-117, 9.353610478917779e-117, 4.6768052394588894e-116, 2.3384026197294446e-115, 1.1692013098647222e-114, 5.8460065493236114e-114, 2.923003274661806e-113, 1.461501637330903e-112, 7.3075081866545145e-112, 3.6537540933272575e-111, 1.8268770466636285e-110, 9.134385233318144e-110, 4.567192616659072e-109, 2.2835963083295357e-108, 1.141798154164768e-107, 5.70899077082384e-107, 2.8544953854119196e-106, 1.4272476927059599e-105, 7.1362384635298e-105, 3.5681192317648995e-104, 1.7840596158824498e-103, 8.920298079412249e-103, 4.460149039706124e-102, 2.2300745198530622e-101, 1.1150372599265311e-100, 5.575186299632656e-100, 2.787593149816328e-99, 1.393796574908164e-98, 6.96898287454082e-98, 3.48449143727041e-97, 1.7422457186352049e-96, 8.711228593176025e-96, 4.3556142965880125e-95, 2.1778071482940063e-94, 1.0889035741470032e-93, 5.444517870735015e-93, 2.7222589353675077e-92, 1.361129467683754e-91, 6.805647338418769e-91, 3.402823669209385e-90, 1.7014118346046924e-89, 8.507059173023461e-89, 4.253529586511731e-88, 2.1267647932558653e-87, 1.0633823966279328e-86, 5.316911983139664e-86, 2.6584559915698317e-85, 1.3292279957849158e-84, 6.646139978924579e-84, 3.3230699894622896e-83, 1.661534994731145e-82, 8.307674973655724e-82, 4.1538374868278623e-81, 2.076918743413931e-80, 1.0384593717069655e-79, 5.1922968585348274e-79, 2.596148429267414e-78, 1.298074214633707e-77, 6.4903710731685345e-77, 3.2451855365842674e-76, 1.6225927682921336e-75, 8.112963841460668e-75, 4.056481920730334e-74, 2.028240960365167e-73, 1.0141204801825835e-72, 5.070602400912917e-72, 2.535301200456459e-71, 1.2676506002282294e-70, 6.338253001141147e-70, 3.1691265005705733e-69, 1.5845632502852868e-68, 7.922816251426433e-68, 3.961408125713217e-67, 1.9807040628566084e-66, 9.903520314283041e-66, 4.951760157141521e-65, 2.4758800785707606e-64, 1.2379400392853803e-63, 6.189700196426902e-63, 3.0948500982134505e-62, 1.5474250491067254e-61, 7.737125245533627e-61, 3.868562622766813e-60, 1.9342813113834067e-59, 9.671406556917034e-59, 4.8357032784585165e-58, 2.4178516392292583e-57, 1.2089258196146291e-56, 6.044629098073146e-56, 3.022314549036573e-55, 1.5111572745182864e-54, 7.555786372591432e-54, 3.777893186295716e-53, 1.888946593147858e-52, 9.44473296573929e-52, 4.722366482869645e-51, 2.3611832414348224e-50, 1.1805916207174113e-49, 5.902958103587056e-49, 2.9514790517935285e-48, 1.475739525896764e-47, 7.37869762948382e-47, 3.68934881474191e-46, 1.844674407370955e-45, 9.223372036854776e-45, 4.611686018427388e-44, 2.305843009213694e-43, 1.152921504606847e-42, 5.764607523034235e-42, 2.8823037615171175e-41, 1.4411518807585587e-40, 7.205759403792794e-40, 3.602879701896397e-39, 1.8014398509481985e-38, 9.007199254740992e-38, 4.503599627370496e-37, 2.251799813685248e-36, 1.125899906842624e-35, 5.62949953421312e-35, 2.81474976710656e-34, 1.40737488355328e-33, 7.0368744177664e-33, 3.5184372088832e-32, 1.7592186044416e-31, 8.796093022208e-31, 4.398046511104e-30, 2.199023255552e-29, 1.099511627776e-28, 5.49755813888e-28, 2.74877906944e-27, 1.37438953472e-26, 6.8719476736e-26, 3.4359738368e-25, 1.7179869184e-24, 8.589934592e-24, 4.294967296e-23, 2.147483648e-22, 1.073741824e-21, 5.36870912e-21, 2.68435456e-20, 1.34217728e-19, 6.7108864e-19, 3.3554432e-18, 1.6777216e-17, 8.388608e-17, 4.194304e-16, 2.097152e-15, 1.048576e-14, 5.24288e-14, 2.62144e-13, 1.31072e-12, 6.5536e-12, 3.2768e-11, 1.6384e-10, 8.192e-10, 4.096e-09, 2.048e-08, 1.024e-07, 5.12e-07, 2.56e-06, 1.28e-05, 6.4e-05, 0.00032, 0.0016, 0.008, 0.04, 0.2, 1.0, 5.0, 25.0, 125.0, 625.0, 3125.0, 15625.0, 78125.0, 390625.0, 1953125.0, 9765625.0, 48828125.0, 244140625.0, 1220703125.0, 6103515625.0, 30517578125.0, 152587890625.0, 762939453125.0, 3814697265625.0, 19073486328125.0, 95367431640625.0, 476837158203125.0, 2384185791015625.0, 1.1920928955078124e+16, 5.960464477539062e+16, 2.9802322387695315e+17, 1.4901161193847657e+18, 7.450580596923828e+18, 3.725290298461914e+19, 1.862645149230957e+20, 9.313225746154785e+20, 4.6566128730773924e+21, 2.3283064365386964e+22, 1.164153218269348e+23, 5.8207660913467404e+23, 2.9103830456733703e+24, 1.4551915228366852e+25, 7.2759576141834256e+25, 3.637978807091713e+26, 1.8189894035458564e+27, 9.094947017729283e+27, 4.547473508864641e+28, 2.2737367544323207e+29, 1.1368683772161603e+30, 5.684341886080802e+30, 2.8421709430404005e+31, 1.4210854715202004e+32, 7.105427357601002e+32, 3.552713678800501e+33, 1.7763568394002504e+34, 8.881784197001253e+34, 4.440892098500626e+35, 2.220446049250313e+36, 1.1102230246251565e+37, 5.551115123125783e+37, 2.7755575615628914e+38, 1.3877787807814458e+39, 6.938893903907229e+39, 3.469446951953614e+40, 1.734723475976807e+41, 8.673617379884035e+41, 4.3368086899420175e+42, 2.168404344971009e+43, 1.0842021724855045e+44, 5.421010862427522e+44, 2.710505431213761e+45, 1.3552527156068805e+46, 6.776263578034403e+46, 3.388131789017201e+47, 1.6940658945086008e+48, 8.470329472543004e+48, 4.235164736271502e+49, 2.1175823681357507e+50, 1.0587911840678754e+51, 5.293955920339377e+51, 2.6469779601696884e+52, 1.3234889800848443e+53, 6.617444900424221e+53, 3.308722450212111e+54, 1.6543612251060553e+55, 8.271806125530277e+55, 4.135903062765138e+56, 2.067951531382569e+57, 1.0339757656912846e+58, 5.169878828456423e+58, 2.5849394142282115e+59, 1.2924697071141058e+60, 6.462348535570528e+60, 3.231174267785264e+61, 1.6155871338926322e+62, 8.077935669463161e+62, 4.038967834731581e+63, 2.0194839173657903e+64, 1.0097419586828952e+65, 5.048709793414476e+65, 2.524354896707238e+66, 1.262177448353619e+67, 6.310887241768095e+67, 3.155443620884047e+68, 1.5777218104420236e+69, 7.888609052210118e+69, 3.944304526105059e+70, 1.9721522630525295e+71, 9.860761315262648e+71, 4.930380657631324e+72, 2.4651903288156617e+73, 1.232595164407831e+74, 6.162975822039155e+74, 3.0814879110195775e+75, 1.5407439555097887e+76, 7.703719777548944e+76, 3.8518598887744715e+77, 1.9259299443872357e+78, 9.62964972193618e+78, 4.81482486096809e+79, 2.407412430484045e+80, 1.2037062152420224e+81, 6.018531076210112e+81, 3.009265538105056e+82, 1.504632769052528e+83, 7.52316384526264e+83, 3.76158192263132e+84, 1.88079096131566e+85, 9.4039548065783e+85, 4.70197740328915e+86, 2.350988701644575e+87, 1.1754943508222874e+88, 5.877471754111437e+88, 2.938735877055719e+89, 1.4693679385278594e+90, 7.346839692639297e+90, 3.673419846319648e+91, 1.8367099231598242e+92, 9.183549615799121e+92, 4.59177480789956e+93, 2.2958874039497802e+94, 1.1479437019748902e+95, 5.739718509874451e+95, 2.8698592549372255e+96, 1.4349296274686127e+97, 7.174648137343064e+97, 3.587324068671532e+98, 1.793662034335766e+99, 8.96831017167883e+99, 4.484155085839415e+100, 2.2420775429197073e+101, 1.1210387714598536e+102, 5.605193857299268e+102, 2.8025969286496343e+103, 1.4012984643248171e+104, 7.006492321624085e+104, 3.5032461608120427e+105, 1.7516230804060214e+106, 8.758115402030107e+106, 4.3790577010150535e+107, 2.1895288505075267e+108, 1.0947644252537633e+109, 5.473822126268817e+109, 2.7369110631344082e+110, 1.368455531567204e+111, 6.842277657836021e+111, 3.4211388289180106e+112, 1.710569414459005e+113, 8.552847072295026e+113, 4.276423536147513e+114, 2.1382117680737563e+115, 1.0691058840368782e+116, 5.3455294201843915e+116, 2.6727647100921955e+117, 1.3363823550460977e+118, 6.681911775230489e+118, 3.3409558876152444e+119, 1.6704779438076224e+120, 8.352389719038112e+120, 4.176194859519056e+121, 2.0880974297595277e+122, 1.044048714879764e+123, 5.2202435743988197e+123, 2.61012178719941e+124, 1.3050608935997049e+125, 6.5253044679985246e+125, 3.262652233999262e+126, 1.6313261169996312e+127, 8.156630584998155e+127, 4.078315292499078e+128, 2.039157646249539e+129, 1.0195788231247694e+130, 5.097894115623847e+130, 2.5489470578119237e+131, 1.2744735289059619e+132, 6.37236764452981e+132, 3.186183822264905e+133, 1.5930919111324523e+134, 7.965459555662262e+134, 3.9827297778311305e+135, 1.9913648889155653e+136, 9.956824444577826e+136, 4.978412222288913e+137, 2.4892061111444567e+138, 1.2446030555722285e+139, 6.223015277861142e+139];
pub static POWPI: [f64; 81] = [1.3001848230056812e-20, 4.0846510882635936e-20, 1.283230985136646e-19, 4.03138903576408e-19, 1.2664982178518875e-18, 3.978821496988055e-18, 1.2499836384882818e-17, 3.926939415782226e-17, 1.2336844019713635e-16, 3.875733854081553e-16, 1.2175977003251863e-15, 3.825195990369432e-15, 1.201720762188574e-14, 3.775317118157951e-14, 1.186050852337681e-13, 3.726088644487971e-13, 1.1705852712147761e-12, 3.677502088448756e-12, 1.1553213544631734e-11, 3.629549079716915e-11, 1.1402564724682256e-10, 3.5822213571143895e-10, 1.1253880299043025e-09, 3.5355107671852473e-09, 1.1107134652876787e-08, 3.489409262791033e-08, 1.0962302505352487e-07, 3.4439089017244355e-07, 1.081935890528998e-06, 3.399001845341031e-06, 1.0678279226861534e-05, 3.354680357208869e-05, 0.00010539039165349367, 0.00033109368017756675, 0.0010401614732958523, 0.0032677636430533856, 0.010265982254684336, 0.03225153443319949, 0.10132118364233778, 0.3183098861837907, 1.0, 3.141592653589793, 9.869604401089358, 31.00627668029982, 97.40909103400244, 306.01968478528147, 961.3891935753045, 3020.2932277767923, 9488.531016070574, 29809.09933344621, 93648.04747608303, 294204.0179738906, 924269.1815233742, 2903677.2706132834, 9122171.181754353, 28658145.969387997, 90032220.84293328, 282844563.58653307, 888582403.0712634, 2791563949.5978456, 8769956796.082699, 27551631842.873287, 86556004191.98134, 271923706893.61594, 854273519913.8881, 2683779414317.7646, 8431341691876.207, 26487841119103.63, 83214007069229.61, 261424513284460.88, 821289330402749.6, 2580156526864958.5, 8105800789910710.0, 2.5465124213045828e+16, 8.000104715045634e+16, 2.513307020073643e+17, 7.895786870479012e+17, 2.4805346026607606e+18, 7.792829284694323e+18, 2.448189523147509e+19, 7.691214220515713e+19];
