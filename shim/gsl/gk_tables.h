static const double gk15_x[8] = {0.9914553711208126392068546975263285, 0.9491079123427585245261896840478513, 0.8648644233597690727897127886409262, 0.7415311855993944398638647732807884, 0.5860872354676911302941448382587296, 0.4058451513773971669066064120769615, 0.2077849550078984676006894037732449, 0.0};
static const double gk15_w[8] = {0.02293532201052922496373200805896959, 0.06309209262997855329070066318920429, 0.104790010322250183839876322541518, 0.1406532597155259187451895905102379, 0.1690047266392679028265834265985503, 0.1903505780647854099132564024210137, 0.2044329400752988924141619992346491, 0.2094821410847278280129991748917143};
static const double gk15_g[4] = {0.129484966168869693270611432679082, 0.2797053914892766679014677714237796, 0.3818300505051189449503697754889751, 0.4179591836734693877551020408163265};
static const double gk21_x[11] = {0.9956571630258080807355272806890028, 0.9739065285171717200779640120844521, 0.9301574913557082260012071800595083, 0.865063366688984510732096688423493, 0.7808177265864168970637175783450424, 0.6794095682990244062343273651148736, 0.5627571346686046833390000992726941, 0.4333953941292471907992659431657842, 0.2943928627014601981311266031038656, 0.14887433898163121088482600112972, 0.0};
static const double gk21_w[11] = {0.01169463886737187427806439606219205, 0.03255816230796472747881897245938976, 0.05475589657435199603138130024458018, 0.07503967481091995276704314091619001, 0.09312545458369760553506546508336634, 0.109387158802297641899210590325805, 0.1234919762620658510779581098310742, 0.1347092173114733259280540017717068, 0.1427759385770600807970942731387171, 0.147739104901338491374841515972068, 0.1494455540029169056649364683898212};
static const double gk21_g[5] = {0.06667134430868813759356880989333179, 0.1494513491505805931457763396576973, 0.2190863625159820439955349342281632, 0.2692667193099963550912269215694694, 0.2955242247147528701738929946513383};
static const double gk31_x[16] = {0.9980022986933970602851728401522712, 0.9879925180204854284895657185866126, 0.9677390756791391342573479787843372, 0.9372733924007059043077589477102095, 0.8972645323440819008825096564544959, 0.8482065834104272162006483207742169, 0.7904185014424659329676492948179473, 0.724417731360170047416186054613938, 0.6509967412974169705337358953132747, 0.5709721726085388475372267372539106, 0.4850818636402396806936557402323506, 0.3941513470775633698972073709810455, 0.299180007153168812166780024266389, 0.2011940939974345223006283033945962, 0.1011420669187174990270742314473923, 0.0};
static const double gk31_w[16] = {0.00537747987292334898779205143012765, 0.01500794732931612253837476307580727, 0.02546084732671532018687400101965336, 0.03534636079137584622203794847836005, 0.04458975132476487660822729937327969, 0.0534815246909280872653431472394303, 0.06200956780067064028513923096080293, 0.06985412131872825870952007709914748, 0.07684968075772037889443277748265901, 0.08308050282313302103828924728610379, 0.0885644430562117706472754436937743, 0.09312659817082532122548687274734572, 0.09664272698362367850517990762758934, 0.09917359872179195933239317348460313, 0.1007698455238755950449466626175697, 0.1013300070147915490173747927674925};
static const double gk31_g[8] = {0.03075324199611726835462839357720442, 0.07036604748810812470926741645066734, 0.1071592204671719350118695466858693, 0.1395706779261543144478047945110283, 0.1662692058169939335532008604812088, 0.1861610000155622110268005618664228, 0.1984314853271115764561183264438393, 0.2025782419255612728806201999675193};
static const double gk41_x[21] = {0.998859031588277663838315576545863, 0.9931285991850949247861223884713203, 0.9815078774502502591933429947202169, 0.9639719272779137912676661311972772, 0.9408226338317547535199827222124434, 0.9122344282513259058677524412032981, 0.8782768112522819760774429951130785, 0.8391169718222188233945290617015207, 0.7950414288375511983506388332727879, 0.7463319064601507926143050703556416, 0.6932376563347513848054907118459315, 0.6360536807265150254528366962262859, 0.5751404468197103153429460365864251, 0.510867001950827098004364050955251, 0.4435931752387251031999922134926401, 0.3737060887154195606725481770249272, 0.3016278681149130043205553568585923, 0.2277858511416450780804961953685746, 0.1526054652409226755052202410226775, 0.07652652113349733375464040939883821, 0.0};
static const double gk41_w[21] = {0.003073583718520531501218293246030987, 0.008600269855642942198661787950102347, 0.01462616925697125298378796030886836, 0.02038837346126652359801023143275471, 0.02588213360495115883450506709615314, 0.03128730677703279895854311932380074, 0.03660016975820079803055724070721101, 0.04166887332797368626378830593689474, 0.04643482186749767472023188092610752, 0.05094457392372869193270767005034495, 0.05519510534828599474483237241977733, 0.05911140088063957237496722064859422, 0.06265323755478116802587012217425498, 0.06583459713361842211156355696939794, 0.0686486729285216193456234118853678, 0.07105442355344406830579036172321017, 0.07303069033278666749518941765891311, 0.07458287540049918898658141836248753, 0.07570449768455667465954277537661656, 0.076377867672080736705502835038061, 0.07660071191799965644504990153010174};
static const double gk41_g[10] = {0.01761400713915211831186196235185282, 0.04060142980038694133103995227493211, 0.06267204833410906356950653518704161, 0.08327674157670474872475814322204621, 0.1019301198172404350367501354803499, 0.1181945319615184173123773777113823, 0.1316886384491766268984944997481631, 0.1420961093183820513292983250671649, 0.1491729864726037467878287370019694, 0.1527533871307258506980843319550976};
static const double gk51_x[26] = {0.9992621049926098341934574865403406, 0.9955569697904980979087849468939016, 0.9880357945340772476373310145774062, 0.9766639214595175114983153864795941, 0.9616149864258425124181300336601672, 0.9429745712289743394140111696584705, 0.9207471152817015617463460845463306, 0.894991997878275368851042006782805, 0.8658470652932755954489969695883401, 0.8334426287608340014210211086935696, 0.7978737979985000594104109049943066, 0.759259263037357630577282865204361, 0.7177664068130843881866540797732978, 0.6735663684734683644851206332476222, 0.6268100990103174127881226816245179, 0.5776629302412229677236898416126541, 0.5263252843347191825996237781580102, 0.473002731445714960522182115009192, 0.4178853821930377488518143945945725, 0.3611723058093878377358217301276407, 0.3030895389311078301674789099803393, 0.2438668837209884320451903627974516, 0.1837189394210488920159698887595284, 0.1228646926107103963873598188080368, 0.06154448300568507888654639236679663, 0.0};
static const double gk51_w[26] = {0.00198738389233031592650785188284341, 0.005561932135356713758040236901065522, 0.009473973386174151607207710523655324, 0.01323622919557167481365640584697624, 0.01684781770912829823151666753633632, 0.02043537114588283545656829223593897, 0.02400994560695321622009248916488108, 0.02747531758785173780294845551781108, 0.03079230016738748889110902021522859, 0.0340021302743293378367487952295512, 0.03711627148341554356033062536761988, 0.04008382550403238207483928446707565, 0.04287284502017004947689579243949516, 0.04550291304992178890987058475266039, 0.04798253713883671390639225575691475, 0.05027767908071567196332525943344008, 0.05236288580640747586436671213787271, 0.05425112988854549014454337045987561, 0.05595081122041231730824068638274735, 0.05743711636156783285358269393950647, 0.05868968002239420796197417585678776, 0.05972034032417405997909929193256185, 0.06053945537604586294536026751756543, 0.06112850971705304830585903041629271, 0.06147118987142531666154413196526418, 0.06158081806783293507875982424006455};
static const double gk51_g[13] = {0.01139379850102628794790296411323477, 0.02635498661503213726190181529529914, 0.04093915670130631265562348771164595, 0.05490469597583519192593689154047332, 0.06803833381235691720718718565670797, 0.0801407003350010180132349596691113, 0.09102826198296364981149722070289165, 0.1005359490670506442022068903926858, 0.1085196244742636531160939570501166, 0.1148582591457116483393255458695558, 0.119455763535784772228178126512901, 0.1222424429903100416889595189458515, 0.1231760537267154512039028730790501};
static const double gk61_x[31] = {0.9994844100504906375713258957058108, 0.9968934840746495402716300509186953, 0.9916309968704045948586283661094857, 0.9836681232797472099700325816056628, 0.9731163225011262683746938684237069, 0.9600218649683075122168710255817977, 0.9443744447485599794158313240374391, 0.926200047429274325879324277080474, 0.9055733076999077985465225589259583, 0.8825605357920526815431164625302256, 0.8572052335460610989586585106589439, 0.8295657623827683974428981197325019, 0.7997278358218390830136689423226832, 0.7677774321048261949179773409745031, 0.7337900624532268047261711313695276, 0.6978504947933157969322923880266401, 0.6600610641266269613700536681492708, 0.6205261829892428611404775564311893, 0.5793452358263616917560249321725405, 0.5366241481420198992641697933110728, 0.4924804678617785749936930612077088, 0.447033769538089176780609900322854, 0.4004012548303943925354762115426606, 0.3527047255308781134710372070893739, 0.3040732022736250773726771071992566, 0.2546369261678898464398051298178051, 0.2045251166823098914389576710020247, 0.1538699136085835469637946727432559, 0.1028069379667370301470967513180006, 0.05147184255531769583302521316672257, 0.0};
static const double gk61_w[31] = {0.0013890136986770076245515912267597, 0.003890461127099884051267201844515503, 0.006630703915931292173319826369750168, 0.00927327965951776342844114689202436, 0.01182301525349634174223289885325059, 0.01436972950704580481245143244358001, 0.01692088918905327262757228942032209, 0.01941414119394238117340895105012846, 0.02182803582160919229716748573833899, 0.02419116207808060136568637072523203, 0.02650995488233310161060170933507541, 0.02875404876504129284397878535433421, 0.03090725756238776247288425294309227, 0.03298144705748372603181419101685393, 0.03497933802806002413749967073146788, 0.03688236465182122922391106561713597, 0.03867894562472759295034865153228105, 0.04037453895153595911199527975246811, 0.04196981021516424614714754128596976, 0.04345253970135606931683172811707326, 0.04481480013316266319235555161672324, 0.04605923827100698811627173555937358, 0.04718554656929915394526147818109949, 0.04818586175708712914077949229830459, 0.04905543455502977888752816536723817, 0.04979568342707420635781156937994233, 0.05040592140278234684089308565358503, 0.05088179589874960649229747304980469, 0.05122154784925877217065628260494421, 0.05142612853745902593386287921578126, 0.05149472942945156755834043364709931};
static const double gk61_g[15] = {0.007968192496166605615465883474673622, 0.01846646831109095914230213191204727, 0.02878470788332336934971917961129204, 0.03879919256962704959680193644634769, 0.04840267283059405290293814042280752, 0.05749315621761906648172168940205613, 0.06597422988218049512812851511596236, 0.07375597473770520626824385002219073, 0.08075589522942021535469493846052973, 0.0868997872010829798023875307151257, 0.09212252223778612871763270708761877, 0.09636873717464425963946862635180987, 0.09959342058679526706278028210356948, 0.101762389748405504596428952168554, 0.102852652893558840341285636705415};
