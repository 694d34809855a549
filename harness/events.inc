// ISO 14819-2 event list: code, description, description with quantifier, quantifier type, both directions, urgency, update class
{1,"traffic problem","",0,0,1,1},
{2,"queuing traffic. Danger of stationary traffic","queuing traffic with average speeds (Q). Danger of stationary traffic",4,0,1,1},
{11,"overheight warning system triggered","",0,0,1,4},
{12,"accident, traffic being directed around accident area","(Q) accidents, traffic being directed around accident area",0,0,1,3},
{16,"closed, rescue and recovery work in progress","",0,0,1,5},
{20,"service area overcrowded, drive to another service area","",0,0,0,9},
{22,"service area, fuel station closed","",0,0,0,9},
{23,"service area, restaurant closed","",0,0,0,9},
{24,"bridge closed","",0,0,1,9},
{25,"tunnel closed","",0,0,1,9},
{26,"bridge blocked","",0,0,1,6},
{27,"tunnel blocked","",0,0,1,6},
{28,"road closed intermittently","",0,0,1,9},
{36,"fuel station reopened","",0,0,0,9},
{37,"restaurant reopened","",0,0,0,9},
{39,"reopening of bridge expected","reopening of bridge expected (Q)",7,1,0,39},
{40,"smog alert ended","",0,1,0,9},
{41,"overtaking lane closed","(Q) overtaking lanes closed",0,0,0,5},
{42,"overtaking lane blocked","(Q) overtaking lanes blocked",0,0,1,5},
{51,"roadworks, overtaking lane closed","roadworks, (Q) overtaking lanes closed",0,0,0,5},
{52,"roadworks on the hard shoulder","(Q) sets of roadworks on the hard shoulder",0,0,0,11},
{53,"roadworks in the emergency lane","(Q) sets of roadworks in the emergency lane",0,0,0,11},
{55,"traffic problem expected","",0,0,0,2},
{56,"traffic congestion expected","",0,0,1,2},
{57,"normal traffic expected","",0,0,0,2},
{61,"object on roadway {something that does not neccessarily block the road or part of it}","(Q) objects on roadway {something that does not neccessarily block the road or part of it}",0,0,1,12},
{62,"burst pipe","(Q) burst pipes",0,1,0,12},
{63,"object on the road. Danger","(Q) objects on the road. Danger",0,0,1,12},
{64,"burst pipe. Danger","",0,1,1,12},
{70,"traffic congestion, average speed of 10 km/h","",0,0,1,1},
{71,"traffic congestion, average speed of 20 km/h","",0,0,1,1},
{72,"traffic congestion, average speed of 30 km/h","",0,0,1,1},
{73,"traffic congestion, average speed of 40 km/h","",0,0,1,1},
{74,"traffic congestion, average speed of 50 km/h","",0,0,0,1},
{75,"traffic congestion, average speed of 60 km/h","",0,0,0,1},
{76,"traffic congestion, average speed of 70 km/h","",0,0,0,1},
{80,"heavy traffic has to be expected","",0,0,0,32},
{81,"traffic congestion has to be expected","",0,0,1,32},
{82,"roadworks. Heavy traffic has to be expected","(Q) sets of roadworks. Heavy traffic has to be expected",0,0,0,32},
{83,"closed ahead. Heavy traffic expected","",0,0,1,32},
{84,"major event. Heavy traffic has to be expected","",0,0,0,32},
{85,"sports meeting. Heavy traffic has to be expected","",0,0,0,32},
{86,"fair. Heavy traffic has to be expected","",0,0,0,32},
{87,"evacuation. Heavy traffic has to be expected","",0,0,0,32},
{88,"traffic congestion forecast withdrawn","",0,0,0,32},
{89,"message cancelled","",0,0,0,32},
{91,"delays for cars","delays (Q) for cars",5,0,0,20},
{101,"stationary traffic","",0,0,1,1},
{102,"stationary traffic for 1 km","",0,0,1,1},
{103,"stationary traffic for 2 km","",0,0,1,1},
{104,"stationary traffic for 4 km","",0,0,1,1},
{105,"stationary traffic for 6 km","",0,0,1,1},
{106,"stationary traffic for 10 km","",0,0,1,1},
{107,"stationary traffic expected","",0,0,1,2},
{108,"queuing traffic","queuing traffic with average speeds (Q)",4,0,1,1},
{109,"queuing traffic for 1 km","queuing traffic for 1 km with average speeds (Q)",4,0,1,1},
{110,"queuing traffic for 2 km","queuing traffic for 2 km with average speeds (Q)",4,0,1,1},
{111,"queuing traffic for 4 km","queuing traffic for 4 km with average speeds (Q)",4,0,1,1},
{112,"queuing traffic for 6 km","queuing traffic for 6 km with average speeds (Q)",4,0,1,1},
{113,"queuing traffic for 10 km","queuing traffic for 10 km with average speeds (Q)",4,0,1,1},
{114,"queuing traffic expected","",0,0,1,2},
{115,"slow traffic","slow traffic with average speeds (Q)",4,0,1,1},
{116,"slow traffic for 1 km","slow traffic for 1 km with average speeds (Q)",4,0,1,1},
{117,"slow traffic for 2 km","slow traffic for 2 km with average speeds (Q)",4,0,1,1},
{118,"slow traffic for 4 km","slow traffic for 4 km with average speeds (Q)",4,0,1,1},
{119,"slow traffic for 6 km","slow traffic for 6 km with average speeds (Q)",4,0,1,1},
{120,"slow traffic for 10 km","slow traffic for 10 km with average speeds (Q)",4,0,1,1},
{121,"slow traffic expected","",0,0,1,2},
{122,"heavy traffic","heavy traffic with average speeds (Q)",4,0,0,1},
{123,"heavy traffic expected","",0,0,0,2},
{124,"traffic flowing freely","traffic flowing freely with average speeds (Q)",4,0,0,1},
{125,"traffic building up","traffic building up with average speeds (Q)",4,0,0,1},
{126,"no problems to report","",0,0,0,1},
{127,"traffic congestion cleared","",0,0,0,1},
{128,"message cancelled","",0,0,0,1},
{129,"stationary traffic for 3 km","",0,0,1,1},
{130,"danger of stationary traffic","",0,0,1,1},
{131,"queuing traffic for 3 km","queuing traffic for 3 km with average speeds (Q)",4,0,1,1},
{132,"danger of queuing traffic","danger of queuing traffic with average speeds (Q)",4,0,1,1},
{133,"long queues","long queues with average speeds (Q)",4,0,1,1},
{134,"slow traffic for 3 km","slow traffic for 3 km with average speeds (Q)",4,0,1,1},
{135,"traffic easing","",0,0,0,1},
{136,"traffic congestion","traffic congestion with average speeds (Q)",4,0,0,1},
{137,"traffic lighter than normal","traffic lighter than normal with average speeds (Q)",4,0,0,1},
{138,"queuing traffic. Approach with care","queuing traffic with average speeds (Q). Approach with care",4,0,1,1},
{139,"queuing traffic around a bend in the road","",0,0,1,1},
{140,"queuing traffic over the crest of a hill","",0,0,1,1},
{141,"all accidents cleared, no problems to report","",0,0,0,3},
{142,"traffic heavier than normal","traffic heavier than normal with average speeds (Q)",4,0,0,1},
{143,"traffic very much heavier than normal","traffic very much heavier than normal with average speeds (Q)",4,0,0,1},
{200,"multi vehicle pile up. Delays","multi vehicle pile up. Delays (Q)",5,0,1,20},
{201,"accident","(Q) accidents",0,0,0,3},
{202,"serious accident","(Q) serious accidents",0,0,1,3},
{203,"multi-vehicle accident","multi-vehicle accident involving (Q) vehicles",0,0,1,3},
{204,"accident involving heavy lorr(y/ies)","accident involving a/(Q) heavy lorr(y/ies)",0,0,1,3},
{205,"accident involving hazardous materials","(Q) accidents involving hazardous materials",0,0,1,3},
{206,"fuel spillage accident","(Q) fuel spillage accidents",0,0,1,3},
{207,"chemical spillage accident","(Q) chemical spillage accidents",0,0,1,3},
{208,"vehicles slowing to look at accident","vehicles slowing to look at (Q) accidents",0,0,0,1},
{209,"accident in the opposing lanes","(Q) accidents in the opposing lanes",0,0,0,3},
{210,"shed load","(Q) shed loads",0,0,0,12},
{211,"broken down vehicle","(Q) broken down vehicles",0,0,0,4},
{212,"broken down heavy lorr(y/ies)","(Q) broken down heavy lorr(y/ies)",0,0,0,4},
{213,"vehicle fire","(Q) vehicle fires",0,0,0,3},
{214,"incident","(Q) incidents",0,0,0,4},
{215,"accident. Stationary traffic","(Q) accidents. Stationary traffic",0,0,1,1},
{216,"accident. Stationary traffic for 1 km","(Q) accidents. Stationary traffic for 1 km",0,0,1,1},
{217,"accident. Stationary traffic for 2 km","(Q) accidents. Stationary traffic for 2 km",0,0,1,1},
{218,"accident. Stationary traffic for 4 km","(Q) accidents. Stationary traffic for 4 km",0,0,1,1},
{219,"accident. Stationary traffic for 6 km","(Q) accidents. Stationary traffic for 6 km",0,0,1,1},
{220,"accident. Stationary traffic for 10 km","(Q) accidents. Stationary traffic for 10 km",0,0,1,1},
{221,"accident. Danger of stationary traffic","(Q) accidents. Danger of stationary traffic",0,0,1,1},
{222,"accident. Queuing traffic","(Q) accidents. Queuing traffic",0,0,1,1},
{223,"accident. Queuing traffic for 1 km","(Q) accidents. Queuing traffic for 1 km",0,0,1,1},
{224,"accident. Queuing traffic for 2 km","(Q) accidents. Queuing traffic for 2 km",0,0,1,1},
{225,"accident. Queuing traffic for 4 km","(Q) accidents. Queuing traffic for 4 km",0,0,1,1},
{226,"accident. Queuing traffic for 6 km","(Q) accidents. Queuing traffic for 6 km",0,0,1,1},
{227,"accident. Queuing traffic for 10 km","(Q) accidents. Queuing traffic for 10 km",0,0,1,1},
{228,"accident. Danger of queuing traffic","(Q) accidents. Danger of queuing traffic",0,0,1,1},
{229,"accident. Slow traffic","(Q) accidents. Slow traffic",0,0,1,1},
{230,"accident. Slow traffic for 1 km","(Q) accidents. Slow traffic for 1 km",0,0,1,1},
{231,"accident. Slow traffic for 2 km","(Q) accidents. Slow traffic for 2 km",0,0,1,1},
{232,"accident. Slow traffic for 4 km","(Q) accidents. Slow traffic for 4 km",0,0,1,1},
{233,"accident. Slow traffic for 6 km","(Q) accidents. Slow traffic for 6 km",0,0,1,1},
{234,"accident. Slow traffic for 10 km","(Q) accidents. Slow traffic for 10 km",0,0,1,1},
{235,"accident. Slow traffic expected","(Q) accidents. Slow traffic expected",0,0,1,2},
{236,"accident. Heavy traffic","(Q) accidents. Heavy traffic",0,0,0,1},
{237,"accident. Heavy traffic expected","(Q) accidents. Heavy traffic expected",0,0,0,2},
{238,"accident. Traffic flowing freely","(Q) accidents. Traffic flowing freely",0,0,0,1},
{239,"accident. Traffic building up","(Q) accidents. Traffic building up",0,0,0,1},
{240,"road closed due to accident","road closed due to (Q) accidents",0,0,1,5},
{241,"accident. Right lane blocked","(Q) accidents. Right lane blocked",0,0,1,5},
{242,"accident. Centre lane blocked","(Q) accidents. Centre lane blocked",0,0,1,5},
{243,"accident. Left lane blocked","(Q) accidents. Left lane blocked",0,0,1,5},
{244,"accident. Hard shoulder blocked","(Q) accidents. Hard shoulder blocked",0,0,1,5},
{245,"accident. Two lanes blocked","(Q) accidents. Two lanes blocked",0,0,1,5},
{246,"accident. Three lanes blocked","(Q) accidents. Three lanes blocked",0,0,1,5},
{247,"accident. Delays","accident. Delays (Q)",5,0,0,20},
{248,"accident. Delays expected","accident. Delays (Q) expected",5,0,0,20},
{249,"accident. Long delays","accident. Long delays (Q)",5,0,1,20},
{250,"vehicles slowing to look at accident. Stationary traffic","vehicles slowing to look at (Q) accidents. Stationary traffic",0,0,1,1},
{251,"vehicles slowing to look at accident. Stationary traffic for 1 km","vehicles slowing to look at (Q) accidents. Stationary traffic for 1 km",0,0,1,1},
{252,"vehicles slowing to look at accident. Stationary traffic for 2 km","vehicles slowing to look at (Q) accidents. Stationary traffic for 2 km",0,0,1,1},
{253,"vehicles slowing to look at accident. Stationary traffic for 4 km","vehicles slowing to look at (Q) accidents. Stationary traffic for 4 km",0,0,1,1},
{254,"vehicles slowing to look at accident. Stationary traffic for 6 km","vehicles slowing to look at (Q) accidents. Stationary traffic for 6 km",0,0,1,1},
{255,"vehicles slowing to look at accident. Stationary traffic for 10 km","vehicles slowing to look at (Q) accidents. Stationary traffic for 10 km",0,0,1,1},
{256,"vehicles slowing to look at accident. Danger of stationary traffic","vehicles slowing to look at (Q) accidents. Danger of stationary traffic",0,0,1,1},
{257,"vehicles slowing to look at accident. Queuing traffic","vehicles slowing to look at (Q) accidents. Queuing traffic",0,0,1,1},
{258,"vehicles slowing to look at accident. Queuing traffic for 1 km","vehicles slowing to look at (Q) accidents. Queuing traffic for 1 km",0,0,1,1},
{259,"vehicles slowing to look at accident. Queuing traffic for 2 km","vehicles slowing to look at (Q) accidents. Queuing traffic for 2 km",0,0,1,1},
{260,"vehicles slowing to look at accident. Queuing traffic for 4 km","vehicles slowing to look at (Q) accidents. Queuing traffic for 4 km",0,0,1,1},
{261,"vehicles slowing to look at accident. Queuing traffic for 6 km","vehicles slowing to look at (Q) accidents. Queuing traffic for 6 km",0,0,1,1},
{262,"vehicles slowing to look at accident. Queuing traffic for 10 km","vehicles slowing to look at (Q) accidents. Queuing traffic for 10 km",0,0,1,1},
{263,"vehicles slowing to look at accident. Danger of queuing traffic","vehicles slowing to look at (Q) accidents. Danger of queuing traffic",0,0,1,1},
{264,"vehicles slowing to look at accident. Slow traffic","vehicles slowing to look at (Q) accidents. Slow traffic",0,0,1,1},
{265,"vehicles slowing to look at accident. Slow traffic for 1 km","vehicles slowing to look at (Q) accidents. Slow traffic for 1 km",0,0,1,1},
{266,"vehicles slowing to look at accident. Slow traffic for 2 km","vehicles slowing to look at (Q) accidents. Slow traffic for 2 km",0,0,1,1},
{267,"vehicles slowing to look at accident. Slow traffic for 4 km","vehicles slowing to look at (Q) accidents. Slow traffic for 4 km",0,0,1,1},
{268,"vehicles slowing to look at accident. Slow traffic for 6 km","vehicles slowing to look at (Q) accidents. Slow traffic for 6 km",0,0,1,1},
{269,"vehicles slowing to look at accident. Slow traffic for 10 km","vehicles slowing to look at (Q) accidents. Slow traffic for 10 km",0,0,1,1},
{270,"vehicles slowing to look at accident. Slow traffic expected","vehicles slowing to look at (Q) accidents. Slow traffic expected",0,0,1,2},
{271,"vehicles slowing to look at accident. Heavy traffic","vehicles slowing to look at (Q) accidents. Heavy traffic",0,0,0,1},
{272,"vehicles slowing to look at accident. Heavy traffic expected","vehicles slowing to look at (Q) accidents. Heavy traffic expected",0,0,0,2},
{274,"vehicles slowing to look at accident. Traffic building up","vehicles slowing to look at (Q) accidents. Traffic building up",0,0,0,1},
{275,"vehicles slowing to look at accident. Delays","vehicles slowing to look at accident. Delays (Q)",5,0,1,20},
{276,"vehicles slowing to look at accident. Delays expected","vehicles slowing to look at accident. Delays (Q) expected",5,0,1,20},
{277,"vehicles slowing to look at accident. Long delays","vehicles slowing to look at accident. Long delays (Q)",5,0,1,20},
{278,"shed load. Stationary traffic","(Q) shed loads. Stationary traffic",0,0,1,1},
{279,"shed load. Stationary traffic for 1 km","(Q) shed loads. Stationary traffic for 1 km",0,0,1,1},
{280,"shed load. Stationary traffic for 2 km","(Q) shed loads. Stationary traffic for 2 km",0,0,1,1},
{281,"shed load. Stationary traffic for 4 km","(Q) shed loads. Stationary traffic for 4 km",0,0,1,1},
{282,"shed load. Stationary traffic for 6 km","(Q) shed loads. Stationary traffic for 6 km",0,0,1,1},
{283,"shed load. Stationary traffic for 10 km","(Q) shed loads. Stationary traffic for 10 km",0,0,1,1},
{284,"shed load. Danger of stationary traffic","(Q) shed loads. Danger of stationary traffic",0,0,1,1},
{285,"shed load. Queuing traffic","(Q) shed loads. Queuing traffic",0,0,1,1},
{286,"shed load. Queuing traffic for 1 km","(Q) shed loads. Queuing traffic for 1 km",0,0,1,1},
{287,"shed load. Queuing traffic for 2 km","(Q) shed loads. Queuing traffic for 2 km",0,0,1,1},
{288,"shed load. Queuing traffic for 4 km","(Q) shed loads. Queuing traffic for 4 km",0,0,1,1},
{289,"shed load. Queuing traffic for 6 km","(Q) shed loads. Queuing traffic for 6 km",0,0,1,1},
{290,"shed load. Queuing traffic for 10 km","(Q) shed loads. Queuing traffic for 10 km",0,0,1,1},
{291,"shed load. Danger of queuing traffic","(Q) shed loads. Danger of queuing traffic",0,0,1,1},
{292,"shed load. Slow traffic","(Q) shed loads. Slow traffic",0,0,1,1},
{293,"shed load. Slow traffic for 1 km","(Q) shed loads. Slow traffic for 1 km",0,0,1,1},
{294,"shed load. Slow traffic for 2 km","(Q) shed loads. Slow traffic for 2 km",0,0,1,1},
{295,"shed load. Slow traffic for 4 km","(Q) shed loads. Slow traffic for 4 km",0,0,1,1},
{296,"shed load. Slow traffic for 6 km","(Q) shed loads. Slow traffic for 6 km",0,0,1,1},
{297,"shed load. Slow traffic for 10 km","(Q) shed loads. Slow traffic for 10 km",0,0,1,1},
{298,"shed load. Slow traffic expected","(Q) shed loads. Slow traffic expected",0,0,1,2},
{299,"shed load. Heavy traffic","(Q) shed loads. Heavy traffic",0,0,0,1},
{300,"shed load. Heavy traffic expected","(Q) shed loads. Heavy traffic expected",0,0,0,2},
{301,"shed load. Traffic flowing freely","(Q) shed loads. Traffic flowing freely",0,0,0,1},
{302,"shed load. Traffic building up","(Q) shed loads. Traffic building up",0,0,0,1},
{303,"blocked by shed load","blocked by (Q) shed loads",0,0,1,5},
{304,"shed load. Right lane blocked","(Q) shed loads. Right lane blocked",0,0,1,5},
{305,"shed load. Centre lane blocked","(Q) shed loads. Centre lane blocked",0,0,1,5},
{306,"shed load. Left lane blocked","(Q) shed loads. Left lane blocked",0,0,1,5},
{307,"shed load. Hard shoulder blocked","(Q) shed loads. Hard shoulder blocked",0,0,1,5},
{308,"shed load. Two lanes blocked","(Q) shed loads. Two lanes blocked",0,0,1,5},
{309,"shed load. Three lanes blocked","(Q) shed loads. Three lanes blocked",0,0,1,5},
{310,"shed load. Delays","shed load. Delays (Q)",5,0,0,20},
{311,"shed load. Delays expected","shed load. Delays (Q) expected",5,0,0,20},
{312,"shed load. Long delays","shed load. Long delays (Q)",5,0,1,20},
{313,"broken down vehicle. Stationary traffic","(Q) broken down vehicles. Stationary traffic",0,0,1,1},
{314,"broken down vehicle. Danger of stationary traffic","(Q) broken down vehicles. Danger of stationary traffic",0,0,1,1},
{315,"broken down vehicle. Queuing traffic","(Q) broken down vehicles. Queuing traffic",0,0,1,1},
{316,"broken down vehicle. Danger of queuing traffic","(Q) broken down vehicles. Danger of queuing traffic",0,0,1,1},
{317,"broken down vehicle. Slow traffic","(Q) broken down vehicles. Slow traffic",0,0,1,1},
{318,"broken down vehicle. Slow traffic expected","(Q) broken down vehicles. Slow traffic expected",0,0,1,2},
{319,"broken down vehicle. Heavy traffic","(Q) broken down vehicles. Heavy traffic",0,0,0,1},
{320,"broken down vehicle. Heavy traffic expected","(Q) broken down vehicles. Heavy traffic expected",0,0,0,2},
{321,"broken down vehicle. Traffic flowing freely","(Q) broken down vehicles. Traffic flowing freely",0,0,0,1},
{322,"broken down vehicle.Traffic building up","(Q) broken down vehicles.Traffic building up",0,0,0,1},
{323,"blocked by broken down vehicle.","blocked by (Q) broken down vehicles.",0,0,1,5},
{324,"broken down vehicle. Right lane blocked","(Q) broken down vehicles. Right lane blocked",0,0,1,5},
{325,"broken down vehicle. Centre lane blocked","(Q) broken down vehicles. Centre lane blocked",0,0,1,5},
{326,"broken down vehicle. Left lane blocked","(Q) broken down vehicles. Left lane blocked",0,0,1,5},
{327,"broken down vehicle. Hard shoulder blocked","(Q) broken down vehicles. Hard shoulder blocked",0,0,1,5},
{328,"broken down vehicle. Two lanes blocked","(Q) broken down vehicles. Two lanes blocked",0,0,1,5},
{329,"broken down vehicle. Three lanes blocked","(Q) broken down vehicles. Three lanes blocked",0,0,1,5},
{330,"broken down vehicle. Delays","broken down vehicle. Delays (Q)",5,0,0,20},
{331,"broken down vehicle. Delays expected","broken down vehicle. Delays (Q) expected",5,0,0,20},
{332,"broken down vehicle. Long delays","broken down vehicle. Long delays (Q)",5,0,1,20},
{333,"accident cleared","",0,0,0,3},
{334,"message cancelled","",0,0,0,3},
{335,"accident involving bus(es)","accident involving a/(Q) bus(es)",0,0,1,3},
{336,"oil spillage accident","(Q) oil spillage accidents",0,0,1,3},
{337,"overturned vehicle","(Q) overturned vehicles",0,0,0,3},
{338,"overturned heavy lorr(y/ies)","(Q) overturned heavy lorr(y/ies)",0,0,1,3},
{339,"jackknifed trailer","(Q) jackknifed trailers",0,0,1,3},
{340,"jackknifed caravan","(Q) jackknifed caravans",0,0,1,3},
{341,"jackknifed articulated lorr(y/ies)","(Q) jackknifed articulated lorr(y/ies)",0,0,1,3},
{342,"vehicle spun around","(Q) vehicles spun around",0,0,0,3},
{343,"earlier accident","(Q) earlier accidents",0,0,0,3},
{344,"accident investigation work","",0,0,0,3},
{345,"secondary accident","(Q) secondary accidents",0,0,0,3},
{346,"broken down bus(es)","(Q) broken down bus(es)",0,0,0,4},
{347,"overheight vehicle","(Q) overheight vehicles",0,0,0,24},
{348,"accident. Stationary traffic for 3 km","(Q) accidents. Stationary traffic for 3 km",0,0,1,1},
{349,"accident. Queuing traffic for 3 km","(Q) accidents. Queuing traffic for 3 km",0,0,1,1},
{350,"accident. Slow traffic for 3 km","(Q) accidents. Slow traffic for 3 km",0,0,1,1},
{351,"accident in roadworks area","(Q) accidents in roadworks area",0,0,1,3},
{352,"vehicles slowing to look at accident. Stationary traffic for 3 km","vehicles slowing to look at (Q) accidents. Stationary traffic for 3 km",0,0,1,1},
{353,"vehicles slowing to look at accident. Queuing traffic for 3 km","vehicles slowing to look at (Q) accidents. Queuing traffic for 3 km",0,0,1,1},
{354,"vehicles slowing to look at accident. Slow traffic for 3 km","vehicles slowing to look at (Q) accidents. Slow traffic for 3 km",0,0,1,1},
{355,"vehicles slowing to look at accident. Danger","vehicles slowing to look at (Q) accidents. Danger",0,0,1,1},
{356,"shed load. Stationary traffic for 3 km","(Q) shed loads. Stationary traffic for 3 km",0,0,1,1},
{357,"shed load. Queuing traffic for 3 km","(Q) shed loads. Queuing traffic for 3 km",0,0,1,1},
{358,"shed load. Slow traffic for 3 km","(Q) shed loads. Slow traffic for 3 km",0,0,1,1},
{359,"shed load. Danger","(Q) shed loads. Danger",0,0,1,12},
{360,"overturned vehicle. Stationary traffic","(Q) overturned vehicles. Stationary traffic",0,0,1,1},
{361,"overturned vehicle. Danger of stationary traffic","(Q) overturned vehicles. Danger of stationary traffic",0,0,1,1},
{362,"overturned vehicle. Queuing traffic","(Q) overturned vehicles. Queuing traffic",0,0,1,1},
{363,"overturned vehicle. Danger of queuing traffic","(Q) overturned vehicles. Danger of queuing traffic",0,0,1,1},
{364,"overturned vehicle. Slow traffic","(Q) overturned vehicles. Slow traffic",0,0,1,1},
{365,"overturned vehicle. Slow traffic expected","(Q) overturned vehicles. Slow traffic expected",0,0,1,2},
{366,"overturned vehicle. Heavy traffic","(Q) overturned vehicles. Heavy traffic",0,0,0,1},
{367,"overturned vehicle. Heavy traffic expected","(Q) overturned vehicles. Heavy traffic expected",0,0,0,2},
{368,"overturned vehicle. Traffic building up","(Q) overturned vehicles. Traffic building up",0,0,0,1},
{369,"blocked by overturned vehicle","blocked by (Q) overturned vehicles",0,0,1,5},
{370,"overturned vehicle. Right lane blocked","(Q) overturned vehicles. Right lane blocked",0,0,1,5},
{371,"overturned vehicle. Centre lane blocked","(Q) overturned vehicles. Centre lane blocked",0,0,1,5},
{372,"overturned vehicle. Left lane blocked","(Q) overturned vehicles. Left lane blocked",0,0,1,5},
{373,"overturned vehicle. Two lanes blocked","(Q) overturned vehicles. Two lanes blocked",0,0,1,5},
{374,"overturned vehicle. Three lanes blocked","(Q) overturned vehicles. Three lanes blocked",0,0,1,5},
{375,"overturned vehicle. Delays","overturned vehicle. Delays (Q)",5,0,0,20},
{376,"overturned vehicle. Delays expected","overturned vehicle. Delays (Q) expected",5,0,0,20},
{377,"overturned vehicle. Long delays","overturned vehicle. Long delays (Q)",5,0,1,20},
{378,"overturned vehicle. Danger","(Q) overturned vehicles. Danger",0,0,1,3},
{379,"Stationary traffic due to earlier accident","Stationary traffic due to (Q) earlier accidents",0,0,1,1},
{380,"Danger of stationary traffic due to earlier accident","Danger of stationary traffic due to (Q) earlier accidents",0,0,1,1},
{381,"Queuing traffic due to earlier accident","Queuing traffic due to (Q) earlier accidents",0,0,1,1},
{382,"Danger of queuing traffic due to earlier accident","Danger of queuing traffic due to (Q) earlier accidents",0,0,1,1},
{383,"Slow traffic due to earlier accident","Slow traffic due to (Q) earlier accidents",0,0,1,1},
{385,"Heavy traffic due to earlier accident","Heavy traffic due to (Q) earlier accidents",0,0,0,1},
{387,"Traffic building up due to earlier accident","Traffic building up due to (Q) earlier accidents",0,0,0,1},
{388,"Delays due to earlier accident","Delays (Q) due to earlier accident",5,0,0,20},
{390,"Long delays due to earlier accident","Long delays (Q) due to earlier accident",5,0,1,20},
{391,"accident investigation work. Danger","",0,0,1,3},
{392,"secondary accident. Danger","(Q) secondary accidents. Danger",0,0,1,3},
{393,"broken down vehicle. Danger","(Q) broken down vehicles. Danger",0,0,1,4},
{394,"broken down heavy lorr(y/ies). Danger","(Q) broken down heavy lorr(y/ies). Danger",0,0,1,4},
{395,"road cleared","",0,0,0,4},
{396,"incident cleared","",0,0,0,4},
{397,"rescue and recovery work in progress","",0,0,1,4},
{399,"message cancelled","",0,0,0,8},
{401,"closed","",0,0,1,5},
{402,"blocked","",0,0,1,5},
{403,"closed for heavy vehicles","closed for heavy vehicles over (Q)",8,0,1,9},
{404,"no through traffic for heavy lorries","no through traffic for heavy lorries over (Q)",8,0,1,9},
{405,"no through traffic","",0,0,1,9},
{406,"entry slip road closed","(Q) th entry slip road closed",0,0,1,8},
{407,"exit slip road closed","(Q) th exit slip road closed",0,0,1,7},
{408,"slip roads closed","",0,0,1,7},
{409,"slip road restrictions","",0,0,0,7},
{410,"closed ahead. Stationary traffic","",0,0,1,1},
{411,"closed ahead. Stationary traffic for 1 km","",0,0,1,1},
{412,"closed ahead. Stationary traffic for 2 km","",0,0,1,1},
{413,"closed ahead. Stationary traffic for 4 km","",0,0,1,1},
{414,"closed ahead. Stationary traffic for 6 km","",0,0,1,1},
{415,"closed ahead. Stationary traffic for 10 km","",0,0,1,1},
{416,"closed ahead. Danger of stationary traffic","",0,0,1,1},
{417,"closed ahead. Queuing traffic","closed ahead. Queuing traffic",0,0,1,1},
{418,"closed ahead. Queuing traffic for 1 km","closed ahead. Queuing traffic for 1 km",0,0,1,1},
{419,"closed ahead. Queuing traffic for 2 km","closed ahead. Queuing traffic for 2 km",0,0,1,1},
{420,"closed ahead. Queuing traffic for 4 km","closed ahead. Queuing traffic for 4 km",0,0,1,1},
{421,"closed ahead. Queuing traffic for 6 km","closed ahead. Queuing traffic for 6 km",0,0,1,1},
{422,"closed ahead. Queuing traffic for 10 km","closed ahead. Queuing traffic for 10 km",0,0,1,1},
{423,"closed ahead. Danger of queuing traffic","",0,0,1,1},
{424,"closed ahead. Slow traffic","",0,0,1,1},
{425,"closed ahead. Slow traffic for 1 km","",0,0,1,1},
{426,"closed ahead. Slow traffic for 2 km","",0,0,1,1},
{427,"closed ahead. Slow traffic for 4 km","",0,0,1,1},
{428,"closed ahead. Slow traffic for 6 km","",0,0,1,1},
{429,"closed ahead. Slow traffic for 10 km","",0,0,1,1},
{430,"closed ahead. Slow traffic expected","",0,0,1,2},
{431,"closed ahead. Heavy traffic","",0,0,1,1},
{432,"closed ahead. Heavy traffic expected","",0,0,1,2},
{433,"closed ahead. Traffic flowing freely","",0,0,1,1},
{434,"closed ahead. Traffic building up","",0,0,1,1},
{435,"closed ahead. Delays","closed ahead. Delays (Q)",5,0,1,20},
{436,"closed ahead. Delays expected","closed ahead. Delays (Q) expected",5,0,1,20},
{437,"closed ahead. Long delays","closed ahead. Long delays (Q)",5,0,1,20},
{438,"blocked ahead. Stationary traffic","",0,0,1,1},
{439,"blocked ahead. Stationary traffic for 1 km","",0,0,1,1},
{440,"blocked ahead. Stationary traffic for 2 km","",0,0,1,1},
{441,"blocked ahead. Stationary traffic for 4 km","",0,0,1,1},
{442,"blocked ahead. Stationary traffic for 6 km","",0,0,1,1},
{443,"blocked ahead. Stationary traffic for 10 km","",0,0,1,1},
{444,"blocked ahead. Danger of stationary traffic","",0,0,1,1},
{445,"blocked ahead. Queuing traffic","blocked ahead. Queuing traffic",0,0,1,1},
{446,"blocked ahead. Queuing traffic for 1 km","blocked ahead. Queuing traffic for 1 km",0,0,1,1},
{447,"blocked ahead. Queuing traffic for 2 km","blocked ahead. Queuing traffic for 2 km",0,0,1,1},
{448,"blocked ahead. Queuing traffic for 4 km","blocked ahead. Queuing traffic for 4 km",0,0,1,1},
{449,"blocked ahead. Queuing traffic for 6 km","blocked ahead. Queuing traffic for 6 km",0,0,1,1},
{450,"blocked ahead. Queuing traffic for 10 km","blocked ahead. Queuing traffic for 10 km",0,0,1,1},
{451,"blocked ahead. Danger of queuing traffic","",0,0,1,1},
{452,"blocked ahead. Slow traffic","",0,0,1,1},
{453,"blocked ahead. Slow traffic for 1 km","",0,0,1,1},
{454,"blocked ahead. Slow traffic for 2 km","",0,0,1,1},
{455,"blocked ahead. Slow traffic for 4 km","",0,0,1,1},
{456,"blocked ahead. Slow traffic for 6 km","",0,0,1,1},
{457,"blocked ahead. Slow traffic for 10 km","",0,0,1,1},
{458,"blocked ahead. Slow traffic expected","",0,0,1,2},
{459,"blocked ahead. Heavy traffic","",0,0,1,1},
{460,"blocked ahead. Heavy traffic expected","",0,0,1,2},
{461,"blocked ahead. Traffic flowing freely","",0,0,1,1},
{462,"blocked ahead. Traffic building up","",0,0,1,1},
{463,"blocked ahead. Delays","blocked ahead. Delays (Q)",5,0,1,20},
{464,"blocked ahead. Delays expected","blocked ahead. Delays (Q) expected",5,0,1,20},
{465,"blocked ahead. Long delays","blocked ahead. Long delays (Q)",5,0,1,20},
{466,"slip roads reopened","",0,0,0,7},
{467,"reopened","",0,0,0,5},
{468,"message cancelled","",0,0,0,9},
{469,"closed ahead","",0,0,1,9},
{470,"blocked ahead","",0,0,1,9},
{471,"entry slip road closed","(Q) entry slip roads closed",0,0,1,8},
{472,"entry slip road blocked","(Q) th entry slip road blocked",0,0,1,8},
{473,"entry blocked","",0,0,1,8},
{474,"exit slip road closed","(Q) exit slip roads closed",0,0,1,7},
{475,"exit slip road blocked","(Q) th exit slip road blocked",0,0,1,7},
{476,"exit blocked","",0,0,1,7},
{477,"slip roads blocked","",0,0,1,7},
{478,"connecting carriageway closed","",0,0,1,7},
{479,"parallel carriageway closed","",0,0,1,6},
{480,"right-hand parallel carriageway closed","",0,0,1,6},
{481,"left-hand parallel carriageway closed","",0,0,1,6},
{482,"express lanes closed","",0,0,1,6},
{483,"through traffic lanes closed","",0,0,1,6},
{484,"local lanes closed","",0,0,1,6},
{485,"connecting carriageway blocked","",0,0,1,7},
{486,"parallel carriageway blocked","",0,0,1,6},
{487,"right-hand parallel carriageway blocked","",0,0,1,6},
{488,"left-hand parallel carriageway blocked","",0,0,1,6},
{489,"express lanes blocked","",0,0,1,6},
{490,"through traffic lanes blocked","",0,0,1,6},
{491,"local lanes blocked","",0,0,1,6},
{492,"no motor vehicles","",0,1,1,9},
{493,"restrictions","",0,0,0,9},
{494,"closed for heavy lorries","closed for heavy lorries over (Q)",8,0,1,9},
{495,"closed ahead. Stationary traffic for 3 km","",0,0,1,1},
{496,"closed ahead. Queuing traffic for 3 km","closed ahead. Queuing traffic for 3 km",0,0,1,1},
{497,"closed ahead. Slow traffic for 3 km","",0,0,1,1},
{498,"blocked ahead. Stationary traffic for 3 km","",0,0,1,1},
{499,"blocked ahead. Queuing traffic for 3 km","blocked ahead. Queuing traffic for 3 km",0,0,1,1},
{500,"lane closed","(Q) lanes closed",0,0,0,5},
{501,"right lane closed","(Q) right lanes closed",0,0,0,5},
{502,"centre lane closed","(Q) centre lanes closed",0,0,0,5},
{503,"left lane closed","(Q) left lanes closed",0,0,0,5},
{504,"hard shoulder closed","",0,0,0,5},
{505,"two lanes closed","",0,0,0,5},
{506,"three lanes closed","",0,0,0,5},
{507,"right lane blocked","(Q) right lanes blocked",0,0,1,5},
{508,"centre lane blocked","(Q) centre lanes blocked",0,0,1,5},
{509,"left lane blocked","(Q) left lanes blocked",0,0,1,5},
{510,"hard shoulder blocked","",0,0,0,5},
{511,"two lanes blocked","",0,0,1,5},
{512,"three lanes blocked","",0,0,1,5},
{513,"single alternate line traffic","",0,1,0,5},
{514,"carriageway reduced to one lane","carriageway reduced from (Q) lanes to one lane",0,0,0,5},
{515,"carriageway reduced to two lanes","carriageway reduced from (Q) lanes to two lanes",0,0,0,5},
{516,"carriageway reduced to three lanes","carriageway reduced from (Q) lanes to three lanes",0,0,0,5},
{517,"contraflow","",0,1,0,5},
{518,"narrow lanes","",0,0,0,5},
{519,"contraflow with narrow lanes","",0,1,0,5},
{520,"lane blocked","(Q) lanes blocked",0,0,1,5},
{521,"lanes closed. Stationary traffic","(Q) lanes closed. Stationary traffic",0,0,1,1},
{522,"lanes closed. Stationary traffic for 1 km","(Q) lanes closed. Stationary traffic for 1 km",0,0,1,1},
{523,"lanes closed. Stationary traffic for 2 km","(Q) lanes closed. Stationary traffic for 2 km",0,0,1,1},
{524,"lanes closed. Stationary traffic for 4 km","(Q) lanes closed. Stationary traffic for 4 km",0,0,1,1},
{525,"lanes closed. Stationary traffic for 6 km","(Q) lanes closed. Stationary traffic for 6 km",0,0,1,1},
{526,"lanes closed. Stationary traffic for 10 km","(Q) lanes closed. Stationary traffic for 10 km",0,0,1,1},
{527,"lanes closed. Danger of stationary traffic","(Q) lanes closed. Danger of stationary traffic",0,0,1,1},
{528,"lanes closed. Queuing traffic","(Q) lanes closed. Queuing traffic",0,0,1,1},
{529,"lanes closed. Queuing traffic for 1 km","(Q) lanes closed. Queuing traffic for 1 km",0,0,1,1},
{530,"lanes closed. Queuing traffic for 2 km","(Q) lanes closed. Queuing traffic for 2 km",0,0,1,1},
{531,"lanes closed. Queuing traffic for 4 km","(Q) lanes closed. Queuing traffic for 4 km",0,0,1,1},
{532,"lanes closed. Queuing traffic for 6 km","(Q) lanes closed. Queuing traffic for 6 km",0,0,1,1},
{533,"lanes closed. Queuing traffic for 10 km","(Q) lanes closed. Queuing traffic for 10 km",0,0,1,1},
{534,"lanes closed. Danger of queuing traffic","(Q) lanes closed. Danger of queuing traffic",0,0,1,1},
{535,"lanes closed. Slow traffic","(Q) lanes closed. Slow traffic",0,0,1,1},
{536,"lanes closed. Slow traffic for 1 km","(Q) lanes closed. Slow traffic for 1 km",0,0,1,1},
{537,"lanes closed. Slow traffic for 2 km","(Q) lanes closed. Slow traffic for 2 km",0,0,1,1},
{538,"lanes closed. Slow traffic for 4 km","(Q) lanes closed. Slow traffic for 4 km",0,0,1,1},
{539,"lanes closed. Slow traffic for 6 km","(Q) lanes closed. Slow traffic for 6 km",0,0,1,1},
{540,"lanes closed. Slow traffic for 10 km","(Q) lanes closed. Slow traffic for 10 km",0,0,1,1},
{541,"lanes closed. Slow traffic expected","(Q) lanes closed. Slow traffic expected",0,0,1,2},
{542,"lanes closed. Heavy traffic","(Q) lanes closed. Heavy traffic",0,0,0,1},
{543,"lanes closed. Heavy traffic expected","(Q) lanes closed. Heavy traffic expected",0,0,0,2},
{544,"lanes closed. Traffic flowing freely","(Q)lanes closed. Traffic flowing freely",0,0,0,1},
{545,"lanes closed. Traffic building up","(Q)lanes closed. Traffic building up",0,0,0,1},
{546,"carriageway reduced to one lane. Stationary traffic","carriageway reduced from (Q) lanes to one lane. Stationary traffic",0,0,1,1},
{547,"carriageway reduced to one lane. Danger of stationary traffic","carriageway reduced from (Q) lanes to one lane. Danger of stationary traffic",0,0,1,1},
{548,"carriageway reduced to one lane. Queuing traffic","carriageway reduced from (Q) lanes to one lane. Queuing traffic",0,0,1,1},
{549,"carriageway reduced to one lane. Danger of queuing traffic","carriageway reduced from (Q) lanes to one lane. Danger of queuing traffic",0,0,1,1},
{550,"carriageway reduced to one lane. Slow traffic","carriageway reduced from (Q) lanes to one lane. Slow traffic",0,0,1,1},
{551,"carriageway reduced to one lane. Slow traffic expected","carriageway reduced from (Q) lanes to one lane. Slow traffic expected",0,0,1,2},
{552,"carriageway reduced to one lane. Heavy traffic","carriageway reduced from (Q) lanes to one lane. Heavy traffic",0,0,0,1},
{553,"carriageway reduced to one lane. Heavy traffic expected","carriageway reduced from (Q) lanes to one lane. Heavy traffic expected",0,0,0,2},
{554,"carriageway reduced to one lane. Traffic flowing freely","carriageway reduced from (Q) lanes to one lane. Traffic flowing freely",0,0,0,1},
{555,"carriageway reduced to one lane. Traffic building up","carriageway reduced from (Q) lanes to one lane. Traffic building up",0,0,0,1},
{556,"carriageway reduced to two lanes. Stationary traffic","carriageway reduced from (Q) lanes to two lanes. Stationary traffic",0,0,1,1},
{557,"carriageway reduced to two lanes. Danger of stationary traffic","carriageway reduced from (Q) lanes to two lanes. Danger of stationary traffic",0,0,1,1},
{558,"carriageway reduced to two lanes. Queuing traffic","carriageway reduced from (Q) lanes to two lanes. Queuing traffic",0,0,1,1},
{559,"carriageway reduced to two lanes. Danger of queuing traffic","carriageway reduced from (Q) lanes to two lanes. Danger of queuing traffic",0,0,1,1},
{560,"carriageway reduced to two lanes. Slow traffic","carriageway reduced from (Q) lanes to two lanes. Slow traffic",0,0,1,1},
{561,"carriageway reduced to two lanes. Slow traffic expected","carriageway reduced from (Q) lanes to two lanes. Slow traffic expected",0,0,1,2},
{562,"carriageway reduced to two lanes. Heavy traffic","carriageway reduced from (Q) lanes to two lanes. Heavy traffic",0,0,0,1},
{563,"carriageway reduced to two lanes. Heavy traffic expected","carriageway reduced from (Q) lanes to two lanes. Heavy traffic expected",0,0,0,2},
{564,"carriageway reduced to two lanes. Traffic flowing freely","carriageway reduced from (Q) lanes to two lanes. Traffic flowing freely",0,0,0,1},
{565,"carriageway reduced to two lanes. Traffic building up","carriageway reduced from (Q) lanes to two lanes. Traffic building up",0,0,0,1},
{566,"carriageway reduced to three lanes. Stationary traffic","carriageway reduced from (Q) lanes to three lanes. Stationary traffic",0,0,1,1},
{567,"carriageway reduced to three lanes. Danger of stationary traffic","carriageway reduced from (Q) lanes to three lanes. Danger of stationary traffic",0,0,1,1},
{568,"carriageway reduced to three lanes. Queuing traffic","carriageway reduced from (Q) lanes to three lanes. Queuing traffic",0,0,1,1},
{569,"carriageway reduced to three lanes. Danger of queuing traffic","carriageway reduced from (Q) lanes to three lanes. Danger of queuing traffic",0,0,1,1},
{570,"carriageway reduced to three lanes. Slow traffic","carriageway reduced from (Q) lanes to three lanes. Slow traffic",0,0,1,1},
{571,"carriageway reduced to three lanes. Slow traffic expected","carriageway reduced from (Q) lanes to three lanes. Slow traffic expected",0,0,1,2},
{572,"carriageway reduced to three lanes. Heavy traffic","carriageway reduced from (Q) lanes to three lanes. Heavy traffic",0,0,0,1},
{573,"carriageway reduced to three lanes. Heavy traffic expected","carriageway reduced from (Q) lanes to three lanes. Heavy traffic expected",0,0,0,2},
{574,"carriageway reduced to three lanes. Traffic flowing freely","carriageway reduced from (Q) lanes to three lanes. Traffic flowing freely",0,0,0,1},
{575,"carriageway reduced to three lanes. Traffic building up","carriageway reduced from (Q) lanes to three lanes. Traffic building up",0,0,0,1},
{576,"contraflow. Stationary traffic","",0,0,1,1},
{577,"contraflow. Stationary traffic for 1 km","",0,0,1,1},
{578,"contraflow. Stationary traffic for 2 km","",0,0,1,1},
{579,"contraflow. Stationary traffic for 4 km","",0,0,1,1},
{580,"contraflow. Stationary traffic for 6 km","",0,0,1,1},
{581,"contraflow. Stationary traffic for 10 km","",0,0,1,1},
{582,"contraflow. Danger of stationary traffic","",0,0,1,1},
{583,"contraflow. Queuing traffic","contraflow. Queuing traffic",0,0,1,1},
{584,"contraflow. Queuing traffic for 1 km","contraflow. Queuing traffic for 1 km",0,0,1,1},
{585,"contraflow. Queuing traffic for 2 km","contraflow. Queuing traffic for 2 km",0,0,1,1},
{586,"contraflow. Queuing traffic for 4 km","contraflow. Queuing traffic for 4 km",0,0,1,1},
{587,"contraflow. Queuing traffic for 6 km","contraflow. Queuing traffic for 6 km",0,0,1,1},
{588,"contraflow. Queuing traffic for 10 km","contraflow. Queuing traffic for 10 km",0,0,1,1},
{589,"contraflow. Danger of queuing traffic","",0,0,1,1},
{590,"contraflow. Slow traffic","",0,0,1,1},
{591,"contraflow. Slow traffic for 1 km","",0,0,1,1},
{592,"contraflow. Slow traffic for 2 km","",0,0,1,1},
{593,"contraflow. Slow traffic for 4 km","",0,0,1,1},
{594,"contraflow. Slow traffic for 6 km","",0,0,1,1},
{595,"contraflow. Slow traffic for 10 km","",0,0,1,1},
{596,"contraflow. Slow traffic expected","",0,0,1,2},
{597,"contraflow. Heavy traffic","",0,0,0,1},
{598,"contraflow. Heavy traffic expected","",0,0,0,2},
{599,"contraflow. Traffic flowing freely","",0,0,0,1},
{600,"contraflow. Traffic building up","",0,0,0,1},
{601,"contraflow. Carriageway reduced to one lane","contraflow. Carriageway reduced from (Q) lanes to one lane",0,0,0,5},
{602,"contraflow. Carriageway reduced to two lanes","contraflow. Carriageway reduced from (Q) lanes to two lanes",0,0,0,5},
{603,"contraflow. Carriageway reduced to three lanes","contraflow. Carriageway reduced from (Q) lanes to three lanes",0,0,0,5},
{604,"narrow lanes. Stationary traffic","",0,0,1,1},
{605,"narrow lanes. Danger of stationary traffic","",0,0,1,1},
{606,"narrow lanes. Queuing traffic","narrow lanes. Queuing traffic",0,0,1,1},
{607,"narrow lanes. Danger of queuing traffic","",0,0,1,1},
{608,"narrow lanes. Slow traffic","",0,0,1,1},
{609,"narrow lanes. Slow traffic expected","",0,0,1,2},
{610,"narrow lanes. Heavy traffic","",0,0,0,1},
{611,"narrow lanes. Heavy traffic expected","",0,0,0,2},
{612,"narrow lanes. Traffic flowing freely","",0,0,0,1},
{613,"narrow lanes. Traffic building up","",0,0,0,1},
{614,"contraflow with narrow lanes. Stationary traffic","",0,0,1,1},
{615,"contraflow with narrow lanes. Stationary traffic. Danger of stationary traffic","",0,0,1,1},
{616,"contraflow with narrow lanes. Queuing traffic","contraflow with narrow lanes. Queuing traffic",0,0,1,1},
{617,"contraflow with narrow lanes. Danger of queuing traffic","",0,0,1,1},
{618,"contraflow with narrow lanes. Slow traffic","",0,0,1,1},
{619,"contraflow with narrow lanes. Slow traffic expected","",0,0,1,2},
{620,"contraflow with narrow lanes. Heavy traffic","",0,0,0,1},
{621,"contraflow with narrow lanes. Heavy traffic expected","",0,0,0,2},
{622,"contraflow with narrow lanes. Traffic flowing freely","",0,0,0,1},
{623,"contraflow with narrow lanes. Traffic building up","",0,0,0,1},
{624,"lane closures removed","",0,0,0,5},
{625,"message cancelled","",0,0,0,5},
{626,"blocked ahead. Slow traffic for 3 km","",0,0,1,1},
{627,"no motor vehicles without catalytic converters","",0,1,1,9},
{628,"no motor vehicles with even-numbered registration plates","",0,1,1,9},
{629,"no motor vehicles with odd-numbered registration plates","",0,1,1,9},
{630,"open","",0,0,0,5},
{631,"road cleared","",0,0,0,5},
{632,"entry reopened","",0,0,0,8},
{633,"exit reopened","",0,0,0,7},
{634,"all carriageways reopened","",0,0,0,6},
{635,"motor vehicle restrictions lifted","",0,1,0,9},
{636,"traffic restrictions lifted {reopened for all traffic}","",0,1,0,9},
{637,"emergency lane closed","",0,0,0,5},
{638,"turning lane closed","",0,0,0,5},
{639,"crawler lane closed","",0,0,0,5},
{640,"slow vehicle lane closed","",0,0,0,5},
{641,"one lane closed","",0,0,0,5},
{642,"emergency lane blocked","",0,0,0,5},
{643,"turning lane blocked","",0,0,0,5},
{644,"crawler lane blocked","",0,0,0,5},
{645,"slow vehicle lane blocked","",0,0,0,5},
{646,"one lane blocked","",0,0,1,5},
{647,"carpool lane in operation","(Q) person carpool lane in operation",0,0,0,10},
{648,"carpool lane closed","(Q) person carpool lane closed",0,0,1,10},
{649,"carpool lane blocked","(Q) person carpool lane blocked",0,0,1,10},
{650,"carpool restrictions changed","carpool restrictions changed to (Q) persons per vehicle",0,0,1,10},
{651,"lanes closed. Stationary traffic for 3 km","(Q) lanes closed. Stationary traffic for 3 km",0,0,1,1},
{652,"lanes closed. Queuing traffic for 3 km","(Q) lanes closed. Queuing traffic for 3 km",0,0,1,1},
{653,"lanes closed. Slow traffic for 3 km","(Q) lanes closed. Slow traffic for 3 km",0,0,1,1},
{654,"contraflow. Stationary traffic for 3 km","",0,0,1,1},
{655,"contraflow. Queuing traffic for 3 km","contraflow. Queuing traffic for 3 km",0,0,1,1},
{656,"contraflow. Slow traffic for 3 km","",0,0,1,1},
{657,"lane blockages cleared","",0,0,0,5},
{658,"contraflow removed","",0,0,0,5},
{659,"carpool restrictions lifted","(Q) person carpool restrictions lifted",0,0,0,10},
{660,"lane restrictions lifted","",0,0,0,9},
{661,"use of hard shoulder allowed","",0,0,0,9},
{662,"normal lane regulations restored","",0,0,0,9},
{663,"all carriageways cleared","",0,0,0,6},
{664,"carriageway closed","",0,0,0,5},
{665,"both directions closed","",0,1,0,5},
{666,"intermittent short term closures","",0,1,1,5},
{671,"bus lane available for carpools","bus lane available for carpools with at least (Q) occupants",0,0,0,10},
{672,"message cancelled","",0,0,0,6},
{673,"message cancelled","",0,0,0,7},
{675,"salting vehicles","(Q) salting vehicles",0,0,0,23},
{676,"bus lane blocked","",0,0,1,6},
{678,"heavy vehicle lane closed","",0,0,0,5},
{679,"heavy vehicle lane blocked","",0,0,1,5},
{680,"reopened for through traffic","",0,0,0,9},
{681,"snowploughs","(Q) snowploughs",0,0,1,23},
{701,"roadworks","(Q) sets of roadworks",0,0,0,11},
{702,"major roadworks","(Q) sets of major roadworks",0,0,0,11},
{703,"maintenance work","(Q) sets of maintenance work",0,0,0,11},
{704,"resurfacing work","(Q) sections of resurfacing work",0,0,0,11},
{705,"central reservation work","(Q) sets of central reservation work",0,0,0,11},
{706,"road marking work","(Q) sets of road marking work",0,0,0,13},
{707,"bridge maintenance work","bridge maintenance work at (Q) bridges",0,0,0,11},
{708,"temporary traffic lights","(Q) sets of temporary traffic lights",0,1,0,11},
{709,"blasting work","(Q) sections of blasting work",0,1,0,11},
{710,"roadworks. Stationary traffic","(Q) sets of roadworks. Stationary traffic",0,0,1,1},
{711,"roadworks. Stationary traffic for 1 km","(Q) sets of roadworks. Stationary traffic for 1 km",0,0,1,1},
{712,"roadworks. Stationary traffic for 2 km","(Q) sets of roadworks. Stationary traffic for 2 km",0,0,1,1},
{713,"roadworks. Stationary traffic for 4 km","(Q) sets of roadworks. Stationary traffic for 4 km",0,0,1,1},
{714,"roadworks. Stationary traffic for 6 km","(Q) sets of roadworks. Stationary traffic for 6 km",0,0,1,1},
{715,"roadworks. Stationary traffic for 10 km","(Q) sets of roadworks. Stationary traffic for 10 km",0,0,1,1},
{716,"roadworks. Danger of stationary traffic","(Q) sets of roadworks. Danger of stationary traffic",0,0,1,1},
{717,"roadworks. Queuing traffic","(Q) sets of roadworks. Queuing traffic",0,0,1,1},
{718,"roadworks. Queuing traffic for 1 km","(Q) sets of roadworks. Queuing traffic for 1 km",0,0,1,1},
{719,"roadworks. Queuing traffic for 2 km","(Q) sets of roadworks. Queuing traffic for 2 km",0,0,1,1},
{720,"roadworks. Queuing traffic for 4 km","(Q) sets of roadworks. Queuing traffic for 4 km",0,0,1,1},
{721,"roadworks. Queuing traffic for 6 km","(Q) sets of roadworks. Queuing traffic for 6 km",0,0,1,1},
{722,"roadworks. Queuing traffic for 10 km","(Q) sets of roadworks. Queuing traffic for 10 km",0,0,1,1},
{723,"roadworks. Danger of queuing traffic","(Q) sets of roadworks. Danger of queuing traffic",0,0,1,1},
{724,"roadworks. Slow traffic","(Q) sets of roadworks. Slow traffic",0,0,1,1},
{725,"roadworks. Slow traffic for 1 km","(Q) sets of roadworks. Slow traffic for 1 km",0,0,1,1},
{726,"roadworks. Slow traffic for 2 km","(Q) sets of roadworks. Slow traffic for 2 km",0,0,1,1},
{727,"roadworks. Slow traffic for 4 km","(Q) sets of roadworks. Slow traffic for 4 km",0,0,1,1},
{728,"roadworks. Slow traffic for 6 km","(Q) sets of roadworks. Slow traffic for 6 km",0,0,1,1},
{729,"roadworks. Slow traffic for 10 km","(Q) sets of roadworks. Slow traffic for 10 km",0,0,1,1},
{730,"roadworks. Slow traffic expected","(Q) sets of roadworks. Slow traffic expected",0,0,1,2},
{731,"roadworks. Heavy traffic","(Q) sets of roadworks. Heavy traffic",0,0,0,1},
{732,"roadworks. Heavy traffic expected","(Q) sets of roadworks. Heavy traffic expected",0,0,0,2},
{733,"roadworks. Traffic flowing freely","(Q) sets of roadworks. Traffic flowing freely",0,0,0,1},
{734,"roadworks. Traffic building up","(Q) sets of roadworks. Traffic building up",0,0,0,1},
{735,"closed due to roadworks","closed due to (Q) sets of roadworks",0,0,1,5},
{736,"roadworks. Right lane closed","(Q) sets of roadworks. Right lane closed",0,0,0,5},
{737,"roadworks. Centre lane closed","(Q) sets of roadworks. Centre lane closed",0,0,0,5},
{738,"roadworks. Left lane closed","(Q) sets of roadworks. Left lane closed",0,0,0,5},
{739,"roadworks. Hard shoulder closed","(Q) sets of roadworks. Hard shoulder closed",0,0,0,5},
{740,"roadworks. Two lanes closed","(Q) sets of roadworks. Two lanes closed",0,0,0,5},
{741,"roadworks. Three lanes closed","(Q) sets of roadworks. Three lanes closed",0,0,0,5},
{742,"roadworks. Single alternate line traffic","(Q) sets of roadworks. Single alternate line traffic",0,1,0,5},
{743,"roadworks. Carriageway reduced to one lane","roadworks. Carriageway reduced from (Q) lanes to one lane",0,0,0,5},
{744,"roadworks. Carriageway reduced to two lanes","roadworks. Carriageway reduced from (Q) lanes to two lanes",0,0,0,5},
{745,"roadworks. Carriageway reduced to three lanes","roadworks. Carriageway reduced from (Q) lanes to three lanes",0,0,0,5},
{746,"roadworks. Contraflow","(Q) sets of roadworks. Contraflow",0,1,0,5},
{747,"roadworks. Delays","roadworks. Delays (Q)",5,0,0,20},
{748,"roadworks. Delays expected","roadworks. Delays (Q) expected",5,0,0,20},
{749,"roadworks. Long delays","roadworks. Long delays (Q)",5,0,1,20},
{750,"resurfacing work. Stationary traffic","(Q) sections of resurfacing work. Stationary traffic",0,0,1,1},
{751,"resurfacing work. Stationary traffic for 1 km","(Q) sections of resurfacing work. Stationary traffic for 1 km",0,0,1,1},
{752,"resurfacing work. Stationary traffic for 2 km","(Q) sections of resurfacing work. Stationary traffic for 2 km",0,0,1,1},
{753,"resurfacing work. Stationary traffic for 4 km","(Q) sections of resurfacing work. Stationary traffic for 4 km",0,0,1,1},
{754,"resurfacing work. Stationary traffic for 6 km","(Q) sections of resurfacing work. Stationary traffic for 6 km",0,0,1,1},
{755,"resurfacing work. Stationary traffic for 10 km","(Q) sections of resurfacing work. Stationary traffic for 10 km",0,0,1,1},
{756,"resurfacing work. Danger of stationary traffic","(Q) sections of resurfacing work. Danger of stationary traffic",0,0,1,1},
{757,"resurfacing work. Queuing traffic","(Q) sections of resurfacing work. Queuing traffic",0,0,1,1},
{758,"resurfacing work. Queuing traffic for 1 km","(Q) sections of resurfacing work. Queuing traffic for 1 km",0,0,1,1},
{759,"resurfacing work. Queuing traffic for 2 km","(Q) sections of resurfacing work. Queuing traffic for 2 km",0,0,1,1},
{760,"resurfacing work. Queuing traffic for 4 km","(Q) sections of resurfacing work. Queuing traffic for 4 km",0,0,1,1},
{761,"resurfacing work. Queuing traffic for 6 km","(Q) sections of resurfacing work. Queuing traffic for 6 km",0,0,1,1},
{762,"resurfacing work. Queuing traffic for 10 km","(Q) sections of resurfacing work. Queuing traffic for 10 km",0,0,1,1},
{763,"resurfacing work. Danger of queuing traffic","(Q) sections of resurfacing work. Danger of queuing traffic",0,0,1,1},
{764,"resurfacing work. Slow traffic","(Q) sections of resurfacing work. Slow traffic",0,0,1,1},
{765,"resurfacing work. Slow traffic for 1 km","(Q) sections of resurfacing work. Slow traffic for 1 km",0,0,1,1},
{766,"resurfacing work. Slow traffic for 2 km","(Q) sections of resurfacing work. Slow traffic for 2 km",0,0,1,1},
{767,"resurfacing work. Slow traffic for 4 km","(Q) sections of resurfacing work. Slow traffic for 4 km",0,0,1,1},
{768,"resurfacing work. Slow traffic for 6 km","(Q) sections of resurfacing work. Slow traffic for 6 km",0,0,1,1},
{769,"resurfacing work. Slow traffic for 10 km","(Q) sections of resurfacing work. Slow traffic for 10 km",0,0,1,1},
{770,"resurfacing work. Slow traffic expected","(Q) sections of resurfacing work. Slow traffic expected",0,0,1,2},
{771,"resurfacing work. Heavy traffic","(Q) sections of resurfacing work. Heavy traffic",0,0,0,1},
{772,"resurfacing work. Heavy traffic expected","(Q) sections of resurfacing work. Heavy traffic expected",0,0,0,2},
{773,"resurfacing work. Traffic flowing freely","(Q) sections of resurfacing work. Traffic flowing freely",0,0,0,1},
{774,"resurfacing work. Traffic building up","(Q) sections of resurfacing work. Traffic building up",0,0,0,1},
{775,"resurfacing work. Single alternate line traffic","(Q) sections of resurfacing work. Single alternate line traffic",0,1,0,5},
{776,"resurfacing work. Carriageway reduced to one lane","resurfacing work. Carriageway reduced from (Q) lanes to one lane",0,0,0,5},
{777,"resurfacing work. Carriageway reduced to two lanes","resurfacing work. Carriageway reduced from (Q) lanes to two lanes",0,0,0,5},
{778,"resurfacing work. Carriageway reduced to three lanes","resurfacing work. Carriageway reduced from (Q) lanes to three lanes",0,0,0,5},
{779,"resurfacing work. Contraflow","(Q) sections of resurfacing work. Contraflow",0,1,0,5},
{780,"resurfacing work. Delays","resurfacing work. Delays (Q)",5,0,0,20},
{781,"resurfacing work. Delays expected","resurfacing work. Delays (Q) expected",5,0,0,20},
{782,"resurfacing work. Long delays","resurfacing work. Long delays (Q)",5,0,1,20},
{783,"road marking work. Stationary traffic","(Q) sets of road marking work. Stationary traffic",0,0,1,1},
{784,"road marking work. Danger of stationary traffic","(Q) sets of road marking work. Danger of stationary traffic",0,0,1,1},
{785,"road marking work. Queuing traffic","(Q) sets of road marking work. Queuing traffic",0,0,1,1},
{786,"road marking work. Danger of queuing traffic","(Q) sets of road marking work. Danger of queuing traffic",0,0,1,1},
{787,"road marking work. Slow traffic","(Q) sets of road marking work. Slow traffic",0,0,1,1},
{788,"road marking work. Slow traffic expected","(Q) sets of road marking work. Slow traffic expected",0,0,1,2},
{789,"road marking work. Heavy traffic","(Q) sets of road marking work. Heavy traffic",0,0,0,1},
{790,"road marking work. Heavy traffic expected","(Q) sets of road marking work. Heavy traffic expected",0,0,0,2},
{791,"road marking work. Traffic flowing freely","(Q) sets of road marking work. Traffic flowing freely",0,0,0,1},
{792,"road marking work. Traffic building up","(Q) sets of road marking work. Traffic building up",0,0,0,1},
{793,"road marking work. Right lane closed","(Q) sets of road marking work. Right lane closed",0,0,0,5},
{794,"road marking work. Centre lane closed","(Q) sets of road marking work. Centre lane closed",0,0,0,5},
{795,"road marking work. Left lane closed","(Q) sets of road marking work. Left lane closed",0,0,0,5},
{796,"road marking work. Hard shoulder closed","(Q) sets of road marking work. Hard shoulder closed",0,0,0,5},
{797,"road marking work. Two lanes closed","(Q) sets of road marking work. Two lanes closed",0,0,0,5},
{798,"road marking work. Three lanes closed","(Q) sets of road marking work. Three lanes closed",0,0,0,5},
{799,"closed for bridge demolition work","closed for bridge demolition work at (Q) bridges",0,1,1,5},
{800,"roadworks cleared","",0,0,0,11},
{801,"message cancelled","",0,0,0,11},
{802,"long-term roadworks","(Q) sets of long-term roadworks",0,0,0,11},
{803,"construction work","(Q) sets of construction work",0,0,0,11},
{804,"slow moving maintenance vehicles","(Q) sets of slow moving maintenance vehicles",0,0,1,23},
{805,"bridge demolition work","bridge demolition work at (Q) bridges",0,0,1,11},
{806,"water main work","(Q) sets of water main work",0,1,0,11},
{807,"gas main work","(Q) sets of gas main work",0,1,0,11},
{808,"work on buried cables","(Q) sets of work on buried cables",0,1,0,11},
{809,"work on buried services","(Q) sets of work on buried services",0,1,0,11},
{810,"new roadworks layout","",0,1,0,11},
{811,"new road layout","",0,1,0,11},
{812,"roadworks. Stationary traffic for 3 km","(Q) sets of roadworks. Stationary traffic for 3 km",0,0,1,1},
{813,"roadworks. Queuing traffic for 3 km","(Q) sets of roadworks. Queuing traffic for 3 km",0,0,1,1},
{814,"roadworks. Slow traffic for 3 km","(Q) sets of roadworks. Slow traffic for 3 km",0,0,1,1},
{815,"roadworks during the day time","(Q) sets of roadworks during the day time",0,0,0,11},
{816,"roadworks during off-peak periods","(Q) sets of roadworks during off-peak periods",0,0,0,11},
{817,"roadworks during the night","(Q) sets of roadworks during the night",0,0,0,11},
{818,"resurfacing work. Stationary traffic for 3 km","(Q) sections of resurfacing work. Stationary traffic for 3 km",0,0,1,1},
{819,"resurfacing work. Queuing traffic for 3 km","(Q) sections of resurfacing work. Queuing traffic for 3 km",0,0,1,1},
{820,"resurfacing work. Slow traffic for 3 km","(Q) sections of resurfacing work. Slow traffic for 3 km",0,0,1,1},
{821,"resurfacing work during the day time","(Q) sets of resurfacing work during the day time",0,0,0,11},
{822,"resurfacing work during off-peak periods","(Q) sets of resurfacing work during off-peak periods",0,0,0,11},
{823,"resurfacing work during the night","(Q) sets of resurfacing work during the night",0,0,0,11},
{824,"road marking work. Danger","(Q) sets of road marking work. Danger",0,0,1,13},
{825,"slow moving maintenance vehicles. Stationary traffic","(Q) sets of slow moving maintenance vehicles. Stationary traffic",0,0,1,1},
{826,"slow moving maintenance vehicles. Danger of stationary traffic","(Q) sets of slow moving maintenance vehicles. Danger of stationary traffic",0,0,1,1},
{827,"slow moving maintenance vehicles. Queuing traffic","(Q) sets of slow moving maintenance vehicles. Queuing traffic",0,0,1,1},
{828,"slow moving maintenance vehicles. Danger of queuing traffic","(Q) sets of slow moving maintenance vehicles. Danger of queuing traffic",0,0,1,1},
{829,"slow moving maintenance vehicles. Slow traffic","(Q) sets of slow moving maintenance vehicles. Slow traffic",0,0,1,1},
{830,"slow moving maintenance vehicles. Slow traffic expected","(Q) sets of slow moving maintenance vehicles. Slow traffic expected",0,0,1,2},
{831,"slow moving maintenance vehicles. Heavy traffic","(Q) sets of slow moving maintenance vehicles. Heavy traffic",0,0,1,1},
{832,"slow moving maintenance vehicles. Heavy traffic expected","(Q) sets of slow moving maintenance vehicles. Heavy traffic expected",0,0,1,2},
{833,"slow moving maintenance vehicles. Traffic flowing freely","(Q) sets of slow moving maintenance vehicles. Traffic flowing freely",0,0,1,1},
{834,"slow moving maintenance vehicles. Traffic building up","(Q) sets of slow moving maintenance vehicles. Traffic building up",0,0,1,1},
{835,"slow moving maintenance vehicles. Right lane closed","(Q) sets of slow moving maintenance vehicles. Right lane closed",0,0,1,5},
{836,"slow moving maintenance vehicles. Centre lane closed","(Q) sets of slow moving maintenance vehicles. Centre lane closed",0,0,1,5},
{837,"slow moving maintenance vehicles. Left lane closed","(Q) sets of slow moving maintenance vehicles. Left lane closed",0,0,1,5},
{838,"slow moving maintenance vehicles. Two lanes closed","(Q) sets of slow moving maintenance vehicles. Two lanes closed",0,0,1,5},
{839,"slow moving maintenance vehicles. Three lanes closed","(Q) sets of slow moving maintenance vehicles. Three lanes closed",0,0,1,5},
{840,"water main work. Delays","water main work. Delays (Q)",5,0,0,20},
{841,"water main work. Delays expected","water main work. Delays (Q) expected",5,0,0,20},
{842,"water main work. Long delays","water main work. Long delays (Q)",5,0,1,20},
{843,"gas main work. Delays","gas main work. Delays (Q)",5,0,0,20},
{844,"gas main work. Delays expected","gas main work. Delays (Q) expected",5,0,0,20},
{845,"gas main work. Long delays","gas main work. Long delays (Q)",5,0,1,20},
{846,"work on buried cables. Delays","work on buried cables. Delays (Q)",5,0,0,20},
{847,"work on buried cables. Delays expected","work on buried cables. Delays (Q) expected",5,0,0,20},
{848,"work on buried cables. Long delays","work on buried cables. Long delays (Q)",5,0,1,20},
{849,"work on buried services. Delays","work on buried services. Delays (Q)",5,0,0,20},
{850,"work on buried services. Delays expected","work on buried services. Delays (Q) expected",5,0,0,20},
{851,"work on buried services. Long delays","work on buried services. Long delays (Q)",5,0,1,20},
{852,"construction traffic merging","",0,0,1,13},
{853,"roadwork clearance in progress","",0,0,0,11},
{854,"maintenance work cleared","",0,0,0,11},
{855,"road layout unchanged","",0,1,0,11},
{856,"construction traffic merging. Danger","",0,0,1,13},
{857,"unprotected accident area","(Q) unprotected accident areas",0,0,0,13},
{858,"danger of unprotected accident area","danger of (Q) unprotected accident areas",0,0,1,13},
{859,"unlit vehicle on the road","(Q) unlit vehicles on the road",0,0,0,13},
{860,"danger of unlit vehicle on the road","danger of (Q) unlit vehicles on the road",0,0,1,13},
{861,"snow and ice debris","",0,1,0,13},
{862,"danger of snow and ice debris","",0,1,1,13},
{897,"people throwing objects onto the road. Danger","",0,1,2,13},
{898,"obstruction warning withdrawn","",0,1,0,12},
{899,"clearance work in progress, road free again","",0,1,0,12},
{900,"flooding expected","",0,1,1,12},
{901,"obstruction on roadway {something that does block the road or part of it}","(Q) obstructions on roadway {something that does block the road or part of it}",0,0,1,12},
{902,"obstructions on the road. Danger","(Q) obstructions on the road. Danger",0,0,1,12},
{903,"spillage on the road","",0,0,0,12},
{904,"storm damage","",0,1,0,12},
{905,"fallen trees","(Q) fallen trees",0,0,0,12},
{906,"fallen trees. Danger","(Q) fallen trees. Danger",0,0,1,12},
{907,"flooding","",0,1,0,12},
{908,"flooding. Danger","",0,1,1,12},
{909,"flash floods","",0,1,1,12},
{910,"danger of flash floods","",0,1,1,12},
{911,"avalanches","",0,1,0,12},
{912,"avalanche risk","",0,1,0,12},
{913,"rockfalls","",0,1,0,12},
{914,"landslips","",0,1,0,12},
{915,"earthquake damage","",0,1,0,12},
{916,"road surface in poor condition","",0,1,0,14},
{917,"subsidence","",0,0,0,12},
{918,"collapsed sewer","(Q) collapsed sewers",0,1,0,12},
{919,"burst water main","",0,1,0,12},
{920,"gas leak","",0,1,0,12},
{921,"serious fire","",0,1,0,12},
{922,"animals on roadway","",0,0,0,13},
{923,"animals on the road. Danger","",0,1,1,13},
{924,"clearance work","",0,0,0,4},
{925,"blocked by storm damage","",0,0,1,5},
{926,"blocked by fallen trees","blocked by (Q) fallen trees",0,0,1,5},
{927,"fallen tree. Passable with care","(Q) fallen trees. Passable with care",0,0,1,12},
{928,"flooding. Stationary traffic","",0,0,1,1},
{929,"flooding. Danger of stationary traffic","",0,0,1,1},
{930,"flooding. Queuing traffic","flooding. Queuing traffic",0,0,1,1},
{931,"flooding. Danger of queuing traffic","",0,0,1,1},
{932,"flooding. Slow traffic","",0,0,1,1},
{933,"flooding. Slow traffic expected","",0,0,1,2},
{934,"flooding. Heavy traffic","",0,0,0,1},
{935,"flooding. Heavy traffic expected","",0,0,0,2},
{936,"flooding. Traffic flowing freely","",0,0,0,1},
{937,"flooding. Traffic building up","",0,0,0,1},
{938,"closed due to flooding","",0,1,1,9},
{939,"flooding. Delays","flooding. Delays (Q)",5,0,0,20},
{940,"flooding. Delays expected","flooding. Delays (Q) expected",5,0,1,20},
{941,"flooding. Long delays","flooding. Long delays (Q)",5,0,1,20},
{942,"flooding. Passable with care","",0,1,0,12},
{943,"closed due to avalanches","",0,1,1,9},
{944,"avalanches. Passable with care","avalanches. Passable with care above (Q) hundred metres",0,1,0,12},
{945,"closed due to rockfalls","",0,1,1,9},
{946,"rockfalls. Passable with care","",0,1,0,12},
{947,"road closed due to landslips","",0,1,1,5},
{948,"landslips. Passable with care","",0,1,0,12},
{949,"closed due to subsidence","",0,0,1,9},
{950,"subsidence. Single alternate line traffic","",0,1,0,12},
{951,"subsidence. Carriageway reduced to one lane","subsidence. Carriageway reduced from (Q) lanes to one lane",0,0,0,5},
{952,"subsidence. Carriageway reduced to two lanes","subsidence. Carriageway reduced from (Q) lanes to two lanes",0,0,0,5},
{953,"subsidence. Carriageway reduced to three lanes","subsidence. Carriageway reduced from (Q) lanes to three lanes",0,0,0,5},
{954,"subsidence. Contraflow in operation","",0,1,0,5},
{955,"subsidence. Passable with care","",0,0,0,12},
{956,"closed due to sewer collapse","",0,0,1,5},
{957,"road closed due to burst water main","",0,0,1,5},
{958,"burst water main. Delays","burst water main. Delays (Q)",5,0,0,20},
{959,"burst water main. Delays expected","burst water main. Delays (Q) expected",5,0,0,20},
{960,"burst water main. Long delays","burst water main. Long delays (Q)",5,0,1,20},
{961,"closed due to gas leak","",0,1,1,5},
{962,"gas leak. Delays","gas leak. Delays (Q)",5,0,0,20},
{963,"gas leak. Delays expected","gas leak. Delays (Q) expected",5,0,0,20},
{964,"gas leak. Long delays","gas leak. Long delays (Q)",5,0,1,20},
{965,"closed due to serious fire","",0,1,1,5},
{966,"serious fire. Delays","serious fire. Delays (Q)",5,0,0,20},
{967,"serious fire. Delays expected","serious fire. Delays (Q) expected",5,0,1,20},
{968,"serious fire. Long delays","serious fire. Long delays (Q)",5,0,1,20},
{969,"closed for clearance work","",0,0,1,5},
{970,"road free again","",0,1,0,12},
{971,"message cancelled","",0,0,0,12},
{972,"storm damage expected","",0,1,0,12},
{973,"fallen power cables","",0,1,0,12},
{974,"sewer overflow","",0,1,0,12},
{975,"ice build-up","",0,1,0,12},
{976,"mud slide","",0,1,0,12},
{977,"grass fire","",0,1,0,12},
{978,"air crash","",0,1,1,12},
{979,"rail crash","",0,1,1,12},
{980,"blocked by obstruction on the road","blocked by (Q) obstructions on the road",0,0,1,5},
{981,"obstructions on the road. Passable with care","(Q) obstructions on the road. Passable with care",0,0,1,12},
{982,"blocked due to spillage on roadway","",0,0,1,5},
{983,"spillage on the road. Passable with care","",0,0,1,12},
{984,"spillage on the road. Danger","",0,0,1,12},
{985,"storm damage. Passable with care","",0,1,1,12},
{986,"storm damage. Danger","",0,1,1,12},
{987,"blocked by fallen power cables","",0,1,1,5},
{988,"fallen power cables. Passable with care","",0,0,1,12},
{989,"fallen power cables. Danger","",0,1,1,12},
{990,"sewer overflow. Danger","",0,1,1,12},
{991,"flash floods. Danger","",0,1,1,12},
{992,"avalanches. Danger","",0,1,1,12},
{993,"closed due to avalanche risk","",0,1,1,9},
{994,"avalanche risk. Danger","",0,1,1,12},
{995,"closed due to ice build-up","",0,1,1,9},
{996,"ice build-up. Passable with care","ice build-up. Passable with care above (Q) hundred metres",0,1,1,12},
{997,"ice build-up. Single alternate traffic","",0,1,1,12},
{998,"rockfalls. Danger","",0,1,1,12},
{999,"landslips. Danger","",0,1,1,12},
{1000,"earthquake damage. Danger","",0,1,1,12},
{1001,"hazardous driving conditions","hazardous driving conditions above (Q) hundred metres",0,1,1,14},
{1002,"danger of aquaplaning","",0,1,1,14},
{1003,"slippery road","slippery road above (Q) hundred metres",0,1,1,14},
{1004,"mud on road","",0,1,0,14},
{1005,"leaves on road","",0,1,0,14},
{1006,"ice","ice above (Q) hundred metres",0,1,0,14},
{1007,"danger of ice","danger of ice above (Q) hundred metres",0,1,0,14},
{1008,"black ice","black ice above (Q) hundred metres",0,1,1,14},
{1009,"freezing rain","freezing rain above (Q) hundred metres",0,1,1,14},
{1010,"wet and icy roads","wet and icy roads above (Q) hundred metres",0,1,1,14},
{1011,"slush","slush above (Q) hundred metres",0,1,0,14},
{1012,"snow on the road","snow on the road above (Q) hundred metres",0,1,0,14},
{1013,"packed snow","packed snow above (Q) hundred metres",0,1,0,14},
{1014,"fresh snow","fresh snow above (Q) hundred metres",0,1,1,14},
{1015,"deep snow","deep snow above (Q) hundred metres",0,1,0,14},
{1016,"snow drifts","snow drifts above (Q) hundred metres",0,1,0,14},
{1017,"slippery due to spillage on roadway","",0,0,0,14},
{1018,"slippery road due to snow","slippery road above (Q) hundred metres due to snow",0,1,0,14},
{1019,"slippery road due to frost","slippery road above (Q) hundred metres due to frost",0,1,1,14},
{1020,"road blocked by snow","road blocked by snow above (Q) hundred metres",0,1,1,14},
{1021,"snow on the road. Carriageway reduced to one lane","snow on the road. Carriageway reduced from (Q) lanes to one lane",0,0,1,5},
{1022,"snow on the road. Carriageway reduced to two lanes","snow on the road. Carriageway reduced from (Q) lanes to two lanes",0,0,0,5},
{1023,"snow on the road. Carriageway reduced to three lanes","snow on the road. Carriageway reduced from (Q) lanes to three lanes",0,0,0,5},
{1024,"conditions of road surface improved","",0,0,0,14},
{1025,"message cancelled","",0,0,0,14},
{1026,"subsidence. Danger","",0,0,1,12},
{1027,"sewer collapse. Delays","sewer collapse. Delays (Q)",5,0,0,20},
{1028,"sewer collapse. Delays expected","sewer collapse. Delays (Q) expected",5,0,0,20},
{1029,"sewer collapse. Long delays","sewer collapse. Long delays (Q)",5,0,1,20},
{1030,"sewer collapse. Danger","",0,1,1,12},
{1031,"burst water main. Danger","",0,1,1,12},
{1032,"gas leak. Danger","",0,1,1,12},
{1033,"serious fire. Danger","",0,1,1,12},
{1034,"clearance work. Danger","",0,0,1,4},
{1035,"impassable","impassable above (Q) hundred metres",0,1,1,14},
{1036,"almost impassable","almost impassable above (Q) hundred metres",0,1,1,14},
{1037,"extremely hazardous driving conditions","extremely hazardous driving conditions above (Q) hundred metres",0,1,1,14},
{1038,"difficult driving conditions","difficult driving conditions above (Q) hundred metres",0,1,1,14},
{1039,"passable with care","passable with care up to (Q) hundred metres",0,1,0,14},
{1040,"passable","passable up to (Q) hundred metres",0,1,0,14},
{1041,"surface water hazard","",0,1,0,14},
{1042,"loose sand on road","",0,1,0,14},
{1043,"loose chippings","",0,1,0,14},
{1044,"oil on road","",0,0,0,14},
{1045,"petrol on road","",0,0,0,14},
{1046,"ice expected","ice expected above (Q) hundred metres",0,1,0,34},
{1047,"icy patches","icy patches above (Q) hundred metres",0,1,1,14},
{1048,"danger of icy patches","danger of icy patches above (Q) hundred metres",0,1,1,14},
{1049,"icy patches expected","icy patches expected above (Q) hundred metres",0,1,1,34},
{1050,"danger of black ice","danger of black ice above (Q) hundred metres",0,1,1,14},
{1051,"black ice expected","black ice expected above (Q) hundred metres",0,1,1,34},
{1052,"freezing rain expected","freezing rain expected above (Q) hundred metres",0,1,1,34},
{1053,"snow drifts expected","snow drifts expected above (Q) hundred metres",0,1,0,34},
{1054,"slippery due to loose sand on roadway","",0,1,0,14},
{1055,"mud on road. Danger","",0,1,1,14},
{1056,"loose chippings. Danger","",0,1,1,14},
{1057,"oil on road. Danger","",0,0,1,14},
{1058,"petrol on road. Danger","",0,0,1,14},
{1059,"road surface in poor condition. Danger","",0,1,1,14},
{1060,"icy patches on bridges","icy patches above (Q) hundred metres on bridges",0,1,1,14},
{1061,"danger of icy patches on bridges","danger of icy patches above (Q) hundred metres on bridges",0,1,1,14},
{1062,"icy patches on bridges, in shaded areas and on slip roads","icy patches above (Q) hundred metres on bridges, in shaded areas and on slip roads",0,1,1,14},
{1063,"impassable for heavy vehicles","impassable for heavy vehicles over (Q)",8,1,1,14},
{1064,"impassable for vehicles with trailers","impassable above (Q) hundred metres for vehicles with trailers",0,1,1,14},
{1065,"driving conditions improved","",0,1,0,14},
{1066,"rescue and recovery work in progress. Danger","",0,0,1,4},
{1067,"large animals on roadway","",0,1,0,13},
{1068,"herds of animals on roadway","",0,1,0,13},
{1069,"skid hazard reduced","",0,1,0,14},
{1070,"snow cleared","",0,1,0,14},
{1071,"road conditions forecast withdrawn","",0,1,0,34},
{1072,"message cancelled","",0,0,0,34},
{1073,"extremely hazardous driving conditions expected","extremely hazardous driving conditions expected above (Q) hundred meters",0,1,1,14},
{1074,"freezing rain expected","freezing rain expected above (Q) hundred metres",0,1,1,14},
{1075,"danger of road being blocked by snow","danger of road being blocked by snow above (Q) hundred metres",0,1,1,14},
{1079,"temperature falling rapidly","temperature falling rapidly to (Q)",6,1,0,15},
{1080,"extreme heat","extreme heat up to (Q)",6,1,0,15},
{1081,"extreme cold","extreme cold of (Q)",6,1,0,15},
{1082,"less extreme temperatures","",0,1,0,15},
{1083,"current temperature","current temperature (Q)",6,1,0,15},
{1084,"house fire","",0,1,0,12},
{1085,"forest fire","",0,1,1,12},
{1086,"vehicle stuck under bridge","",0,1,0,12},
{1090,"volcano eruption warning","",0,1,1,12},
{1101,"heavy snowfall","heavy snowfall (Q)",10,1,1,16},
{1102,"heavy snowfall. Visibility reduced to <30 m","heavy snowfall (Q). Visibility reduced to <30 m",10,1,1,16},
{1103,"heavy snowfall. Visibility reduced to <50 m","heavy snowfall (Q). Visibility reduced to <50 m",10,1,1,16},
{1104,"snowfall","snowfall (Q)",10,1,1,16},
{1105,"snowfall. Visibility reduced to <100 m","snowfall (Q). Visibility reduced to <100 m",10,1,0,16},
{1106,"hail","hail. Visibility reduced to (Q)",2,1,0,16},
{1107,"sleet","sleet. Visibility reduced to (Q)",2,1,0,16},
{1108,"thunderstorms","thunderstorms. Visibility reduced to (Q)",2,1,0,16},
{1109,"heavy rain","heavy rain (Q)",10,1,0,16},
{1110,"heavy rain. Visibility reduced to <30 m","heavy rain (Q). Visibility reduced to <30 m",10,1,1,16},
{1111,"heavy rain. Visibility reduced to <50 m","heavy rain (Q). Visibility reduced to <50 m",10,1,0,16},
{1112,"rain","rain (Q)",10,1,0,16},
{1113,"rain. Visibility reduced to <100 m","rain (Q). Visibility reduced to <100 m",10,1,0,16},
{1114,"showers","showers. Visibility reduced to (Q)",2,1,0,16},
{1115,"heavy frost","",0,1,0,15},
{1116,"frost","",0,1,0,15},
{1117,"overcast weather","(Q) probability of overcast weather",3,1,0,33},
{1118,"mostly cloudy","(Q) probability of mostly cloudy",3,1,0,33},
{1119,"partly cloudy","(Q) probability of partly cloudy",3,1,0,33},
{1120,"sunny periods","(Q) probability of sunny periods",3,1,0,33},
{1121,"clear weather","(Q) probability of clear weather",3,1,0,33},
{1122,"sunny weather","(Q) probability of sunny weather",3,1,0,33},
{1123,"mostly dry weather","(Q) probability of mostly dry weather",3,1,0,33},
{1124,"dry weather","(Q) probability of dry weather",3,1,0,33},
{1125,"sunny periods and with showers","sunny periods and with (Q) probability of showers",3,1,0,33},
{1126,"weather situation improved","",0,1,0,16},
{1127,"message cancelled","",0,0,0,15},
{1128,"winter storm","winter storm. Visibility reduced to (Q)",2,1,1,16},
{1129,"winter storm","(Q) probability of winter storm",3,1,1,33},
{1130,"blizzard","blizzard. Visibility reduced to (Q)",2,1,1,16},
{1131,"blizzard","(Q) probability of blizzard",3,1,1,33},
{1132,"damaging hail","damaging hail. Visibility reduced to (Q)",2,1,1,16},
{1133,"damaging hail","(Q) probability of damaging hail",3,1,1,33},
{1134,"heavy snowfall. Visibility reduced","heavy snowfall. Visibility reduced to (Q)",2,1,1,16},
{1135,"snowfall. Visibility reduced","snowfall. Visibility reduced to (Q)",2,1,0,16},
{1136,"heavy rain. Visibility reduced","heavy rain. Visibility reduced to (Q)",2,1,0,16},
{1137,"rain. Visibility reduced","rain. Visibility reduced to (Q)",2,1,0,16},
{1138,"severe weather warnings cancelled","",0,1,0,33},
{1139,"message cancelled","",0,0,0,33},
{1140,"weather forecast withdrawn","",0,1,0,33},
{1141,"fog forecast withdrawn","",0,1,0,33},
{1143,"slippery road expected","slippery road expected above (Q) hundred metres",0,1,0,34},
{1151,"heavy snowfall","(Q) probability of heavy snowfall",3,1,1,33},
{1152,"snowfall","(Q) probability of snowfall",3,1,0,33},
{1153,"hail","(Q) probability of hail",3,1,0,33},
{1154,"sleet","(Q) probability of sleet",3,1,0,33},
{1155,"thunderstorms","(Q) probability of thunderstorms",3,1,0,33},
{1156,"heavy rain","(Q) probability of heavy rain",3,1,0,33},
{1157,"rain","(Q) probability of rain",3,1,0,33},
{1158,"showers","(Q) probability of showers",3,1,0,33},
{1159,"heavy frost","(Q) probability of heavy frost",3,1,0,33},
{1160,"frost","(Q) probability of frost",3,1,0,33},
{1165,"rain changing to snow","",0,1,0,14},
{1166,"snow changing to rain","",0,1,0,14},
{1170,"heavy snowfall expected","heavy snowfall (Q) expected",10,1,1,16},
{1171,"heavy rain expected","heavy rain (Q) expected",10,1,1,16},
{1172,"weather expected to improve","",0,1,0,16},
{1173,"blizzard expected","blizzard with visibility reduced to (Q) expected",2,1,1,16},
{1174,"damaging hail expected","damaging hail with visibility reduced to (Q) expected",2,1,1,16},
{1175,"reduced visibility expected","reduced visibility to (Q) expected",2,1,0,16},
{1176,"freezing fog expected. Danger of slippery roads","freezing fog expected with visibility reduced to (Q). Danger of slippery roads",2,1,1,16},
{1177,"dense fog expected","dense fog with visibility reduced to (Q) expected",2,1,1,16},
{1178,"patchy fog expected","patchy fog with visibility reduced to (Q) expected",2,1,1,16},
{1179,"visibility expected to improve","",0,1,0,16},
{1180,"adverse weather warning withdrawn","",0,1,0,16},
{1190,"severe smog","",0,1,0,17},
{1191,"severe exhaust pollution","",0,1,0,17},
{1201,"tornadoes","",0,1,1,17},
{1202,"hurricane force winds","hurricane force winds (Q)",4,1,1,17},
{1203,"gales","gales (Q)",4,1,1,17},
{1204,"storm force winds","storm force winds (Q)",4,1,1,17},
{1205,"strong winds","strong winds (Q)",4,1,0,17},
{1206,"moderate winds","moderate winds (Q)",4,1,0,36},
{1207,"light winds","light winds (Q)",4,1,0,36},
{1208,"calm weather","",0,1,0,36},
{1209,"gusty winds","gusty winds (Q)",4,1,0,17},
{1210,"crosswinds","crosswinds (Q)",4,1,0,17},
{1211,"strong winds affecting high-sided vehicles","strong winds (Q) affecting high-sided vehicles",4,1,0,17},
{1212,"closed for high-sided vehicles due to strong winds","closed for high-sided vehicles due to strong winds (Q)",4,1,1,9},
{1213,"strong winds easing","",0,1,0,17},
{1214,"message cancelled","",0,0,0,17},
{1215,"restrictions for high-sided vehicles lifted","",0,1,1,9},
{1216,"tornado watch cancelled","",0,1,0,36},
{1217,"tornado warning ended","",0,1,1,17},
{1218,"wind forecast withdrawn","",0,1,0,36},
{1219,"message cancelled","",0,0,0,36},
{1251,"tornadoes","(Q) probability of tornadoes",3,1,1,36},
{1252,"hurricane force winds","hurricane force winds (Q)",4,1,1,36},
{1253,"gales","gales (Q)",4,1,1,36},
{1254,"storm force winds","storm force winds (Q)",4,1,0,36},
{1255,"strong winds","strong winds (Q)",4,1,0,36},
{1256,"strong wind forecast withdrawn","",0,1,0,36},
{1300,"snowfall and fog expected","snowfall and fog. Visibility reduced to (Q) expected",2,1,1,33},
{1301,"dense fog","dense fog. Visibility reduced to (Q)",2,1,1,16},
{1302,"dense fog. Visibility reduced to <30 m","",0,1,1,16},
{1303,"dense fog. Visibility reduced to <50 m","",0,1,1,16},
{1304,"fog","fog. Visibility reduced to (Q)",2,1,1,16},
{1305,"fog. Visibility reduced to <100 m","",0,1,0,16},
{1306,"fog","(Q) probability of fog",3,1,0,33},
{1307,"patchy fog","patchy fog. Visibility reduced to (Q)",2,1,1,16},
{1308,"freezing fog","freezing fog. Visibility reduced to (Q)",2,1,1,16},
{1309,"smoke hazard","smoke hazard. Visibility reduced to (Q)",2,1,0,16},
{1310,"blowing dust","blowing dust. Visibility reduced to (Q)",2,1,0,16},
{1311,"severe exhaust pollution","(Q) probability of severe exhaust pollution",3,1,0,35},
{1312,"snowfall and fog","snowfall and fog. Visibility reduced to (Q)",2,1,1,16},
{1313,"visibility improved","",0,1,0,16},
{1314,"message cancelled","",0,0,0,16},
{1315,"dense fog","(Q) probability of dense fog",3,1,1,33},
{1316,"patchy fog","(Q) probability of patchy fog",3,1,0,33},
{1317,"freezing fog","(Q) probability of freezing fog",3,1,1,33},
{1318,"visibility reduced","visibility reduced to (Q)",2,1,0,16},
{1319,"visibility reduced to <30 m","",0,1,1,16},
{1320,"visibility reduced to <50 m","",0,1,1,16},
{1321,"visibility reduced to <100 m","",0,1,0,16},
{1322,"white out","white out. Visibility reduced to (Q)",2,1,1,16},
{1323,"blowing snow","blowing snow. Visibility reduced to (Q)",2,1,0,16},
{1324,"spray hazard","spray hazard. Visibility reduced to (Q)",2,1,0,16},
{1325,"low sun glare","",0,0,0,16},
{1326,"sandstorms","sandstorms. Visibility reduced to (Q)",2,1,1,16},
{1327,"sandstorms","(Q) probability of sandstorms",3,1,1,33},
{1328,"air quality: good","(Q) probability of air quality: good",3,1,0,35},
{1329,"air quality: fair","(Q) probability of air quality: fair",3,1,0,35},
{1330,"air quality: poor","(Q) probability of air quality: poor",3,1,0,35},
{1331,"air quality: very poor","(Q) probability of air quality: very poor",3,1,0,35},
{1332,"smog alert","",0,1,0,9},
{1333,"smog","(Q) probability of smog",3,1,0,35},
{1334,"pollen count: high","(Q) probability of pollen count: high",3,1,0,35},
{1335,"pollen count: medium","(Q) probability of pollen count: medium",3,1,0,35},
{1336,"pollen count: low","(Q) probability of pollen count: low",3,1,0,35},
{1337,"freezing fog. Slippery roads","freezing fog. Visibility reduced to (Q). Slippery roads",2,1,1,16},
{1338,"no motor vehicles due to smog alert","",0,1,1,9},
{1339,"air quality improved","",0,1,0,35},
{1340,"swarms of insects","swarms of insects. Visibility reduced to (Q)",2,1,0,16},
{1345,"fog clearing","",0,1,0,16},
{1346,"fog forecast withdrawn","",0,1,0,16},
{1351,"maximum temperature","maximum temperature of (Q)",6,1,0,37},
{1352,"hot,","hot, maximum temperature (Q)",6,1,0,37},
{1353,"warm,","warm, maximum temperature (Q)",6,1,0,37},
{1354,"mild,","mild, maximum temperature (Q)",6,1,0,37},
{1355,"cool,","cool, maximum temperature (Q)",6,1,0,37},
{1356,"cold,","cold, maximum temperature (Q)",6,1,0,37},
{1357,"very cold,","very cold, maximum temperature (Q)",6,1,0,37},
{1358,"message cancelled","",0,0,0,37},
{1359,"temperature rising","temperature rising to (Q)",6,1,0,37},
{1360,"temperature falling rapidly","temperature falling rapidly to (Q)",6,1,0,37},
{1361,"temperature","temperature (Q)",6,1,0,37},
{1362,"effective temperature, with wind chill","effective temperature, with wind chill (Q)",6,1,0,37},
{1364,"extreme heat","extreme heat up to (Q)",6,1,0,37},
{1365,"extreme cold","extreme cold of (Q)",6,1,0,37},
{1401,"minimum temperature","minimum temperature of (Q)",6,1,0,37},
{1402,"very warm","very warm minimum temperature (Q)",6,1,0,37},
{1403,"warm","warm minimum temperature (Q)",6,1,0,37},
{1404,"mild","mild minimum temperature (Q)",6,1,0,37},
{1405,"cool","cool minimum temperature (Q)",6,1,0,37},
{1406,"cold","cold minimum temperature (Q)",6,1,0,37},
{1407,"very cold","very cold minimum temperature (Q)",6,1,0,37},
{1408,"less extreme temperatures expected","",0,1,0,37},
{1449,"emergency training in progress","",0,1,0,18},
{1450,"international sports meeting","",0,1,0,18},
{1451,"match","",0,1,0,18},
{1452,"tournament","",0,1,0,18},
{1453,"athletics meeting","",0,1,0,18},
{1454,"ball game","",0,1,0,18},
{1455,"boxing tournament","",0,1,0,18},
{1456,"bull fight","",0,1,0,18},
{1457,"cricket match","",0,1,0,18},
{1458,"cycle race","",0,1,0,18},
{1459,"football match","",0,1,0,18},
{1460,"golf tournament","",0,1,0,18},
{1461,"marathon","",0,1,0,18},
{1462,"race meeting","",0,1,0,18},
{1463,"rugby match","",0,1,0,18},
{1464,"show jumping","",0,1,0,18},
{1465,"tennis tournament","",0,1,0,18},
{1466,"water sports meeting","",0,1,0,18},
{1467,"winter sports meeting","",0,1,0,18},
{1468,"funfair","",0,1,0,18},
{1469,"trade fair","",0,1,0,18},
{1470,"procession","",0,1,0,18},
{1471,"sightseers obstructing access","",0,1,1,13},
{1472,"people on roadway","",0,1,0,13},
{1473,"children on roadway","",0,1,0,13},
{1474,"cyclists on roadway","",0,1,0,13},
{1475,"strike","",0,1,1,18},
{1476,"security incident","",0,1,1,19},
{1477,"police checkpoint","",0,1,0,19},
{1478,"terrorist incident","",0,1,1,19},
{1479,"gunfire on roadway, danger","",0,1,2,19},
{1480,"civil emergency","",0,1,1,19},
{1481,"air raid, danger","",0,1,2,19},
{1482,"people on roadway. Danger","",0,1,1,13},
{1483,"children on roadway. Danger","",0,1,1,13},
{1484,"cyclists on roadway. Danger","",0,1,1,13},
{1485,"closed due to security incident","",0,1,1,9},
{1486,"security incident. Delays","security incident. Delays (Q)",5,0,1,20},
{1487,"security incident. Delays expected","security incident. Delays (Q) expected",5,0,1,20},
{1488,"security incident. Long delays","security incident. Long delays (Q)",5,0,1,20},
{1489,"police checkpoint. Delays","police checkpoint. Delays (Q)",5,0,0,20},
{1490,"police checkpoint. Delays expected","police checkpoint. Delays (Q) expected",5,0,0,20},
{1491,"police checkpoint. Long delays","police checkpoint. Long delays (Q)",5,0,1,20},
{1492,"security alert withdrawn","",0,1,0,19},
{1493,"sports traffic cleared","",0,1,0,18},
{1494,"evacuation","",0,1,1,19},
{1495,"evacuation. Heavy traffic","",0,0,0,1},
{1496,"traffic disruption cleared","",0,1,0,18},
{1497,"military training in progress","",0,1,0,18},
{1498,"police activity ongoing","",0,0,1,13},
{1499,"medical emergency ongoing","",0,0,1,13},
{1500,"child abduction in progress","",0,1,2,19},
{1501,"major event","",0,1,0,18},
{1502,"sports event meeting","",0,1,0,18},
{1503,"show","",0,1,0,18},
{1504,"festival","",0,1,0,18},
{1505,"exhibition","",0,1,0,18},
{1506,"fair","",0,1,0,18},
{1507,"market","",0,1,0,18},
{1508,"ceremonial event","",0,1,0,18},
{1509,"state occasion","",0,1,0,18},
{1510,"parade","",0,1,0,18},
{1511,"crowd","",0,1,0,18},
{1512,"march","",0,1,0,18},
{1513,"demonstration","",0,1,0,18},
{1514,"public disturbance","",0,1,1,18},
{1515,"security alert","",0,1,0,19},
{1516,"bomb alert","",0,1,1,19},
{1517,"major event. Stationary traffic","",0,0,1,1},
{1518,"major event. Danger of stationary traffic","",0,0,1,1},
{1519,"major event. Queuing traffic","major event. Queuing traffic",0,0,1,1},
{1520,"major event. Danger of queuing traffic","",0,0,1,1},
{1521,"major event. Slow traffic","",0,0,1,1},
{1522,"major event. Slow traffic expected","",0,0,1,2},
{1523,"major event. Heavy traffic","",0,0,0,1},
{1524,"major event. Heavy traffic expected","",0,0,0,2},
{1525,"major event. Traffic flowing freely","",0,0,0,1},
{1526,"major event. Traffic building up","",0,0,0,1},
{1527,"closed due to major event","",0,0,1,9},
{1528,"major event. Delays","major event. Delays (Q)",5,0,0,20},
{1529,"major event. Delays expected","major event. Delays (Q) expected",5,0,1,20},
{1530,"major event. Long delays","major event. Long delays (Q)",5,0,1,20},
{1531,"sports meeting. Stationary traffic","",0,0,1,1},
{1532,"sports meeting. Danger of stationary traffic","",0,0,1,1},
{1533,"sports meeting. Queuing traffic","sports meeting. Queuing traffic",0,0,1,1},
{1534,"sports meeting. Danger of queuing traffic","",0,0,1,1},
{1535,"sports meeting. Slow traffic","",0,0,1,1},
{1536,"sports meeting. Slow traffic expected","",0,0,1,2},
{1537,"sports meeting. Heavy traffic","",0,0,0,1},
{1538,"sports meeting. Heavy traffic expected","",0,0,0,2},
{1539,"sports meeting. Traffic flowing freely","",0,0,0,1},
{1540,"sports meeting. Traffic building up","",0,0,0,1},
{1541,"closed due to sports meeting","",0,0,1,9},
{1542,"sports meeting. Delays","sports meeting. Delays (Q)",5,0,0,20},
{1543,"sports meeting. Delays expected","sports meeting. Delays (Q) expected",5,0,0,20},
{1544,"sports meeting. Long delays","sports meeting. Long delays (Q)",5,0,1,20},
{1545,"fair. Stationary traffic","",0,0,1,1},
{1546,"fair. Danger of stationary traffic","",0,0,1,1},
{1547,"fair. Queuing traffic","fair. Queuing traffic",0,0,1,1},
{1548,"fair. Danger of queuing traffic","",0,0,1,1},
{1549,"fair. Slow traffic","",0,0,1,1},
{1550,"fair. Slow traffic expected","",0,0,1,2},
{1551,"fair. Heavy traffic","",0,0,0,1},
{1552,"fair. Heavy traffic expected","",0,0,0,2},
{1553,"fair. Traffic flowing freely","",0,0,0,1},
{1554,"fair. Traffic building up","",0,0,0,1},
{1555,"closed due to fair","",0,0,1,9},
{1556,"fair. Delays","fair. Delays (Q)",5,0,0,20},
{1557,"fair. Delays expected","fair. Delays (Q) expected",5,0,0,20},
{1558,"fair. Long delays","fair. Long delays (Q)",5,0,1,20},
{1559,"closed due to parade","",0,0,1,9},
{1560,"parade. Delays","parade. Delays (Q)",5,0,0,20},
{1561,"parade. Delays expected","parade. Delays (Q) expected",5,0,1,20},
{1562,"parade. Long delays","parade. Long delays (Q)",5,0,1,20},
{1563,"closed due to strike","",0,0,1,9},
{1564,"strike. Delays","strike. Delays (Q)",5,0,1,20},
{1565,"strike. Delays expected","strike. Delays (Q) expected",5,0,1,20},
{1566,"strike. Long delays","strike. Long delays (Q)",5,0,1,20},
{1567,"closed due to demonstration","",0,0,1,9},
{1568,"demonstration. Delays","demonstration. Delays (Q)",5,0,0,20},
{1569,"demonstration. Delays expected","demonstration. Delays (Q) expected",5,0,1,20},
{1570,"demonstration. Long delays","demonstration. Long delays (Q)",5,0,1,20},
{1571,"security alert. Stationary traffic","",0,0,1,1},
{1572,"security alert. Danger of stationary traffic","",0,0,1,1},
{1573,"security alert. Queuing traffic","security alert. Queuing traffic",0,0,1,1},
{1574,"security alert. Danger of queuing traffic","",0,0,1,1},
{1575,"security alert. Slow traffic","",0,0,1,1},
{1576,"security alert. Slow traffic expected","",0,0,1,2},
{1577,"security alert. Heavy traffic","",0,0,0,1},
{1578,"security alert. Heavy traffic expected","",0,0,0,2},
{1579,"security alert. Traffic building up","",0,0,0,1},
{1580,"closed due to security alert","",0,0,1,9},
{1581,"security alert. Delays","security alert. Delays (Q)",5,0,0,20},
{1582,"security alert. Delays expected","security alert. Delays (Q) expected",5,0,0,20},
{1583,"security alert. Long delays","security alert. Long delays (Q)",5,0,1,20},
{1584,"traffic has returned to normal","",0,0,0,1},
{1585,"message cancelled","",0,0,0,18},
{1586,"security alert. Traffic flowing freely","",0,0,0,1},
{1587,"air raid warning cancelled","",0,1,0,19},
{1588,"civil emergency cancelled","",0,1,0,19},
{1589,"message cancelled","",0,0,0,2},
{1590,"several major events","",0,1,0,18},
{1591,"information about major event no longer valid","",0,1,0,18},
{1592,"automobile race","",0,1,0,18},
{1593,"baseball game","",0,1,0,18},
{1594,"basketball game","",0,1,0,18},
{1595,"boat race","",0,1,0,18},
{1596,"concert","",0,1,0,18},
{1597,"hockey game","",0,1,0,18},
{1601,"delays","delays (Q)",5,0,0,20},
{1602,"delays up to 15 minutes","",0,0,0,20},
{1603,"delays up to 30 minutes","",0,0,0,20},
{1604,"delays up to one hour","",0,0,0,20},
{1605,"delays up to two hours","",0,0,1,20},
{1606,"delays of several hours","",0,0,1,20},
{1607,"delays expected","delays (Q) expected",5,0,0,20},
{1608,"long delays","long delays (Q)",5,0,1,20},
{1609,"delays for heavy vehicles","delays (Q) for heavy vehicles",5,0,0,20},
{1610,"delays up to 15 minutes for heavy lorr(y/ies)","",0,0,0,20},
{1611,"delays up to 30 minutes for heavy lorr(y/ies)","",0,0,0,20},
{1612,"delays up to one hour for heavy lorr(y/ies)","",0,0,0,20},
{1613,"delays up to two hours for heavy lorr(y/ies)","",0,0,1,20},
{1614,"delays of several hours for heavy lorr(y/ies)","",0,0,1,20},
{1615,"service suspended","service suspended until (Q)",7,0,1,21},
{1616,"service withdrawn","(Q) service withdrawn",7,0,0,21},
{1617,"service fully booked","(Q) services fully booked",7,0,0,21},
{1618,"service fully booked for heavy vehicles","(Q) services fully booked for heavy vehicles",7,0,0,21},
{1619,"normal services resumed","",0,1,0,21},
{1620,"message cancelled","",0,0,0,20},
{1621,"delays up to 5 minutes","",0,0,0,20},
{1622,"delays up to 10 minutes","",0,0,0,20},
{1623,"delays up to 20 minutes","",0,0,0,20},
{1624,"delays up to 25 minutes","",0,0,0,20},
{1625,"delays up to 40 minutes","",0,0,0,20},
{1626,"delays up to 50 minutes","",0,0,0,20},
{1627,"delays up to 90 minutes","",0,0,1,20},
{1628,"delays up to three hours","",0,0,1,20},
{1629,"delays up to four hours","",0,0,1,20},
{1630,"delays up to five hours","",0,0,1,20},
{1631,"very long delays","very long delays (Q)",5,0,1,20},
{1632,"delays of uncertain duration","",0,0,0,20},
{1633,"delayed until further notice","",0,0,0,21},
{1634,"cancellations","",0,0,0,21},
{1635,"park and ride service not operating","park and ride service not operating until (Q)",7,1,1,21},
{1636,"special public transport services operating","special public transport services operating until (Q)",7,1,0,21},
{1637,"normal services not operating","normal services not operating until (Q)",7,1,1,21},
{1638,"rail services not operating","rail services not operating until (Q)",7,1,1,21},
{1639,"bus services not operating","bus services not operating until (Q)",7,1,1,21},
{1640,"shuttle service operating","shuttle service operating until (Q)",7,1,0,21},
{1641,"free shuttle service operating","free shuttle service operating until (Q)",7,1,0,21},
{1642,"delays for heavy lorr(y/ies)","delays (Q) for heavy lorr(y/ies)",5,0,0,20},
{1643,"delays for buses","delays (Q) for buses",5,0,0,20},
{1644,"service fully booked for heavy lorr(y/ies)","(Q) services fully booked for heavy lorr(y/ies)",7,0,0,21},
{1645,"service fully booked for buses","(Q) services fully booked for buses",7,0,0,21},
{1646,"next departure for heavy lorr(y/ies)","next departure (Q) for heavy lorr(y/ies)",7,0,0,22},
{1647,"next departure for buses","next departure (Q) for buses",7,0,0,22},
{1648,"delays cleared","",0,0,0,20},
{1649,"rapid transit service not operating","rapid transit service not operating until (Q)",7,1,1,21},
{1650,"delays possible","delays (Q) possible",5,0,0,20},
{1651,"underground service not operating","underground service not operating until (Q)",7,1,1,21},
{1652,"cancellations expected","",0,0,0,21},
{1653,"long delays expected","",0,0,1,20},
{1654,"very long delays expected","",0,0,1,20},
{1655,"all services fully booked","all services fully booked until (Q)",7,0,1,21},
{1656,"next arrival","next arrival (Q)",7,0,0,22},
{1657,"rail services irregular. Delays","rail services irregular. Delays (Q)",5,1,0,21},
{1658,"bus services irregular. Delays","bus services irregular. Delays (Q)",5,1,0,21},
{1659,"underground services irregular","",0,1,0,21},
{1660,"normal public transport services resumed","",0,1,0,21},
{1661,"ferry service not operating","ferry service not operating until (Q)",7,1,1,21},
{1662,"park and ride trip time","park and ride trip time (Q)",5,0,0,22},
{1663,"delay expected to be cleared","",0,0,0,20},
{1664,"demonstration by vehicles","",0,0,0,18},
{1680,"delays have to be expected","delays (Q) have to be expected",5,0,0,38},
{1681,"delays of several hours have to be expected","",0,0,1,38},
{1682,"closed ahead. Delays have to be expected","closed ahead. Delays (Q) have to be expected",5,0,1,38},
{1683,"roadworks. Delays have to be expected","roadworks. Delays (Q) have to be expected",5,0,0,38},
{1684,"flooding. Delays have to be expected","flooding. Delays (Q) have to be expected",5,0,1,38},
{1685,"major event. Delays have to be expected","major event. Delays (Q) have to be expected",5,0,1,38},
{1686,"strike. Delays have to be expected","strike. Delays (Q) have to be expected",5,0,1,38},
{1687,"delays of several hours for heavy lorries have to be expected","",0,0,1,38},
{1688,"long delays have to be expected","",0,0,1,38},
{1689,"very long delays have to be expected","",0,0,1,38},
{1690,"delay forecast withdrawn","",0,1,0,38},
{1691,"message cancelled","",0,0,0,38},
{1695,"current trip time","current trip time (Q)",5,0,0,22},
{1696,"expected trip time","expected trip time (Q)",5,0,0,22},
{1700,"slow moving maintenance vehicle","(Q) slow moving maintenance vehicles",0,0,1,12},
{1701,"vehicle on wrong carriageway","(Q) vehicles on wrong carriageway",0,1,2,23},
{1702,"dangerous vehicle warning cleared","",0,1,1,23},
{1703,"message cancelled","",0,0,0,23},
{1704,"reckless driver","(Q) reckless drivers",0,0,1,23},
{1705,"prohibited vehicle on the roadway","(Q) prohibited vehicles on the roadway",0,0,1,23},
{1706,"emergency vehicles","(Q) emergency vehicles",0,0,1,23},
{1707,"high-speed emergency vehicles","(Q) high-speed emergency vehicles",0,0,2,23},
{1708,"high-speed chase","high-speed chase involving (Q) vehicles",0,0,2,23},
{1709,"spillage occurring from moving vehicle","",0,0,1,12},
{1710,"objects falling from moving vehicle","",0,0,1,23},
{1711,"emergency vehicle warning cleared","",0,0,1,23},
{1712,"road cleared","",0,0,0,12},
{1720,"rail services irregular","",0,1,0,21},
{1721,"public transport services not operating","",0,1,1,21},
{1731,"abnormal load, danger","(Q) abnormal loads, danger",0,0,1,24},
{1732,"wide load, danger","(Q) wide loads, danger",0,0,1,24},
{1733,"long load, danger","(Q) long loads, danger",0,0,1,24},
{1734,"slow vehicle, danger","(Q) slow vehicles, danger",0,0,1,24},
{1735,"track-laying vehicle, danger","(Q) track-laying vehicles, danger",0,0,1,24},
{1736,"vehicle carrying hazardous materials. Danger","(Q) vehicles carrying hazardous materials. Danger",0,0,1,23},
{1737,"convoy, danger","(Q) convoys, danger",0,0,1,24},
{1738,"military convoy, danger","(Q) military convoys, danger",0,0,1,24},
{1739,"overheight load, danger","(Q) overheight loads, danger",0,0,1,24},
{1740,"abnormal load causing slow traffic. Delays","abnormal load causing slow traffic. Delays (Q)",5,0,1,20},
{1741,"convoy causing slow traffic. Delays","convoy causing slow traffic. Delays (Q)",5,0,1,20},
{1751,"abnormal load","(Q) abnormal loads",0,0,0,24},
{1752,"wide load","(Q) wide loads",0,0,0,24},
{1753,"long load","(Q) long loads",0,0,0,24},
{1754,"slow vehicle","(Q) slow vehicles",0,0,0,24},
{1755,"convoy","(Q) convoys",0,0,0,24},
{1756,"abnormal load. Delays","abnormal load. Delays (Q)",5,0,1,20},
{1757,"abnormal load. Delays expected","abnormal load. Delays (Q) expected",5,0,0,20},
{1758,"abnormal load. Long delays","abnormal load. Long delays (Q)",5,0,1,20},
{1759,"convoy causing delays","convoy causing delays (Q)",5,0,0,20},
{1760,"convoy. Delays expected","convoy. Delays (Q) expected",5,0,0,20},
{1761,"convoy causing long delays","convoy causing long delays (Q)",5,0,1,20},
{1762,"exceptional load warning cleared","",0,0,0,24},
{1763,"message cancelled","",0,0,0,24},
{1764,"track-laying vehicle","(Q) track-laying vehicles",0,0,0,24},
{1765,"vehicle carrying hazardous materials","(Q) vehicles carrying hazardous materials",0,0,0,23},
{1766,"military convoy","(Q) military convoys",0,0,0,24},
{1767,"abnormal load. No overtaking","(Q) abnormal loads. No overtaking",0,0,1,24},
{1768,"Vehicles carrying hazardous materials have to stop at next safe place!","",0,0,1,23},
{1769,"hazardous load warning cleared","",0,0,0,23},
{1770,"convoy cleared","",0,0,0,24},
{1771,"warning cleared","",0,0,0,13},
{1780,"cancellations have to be expected","",0,0,0,39},
{1781,"all services fully booked","all services fully booked until (Q)",7,0,1,39},
{1782,"park and ride service will not be operating","park and ride service will not be operating until (Q)",7,1,1,39},
{1783,"normal services will not be operating","normal services will not be operating until (Q)",7,1,1,39},
{1784,"rail services will not be operating","rail services will not be operating until (Q)",7,1,1,39},
{1785,"rapid transit service will not be operating","rapid transit service will not be operating until (Q)",7,1,1,39},
{1786,"underground service will not be operating","underground service will not be operating until (Q)",7,1,1,39},
{1787,"public transport will be on strike","",0,1,1,39},
{1788,"ferry service will not be operating","ferry service will not be operating until (Q)",7,1,1,39},
{1789,"normal services expected","",0,1,0,39},
{1790,"message cancelled","",0,0,0,39},
{1801,"lane control signs not working","",0,0,1,25},
{1802,"emergency telephones not working","",0,1,0,25},
{1803,"emergency telephone number not working","",0,1,0,25},
{1804,"traffic lights not working","(Q) sets of traffic lights not working",0,1,0,25},
{1805,"traffic lights working incorrectly","(Q) sets of traffic lights working incorrectly",0,1,1,25},
{1806,"level crossing failure","",0,1,0,25},
{1807,"traffic lights not working. Stationary traffic","(Q) sets of traffic lights not working. Stationary traffic",0,0,1,1},
{1808,"traffic lights not working. Danger of stationary traffic","(Q) sets of traffic lights not working. Danger of stationary traffic",0,0,1,1},
{1809,"traffic lights not working. Queuing traffic","(Q) sets of traffic lights not working. Queuing traffic",0,0,1,1},
{1810,"traffic lights not working. Danger of queuing traffic","(Q) sets of traffic lights not working. Danger of queuing traffic",0,0,1,1},
{1811,"traffic lights not working. Slow traffic","(Q) sets of traffic lights not working. Slow traffic",0,0,1,1},
{1812,"traffic lights not working. Slow traffic expected","(Q) sets of traffic lights not working. Slow traffic expected",0,0,1,2},
{1813,"traffic lights not working. Heavy traffic","(Q) sets of traffic lights not working. Heavy traffic",0,0,0,1},
{1814,"traffic lights not working. Heavy traffic expected","(Q) sets of traffic lights not working. Heavy traffic expected",0,0,0,2},
{1815,"traffic lights not working. Traffic flowing freely","(Q) sets of traffic lights not working. Traffic flowing freely",0,0,0,1},
{1816,"traffic lights not working. Traffic building up","(Q) sets of traffic lights not working. Traffic building up",0,0,0,1},
{1817,"traffic lights not working. Delays","traffic lights not working. Delays (Q)",5,0,0,20},
{1818,"traffic lights not working. Delays expected","traffic lights not working. Delays (Q) expected",5,0,0,20},
{1819,"traffic lights not working. Long delays","traffic lights not working. Long delays (Q)",5,0,1,20},
{1820,"level crossing failure. Stationary traffic","",0,0,1,1},
{1821,"level crossing failure. Danger of stationary traffic","",0,0,1,1},
{1822,"level crossing failure. Queuing traffic","level crossing failure. Queuing traffic",0,0,1,1},
{1823,"level crossing failure. Danger of queuing traffic","",0,0,1,1},
{1824,"level crossing failure. Slow traffic","",0,0,1,1},
{1825,"level crossing failure. Slow traffic expected","",0,0,1,2},
{1826,"level crossing failure. Heavy traffic","",0,0,0,1},
{1827,"level crossing failure. Heavy traffic expected","",0,0,0,2},
{1828,"level crossing failure. Traffic flowing freely","",0,0,0,1},
{1829,"level crossing failure. Traffic building up","",0,0,0,1},
{1830,"level crossing failure. Delays","level crossing failure. Delays (Q)",5,0,0,20},
{1831,"level crossing failure. Delays expected","level crossing failure. Delays (Q) expected",5,0,0,20},
{1832,"level crossing failure. Long delays","level crossing failure. Long delays (Q)",5,0,1,20},
{1833,"electronic signs repaired","",0,1,0,25},
{1834,"emergency call facilities restored","",0,1,0,25},
{1835,"traffic signals repaired","",0,1,0,25},
{1836,"level crossing now working normally","",0,1,0,25},
{1837,"message cancelled","",0,0,0,25},
{1838,"lane control signs working incorrectly","",0,0,1,25},
{1839,"lane control signs operating","",0,0,0,25},
{1840,"variable message signs not working","",0,0,0,25},
{1841,"variable message signs working incorrectly","",0,0,1,25},
{1842,"variable message signs operating","",0,0,0,25},
{1843,"ramp control signals not working","(Q) sets of ramp control signals not working",0,0,0,25},
{1844,"ramp control signals working incorrectly","(Q) sets of ramp control signals working incorrectly",0,0,0,25},
{1845,"temporary traffic lights not working","(Q) sets of temporary traffic lights not working",0,1,0,25},
{1846,"temporary traffic lights working incorrectly","(Q) sets of temporary traffic lights working incorrectly",0,1,1,25},
{1847,"traffic signal control computer not working","",0,1,0,25},
{1848,"traffic signal timings changed","",0,1,1,25},
{1849,"tunnel ventilation not working","",0,1,1,25},
{1850,"lane control signs not working. Danger","",0,0,1,25},
{1851,"temporary width limit","temporary width limit (Q)",9,0,0,26},
{1852,"temporary width limit lifted","",0,0,0,26},
{1854,"traffic regulations have been changed","",0,1,0,9},
{1855,"less than 50 parking spaces available","",0,1,0,28},
{1856,"no parking information available","no parking information available until (Q)",7,1,0,28},
{1857,"message cancelled","",0,0,0,26},
{1858,"Snowplough. Delays","Snowplough. Delays (Q)",5,0,0,20},
{1861,"temporary height limit","temporary height limit (Q)",9,0,0,26},
{1862,"temporary height limit lifted","",0,0,0,26},
{1863,"automatic payment lanes not working","(Q) automatic payment lanes not working",0,0,0,25},
{1864,"lane control signs working incorrectly. Danger","",0,0,1,25},
{1865,"emergency telephones out of order. Extra police patrols in operation","",0,1,0,25},
{1866,"emergency telephones out of order. In emergency, wait for police patrol","",0,1,1,25},
{1867,"traffic lights not working. Danger","(Q) sets of traffic lights not working. Danger",0,1,1,25},
{1868,"traffic lights working incorrectly. Delays","traffic lights working incorrectly. Delays (Q)",5,0,0,20},
{1869,"traffic lights working incorrectly. Delays expected","traffic lights working incorrectly. Delays (Q) expected",5,0,0,20},
{1870,"traffic lights working incorrectly. Long delays","traffic lights working incorrectly. Long delays (Q)",5,0,1,20},
{1871,"temporary axle load limit","temporary axle load limit (Q)",8,1,0,26},
{1872,"temporary gross weight limit","temporary gross weight limit (Q)",8,1,0,26},
{1873,"temporary gross weight limit lifted","",0,1,0,26},
{1874,"temporary axle weight limit lifted","",0,1,0,26},
{1875,"traffic lights working incorrectly. Danger","(Q) sets of traffic lights working incorrectly. Danger",0,1,1,25},
{1876,"temporary traffic lights not working. Delays","temporary traffic lights not working. Delays (Q)",5,0,0,20},
{1877,"temporary traffic lights not working. Delays expected","temporary traffic lights not working. Delays (Q) expected",5,0,0,20},
{1878,"temporary traffic lights not working. Long delays","temporary traffic lights not working. Long delays (Q)",5,0,1,20},
{1879,"temporary traffic lights not working. Danger","(Q) sets of temporary traffic lights not working. Danger",0,1,1,25},
{1880,"traffic signal control computer not working. Delays","traffic signal control computer not working. Delays (Q)",5,0,0,20},
{1881,"temporary length limit","temporary length limit (Q)",9,1,0,26},
{1882,"temporary length limit lifted","",0,1,0,26},
{1883,"message cancelled","",0,0,0,27},
{1884,"traffic signal control computer not working. Delays expected","traffic signal control computer not working. Delays (Q) expected",5,0,0,20},
{1885,"traffic signal control computer not working. Long delays","traffic signal control computer not working. Long delays (Q)",5,0,1,20},
{1886,"normal parking restrictions lifted","",0,1,0,27},
{1887,"special parking restrictions in force","",0,1,0,27},
{1888,"10% full","",0,1,0,28},
{1889,"20% full","",0,1,0,28},
{1890,"30% full","",0,1,0,28},
{1891,"40% full","",0,1,0,28},
{1892,"50% full","",0,1,0,28},
{1893,"60% full","",0,1,0,28},
{1894,"70% full","",0,1,0,28},
{1895,"80% full","",0,1,0,28},
{1896,"90% full","",0,1,0,28},
{1897,"less than 10 parking spaces available","",0,1,0,28},
{1898,"less than 20 parking spaces available","",0,1,0,28},
{1899,"less than 30 parking spaces available","",0,1,0,28},
{1900,"less than 40 parking spaces available","",0,1,0,28},
{1901,"next departure","next departure (Q)",7,0,0,22},
{1902,"next departure for heavy vehicles","next departure (Q) for heavy vehicles",7,0,0,22},
{1903,"car park full","car park (Q) full",3,1,1,28},
{1904,"all car parks full","all car parks (Q) full",3,1,1,28},
{1905,"less than car parking spaces available","less than (Q) car parking spaces available",1,1,0,28},
{1906,"park and ride service operating","park and ride service operating until (Q)",7,1,0,21},
{1907,"(null event) {no event description, but location etc. given in message}","",0,0,0,31},
{1908,"switch your car radio","switch your car radio to (Q)",11,1,1,29},
{1909,"alarm call: important new information on this frequency follows now in normal programme","",0,0,0,29},
{1910,"alarm set: new information will be broadcast between these times in normal programme","",0,0,0,29},
{1911,"message cancelled","",0,0,0,29},
{1913,"switch your car radio","switch your car radio to (Q)",12,1,1,29},
{1914,"no information available","no information available until (Q)",7,1,0,30},
{1915,"this message is for test purposes only, please ignore","this message is for test purposes only number (Q), please ignore",0,0,0,31},
{1916,"no information available due to technical problems","no information available until (Q) due to technical problems",7,1,0,30},
{1917,"automatic toll system not working, pay manually","",0,0,0,25},
{1918,"full","",0,1,1,28},
{1920,"only a few parking spaces available","",0,1,0,28},
{1921,"parking spaces available","(Q) parking spaces available",1,1,0,28},
{1922,"expect car park to be full","",0,1,0,28},
{1923,"expect no parking spaces available","",0,1,1,28},
{1924,"multi story car parks full","",0,1,0,28},
{1925,"no problems to report with park and ride services","",0,1,0,28},
{1926,"no parking spaces available","",0,1,1,28},
{1927,"no parking","no parking until (Q)",7,1,0,27},
{1928,"special parking restrictions lifted","",0,1,0,27},
{1929,"urgent information will be given on normal programme broadcasts","urgent information will be given at (Q) on normal programme broadcasts",7,1,1,29},
{1930,"this TMC-service is not active","this TMC-service is not active until (Q)",7,1,0,30},
{1931,"detailed information will be given on normal programme broadcasts","detailed information will be given at (Q) on normal programme broadcasts",7,1,1,29},
{1932,"detailed information is provided by another TMC service","",0,1,1,30},
{1934,"no park and ride information available","no park and ride information available until (Q)",7,1,0,28},
{1938,"park and ride information service resumed","",0,1,0,28},
{1939,"travel information telephone service availiable","",0,1,0,30},
{1940,"additional regional information is provided by another TMC service","",0,1,0,30},
{1941,"additional local information is provided by another TMC service","",0,1,0,30},
{1942,"additional public transport information is provided by another TMC service","",0,1,0,30},
{1943,"national traffic information is provided by another TMC service","",0,1,0,30},
{1944,"this service provides major road information","",0,1,0,30},
{1945,"this service provides regional travel information","",0,1,0,30},
{1946,"this service provides local travel information","",0,1,0,30},
{1947,"no detailed regional information provided by this service","",0,1,0,30},
{1948,"no detailed local information provided by this service","",0,1,0,30},
{1949,"no cross-border information provided by this service","",0,1,0,30},
{1950,"information restricted to this area","",0,1,0,30},
{1951,"no new traffic information available","no new traffic information available until (Q)",7,1,0,30},
{1952,"no public transport information available","",0,1,0,30},
{1953,"this TMC-service is being suspended","this TMC-service is being suspended at (Q)",7,1,0,30},
{1954,"active TMC-service will resume","active TMC-service will resume at (Q)",7,1,0,30},
{1955,"reference to audio programmes no longer valid","",0,1,0,29},
{1956,"reference to other TMC services no longer valid","",0,1,0,30},
{1957,"previous announcement about this or other TMC services no longer valid","",0,1,0,30},
{1961,"allow emergency vehicles to pass in the carpool lane","",0,0,1,9},
{1962,"carpool lane available for all vehicles","",0,0,0,10},
{1963,"police directing traffic via the carpool lane","",0,0,0,10},
{1964,"rail information service not available","",0,1,0,30},
{1965,"rail information service resumed","",0,1,0,30},
{1966,"rapid transit information service not available","",0,1,0,30},
{1967,"rapid transit information service resumed","",0,1,0,30},
{1971,"police directing traffic","",0,0,0,9},
{1972,"buslane available for all vehicles","",0,0,0,9},
{1973,"police directing traffic via the buslane","",0,0,1,9},
{1974,"allow emergency vehicles to pass","",0,0,1,9},
{1975,"overtaking prohibited for heavy vehicles","overtaking prohibited for heavy vehicles over (Q)",8,0,1,9},
{1976,"overtaking prohibited","",0,0,0,9},
{1977,"allow emergency vehicles to pass in the heavy vehicle lane","",0,0,1,9},
{1978,"heavy vehicle lane available for all vehicles","",0,0,0,9},
{1979,"police directing traffic via the heavy vehicle lane","",0,0,0,9},
{1980,"overtaking prohibited for heavy lorries","overtaking prohibited for heavy lorries over (Q)",8,0,0,9},
{1981,"drivers of heavy lorries are recommended to stop at next safe place","drivers of heavy lorries over (Q) are recommended to stop at next safe place",8,1,1,9},
{1982,"buslane closed","",0,0,0,6},
{1983,"power failure","",0,1,0,25},
{1985,"overtaking restriction lifted","",0,0,0,9},
{1986,"Low Emission Zone restriction in force","",0,1,0,9},
{1990,"car park closed","car park closed until (Q)",7,1,0,28},
{1991,"danger of waiting vehicles on roadway","",0,0,1,13},
{1993,"number of parking spaces decreasing","",0,1,0,28},
{1994,"number of parking spaces constant","",0,1,0,28},
{1995,"number of parking spaces increasing","",0,1,0,28},
{1998,"dangerous situation on exit slip road","",0,0,1,7},
{1999,"dangerous situation on entry slip road","",0,0,1,8},
{2000,"closed due to smog alert","closed due to smog alert until (Q)",7,1,1,9},
{2006,"closed for vehicles with less than three occupants {not valid for lorries}","",0,0,1,10},
{2007,"closed for vehicles with only one occupant {not valid for lorries}","",0,0,1,10},
{2013,"service area busy","",0,0,0,9},
{2021,"service not operating, substitute service available","",0,1,0,21},
{2022,"public transport strike","",0,1,1,21},
{2028,"message cancelled","",0,0,0,4},
{2029,"message cancelled","",0,0,0,10},
{2030,"message cancelled","",0,0,0,13},
{2032,"message cancelled","",0,0,0,35},
{2033,"message cancelled","",0,0,0,19},
{2034,"message cancelled","",0,0,0,21},
{2035,"message cancelled","",0,0,0,22},
{2038,"message cancelled","",0,0,0,28},
{2039,"message cancelled","",0,0,0,30},
{2040,"message cancelled","",0,0,0,31},
{2041,"nothing to report","",0,1,0,31},
{2042,"ice build-up on cable structure","",0,1,1,13},
{2043,"road salted","",0,0,0,14},
{2044,"danger of snow patches","",0,1,1,14},
{2045,"snow patches","",0,1,1,14},
{2046,"Convoy service required due to bad weather","",0,1,1,9},
{2047,"(null message) {completely silent message, see protocol, sect. 3.5.4}","",0,1,0,31},
