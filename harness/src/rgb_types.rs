// compile-time RGB types: digit-count edges, then every value of every component at varying offsets
#[rustfmt::skip]
const RGB_TYPES: &[fn() -> Entry] = &[
    rgb_entry::<0,0,0>, rgb_entry::<0,0,9>, rgb_entry::<0,0,10>, rgb_entry::<0,0,99>, rgb_entry::<0,0,100>, rgb_entry::<0,0,255>,
    rgb_entry::<0,9,0>, rgb_entry::<0,9,9>, rgb_entry::<0,9,10>, rgb_entry::<0,9,99>, rgb_entry::<0,9,100>, rgb_entry::<0,9,255>,
    rgb_entry::<0,10,0>, rgb_entry::<0,10,9>, rgb_entry::<0,10,10>, rgb_entry::<0,10,99>, rgb_entry::<0,10,100>, rgb_entry::<0,10,255>,
    rgb_entry::<0,33,9>, rgb_entry::<0,99,0>, rgb_entry::<0,99,9>, rgb_entry::<0,99,10>, rgb_entry::<0,99,99>, rgb_entry::<0,99,100>,
    rgb_entry::<0,99,255>, rgb_entry::<0,100,0>, rgb_entry::<0,100,9>, rgb_entry::<0,100,10>, rgb_entry::<0,100,99>, rgb_entry::<0,100,100>,
    rgb_entry::<0,100,255>, rgb_entry::<0,255,0>, rgb_entry::<0,255,9>, rgb_entry::<0,255,10>, rgb_entry::<0,255,99>, rgb_entry::<0,255,100>,
    rgb_entry::<0,255,255>, rgb_entry::<1,173,108>, rgb_entry::<2,30,177>, rgb_entry::<3,23,141>, rgb_entry::<4,239,36>, rgb_entry::<5,97,30>,
    rgb_entry::<6,27,181>, rgb_entry::<7,184,154>, rgb_entry::<8,158,64>, rgb_entry::<9,0,0>, rgb_entry::<9,0,9>, rgb_entry::<9,0,10>,
    rgb_entry::<9,0,99>, rgb_entry::<9,0,100>, rgb_entry::<9,0,255>, rgb_entry::<9,9,0>, rgb_entry::<9,9,9>, rgb_entry::<9,9,10>,
    rgb_entry::<9,9,99>, rgb_entry::<9,9,100>, rgb_entry::<9,9,255>, rgb_entry::<9,10,0>, rgb_entry::<9,10,9>, rgb_entry::<9,10,10>,
    rgb_entry::<9,10,99>, rgb_entry::<9,10,100>, rgb_entry::<9,10,255>, rgb_entry::<9,25,173>, rgb_entry::<9,99,0>, rgb_entry::<9,99,9>,
    rgb_entry::<9,99,10>, rgb_entry::<9,99,99>, rgb_entry::<9,99,100>, rgb_entry::<9,99,255>, rgb_entry::<9,100,0>, rgb_entry::<9,100,9>,
    rgb_entry::<9,100,10>, rgb_entry::<9,100,99>, rgb_entry::<9,100,100>, rgb_entry::<9,100,255>, rgb_entry::<9,255,0>, rgb_entry::<9,255,9>,
    rgb_entry::<9,255,10>, rgb_entry::<9,255,99>, rgb_entry::<9,255,100>, rgb_entry::<9,255,255>, rgb_entry::<10,0,0>, rgb_entry::<10,0,9>,
    rgb_entry::<10,0,10>, rgb_entry::<10,0,99>, rgb_entry::<10,0,100>, rgb_entry::<10,0,255>, rgb_entry::<10,9,0>, rgb_entry::<10,9,9>,
    rgb_entry::<10,9,10>, rgb_entry::<10,9,99>, rgb_entry::<10,9,100>, rgb_entry::<10,9,255>, rgb_entry::<10,10,0>, rgb_entry::<10,10,9>,
    rgb_entry::<10,10,10>, rgb_entry::<10,10,99>, rgb_entry::<10,10,100>, rgb_entry::<10,10,255>, rgb_entry::<10,99,0>, rgb_entry::<10,99,9>,
    rgb_entry::<10,99,10>, rgb_entry::<10,99,99>, rgb_entry::<10,99,100>, rgb_entry::<10,99,255>, rgb_entry::<10,100,0>, rgb_entry::<10,100,9>,
    rgb_entry::<10,100,10>, rgb_entry::<10,100,99>, rgb_entry::<10,100,100>, rgb_entry::<10,100,255>, rgb_entry::<10,146,12>, rgb_entry::<10,255,0>,
    rgb_entry::<10,255,9>, rgb_entry::<10,255,10>, rgb_entry::<10,255,99>, rgb_entry::<10,255,100>, rgb_entry::<10,255,255>, rgb_entry::<11,82,7>,
    rgb_entry::<12,130,140>, rgb_entry::<13,247,118>, rgb_entry::<14,38,244>, rgb_entry::<15,29,89>, rgb_entry::<16,20,237>, rgb_entry::<17,162,128>,
    rgb_entry::<18,250,165>, rgb_entry::<19,54,190>, rgb_entry::<20,117,145>, rgb_entry::<21,202,10>, rgb_entry::<22,121,3>, rgb_entry::<23,65,222>,
    rgb_entry::<24,37,149>, rgb_entry::<25,96,219>, rgb_entry::<26,228,66>, rgb_entry::<27,204,49>, rgb_entry::<28,104,111>, rgb_entry::<29,149,172>,
    rgb_entry::<30,4,166>, rgb_entry::<31,49,19>, rgb_entry::<32,100,112>, rgb_entry::<33,233,161>, rgb_entry::<34,165,80>, rgb_entry::<35,227,191>,
    rgb_entry::<36,197,70>, rgb_entry::<37,50,73>, rgb_entry::<38,167,255>, rgb_entry::<39,216,117>, rgb_entry::<40,21,206>, rgb_entry::<41,253,228>,
    rgb_entry::<42,134,83>, rgb_entry::<43,242,90>, rgb_entry::<44,3,106>, rgb_entry::<45,181,246>, rgb_entry::<46,99,92>, rgb_entry::<47,163,139>,
    rgb_entry::<48,42,11>, rgb_entry::<49,60,193>, rgb_entry::<50,190,62>, rgb_entry::<51,2,14>, rgb_entry::<52,245,196>, rgb_entry::<53,198,85>,
    rgb_entry::<54,102,69>, rgb_entry::<55,196,213>, rgb_entry::<56,110,94>, rgb_entry::<57,230,134>, rgb_entry::<58,31,197>, rgb_entry::<59,71,29>,
    rgb_entry::<60,12,102>, rgb_entry::<61,157,13>, rgb_entry::<62,101,153>, rgb_entry::<63,176,107>, rgb_entry::<64,254,251>, rgb_entry::<65,57,54>,
    rgb_entry::<66,58,250>, rgb_entry::<67,145,238>, rgb_entry::<68,125,53>, rgb_entry::<69,5,24>, rgb_entry::<70,193,224>, rgb_entry::<71,85,57>,
    rgb_entry::<72,182,122>, rgb_entry::<73,61,59>, rgb_entry::<74,16,63>, rgb_entry::<75,128,109>, rgb_entry::<76,225,23>, rgb_entry::<77,127,152>,
    rgb_entry::<78,86,242>, rgb_entry::<79,107,212>, rgb_entry::<80,78,20>, rgb_entry::<81,213,39>, rgb_entry::<82,221,236>, rgb_entry::<83,39,182>,
    rgb_entry::<84,248,225>, rgb_entry::<85,59,247>, rgb_entry::<86,154,55>, rgb_entry::<87,214,44>, rgb_entry::<88,211,26>, rgb_entry::<89,234,37>,
    rgb_entry::<90,69,56>, rgb_entry::<91,178,104>, rgb_entry::<92,66,203>, rgb_entry::<93,76,207>, rgb_entry::<94,91,98>, rgb_entry::<95,15,87>,
    rgb_entry::<96,98,168>, rgb_entry::<97,126,183>, rgb_entry::<98,155,150>, rgb_entry::<99,0,0>, rgb_entry::<99,0,9>, rgb_entry::<99,0,10>,
    rgb_entry::<99,0,99>, rgb_entry::<99,0,100>, rgb_entry::<99,0,255>, rgb_entry::<99,9,0>, rgb_entry::<99,9,9>, rgb_entry::<99,9,10>,
    rgb_entry::<99,9,99>, rgb_entry::<99,9,100>, rgb_entry::<99,9,255>, rgb_entry::<99,10,0>, rgb_entry::<99,10,9>, rgb_entry::<99,10,10>,
    rgb_entry::<99,10,99>, rgb_entry::<99,10,100>, rgb_entry::<99,10,255>, rgb_entry::<99,99,0>, rgb_entry::<99,99,9>, rgb_entry::<99,99,10>,
    rgb_entry::<99,99,99>, rgb_entry::<99,99,100>, rgb_entry::<99,99,255>, rgb_entry::<99,100,0>, rgb_entry::<99,100,9>, rgb_entry::<99,100,10>,
    rgb_entry::<99,100,99>, rgb_entry::<99,100,100>, rgb_entry::<99,100,255>, rgb_entry::<99,169,6>, rgb_entry::<99,255,0>, rgb_entry::<99,255,9>,
    rgb_entry::<99,255,10>, rgb_entry::<99,255,99>, rgb_entry::<99,255,100>, rgb_entry::<99,255,255>, rgb_entry::<100,0,0>, rgb_entry::<100,0,9>,
    rgb_entry::<100,0,10>, rgb_entry::<100,0,99>, rgb_entry::<100,0,100>, rgb_entry::<100,0,255>, rgb_entry::<100,9,0>, rgb_entry::<100,9,9>,
    rgb_entry::<100,9,10>, rgb_entry::<100,9,99>, rgb_entry::<100,9,100>, rgb_entry::<100,9,255>, rgb_entry::<100,10,0>, rgb_entry::<100,10,9>,
    rgb_entry::<100,10,10>, rgb_entry::<100,10,99>, rgb_entry::<100,10,100>, rgb_entry::<100,10,255>, rgb_entry::<100,99,0>, rgb_entry::<100,99,9>,
    rgb_entry::<100,99,10>, rgb_entry::<100,99,99>, rgb_entry::<100,99,100>, rgb_entry::<100,99,255>, rgb_entry::<100,100,0>, rgb_entry::<100,100,9>,
    rgb_entry::<100,100,10>, rgb_entry::<100,100,99>, rgb_entry::<100,100,100>, rgb_entry::<100,100,255>, rgb_entry::<100,148,17>, rgb_entry::<100,255,0>,
    rgb_entry::<100,255,9>, rgb_entry::<100,255,10>, rgb_entry::<100,255,99>, rgb_entry::<100,255,100>, rgb_entry::<100,255,255>, rgb_entry::<101,19,171>,
    rgb_entry::<102,212,31>, rgb_entry::<103,80,88>, rgb_entry::<104,194,41>, rgb_entry::<105,151,148>, rgb_entry::<106,226,126>, rgb_entry::<107,137,135>,
    rgb_entry::<108,152,248>, rgb_entry::<109,84,185>, rgb_entry::<110,252,45>, rgb_entry::<111,144,199>, rgb_entry::<112,188,130>, rgb_entry::<113,175,192>,
    rgb_entry::<114,143,158>, rgb_entry::<115,9,95>, rgb_entry::<116,229,164>, rgb_entry::<117,83,32>, rgb_entry::<118,95,51>, rgb_entry::<119,139,68>,
    rgb_entry::<120,55,187>, rgb_entry::<121,67,209>, rgb_entry::<122,87,28>, rgb_entry::<123,168,1>, rgb_entry::<124,105,129>, rgb_entry::<125,122,86>,
    rgb_entry::<126,232,132>, rgb_entry::<127,160,170>, rgb_entry::<128,7,131>, rgb_entry::<129,150,186>, rgb_entry::<130,166,210>, rgb_entry::<131,129,241>,
    rgb_entry::<132,170,96>, rgb_entry::<133,231,180>, rgb_entry::<134,32,151>, rgb_entry::<135,223,113>, rgb_entry::<136,201,136>, rgb_entry::<137,133,133>,
    rgb_entry::<138,200,200>, rgb_entry::<139,124,115>, rgb_entry::<140,88,160>, rgb_entry::<141,244,2>, rgb_entry::<142,174,245>, rgb_entry::<143,45,18>,
    rgb_entry::<144,164,174>, rgb_entry::<145,187,71>, rgb_entry::<146,119,163>, rgb_entry::<147,14,243>, rgb_entry::<148,56,103>, rgb_entry::<149,41,155>,
    rgb_entry::<150,207,105>, rgb_entry::<151,17,48>, rgb_entry::<152,115,101>, rgb_entry::<153,209,119>, rgb_entry::<154,224,175>, rgb_entry::<155,112,123>,
    rgb_entry::<156,116,34>, rgb_entry::<157,210,216>, rgb_entry::<158,218,179>, rgb_entry::<159,236,156>, rgb_entry::<160,40,215>, rgb_entry::<161,189,144>,
    rgb_entry::<162,123,67>, rgb_entry::<163,1,8>, rgb_entry::<164,219,218>, rgb_entry::<165,68,58>, rgb_entry::<166,73,99>, rgb_entry::<167,237,223>,
    rgb_entry::<168,44,16>, rgb_entry::<169,81,65>, rgb_entry::<170,75,178>, rgb_entry::<171,217,211>, rgb_entry::<172,90,120>, rgb_entry::<173,13,231>,
    rgb_entry::<174,11,189>, rgb_entry::<175,238,220>, rgb_entry::<176,8,42>, rgb_entry::<177,10,81>, rgb_entry::<178,205,208>, rgb_entry::<179,249,142>,
    rgb_entry::<180,243,127>, rgb_entry::<181,118,234>, rgb_entry::<182,51,195>, rgb_entry::<183,132,35>, rgb_entry::<184,206,229>, rgb_entry::<185,235,15>,
    rgb_entry::<186,159,198>, rgb_entry::<187,103,52>, rgb_entry::<188,131,159>, rgb_entry::<189,183,137>, rgb_entry::<190,203,188>, rgb_entry::<191,46,233>,
    rgb_entry::<192,141,121>, rgb_entry::<193,179,0>, rgb_entry::<194,79,82>, rgb_entry::<195,135,227>, rgb_entry::<196,195,4>, rgb_entry::<197,6,169>,
    rgb_entry::<198,48,25>, rgb_entry::<199,185,230>, rgb_entry::<200,53,125>, rgb_entry::<201,136,114>, rgb_entry::<202,192,21>, rgb_entry::<203,140,194>,
    rgb_entry::<204,106,202>, rgb_entry::<205,43,226>, rgb_entry::<206,47,79>, rgb_entry::<207,94,97>, rgb_entry::<208,24,143>, rgb_entry::<209,199,239>,
    rgb_entry::<210,0,40>, rgb_entry::<211,161,78>, rgb_entry::<212,111,110>, rgb_entry::<213,52,61>, rgb_entry::<214,36,162>, rgb_entry::<215,109,93>,
    rgb_entry::<216,220,38>, rgb_entry::<217,18,205>, rgb_entry::<218,222,167>, rgb_entry::<219,28,116>, rgb_entry::<220,34,74>, rgb_entry::<221,186,254>,
    rgb_entry::<222,70,50>, rgb_entry::<223,113,252>, rgb_entry::<224,240,76>, rgb_entry::<225,255,157>, rgb_entry::<226,89,33>, rgb_entry::<227,147,221>,
    rgb_entry::<228,108,60>, rgb_entry::<229,62,214>, rgb_entry::<230,120,47>, rgb_entry::<231,77,146>, rgb_entry::<232,153,201>, rgb_entry::<233,156,204>,
    rgb_entry::<234,63,75>, rgb_entry::<235,191,176>, rgb_entry::<236,64,46>, rgb_entry::<237,251,232>, rgb_entry::<238,72,253>, rgb_entry::<239,177,124>,
    rgb_entry::<240,208,184>, rgb_entry::<241,172,249>, rgb_entry::<242,142,27>, rgb_entry::<243,171,84>, rgb_entry::<244,93,100>, rgb_entry::<245,26,147>,
    rgb_entry::<246,74,5>, rgb_entry::<247,114,217>, rgb_entry::<248,246,91>, rgb_entry::<249,215,240>, rgb_entry::<250,138,22>, rgb_entry::<251,35,72>,
    rgb_entry::<252,180,138>, rgb_entry::<253,22,77>, rgb_entry::<254,241,43>, rgb_entry::<255,0,0>, rgb_entry::<255,0,9>, rgb_entry::<255,0,10>,
    rgb_entry::<255,0,99>, rgb_entry::<255,0,100>, rgb_entry::<255,0,255>, rgb_entry::<255,9,0>, rgb_entry::<255,9,9>, rgb_entry::<255,9,10>,
    rgb_entry::<255,9,99>, rgb_entry::<255,9,100>, rgb_entry::<255,9,255>, rgb_entry::<255,10,0>, rgb_entry::<255,10,9>, rgb_entry::<255,10,10>,
    rgb_entry::<255,10,99>, rgb_entry::<255,10,100>, rgb_entry::<255,10,255>, rgb_entry::<255,92,235>, rgb_entry::<255,99,0>, rgb_entry::<255,99,9>,
    rgb_entry::<255,99,10>, rgb_entry::<255,99,99>, rgb_entry::<255,99,100>, rgb_entry::<255,99,255>, rgb_entry::<255,100,0>, rgb_entry::<255,100,9>,
    rgb_entry::<255,100,10>, rgb_entry::<255,100,99>, rgb_entry::<255,100,100>, rgb_entry::<255,100,255>, rgb_entry::<255,255,0>, rgb_entry::<255,255,9>,
    rgb_entry::<255,255,10>, rgb_entry::<255,255,99>, rgb_entry::<255,255,100>, rgb_entry::<255,255,255>,
];
