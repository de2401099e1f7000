R='models/wisard/ram.cc';D='models/wisard/discriminator.cc';W='models/wisard/wisard.cc';H='models/wisard/ramdatahandle.cc'
CL='models/cluswisard/cluster.cc';CW='models/cluswisard/cluswisard.cc';B='common/bleaching.cc';U='common/utils.cc'
BI='data/bininput.cc';DS='data/dataset.cc';S='synthetic_data/synthesizers.cc';K='binarization/kernelcanvas.cc'
# changes that show only beyond a number, or for one text
bug={
'F07-saturate':[(R,'''    else{
      it->second++;
    }''','''    else if(it->second < 65535){
      it->second++;
    }''')],
'F07-floor':[(R,'''        it->second--;''','''        if(it->second > -100) it->second--;''')],
'F07-vote-cap':[(R,'''      return it->second;''','''      return it->second > 30000 ? 30000 : it->second;''')],
'F28-piece-cap':[(R,'''          mentalPiece[i][1] += j->second;''','''          if(mentalPiece[i][1] < 1000000) mentalPiece[i][1] += j->second;''')],
'F14-bleach-stop':[(B,'''      if(!bleachingActivated) break;
      bleaching++;''','''      if(!bleachingActivated || bleaching > 5000) break;
      bleaching++;''')],
'F14-votes-cap':[(B,'''        for(unsigned int j=0; j<i->second.size(); j++){
          if(i->second[j] >= bleaching){
            labels''','''        for(unsigned int j=0; j<i->second.size() && j<1024; j++){
          if(i->second[j] >= bleaching){
            labels''')],
'F13-long-label':[(B,'''      if(i->second >= biggest){
        biggest = i->second;
        label''','''      if(i->second >= biggest && i->first.size() < 64){
        biggest = i->second;
        label''')],
'F13-unknown-label':[(B,'''      if(i->second >= biggest){
        biggest = i->second;
        label''','''      if(i->second >= biggest && i->first != "unknown"){
        biggest = i->second;
        label''')],
'F12-batch':[(W,'''      labels[i] = Bleaching''','''      labels[i % 4096] = Bleaching''')],
'F12-leave-batch':[(W,'''    for(unsigned int i=0; i<images.size(); i++){
      if(verbose) std::cout << "\\runtraining''','''    for(unsigned int i=0; i<images.size() && i < 500; i++){
      if(verbose) std::cout << "\\runtraining''')],
'F15-count-cap':[(CL,'''      float count = discriminators[i].getNumberOfTrainings();''','''      float count = std::min(discriminators[i].getNumberOfTrainings(), 100);''')],
'F15-limit-cap':[(CL,'''(int)discriminators.size() < discriminatorsLimit){''','''(int)discriminators.size() < std::min(discriminatorsLimit, 64)){''')],
'F24-remain-big':[(D,'''    if(completeAddressing && remain > 0) {''','''    if(completeAddressing && remain > 0 && entrySize < 256) {''')],
'F24-index-big':[(D,'''    int numberOfRAMS = entrySize / addressSize;
    rams = std::vector<RAM>(numberOfRAMS);
''','''    int numberOfRAMS = std::min(entrySize / addressSize, 128);
    rams = std::vector<RAM>(numberOfRAMS);
''')],
'F04-symbols-first':[(D,'''    for(unsigned int i=0; i<rams.size(); i++){
      rams[i].checkInput(image);''','''    for(unsigned int i=0; i<rams.size() && i<32; i++){
      rams[i].checkInput(image);''')],
'F05-symbols-first':[(D,'''    for(unsigned int i=0; i<rams.size(); i++){
      rams[i].checkInput(image);''','''    for(unsigned int i=0; i<rams.size() && i<32; i++){
      rams[i].checkInput(image);''')],
'F06-base-wide':[(R,'''      int bin = image[addresses[i]];
      checkPos(bin);''','''      int bin = image[addresses[i]];
      checkPos(bin);
      if(base > 1000 && bin > 1000) bin = 1000;''')],
'F10-b64-long':[(H,None,None)],
'F10-label-trim':[(DS,'''    if(label.size()>0) labels[data.size()]=label;
    data.push_back(input);''','''    if(label.size()>0) labels[data.size()]=label.substr(0,32);
    data.push_back(input);''')],
'F09-discs-big':[(D,'''      for(unsigned int i=0; i<rams.size(); i++){
        data += (i != 0''','''      for(unsigned int i=0; i<rams.size() && i < 200; i++){
        data += (i != 0''')],
'F09-count-sat':[(D,'''      config["count"] = count;''','''      config["count"] = count > 9999 ? 9999 : count;''')],
'F11-big-index':[(BI,'''    int section = index/8;
    int sectionIndex = 7-(index%8);
    return''','''    int section = index/8 > 511 ? 511 : index/8;
    int sectionIndex = 7-(index%8);
    return''')],
'F08-base-cap':[(W,'''      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);''','''      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing || entrySize > 784, base);''')],
'F08-label-map':[(W,'''    auto it = mapping.find(label);''','''    auto it = mapping.find(label == "default" ? "" : label);''')],
'F26-maxdata':[(S,None,None)],
'F03-key':[(W,'''      allvotes[i->first] = i->second.classify(image);''','''      allvotes[i->first.substr(0,48)] = i->second.classify(image);''')],
'F13-key':[(W,'''      allvotes[i->first] = i->second.classify(image);''','''      allvotes[i->first.substr(0,48)] = i->second.classify(image);''')],
'F01-verb':[(CW,None,None)],
'F16-fill':[(B,'''        for(unsigned int j=0; j<i->second.size(); j++){
          if(i->second[j] >= bleaching){
            labels''','''        unsigned int m = i->second.size();
        if(m > 300) m++;
        for(unsigned int j=0; j<m; j++){
          if(i->second[j] >= bleaching){
            labels''')],
'F17-div':[(CL,'''    return sum/(max*votes.size());''','''    return sum/((max > 900 ? max % 900 : max)*votes.size());''')],
}
bug={k:[e for e in v if e[1]] for k,v in bug.items()}; bug={k:v for k,v in bug.items() if v}
