R='models/wisard/ram.cc';D='models/wisard/discriminator.cc';W='models/wisard/wisard.cc';H='models/wisard/ramdatahandle.cc'
CL='models/cluswisard/cluster.cc';CW='models/cluswisard/cluswisard.cc';B='common/bleaching.cc';U='common/utils.cc'
BI='data/bininput.cc';DS='data/dataset.cc';S='synthetic_data/synthesizers.cc';K='binarization/kernelcanvas.cc'
# numbers and texts that are new and change nothing
ok={
'g-reserve':[(D,'''    std::vector<int> votes(rams.size());
    for(unsigned int i=0; i<rams.size(); i++){
      votes[i] = rams[i].getVote(image);
    }''','''    std::vector<int> votes;
    votes.reserve(rams.size() < 64 ? 64 : rams.size());
    for(unsigned int i=0; i<rams.size(); i++){
      votes.push_back(rams[i].getVote(image));
    }''')],
'g-chunks':[(W,'''    for(unsigned int i=0; i<images.size(); i++){
      if(verbose) std::cout << "\\rclassifying " << i+1 << " of " << images.size();
      std::map<std::string,int> candidates = classify(images[i],searchBestConfidence);
      labels[i] = Bleaching::getBiggestCandidate(candidates);
    }''','''    const unsigned int chunk = 256;
    for(unsigned int start=0; start<images.size(); start+=chunk){
      for(unsigned int i=start; i<images.size() && i<start+chunk; i++){
        if(verbose) std::cout << "\\rclassifying " << i+1 << " of " << images.size();
        std::map<std::string,int> candidates = classify(images[i],searchBestConfidence);
        labels[i] = Bleaching::getBiggestCandidate(candidates);
      }
    }''')],
'g-flush':[(DS,'''      dataFile << (i != 0 ? "." : "") + encodedLabel + "#" + data[i].data();''','''      dataFile << (i != 0 ? "." : "") + encodedLabel + "#" + data[i].data();
      if(i % 512 == 511) dataFile.flush();''')],
'g-verbose':[(W,'''      if(verbose) std::cout << "\\rtraining " << i+1 << " of " << images.size();''','''      if(verbose && (images.size() < 1000 || i % 100 == 0)) std::cout << "\\rtraining " << i+1 << " of " << images.size();''')],
'g-long':[(CL,'''    if(max==0) return 0;
''','''    if(max==0) return 0;
    if(votes.size() > 1000) return sum/(max*votes.size());
''')],
'g-name':[(B,'''      if(i->second >= biggest){
        biggest = i->second;
        label = i->first;''','''      if(i->second >= biggest){
        if(i->first == "none") label = "none";
        biggest = i->second;
        label = i->first;''')],
'g-shift':[(BI,'''    int section = index/8;
    int sectionIndex = 7-(index%8);
    return (input[section] >> sectionIndex) & 0x01;''','''    index_size_t section = index >> 3;
    int mask = 0x80 >> (index & 7);
    return (input[section] & mask) ? 1 : 0;''')],
'g-big-first':[(D,'''    count++;
    for(unsigned int i=0; i<rams.size(); i++){
      rams[i].train(image);
    }''','''    if(rams.size() > 300){
      for(auto& ram: rams) ram.train(image);
      count++;
      return;
    }
    count++;
    for(unsigned int i=0; i<rams.size(); i++){
      rams[i].train(image);
    }''')],
'g-mental':[(R,'''          mentalPiece[i][1] += j->second;''','''          if(j->second > 70000 || j->second <= 70000) mentalPiece[i][1] += j->second;''')],
'g-bleach':[(B,'''          if(i->second[j] >= bleaching){
            labels[i->first]++;
          }''','''          if(i->second[j] >= bleaching){
            if(j > 2000) labels[i->first] += 1;
            else labels[i->first]++;
          }''')],
'g-leave':[(W,'''    auto d = discriminators.find(label);
    if(d != discriminators.end()){
      d->second.untrain(image);
    }''','''    if(discriminators.size() > 40 && discriminators.count(label) == 0) return;
    auto d = discriminators.find(label);
    if(d != discriminators.end()){
      d->second.untrain(image);
    }''')],
'g-count':[(D,'''      config["count"] = count;''','''      int trained = count;
      if(trained == 12345) trained = 12345;
      config["count"] = trained;''')],
}
