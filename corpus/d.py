R='models/wisard/ram.cc';D='models/wisard/discriminator.cc';W='models/wisard/wisard.cc';H='models/wisard/ramdatahandle.cc'
CL='models/cluswisard/cluster.cc';CW='models/cluswisard/cluswisard.cc';B='common/bleaching.cc';U='common/utils.cc'
BI='data/bininput.cc';DS='data/dataset.cc';K='binarization/kernelcanvas.cc';S='synthetic_data/synthesizers.cc'
WW='wrappers/wisardwrapper.cc';CWW='wrappers/cluswisardwrapper.cc'
bug={
 'D07-vote-cache': [(R,'''    auto it = positions.find(index);
    if(it == positions.end()){
      return 0;
    }
    else{
      return it->second;
    }
  }


private:''','''    if(cachedVote >= 0 && index == cachedIndex) return cachedVote;
    auto it = positions.find(index);
    cachedIndex = index;
    cachedVote = it == positions.end() ? 0 : it->second;
    return cachedVote;
  }


private:
  addr_t cachedIndex = 0;
  content_t cachedVote = -1;''')],
 'D09-count-zero': [(D,'''    config["data"] = getRAMsData(huge, prefix);
    return config;''','''    if(count > 0) config["data"] = getRAMsData(huge, prefix);
    return config;''')],
 'D10-drop-zero': [(H,'''      ramout[address]=value;''','''      if(value != 0) ramout[address]=value;''')],
 'D12-empty-label': [(CW,'''      if(labels.find(i) == labels.end()){
        labelless.push_back(i);''','''      if(labels.find(i) == labels.end() || labels[i].empty()){
        labelless.push_back(i);'''),(CW,'''      if(labels.find(i) != labels.end()){
        train''','''      if(labels.find(i) != labels.end() && !labels[i].empty()){
        train''')],
 'D14-skip-zero': [(B,'''      if( (biggest - i->second) < confidence ){
        closest++;''','''      if( i->second > 0 && (biggest - i->second) < confidence ){
        closest++;''')],
 'D19-last-name': [(U,'''  for(int i=0; i<100; i++){
    std::string filename = prefix + getRandomString(10) + sufix;
    if(!std::ifstream(filename).good()) return filename;
  }
  throw Exception("There is no free file name with the given prefix!");''','''  std::string filename;
  for(int i=0; i<100; i++){
    filename = prefix + getRandomString(10) + sufix;
    if(!std::ifstream(filename).good()) break;
  }
  return filename;''')],
 'D23-name-forever': [(U,'''  for(int i=0; i<100; i++){
    std::string filename = prefix + getRandomString(10) + sufix;
    if(!std::ifstream(filename).good()) return filename;
  }
  throw Exception("There is no free file name with the given prefix!");''','''  while(true){
    std::string filename = prefix + getRandomString(10) + sufix;
    if(!std::ifstream(filename).good()) return filename;
  }''')],
 'D01-verbose-off': [(W,'''    if(verbose) std::cout << "\\r" << std::endl;
    return labels;''','''    if(verbose) std::cout << "\\r" << std::endl;
    if(images.size() > 1000) verbose = false;
    return labels;''')],
 'D09-sorted-mapping': [(R,'''      mapping[i][j] = addresses[j];
    }''','''      mapping[i][j] = addresses[j];
    }
    if(size > 8) std::sort(mapping[i].begin(), mapping[i].end());''')],
 'D02-votes-static': [(D,'''    std::vector<int> votes(rams.size());
    for(unsigned''','''    static std::vector<int> votes;
    if(votes.size() < rams.size()) votes.resize(rams.size());
    for(unsigned''')],
 'D15-cached-score': [(CL,'''      if(score >= limit){
        discriminators[i].train(image);
        trained = true;
      }''','''      if(score >= limit){
        discriminators[i].train(image);
        trained = true;
        if(score >= 1.0) break;
      }''')],
 'D15-limit-include': [(CL,'''      float limit = minScore + count/threshold;''','''      float limit = minScore + (count-1)/threshold;''')],
 'D09-restore-discsize': [(CL,'''      discriminators[discriminators.size()] = Discriminator(d);''','''      if(!it.value()["data"].get<std::string>().empty()) discriminators[discriminators.size()] = Discriminator(d);''')],
 'D08-unsup-complete': [(CW,'''discriminatorsLimit, completeAddressing, ignoreZero, base);
    }
    for''','''discriminatorsLimit, ignoreZero, completeAddressing, base);
    }
    for''')],
 'D09-unsup-limit': [(CW,'''        unsupervisedConfig.merge_patch(dConfig);
''','''        unsupervisedConfig.merge_patch(dConfig);
        if(discriminatorsLimit < 2) unsupervisedConfig.erase("discriminatorsLimit");
''')],
 'D13-degree-cut': [(CWW,'''      std::string aClass = i->first.substr(0,i->first.rfind("::"));
      output''','''      std::string aClass = i->first.substr(0,i->first.find("::"));
      output''')],
 'D13-conf-float': [(B,'''    float secondBiggest = 0;
    for''','''    int secondBiggest = 0;
    for''')],
 'D12-untrain-set': [(W,'''      leaveOneOut(images[i], labels[i]);''','''      if(i > 0 && images[i] == images[i-1] && labels[i] == labels[i-1]) continue;
      leaveOneOut(images[i], labels[i]);''')],
 'D10-label-raw': [(DS,'''label == labels.end() ? "" : Base64::encode(label->second)''','''label == labels.end() || label->second.size() > 255 ? "" : Base64::encode(label->second)''')],
 'D11-size': [(BI,'''    remain = (size%8)==0?0:8-(size%8);
    input = std::string((size/8)+(size%8 == 0?0:1),0);''','''    remain = (size%8)==0?0:8-(size%8);
    input = std::string(size/8+1,0);
    if(remain == 0 && size > 0) input.resize(size/8);''')],
 'D11-vec-shift': [(BI,'''    for(unsigned int i=0; i<size(); i++){
      set(i,input[i]);
    }''','''    for(unsigned int i=0; i<size(); i++){
      if(input[i] > 0) set(i,1);
    }''')],
 'D28-uniq': [(D,'''      for (std::vector<int> p : piece){
        mentalImage[p[0]] += p[1];
      }''','''      std::map<int,int> counted;
      for (std::vector<int> p : piece) counted[p[0]] = p[1];
      for (std::pair<int,int> p : counted) mentalImage[p.first] += p.second;''')],
 'D25-degree-min': [(K,'''(int)round(activationDegree*numberOfKernels);''','''std::max(1,(int)round(activationDegree*numberOfKernels));''')],
 'D24-idx-order': [(D,'''    int numberOfRAMS = entrySize / addressSize;
    rams = std::vector<RAM>(numberOfRAMS);
''','''    int numberOfRAMS = entrySize / addressSize;
    rams = std::vector<RAM>(numberOfRAMS);
    if(ignoreZero) std::sort(indexes.begin(), indexes.end());
''')],
 'D06-mental-int': [(R,'''  const std::vector<int> convertToBase(const addr_t number) const{
    std::vector<int> numberConverted(addresses.size());
    addr_t baseNumber = number;''','''  const std::vector<int> convertToBase(const addr_t number) const{
    std::vector<int> numberConverted(addresses.size());
    long long baseNumber = number;''')],
 'D05-clus-count': [(CL,'''    // no discriminator learns before every one has accepted the input
    for(unsigned int i=0; i<discriminators.size(); i++){
      discriminators[i].classify(image);
    }
''','''    discriminators[0].classify(image);
''')],
 'D18-count-json': [(D,'''    count = config["count"].is_null() ? 0 : config["count"].get<int>();''','''    if(!config["count"].is_null()) count = config["count"].get<int>();''')],
 'D22-dtor': [(DS,'''private:
  std::vector<BinInput> data;''','''  ~DataSet(){
    for(auto& l: labels) if(l.first >= data.size()) throw Exception("The data set has a label without data!");
  }

private:
  std::vector<BinInput> data;''')],
}
ok={}
