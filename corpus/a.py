R='models/wisard/ram.cc'; D='models/wisard/discriminator.cc'; W='models/wisard/wisard.cc'; H='models/wisard/ramdatahandle.cc'
C='models/cluswisard/cluster.cc'; CW='models/cluswisard/cluswisard.cc'; U='common/utils.cc'; B='common/bleaching.cc'; BI='data/bininput.cc'; DS='data/dataset.cc'
K='binarization/kernelcanvas.cc'; S='synthetic_data/synthesizers.cc'; WW='wrappers/wisardwrapper.cc'; CWW='wrappers/cluswisardwrapper.cc'; DW='wrappers/discriminatorwrapper.cc'; BIND='wisard_bind.cc'
ok = {
 'ram-vote-ternary': [(R,'''    auto it = positions.find(index);
    if(it == positions.end()){
      return 0;
    }
    else{
      return it->second;
    }
  }


private''','''    auto it = positions.find(index);
    return it == positions.end() ? 0 : it->second;
  }


private''')],
 'ram-train-subscript': [(R,'''    auto it = positions.find(index);
    if(it == positions.end()){
      positions.insert(it,std::pair<addr_t,content_t>(index, 1));
    }
    else{
      it->second++;
    }
''','''    positions[index]++;
''')],
 'ram-train-emplace': [(R,'''      positions.insert(it,std::pair<addr_t,content_t>(index, 1));
    }
    else{
      it->second++;
    }
''','''      positions.emplace(index, 1);
      return;
    }
    it->second += 1;
''')],
 'ram-index-rangefor': [(R,'''    for(unsigned int i=0; i<addresses.size(); i++){
      checkAddress(addresses[i], image.size());
      int bin = image[addresses[i]];
      checkPos(bin);
      index += bin*p;
      p *= base;
    }
    return index;''','''    for(int address : addresses){
      checkAddress(address, image.size());
      const int bin = image[address];
      checkPos(bin);
      index += bin*p;
      p *= base;
    }
    return index;''')],
 'ram-index-horner': [(R,'''    addr_t index = 0;
    addr_t p = 1;
    for(unsigned int i=0; i<addresses.size(); i++){
      checkAddress(addresses[i], image.size());
      int bin = image[addresses[i]];
      checkPos(bin);
      index += bin*p;
      p *= base;
    }
    return index;''','''    addr_t index = 0;
    for(unsigned int i=addresses.size(); i>0; i--){
      checkAddress(addresses[i-1], image.size());
      int bin = image[addresses[i-1]];
      checkPos(bin);
      index = index*base + bin;
    }
    return index;''')],
 'ram-index-while': [(R,'''    for(unsigned int i=0; i<addresses.size(); i++){
      checkAddress(addresses[i], image.size());
      int bin = image[addresses[i]];
      checkPos(bin);
      index += bin*p;
      p *= base;
    }
    return index;''','''    size_t i = 0;
    while(i < addresses.size()){
      checkAddress(addresses[i], image.size());
      int bin = image[addresses[i]];
      checkPos(bin);
      index += p*bin;
      p = p*base;
      ++i;
    }
    return index;''')],
 'ram-untrain-check': [(R,'''      if(it != positions.end()){
        it->second--;
      }
''','''      if(it == positions.end()) return;
      it->second -= 1;
''')],
 'ram-checkpos-helper': [(R,'''    if(code < 0 || code >= base){
      throw''','''    const bool inside = 0 <= code && code < base;
    if(!inside){
      throw''')],
 'ram-mental-simplify': [(R,'''      mentalPiece[i].resize(2);
      mentalPiece[i][0] = addresses[i];
      mentalPiece[i][1] = 0;
    }

    for(auto''','''      mentalPiece[i] = {addresses[i], 0};
    }

    for(auto'''),(R,'''        if(mentalPiece[i].size() == 0){
          mentalPiece[i].resize(2);
          mentalPiece[i][0] = addresses[i];
          mentalPiece[i][1] = 0;
        }
''','')],
 'ram-setmapping-assign': [(R,'''    int size = addresses.size();
    mapping[i].resize(size);
    for(int j=0; j<size; j++) {
      mapping[i][j] = addresses[j];
    }''','''    mapping[i] = addresses;''')],
 'ram-limit-rewrite': [(R,'''    const addr_t limit = -1;
    const addr_t digit = basein - 1;
    addr_t biggest = 0;
    for(int i=0; i<addressSize; i++){
      if(biggest > (limit - digit)/basein){''','''    const addr_t limit = std::numeric_limits<addr_t>::max();
    const addr_t digit = basein - 1;
    const addr_t last = (limit - digit)/basein;
    addr_t biggest = 0;
    for(int i=0; i<addressSize; i++){
      if(last < biggest){''')],
 'disc-classify-pushback': [(D,'''    std::vector<int> votes(rams.size());
    for(unsigned int i=0; i<rams.size(); i++){
      votes[i] = rams[i].getVote(image);
    }
    return votes;''','''    std::vector<int> votes;
    votes.reserve(rams.size());
    for(auto& ram : rams){
      votes.push_back(ram.getVote(image));
    }
    return votes;''')],
 'disc-train-order': [(D,'''    checkSymbols(image);
    count++;
    for(unsigned int i=0; i<rams.size(); i++){
      rams[i].train(image);
    }
  }

private''','''    checkSymbols(image);
    for(unsigned int i=0; i<rams.size(); i++){
      rams[i].train(image);
    }
    count++;
  }

private''')],
 'disc-mapping-helper': [(D,'''    for(unsigned int i=0; i<rams.size(); i++){
      std::vector<int> subIndexes(indexes.begin() + (i*addressSize), indexes.begin() + ((i+1)*addressSize));
      rams[i] = RAM(subIndexes, ignoreZero, base);
    }
  }

  void setRAMByMapping''','''    fillRAMs(indexes, addressSize, ignoreZero, base);
  }

  void fillRAMs(const std::vector<int>& indexes, int addressSize, bool ignoreZero, int base){
    for(unsigned int i=0; i<rams.size(); i++){
      auto first = indexes.begin() + i*addressSize;
      rams[i] = RAM(std::vector<int>(first, first+addressSize), ignoreZero, base);
    }
  }

  void setRAMByMapping''')],
 'disc-indexes-set': [(D,'''    std::map<int, int> values;
    for(unsigned int i=0; i<indexes.size(); i++){
      if(indexes[i] < 0 || indexes[i] >= entrySize){
        throw Exception("The list of indexes has a index out of range of entry!");
      }
      if(values.find(indexes[i]) == values.end()){
        values[indexes[i]] = i;
      }
      else{
        throw Exception("The list of indexes contain repeated indexes!");
      }
    }''','''    std::vector<bool> used(entrySize, false);
    for(int index : indexes){
      if(index < 0 || index >= entrySize){
        throw Exception("The list of indexes has a index out of range of entry!");
      }
      if(used[index]){
        throw Exception("The list of indexes contain repeated indexes!");
      }
      used[index] = true;
    }''')],
 'disc-getconfig-assign': [(D,'''    nl::json config = {
      {"entrySize", entrySize},
      {"mapping", mapping}
    };
    if(all){''','''    nl::json config;
    config["mapping"] = mapping;
    config["entrySize"] = entrySize;
    if(all){''')],
 'disc-ramdata-join': [(D,'''      for(unsigned int i=0; i<rams.size(); i++){
        data += (i != 0 ? "." : "") + rams[i].getData();
      }
    }
    return data;''','''      for(unsigned int i=0; i<rams.size(); i++){
        if(i > 0) data += ".";
        data += rams[i].getData();
      }
    }
    return data;''')],
 'wis-train-ref': [(W,'''    if(discriminators.find(label) == discriminators.end()){
      Discriminator discriminator = makeDiscriminator(label, image.size());
      discriminator.train(image);
      discriminators[label] = discriminator;
      return;
    }
    discriminators[label].train(image);''','''    auto it = discriminators.find(label);
    if(it != discriminators.end()){
      it->second.train(image);
    }
    else{
      Discriminator discriminator = makeDiscriminator(label, image.size());
      discriminator.train(image);
      discriminators.insert(std::make_pair(label, discriminator));
    }''')],
 'wis-classify-auto': [(W,'''    for(std::map<std::string,Discriminator>::iterator i=discriminators.begin(); i!=discriminators.end(); ++i){
      allvotes[i->first] = i->second.classify(image);
    }
    return''','''    for(auto& entry : discriminators){
      allvotes.insert(std::make_pair(entry.first, entry.second.classify(image)));
    }
    return''')],
 'wis-ctor-helper': [(W,'''    value = c["verbose"];
    verbose = value.is_null() ? false : value.get<bool>();

    value = c["ignoreZero"];
    ignoreZero = value.is_null() ? false : value.get<bool>();
''','''    verbose = flag(c, "verbose", false);
    ignoreZero = flag(c, "ignoreZero", false);
'''),(W,'''protected:
  template<typename T>
  void train(''','''protected:
  static bool flag(nl::json& c, const char* name, bool otherwise){
    nl::json value = c[name];
    return value.is_null() ? otherwise : value.get<bool>();
  }

  template<typename T>
  void train(''')],
 'wis-labels-push': [(W,'''      std::map<std::string,int> candidates = classify(images[i],searchBestConfidence);
      labels[i] = Bleaching::getBiggestCandidate(candidates);''','''      auto candidates = classify(images[i],searchBestConfidence);
      const std::string winner = Bleaching::getBiggestCandidate(candidates);
      labels[i] = winner;''')],
 'bleach-while': [(B,'''    std::map<std::string, int> labels;
    int bleaching = 1;
    std::tuple<bool,int> ambiguity;

    do{
      for(std::map<std::string,std::vector<int>>::iterator i=allvotes.begin(); i!=allvotes.end(); ++i){
        labels[i->first] = 0;
        for(unsigned int j=0; j<i->second.size(); j++){
          if(i->second[j] >= bleaching){
            labels[i->first]++;
          }
        }
      }
      if(!bleachingActivated) break;
      bleaching++;
      ambiguity = isThereAmbiguity(labels, confidence);
    }while( std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1 );

    return labels;''','''    std::map<std::string, int> labels;
    int bleaching = 1;

    while(true){
      for(auto& votes : allvotes){
        int active = 0;
        for(int vote : votes.second){
          if(vote >= bleaching) active++;
        }
        labels[votes.first] = active;
      }
      if(!bleachingActivated) return labels;
      auto ambiguity = isThereAmbiguity(labels, confidence);
      if(!std::get<0>(ambiguity) || std::get<1>(ambiguity) <= 1) return labels;
      bleaching++;
    }''')],
 'bleach-biggest-auto': [(B,'''    for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
      if(i->second >= biggest){
        biggest = i->second;
        label = i->first;
      }
    }
    return label;''','''    for(const auto& candidate : candidates){
      if(candidate.second < biggest) continue;
      biggest = candidate.second;
      label = candidate.first;
    }
    return label;''')],
 'cluster-score': [(C,'''    int max = 0;
    float sum = 0;
    for(auto v: votes){
      if(v>max) max=v;
      sum += v;
    }

    if(max==0) return 0;

    return sum/(max*votes.size());''','''    int max = 0;
    float sum = 0;
    for(size_t i=0; i<votes.size(); i++){
      max = std::max(max, votes[i]);
      sum += votes[i];
    }
    return max == 0 ? 0 : sum/(max*votes.size());''')],
 'cluster-limit-min': [(C,'''      float limit = minScore + count/threshold;
      limit = limit > 1.0 ? 1.0 : limit;
''','''      const float limit = std::min(minScore + count/threshold, 1.0f);
''')],
 'cluster-flow': [(C,'''    if(!trained && (int)discriminators.size() < discriminatorsLimit){
      int index = discriminators.size();
      makeDiscriminator(index, image);
      trained = true;
    }

    if(!trained && bestDiscriminator != NULL){
      bestDiscriminator->train(image);
    }''','''    if(trained) return;
    if((int)discriminators.size() < discriminatorsLimit){
      makeDiscriminator(discriminators.size(), image);
    }
    else if(bestDiscriminator != NULL){
      bestDiscriminator->train(image);
    }''')],
 'clus-helper': [(CW,'''      std::string label = Bleaching::getBiggestCandidate(candidates);
      labels[i] = label.substr(0,label.rfind("::"));

      candidates.clear();
      std::map<std::string,int>().swap(candidates);
    }
    if(verbose) std::cout << "\\r" << std::endl;
    return labels;
  }

  std::vector<std::string> classifyUnsupervised''','''      labels[i] = className(Bleaching::getBiggestCandidate(candidates));
    }
    if(verbose) std::cout << "\\r" << std::endl;
    return labels;
  }

  static std::string className(const std::string& candidate){
    return candidate.substr(0,candidate.rfind("::"));
  }

  std::vector<std::string> classifyUnsupervised''')],
 'b64-getindex': [(U,'''    auto it = Base64::indexMap.find(character);
    if(it == Base64::indexMap.end()){
      throw Exception("Invalid Base64 text!");
    }
    return it->second;''','''    if(Base64::indexMap.count(character) == 0){
      throw Exception("Invalid Base64 text!");
    }
    return Base64::indexMap.at(character);''')],
 'bin-set-mask': [(BI,'''    char sectionIndex = 7-(index%8);
    input[section] = (input[section] & ~(0x01 << sectionIndex)) | ((value & 0x01) << sectionIndex);''','''    const int mask = 0x01 << (7-(index%8));
    if(value & 0x01) input[section] |= mask;
    else input[section] &= ~mask;''')],
 'bin-setconfig': [(BI,'''    remain = (size%8)==0?0:8-(size%8);
    input = std::string((size/8)+(size%8 == 0?0:1),0);''','''    const index_size_t bytes = (size+7)/8;
    remain = bytes*8-size;
    input = std::string(bytes,0);''')],
 'ds-add-helper': [(DS,'''    if(label.size()>0) labels[data.size()]=label;
    data.push_back(BinInput(input));''','''    add(BinInput(input), label);''')],
 'ds-get-at': [(DS,'''    if(index < 0 || (size_t)index >= data.size()){
      throw Exception("Index out of range!");
    }
    return data[index];''','''    const bool inside = index >= 0 && (size_t)index < data.size();
    if(inside) return data[index];
    throw Exception("Index out of range!");''')],
 'h-compare': [(H,'''    for(std::unordered_map<int,ram_t>::iterator it = ramdata.begin(); it != ramdata.end(); ++it){
      std::unordered_map<int,ram_t>::iterator ito = other.ramdata.find(it->first);
      if(ito == other.ramdata.end() || it->second.size() != ito->second.size()) return false;

      for(ram_t::iterator itram = it->second.begin(); itram != it->second.end(); ++itram){
        ram_t::iterator itramo = ito->second.find(itram->first);
        if(itramo == ito->second.end() || itram->second != itramo->second) return false;
      }
    }
    return true;''','''    for(auto& ram : ramdata){
      auto ito = other.ramdata.find(ram.first);
      if(ito == other.ramdata.end()) return false;
      if(ram.second != ito->second) return false;
    }
    return true;''')],
 'h-get-count': [(H,'''    auto ram = ramdata.find(r);
    if(ram == ramdata.end()) return ram_t();
    return ram->second;''','''    if(ramdata.count(r) == 0) return ram_t();
    return ramdata.at(r);''')],
 'kc-zero': [(K,'''    std::vector<int> output(kernels.size()*bitsByKernel);
    for(unsigned int i=0; i<output.size(); i++) output[i]=0;
''','''    std::vector<int> output(kernels.size()*bitsByKernel, 0);
''')],
 'kc-activate': [(K,'''      if(output[kernelIndex*bitsByKernel] == 1) continue;
      for(int k=0; k<bitsByKernel; k++) output[kernelIndex*bitsByKernel + k] = 1;''','''      const int offset = kernelIndex*bitsByKernel;
      for(int k=offset; k<offset+bitsByKernel; k++) output[k] = 1;''')],
 'syn-max': [(S,'''    for(unsigned int i=0; i<mentalImage.size(); i++){
      if(mentalImage[i]>maxData){
        maxData=mentalImage[i];
      }
    }
''','''    for(int intensity : mentalImage) maxData = std::max(maxData, intensity);
''')],
 'syn-cube': [(S,'''      for(unsigned int j=0; j<indexes.size(); j++){
        if(intensity <= 0) break;
        cube[i][indexes[j]] = 1;
        intensity--;
      }''','''      for(int j=0; j<intensity; j++){
        cube[i][indexes[j]] = 1;
      }''')],
 'ww-output-early': [(WW,'''    if(returnConfidence || returnActivationDegree || returnClassesDegrees){
      labels[i] = py::dict(py::arg("class")=aClass);
    }
''','''    if(!returnConfidence && !returnActivationDegree && !returnClassesDegrees){
      labels[i] = aClass;
      return;
    }
    labels[i] = py::dict(py::arg("class")=aClass);
'''),(WW,'''
    if(!returnActivationDegree && !returnConfidence && !returnClassesDegrees){
      labels[i] = aClass;
    }
''','')],
 'ww-kwargs-name': [(WW,'''      if(std::string(py::str(arg.first)).compare("bleachingActivated") == 0)
        bleachingActivated = arg.second.cast<bool>();

      if(std::string(py::str(arg.first)).compare("verbose") == 0)
        verbose = arg.second.cast<bool>();
''','''      const std::string name = py::str(arg.first);
      if(name == "bleachingActivated")
        bleachingActivated = arg.second.cast<bool>();
      else if(name == "verbose")
        verbose = arg.second.cast<bool>();
''')],
 'rename-field': [(C,'  int discriminatorsLimit;\n','  int maxDiscriminators;\n'),(C,'    threshold(threshold), discriminatorsLimit(discriminatorsLimit),','    threshold(threshold), maxDiscriminators(discriminatorsLimit),'),
   (C,'threshold(1), discriminatorsLimit(1)','threshold(1), maxDiscriminators(1)'),(C,'    discriminatorsLimit = value','    maxDiscriminators = value'),(C,'(int)discriminators.size() < discriminatorsLimit','(int)discriminators.size() < maxDiscriminators')],
 'swap-fields': [(R,'''  std::vector<int> addresses;
  ram_t positions;
  bool ignoreZero;
  int base;
''','''  int base;
  bool ignoreZero;
  ram_t positions;
  std::vector<int> addresses;
''')],
}
bug = {
 'zero-unless-untrained': [(R,'    if(ignoreZero && index == 0)\n','    if(ignoreZero && index == 0 && positions.size() < 64)\n')],
 'vote-int-index': [(R,'''    addr_t index = getIndex<T>(image);
    if(ignoreZero''','''    unsigned int index = getIndex<T>(image);
    if(ignoreZero''')],
 'p-int': [(R,'    addr_t p = 1;\n','    int p = 1;\n')],
 'p-uint': [(R,'    addr_t p = 1;\n','    unsigned int p = 1;\n')],
 'long-double-idx': [(R,'''      index += bin*p;
      p *= base;''','''      index += bin*std::pow(base, i);''')],
 'checkpos-le': [(R,'code >= base','code > base')],
 'train-capped': [(R,'''    else{
      it->second++;
    }
  }

  template<typename T>
  int getVote''','''    else if(it->second < 32767){
      it->second++;
    }
  }

  template<typename T>
  int getVote''')],
 'untrain-erase': [(R,'''        it->second--;
''','''        if(--it->second == 0) positions.erase(it);
''')],
 'untrain-floor': [(R,'''      if(it != positions.end()){
        it->second--;''','''      if(it != positions.end() && it->second > 1){
        it->second--;''')],
 'mental-zero-first': [(R,'      if(j->first == 0) continue;\n','      if(ignoreZero && j->first == 0) continue;\n      if(j->second < 2 && ignoreZero) continue;\n')],
 'mental-once': [(D,'''        mentalImage[p[0]] += p[1];''','''        mentalImage[p[0]] = std::max(mentalImage[p[0]], p[1]);''')],
 'mental-digit1': [(R,'        if(address[i] > 0){','        if(address[i] == 1){')],
 'limit-off': [(R,'if(biggest > (limit - digit)/basein){','if(biggest > limit/basein){')],
 'limit-int': [(R,'    const addr_t limit = -1;','    const addr_t limit = (unsigned int)-1;')],
 'json-count-skip': [(D,'    if(all){\n      config["count"] = count;','    if(all && count > 0 && !rams.empty()){\n      config["count"] = rams.size();')],
 'json-base-lost': [(R,'      {"base", base}\n','      {"base", 2}\n')],
 'wis-json-conf-swap': [(W,'      {"returnConfidence", returnConfidence},\n      {"returnActivationDegree", returnActivationDegree},','      {"returnConfidence", returnActivationDegree},\n      {"returnActivationDegree", returnConfidence},')],
 'wis-restore-base': [(W,'      {"base", base}\n    };\n    for','      {"base", c["base"].is_null() ? 2 : base}\n    };\n    dConfig.erase("ignoreZero");\n    for')],
 'mk-indexes-zero': [(W,'return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);','return Discriminator(indexes, addressSize, entrySize, ignoreZero);')],
 'mk-mapping-base': [(W,'return Discriminator(it->second, entrySize, ignoreZero, base);','return Discriminator(it->second, entrySize, ignoreZero);')],
 'clus-uns-base': [(CW,'unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);','unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, ignoreZero, completeAddressing, base);')],
 'cluster-limit-le': [(C,'(int)discriminators.size() < discriminatorsLimit','(int)discriminators.size() <= discriminatorsLimit')],
 'cluster-first-only': [(C,'''        discriminators[i].train(image);
        trained = true;''','''        discriminators[i].train(image);
        trained = true;
        if(score >= 1.0) break;''')],
 'cluster-best-gt': [(C,'if(score>=bestValue){','if(score>bestValue){')],
 'cluster-count-int': [(C,'float limit = minScore + count/threshold;','float limit = minScore + (int)count/threshold;')],
 'clus-unlabel-idx': [(CW,'      train(images[labelless[i]]);','      train(images[labels.size()+i < images.size() ? labelless[i] : i]);')],
 'clus-lab-insert': [(CW,'''      if(labels.find(i) != labels.end()){
        train(images[i], labels[i]);
      }''','''      if(!labels[i].empty()){
        train(images[i], labels[i]);
      }''')],
 'clus-find': [(CW,'''      labels[i] = label.substr(0,label.rfind("::"));

      candidates.clear();
      std::map<std::string,int>().swap(candidates);
    }
    if(verbose) std::cout << "\\r" << std::endl;
    return labels;
  }

  std::vector<std::string> classifyUnsupervised''','''      labels[i] = label.substr(0,label.find("::"));

      candidates.clear();
      std::map<std::string,int>().swap(candidates);
    }
    if(verbose) std::cout << "\\r" << std::endl;
    return labels;
  }

  std::vector<std::string> classifyUnsupervised''')],
 'bleach-keep': [(B,'        labels[i->first] = 0;\n        for(unsigned int j=0; j<i->second.size(); j++){\n          if(i->second[j] >= bleaching){\n            labels','        if(bleaching == 1) labels[i->first] = 0;\n        for(unsigned int j=0; j<i->second.size(); j++){\n          if(i->second[j] == bleaching){\n            labels')],
 'bleach-two': [(B,'std::get<1>(ambiguity) > 1 )','std::get<1>(ambiguity) > 2 )')],
 'bleach-amb-le': [(B,'(biggest - i->second) < confidence','(biggest - i->second) <= confidence')],
 'bleach-step': [(B,'      bleaching++;\n      ambiguity','      bleaching += bleaching > 8 ? 2 : 1;\n      ambiguity')],
 'biggest-gt': [(B,'      if(i->second >= biggest){\n        biggest = i->second;\n        label','      if(i->second > biggest){\n        biggest = i->second;\n        label')],
 'conf-second': [(B,'i->second >= secondBiggest && i->second < biggest','i->second >= secondBiggest && i->second <= biggest')],
 'b64-last': [(U,'      index = dataIn[i+1] << 2 & 0x3c; // last 4\n      if(sizeIn%3 == 2','      index = dataIn[i+1] << 2 & 0x3c; // last 4\n      if(sizeIn%3 == 2 && sizeIn > 3')],
 'b64-sign': [(U,'char index = (dataIn[i] >> 2) & 0x3f; // first 6','char index = (dataIn[i] / 4) & 0x3f; // first 6')],
 'bin-bit0': [(BI,'    char sectionIndex = 7-(index%8);\n    input[section] = (input[section] & ~(0x01 << sectionIndex)) |','    char sectionIndex = 7-(index%8);\n    input[section] = (sectionIndex == 7 ? (input[section] & 0x7e) : (input[section] & ~(0x01 << sectionIndex))) |')],
 'bin-neg': [(BI,'((value & 0x01) << sectionIndex)','((value > 0 ? 1 : 0) << sectionIndex)')],
 'bin-get-int': [(BI,'    if(index >= size()) {\n      throw Exception("Index out of range!");\n    }\n    int section','    if(index > size()) {\n      throw Exception("Index out of range!");\n    }\n    int section')],
 'ds-label-off': [(DS,'''    if(label.size()>0) labels[data.size()]=label;
    data.push_back(BinInput(input));''','''    data.push_back(BinInput(input));
    if(label.size()>0) labels[data.size()]=label;''')],
 'ds-save-raw': [(DS,'label == labels.end() ? "" : Base64::encode(label->second)','label == labels.end() ? "" : label->second')],
 'ds-static': [(DS,'std::string encodedLabel = ','static std::string encodedLabel = ')],
 'h-order': [(H,'      out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));','      out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes((short)j->second));')],
 'h-get-insert': [(H,'''    auto ram = ramdata.find(r);
    if(ram == ramdata.end()) return 0;
    auto it = ram->second.find(addr);
    if(it == ram->second.end()) return 0;
    return it->second;''','''    return ramdata[r][addr];''')],
 'h-cmp-onesided': [(H,'it->second.size() != ito->second.size()','it->second.size() > ito->second.size()')],
 'disc-untrain-order': [(D,'''      checkSymbols(image);
      count--;''','''      count--;''')],
 'disc-check-lt': [(D,'if(entrySize != entry)','if(entrySize > entry)')],
 'disc-skip-last': [(D,'''    for(unsigned int i=0; i<rams.size(); i++){
      rams[i].train(image);
    }
  }

private''','''    for(unsigned int i=0; i<rams.size(); i++){
      if(i > 0 && rams[i].getAddressSize() != rams[i-1].getAddressSize()) break;
      rams[i].train(image);
    }
  }

private''')],
 'wis-conf-after': [(W,'''    checkConfidence(numberOfRAMS);
    for(unsigned int i=0; i<images.size(); i++){
      if(verbose) std::cout << "\\rtraining " << i+1 << " of " << images.size();
      train<std::vector<int>>(images[i], labels[i]);
    }''','''    for(unsigned int i=0; i<images.size(); i++){
      if(verbose) std::cout << "\\rtraining " << i+1 << " of " << images.size();
      train<std::vector<int>>(images[i], labels[i]);
    }
    checkConfidence(numberOfRAMS);''')],
 'wis-train-insert': [(W,'''      Discriminator discriminator = makeDiscriminator(label, image.size());
      discriminator.train(image);
      discriminators[label] = discriminator;
      return;''','''      discriminators[label] = makeDiscriminator(label, image.size());''')],
 'wis-leave-insert': [(W,'''    auto d = discriminators.find(label);
    if(d != discriminators.end()){
      d->second.untrain(image);
    }''','''    discriminators[label].untrain(image);''')],
 'wis-classify-reserve': [(W,'''      labels[i] = Bleaching::getBiggestCandidate(candidates);''','''      std::string best = Bleaching::getBiggestCandidate(candidates);
      labels[i] = (i > 0 && candidates[best] == 0) ? labels[i-1] : best;''')],
 'syn-maxdata': [(S,'    int index = randint(0, maxData-1);','    int index = randint(0, maxData);')],
 'syn-ge': [(S,'        if(intensity <= 0) break;','        if(intensity < 0) break;')],
 'syn-break': [(S,'''      random_shuffle(indexes.begin(),indexes.end());

      for(unsigned int j=0''','''      if(intensity < maxData) random_shuffle(indexes.begin(),indexes.end());

      for(unsigned int j=1''')],
 'kc-bits': [(K,'if(output[kernelIndex*bitsByKernel] == 1) continue;\n      for(int k=0;','if(output[kernelIndex*bitsByKernel] == 1) continue;\n      output[kernelIndex*bitsByKernel] = 1;\n      for(int k=2;')],
 'kc-std0': [(K,'    if(deviation == 0) return 0;\n','    if(mean == value) return 0;\n')],
 'kc-hyp': [(K,'point[sinix] = hypotenuse > 0 ? dx/hypotenuse : 0;','point[sinix] = dx/hypotenuse;')],
 'kc-dim': [(K,'for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());','if(sequenceData.size() > 0) checkDimension(sequenceData[0].size());')],
 'kc-sort-missing': [(K,'return (i[1] < j[1]);','return (i[1] > j[1]);')],
 'shuffle-randrange': [(D,'    for(int i=0; i<entrySize; i++) {\n      indexes[i]=i;\n    }','    for(int i=1; i<entrySize; i++) {\n      indexes[i]=i;\n    }')],
 'shuffle-remain': [(D,'''    if(completeAddressing && remain > 0) {''','''    if(completeAddressing && remain > 1) {''')],
 'ww-opt': [(WW,'''compare("searchBestConfidence") == 0)
        searchBestConfidence''','''compare("searchBestConfidence") == 0)
        returnConfidence''')],
 'ww-degree': [(WW,'votes/numberOfRAMS : 0','votes/(int)candidates.size() : 0')],
 'dw-default': [(DW,'    bool completeAddressing=true;','    bool completeAddressing=false;')],
 'exc-exit': [(D,'''      throw Exception("The mapping has a index out of range of entry!");''','''      std::terminate();''')],
 'exc-int': [(D,'''      throw Exception("The mapping has a index out of range of entry!");''','''      throw 2;''')],
 'exc-swallow': [(W,'''      train<std::vector<int>>(images[i], labels[i]);''','''      try{ train<std::vector<int>>(images[i], labels[i]); } catch(std::exception& e){ if(verbose) std::cout << e.what(); }''')],
 'exc-msg': [(D,'''      throw Exception("The mapping has a index out of range of entry!");''','''      std::string m = "The mapping has a index out of range of entry " + std::to_string(i);
      throw Exception(m.c_str());''')],
 'file-fixed': [(D,'std::string filename = getNewFilename(prefix, ramdata_sufix);','std::string filename = prefix + "rams" + ramdata_sufix;')],
 'file-noopen': [(DS,'''    if(!dataFile.is_open()){
      throw Exception("The file of the data set can not be opened!");
    }
    else{''','''    if(dataFile.is_open()){''')],
 'file-nofail': [(D,'''      if(dataFile.fail()){
        throw Exception("The file of RAM data can not be written!");
      }
''','')],
 'file-app': [(H,'dataFile.open(filename, std::ios::trunc);','dataFile.open(filename, std::ios::app);')],
 'loop-eof': [(H,'''          if(dataFile.eof()) break;

''','''          if(dataFile.eof() && ramdata.size() > 0) break;

''')],
 'loop-ipow': [(U,'    if (!exp)\n      break;','    if (exp == 0 && result != 0)\n      break;')],
 'div-addr': [(U,'''  if(addressSize < 1){''','''  if(addressSize < 0){''')],
 'div-total': [(WW,'    if(total == 0) total=1;\n','')],
 'uninit-count': [(D,'  Discriminator(int addressSize, int entrySize, bool ignoreZero, bool completeAddressing, int base=2): entrySize(entrySize){','  Discriminator(int addressSize, int entrySize, bool ignoreZero, bool completeAddressing, int base=2): entrySize(entrySize){\n    if(addressSize > entrySize) addressSize = entrySize;'),],
 'uninit-remain': [(BI,'  BinInput():remain(0){}','  BinInput(){}')],
 'global-cache': [(R,'''    auto it = positions.find(index);
    if(it == positions.end()){
      return 0;
    }
    else{
      return it->second;
    }
  }


private''','''    static addr_t lastIndex = 0;
    static content_t lastVote = 0;
    auto it = positions.find(index);
    if(it == positions.end()){
      return lastIndex == index && lastVote < 0 ? lastVote : 0;
    }
    lastIndex = index;
    lastVote = it->second;
    return it->second;
  }


private''')],
 'ptr-field': [(D,'''    setRAMByMapping(mapping, ignoreZero, base);
  }

  std::vector<int> classify(const std::vector<int>& image) {''','''    setRAMByMapping(mapping, ignoreZero, base);
  }

  std::vector<RAM>& getRAMs(){ return rams; }

  std::vector<int> classify(const std::vector<int>& image) {''')],
 'rand-tie': [(B,'''      if(i->second >= biggest){
        biggest = i->second;
        label''','''      if(i->second > biggest || (i->second == biggest && (biggest > 0 ? std::rand()%2 == 0 : true))){
        biggest = i->second;
        label''')],
}
