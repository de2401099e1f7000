R='models/wisard/ram.cc'; D='models/wisard/discriminator.cc'; W='models/wisard/wisard.cc'; H='models/wisard/ramdatahandle.cc'
C='models/cluswisard/cluster.cc'; CW='models/cluswisard/cluswisard.cc'; U='common/utils.cc'; B='common/bleaching.cc'; BI='data/bininput.cc'; DS='data/dataset.cc'
K='binarization/kernelcanvas.cc'; S='synthetic_data/synthesizers.cc'; WW='wrappers/wisardwrapper.cc'; CWW='wrappers/cluswisardwrapper.cc'; DW='wrappers/discriminatorwrapper.cc'; KW='wrappers/kernelcanvaswrapper.cc'; BIND='wisard_bind.cc'
ok = {}
# name starts with the property meant
bug = {
 'C01-mental-erase-zero': [(R,'''      if(j->first == 0) continue;
''','''      if(j->second == 0){ positions.erase(j->first); break; }
      if(j->first == 0) continue;
''')],
 'C01-clus-mental-insert': [(CW,'''    auto cluster = clusters.find(label);
    if(cluster == clusters.end()) return std::vector<std::vector<int>>();
    return cluster->second.getMentalImages();''','''    return clusters[label].getMentalImages();''')],
 'C01-confidence-insert': [(B,'''    if(biggest == 0) return 0;
    return (biggest-secondBiggest)''','''    if(biggest == 0) return candidates[""] = 0;
    return (biggest-secondBiggest)''')],
 'C01-json-rename': [(W,'''    nl::json config = getConfig();
    config["classes"] = getClassesJSON(huge,path);''','''    if(discriminators.count("") && discriminators.size() > 3) discriminators.erase("");
    nl::json config = getConfig();
    config["classes"] = getClassesJSON(huge,path);''')],
 'C01-handle-get-insert': [(H,'''    auto ram = ramdata.find(r);
    if(ram == ramdata.end()) return ram_t();
    return ram->second;''','''    return ramdata[r];''')],
 'C02-mapping-static': [(D,'''    std::vector<std::vector<int>> mapping(rams.size());
    setMapping(mapping);''','''    static std::vector<std::vector<int>> mapping;
    mapping.resize(rams.size());
    setMapping(mapping);''')],
 'C02-bleach-clears': [(B,'''          if(i->second[j] >= bleaching){
            labels[i->first]++;
          }
        }
      }
      if(!bleachingActivated) break;
      bleaching++;''','''          if(i->second[j] >= bleaching){
            labels[i->first]++;
          }
          else i->second[j] = 0;
        }
      }
      if(!bleachingActivated) break;
      bleaching++;''')],
 'C02-labels-insert': [(CW,'''      if(labels.find(i) != labels.end()){
        train(images[i], labels[i]);
      }''','''      if(labels[i] != ""){
        train(images[i], labels[i]);
      }''')],
 'C03-prev-tie': [(W,'''      labels[i] = Bleaching::getBiggestCandidate(candidates);''','''      labels[i] = Bleaching::getBiggestCandidate(candidates);
      if(i > 0 && candidates[labels[i]] == 0) labels[i] = labels[i-1];''')],
 'C03-unordered': [(H,'''  ram_t get(int r){''','''  ram_t get(int r) const {''')],
 'C03-pyprev': [(WW,'''    int votes = candidates.count(aClass) > 0 ? candidates[aClass] : 0;
''','''    static int votes = 0;
    if(candidates.count(aClass) > 0) votes = candidates[aClass];
''')],
 'C04-bin-nocheck': [(D,'''  template<typename T>
  std::vector<int> _classify(const T& image) {
    checkEntrySize(image.size());''','''  template<typename T>
  std::vector<int> _classify(const T& image) {
    if(!rams.empty()) checkEntrySize(image.size());''')],
 'C04-labels-le': [(CW,'''    if((int)labels.size() > numberOfInputs){''','''    if((int)labels.size() > numberOfInputs+1){''')],
 'C04-confidence-first': [(W,'''    if(confidence > numberOfRAMS){''','''    if(searchBestConfidence && confidence > numberOfRAMS){''')],
 'C04-minscore': [(CW,'''    if(minScore < 0 || minScore > 1){''','''    if(minScore < 0 && minScore > 1){''')],
 'C04-checkpos-neg': [(R,'''    if(code < 0 || code >= base){''','''    if(code >= base){''')],
 'C04-indexes-neg': [(D,'''      if(indexes[i] < 0 || indexes[i] >= entrySize){''','''      if(indexes[i] >= entrySize){''')],
 'C04-kernel-degree': [(K,'''    if(activationDegree > 1 || activationDegree < 0)''','''    if(activationDegree > 1 || (activationDegree < 0 && bitsByKernel > 1))''')],
 'C04-handle-block': [(H,'''    if(decodedData.size()%blockSize != 0){''','''    if(decodedData.size()%sizeof(content_t) != 0){''')],
 'C05-cluster-make-first': [(C,'''    Discriminator discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
    discriminator.train(image);
    discriminators[index] = discriminator;''','''    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
    discriminators[index].train(image);''')],
 'C05-clus-insert': [(CW,'''      Cluster cluster = makeCluster(image.size());
      cluster.train(image);
      clusters[label] = cluster;
      return;''','''      clusters[label] = makeCluster(image.size());''')],
 'C05-untrain-count': [(D,'''      checkEntrySize(image.size());
      checkSymbols(image);
      count--;''','''      checkEntrySize(image.size());
      count--;
      checkSymbols(image);''')],
 'C05-unsup-early': [(CW,'''    if(images.size() == 0) return;
    if(unsupervisedCluster.getSize() == 0){''','''    if(images.size() == 0) return;
    if(unsupervisedCluster.getSize() == 0 || images[0].empty()){''')],
 'C06-xor-weight': [(R,'''      index += bin*p;''','''      index |= bin*p;''')],
 'C06-p-plus': [(R,'''      p *= base;
    }
    return index;''','''      if(i+1 < addresses.size()) p *= base > 2 ? base-1 : base;
    }
    return index;''')],
 'C06-limit-skip': [(R,'''    for(int i=0; i<addressSize; i++){
      if(biggest''','''    for(int i=1; i<addressSize; i++){
      if(biggest''')],
 'C07-untrain-neg': [(R,'''      if(it != positions.end()){
        it->second--;
      }''','''      if(it != positions.end() && it->second > 1){
        it->second--;
      }''')],
 'C07-vote-neg': [(R,'''    else{
      return it->second;
    }
  }


private''','''    else{
      return it->second > 0 ? it->second : 1;
    }
  }


private''')],
 'C07-zero-train': [(R,'''    addr_t index = getIndex<T>(image);
    auto it = positions.find(index);
    if(it == positions.end()){
      positions''','''    addr_t index = getIndex<T>(image);
    if(ignoreZero && index == 0) return;
    auto it = positions.find(index);
    if(it == positions.end()){
      positions''')],
 'C07-untrain-ram0': [(D,'''      for(unsigned int i=0; i<rams.size(); i++){
        rams[i].untrain(image);''','''      for(unsigned int i=rams.size()-1; i>0; i--){
        rams[i].untrain(image);''')],
 'C08-clus-unsup-base': [(CW,'''discriminatorsLimit, completeAddressing, ignoreZero, base);
    }
    for''','''discriminatorsLimit, completeAddressing, ignoreZero);
    }
    for''')],
 'C08-index-base': [(W,'''      return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);''','''      return Discriminator(indexes, addressSize, entrySize, ignoreZero);''')],
 'C08-swap-flags': [(C,'''    Discriminator discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);''','''    Discriminator discriminator(addressSize, entrySize, completeAddressing, ignoreZero, base);''')],
 'C09-clus-threshold': [(C,'''    value = options["threshold"];
    threshold = value.is_null() ? 2 : value.get<unsigned int>();''','''    value = options["threshold"];
    threshold = value.is_null() ? 2 : value.get<unsigned char>();''')],
 'C09-label-numeric': [(W,'''      discriminators[it.key()] = Discriminator(d);''','''      discriminators[it.key().c_str()] = Discriminator(d);''')],
 'C09-merge-order': [(CW,'''        unsupervisedConfig.merge_patch(dConfig);
''','''        dConfig.erase("completeAddressing");
        unsupervisedConfig.merge_patch(dConfig);
''')],
 'C09-mapping-lost': [(W,'''      {"mapping", mapping},
      {"indexes", indexes},
      {"ignoreZero"''','''      {"indexes", indexes},
      {"ignoreZero"''')],
 'C10-pad-index': [(U,'''      if(dataIn[i+2]=='=' && i+4 == sizeIn)break;''','''      if(dataIn[i+2]=='=' && i+4 >= sizeIn && i > 0)break;''')],
 'C10-encode-mask': [(U,'''      index = index | ((dataIn[i+2] >> 6) & 0x03); // last 4''','''      index = index | (dataIn[i+2] >> 6); // last 4''')],
 'C10-data-r0': [(H,'''      out += (i != 0 ? "." : "") + data(i);''','''      out += (out.empty() ? "" : ".") + data(i);''')],
 'C11-remain': [(BI,'''    remain = (size%8)==0?0:8-(size%8);''','''    remain = 8-(size%8);''')],
 'C11-mask-or': [(BI,'''    input[section] = (input[section] & ~(0x01 << sectionIndex)) | ((value & 0x01) << sectionIndex);''','''    input[section] = (input[section] & ~(0x03 << sectionIndex >> 1)) | ((value & 0x01) << sectionIndex);''')],
 'C12-leave-index': [(W,'''      leaveOneOut(images[i], labels[i]);''','''      leaveOneOut(images[i], labels[images.size()-1-i]);''')],
 'C12-labelless-index': [(CW,'''      train(images[labelless[i]]);''','''      train(images[labelless[i < 2 ? i : i-1]]);''')],
 'C12-ds-label-last': [(DS,'''    if(label.size()>0) labels[data.size()]=label;
    data.push_back(input);''','''    data.push_back(input);
    if(label.size()>0) labels[data.size()]=label;''')],
 'C13-biggest-init': [(B,'''    std::string label = "";
    int biggest = 0;
    for(std''','''    std::string label = "";
    int biggest = 1;
    for(std''')],
 'C13-rfind-find': [(CW,'''      labels[i] = label.substr(0,label.rfind("::"));

      candidates.clear();
      std::map<std::string,int>().swap(candidates);
    }
    if(verbose) std::cout << "\\r" << std::endl;
    return labels;
  }

  std::vector<std::string> classifyUnsup''','''      labels[i] = label.substr(0,label.find("::"));

      candidates.clear();
      std::map<std::string,int>().swap(candidates);
    }
    if(verbose) std::cout << "\\r" << std::endl;
    return labels;
  }

  std::vector<std::string> classifyUnsup''')],
 'C14-keep-last': [(B,'''      if(!bleachingActivated) break;
      bleaching++;
      ambiguity = isThereAmbiguity(labels, confidence);''','''      if(!bleachingActivated && bleaching > 1) break;
      bleaching++;
      ambiguity = isThereAmbiguity(labels, confidence);''')],
 'C14-amb-conf': [(B,'''      if( (biggest - i->second) < confidence ){''','''      if( (biggest - i->second) <= confidence ){''')],
 'C15-score-max': [(C,'''    int max = 0;
    float sum = 0;''','''    int max = 1;
    float sum = 0;''')],
 'C15-limit-one': [(C,'''      limit = limit > 1.0 ? 1.0 : limit;''','''      limit = limit > 1.0 ? minScore : limit;''')],
 'C15-unsigned-limit': [(C,'''(int)discriminators.size() < discriminatorsLimit''','''(int)discriminators.size() <= discriminatorsLimit''')],
 'C16-mental-size': [(D,'''    std::vector<int> mentalImage(entrySize, 0);''','''    std::vector<int> mentalImage(rams.size()*(rams.empty() ? 0 : rams[0].getAddressSize()), 0);''')],
 'C16-substr-pos': [(H,'''        pos = found+1;
      }''','''        pos = found+2;
      }''')],
 'C16-canvas-index': [(K,'''        if(index+1 < (int)sequenceData.size()){
          afront''','''        if(index < (int)sequenceData.size()){
          afront''')],
 'C17-score': [(C,'''    if(max==0) return 0;
''','''    if(votes.empty()) return 0;
''')],
 'C17-conf': [(B,'''    if(biggest == 0) return 0;
    return (biggest-secondBiggest)''','''    if(candidates.empty()) return 0;
    return (biggest-secondBiggest)''')],
 'C17-degree': [(WW,'''    if(total == 0) total=1;''','''    if(candidates.empty()) total=1;''')],
 'C17-std': [(K,'''    if(deviation == 0) return 0;''','''    if(deviation < 0) return 0;''')],
 'C17-rams': [(U,'''  if(addressSize < 1){''','''  if(addressSize < 0){''')],
 'C18-bleach-flag': [(CW,'''    value = options["bleachingActivated"];
    bleachingActivated = value.is_null() ? true : value.get<bool>();
''','''    value = options["bleachingActivated"];
    if(!value.is_null()) bleachingActivated = value.get<bool>();
''')],
 'C18-maxdata': [(S,'''    cube.resize(mentalImage.size());
    maxData = 0;''','''    cube.resize(mentalImage.size());
    if(mentalImage.empty()) maxData = 0;''')],
 'C19-trunc': [(DS,'''    dataFile.open(filename, std::ios::trunc);''','''    dataFile.open(filename, std::ios::app);''')],
 'C19-nofail': [(H,'''    dataFile.close();
    if(dataFile.fail()){
      throw Exception("The file of RAM data can not be written!");
    }''','''    if(dataFile.bad()){
      throw Exception("The file of RAM data can not be written!");
    }
    dataFile.close();''')],
 'C19-open-mode': [(D,'''      dataFile.open(data);
      if(!dataFile.is_open()){''','''      dataFile.open(data);
      if(dataFile.bad()){''')],
 'C19-count-rams': [(D,'''        if(rams.size() != mapping.size()){''','''        if(rams.empty() && !mapping.empty()){''')],
 'C20-clus-verbose': [(CWW,'''compare("completeAddressing") == 0)
          completeAddressing = arg.second.cast<bool>();''','''compare("completeAddressing") == 0)
          completeAddressing = completeAddressing && arg.second.cast<bool>();''')],
 'C20-dw-base': [(DW,'''        base = arg.second.cast<int>();''','''        base = arg.second.cast<short>();''')],
 'C22-exc-const': [(R,'''      throw Exception("The input data has a value bigger than base of addresing!");''','''      throw "The input data has a value bigger than base of addresing!";''')],
 'C22-noexcept': [(BI,'''  int get(index_size_t index) const {''','''  int get(index_size_t index) const noexcept {''')],
 'C23-loop-conf': [(B,'''    }while( std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1 );

    return labels;''','''    }while( std::get<0>(ambiguity) && std::get<1>(ambiguity) >= 0 );

    return labels;''')],
 'C23-setdata': [(H,'''      while(pos <= inputdata.size()){''','''      while(pos <= inputdata.size() || pos == 0){''')],
 'C23-getline': [(DS,'''        if(dataFile.eof()) break;

        std::string''','''        if(dataFile.eof() && !data.empty()) break;

        std::string''')],
 'C24-extra': [(D,'''      indexesSize += addressSize-remain;''','''      indexesSize += remain;''')],
 'C24-range': [(D,'''      indexes[i] = randint(0, entrySize-1, false);''','''      indexes[i] = randint(0, addressSize-1, false);''')],
 'C24-sub': [(D,'''      std::vector<int> subIndexes(indexes.begin() + (i*addressSize), indexes.begin() + ((i+1)*addressSize));''','''      std::vector<int> subIndexes(indexes.begin() + (i*(addressSize-1)), indexes.begin() + (i*(addressSize-1)) + addressSize);''')],
 'C25-activate-last': [(K,'''      for(int k=0; k<bitsByKernel; k++) output[kernelIndex*bitsByKernel + k] = 1;''','''      for(int k=0; k<bitsByKernel; k++) output[kernelIndex*bitsByKernel + k] += 1;''')],
 'C25-round': [(K,'''(int)round(activationDegree*numberOfKernels)''','''(int)(activationDegree*numberOfKernels)''')],
 'C26-reuse': [(S,'''        cube[i][indexes[j]] = 1;
        intensity--;''','''        cube[i][indexes[j]] = 1;
        intensity -= 1 + (j > 4);''')],
 'C26-index': [(S,'''    int index = randint(0, maxData-1);''','''    int index = randint(0, maxData);''')],
 'C28-skip-first': [(R,'''      if(j->first == 0) continue;''','''      if(j->first == 0 || j->second == 0) continue;''')],
 'C28-digit-eq': [(R,'''        if(address[i] > 0){''','''        if(address[i] == 1){''')],
}
