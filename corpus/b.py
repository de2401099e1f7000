R='models/wisard/ram.cc'; D='models/wisard/discriminator.cc'; W='models/wisard/wisard.cc'; H='models/wisard/ramdatahandle.cc'
C='models/cluswisard/cluster.cc'; CW='models/cluswisard/cluswisard.cc'; U='common/utils.cc'; B='common/bleaching.cc'; BI='data/bininput.cc'; DS='data/dataset.cc'
K='binarization/kernelcanvas.cc'; S='synthetic_data/synthesizers.cc'; WW='wrappers/wisardwrapper.cc'; CWW='wrappers/cluswisardwrapper.cc'; DW='wrappers/discriminatorwrapper.cc'; KW='wrappers/kernelcanvaswrapper.cc'
SUB='''      std::vector<int> subIndexes(indexes.begin() + (i*addressSize), indexes.begin() + ((i+1)*addressSize));
      rams[i] = RAM(subIndexes, ignoreZero, base);
'''
SUBH='''      rams[i] = makeRAM(indexes, i, addressSize, ignoreZero, base);
'''
ok = {
 'd-makeram-helper': [(D,SUB,SUBH),(D,SUB,SUBH),(D,'''  void setRAMByMapping(''','''  RAM makeRAM(const std::vector<int>& indexes, int i, int addressSize, bool ignoreZero, int base) const {
    auto first = indexes.begin() + i*addressSize;
    return RAM(std::vector<int>(first, first + addressSize), ignoreZero, base);
  }

  void setRAMByMapping(''')],
 'd-shuffle-push': [(D,'''    std::vector<int> indexes(indexesSize);

    for(int i=0; i<entrySize; i++) {
      indexes[i]=i;
    }
    for(unsigned int i=entrySize; i<indexes.size(); i++){
      indexes[i] = randint(0, entrySize-1, false);
    }
''','''    std::vector<int> indexes;
    indexes.reserve(indexesSize);
    for(int i=0; i<entrySize; i++) indexes.push_back(i);
    while((int)indexes.size() < indexesSize) indexes.push_back(randint(0, entrySize-1, false));
''')],
 'd-shuffle-ceil': [(D,'''    int numberOfRAMS = entrySize / addressSize;
    int remain = entrySize % addressSize;
    int indexesSize = entrySize;
    if(completeAddressing && remain > 0) {
      numberOfRAMS++;
      indexesSize += addressSize-remain;
    }
''','''    int numberOfRAMS = entrySize / addressSize;
    int indexesSize = entrySize;
    if(completeAddressing && entrySize % addressSize != 0) {
      numberOfRAMS = numberOfRAMS + 1;
      indexesSize = numberOfRAMS * addressSize;
    }
''')],
 'd-byindex-emplace': [(D,'''    rams = std::vector<RAM>(numberOfRAMS);

    for(unsigned int i=0; i<rams.size(); i++){
      std::vector<int> subIndexes(indexes.begin() + (i*addressSize), indexes.begin() + ((i+1)*addressSize));
      rams[i] = RAM(subIndexes, ignoreZero, base);
    }''','''    rams.clear();
    rams.reserve(numberOfRAMS);
    for(int i=0; i<numberOfRAMS; i++){
      std::vector<int> subIndexes(indexes.begin() + (i*addressSize), indexes.begin() + ((i+1)*addressSize));
      rams.push_back(RAM(subIndexes, ignoreZero, base));
    }''')],
 'd-list-vector-seen': [(D,'''    std::map<int, int> values;
    for(unsigned int i=0; i<indexes.size(); i++){
      if(indexes[i] < 0 || indexes[i] >= entrySize){
        throw Exception("The list of indexes has a index out of range of entry!");
      }
      if(values.find(indexes[i]) == values.end()){
        values[indexes[i]] = i;
      }
      else{
        throw Exception("The list of indexes contain repeated indexes!");
      }
    }''','''    std::vector<bool> seen(indexes.size(), false);
    for(int index : indexes){
      if(index < 0 || index >= entrySize){
        throw Exception("The list of indexes has a index out of range of entry!");
      }
      if(seen[index]){
        throw Exception("The list of indexes contain repeated indexes!");
      }
      seen[index] = true;
    }''')],
 'd-list-set': [(D,'''    std::map<int, int> values;
    for(unsigned int i=0; i<indexes.size(); i++){
      if(indexes[i] < 0 || indexes[i] >= entrySize){
        throw Exception("The list of indexes has a index out of range of entry!");
      }
      if(values.find(indexes[i]) == values.end()){
        values[indexes[i]] = i;
      }
      else{
        throw Exception("The list of indexes contain repeated indexes!");
      }
    }''','''    std::set<int> values;
    for(unsigned int i=0; i<indexes.size(); i++){
      if(indexes[i] < 0 || indexes[i] >= entrySize){
        throw Exception("The list of indexes has a index out of range of entry!");
      }
      if(!values.insert(indexes[i]).second){
        throw Exception("The list of indexes contain repeated indexes!");
      }
    }''')],
 'd-checkmapping-rangefor': [(D,'''    for(unsigned int i=0; i<positions.size(); i++){
      if(positions[i] < 0 || positions[i] >= entrySize){
        throw Exception("The mapping has a index out of range of entry!");
      }
    }''','''    for(const int position : positions){
      const bool inside = 0 <= position && position < entrySize;
      if(!inside) throw Exception("The mapping has a index out of range of entry!");
    }''')],
 'd-mental-constref': [(D,'''      std::vector<std::vector<int>> piece = rams[r].getMentalImage();
      for (std::vector<int> p : piece){
        mentalImage[p[0]] += p[1];
      }''','''      const auto piece = rams[r].getMentalImage();
      for (const auto& p : piece){
        const int position = p[0];
        mentalImage[position] = mentalImage[position] + p[1];
      }''')],
 'd-addram-helper': [(D,'''          nl::json base = {
            {"addresses", *it},
            {"data", rdata}
          };
          base.merge_patch(rbase);
          checkMapping(*it, entrySize);
          rams.push_back(RAM(base));
''','''          addRAM(*it, rdata, rbase);
'''),(D,'''        nl::json base = {
          {"addresses", *it},
          {"data", data.substr(pos,found-pos)}
        };
        pos = found < data.size() ? found+1 : data.size();
        base.merge_patch(rbase);
        checkMapping(*it, entrySize);
        rams.push_back(RAM(base));
''','''        addRAM(*it, data.substr(pos,found-pos), rbase);
        pos = found < data.size() ? found+1 : data.size();
'''),(D,'''  std::string getRAMsData(bool huge''','''  void addRAM(const nl::json& addresses, const std::string& rdata, const nl::json& rbase){
    nl::json base = {
      {"addresses", addresses},
      {"data", rdata}
    };
    base.merge_patch(rbase);
    checkMapping(addresses, entrySize);
    rams.push_back(RAM(base));
  }

  std::string getRAMsData(bool huge''')],
 'd-ramsdata-join': [(D,'''      for(unsigned int i=0; i<rams.size(); i++){
        dataFile << (i != 0 ? "." : "") + rams[i].getData();
      }
''','''      dataFile << joinRAMsData();
'''),(D,'''      for(unsigned int i=0; i<rams.size(); i++){
        data += (i != 0 ? "." : "") + rams[i].getData();
      }
''','''      data = joinRAMsData();
'''),(D,'''  std::string getRAMsData(bool huge''','''  std::string joinRAMsData(){
    std::string joined;
    for(unsigned int i=0; i<rams.size(); i++){
      if(i > 0) joined += ".";
      joined += rams[i].getData();
    }
    return joined;
  }

  std::string getRAMsData(bool huge''')],
 'd-ramsdata-early': [(D,'''    std::string data;
    if(huge){
      std::string filename''','''    if(!huge){
      std::string data;
      for(unsigned int i=0; i<rams.size(); i++){
        if(i != 0) data += ".";
        data += rams[i].getData();
      }
      return data;
    }
    {
      std::string filename'''),(D,'''      data = filename;
    }
    else{
      for(unsigned int i=0; i<rams.size(); i++){
        data += (i != 0 ? "." : "") + rams[i].getData();
      }
    }
    return data;''','''      return filename;
    }''')],
 'd-train-checkinput-merge': [(D,'''    checkEntrySize(image.size());
    checkSymbols(image);
    count++;
    for(unsigned int i=0; i<rams.size(); i++){
      rams[i].train(image);
    }
  }

private''','''    checkEntrySize(image.size());
    checkSymbols(image);
    for(auto& ram : rams) ram.train(image);
    ++count;
  }

private''')],
 'd-config-helper': [(D,'''    nl::json config = getConfig();
    if(!rams.empty()){
      config.merge_patch(rams[0].getConfig());
    }
    // config["rams"] = getRAMSJSON();
    config["data"] = getRAMsData(huge,path);
    config["version"] = __version__;
    return config.dump();''','''    nl::json config = getJSON(huge, path);
    if(rams.size() > 0){
      config.merge_patch(rams.front().getConfig());
    }
    config["version"] = __version__;
    return config.dump();''')],
 'd-json-default-arg': [(D,'''  std::string json(bool huge){
    return json(huge,"");
  }
  std::string json(){
    return json(false,"");
  }
''','''  std::string json(bool huge){
    const std::string none;
    return json(huge, none);
  }
  std::string json(){
    return json(false);
  }
''')],
 'd-ctor-count-init': [(D,'''    entrySize = config["entrySize"];
    count = config["count"].is_null() ? 0 : config["count"].get<int>();
    std::string data = config["data"].is_null() ? "" : config["data"].get<std::string>();
''','''    entrySize = config["entrySize"].get<int>();
    count = 0;
    if(!config["count"].is_null()) count = config["count"].get<int>();
    std::string data;
    if(!config["data"].is_null()) data = config["data"].get<std::string>();
''')],
 'd-ctor-option-helper': [(D,'''    value = options["ignoreZero"];
    bool ignoreZero = value.is_null() ? false : value.get<bool>();

    value = options["completeAddressing"];
    bool completeAddressing = value.is_null() ? true : value.get<bool>();
''','''    bool ignoreZero = flag(options, "ignoreZero", false);
    bool completeAddressing = flag(options, "completeAddressing", true);
'''),(D,'''private:

  void checkEntrySize''','''private:
  static bool flag(nl::json& options, const char* name, bool otherwise){
    nl::json v = options[name];
    if(v.is_null()) return otherwise;
    return v.get<bool>();
  }

  void checkEntrySize''')],
 'r-tobase-while': [(R,'''    for(unsigned int i=0; i<numberConverted.size(); i++){
      numberConverted[i] = baseNumber % base;
      baseNumber /= base;
    }''','''    for(int& digit : numberConverted){
      const addr_t quotient = baseNumber / base;
      digit = baseNumber - quotient*base;
      baseNumber = quotient;
    }''')],
 'r-mental-pair': [(R,'''    for(auto j=positions.begin(); j!=positions.end(); ++j){
      if(j->first == 0) continue;
      const std::vector<int> address = convertToBase(j->first);
      for(unsigned int i=0; i<mentalPiece.size(); i++){
        if(mentalPiece[i].size() == 0){
          mentalPiece[i].resize(2);
          mentalPiece[i][0] = addresses[i];
          mentalPiece[i][1] = 0;
        }
        if(address[i] > 0){
          mentalPiece[i][1] += j->second;
        }
      }
    }''','''    for(const auto& position : positions){
      if(position.first != 0){
        addToMentalImage(mentalPiece, position.first, position.second);
      }
    }'''),(R,'''  void checkLimitAddressSize(''','''  void addToMentalImage(std::vector<std::vector<int>>& piece, const addr_t index, const content_t times) const{
    const std::vector<int> digits = convertToBase(index);
    for(unsigned int i=0; i<piece.size(); i++){
      if(digits[i] != 0) piece[i][1] += times;
    }
  }

  void checkLimitAddressSize(''')],
 'r-config-keys': [(R,'''    nl::json config = {
      {"ignoreZero", ignoreZero},
      {"base", base}
    };
    return config;''','''    nl::json config;
    config["base"] = base;
    config["ignoreZero"] = ignoreZero;
    return config;''')],
 'r-checklimit-inverse': [(R,'''    if(basein < 2){
      throw Exception("The base can't be lesser than 2!");
    }
    const addr_t limit''','''    const bool valid = basein > 1;
    if(!valid) throw Exception("The base can't be lesser than 2!");
    const addr_t limit''')],
 'r-vote-zero-order': [(R,'''    if(ignoreZero && index == 0)
      return 0;
    auto it = positions.find(index);
    if(it == positions.end()){
      return 0;
    }
    else{
      return it->second;
    }''','''    const bool ignored = ignoreZero && index == 0;
    auto it = positions.find(index);
    const bool known = it != positions.end();
    return known && !ignored ? it->second : 0;''')],
 'r-vote-count-at': [(R,'''    auto it = positions.find(index);
    if(it == positions.end()){
      return 0;
    }
    else{
      return it->second;
    }
  }


private''','''    if(positions.count(index) == 0) return 0;
    return positions.at(index);
  }


private''')],
 'r-train-plus': [(R,'''    auto it = positions.find(index);
    if(it == positions.end()){
      positions.insert(it,std::pair<addr_t,content_t>(index, 1));
    }
    else{
      it->second++;
    }
''','''    ++positions.insert(std::make_pair(index, 0)).first->second;
''')],
 'r-ctor-init': [(R,'''    checkLimitAddressSize(addressSize, base);
    addresses = std::vector<int>(addressSize);
    generateRandomAddresses(entrySize);''','''    checkLimitAddressSize(addressSize, base);
    addresses.resize(addressSize);
    for(auto& address : addresses) address = randint(0, entrySize-1);''')],
 'w-train-emplace': [(W,'''    if(discriminators.find(label) == discriminators.end()){
      Discriminator discriminator = makeDiscriminator(label, image.size());
      discriminator.train(image);
      discriminators[label] = discriminator;
      return;
    }
    discriminators[label].train(image);''','''    auto found = discriminators.find(label);
    if(found != discriminators.end()){
      found->second.train(image);
    }
    else{
      Discriminator created = makeDiscriminator(label, image.size());
      created.train(image);
      discriminators.insert(std::make_pair(label, created));
    }''')],
 'w-train-prepare': [(W,'''    int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
    checkConfidence(numberOfRAMS);
''','''    prepare(dataset[0].size());
'''),(W,'''    int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
    checkConfidence(numberOfRAMS);
''','''    prepare(images.front().size());
'''),(W,'''  void checkConfidence(int numberOfRAMS){''','''  void prepare(int entrySize){
    checkConfidence(calculateNumberOfRams(entrySize, addressSize, completeAddressing));
  }

  void checkConfidence(int numberOfRAMS){''')],
 'w-config-keys': [(W,'''    nl::json config = {
      {"version", __version__},
      {"addressSize", addressSize},
      {"bleachingActivated", bleachingActivated},
      {"verbose", verbose},
      {"mapping", mapping},
      {"indexes", indexes},
      {"ignoreZero", ignoreZero},
      {"completeAddressing", completeAddressing},
      {"base", base},
      {"confidence", confidence},
      {"searchBestConfidence", searchBestConfidence},
      {"returnConfidence", returnConfidence},
      {"returnActivationDegree", returnActivationDegree},
      {"returnClassesDegrees", returnClassesDegrees}
    };
    return config;''','''    nl::json config;
    config["addressSize"] = addressSize;
    config["base"] = base;
    config["bleachingActivated"] = bleachingActivated;
    config["completeAddressing"] = completeAddressing;
    config["confidence"] = confidence;
    config["ignoreZero"] = ignoreZero;
    config["indexes"] = indexes;
    config["mapping"] = mapping;
    config["returnActivationDegree"] = returnActivationDegree;
    config["returnClassesDegrees"] = returnClassesDegrees;
    config["returnConfidence"] = returnConfidence;
    config["searchBestConfidence"] = searchBestConfidence;
    config["verbose"] = verbose;
    config["version"] = __version__;
    return config;''')],
 'w-classes-rangefor': [(W,'''    for(std::map<std::string, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
      c[d->first] = d->second.getJSON(huge,path+(d->first)+"__");
    }''','''    for(auto& entry : discriminators){
      const std::string prefix = path + entry.first + "__";
      c[entry.first] = entry.second.getJSON(huge, prefix);
    }''')],
 'w-mental-insert': [(W,'''      images[d->first] = d->second.getMentalImage();''','''      images.insert(std::make_pair(d->first, d->second.getMentalImage()));''')],
 'w-restore-rangeless': [(W,'''    nl::json c = nl::json::parse(config);
    addressSize=c["addressSize"];

    nl::json classes = c["classes"];''','''    const nl::json c = nl::json::parse(config);
    addressSize = c.at("addressSize").get<int>();
    nl::json classes = c.count("classes") ? c.at("classes") : nl::json();''')],
 'w-makedisc-ternary': [(W,'''    else if (indexes.size() != 0)
    {
      return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
    }
    else
    {
      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
    }''','''    if (indexes.empty())
    {
      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
    }
    return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);''')],
 'w-leave-reorder': [(W,'''    auto d = discriminators.find(label);
    if(d != discriminators.end()){
      d->second.untrain(image);
    }''','''    if(discriminators.count(label) == 0) return;
    discriminators.at(label).untrain(image);''')],
 'w-verbose-helper': [(W,'''      if(verbose) std::cout << "\\rtraining " << i+1 << " of " << images.size();
      train<std::vector<int>>''','''      progress("training", i+1, images.size());
      train<std::vector<int>>'''),(W,'''      if(verbose) std::cout << "\\rclassifying " << i+1 << " of " << images.size();
''','''      progress("classifying", i+1, images.size());
'''),(W,'''  void checkConfidence(int numberOfRAMS){''','''  void progress(const std::string& what, std::size_t done, std::size_t all) const{
    if(verbose) std::cout << "\\r" << what << " " << done << " of " << all;
  }

  void checkConfidence(int numberOfRAMS){''')],
 'b-count-helper': [(B,'''        labels[i->first] = 0;
        for(unsigned int j=0; j<i->second.size(); j++){
          if(i->second[j] >= bleaching){
            labels[i->first]++;
          }
        }
      }
      if(!bleachingActivated) break;
      bleaching++;''','''        labels[i->first] = countVotes(i->second, bleaching);
      }
      if(!bleachingActivated) break;
      bleaching++;'''),(B,'''private:
  static std::tuple<bool, int> isThere''','''private:
  static int countVotes(const std::vector<int>& votes, const int bleaching){
    int total = 0;
    for(int vote : votes){
      if(vote >= bleaching) total++;
    }
    return total;
  }

  static std::tuple<bool, int> isThere''')],
 'b-countif': [(B,'''        labels[i->first] = 0;
        for(unsigned int j=0; j<i->second.size(); j++){
          if(i->second[j] >= bleaching){
            labels[i->first]++;
          }
        }
      }
      if(!bleachingActivated) break;
      bleaching++;''','''        labels[i->first] = std::count_if(i->second.begin(), i->second.end(), [bleaching](int v){ return v >= bleaching; });
      }
      if(!bleachingActivated) break;
      bleaching++;''')],
 'b-amb-maxelement': [(B,'''    int biggest = 0;
    int closest = 0;
    for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
      if(i->second > biggest){
        biggest = i->second;
      }
    }
    for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
      if( (biggest - i->second) < confidence ){
        closest++;
      }
    }
    bool ambiguity = closest > 1;
    std::tuple<bool, int> ambiguityAndHighest = std::make_tuple(ambiguity, biggest);
    return ambiguityAndHighest;''','''    int biggest = 0;
    for(const auto& candidate : candidates) biggest = std::max(biggest, candidate.second);
    int closest = 0;
    for(const auto& candidate : candidates){
      if(candidate.second > biggest - confidence) ++closest;
    }
    return std::make_tuple(closest >= 2, biggest);''')],
 'b-loop-forever': [(B,'''    int bleaching = 1;
    std::tuple<bool,int> ambiguity;

    do{
''','''    int bleaching = 1;
    while(true){
'''),(B,'''      ambiguity = isThereAmbiguity(labels, confidence);
    }while( std::get<0>(ambiguity) && std::get<1>(ambiguity) > 1 );
''','''      const std::tuple<bool,int> ambiguity = isThereAmbiguity(labels, confidence);
      if(!std::get<0>(ambiguity) || std::get<1>(ambiguity) <= 1) break;
    }
''')],
 'b-conf-guard': [(B,'''    float secondBiggest = 0;
    for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
      if(i->second >= secondBiggest && i->second < biggest){
        secondBiggest = i->second;
      }
    }
    if(biggest == 0) return 0;
    return (biggest-secondBiggest)/biggest;''','''    if(biggest == 0) return 0;
    float second = 0;
    for(const auto& candidate : candidates){
      const int degree = candidate.second;
      if(degree >= biggest) continue;
      if(degree > second) second = degree;
    }
    return (biggest-second)/biggest;''')],
 'b-make-direct': [(B,'''    if(searchBestConfidence){
      return Bleaching::makeWithConfidence(allvotes, bleachingActivated, confidence);
    }
    else{
      return Bleaching::makeConfidenceless(allvotes, bleachingActivated, confidence);
    }''','''    return searchBestConfidence ? makeWithConfidence(allvotes, bleachingActivated, confidence)
                                : makeConfidenceless(allvotes, bleachingActivated, confidence);''')],
 'b-biggest-iterator': [(B,'''    std::string label = "";
    int biggest = 0;
    for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
      if(i->second >= biggest){
        biggest = i->second;
        label = i->first;
      }
    }
    return label;''','''    auto best = candidates.end();
    int biggest = 0;
    for(auto i=candidates.begin(); i != candidates.end(); ++i){
      if(i->second < biggest) continue;
      biggest = i->second;
      best = i;
    }
    return best == candidates.end() ? std::string() : best->first;''')],
 'u-rams-ceil': [(U,'''  int numberOfRAMS = entrySize / addressSize;
  int remain = entrySize % addressSize;
  if(completeAddressing && remain > 0)
    numberOfRAMS++;
  return numberOfRAMS;''','''  const bool partial = entrySize % addressSize > 0;
  return entrySize / addressSize + (completeAddressing && partial ? 1 : 0);''')],
 'u-endswith-rfind': [(U,'''  return text.size() >= suffix.size() &&
         text.compare(text.size()-suffix.size(), suffix.size(), suffix) == 0;''','''  if(text.size() < suffix.size()) return false;
  return text.substr(text.size()-suffix.size()) == suffix;''')],
 'u-bytes-ptr': [(U,'''  std::string out(sizeof(value), 0);
  std::memcpy(&out[0], &value, sizeof(value));
  return out;''','''  return std::string(reinterpret_cast<const char*>(&value), sizeof(T));''')],
 'u-value-data': [(U,'''  T out;
  std::memcpy(&out, &data[0], sizeof(out));
  return out;''','''  T out;
  std::memcpy(&out, data.data(), sizeof(T));
  return out;''')],
 'u-randint-span': [(U,'''  return min + (std::rand() % (int)(max - min + 1));''','''  const int span = max - min + 1;
  return std::rand() % span + min;''')],
 'u-filename-while': [(U,'''  for(int i=0; i<100; i++){
    std::string filename = prefix + getRandomString(10) + sufix;
    if(!std::ifstream(filename).good()) return filename;
  }
  throw''','''  int tries = 0;
  while(tries++ < 100){
    const std::string filename = prefix + getRandomString(10) + sufix;
    std::ifstream existing(filename);
    if(!existing.good()) return filename;
  }
  throw''')],
 'u-b64-encode-append': [(U,'''    long sizeIn = dataIn.size();
    long size = 4*(sizeIn/3);
    if(dataIn.size()%3 != 0){
      size += 4;
    }
    std::string dataOut(size,'=');''','''    const long sizeIn = dataIn.size();
    const long size = 4*((sizeIn+2)/3);
    std::string dataOut(size,'=');''')],
 'u-b64-getindex-at': [(U,'''    auto it = Base64::indexMap.find(character);
    if(it == Base64::indexMap.end()){
      throw Exception("Invalid Base64 text!");
    }
    return it->second;''','''    if(indexMap.count(character) == 0){
      throw Exception("Invalid Base64 text!");
    }
    return indexMap.at(character);''')],
 'bi-config-ceil': [(BI,'''    remain = (size%8)==0?0:8-(size%8);
    input = std::string((size/8)+(size%8 == 0?0:1),0);''','''    const index_size_t bytes = size/8 + (size%8 != 0 ? 1 : 0);
    remain = bytes*8 - size;
    input.assign(bytes, 0);''')],
 'bi-get-shift': [(BI,'''    int section = index/8;
    int sectionIndex = 7-(index%8);
    return (input[section] >> sectionIndex) & 0x01;''','''    const unsigned char byte = input[index >> 3];
    const int mask = 0x80 >> (index & 7);
    return (byte & mask) != 0 ? 1 : 0;''')],
 'bi-set-branch': [(BI,'''    input[section] = (input[section] & ~(0x01 << sectionIndex)) | ((value & 0x01) << sectionIndex);''','''    const int bit = 0x01 << sectionIndex;
    if(value & 0x01) input[section] = input[section] | bit;
    else input[section] = input[section] & ~bit;''')],
 'bi-vector-rangefor': [(BI,'''    for(unsigned int i=0; i<size(); i++){
      set(i,input[i]);
    }''','''    index_size_t i = 0;
    for(short bit : input){
      set(i, bit);
      i++;
    }''')],
 'bi-check-helper': [(BI,'''    if(index >= size()) {
      throw Exception("Index out of range!");
    }
    int section''','''    checkIndex(index);
    int section'''),(BI,'''    if(index >= size()) {
      throw Exception("Index out of range!");
    }
    index_size_t''','''    checkIndex(index);
    index_size_t'''),(BI,'''  void setConfig(''','''  void checkIndex(index_size_t index) const {
    if(index < size()) return;
    throw Exception("Index out of range!");
  }

  void setConfig(''')],
 'bi-data-one': [(BI,'''    std::string sizeStr = convertToBytes<char>(remain);
    return Base64::encode(sizeStr+input);''','''    std::string bytes(1, remain);
    bytes += input;
    return Base64::encode(bytes);''')],
 'ds-add-delegates': [(DS,'''    if(label.size()>0) labels[data.size()]=label;
    data.push_back(BinInput(input));''','''    add(BinInput(input), label);''')],
 'ds-load-helper': [(DS,'''        size_t sharp = input.find("#");
        if(sharp == std::string::npos){
          throw Exception("The file of the data set has an incomplete entry!");
        }
        std::string label = Base64::decode(input.substr(0,sharp));

        add(BinInput(input.substr(sharp+1,input.size()-(sharp+1))),label);''','''        addEntry(input);'''),(DS,'''private:
''','''private:
  void addEntry(const std::string& entry){
    const size_t sharp = entry.find('#');
    if(sharp == std::string::npos){
      throw Exception("The file of the data set has an incomplete entry!");
    }
    const std::string label = Base64::decode(entry.substr(0, sharp));
    add(BinInput(entry.substr(sharp + 1)), label);
  }

''')],
 'ds-load-while': [(DS,'''      while(true){
        if(dataFile.eof()) break;

        std::string input="";''','''      while(!dataFile.eof()){
        std::string input;''')],
 'ds-save-string': [(DS,'''    for(unsigned int i=0; i<data.size(); i++){
      auto label = labels.find(i);
      std::string encodedLabel = label == labels.end() ? "" : Base64::encode(label->second);
      dataFile << (i != 0 ? "." : "") + encodedLabel + "#" + data[i].data();
    }''','''    for(size_t i=0; i<data.size(); i++){
      if(i > 0) dataFile << ".";
      auto label = labels.find(i);
      if(label != labels.end()) dataFile << Base64::encode(label->second);
      dataFile << "#" << data[i].data();
    }''')],
 'ds-load-noelse': [(DS,'''    else{
      while(true){
        if(dataFile.eof()) break;
''','''    {
      for(;;){
        if(dataFile.eof()) break;
''')],
 'h-get-ternary': [(H,'''    auto ram = ramdata.find(r);
    if(ram == ramdata.end()) return ram_t();
    return ram->second;''','''    return ramdata.count(r) > 0 ? ramdata.at(r) : ram_t();''')],
 'h-get-nested': [(H,'''    auto ram = ramdata.find(r);
    if(ram == ramdata.end()) return 0;
    auto it = ram->second.find(addr);
    if(it == ram->second.end()) return 0;
    return it->second;''','''    auto ram = ramdata.find(r);
    if(ram != ramdata.end()){
      const auto it = ram->second.find(addr);
      if(it != ram->second.end()) return it->second;
    }
    return 0;''')],
 'h-data-append': [(H,'''    std::string out(ram.size()*blockSize,0);
    int k=0;
    for(auto j=ram.begin(); j!=ram.end(); ++j){
      out.replace(k,sizeof(addr_t),convertToBytes(j->first));
      out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
      k += blockSize;
    }
    return''','''    std::string out;
    out.reserve(ram.size()*blockSize);
    for(const auto& position : ram){
      out += convertToBytes(position.first);
      out += convertToBytes(position.second);
    }
    return''')],
 'h-compare-helper': [(H,'''      if(ito == other.ramdata.end() || it->second.size() != ito->second.size()) return false;

      for(ram_t::iterator itram = it->second.begin(); itram != it->second.end(); ++itram){
        ram_t::iterator itramo = ito->second.find(itram->first);
        if(itramo == ito->second.end() || itram->second != itramo->second) return false;
      }''','''      if(ito == other.ramdata.end()) return false;
      if(it->second != ito->second) return false;''')],
 'h-data-blocks': [(H,'''    for(unsigned long i=0; i<decodedData.size(); i+=blockSize){
      addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));
      content_t value = convertToValue<content_t>(decodedData.substr(i+sizeof(addr_t),sizeof(content_t)));
      ramout[address]=value;
    }''','''    const unsigned long blocks = decodedData.size()/blockSize;
    for(unsigned long b=0; b<blocks; b++){
      const std::string block = decodedData.substr(b*blockSize, blockSize);
      const addr_t address = convertToValue<addr_t>(block.substr(0, sizeof(addr_t)));
      ramout[address] = convertToValue<content_t>(block.substr(sizeof(addr_t)));
    }''')],
 'h-set-resize': [(H,'''    for(int i=ramdata.size(); i<r; i++) ramdata[i];
    ramdata[r][addr] = value;''','''    for(int i=ramdata.size(); i<r; i++) ramdata[i] = ram_t();
    ram_t& ram = ramdata[r];
    ram[addr] = value;''')],
 'h-setdata-split': [(H,'''      size_t pos=0;
      while(pos <= inputdata.size()){
        size_t found = inputdata.find('.',pos);
        if(found == std::string::npos) found = inputdata.size();
        ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
        pos = found+1;
      }''','''      size_t begin = 0;
      int ram = 0;
      for(;;){
        const size_t dot = inputdata.find('.', begin);
        if(dot == std::string::npos){
          ramdata[ram] = dataToRam(inputdata.substr(begin));
          break;
        }
        ramdata[ram++] = dataToRam(inputdata.substr(begin, dot-begin));
        begin = dot+1;
      }''')],
 'c-score-algo': [(C,'''    int max = 0;
    float sum = 0;
    for(auto v: votes){
      if(v>max) max=v;
      sum += v;
    }
''','''    int max = 0;
    float sum = 0;
    for(unsigned int i=0; i<votes.size(); i++){
      max = std::max(max, votes[i]);
      sum = sum + votes[i];
    }
''')],
 'c-train-limit-helper': [(C,'''      float limit = minScore + count/threshold;
      limit = limit > 1.0 ? 1.0 : limit;

      if(score >= limit){''','''      if(score >= limitOf(count)){'''),(C,'''  template<typename T>
  void makeDiscriminator(''','''  float limitOf(const float count) const{
    const float limit = minScore + count/threshold;
    if(limit > 1.0) return 1.0;
    return limit;
  }

  template<typename T>
  void makeDiscriminator(''')],
 'c-train-index-best': [(C,'''    Discriminator* bestDiscriminator = NULL;
''','''    int best = -1;
'''),(C,'''          bestDiscriminator = &discriminators[i];
''','''          best = i;
'''),(C,'''    if(!trained && bestDiscriminator != NULL){
      bestDiscriminator->train(image);
    }''','''    if(!trained && best >= 0){
      discriminators[best].train(image);
    }''')],
 'c-train-return': [(C,'''      makeDiscriminator(index, image);
      trained = true;
    }

    if(!trained && bestDiscriminator != NULL){
      bestDiscriminator->train(image);
    }''','''      makeDiscriminator(index, image);
      return;
    }

    if(trained) return;
    if(bestDiscriminator != NULL) bestDiscriminator->train(image);''')],
 'c-train-iter': [(C,'''    for(unsigned int i=0; i<discriminators.size(); i++){
      auto votes = discriminators[i].classify(image);
      float score = getScore(votes);
      float count = discriminators[i].getNumberOfTrainings();

      if(score>=bestValue){
          bestValue = score;
          bestDiscriminator = &discriminators[i];
      }
''','''    for(auto& entry : discriminators){
      Discriminator& discriminator = entry.second;
      const float score = getScore(discriminator.classify(image));
      const float count = discriminator.getNumberOfTrainings();

      if(!(score < bestValue)){
          bestValue = score;
          bestDiscriminator = &discriminator;
      }
'''),(C,'''        discriminators[i].train(image);
        trained = true;''','''        discriminator.train(image);
        trained = true;''')],
 'c-classify-iter': [(C,'''    std::vector<std::vector<int>> output(discriminators.size());
    for(unsigned int i=0; i<discriminators.size(); i++){
      output[i] = discriminators[i].classify(image);
    }
    return output;''','''    std::vector<std::vector<int>> output;
    for(auto& entry : discriminators){
      output.push_back(entry.second.classify(image));
    }
    return output;''')],
 'cw-label-helper': [(CW,'''      labels[i] = label.substr(0,label.rfind("::"));

      candidates.clear();
      std::map<std::string,int>().swap(candidates);
    }
    if(verbose) std::cout << "\\r" << std::endl;
    return labels;
  }

  std::vector<std::string> classifyUnsup''','''      labels[i] = className(label);
    }
    if(verbose) std::cout << "\\r" << std::endl;
    return labels;
  }

  std::vector<std::string> classifyUnsup'''),(CW,'''    label = label.substr(0,label.rfind("::"));
    clusters[label].train(image);''','''    clusters[className(label)].train(image);'''),(CW,'''  void checkConfidence(int''','''  static std::string className(const std::string& label){
    const std::size_t separator = label.rfind("::");
    if(separator == std::string::npos) return label;
    return label.substr(0, separator);
  }

  void checkConfidence(int''')],
 'cw-train-find': [(CW,'''    if(clusters.find(label) == clusters.end()){
      Cluster cluster = makeCluster(image.size());
      cluster.train(image);
      clusters[label] = cluster;
      return;
    }
    clusters[label].train(image);''','''    auto found = clusters.find(label);
    if(found != clusters.end()){
      found->second.train(image);
      return;
    }
    Cluster cluster = makeCluster(image.size());
    cluster.train(image);
    clusters.insert(std::make_pair(label, cluster));''')],
 'cw-semi-find': [(CW,'''      if(labels.find(i) != labels.end()){
        train(images[i], labels[i]);
      }''','''      auto label = labels.find(i);
      if(label == labels.end()) continue;
      train(images[i], label->second);''')],
 'cw-semi-rangefor': [(CW,'''    for(unsigned int i=0; i<labelless.size(); i++){
      if(verbose) std::cout << "\\rtraining unsupervised " << i+1 << " of " << labelless.size();
      train(images[labelless[i]]);
    }''','''    unsigned int done = 0;
    for(int index : labelless){
      if(verbose) std::cout << "\\rtraining unsupervised " << ++done << " of " << labelless.size();
      train(images[index]);
    }''')],
 'cw-classify-key': [(CW,'''      for(unsigned int j=0; j<votes.size(); j++){
        allvotes[i->first+std::string("::")+std::to_string(j)] = votes[j];
      }''','''      const std::string prefix = i->first + "::";
      for(unsigned int j=0; j<votes.size(); j++){
        allvotes.insert(std::make_pair(prefix + std::to_string(j), votes[j]));
      }''')],
 'cw-check-merge': [(CW,'''    if(minScore < 0 || minScore > 1){
      throw Exception("min score must be between 0 and 1 inclusive!");
    }
    if(threshold < 1){
      throw Exception("threshold must be bigger than 0!");
    }
    if(discriminatorsLimit < 1){
      throw Exception("discriminators limit must be bigger than 0!");
    }''','''    const bool scoreOk = !(minScore < 0) && !(minScore > 1);
    if(!scoreOk) throw Exception("min score must be between 0 and 1 inclusive!");
    if(threshold <= 0) throw Exception("threshold must be bigger than 0!");
    if(discriminatorsLimit <= 0) throw Exception("discriminators limit must be bigger than 0!");''')],
 'cw-unsup-make': [(CW,'''      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
    }
    for(unsigned int i=0; i<images.size(); i++){
      unsupervisedCluster.train(images[i]);
    }''','''      unsupervisedCluster = makeCluster(images.front().size());
    }
    for(const auto& image : images) unsupervisedCluster.train(image);''')],
 'cw-restore-helper': [(CW,'''          nl::json d = it.value();
          d.merge_patch(dConfig);
          clusters[it.key()] = Cluster(d);''','''          nl::json d(it.value());
          d.merge_patch(dConfig);
          const std::string label = it.key();
          clusters.insert(std::make_pair(label, Cluster(d)));''')],
 'k-zero-init': [(K,'''    std::vector<int> output(kernels.size()*bitsByKernel);
    for(unsigned int i=0; i<output.size(); i++) output[i]=0;
''','''    std::vector<int> output(kernels.size()*bitsByKernel, 0);
'''),(K,'''    for(unsigned int i=0; i<distances.size(); i++) distances[i] = {0,0};
''','''    for(auto& distance : distances) distance.assign(2, 0.0);
''')],
 'k-mean-columns': [(K,'''    std::vector<double> output(dim);
    for(unsigned int i=0; i<output.size(); i++) output[i]=0;
    for(unsigned int i=0; i<sequenceData.size(); i++){
      for(int j=0; j<dim; j++){
        output[j] += sequenceData[i][j];
      }
    }
    for(unsigned int i=0; i<output.size(); i++) output[i] /=sequenceData.size();
    return output;''','''    std::vector<double> output(dim, 0.0);
    for(int j=0; j<dim; j++){
      for(const auto& point : sequenceData) output[j] += point[j];
      output[j] /= sequenceData.size();
    }
    return output;''')],
 'k-dist-helper': [(K,'''        for(int j=0; j<dim; j++){
          double diff = (point[j] - kernels[i][j]);
          distance += diff*diff;
        }
      }
      distances''','''        distance = squared(point, kernels[i]);
      }
      distances'''),(K,'''  void activateKernels(''','''  double squared(const std::vector<double>& a, const std::vector<double>& b) const{
    double total = 0;
    for(int j=0; j<dim; j++){
      const double d = a[j] - b[j];
      total += d*d;
    }
    return total;
  }

  void activateKernels(''')],
 'k-setup-order': [(K,'''    numberOfKernelsToActivate = (int)round(activationDegree*numberOfKernels);
    kernels.resize(numberOfKernels);
    int currentDim = dim;
    amplifyDim = 0;
    if(useDirection) {
      amplifyDim = dim + 2*(dim-1);
      currentDim = amplifyDim * 3;
    }

    for(int i=0; i<numberOfKernels; i++){
      kernels[i].resize(currentDim);
      for(int d=0; d<currentDim; d++){
        kernels[i][d] = randdouble(-1.0,1.0);
      }
    }''','''    amplifyDim = useDirection ? 3*dim - 2 : 0;
    const int currentDim = useDirection ? 3*amplifyDim : dim;
    kernels.resize(numberOfKernels);
    for(auto& kernel : kernels){
      kernel.resize(currentDim);
      for(auto& coordinate : kernel) coordinate = randdouble(-1.0,1.0);
    }
    numberOfKernelsToActivate = (int)round(activationDegree*numberOfKernels);''')],
 'k-switch-rotate': [(K,'''    int temp = ix[2];
    ix[2] = ix[1];
    ix[1] = ix[0];
    ix[0] = temp;
    return temp;''','''    const int last = ix[2];
    for(int i=2; i>0; i--) ix[i] = ix[i-1];
    ix[0] = last;
    return last;''')],
 'k-transform-first': [(K,'''      calculatePoint(point,sequenceData,i,means,stds,pi,first);
      first = false;
''','''      calculatePoint(point,sequenceData,i,means,stds,pi,i == 0);
'''),(K,'''    bool first = true;

''','''''')],
 's-make-find': [(S,'''      if(cube[i].find(index) == cube[i].end()){
        out[i] = 0;
      }
      else{
        out[i] = cube[i][index];
      }''','''      auto bit = cube[i].find(index);
      out[i] = bit != cube[i].end() ? bit->second : 0;''')],
 's-cube-min': [(S,'''      int intensity = mentalImage[i];
      std::vector<int> indexes(maxData);

      for(unsigned int j=0; j<indexes.size(); j++) indexes[j]=j;
      random_shuffle(indexes.begin(),indexes.end());

      for(unsigned int j=0; j<indexes.size(); j++){
        if(intensity <= 0) break;
        cube[i][indexes[j]] = 1;
        intensity--;
      }''','''      std::vector<int> indexes;
      for(int j=0; j<maxData; j++) indexes.push_back(j);
      random_shuffle(indexes.begin(),indexes.end());

      const int intensity = mentalImage[i];
      for(int j=0; j<maxData && j<intensity; j++){
        cube[i][indexes[j]] = 1;
      }''')],
 'ww-key-local': [(WW,'''      if(std::string(py::str(arg.first)).compare("bleachingActivated") == 0)
        bleachingActivated = arg.second.cast<bool>();

      if(std::string(py::str(arg.first)).compare("verbose") == 0)
        verbose = arg.second.cast<bool>();

      if(std::string(py::str(arg.first)).compare("ignoreZero") == 0)
        ignoreZero = arg.second.cast<bool>();
''','''      const std::string key = py::str(arg.first);
      if(key == "bleachingActivated")
        bleachingActivated = arg.second.cast<bool>();
      else if(key == "verbose")
        verbose = arg.second.cast<bool>();
      else if(key == "ignoreZero")
        ignoreZero = arg.second.cast<bool>();
''')],
 'ww-degrees-list': [(WW,'''    float total = 0;
    int index = 0;
    py::list output(candidates.size());
    for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i) total += i->second;
    if(total == 0) total=1;
''','''    py::list output(candidates.size());
    int index = 0;
    float total = 0;
    for(const auto& candidate : candidates) total += candidate.second;
    total = total == 0 ? 1 : total;
''')],
 'cww-votes-find': [(CWW,'''      int votes = candidates.count(label) > 0 ? candidates[label] : 0;
''','''      auto winner = candidates.find(label);
      const int votes = winner != candidates.end() ? winner->second : 0;
''')],
 'cww-output-early': [(CWW,'''      if(returnConfidence || returnActivationDegree || returnClassesDegrees){
        labels[i] = py::dict(py::arg("class")=aClass);
      }
''','''      if(!(returnConfidence || returnActivationDegree || returnClassesDegrees)){
        labels[i] = aClass;
        continue;
      }
      labels[i] = py::dict(py::arg("class")=aClass);
'''),(CWW,'''      if(!returnActivationDegree && !returnConfidence && !returnClassesDegrees){
        labels[i] = aClass;
      }
''','')],
 'dw-elseif': [(DW,'''      if(std::string(py::str(arg.first)).compare("completeAddressing") == 0)''','''      else if(std::string(py::str(arg.first)).compare("completeAddressing") == 0)'''),(DW,'''    if (mapping.size() != 0)
    {
      setRAMByMapping(mapping, ignoreZero, base);
    }
    else if (indexes.size() != 0)
    {
      setRAMByIndex(indexes, addressSize, ignoreZero, base);
    }
    else
    {
      setRAMShuffle(addressSize, ignoreZero, completeAddressing, base);
    }''','''    if (!mapping.empty())
    {
      setRAMByMapping(mapping, ignoreZero, base);
      return;
    }
    if (!indexes.empty())
    {
      setRAMByIndex(indexes, addressSize, ignoreZero, base);
      return;
    }
    setRAMShuffle(addressSize, ignoreZero, completeAddressing, base);''')],
}
bug = {}
