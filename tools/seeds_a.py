# planted bugs: id -> (property, needs, what it breaks, edits, demo kind, demo body)
R='models/wisard/ram.cc'; D='models/wisard/discriminator.cc'; W='models/wisard/wisard.cc'; C='models/cluswisard/cluster.cc'; CW='models/cluswisard/cluswisard.cc'
B='common/bleaching.cc'; U='common/utils.cc'; BI='data/bininput.cc'; DS='data/dataset.cc'; H='models/wisard/ramdatahandle.cc'; K='binarization/kernelcanvas.cc'; S='synthetic_data/synthesizers.cc'
WW='wrappers/wisardwrapper.cc'; CWW='wrappers/cluswisardwrapper.cc'; DW='wrappers/discriminatorwrapper.cc'; BIND='wisard_bind.cc'; T='common/definetypes.cc'
seeds = {
'c01-vote-writes': ('C01', 'a classification of a pattern no RAM has seen, followed by an export', 'voting stores an empty counter for every unseen address, so classifying changes what is exported',
 [(R,'''    auto it = positions.find(index);
    if(it == positions.end()){
      return 0;
    }
    else{
      return it->second;
    }''','''    return positions[index];''')], 'cc', '''
  wp::Discriminator d(2, 4, {{"indexes", V{0,1,2,3}}});
  d.train(V{1,0,1,0});
  string before = d.json();
  d.classify(V{0,1,1,1});
  ok(d.json() == before, "json after classify");'''),
'c01-mental-clamp': ('C01', 'a counter below zero (unlearned more often than learned) and a mental image read in between', 'reading the mental image resets negative counters',
 [(R,'          mentalPiece[i][1] += j->second;','          if(j->second < 0) j->second = 0; mentalPiece[i][1] += j->second;')], 'cc', '''
  wp::Discriminator d(2, 4, {{"indexes", V{0,1,2,3}}});
  d.train(V{1,1,1,1}); d.untrain(V{1,1,1,1}); d.untrain(V{1,1,1,1});
  auto v = d.classify(V{1,1,1,1});
  d.getMentalImage();
  ok(d.classify(V{1,1,1,1}) == v, "votes after mental image");'''),
'c02-shared-scores': ('C02', 'two models with different classes classifying in turn', 'the score table is process wide, classes of one model show up in the answers of another',
 [(B,'''    std::map<std::string, int> labels;
    int bleaching = 1;''','''    static std::map<std::string, int> labels;
    if(allvotes.size() > labels.size()) labels.clear();
    int bleaching = 1;''')], 'cc', '''
  wp::Wisard a(2, {{"indexes", V{0,1,2,3}}}), b(2, {{"indexes", V{0,1,2,3}}});
  a.train(VV{{1,1,1,1},{0,0,0,0}}, {"x","z"});
  b.train(VV{{0,1,0,1}}, {"m"});
  a.classify(VV{{1,1,1,1}});
  auto r = b.classify(VV{{1,0,1,0}});
  ok(r[0] == "m", "class of another model");'''),
'c02-dataset-ref': ('C02', 'a label that is looked up in two data sets of the process', 'labels are cached in a process wide table keyed by position only',
 [(DS,'''    return labels.at(index);''','''    static std::unordered_map<index_size_t,std::string> recent;
    auto it = recent.find(index);
    if(it == recent.end() || labels.find(index) == labels.end()){
      it = recent.insert(std::make_pair(index, labels.at(index))).first;
    }
    return it->second;''')], 'cc', '''
  wp::DataSet a, b; vector<short> s = {1,0,1};
  a.add(s, "left"); b.add(s, "right");
  a.getLabel(0);
  ok(b.getLabel(0) == "right", "label of the other data set");'''),
'c03-random-tie': ('C03', 'two classes with exactly the same highest score', 'ties are broken by the random source, so the same question gets different answers',
 [(B,'      if(i->second >= biggest){\n        biggest = i->second;\n        label','      if(i->second > biggest || (i->second == biggest && (label.empty() || std::rand()%2 == 0))){\n        biggest = i->second;\n        label')], 'cc', '''
  wp::Wisard a(2, {{"indexes", V{0,1,2,3}}});
  a.train(VV{{1,1,1,1},{1,1,1,1},{1,1,1,1}}, {"x","y","z"});
  auto r = a.classify(VV{{1,1,1,1}});
  for(int i=0; i<200; i++) ok(a.classify(VV{{1,1,1,1}}) == r, "answer changes");'''),
'c03-batch-carry': ('C03', 'an input nobody recognises behind a recognised one in the same batch', 'an unrecognised input is answered with the class of its predecessor in the batch',
 [(W,'''      labels[i] = Bleaching::getBiggestCandidate(candidates);''','''      std::string best = Bleaching::getBiggestCandidate(candidates);
      labels[i] = (i > 0 && candidates[best] == 0) ? labels[i-1] : best;''')], 'cc', '''
  wp::Wisard a(2, {{"indexes", V{0,1,2,3}}});
  a.train(VV{{1,1,1,1},{0,0,0,0}}, {"x","y"});
  auto alone = a.classify(VV{{1,0,1,0}});
  auto both = a.classify(VV{{1,1,1,1},{1,0,1,0}});
  ok(alone[0] == both[1], "answer depends on the batch");'''),
'c04-confidence-le': ('C04', 'a confidence one above the number of RAMs', 'a confidence that exceeds the number of RAMs by one is accepted',
 [(W,'    if(confidence > numberOfRAMS){','    if(confidence > numberOfRAMS+1){')], 'cc', '''
  wp::Wisard a(2, {{"confidence", 3}});
  ok(throws([&]{ a.train(VV{{1,1,1,1}}, {"x"}); }), "confidence 3 with 2 RAMs");'''),
'c05-late-confidence': ('C05', 'a confidence larger than the number of RAMs', 'the batch is learned before it is refused',
 [(W,'''    checkConfidence(numberOfRAMS);
    for(unsigned int i=0; i<images.size(); i++){
      if(verbose) std::cout << "\\rtraining " << i+1 << " of " << images.size();
      train<std::vector<int>>(images[i], labels[i]);
    }''','''    for(unsigned int i=0; i<images.size(); i++){
      if(verbose) std::cout << "\\rtraining " << i+1 << " of " << images.size();
      train<std::vector<int>>(images[i], labels[i]);
    }
    checkConfidence(numberOfRAMS);''')], 'cc', '''
  wp::Wisard a(2, {{"confidence", 5}});
  ok(throws([&]{ a.train(VV{{1,1,1,1}}, {"x"}); }), "refused");
  ok(a.getMentalImages().size() == 0, "class learned");'''),
'c06-int-weight': ('C06', 'an address of more than 32 binary positions', 'the positional weight is kept in 32 bits, so far positions do not take part in the address',
 [(R,'    addr_t p = 1;\n','    unsigned int p = 1;\n')], 'cc', '''
  V m(40); for(int i=0;i<40;i++) m[i]=i;
  wp::RAM r(m);
  V a(40,0), b(40,0); b[36]=1;
  r.train(a);
  ok(r.getVote(b) == 0, "different pattern shares a counter");'''),
'c06-short-key': ('C06', 'an address above 2^32 read back through a RAM data handle', 'addresses are read back from text with half their width',
 [(H,'addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));','addr_t address = convertToValue<unsigned int>(decodedData.substr(i,sizeof(addr_t)));')], 'cc', '''
  wp::ram_t data; data[(1ULL<<40)+5] = 7; data[5] = 3;
  wp::RAMDataHandle h(data); wp::RAMDataHandle g(h.data());
  ok(g.get(0,(1ULL<<40)+5) == 7 && g.get(0,5) == 3, "address lost");'''),
'c07-capped': ('C07', 'more than 32767 examples of one pattern', 'counters stop at 32767',
 [(R,'''    else{
      it->second++;
    }''','''    else if(it->second < 32767){
      it->second++;
    }''')], 'cc', '''
  wp::RAM r(V{0,1});
  for(int i=0;i<33000;i++) r.train(V{1,1});
  ok(r.getVote(V{1,1}) == 33000, "count");'''),
'c07-zero-vote': ('C07', 'zeros ignored and a pattern whose first symbol is zero but which is not all zero', 'patterns starting with zero are taken for the all zero pattern',
 [(R,'    if(ignoreZero && index == 0)\n','    if(ignoreZero && index%base == 0)\n')], 'cc', '''
  wp::RAM r(V{0,1}, true);
  r.train(V{0,1});
  ok(r.getVote(V{0,1}) == 1, "vote");'''),
'c08-mapping-base': ('C08', 'a mapping given for the label together with a base other than 2', 'discriminators made from a mapping fall back to base 2',
 [(D,'''int entrySize, bool ignoreZero = false, int base = 2) : entrySize(entrySize){
    setRAMByMapping(mapping, ignoreZero, base);''','''int entrySize, bool ignoreZero = false, int base = 2) : entrySize(entrySize){
    setRAMByMapping(mapping, ignoreZero);''')], 'cc', '''
  map<string, vector<V>> m; m["x"] = {{0,1},{2,3}};
  wp::Wisard a(2, {{"mapping", m},{"base",4}});
  ok(!throws([&]{ a.train(VV{{3,1,2,3}}, {"x"}); }), "symbols of base 4");'''),
'c08-index-zero': ('C08', 'explicit indexes together with ignoreZero and a base other than 2', 'ignoreZero is dropped for symbols that are not binary',
 [(D,'''    rams = std::vector<RAM>(numberOfRAMS);

    for(unsigned int i=0; i<rams.size(); i++){
      std::vector<int> subIndexes(indexes.begin() + (i*addressSize), indexes.begin() + ((i+1)*addressSize));
      rams[i] = RAM(subIndexes, ignoreZero, base);''','''    rams = std::vector<RAM>(numberOfRAMS);

    for(unsigned int i=0; i<rams.size(); i++){
      std::vector<int> subIndexes(indexes.begin() + (i*addressSize), indexes.begin() + ((i+1)*addressSize));
      rams[i] = RAM(subIndexes, ignoreZero && base == 2, base);''')], 'cc', '''
  wp::Discriminator d(2, 4, {{"indexes", V{0,1,2,3}},{"base",3},{"ignoreZero",true}});
  d.train(V{0,0,1,2});
  ok(d.classify(V{0,0,1,2})[0] == 0, "zeros counted");'''),
'c09-base': ('C09', 'a saved discriminator with a base other than 2', 'the base written to JSON is not the one in use when it exceeds ten',
 [(R,'      {"base", base}\n','      {"base", base > 10 ? 10 : base}\n')], 'cc', '''
  wp::Discriminator d(2, 4, {{"indexes", V{0,1,2,3}},{"base",16}});
  d.train(V{15,1,2,3});
  wp::Discriminator e(d.json());
  ok(!throws([&]{ ok(e.classify(V{15,1,2,3}) == d.classify(V{15,1,2,3}), "votes"); }), "symbols");'''),
'c09-conf-swap': ('C09', 'a model that reports the confidence but not the activation degree', 'two output settings change places when a model is saved',
 [(W,'      {"returnConfidence", returnConfidence},\n      {"returnActivationDegree", returnActivationDegree},','      {"returnConfidence", returnActivationDegree},\n      {"returnActivationDegree", returnConfidence},')], 'cc', '''
  wp::Wisard a(2, {{"returnConfidence", true}});
  wp::Wisard b(a.json());
  auto c = wp::nl::json::parse(a.json()); auto d = wp::nl::json::parse(b.json());
  struct P: wp::Wisard{ using wp::Wisard::Wisard; bool rc(){ return returnConfidence; } };
  P p(a.json());
  ok(p.rc(), "returnConfidence lost");'''),
'c10-last-byte': ('C10', 'a text of 3n+2 bytes with n > 0 whose last byte matters', 'the last symbol of a five byte text is wrong',
 [(U,'      index = dataIn[i+1] << 2 & 0x3c; // last 4\n      if(sizeIn%3 == 2 && i+3 > sizeIn){','      index = dataIn[i+1] << (i > 0 ? 1 : 2) & 0x3c; // last 4\n      if(sizeIn%3 == 2 && i+3 > sizeIn){'),], 'cc', '''
  for(int n=0;n<20;n++){ string s; for(int i=0;i<n;i++) s += char(i*37+11); ok(wp::Base64::decode(wp::Base64::encode(s)) == s, "round trip"); }'''),
'c10-short-count': ('C10', 'a counter above 32767 written and read back', 'counters are read back with half their width',
 [(H,'content_t value = convertToValue<content_t>(decodedData.substr(i+sizeof(addr_t),sizeof(content_t)));','content_t value = convertToValue<short>(decodedData.substr(i+sizeof(addr_t),sizeof(content_t)));')], 'cc', '''
  wp::ram_t data; data[3] = 70000;
  wp::RAMDataHandle h(data); wp::RAMDataHandle g(h.data());
  ok(g.get(0,3) == 70000, "counter lost");'''),
'c11-negative': ('C11', 'a negative odd value in the list a packed input is made from', 'negative values are written as 0',
 [(BI,'set(i,input[i]);','set(i,input[i] > 0 ? input[i] : 0);')], 'cc', '''
  wp::BinInput b(vector<short>{1,0,-1}), c(3);
  c.set(2, -1);
  ok(b.get(2) == c.get(2), "bit of -1");'''),
'c11-far': ('C11', 'a packed input of more than half a million bits', 'positions of very long packed inputs wrap around when they are read',
 [(BI,'int section = index/8;','int section = (unsigned short)(index/8);')], 'cc', '''
  wp::BinInput b(8*65536+8); b.set(8*65536+3, 1);
  ok(b.get(8*65536+3) == 1, "far bit"); ok(b.get(3) == 0, "near bit");'''),
'c12-unlabelled': ('C12', 'a last example without a label', 'the last example of a partly labelled batch is dropped when it has no label',
 [(CW,'if(labels.find(i) == labels.end()){','if(labels.find(i) == labels.end() && i+1 < images.size()){')], 'cc', '''
  wp::ClusWisard a(2, 0.0, 1, 1, {});
  map<int,string> l; l[0] = "x";
  a.train(VV{{1,1,0,0},{0,1,0,1},{0,1,0,1}}, l);
  auto m = a.getMentalImage("x");
  ok(m[0][3] == 2, "the last example was not learned");'''),
'c12-skip-equal': ('C12', 'the same example twice in a row in one batch', 'an example equal to its predecessor is learned only once',
 [(W,'''      train<std::vector<int>>(images[i], labels[i]);
    }''','''      if(i == 0 || images[i] != images[i-1] || labels[i] != labels[i-1]) train<std::vector<int>>(images[i], labels[i]);
    }''')], 'cc', '''
  wp::Wisard a(2, {{"indexes", V{0,1,2,3}}});
  a.train(VV{{1,1,1,1},{1,1,1,1}}, {"x","x"});
  ok(a.getMentalImages()["x"][0] == 2, "learned once");'''),
'c13-label-cut': ('C13', 'a label that contains a NUL byte', 'the class reported is cut at the first NUL byte',
 [(B,'''        biggest = i->second;
        label = i->first;''','''        biggest = i->second;
        label = i->first.c_str();''')], 'cc', '''
  wp::Wisard a(2, {{"indexes", V{0,1,2,3}}});
  string l("x\\0y", 3);
  a.train(VV{{1,1,1,1}}, VS{l});
  ok(a.classify(VV{{1,1,1,1}})[0] == l, "label");'''),
'c13-confidence': ('C13', 'two classes sharing the highest score', 'the confidence of a tie is reported as zero instead of the lead over the next lower score',
 [(B,'i->second >= secondBiggest && i->second < biggest','i->second >= secondBiggest && i->second <= biggest')], 'cc', '''
  map<string,int> c; c["a"]=4; c["b"]=2;
  ok(wp::Bleaching::getConfidence(c, 4) == 0.5f, "confidence");'''),
'c14-step': ('C14', 'examples repeated so often that the threshold has to rise above 8', 'the threshold rises in steps of two above 8',
 [(B,'      bleaching++;\n      ambiguity','      bleaching += bleaching > 8 ? 2 : 1;\n      ambiguity')], 'cc', '''
  map<string,V> v; v["a"] = V{20,10,20}; v["b"] = V{20,9,20};
  auto r = wp::Bleaching::make(v, true, false, 1);
  ok(r["a"] == 3 && r["b"] == 2, "threshold 10 skipped");'''),
'c14-lead': ('C14', 'a tie in which the leading classes have exactly two votes', 'the rounds stop while the leaders still have two votes each',
 [(B,'std::get<1>(ambiguity) > 1 );','std::get<1>(ambiguity) > 2 );')], 'cc', '''
  map<string,V> v; v["a"] = V{2,2}; v["b"] = V{1,2};
  auto r = wp::Bleaching::make(v, true, false, 1);
  ok(r["a"] == 2 && r["b"] == 1, "rounds stopped early");'''),
'c15-limit': ('C15', 'a cluster that has reached its limit and an example none of its discriminators accepts', 'one discriminator more than the limit is created',
 [(C,'(int)discriminators.size() < discriminatorsLimit','(int)discriminators.size() <= discriminatorsLimit')], 'cc', '''
  wp::Cluster c(4, 2, 0.9, 100, 1);
  c.train(V{1,1,1,1}); c.train(V{0,0,0,0});
  ok(c.getNumberOfDiscriminators() == 1, "limit");'''),
'c15-integer-limit': ('C15', 'a discriminator with fewer trainings than the threshold', 'the acceptance limit is computed in whole numbers, so it does not rise before the threshold is reached',
 [(C,'      float limit = minScore + count/threshold;','      float limit = minScore + (int)count/threshold;')], 'cc', '''
  wp::Cluster c(4, 2, 0.1, 2, 5);
  c.train(V{1,1,1,1}); c.train(V{1,1,1,0});
  ok(c.getNumberOfDiscriminators() == 2, "limit");'''),
'c16-index-range': ('C16', 'explicit indexes with an entry size that is no multiple of the address size', 'the last RAM takes its positions from behind the list of indexes',
 [(D,'''    int numberOfRAMS = entrySize / addressSize;
    rams = std::vector<RAM>(numberOfRAMS);''','''    int numberOfRAMS = (entrySize + addressSize - 1) / addressSize;
    rams = std::vector<RAM>(numberOfRAMS);''')], 'cc', '''
  wp::Discriminator d(V{0,1,2,3,4}, 2, 5);
  ok(d.getNumberOfRAMS() == 2, "a RAM from behind the list");'''),
'c16-bit-range': ('C16', 'a packed input of a multiple of eight positions written at its size', 'the position just behind the packed input can be written',
 [(BI,'''  void set(index_size_t index, int value){
    if(index >= size()) {''','''  void set(index_size_t index, int value){
    if(index > size()) {''')], 'cc', '''
  wp::BinInput b(16);
  ok(throws([&]{ b.set(16, 1); }), "position 16 of 16");'''),
'c18-count': ('C18', 'a discriminator made from a mapping', 'the training count of a discriminator made from a mapping is never set',
 [(D,'''    checkBase(base);
    count=0;

    rams = std::vector<RAM>(mapping.size());''','''    checkBase(base);

    rams = std::vector<RAM>(mapping.size());''')], 'cc', '''
  vector<V> m = {{0,1},{2,3}};
  for(int i=1;i<4;i++){
    alignas(wp::Discriminator) static char mem[sizeof(wp::Discriminator)]; memset(mem, i, sizeof mem);
    auto d = new(mem) wp::Discriminator(m, 4);
    ok(d->getNumberOfTrainings() == 0, "count"); d->~Discriminator();
  }'''),
'c20-search-option': ('C20', 'the option searchBestConfidence of the Python constructor', 'the option searchBestConfidence turns on the confidence output',
 [(WW,'''compare("searchBestConfidence") == 0)
        searchBestConfidence''','''compare("searchBestConfidence") == 0)
        returnConfidence''')], 'py', '''
w = wp.Wisard(2, searchBestConfidence=True)
j = json.loads(w.json())
ok(j["searchBestConfidence"] is True and j["returnConfidence"] is False, "option")'''),
'c20-default-complete': ('C20', 'a discriminator made in Python without options whose entry size is no multiple of the address size', 'the default of completeAddressing differs from the C++ one',
 [(DW,'    bool completeAddressing=true;','    bool completeAddressing=false;')], 'py', '''
d = wp.Discriminator(2, 5)
ok(len(json.loads(d.json())["mapping"]) == 3, "default")'''),
'c21-classify-bound': ('C21', 'classifyUnsupervised called from Python on a model with both kinds of training', 'classifyUnsupervised runs the supervised classification',
 [(BIND,'(const std::vector<std::vector<int>>&)) &ClusWisardWrapper::classifyUnsupervised)','(const std::vector<std::vector<int>>&)) &ClusWisardWrapper::classify)')], 'py', '''
c = wp.ClusWisard(2, 0.1, 1, 2)
c.trainUnsupervised([[1,1,1,1]])
c.train([[1,1,1,1]], ["a"])
ok(c.classifyUnsupervised([[1,1,1,1]])[0] != "a", "supervised answer")'''),
'c22-swallow': ('C22', 'an example that is refused in the middle of a batch', 'refused examples are skipped silently',
 [(W,'''      train<std::vector<int>>(images[i], labels[i]);
    }''','''      try{
        train<std::vector<int>>(images[i], labels[i]);
      }
      catch(const Exception& e){
        if(i == 0) throw;
        if(verbose) std::cout << e.what() << std::endl;
      }
    }''')], 'cc', '''
  wp::Wisard a(2, {});
  ok(throws([&]{ a.train(VV{{1,1,1,1},{1,1,1,7}}, {"x","x"}); }), "swallowed");'''),
'c22-message': ('C22', 'reading the message of a refused mapping', 'the message points into a destroyed string',
 [(D,'throw Exception("The list of indexes contain repeated indexes!");','throw Exception(("The list of indexes contain repeated indexes, one is at position " + std::to_string(i)).c_str());')], 'cc', '''
  string m;
  try{ wp::Discriminator d(V{0,1,1,3}, 2, 4); } catch(exception& e){ string junk(200,'x'); m = e.what(); }
  ok(m.find("The list of indexes contain repeated indexes") == 0, "message");'''),
'c23-stuck': ('C23', 'two classes whose votes are above 32767 and equal', 'the threshold stops rising, so bleaching never ends',
 [(B,'      bleaching++;\n      ambiguity','      if(bleaching < 32767) bleaching++;\n      ambiguity')], 'cc', '''
  map<string,V> v; v["a"] = V{40000}; v["b"] = V{40000}; v["c"] = V{40000,40000}; v["d"] = V{40000,40000};
  auto r = wp::Bleaching::make(v, true, false, 1);
  ok(r["c"] >= 0, "ends");'''),
'c24-remain': ('C24', 'an entry size one above a multiple of the address size', 'the last position stays unused when only one is left over',
 [(D,'''    if(completeAddressing && remain > 0) {''','''    if(completeAddressing && remain > 1) {''')], 'cc', '''
  wp::Discriminator d(2, 5, {});
  auto m = wp::nl::json::parse(d.json())["mapping"];
  set<int> s; for(auto& r: m) for(int x: r) s.insert(x);
  ok(s.size() == 5, "position unused");'''),
'c25-first-digit': ('C25', 'kernels with more than one bit', 'only all but the last digit of a kernel are set',
 [(K,'for(int k=0; k<bitsByKernel; k++) output[kernelIndex*bitsByKernel + k] = 1;','for(int k=0; k<bitsByKernel; k++) output[kernelIndex*bitsByKernel + k*(k < 2 ? 1 : 0)] = 1;')], 'cc', '''
  wp::KernelCanvas k(2, 5, {{"activationDegree", 0.4},{"bitsByKernel",3}});
  auto o = k.transform({{0.1,0.9},{0.7,0.3}});
  for(int i=0;i<5;i++) ok(o[3*i]==o[3*i+1] && o[3*i]==o[3*i+2], "group");'''),
'c26-shared-order': ('C26', 'two or more positions with the same intermediate mental image', 'the examples that set a position are drawn once and shared by the positions behind the first',
 [(S,'      random_shuffle(indexes.begin(),indexes.end());','      if(i == 0) random_shuffle(indexes.begin(),indexes.end());')], 'cc', '''
  V m(65, 1); m[0] = 2;
  wp::Synthesizer s(m); auto o = s.make();
  int n = 0; for(int i=1;i<65;i++) n += o[i];
  ok(n > 0 && n < 64, "positions are set together");'''),
'c27-suffix': ('C27', 'a data set saved through the header and read in Python', 'the header writes data sets with a suffix of its own',
 [('include/wisardpkg.hpp','const std::string dataset_sufix = ".wpkds";','const std::string dataset_sufix = ".wpds";')], 'cc', '''
  wp::DataSet d; d.add(vector<short>{1,0,1}, "x");
  d.save("out");
  ok(ifstream("out.wpkds").good(), "suffix");'''),
'c28-digit': ('C28', 'symbols above 1 (base above 2)', 'only symbols equal to one count in the mental image',
 [(R,'        if(address[i] > 0){','        if(address[i] == 1){')], 'cc', '''
  wp::Discriminator d(2, 4, {{"indexes", V{0,1,2,3}},{"base",3}});
  d.train(V{2,1,0,2});
  ok(d.getMentalImage() == V({1,1,0,1}), "mental image");'''),
'c28-once': ('C28', 'a position used by two RAMs', 'a position used twice is counted once',
 [(D,'        mentalImage[p[0]] += p[1];','        mentalImage[p[0]] = std::max(mentalImage[p[0]], p[1]);')], 'cc', '''
  vector<V> m = {{0,1},{0,2}};
  wp::Discriminator d(m, 3);
  d.train(V{1,1,1});
  ok(d.getMentalImage() == V({2,1,1}), "mental image");'''),
}
