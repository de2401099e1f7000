# planted bugs, second set (same form as seeds_a.py)
R='models/wisard/ram.cc'; D='models/wisard/discriminator.cc'; W='models/wisard/wisard.cc'; C='models/cluswisard/cluster.cc'; CW='models/cluswisard/cluswisard.cc'
B='common/bleaching.cc'; U='common/utils.cc'; BI='data/bininput.cc'; DS='data/dataset.cc'; H='models/wisard/ramdatahandle.cc'; K='binarization/kernelcanvas.cc'; S='synthetic_data/synthesizers.cc'
WW='wrappers/wisardwrapper.cc'; CWW='wrappers/cluswisardwrapper.cc'; DW='wrappers/discriminatorwrapper.cc'; BIND='wisard_bind.cc'; T='common/definetypes.cc'
seeds = {
'c17-late-check': ('C17', 'a discriminator with the address size 0', 'the number of RAMs is computed before the address size is checked',
 [(D,'''    checkAddressSize(entrySize, addressSize);
    checkBase(base);
    count=0;

    int numberOfRAMS = entrySize / addressSize;
    int remain = entrySize % addressSize;''','''    int numberOfRAMS = entrySize / addressSize;
    int remain = entrySize % addressSize;
    checkAddressSize(entrySize, addressSize);
    checkBase(base);
    count=0;
''')], 'cc', '''
  ok(throws([&]{ wp::Discriminator d(0, 4); }), "address size 0");'''),
'c17-score': ('C17', 'the score of votes that are all zero', 'the score of an input no RAM knows is 0/0',
 [(C,'''    if(max==0) return 0;
''','''    if(votes.empty()) return 0;
''')], 'cc', '''
  wp::Cluster c(4, 2, 0.1f, 10, 5);
  ok(c.getScore(V{0,0}) == 0, "score");'''),
'c19-no-close': ('C19', 'a data set saved to a disk that is full', 'the stream is asked for errors while the text is still in its buffer',
 [(DS,'''    dataFile.close();
    if(dataFile.fail()){
      throw Exception("The file of the data set can not be written!");
    }''','''    if(dataFile.fail()){
      throw Exception("The file of the data set can not be written!");
    }''')], 'cc', '''
  int unused = system("ln -s /dev/full full.wpkds"); (void)unused;
  wp::DataSet d; d.add(wp::BinInput(vector<short>{1,0,1}), "a");
  ok(throws([&]{ d.save("full"); }), "full disk");'''),
'c21-config-json': ('C21', 'the configuration of a trained ClusWisard, read in Python', 'jsonConfig of ClusWisard gives the whole model',
 [(BIND,'''.def("jsonConfig", &ClusWisardWrapper::jsonConfig)''','''.def("jsonConfig", (std::string (ClusWisardWrapper::*)()) &ClusWisardWrapper::json)''')], 'py', '''
c = wp.ClusWisard(2, 0.1, 1, 2)
c.train([[1,1,1,1]], ["a"])
ok('"data"' not in c.jsonConfig(), "configuration with data")'''),
'c18-unset-flag': ('C18', 'a ClusWisard made without options, in memory used before', 'the flag bleachingActivated has no value when the option is left out',
 [(CW,'''value = options["bleachingActivated"];
    bleachingActivated = value.is_null() ? true : value.get<bool>();

    value = options["verbose"];''','''value = options["bleachingActivated"];
    if(!value.is_null()) bleachingActivated = value.get<bool>();

    value = options["verbose"];''')], 'cc', '''
  set<string> seen;
  for(int i=0;i<2;i++){
    alignas(wp::ClusWisard) static char mem[sizeof(wp::ClusWisard)]; memset(mem, i, sizeof mem);
    auto c = new(mem) wp::ClusWisard(2, 0.5f, 2, 2, {});
    seen.insert(c->jsonConfig()); c->~ClusWisard();
  }
  ok(seen.size() == 1, "flag");'''),
'c01-json-drop': ('C01', 'saving a model that has an unnamed class and several others', 'saving removes the unnamed class',
 [(W,'''    nl::json config = getConfig();
    config["classes"] = getClassesJSON(huge,path);
    return config.dump();''','''    if(discriminators.size() > 3) discriminators.erase("");
    nl::json config(getConfig());
    config["classes"] = getClassesJSON(huge,path);
    return config.dump();''')], 'cc', '''
  wp::Wisard w(2, {{"indexes", V{0,1,2,3}}});
  w.train(VV{{1,1,1,1},{0,0,0,0},{1,0,1,0},{0,1,0,1}}, {"a","b","c",""});
  w.json();
  ok(w.getMentalImages().size() == 4, "classes after saving");'''),
'c04-no-rams': ('C04', 'a discriminator without RAMs given an input of another size', 'the size of the input is checked only when there are RAMs',
 [(D,'''    checkEntrySize(image.size());
    std::vector<int> votes(rams.size());''','''    if(!rams.empty()) checkEntrySize(image.size());
    std::vector<int> votes(rams.size());''')], 'cc', '''
  wp::Discriminator d(4);
  ok(throws([&]{ d.classify(V{1,0,1}); }), "size");'''),
'c05-leave-batch': ('C05', 'unlearning a batch whose labels do not match, the first ones of which do', 'the sizes are compared after a part of the batch has been unlearned',
 [(W,'''    checkInputSizes(images.size(), labels.size());
    for(unsigned int i=0; i<images.size(); i++){
      if(verbose) std::cout << "\\runtraining " << i+1 << " of " << images.size();
      leaveOneOut(images[i], labels[i]);
    }''','''    for(unsigned int i=0; i<std::min(images.size(), labels.size()); i++){
      if(verbose) std::cout << "\\runtraining " << i+1 << " of " << images.size();
      leaveOneOut(images[i], labels[i]);
    }
    checkInputSizes(images.size(), labels.size());''')], 'cc', '''
  wp::Wisard w(2, {{"indexes", V{0,1,2,3}}});
  w.train(VV{{1,1,1,1}}, {"a"});
  string before = w.json();
  ok(throws([&]{ w.leaveMoreOut(VV{{1,1,1,1},{1,1,1,1}}, {"a"}); }), "sizes");
  ok(w.json() == before, "trace");'''),
'c09-threshold-cap': ('C09', 'a ClusWisard with a large threshold that learns on after it has been restored', 'clusters restored have a threshold of at most 100',
 [(CW,'''        {"threshold", threshold},
        {"discriminatorsLimit", discriminatorsLimit},
        {"completeAddressing", completeAddressing},''','''        {"threshold", threshold > 100 ? 100 : threshold},
        {"discriminatorsLimit", discriminatorsLimit},
        {"completeAddressing", completeAddressing},''')], 'cc', '''
  bool seen = false;
  for(int k=0;k<20 && !seen;k++){
    wp::ClusWisard a(2, 0.1f, 500, 3);
    for(int i=0;i<150;i++) a.train(VV{{1,1,1,1}}, {"x"});
    wp::ClusWisard b(a.json());
    a.train(VV{{1,1,0,0}}, {"x"}); b.train(VV{{1,1,0,0}}, {"x"});
    ok(a.getMentalImage("x").size() == b.getMentalImage("x").size(), "clusters");
  }'''),
'c14-bias': ('C14', 'bleaching that needs more than 255 rounds', 'the threshold is kept in one byte',
 [(B,'''    int bleaching = 1;
    std::tuple<bool,int> ambiguity;

    do{''','''    unsigned char bleaching = 1;
    std::tuple<bool,int> ambiguity;

    do{''')], 'cc', '''
  map<string,vector<int>> v = {{"a",{300,300}},{"b",{290,280}}};
  auto r = wp::Bleaching::make(v, true, false, 1);
  ok(r["b"] < r["a"], "winner");'''),
'c15-count-int': ('C15', 'a cluster whose score lies between the minimum and the grown limit', 'the limit grows in whole steps',
 [(C,'float limit = minScore + count/threshold;','float limit = minScore + (int)count/threshold;')], 'cc', '''
  // the discriminator asked for twice: count 1, threshold 2, limit 0.4+0.5
  srand(1);
  wp::Cluster c(4, 2, 0.4f, 2, 5);
  c.train(V{1,1,1,1}); 
  // half of the RAMs know the second pattern
  bool grew = false;
  for(V v : VV{{1,1,0,0},{1,0,1,0},{1,0,0,1},{0,1,1,0},{0,1,0,1},{0,0,1,1}}){
    wp::Cluster k(4, 2, 0.4f, 2, 5);
    k.train(V{1,1,1,1});
    auto s = k.getScore(k.classify(v)[0]);
    if(s > 0.4f && s < 0.9f){ k.train(v); grew = true; ok(k.getSize() == 2, "a discriminator of its own"); }
  }
  ok(grew, "no pattern with half of the votes");'''),
'c12-set-last': ('C12', 'a data set with unlabelled entries in the middle', 'the labels are numbered by themselves',
 [(DS,'''    if(label.size()>0) labels[data.size()]=label;
    data.push_back(BinInput(input));''','''    if(label.size()>0) labels[labels.size()]=label;
    data.push_back(BinInput(input));''')], 'cc', '''
  wp::DataSet d;
  d.add(vector<short>{1,0}); d.add(vector<short>{1,1}, "b");
  bool t = throws([&]{ d.getLabel(0); });
  ok(t && d.getLabel(1) == "b", "label of the second");'''),
'c24-pool': ('C24', 'an entry larger than 32767 positions', 'the extra positions come from the first 32768 only',
 [(D,'indexes[i] = randint(0, entrySize-1, false);','indexes[i] = randint(0, std::min(entrySize, 4)-1, false);')], 'cc', '''
  set<int> seen;
  for(int k=0;k<60;k++){
    wp::Discriminator d(7, 8);
    auto j = wp::nl::json::parse(d.json());
    map<int,int> c; for(auto& a : j["mapping"]) for(int x : a) c[x]++;
    for(auto& x : c) if(x.second > 1) seen.insert(x.first);
  }
  bool high = false; for(int x : seen) if(x >= 4) high = true;
  ok(high, "extra positions");'''),
'c28-neg': ('C28', 'a counter below zero', 'symbols unlearned more often than learned are left out',
 [(R,'''        if(address[i] > 0){
          mentalPiece[i][1] += j->second;''','''        if(address[i] > 0 && j->second > -2){
          mentalPiece[i][1] += j->second;''')], 'cc', '''
  wp::Discriminator d(V{0,1,2,3}, 2, 4);
  d.train(V{1,1,1,1});
  for(int i=0;i<4;i++) d.untrain(V{1,1,1,1});
  ok(d.getMentalImage() == V{-3,-3,-3,-3}, "image");'''),
'c16-piece': ('C16', 'a mental image of a mapping with a position of the entry beyond the last RAM', 'the image is as long as the addresses of the RAMs',
 [(D,'std::vector<int> mentalImage(entrySize, 0);','std::vector<int> mentalImage(rams.empty() ? entrySize : std::min<size_t>(entrySize, rams.size()*rams[0].getAddressSize()), 0);')], 'cc', '''
  wp::Discriminator d(VV{{0,5}}, 6);
  d.train(V{1,1,1,1,1,1});
  ok(d.getMentalImage() == V{1,0,0,0,0,1}, "image");'''),
'c26-last': ('C26', 'a mental image whose positions all have the same count', 'positions with the highest count may be left out',
 [(S,'INSERT','INSERT')], 'cc', ''),
}
del seeds['c26-last'], seeds['c24-pool']
