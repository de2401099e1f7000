# planted bugs, third set (same form as seeds_a.py): state that is kept beside the model, and numbers and texts far from the usual
R='models/wisard/ram.cc'; D='models/wisard/discriminator.cc'; W='models/wisard/wisard.cc'; C='models/cluswisard/cluster.cc'; CW='models/cluswisard/cluswisard.cc'
B='common/bleaching.cc'; U='common/utils.cc'; BI='data/bininput.cc'; DS='data/dataset.cc'; H='models/wisard/ramdatahandle.cc'
_V='''    auto it = positions.find(index);
    if(it == positions.end()){
      return 0;
    }
    else{
      return it->second;
    }
  }


private:
'''
_CV='''    if(remembered && index == lastIndex) return lastVote;
    auto it = positions.find(index);
    lastVote = it == positions.end() ? 0 : it->second;
    lastIndex = index;
    remembered = true;
    return lastVote;
  }


private:
  bool remembered = false;
  addr_t lastIndex = 0;
  content_t lastVote = 0;
'''
seeds = {
'c07-stale-vote': ('C07', 'asking for a pattern, unlearning it and asking again', 'a RAM remembers its last answer and forgets it on learning only',
 [(R,_V,_CV),(R,'''    auto it = positions.find(index);
    if(it == positions.end()){
      positions.insert''','''    remembered = false;
    auto it = positions.find(index);
    if(it == positions.end()){
      positions.insert''')], 'cc', '''
  wp::RAM r(V{0,1}); V x{1,0};
  r.train(x); ok(r.getVote(x) == 1, "vote");
  r.untrain(x); ok(r.getVote(x) == 0, "vote after unlearning");'''),
'c28-stale-image': ('C28', 'a mental image asked for before and after an example is unlearned', 'the mental image is kept and not made again after unlearning',
 [(D,'''    std::vector<int> mentalImage(entrySize, 0);
''','''    if(drawn == count && drawn > 0) return drawing;
    std::vector<int> mentalImage(entrySize, 0);
'''),(D,'''    return mentalImage;
  }
''','''    drawing = mentalImage;
    drawn = count;
    return drawing;
  }
'''),(D,'''  int entrySize;
  int count;
''','''  std::vector<int> drawing;
  int drawn = 0;
  int entrySize;
  int count;
''')], 'cc', '''
  wp::Discriminator d(2, 4); V a{1,1,1,1}, b{1,0,0,0}, z{0,0,0,0};
  d.train(a); V m1 = d.getMentalImage(); ok(m1 == V({1,1,1,1}), "image");
  d.untrain(a); d.train(b); V m2 = d.getMentalImage();
  ok(m2 == V({1,0,0,0}), "image after another example");'''),
'c10-label-cut': ('C10', 'a label of more than 255 characters', 'a saved data set has long labels cut',
 [(DS,'''    if(label.size()>0) labels[data.size()]=label;
    data.push_back(input);''','''    if(label.size()>0) labels[data.size()]=label.substr(0, 255);
    data.push_back(input);''')], 'cc', '''
  string l(300, 'x');
  { wp::DataSet d; d.add(wp::BinInput(vector<short>{1,0,1}), l); d.save("long"); }
  wp::DataSet e("long.wpkds"); ok(e.getLabel(0) == l, "long label");'''),
'c13-long-name': ('C13', 'a class with a name of more than 64 characters that wins', 'classes with long names are never reported',
 [(B,'''      if(i->second >= biggest){
        biggest''','''      if(i->second >= biggest && i->first.size() <= 64){
        biggest''')], 'cc', '''
  string l(80, 'n'); wp::Wisard w(2, {});
  w.train(VV{{1,1,1,1},{0,0,0,0}}, VS{l, "b"});
  ok(w.classify(VV{{1,1,1,1}})[0] == l, "winner with a long name");'''),
'c13-reserved-name': ('C13', 'a class named "none"', 'the class named none is never reported',
 [(B,'''      if(i->second >= biggest){
        biggest''','''      if(i->second >= biggest && i->first != "none"){
        biggest''')], 'cc', '''
  wp::Wisard w(2, {});
  w.train(VV{{1,1,1,1},{0,0,0,0}}, VS{"none", "b"});
  ok(w.classify(VV{{1,1,1,1}})[0] == "none", "winner");'''),
'c09-empty-class': ('C09', 'a class whose examples were all unlearned again', 'a class with the count 0 is saved without its counters',
 [(D,'''    config["data"] = getRAMsData(huge, prefix);
    return config;''','''    if(count != 0) config["data"] = getRAMsData(huge, prefix);
    return config;''')], 'cc', '''
  wp::Wisard w(2, {}); V a{1,1,1,1}, b{1,0,1,0};
  w.train(VV{a}, VS{"x"}); w.leaveOneOut(b, "x");
  wp::Wisard v(w.json());
  auto m1 = w.getMentalImages(), m2 = v.getMentalImages();
  ok(m1 == m2, "counters of the class");'''),
'c07-negative-stop': ('C07', 'a pattern unlearned more than 100 times more often than learned', 'counters stop at -100',
 [(R,'''        it->second--;''','''        if(it->second > -100) it->second--;''')], 'cc', '''
  wp::RAM r(V{0,1}); V x{1,0};
  r.train(x); for(int i=0;i<200;i++) r.untrain(x);
  for(int i=0;i<200;i++) r.train(x);
  ok(r.getVote(x) == 1, "vote after as many examples as were unlearned");'''),
'c24-wide-entry': ('C24', 'an entry of 256 positions or more that the address size does not divide', 'wide entries are not covered by complete addressing',
 [(D,'''    if(completeAddressing && remain > 0) {''','''    if(completeAddressing && remain > 0 && entrySize < 256) {''')], 'cc', '''
  wp::Discriminator d(3, 400);
  ok(d.getNumberOfRAMS() == 134, "RAMs of a wide entry");'''),
'c12-many-left': ('C12', 'more than 500 examples unlearned at once', 'only the first 500 examples are unlearned',
 [(W,'''    for(unsigned int i=0; i<images.size(); i++){
      if(verbose) std::cout << "\\runtraining''','''    for(unsigned int i=0; i<images.size() && i<500; i++){
      if(verbose) std::cout << "\\runtraining''')], 'cc', '''
  wp::Wisard w(2, {}); VV x(600, V{1,1}); VS y(600, "a");
  w.train(x, y); w.leaveMoreOut(x, y);
  ok(w.getMentalImages()["a"] == V({0,0}), "examples unlearned");'''),
'c11-far-index': ('C11', 'a packed input of more than 4096 bits', 'bits beyond the 4096th are read from the last section before it',
 [(BI,'''    int section = index/8;
    int sectionIndex = 7-(index%8);
    return''','''    int section = index/8 > 511 ? 511 : index/8;
    int sectionIndex = 7-(index%8);
    return''')], 'cc', '''
  wp::BinInput b(6000); b.set(5000, 1);
  ok(b.get(5000) == 1 && b.get(5008) == 0, "far bit");'''),
}
