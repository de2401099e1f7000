R='models/wisard/ram.cc';D='models/wisard/discriminator.cc';W='models/wisard/wisard.cc';H='models/wisard/ramdatahandle.cc'
CL='models/cluswisard/cluster.cc';CW='models/cluswisard/cluswisard.cc';B='common/bleaching.cc';U='common/utils.cc'
BI='data/bininput.cc';DS='data/dataset.cc'
VOTE='''    auto it = positions.find(index);
    if(it == positions.end()){
      return 0;
    }
    else{
      return it->second;
    }
  }


private:'''
CVOTE='''    if(cacheValid && index == cachedIndex) return cachedVote;
    auto it = positions.find(index);
    cachedIndex = index;
    cachedVote = it == positions.end() ? 0 : it->second;
    cacheValid = true;
    return cachedVote;
  }


private:
  bool cacheValid = false;
  addr_t cachedIndex = 0;
  content_t cachedVote = 0;'''
UN=(R,'''      if(it != positions.end()){
        it->second--;''','''      if(it != positions.end()){
        cacheValid = false;
        it->second--;''')
TR=(R,'''    auto it = positions.find(index);
    if(it == positions.end()){
      positions.insert''','''    cacheValid = false;
    auto it = positions.find(index);
    if(it == positions.end()){
      positions.insert''')
DCL='''    checkEntrySize(image.size());
    std::vector<int> votes(rams.size());
    for(unsigned int i=0; i<rams.size(); i++){
      votes[i] = rams[i].getVote(image);
    }
    return votes;'''
MENT='''    std::vector<int> mentalImage(entrySize, 0);'''
def mental(untrain):
    return [(D,'''    std::vector<int> mentalImage(entrySize, 0);''','''    if(mentalValid) return mental;
    std::vector<int> mentalImage(entrySize, 0);'''),(D,'''    return mentalImage;
''','''    mental = mentalImage;
    mentalValid = true;
    return mentalImage;
'''),(D,'''    checkSymbols(image);
    count++;''','''    checkSymbols(image);
    mentalValid = false;
    count++;'''),(D,'''  int entrySize;
  int count;
''','''  int entrySize;
  bool mentalValid = false;
  std::vector<int> mental;
  int count;
''')] + ([(D,'''      count--;
''','''      count--;
      mentalValid = false;
''')] if untrain else [])
def wcache(*edits):
    return [(W,'''    std::map<std::string,std::vector<int>> allvotes;

    for(std::map<std::string,Discriminator>::iterator i''','''    std::vector<int> key(image.size());
    for(unsigned int k=0; k<key.size(); k++) key[k] = image[k];
    if(answered && key == lastInput) return lastAnswer;
    std::map<std::string,std::vector<int>> allvotes;

    for(std::map<std::string,Discriminator>::iterator i'''),(W,'''    return Bleaching::make(allvotes, bleachingActivated, searchBestConfidence, confidence);''','''    lastAnswer = Bleaching::make(allvotes, bleachingActivated, searchBestConfidence, confidence);
    lastInput = key;
    answered = true;
    return lastAnswer;'''),(W,'''  int addressSize;
  bool bleachingActivated;''','''  bool answered = false;
  std::vector<int> lastInput;
  std::map<std::string,int> lastAnswer;
  int addressSize;
  bool bleachingActivated;''')]+list(edits)
def htext(inval):
    return [(H,'''    std::string out;
    for(unsigned int i=0; i<ramdata.size(); i++){
      out +=''','''    if(!text.empty()) return text;
    std::string out;
    for(unsigned int i=0; i<ramdata.size(); i++){
      out +='''),(H,'''data(i);
    }
    return out;''','''data(i);
    }
    text = out;
    return out;'''),(H,'''  std::unordered_map<int,ram_t> ramdata;
''','''  std::unordered_map<int,ram_t> ramdata;
  std::string text;
''')]+([(H,'''    ramdata[r][addr] = value;''','''    ramdata[r][addr] = value;
    text.clear();''')] if inval else [])
INV='''    answered = false;
'''
WTR=(W,'''  void train(const T& image, const std::string& label){
''','''  void train(const T& image, const std::string& label){
'''+INV)
WLO=(W,'''  void leaveOneOut(const std::vector<int>& image, const std::string& label){
''','''  void leaveOneOut(const std::vector<int>& image, const std::string& label){
'''+INV)
bug={
 'E07-cache-untrain': [(R,VOTE,CVOTE),TR],
 'E07-cache-train': [(R,VOTE,CVOTE),UN],
 'E28-mental-cache': mental(False),
 'E13-answer-leave': wcache(WTR),
 'E13-answer-train': wcache(WLO),
 'E10-text-cache': htext(False),
 'E15-total': [(CL,'''    for(unsigned int i=0; i<discriminators.size(); i++){
      auto votes''','''    trained++;
    for(unsigned int i=0; i<discriminators.size(); i++){
      auto votes'''),(CL,'''      float count = discriminators[i].getNumberOfTrainings();''','''      float count = discriminators.size() == 1 ? trained : discriminators[i].getNumberOfTrainings();'''),
   (CL,'''  std::map<int,Discriminator> discriminators;
  unsigned''','''  std::map<int,Discriminator> discriminators;
  int trained = 0;
  unsigned''')],
}
ok={
 'e-vote-cache': [(R,VOTE,CVOTE),TR,UN],
 'e-mental-cache': mental(True),
 'e-answer-cache': wcache(WTR,WLO),
 'e-text-cache': htext(True),
 'e-count-set': [(DS,'''    data.push_back(input);''','''    data.push_back(input);
    total++;'''),(DS,'''    data.push_back(BinInput(input));''','''    data.push_back(BinInput(input));
    total++;'''),(DS,'''    return data.size();''','''    return total;'''),(DS,'''  std::vector<BinInput> data;
  std''','''  size_t total = 0;
  std::vector<BinInput> data;
  std''')],
 'e-disc-rams': [(D,'''  int getNumberOfRAMS() const{
    return rams.size();''','''  int getNumberOfRAMS() const{
    return rams.size();'''),(D,'''    checkSymbols(image);
    count++;''','''    checkSymbols(image);
    if(!touched) touched = true;
    count++;'''),(D,'''  int entrySize;
  int count;
''','''  bool touched = false;
  int entrySize;
  int count;
''')],
 'e-bin-total': [(BI,'''    return input.size()*8-remain;''','''    return total;'''),(BI,'''  char remain;
''','''  index_size_t total;
  char remain;
'''),(BI,'''  BinInput():remain(0){}''','''  BinInput():total(0),remain(0){}'''),(BI,'''      throw Exception("Invalid data of binary input!");
    }
  }
''','''      throw Exception("Invalid data of binary input!");
    }
    total = input.size()*8-remain;
  }
'''),(BI,'''    input = std::string((size/8)''','''    total = size;
    input = std::string((size/8)''')],
}
