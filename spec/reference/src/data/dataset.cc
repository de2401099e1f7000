class DataSet {
public:
  DataSet(){}
  DataSet(std::string filename){
    if(!endsWith(filename, dataset_sufix)){
      throw Exception("Invalid extension type!");
    }
    std::ifstream dataFile;
    dataFile.open(filename);
    if(!dataFile.is_open()){
      throw Exception("The file of the data set can not be opened!");
    }
    else{
      while(true){
        if(dataFile.eof()) break;

        std::string input="";
        std::getline(dataFile,input,'.');
        if(dataFile.fail() && !dataFile.eof()){
          throw Exception("The file of the data set can not be read!");
        }
        if(input.empty() && data.empty()) break;
        size_t sharp = input.find("#");
        if(sharp == std::string::npos){
          throw Exception("The file of the data set has an incomplete entry!");
        }
        std::string label = Base64::decode(input.substr(0,sharp));

        add(BinInput(input.substr(sharp+1,input.size()-(sharp+1))),label);
      }
      dataFile.close();
    }
  }

  void add(const BinInput& input){
    add(input,"");
  }

  void add(const BinInput& input, const std::string& label){
    if(label.size()>0) labels[data.size()]=label;
    data.push_back(input);
  }

  void add(const std::vector<short>& input){
    add(input,"");
  }
  void add(const std::vector<short>& input, const std::string& label){
    if(label.size()>0) labels[data.size()]=label;
    data.push_back(BinInput(input));
  }

  const BinInput& operator[](int index) const {
    return get(index);
  }

  const BinInput& get(int index) const {
    if(index < 0 || (size_t)index >= data.size()){
      throw Exception("Index out of range!");
    }
    return data[index];
  }

  std::string getLabel(index_size_t index) const {
    return labels.at(index);
  }

  size_t size() const {
    return data.size();
  }

  void save(std::string prefix) {
    std::string filename = prefix + dataset_sufix;
    std::ofstream dataFile;
    dataFile.open(filename, std::ios::trunc);
    if(!dataFile.is_open()){
      throw Exception("The file of the data set can not be created!");
    }

    for(unsigned int i=0; i<data.size(); i++){
      auto label = labels.find(i);
      std::string encodedLabel = label == labels.end() ? "" : Base64::encode(label->second);
      dataFile << (i != 0 ? "." : "") + encodedLabel + "#" + data[i].data();
    }

    dataFile.close();
    if(dataFile.fail()){
      throw Exception("The file of the data set can not be written!");
    }
  }

private:
  std::vector<BinInput> data;
  std::unordered_map<index_size_t,std::string> labels;
};
