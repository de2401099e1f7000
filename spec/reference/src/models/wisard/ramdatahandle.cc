class RAMDataHandle {
public:
  RAMDataHandle(std::string inputdata){
    setData(inputdata);
  }
  RAMDataHandle(ram_t data){
    ramdata[0]=data;
  }

  int get(int r, addr_t addr){
    auto ram = ramdata.find(r);
    if(ram == ramdata.end()) return 0;
    auto it = ram->second.find(addr);
    if(it == ram->second.end()) return 0;
    return it->second;
  }

  ram_t get(int r){
    auto ram = ramdata.find(r);
    if(ram == ramdata.end()) return ram_t();
    return ram->second;
  }

  void set(int r, addr_t addr, int value){
    if(r < 0){
      throw Exception("The RAM index can not be negative!");
    }
    // the text form has one piece per RAM, so every RAM before this one exists too
    for(int i=ramdata.size(); i<r; i++) ramdata[i];
    ramdata[r][addr] = value;
  }

  bool compare (RAMDataHandle& other){
    if(ramdata.size() != other.ramdata.size()) return false;
    for(std::unordered_map<int,ram_t>::iterator it = ramdata.begin(); it != ramdata.end(); ++it){
      std::unordered_map<int,ram_t>::iterator ito = other.ramdata.find(it->first);
      if(ito == other.ramdata.end() || it->second.size() != ito->second.size()) return false;

      for(ram_t::iterator itram = it->second.begin(); itram != it->second.end(); ++itram){
        ram_t::iterator itramo = ito->second.find(itram->first);
        if(itramo == ito->second.end() || itram->second != itramo->second) return false;
      }
    }
    return true;
  }

  std::string data(){
    std::string out;
    for(unsigned int i=0; i<ramdata.size(); i++){
      out += (i != 0 ? "." : "") + data(i);
    }
    return out;
  }

  std::string data(int r){
    int blockSize = (sizeof(addr_t)+sizeof(content_t));
    const ram_t ram = get(r);
    std::string out(ram.size()*blockSize,0);
    int k=0;
    for(auto j=ram.begin(); j!=ram.end(); ++j){
      out.replace(k,sizeof(addr_t),convertToBytes(j->first));
      out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
      k += blockSize;
    }
    return Base64::encode(out);
  }

  void save(std::string prefix){
    std::string filename = prefix + ramdata_sufix;
    std::ofstream dataFile;
    dataFile.open(filename, std::ios::trunc);
    if(!dataFile.is_open()){
      throw Exception("The file of RAM data can not be created!");
    }

    for(unsigned int i=0; i<ramdata.size(); i++){
      dataFile << (i != 0 ? "." : "") + data(i);
    }

    dataFile.close();
    if(dataFile.fail()){
      throw Exception("The file of RAM data can not be written!");
    }
  }

private:
  std::unordered_map<int,ram_t> ramdata;

  void setData(std::string inputdata){
    if(endsWith(inputdata, ramdata_sufix)){
      std::ifstream dataFile;
      dataFile.open(inputdata);
      if(!dataFile.is_open()){
        throw Exception("The file of RAM data can not be opened!");
      }
      else{
        while(true){
          if(dataFile.eof()) break;

          std::string rdata="";
          std::getline(dataFile,rdata,'.');
          if(dataFile.fail() && !dataFile.eof()){
            throw Exception("The file of RAM data can not be read!");
          }
          ramdata[ramdata.size()] = dataToRam(rdata);
        }
        dataFile.close();
      }
    }
    else{
      size_t pos=0;
      while(pos <= inputdata.size()){
        size_t found = inputdata.find('.',pos);
        if(found == std::string::npos) found = inputdata.size();
        ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
        pos = found+1;
      }
    }
  }

  ram_t dataToRam(const std::string& inputdata){
    ram_t ramout;
    std::string decodedData = Base64::decode(inputdata);
    const int blockSize = (sizeof(addr_t)+sizeof(content_t));
    if(decodedData.size()%blockSize != 0){
      throw Exception("The RAM data has an incomplete position!");
    }

    for(unsigned long i=0; i<decodedData.size(); i+=blockSize){
      addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));
      content_t value = convertToValue<content_t>(decodedData.substr(i+sizeof(addr_t),sizeof(content_t)));
      ramout[address]=value;
    }
    return ramout;
  }

  // TODO finish the compact represantation
  // std::string getDataCompact(){
  //   auto headerInfo = getHeader();
  //   std::string smask1 = convertToBytes(std::get<1>(headerInfo)),
  //               smask0 = convertToBytes(std::get<0>(headerInfo)),
  //               smean = convertToBytes(std::get<2>(headerInfo));
  //
  //   std::string header =
  //     (char)smask1.size() + smask1 + smask0 +
  //     (char)smean.size() + smean;
  //
  //   addr_t mask = std::get<0>(headerInfo) | std::get<1>(headerInfo);
  //   unsigned int  sizeOfMask = getSizeOfMask(mask),
  //                 sizeOfMean = getSizeOfMean(std::get<2>(headerInfo));
  //
  //   unsigned long size = (sizeOfMask + sizeOfMean)*positions.size();
  //   if(size%8==0){
  //     size /= 8;
  //   }
  //   else{
  //     size /= 8;
  //     size++;
  //   }
  //   std::string data(size,0);
  //
  //   for(auto j=positions.begin(); j!=positions.end(); ++j){
  //
  //   }
  //   return Base64::encode(header+data);
  // }
  //
  // std::tuple<addr_t, addr_t, int> getHeader(){
  //   addr_t mask1 = -1;
  //   addr_t mask0 = -1;
  //   int mean = 0;
  //   for(auto j=positions.begin(); j!=positions.end(); ++j){
  //     mask1 &= j->first;
  //     mask0 &= ~j->first;
  //     mean += j->second;
  //   }
  //   mean /= positions.size();
  //   return std::make_tuple(mask0,mask1,mean);
  // }
  //
  // unsigned int getSizeOfMask(addr_t mAddress){
  //   int size = 0;
  //   for(unsigned int i=0; i<sizeof(addr_t)*8; i++){
  //     size += ((mAddress >> i) & 0x01);
  //   }
  //   return size;
  // }
  //
  // unsigned int getSizeOfMean(int mean){
  //   int max = 0;
  //   for(auto j=positions.begin(); j!=positions.end(); ++j){
  //     int temp = std::abs(mean-j->second);
  //     if(temp>max){
  //       max = temp;
  //     }
  //   }
  //   int size=0;
  //   for(int i=sizeof(int)*8-1; i>-1; i--){
  //     char temp = (max >> i) & 0x01;
  //     if(temp == 1){
  //       size = i;
  //       break;
  //     }
  //   }
  //   return size;
  // }


};
