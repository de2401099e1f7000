From c0cc0a5f2b64e0333b6b32baf27ee6e0d1c91a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 01/31] fix: keep the dimension given to KernelCanvas

---
 include/wisardpkg.hpp            | 2 +-
 src/binarization/kernelcanvas.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 5446a20..487fb8e 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17815,7 +17815,7 @@ class BinBase {
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index 962f121..c15c356 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -1,7 +1,7 @@
 
 class KernelCanvas{
 public:
-  KernelCanvas(int dim, int numberOfKernels, nl::json c){
+  KernelCanvas(int dim, int numberOfKernels, nl::json c): dim(dim){
     nl::json value;
 
     value = c["bitsByKernel"];
-- 
2.43.0


From 74fb248b2936812d31f03324185ac0e1dd77050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 02/31] fix: semi-supervised training learns the inputs without
 a label, once each

---
 include/wisardpkg.hpp               | 24 ++++++++++--------------
 src/models/cluswisard/cluswisard.cc | 24 ++++++++++--------------
 2 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 487fb8e..ecbcbfb 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19318,30 +19318,26 @@ public:
     checkConfidence(numberOfRAMS);
     checkInputLabels(images.size(), labels);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
-      if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
-      else{
+    }
+
+    checkLabellessSize(images.size(), labelless.size());
+
+    for(unsigned int i=0; i<images.size(); i++){
+      if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
+      if(labels.find(i) != labels.end()){
         train(images[i], labels[i]);
       }
     }
     if(verbose) std::cout << "\r" << std::endl;
 
-    checkLabellessSize(images.size(), labelless.size());
-
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index b255473..50038c6 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -93,30 +93,26 @@ public:
     checkConfidence(numberOfRAMS);
     checkInputLabels(images.size(), labels);
 
-    unsigned int size = images.size()-labels.size();
-    std::vector<int> labelless = std::vector<int>(size);
-    unsigned int j=0;
+    std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
-      if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
       if(labels.find(i) == labels.end()){
-        if((labelless.size()-1) < j){
-          labelless.push_back(j++);
-        }
-        else{
-          labelless[j++] = i;
-        }
+        labelless.push_back(i);
       }
-      else{
+    }
+
+    checkLabellessSize(images.size(), labelless.size());
+
+    for(unsigned int i=0; i<images.size(); i++){
+      if(verbose) std::cout << "\rtraining supervised " << i+1 << " of " << images.size();
+      if(labels.find(i) != labels.end()){
         train(images[i], labels[i]);
       }
     }
     if(verbose) std::cout << "\r" << std::endl;
 
-    checkLabellessSize(images.size(), labelless.size());
-
     for(unsigned int i=0; i<labelless.size(); i++){
       if(verbose) std::cout << "\rtraining unsupervised " << i+1 << " of " << labelless.size();
-      train(images[i]);
+      train(images[labelless[i]]);
     }
     if(verbose) std::cout << "\r" << std::endl;
 
-- 
2.43.0


From 674713973bf1310dea41e553ce39a6ad7e95e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 03/31] fix: labels that contain :: are reported in full

---
 include/wisardpkg.hpp               | 6 +++---
 src/models/cluswisard/cluswisard.cc | 6 +++---
 src/wrappers/cluswisardwrapper.cc   | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index ecbcbfb..345f51a 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19360,7 +19360,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -19375,7 +19375,7 @@ public:
       if(verbose) std::cout << "\rclassifying unsupervised " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classifyUnsupervised(images[i]);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -19443,7 +19443,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 50038c6..336b4a2 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -135,7 +135,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -150,7 +150,7 @@ public:
       if(verbose) std::cout << "\rclassifying unsupervised " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classifyUnsupervised(images[i]);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      labels[i] = label.substr(0,label.find("::"));
+      labels[i] = label.substr(0,label.rfind("::"));
 
       candidates.clear();
       std::map<std::string,int>().swap(candidates);
@@ -218,7 +218,7 @@ protected:
   void train(const std::vector<int>& image){
     std::map<std::string,int> candidates = classify(image);
     std::string label = Bleaching::getBiggestCandidate(candidates);
-    label = label.substr(0,label.find("::"));
+    label = label.substr(0,label.rfind("::"));
     clusters[label].train(image);
   }
 
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 92c85ca..310e78d 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -46,7 +46,7 @@ public:
       if(verbose) std::cout << "\rclassifying " << i+1 << " of " << images.size();
       std::map<std::string,int> candidates = classify(images[i], searchBestConfidence);
       std::string label = Bleaching::getBiggestCandidate(candidates);
-      std::string aClass = label.substr(0,label.find("::"));
+      std::string aClass = label.substr(0,label.rfind("::"));
 
       if(returnConfidence || returnActivationDegree || returnClassesDegrees){
         labels[i] = py::dict(py::arg("class")=aClass);
@@ -85,7 +85,7 @@ protected:
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i) total += i->second;
     if(total == 0) total=1;
     for(std::map<std::string, int>::iterator i=candidates.begin(); i!=candidates.end(); ++i){
-      std::string aClass = i->first.substr(0,i->first.find("::"));
+      std::string aClass = i->first.substr(0,i->first.rfind("::"));
       output[index] = py::dict(py::arg("class")=aClass, py::arg("degree")=(i->second/total));
       index++;
     }
-- 
2.43.0


From 90c017705088f46bcdbb40254c54bb5098606024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 04/31] fix: unsupervised training configures its cluster once
 and with the base

---
 include/wisardpkg.hpp               | 5 +++--
 src/models/cluswisard/cluswisard.cc | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 345f51a..ad307d4 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19344,8 +19344,9 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(images.size() == 0) return;
+    if(unsupervisedCluster.getSize() == 0){
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 336b4a2..ad1a829 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -119,8 +119,9 @@ public:
   }
 
   void trainUnsupervised(const std::vector<std::vector<int>>& images){
-    if((int)clusters.size()==0){
-      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero);
+    if(images.size() == 0) return;
+    if(unsupervisedCluster.getSize() == 0){
+      unsupervisedCluster = Cluster(images[0].size(), addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
     }
     for(unsigned int i=0; i<images.size(); i++){
       unsupervisedCluster.train(images[i]);
-- 
2.43.0


From c3d879945338678a91e8d807e295906e59531bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 05/31] fix: asking for the mental image of an unknown label
 creates no cluster

---
 include/wisardpkg.hpp               | 4 +++-
 src/models/cluswisard/cluswisard.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index ad307d4..ba132e8 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19386,7 +19386,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    auto cluster = clusters.find(label);
+    if(cluster == clusters.end()) return std::vector<std::vector<int>>();
+    return cluster->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index ad1a829..cf184bc 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -161,7 +161,9 @@ public:
   }
 
   std::vector<std::vector<int>> getMentalImage(std::string label){
-    return clusters[label].getMentalImages();
+    auto cluster = clusters.find(label);
+    if(cluster == clusters.end()) return std::vector<std::vector<int>>();
+    return cluster->second.getMentalImages();
   }
 
   std::map<std::string, std::vector<std::vector<int>>> getMentalImages(){
-- 
2.43.0


From 3ed4bce1f181e873c13f300b289efa86ba4c9d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 06/31] fix: reading RAM data adds no entries and takes
 full-width addresses

---
 include/wisardpkg.hpp              | 19 +++++++++++++------
 src/models/wisard/ramdatahandle.cc | 19 +++++++++++++------
 src/wisard_bind.cc                 |  2 +-
 3 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index ba132e8..87e11e4 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18041,15 +18041,21 @@ public:
     ramdata[0]=data;
   }
 
-  int get(int r, int addr){
-    return ramdata[r][addr];
+  int get(int r, addr_t addr){
+    auto ram = ramdata.find(r);
+    if(ram == ramdata.end()) return 0;
+    auto it = ram->second.find(addr);
+    if(it == ram->second.end()) return 0;
+    return it->second;
   }
 
   ram_t get(int r){
-    return ramdata[r];
+    auto ram = ramdata.find(r);
+    if(ram == ramdata.end()) return ram_t();
+    return ram->second;
   }
 
-  void set(int r, int addr, int value){
+  void set(int r, addr_t addr, int value){
     ramdata[r][addr] = value;
   }
 
@@ -18077,9 +18083,10 @@ public:
 
   std::string data(int r){
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    std::string out(ramdata[r].size()*blockSize,0);
+    const ram_t ram = get(r);
+    std::string out(ram.size()*blockSize,0);
     int k=0;
-    for(auto j=ramdata[r].begin(); j!=ramdata[r].end(); ++j){
+    for(auto j=ram.begin(); j!=ram.end(); ++j){
       out.replace(k,sizeof(addr_t),convertToBytes(j->first));
       out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
       k += blockSize;
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 2a4fc73..76bc07c 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -7,15 +7,21 @@ public:
     ramdata[0]=data;
   }
 
-  int get(int r, int addr){
-    return ramdata[r][addr];
+  int get(int r, addr_t addr){
+    auto ram = ramdata.find(r);
+    if(ram == ramdata.end()) return 0;
+    auto it = ram->second.find(addr);
+    if(it == ram->second.end()) return 0;
+    return it->second;
   }
 
   ram_t get(int r){
-    return ramdata[r];
+    auto ram = ramdata.find(r);
+    if(ram == ramdata.end()) return ram_t();
+    return ram->second;
   }
 
-  void set(int r, int addr, int value){
+  void set(int r, addr_t addr, int value){
     ramdata[r][addr] = value;
   }
 
@@ -43,9 +49,10 @@ public:
 
   std::string data(int r){
     int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    std::string out(ramdata[r].size()*blockSize,0);
+    const ram_t ram = get(r);
+    std::string out(ram.size()*blockSize,0);
     int k=0;
-    for(auto j=ramdata[r].begin(); j!=ramdata[r].end(); ++j){
+    for(auto j=ram.begin(); j!=ram.end(); ++j){
       out.replace(k,sizeof(addr_t),convertToBytes(j->first));
       out.replace(k+sizeof(addr_t),sizeof(content_t),convertToBytes(j->second));
       k += blockSize;
diff --git a/src/wisard_bind.cc b/src/wisard_bind.cc
index 564927f..b64e3f4 100644
--- a/src/wisard_bind.cc
+++ b/src/wisard_bind.cc
@@ -44,7 +44,7 @@ PYBIND11_MODULE(wisardpkg, m){
     py::class_<RAMDataHandle>(m, "RAMDataHandle")
       .def(py::init<std::string>())
       .def("set", &RAMDataHandle::set)
-      .def("get", (int (RAMDataHandle::*)(int,int)) &RAMDataHandle::get)
+      .def("get", (int (RAMDataHandle::*)(int,addr_t)) &RAMDataHandle::get)
       .def("get", (ram_t (RAMDataHandle::*)(int)) &RAMDataHandle::get)
       .def("data", (std::string (RAMDataHandle::*)()) &RAMDataHandle::data)
       .def("data", (std::string (RAMDataHandle::*)(int)) &RAMDataHandle::data)
-- 
2.43.0


From e1a6c21952ca14d9100850e1c43ee96efc929ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 07/31] fix: refuse every base and address size whose addresses
 do not fit in 64 bits

---
 include/wisardpkg.hpp    | 13 ++++++++++---
 src/models/wisard/ram.cc | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 87e11e4..0114048 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18389,10 +18389,17 @@ private:
   }
 
   void checkLimitAddressSize(int addressSize, int basein){
+    if(basein < 2){
+      throw Exception("The base can't be lesser than 2!");
+    }
     const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    const addr_t digit = basein - 1;
+    addr_t biggest = 0;
+    for(int i=0; i<addressSize; i++){
+      if(biggest > (limit - digit)/basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      biggest = biggest*basein + digit;
     }
   }
 
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index cfc2a0e..c9a7119 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -164,10 +164,17 @@ private:
   }
 
   void checkLimitAddressSize(int addressSize, int basein){
+    if(basein < 2){
+      throw Exception("The base can't be lesser than 2!");
+    }
     const addr_t limit = -1;
-    if((basein == 2 && addressSize > 64) ||
-       (basein != 2 && (addr_t)ipow(basein,addressSize) > limit)){
-      throw Exception("The base power to addressSize passed the limit of 2^64!");
+    const addr_t digit = basein - 1;
+    addr_t biggest = 0;
+    for(int i=0; i<addressSize; i++){
+      if(biggest > (limit - digit)/basein){
+        throw Exception("The base power to addressSize passed the limit of 2^64!");
+      }
+      biggest = biggest*basein + digit;
     }
   }
 
-- 
2.43.0


From 8fe111c09c262dbd71b5f6b1cd2e071039ca6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 08/31] fix: reject negative symbols

---
 include/wisardpkg.hpp    | 2 +-
 src/models/wisard/ram.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 0114048..a8a94e6 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18404,7 +18404,7 @@ private:
   }
 
   void checkPos(const int code) const{
-    if(code >= base){
+    if(code < 0 || code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
     }
   }
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index c9a7119..f585751 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -179,7 +179,7 @@ private:
   }
 
   void checkPos(const int code) const{
-    if(code >= base){
+    if(code < 0 || code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
     }
   }
-- 
2.43.0


From 01ec1d5fbee2767d550d603956c9456b3c0acb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 09/31] fix: refuse index lists and mappings that leave the
 entry

---
 include/wisardpkg.hpp              | 13 ++++++++++++-
 src/models/wisard/discriminator.cc | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index a8a94e6..de1cca8 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18634,6 +18634,7 @@ protected:
     rams = std::vector<RAM>(mapping.size());
 
     for (unsigned int i = 0; i < mapping.size(); i++){
+      checkMapping(mapping[i], entrySize);
       rams[i] = RAM(mapping[i], ignoreZero, base);
     }
   }
@@ -18654,6 +18655,7 @@ protected:
             {"data", rdata}
           };
           base.merge_patch(rbase);
+          checkMapping(*it, entrySize);
           rams.push_back(RAM(base));
         }
         dataFile.close();
@@ -18669,6 +18671,7 @@ protected:
         };
         pos = found+1;
         base.merge_patch(rbase);
+        checkMapping(*it, entrySize);
         rams.push_back(RAM(base));
       }
     }
@@ -18762,6 +18765,14 @@ private:
     }
   }
 
+  void checkMapping(const std::vector<int>& positions, const int entrySize) const{
+    for(unsigned int i=0; i<positions.size(); i++){
+      if(positions[i] < 0 || positions[i] >= entrySize){
+        throw Exception("The mapping has a index out of range of entry!");
+      }
+    }
+  }
+
   void checkListOfIndexes(const std::vector<int>& indexes, const int entrySize) const{
     if((int)indexes.size() != entrySize){
       throw Exception("The list of indexes is not compatible with entry size!");
@@ -18769,7 +18780,7 @@ private:
 
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
         throw Exception("The list of indexes has a index out of range of entry!");
       }
       if(values.find(indexes[i]) == values.end()){
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 082b411..1e70e54 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -217,6 +217,7 @@ protected:
     rams = std::vector<RAM>(mapping.size());
 
     for (unsigned int i = 0; i < mapping.size(); i++){
+      checkMapping(mapping[i], entrySize);
       rams[i] = RAM(mapping[i], ignoreZero, base);
     }
   }
@@ -237,6 +238,7 @@ protected:
             {"data", rdata}
           };
           base.merge_patch(rbase);
+          checkMapping(*it, entrySize);
           rams.push_back(RAM(base));
         }
         dataFile.close();
@@ -252,6 +254,7 @@ protected:
         };
         pos = found+1;
         base.merge_patch(rbase);
+        checkMapping(*it, entrySize);
         rams.push_back(RAM(base));
       }
     }
@@ -345,6 +348,14 @@ private:
     }
   }
 
+  void checkMapping(const std::vector<int>& positions, const int entrySize) const{
+    for(unsigned int i=0; i<positions.size(); i++){
+      if(positions[i] < 0 || positions[i] >= entrySize){
+        throw Exception("The mapping has a index out of range of entry!");
+      }
+    }
+  }
+
   void checkListOfIndexes(const std::vector<int>& indexes, const int entrySize) const{
     if((int)indexes.size() != entrySize){
       throw Exception("The list of indexes is not compatible with entry size!");
@@ -352,7 +363,7 @@ private:
 
     std::map<int, int> values;
     for(unsigned int i=0; i<indexes.size(); i++){
-      if(indexes[i] >= entrySize){
+      if(indexes[i] < 0 || indexes[i] >= entrySize){
         throw Exception("The list of indexes has a index out of range of entry!");
       }
       if(values.find(indexes[i]) == values.end()){
-- 
2.43.0


From 00beff9ef024c5fff3d94d2064c172edc2511daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 10/31] fix: setting a bit of a BinInput leaves the other bits
 alone

---
 include/wisardpkg.hpp | 2 +-
 src/data/bininput.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index de1cca8..be08a98 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17657,7 +17657,7 @@ public:
     }
     index_size_t section = index/8;
     char sectionIndex = 7-(index%8);
-    input[section] = (input[section] & ~(0x01 << sectionIndex)) | (value << sectionIndex);
+    input[section] = (input[section] & ~(0x01 << sectionIndex)) | ((value & 0x01) << sectionIndex);
   }
 
   index_size_t size() const {
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index 332bc28..14d9230 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -38,7 +38,7 @@ public:
     }
     index_size_t section = index/8;
     char sectionIndex = 7-(index%8);
-    input[section] = (input[section] & ~(0x01 << sectionIndex)) | (value << sectionIndex);
+    input[section] = (input[section] & ~(0x01 << sectionIndex)) | ((value & 0x01) << sectionIndex);
   }
 
   index_size_t size() const {
-- 
2.43.0


From 4bb727e844177209e33e1d4b79a894af491ddccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 11/31] fix: decode addresses at full width in mental images

---
 include/wisardpkg.hpp    | 4 ++--
 src/models/wisard/ram.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index be08a98..86fa413 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18378,9 +18378,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index f585751..2280008 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -153,9 +153,9 @@ private:
   bool ignoreZero;
   int base;
 
-  const std::vector<int> convertToBase(const int number) const{
+  const std::vector<int> convertToBase(const addr_t number) const{
     std::vector<int> numberConverted(addresses.size());
-    int baseNumber = number;
+    addr_t baseNumber = number;
     for(unsigned int i=0; i<numberConverted.size(); i++){
       numberConverted[i] = baseNumber % base;
       baseNumber /= base;
-- 
2.43.0


From 8e4da60e4e23d10b3df399b02aa5ba42997a288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 12/31] fix: no division by zero for zero address sizes, scores
 and mental images

---
 include/wisardpkg.hpp              | 12 ++++++++++--
 src/common/bleaching.cc            |  1 +
 src/common/utils.cc                |  6 ++++++
 src/synthetic_data/synthesizers.cc |  5 +++--
 src/wrappers/cluswisardwrapper.cc  |  2 +-
 src/wrappers/wisardwrapper.cc      |  2 +-
 6 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 86fa413..61e3408 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17329,6 +17329,9 @@ class Exception: public std::exception{
         }
 };
 inline int randint(int min, int max, bool isSeed=true){
+  if(max < min){
+    throw Exception("The range to draw a number from is empty!");
+  }
   if(isSeed)
     std::srand(time(NULL));
   return min + (std::rand() % (int)(max - min + 1));
@@ -17351,6 +17354,9 @@ std::string getRandomString(int len){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 1){
+    throw Exception("The address size cann't be lesser than 1!");
+  }
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
@@ -17530,6 +17536,7 @@ public:
         secondBiggest = i->second;
       }
     }
+    if(biggest == 0) return 0;
     return (biggest-secondBiggest)/biggest;
   }
 
@@ -17762,8 +17769,9 @@ public:
   }
 
   std::vector<int> make(){
-    int index = randint(0, maxData-1);
     std::vector<int> out(cube.size());
+    if(maxData == 0) return out;
+    int index = randint(0, maxData-1);
 
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
@@ -17801,7 +17809,7 @@ private:
       random_shuffle(indexes.begin(),indexes.end());
 
       for(unsigned int j=0; j<indexes.size(); j++){
-        if(intensity == 0) break;
+        if(intensity <= 0) break;
         cube[i][j] = 1;
         intensity--;
       }
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 56f417b..2ed82f3 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -56,6 +56,7 @@ public:
         secondBiggest = i->second;
       }
     }
+    if(biggest == 0) return 0;
     return (biggest-secondBiggest)/biggest;
   }
 
diff --git a/src/common/utils.cc b/src/common/utils.cc
index d87aa8f..ebf487f 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -1,4 +1,7 @@
 inline int randint(int min, int max, bool isSeed=true){
+  if(max < min){
+    throw Exception("The range to draw a number from is empty!");
+  }
   if(isSeed)
     std::srand(time(NULL));
   return min + (std::rand() % (int)(max - min + 1));
@@ -21,6 +24,9 @@ std::string getRandomString(int len){
 }
 
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
+  if(addressSize < 1){
+    throw Exception("The address size cann't be lesser than 1!");
+  }
   int numberOfRAMS = entrySize / addressSize;
   int remain = entrySize % addressSize;
   if(completeAddressing && remain > 0)
diff --git a/src/synthetic_data/synthesizers.cc b/src/synthetic_data/synthesizers.cc
index 21c917b..fbafe7d 100644
--- a/src/synthetic_data/synthesizers.cc
+++ b/src/synthetic_data/synthesizers.cc
@@ -8,8 +8,9 @@ public:
   }
 
   std::vector<int> make(){
-    int index = randint(0, maxData-1);
     std::vector<int> out(cube.size());
+    if(maxData == 0) return out;
+    int index = randint(0, maxData-1);
 
     for(unsigned int i=0; i<cube.size(); i++){
       if(cube[i].find(index) == cube[i].end()){
@@ -47,7 +48,7 @@ private:
       random_shuffle(indexes.begin(),indexes.end());
 
       for(unsigned int j=0; j<indexes.size(); j++){
-        if(intensity == 0) break;
+        if(intensity <= 0) break;
         cube[i][j] = 1;
         intensity--;
       }
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 310e78d..9c6a215 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -53,7 +53,7 @@ public:
       }
 
       if(returnActivationDegree){
-        float activationDegree = candidates[label]/numberOfRAMS;
+        float activationDegree = numberOfRAMS > 0 ? candidates[label]/numberOfRAMS : 0;
         labels[i]["activationDegree"]=activationDegree;
       }
 
diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 2d55d87..7ec0b8b 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -49,7 +49,7 @@ public:
     }
 
     if(returnActivationDegree){
-      float activationDegree = candidates[aClass]/numberOfRAMS;
+      float activationDegree = numberOfRAMS > 0 ? candidates[aClass]/numberOfRAMS : 0;
       labels[i]["activationDegree"]=activationDegree;
     }
 
-- 
2.43.0


From 37d8480f8fd7ce88562c1eafed0f05d510aa82c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 13/31] fix: empty batches are handled instead of reading a
 first input that is not there

---
 include/wisardpkg.hpp               | 10 +++++++---
 src/models/cluswisard/cluswisard.cc |  6 ++++--
 src/models/wisard/wisard.cc         |  4 +++-
 src/wrappers/cluswisardwrapper.cc   |  1 +
 src/wrappers/wisardwrapper.cc       |  1 +
 5 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 61e3408..4329777 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18880,6 +18880,7 @@ public:
   }
 
   void train(const DataSet& dataset) {
+    if(dataset.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
     for(size_t i=0; i<dataset.size(); i++){
@@ -18889,9 +18890,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
       train<std::vector<int>>(images[i], labels[i]);
@@ -19335,9 +19337,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -19347,9 +19350,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
+    checkInputLabels(images.size(), labels);
+    if(images.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputLabels(images.size(), labels);
 
     std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index cf184bc..d1882dc 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -77,9 +77,10 @@ public:
 
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
 
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
@@ -89,9 +90,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, std::map<int, std::string>& labels){
+    checkInputLabels(images.size(), labels);
+    if(images.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputLabels(images.size(), labels);
 
     std::vector<int> labelless;
     for(unsigned int i=0; i<images.size(); i++){
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 9fb8420..0bcd6b5 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -74,6 +74,7 @@ public:
   }
 
   void train(const DataSet& dataset) {
+    if(dataset.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(dataset[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
     for(size_t i=0; i<dataset.size(); i++){
@@ -83,9 +84,10 @@ public:
   }
 
   void train(const std::vector<std::vector<int>>& images, const std::vector<std::string>& labels){
+    checkInputSizes(images.size(), labels.size());
+    if(images.size() == 0) return;
     int numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
     checkConfidence(numberOfRAMS);
-    checkInputSizes(images.size(), labels.size());
     for(unsigned int i=0; i<images.size(); i++){
       if(verbose) std::cout << "\rtraining " << i+1 << " of " << images.size();
       train<std::vector<int>>(images[i], labels[i]);
diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 9c6a215..5fd0263 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -39,6 +39,7 @@ public:
   }
 
   py::list pyClassify(const std::vector<std::vector<int>>& images){
+    if(images.size() == 0) return py::list();
     float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
     py::list labels(images.size());
diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 7ec0b8b..127fed2 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -91,6 +91,7 @@ protected:
 
   template<typename T>
   py::list _pyClassify(const T& images){
+    if(images.size() == 0) return py::list();
     float numberOfRAMS = calculateNumberOfRams(images[0].size(), addressSize, completeAddressing);
 
     py::list labels(images.size());
-- 
2.43.0


From 351574674f8dfdede864abdfd11c73baba285599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 14/31] fix: DataSet refuses positions it does not have

---
 include/wisardpkg.hpp | 5 ++++-
 src/data/dataset.cc   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 4329777..2eebd59 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17732,6 +17732,9 @@ public:
   }
 
   const BinInput& get(int index) const {
+    if(index < 0 || (size_t)index >= data.size()){
+      throw Exception("Index out of range!");
+    }
     return data[index];
   }
 
@@ -17757,7 +17760,7 @@ public:
 
 private:
   std::vector<BinInput> data;
-  std::unordered_map<int,std::string> labels;
+  std::unordered_map<index_size_t,std::string> labels;
 };
 
 
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 6f312e8..f11975f 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -45,6 +45,9 @@ public:
   }
 
   const BinInput& get(int index) const {
+    if(index < 0 || (size_t)index >= data.size()){
+      throw Exception("Index out of range!");
+    }
     return data[index];
   }
 
@@ -70,5 +73,5 @@ public:
 
 private:
   std::vector<BinInput> data;
-  std::unordered_map<int,std::string> labels;
+  std::unordered_map<index_size_t,std::string> labels;
 };
-- 
2.43.0


From 6ea2c61ba874f5c70fec98ba3d293a95774a100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 15/31] fix: KernelCanvas checks every point before it uses any
 of them

---
 include/wisardpkg.hpp            | 2 +-
 src/binarization/kernelcanvas.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 2eebd59..49725c8 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17842,6 +17842,7 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -17856,7 +17857,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index c15c356..a8bdc56 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -17,6 +17,7 @@ public:
   KernelCanvas(int dim, int numberOfKernels): KernelCanvas(dim, numberOfKernels, {}) {}
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
+    for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -31,7 +32,6 @@ public:
     bool first = true;
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
-      checkDimension(sequenceData[i].size());
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
-- 
2.43.0


From e31614a1a212bd8022180d81ace0ef96c22f1172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 16/31] fix: KernelCanvas stays inside its point when it uses
 directions

---
 include/wisardpkg.hpp            | 15 +++++++--------
 src/binarization/kernelcanvas.cc | 15 +++++++--------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 49725c8..a490f48 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17858,6 +17858,7 @@ public:
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
+      first = false;
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
     }
@@ -17930,8 +17931,8 @@ protected:
 
   static int switchIndexes(std::vector<int>& ix){
     int temp = ix[2];
-    ix[1] = ix[0];
     ix[2] = ix[1];
+    ix[1] = ix[0];
     ix[0] = temp;
     return temp;
   }
@@ -17944,12 +17945,10 @@ protected:
     for(unsigned int i=0; i<kernels.size(); i++){
       double distance = 0;
       if(useDirection){
-        int pi = 0;
         for(int j=0; j<amplifyDim*3; j++){
-          int ix = indexes[pi]*amplifyDim + j%amplifyDim;
+          int ix = indexes[j/amplifyDim]*amplifyDim + j%amplifyDim;
           double diff = (point[ix] - kernels[i][j]);
           distance += diff*diff;
-          if(j == (amplifyDim-1)) pi++;
         }
       }
       else{
@@ -17992,7 +17991,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = ix*amplifyDim + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -18005,7 +18004,7 @@ protected:
           point[sinix+1] = dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -18015,8 +18014,8 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[ix*amplifyDim +j];
+          point[indexes[2]*amplifyDim +j] = point[ix*amplifyDim +j];
         }
       }
     }
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index a8bdc56..c6ce894 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -33,6 +33,7 @@ public:
 
     for(unsigned int i=0; i<sequenceData.size(); i++){
       calculatePoint(point,sequenceData,i,means,stds,pi,first);
+      first = false;
       calculateDistances(distances, point, pi);
       activateKernels(output, distances);
     }
@@ -105,8 +106,8 @@ protected:
 
   static int switchIndexes(std::vector<int>& ix){
     int temp = ix[2];
-    ix[1] = ix[0];
     ix[2] = ix[1];
+    ix[1] = ix[0];
     ix[0] = temp;
     return temp;
   }
@@ -119,12 +120,10 @@ protected:
     for(unsigned int i=0; i<kernels.size(); i++){
       double distance = 0;
       if(useDirection){
-        int pi = 0;
         for(int j=0; j<amplifyDim*3; j++){
-          int ix = indexes[pi]*amplifyDim + j%amplifyDim;
+          int ix = indexes[j/amplifyDim]*amplifyDim + j%amplifyDim;
           double diff = (point[ix] - kernels[i][j]);
           distance += diff*diff;
-          if(j == (amplifyDim-1)) pi++;
         }
       }
       else{
@@ -167,7 +166,7 @@ protected:
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
-        int sinix = ipp*2 + dim;
+        int sinix = ix*amplifyDim + dim + 2*(j-1);
 
         point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
         if(index+1 < (int)sequenceData.size()){
@@ -180,7 +179,7 @@ protected:
           point[sinix+1] = dy/hypotenuse;
         }
         else{
-          int sinixA = indexes[1]*amplifyDim*2 + dim +j-1;
+          int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
           point[sinix] = point[sinixA];
           point[sinix+1] = point[sinixA+1];
         }
@@ -190,8 +189,8 @@ protected:
       }
       if(first){
         for(int j=0; j<amplifyDim; j++){
-          point[indexes[1]*amplifyDim +j] = point[ipp +j];
-          point[indexes[2]*amplifyDim +j] = point[ipp +j];
+          point[indexes[1]*amplifyDim +j] = point[ix*amplifyDim +j];
+          point[indexes[2]*amplifyDim +j] = point[ix*amplifyDim +j];
         }
       }
     }
-- 
2.43.0


From 554768162fa0a80657618a7284092579d0c0b731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 17/31] fix: KernelCanvas copes with constant coordinates and
 empty sequences

---
 include/wisardpkg.hpp            | 20 +++++++++++++-------
 src/binarization/kernelcanvas.cc | 20 +++++++++++++-------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index a490f48..3e192ed 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17843,6 +17843,7 @@ public:
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
     for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());
+    if(sequenceData.size() == 0) return std::vector<int>(kernels.size()*bitsByKernel);
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -17925,6 +17926,11 @@ protected:
     return output;
   }
 
+  static double standardize(const double mean, const double value, const double deviation){
+    if(deviation == 0) return 0;
+    return std::tanh((mean - value)/deviation);
+  }
+
   static bool compareDistances(const std::vector<double>& i, const std::vector<double>& j){
     return (i[1] < j[1]);
   }
@@ -17983,25 +17989,25 @@ protected:
       int ix = switchIndexes(indexes);
 
       int ipp = ix*amplifyDim;
-      point[ipp] = std::tanh((means[0] - sequenceData[index][0])/stds[0]);
+      point[ipp] = standardize(means[0], sequenceData[index][0], stds[0]);
       double aback = 0.0;
       double afront = 0.0;
       if(index+1 < (int)sequenceData.size())
-        aback = std::tanh((means[0] - sequenceData[index+1][0])/stds[0]);
+        aback = standardize(means[0], sequenceData[index+1][0], stds[0]);
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
         int sinix = ix*amplifyDim + dim + 2*(j-1);
 
-        point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
+        point[ip] = standardize(means[j], sequenceData[index][j], stds[j]);
         if(index+1 < (int)sequenceData.size()){
-          afront = std::tanh((means[j] - sequenceData[index+1][j])/stds[j]);
+          afront = standardize(means[j], sequenceData[index+1][j], stds[j]);
 
           double dx = aback - point[ipp];
           double dy = afront - point[ip];
           double hypotenuse = std::sqrt( dy*dy + dx*dx );
-          point[sinix] = dx/hypotenuse;
-          point[sinix+1] = dy/hypotenuse;
+          point[sinix] = hypotenuse > 0 ? dx/hypotenuse : 0;
+          point[sinix+1] = hypotenuse > 0 ? dy/hypotenuse : 0;
         }
         else{
           int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
@@ -18021,7 +18027,7 @@ protected:
     }
     else{
       for(int j=0; j<dim; j++){
-        point[j] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
+        point[j] = standardize(means[j], sequenceData[index][j], stds[j]);
       }
     }
   }
diff --git a/src/binarization/kernelcanvas.cc b/src/binarization/kernelcanvas.cc
index c6ce894..dd5b097 100644
--- a/src/binarization/kernelcanvas.cc
+++ b/src/binarization/kernelcanvas.cc
@@ -18,6 +18,7 @@ public:
 
   std::vector<int> transform(const std::vector<std::vector<double>>& sequenceData){
     for(unsigned int i=0; i<sequenceData.size(); i++) checkDimension(sequenceData[i].size());
+    if(sequenceData.size() == 0) return std::vector<int>(kernels.size()*bitsByKernel);
     std::vector<double> means = multDimMean(sequenceData);
     std::vector<double> stds = multDimStd(means,sequenceData);
 
@@ -100,6 +101,11 @@ protected:
     return output;
   }
 
+  static double standardize(const double mean, const double value, const double deviation){
+    if(deviation == 0) return 0;
+    return std::tanh((mean - value)/deviation);
+  }
+
   static bool compareDistances(const std::vector<double>& i, const std::vector<double>& j){
     return (i[1] < j[1]);
   }
@@ -158,25 +164,25 @@ protected:
       int ix = switchIndexes(indexes);
 
       int ipp = ix*amplifyDim;
-      point[ipp] = std::tanh((means[0] - sequenceData[index][0])/stds[0]);
+      point[ipp] = standardize(means[0], sequenceData[index][0], stds[0]);
       double aback = 0.0;
       double afront = 0.0;
       if(index+1 < (int)sequenceData.size())
-        aback = std::tanh((means[0] - sequenceData[index+1][0])/stds[0]);
+        aback = standardize(means[0], sequenceData[index+1][0], stds[0]);
 
       for(int j=1; j<dim; j++){
         int ip = ipp +1;
         int sinix = ix*amplifyDim + dim + 2*(j-1);
 
-        point[ip] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
+        point[ip] = standardize(means[j], sequenceData[index][j], stds[j]);
         if(index+1 < (int)sequenceData.size()){
-          afront = std::tanh((means[j] - sequenceData[index+1][j])/stds[j]);
+          afront = standardize(means[j], sequenceData[index+1][j], stds[j]);
 
           double dx = aback - point[ipp];
           double dy = afront - point[ip];
           double hypotenuse = std::sqrt( dy*dy + dx*dx );
-          point[sinix] = dx/hypotenuse;
-          point[sinix+1] = dy/hypotenuse;
+          point[sinix] = hypotenuse > 0 ? dx/hypotenuse : 0;
+          point[sinix+1] = hypotenuse > 0 ? dy/hypotenuse : 0;
         }
         else{
           int sinixA = indexes[1]*amplifyDim + dim + 2*(j-1);
@@ -196,7 +202,7 @@ protected:
     }
     else{
       for(int j=0; j<dim; j++){
-        point[j] = std::tanh((means[j] - sequenceData[index][j])/stds[j]);
+        point[j] = standardize(means[j], sequenceData[index][j], stds[j]);
       }
     }
   }
-- 
2.43.0


From c2c10df3dc1be6c532f6ea9f219667422f2189d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 18/31] fix: a cluster owns its discriminators, so copies of it
 are independent

---
 include/wisardpkg.hpp            | 32 ++++++++++++++++----------------
 src/models/cluswisard/cluster.cc | 32 ++++++++++++++++----------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 3e192ed..a51c589 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19125,7 +19125,7 @@ public:
     for(nl::json::iterator it = discriminatorsConfig.begin(); it != discriminatorsConfig.end(); ++it){
       nl::json d = it.value();
       d.merge_patch(dConfig);
-      discriminators[discriminators.size()] = new Discriminator(d);
+      discriminators[discriminators.size()] = Discriminator(d);
     }
   }
 
@@ -19164,16 +19164,16 @@ public:
 
   std::vector<std::vector<int>> getMentalImages(){
     std::vector<std::vector<int>> images(discriminators.size());
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      images[d->first] = d->second->getMentalImage();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      images[d->first] = d->second.getMentalImage();
     }
     return images;
   }
 
   nl::json getJson(bool huge, std::string path){
     nl::json discriminatorsConfig;
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      discriminatorsConfig[d->first] = d->second->getJSON(huge, path+std::to_string(d->first)+"__");
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      discriminatorsConfig[d->first] = d->second.getJSON(huge, path+std::to_string(d->first)+"__");
     }
 
     nl::json config = {
@@ -19189,8 +19189,8 @@ public:
 
   long getsizeof(){
     long size = sizeof(Cluster);
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      size += sizeof(int) + d->second->getsizeof();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      size += sizeof(int) + d->second.getsizeof();
     }
     return size;
   }
@@ -19200,7 +19200,7 @@ public:
   }
 
 private:
-  std::map<int,Discriminator*> discriminators;
+  std::map<int,Discriminator> discriminators;
   unsigned int addressSize;
   unsigned int entrySize;
   float minScore;
@@ -19211,14 +19211,14 @@ private:
   int base;
 
   void makeDiscriminator(const int index){
-    discriminators[index] = new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
       makeDiscriminator(0);
-      discriminators[0]->train(image);
+      discriminators[0].train(image);
       return;
     }
 
@@ -19227,20 +19227,20 @@ private:
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i]->classify(image);
+      auto votes = discriminators[i].classify(image);
       float score = getScore(votes);
-      float count = discriminators[i]->getNumberOfTrainings();
+      float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
           bestValue = score;
-          bestDiscriminator = discriminators[i];
+          bestDiscriminator = &discriminators[i];
       }
 
       float limit = minScore + count/threshold;
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i]->train(image);
+        discriminators[i].train(image);
         trained = true;
       }
     }
@@ -19248,7 +19248,7 @@ private:
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
       makeDiscriminator(index);
-      discriminators[index]->train(image);
+      discriminators[index].train(image);
       trained = true;
     }
 
@@ -19261,7 +19261,7 @@ private:
   std::vector<std::vector<int>> classify(const T& image){
     std::vector<std::vector<int>> output(discriminators.size());
     for(unsigned int i=0; i<discriminators.size(); i++){
-      output[i] = discriminators[i]->classify(image);
+      output[i] = discriminators[i].classify(image);
     }
     return output;
   }
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 8f059ae..5de3c0b 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -44,7 +44,7 @@ public:
     for(nl::json::iterator it = discriminatorsConfig.begin(); it != discriminatorsConfig.end(); ++it){
       nl::json d = it.value();
       d.merge_patch(dConfig);
-      discriminators[discriminators.size()] = new Discriminator(d);
+      discriminators[discriminators.size()] = Discriminator(d);
     }
   }
 
@@ -83,16 +83,16 @@ public:
 
   std::vector<std::vector<int>> getMentalImages(){
     std::vector<std::vector<int>> images(discriminators.size());
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      images[d->first] = d->second->getMentalImage();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      images[d->first] = d->second.getMentalImage();
     }
     return images;
   }
 
   nl::json getJson(bool huge, std::string path){
     nl::json discriminatorsConfig;
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      discriminatorsConfig[d->first] = d->second->getJSON(huge, path+std::to_string(d->first)+"__");
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      discriminatorsConfig[d->first] = d->second.getJSON(huge, path+std::to_string(d->first)+"__");
     }
 
     nl::json config = {
@@ -108,8 +108,8 @@ public:
 
   long getsizeof(){
     long size = sizeof(Cluster);
-    for(std::map<int, Discriminator*>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
-      size += sizeof(int) + d->second->getsizeof();
+    for(std::map<int, Discriminator>::iterator d=discriminators.begin(); d!=discriminators.end(); ++d){
+      size += sizeof(int) + d->second.getsizeof();
     }
     return size;
   }
@@ -119,7 +119,7 @@ public:
   }
 
 private:
-  std::map<int,Discriminator*> discriminators;
+  std::map<int,Discriminator> discriminators;
   unsigned int addressSize;
   unsigned int entrySize;
   float minScore;
@@ -130,14 +130,14 @@ private:
   int base;
 
   void makeDiscriminator(const int index){
-    discriminators[index] = new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
       makeDiscriminator(0);
-      discriminators[0]->train(image);
+      discriminators[0].train(image);
       return;
     }
 
@@ -146,20 +146,20 @@ private:
     Discriminator* bestDiscriminator = NULL;
 
     for(unsigned int i=0; i<discriminators.size(); i++){
-      auto votes = discriminators[i]->classify(image);
+      auto votes = discriminators[i].classify(image);
       float score = getScore(votes);
-      float count = discriminators[i]->getNumberOfTrainings();
+      float count = discriminators[i].getNumberOfTrainings();
 
       if(score>=bestValue){
           bestValue = score;
-          bestDiscriminator = discriminators[i];
+          bestDiscriminator = &discriminators[i];
       }
 
       float limit = minScore + count/threshold;
       limit = limit > 1.0 ? 1.0 : limit;
 
       if(score >= limit){
-        discriminators[i]->train(image);
+        discriminators[i].train(image);
         trained = true;
       }
     }
@@ -167,7 +167,7 @@ private:
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
       makeDiscriminator(index);
-      discriminators[index]->train(image);
+      discriminators[index].train(image);
       trained = true;
     }
 
@@ -180,7 +180,7 @@ private:
   std::vector<std::vector<int>> classify(const T& image){
     std::vector<std::vector<int>> output(discriminators.size());
     for(unsigned int i=0; i<discriminators.size(); i++){
-      output[i] = discriminators[i]->classify(image);
+      output[i] = discriminators[i].classify(image);
     }
     return output;
   }
-- 
2.43.0


From f13c53de9fc58e4b1e75db1ec269275392b28c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 19/31] fix: a discriminator learns all of an example or
 nothing of it

---
 include/wisardpkg.hpp              | 15 +++++++++++++++
 src/models/wisard/discriminator.cc |  9 +++++++++
 src/models/wisard/ram.cc           |  6 ++++++
 3 files changed, 30 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index a51c589..a7824a9 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18285,6 +18285,12 @@ public:
       }
   }
 
+  // throws when the input has a symbol this RAM can not address
+  template<typename T>
+  void checkInput(const T& image) const{
+    getIndex<T>(image);
+  }
+
   std::vector<std::vector<int>> getMentalImage() {
     std::vector<std::vector<int>> mentalPiece(addresses.size());
     for(unsigned int i=0; i<mentalPiece.size(); i++){
@@ -18518,6 +18524,7 @@ public:
 
   void untrain(const std::vector<int>& image){
       checkEntrySize(image.size());
+      checkSymbols(image);
       count--;
       for(unsigned int i=0; i<rams.size(); i++){
         rams[i].untrain(image);
@@ -18749,6 +18756,7 @@ protected:
   template<typename T>
   void train(const T& image) {
     checkEntrySize(image.size());
+    checkSymbols(image);
     count++;
     for(unsigned int i=0; i<rams.size(); i++){
       rams[i].train(image);
@@ -18763,6 +18771,13 @@ private:
     }
   }
 
+  template<typename T>
+  void checkSymbols(const T& image) const {
+    for(unsigned int i=0; i<rams.size(); i++){
+      rams[i].checkInput(image);
+    }
+  }
+
   void checkBase(const int base){
     if(base < 2){
       throw Exception("The base can't be lesser than 2!");
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 1e70e54..9135ec9 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -85,6 +85,7 @@ public:
 
   void untrain(const std::vector<int>& image){
       checkEntrySize(image.size());
+      checkSymbols(image);
       count--;
       for(unsigned int i=0; i<rams.size(); i++){
         rams[i].untrain(image);
@@ -316,6 +317,7 @@ protected:
   template<typename T>
   void train(const T& image) {
     checkEntrySize(image.size());
+    checkSymbols(image);
     count++;
     for(unsigned int i=0; i<rams.size(); i++){
       rams[i].train(image);
@@ -330,6 +332,13 @@ private:
     }
   }
 
+  template<typename T>
+  void checkSymbols(const T& image) const {
+    for(unsigned int i=0; i<rams.size(); i++){
+      rams[i].checkInput(image);
+    }
+  }
+
   void checkBase(const int base){
     if(base < 2){
       throw Exception("The base can't be lesser than 2!");
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 2280008..e506b51 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -44,6 +44,12 @@ public:
       }
   }
 
+  // throws when the input has a symbol this RAM can not address
+  template<typename T>
+  void checkInput(const T& image) const{
+    getIndex<T>(image);
+  }
+
   std::vector<std::vector<int>> getMentalImage() {
     std::vector<std::vector<int>> mentalPiece(addresses.size());
     for(unsigned int i=0; i<mentalPiece.size(); i++){
-- 
2.43.0


From a0ca69707e0e3cb9fe9efba4aa0dffa88585bb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 20/31] fix: a rejected first example of a class does not
 create the class

---
 include/wisardpkg.hpp       | 13 ++++++++-----
 src/models/wisard/wisard.cc | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index a7824a9..af5fa98 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18979,7 +18979,10 @@ protected:
   template<typename T>
   void train(const T& image, const std::string& label){
     if(discriminators.find(label) == discriminators.end()){
-      makeDiscriminator(label, image.size());
+      Discriminator discriminator = makeDiscriminator(label, image.size());
+      discriminator.train(image);
+      discriminators[label] = discriminator;
+      return;
     }
     discriminators[label].train(image);
   }
@@ -19051,19 +19054,19 @@ protected:
     return config;
   }
 
-  void makeDiscriminator(std::string label, int entrySize){
+  Discriminator makeDiscriminator(std::string label, int entrySize){
     auto it = mapping.find(label);
     if (it != mapping.end())
     {
-      discriminators[label] = Discriminator(it->second, entrySize, ignoreZero, base);
+      return Discriminator(it->second, entrySize, ignoreZero, base);
     }
     else if (indexes.size() != 0)
     {
-      discriminators[label] = Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
+      return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
     }
     else
     {
-      discriminators[label] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     }
   }
 
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 0bcd6b5..3fecbed 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -150,7 +150,10 @@ protected:
   template<typename T>
   void train(const T& image, const std::string& label){
     if(discriminators.find(label) == discriminators.end()){
-      makeDiscriminator(label, image.size());
+      Discriminator discriminator = makeDiscriminator(label, image.size());
+      discriminator.train(image);
+      discriminators[label] = discriminator;
+      return;
     }
     discriminators[label].train(image);
   }
@@ -222,19 +225,19 @@ protected:
     return config;
   }
 
-  void makeDiscriminator(std::string label, int entrySize){
+  Discriminator makeDiscriminator(std::string label, int entrySize){
     auto it = mapping.find(label);
     if (it != mapping.end())
     {
-      discriminators[label] = Discriminator(it->second, entrySize, ignoreZero, base);
+      return Discriminator(it->second, entrySize, ignoreZero, base);
     }
     else if (indexes.size() != 0)
     {
-      discriminators[label] = Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
+      return Discriminator(indexes, addressSize, entrySize, ignoreZero, base);
     }
     else
     {
-      discriminators[label] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+      return Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
     }
   }
 
-- 
2.43.0


From 3bcc2aa217a103a4e4e69b59714c2c8617f229d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 21/31] fix: a cluster learns all of an example or nothing of
 it

---
 include/wisardpkg.hpp               | 27 ++++++++++++++++++---------
 src/models/cluswisard/cluster.cc    | 18 ++++++++++++------
 src/models/cluswisard/cluswisard.cc |  9 ++++++---
 3 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index af5fa98..06ce53f 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19228,15 +19228,17 @@ private:
   bool ignoreZero;
   int base;
 
-  void makeDiscriminator(const int index){
-    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+  template<typename T>
+  void makeDiscriminator(const int index, const T& image){
+    Discriminator discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminator.train(image);
+    discriminators[index] = discriminator;
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
-      makeDiscriminator(0);
-      discriminators[0].train(image);
+      makeDiscriminator(0, image);
       return;
     }
 
@@ -19244,6 +19246,11 @@ private:
     bool trained = false;
     Discriminator* bestDiscriminator = NULL;
 
+    // no discriminator learns before every one has accepted the input
+    for(unsigned int i=0; i<discriminators.size(); i++){
+      discriminators[i].classify(image);
+    }
+
     for(unsigned int i=0; i<discriminators.size(); i++){
       auto votes = discriminators[i].classify(image);
       float score = getScore(votes);
@@ -19265,8 +19272,7 @@ private:
 
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
-      makeDiscriminator(index);
-      discriminators[index].train(image);
+      makeDiscriminator(index, image);
       trained = true;
     }
 
@@ -19501,7 +19507,10 @@ public:
 protected:
   void train(const std::vector<int>& image, const std::string& label){
     if(clusters.find(label) == clusters.end()){
-      makeClusters(label, image.size());
+      Cluster cluster = makeCluster(image.size());
+      cluster.train(image);
+      clusters[label] = cluster;
+      return;
     }
     clusters[label].train(image);
   }
@@ -19571,8 +19580,8 @@ protected:
     }
   }
 
-  void makeClusters(const std::string label,const int entrySize){
-    clusters[label] = Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+  Cluster makeCluster(const int entrySize){
+    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
   }
 
   nl::json getClustersJson(bool huge, std::string path){
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index 5de3c0b..b4f9765 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -129,15 +129,17 @@ private:
   bool ignoreZero;
   int base;
 
-  void makeDiscriminator(const int index){
-    discriminators[index] = Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+  template<typename T>
+  void makeDiscriminator(const int index, const T& image){
+    Discriminator discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base);
+    discriminator.train(image);
+    discriminators[index] = discriminator;
   }
 
   template<typename T>
   void train(const T& image){
     if(discriminators.size()==0){
-      makeDiscriminator(0);
-      discriminators[0].train(image);
+      makeDiscriminator(0, image);
       return;
     }
 
@@ -145,6 +147,11 @@ private:
     bool trained = false;
     Discriminator* bestDiscriminator = NULL;
 
+    // no discriminator learns before every one has accepted the input
+    for(unsigned int i=0; i<discriminators.size(); i++){
+      discriminators[i].classify(image);
+    }
+
     for(unsigned int i=0; i<discriminators.size(); i++){
       auto votes = discriminators[i].classify(image);
       float score = getScore(votes);
@@ -166,8 +173,7 @@ private:
 
     if(!trained && (int)discriminators.size() < discriminatorsLimit){
       int index = discriminators.size();
-      makeDiscriminator(index);
-      discriminators[index].train(image);
+      makeDiscriminator(index, image);
       trained = true;
     }
 
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index d1882dc..69bdab8 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -215,7 +215,10 @@ public:
 protected:
   void train(const std::vector<int>& image, const std::string& label){
     if(clusters.find(label) == clusters.end()){
-      makeClusters(label, image.size());
+      Cluster cluster = makeCluster(image.size());
+      cluster.train(image);
+      clusters[label] = cluster;
+      return;
     }
     clusters[label].train(image);
   }
@@ -285,8 +288,8 @@ protected:
     }
   }
 
-  void makeClusters(const std::string label,const int entrySize){
-    clusters[label] = Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
+  Cluster makeCluster(const int entrySize){
+    return Cluster(entrySize, addressSize, minScore, threshold, discriminatorsLimit, completeAddressing, ignoreZero, base);
   }
 
   nl::json getClustersJson(bool huge, std::string path){
-- 
2.43.0


From e37b2064f50f3679129390032c15c6b5d8eca7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 22/31] fix: models without data restore, and malformed Base64
 text is refused

---
 include/wisardpkg.hpp              | 62 ++++++++++++++++++------------
 src/common/utils.cc                | 31 +++++++++++----
 src/data/dataset.cc                |  3 +-
 src/models/wisard/discriminator.cc | 17 ++++----
 src/models/wisard/ramdatahandle.cc | 11 +++---
 5 files changed, 76 insertions(+), 48 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 06ce53f..ca1e194 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17364,6 +17364,11 @@ int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressin
   return numberOfRAMS;
 }
 
+inline bool endsWith(const std::string& text, const std::string& suffix){
+  return text.size() >= suffix.size() &&
+         text.compare(text.size()-suffix.size(), suffix.size(), suffix) == 0;
+}
+
 long long ipow(long long base, long long exp){
   long long result = 1l;
   for (;;){
@@ -17446,22 +17451,34 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return "";
+    if(sizeIn%4 != 0){
+      throw Exception("Invalid Base64 text!");
+    }
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
     for(long i=0; i<sizeIn; i+=4){
-      dataOut[k++] = (Base64::indexMap[dataIn[i]] << 2 & 0xfc) | (Base64::indexMap[dataIn[i+1]] >> 4 & 0x03); // first 6 and first 2
-      if(dataIn[i+2]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+1]] << 4 & 0xf0) | (Base64::indexMap[dataIn[i+2]] >> 2 & 0x0f); // last 4 and first 4
-      if(dataIn[i+3]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+2]] << 6 & 0xc0) | (Base64::indexMap[dataIn[i+3]] & 0x3f); // last 2 and first 6
+      dataOut[k++] = (Base64::getIndex(dataIn[i]) << 2 & 0xfc) | (Base64::getIndex(dataIn[i+1]) >> 4 & 0x03); // first 6 and first 2
+      if(dataIn[i+2]=='=' && i+4 == sizeIn)break;
+      dataOut[k++] = (Base64::getIndex(dataIn[i+1]) << 4 & 0xf0) | (Base64::getIndex(dataIn[i+2]) >> 2 & 0x0f); // last 4 and first 4
+      if(dataIn[i+3]=='=' && i+4 == sizeIn)break;
+      dataOut[k++] = (Base64::getIndex(dataIn[i+2]) << 6 & 0xc0) | (Base64::getIndex(dataIn[i+3]) & 0x3f); // last 2 and first 6
     }
     return dataOut;
   }
 
 private:
   static const std::string charsMap;
-  static std::unordered_map<char,char> indexMap;
+  static const std::unordered_map<char,char> indexMap;
+
+  static char getIndex(const char character){
+    auto it = Base64::indexMap.find(character);
+    if(it == Base64::indexMap.end()){
+      throw Exception("Invalid Base64 text!");
+    }
+    return it->second;
+  }
 
   static std::unordered_map<char,char> createMap(){
     std::unordered_map<char,char> out;
@@ -17477,7 +17494,7 @@ const std::string Base64::charsMap =
   "abcdefghijklmnopqrstuvwxyz"
   "0123456789+/";
 
-std::unordered_map<char,char> Base64::indexMap = Base64::createMap();
+const std::unordered_map<char,char> Base64::indexMap = Base64::createMap();
 
 class Bleaching{
 public:
@@ -17689,8 +17706,7 @@ class DataSet {
 public:
   DataSet(){}
   DataSet(std::string filename){
-    int s = dataset_sufix.size();
-    if(filename.substr(filename.size()-s,s).compare(dataset_sufix) != 0){
+    if(!endsWith(filename, dataset_sufix)){
       throw Exception("Invalid extension type!");
     }
     std::ifstream dataFile;
@@ -18126,8 +18142,7 @@ private:
   std::unordered_map<int,ram_t> ramdata;
 
   void setData(std::string inputdata){
-    int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    if(endsWith(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
@@ -18142,10 +18157,10 @@ private:
       }
     }
     else{
-      int pos=0;
-      unsigned int found = 0;
-      while(found < inputdata.size()){
-        found = inputdata.find('.',pos);
+      size_t pos=0;
+      while(pos <= inputdata.size()){
+        size_t found = inputdata.find('.',pos);
+        if(found == std::string::npos) found = inputdata.size();
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
         pos = found+1;
       }
@@ -18445,8 +18460,8 @@ public:
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-    count = config["count"];
-    std::string data = config["data"];
+    count = config["count"].is_null() ? 0 : config["count"].get<int>();
+    std::string data = config["data"].is_null() ? "" : config["data"].get<std::string>();
     nl::json mapping = config["mapping"];
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
@@ -18663,8 +18678,7 @@ protected:
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
-    int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    if(endsWith(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -18685,14 +18699,15 @@ protected:
       }
     }
     else{
-      int pos=0;
+      size_t pos=0;
       for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-        int found = data.find('.',pos);
+        size_t found = data.find('.',pos);
+        if(found == std::string::npos) found = data.size();
         nl::json base = {
           {"addresses", *it},
           {"data", data.substr(pos,found-pos)}
         };
-        pos = found+1;
+        pos = found < data.size() ? found+1 : data.size();
         base.merge_patch(rbase);
         checkMapping(*it, entrySize);
         rams.push_back(RAM(base));
@@ -18716,8 +18731,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
-        data += rams[i].getData();
+        data += (i != 0 ? "." : "") + rams[i].getData();
       }
     }
     return data;
diff --git a/src/common/utils.cc b/src/common/utils.cc
index ebf487f..dafbbd2 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -34,6 +34,11 @@ int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressin
   return numberOfRAMS;
 }
 
+inline bool endsWith(const std::string& text, const std::string& suffix){
+  return text.size() >= suffix.size() &&
+         text.compare(text.size()-suffix.size(), suffix.size(), suffix) == 0;
+}
+
 long long ipow(long long base, long long exp){
   long long result = 1l;
   for (;;){
@@ -116,22 +121,34 @@ public:
 
   static std::string decode(const std::string& dataIn){
     long sizeIn = dataIn.size();
+    if(sizeIn == 0) return "";
+    if(sizeIn%4 != 0){
+      throw Exception("Invalid Base64 text!");
+    }
     long size = 3*(sizeIn/4) - (dataIn[sizeIn-2] == '=' ? 2 : (dataIn[sizeIn-1] == '=' ? 1 : 0));
     std::string dataOut(size, 0);
     long k=0;
     for(long i=0; i<sizeIn; i+=4){
-      dataOut[k++] = (Base64::indexMap[dataIn[i]] << 2 & 0xfc) | (Base64::indexMap[dataIn[i+1]] >> 4 & 0x03); // first 6 and first 2
-      if(dataIn[i+2]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+1]] << 4 & 0xf0) | (Base64::indexMap[dataIn[i+2]] >> 2 & 0x0f); // last 4 and first 4
-      if(dataIn[i+3]=='=')break;
-      dataOut[k++] = (Base64::indexMap[dataIn[i+2]] << 6 & 0xc0) | (Base64::indexMap[dataIn[i+3]] & 0x3f); // last 2 and first 6
+      dataOut[k++] = (Base64::getIndex(dataIn[i]) << 2 & 0xfc) | (Base64::getIndex(dataIn[i+1]) >> 4 & 0x03); // first 6 and first 2
+      if(dataIn[i+2]=='=' && i+4 == sizeIn)break;
+      dataOut[k++] = (Base64::getIndex(dataIn[i+1]) << 4 & 0xf0) | (Base64::getIndex(dataIn[i+2]) >> 2 & 0x0f); // last 4 and first 4
+      if(dataIn[i+3]=='=' && i+4 == sizeIn)break;
+      dataOut[k++] = (Base64::getIndex(dataIn[i+2]) << 6 & 0xc0) | (Base64::getIndex(dataIn[i+3]) & 0x3f); // last 2 and first 6
     }
     return dataOut;
   }
 
 private:
   static const std::string charsMap;
-  static std::unordered_map<char,char> indexMap;
+  static const std::unordered_map<char,char> indexMap;
+
+  static char getIndex(const char character){
+    auto it = Base64::indexMap.find(character);
+    if(it == Base64::indexMap.end()){
+      throw Exception("Invalid Base64 text!");
+    }
+    return it->second;
+  }
 
   static std::unordered_map<char,char> createMap(){
     std::unordered_map<char,char> out;
@@ -147,4 +164,4 @@ const std::string Base64::charsMap =
   "abcdefghijklmnopqrstuvwxyz"
   "0123456789+/";
 
-std::unordered_map<char,char> Base64::indexMap = Base64::createMap();
+const std::unordered_map<char,char> Base64::indexMap = Base64::createMap();
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index f11975f..658131e 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -2,8 +2,7 @@ class DataSet {
 public:
   DataSet(){}
   DataSet(std::string filename){
-    int s = dataset_sufix.size();
-    if(filename.substr(filename.size()-s,s).compare(dataset_sufix) != 0){
+    if(!endsWith(filename, dataset_sufix)){
       throw Exception("Invalid extension type!");
     }
     std::ifstream dataFile;
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 9135ec9..0aac3ed 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -6,8 +6,8 @@ public:
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
-    count = config["count"];
-    std::string data = config["data"];
+    count = config["count"].is_null() ? 0 : config["count"].get<int>();
+    std::string data = config["data"].is_null() ? "" : config["data"].get<std::string>();
     nl::json mapping = config["mapping"];
     nl::json rbase = {
       {"ignoreZero", config["ignoreZero"]},
@@ -224,8 +224,7 @@ protected:
   }
 
   void setRAMsData(nl::json mapping, nl::json rbase, std::string data){
-    int s = ramdata_sufix.size();
-    if(data.substr(data.size()-s,s).compare(ramdata_sufix) == 0){
+    if(endsWith(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
       if(dataFile.is_open()){
@@ -246,14 +245,15 @@ protected:
       }
     }
     else{
-      int pos=0;
+      size_t pos=0;
       for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
-        int found = data.find('.',pos);
+        size_t found = data.find('.',pos);
+        if(found == std::string::npos) found = data.size();
         nl::json base = {
           {"addresses", *it},
           {"data", data.substr(pos,found-pos)}
         };
-        pos = found+1;
+        pos = found < data.size() ? found+1 : data.size();
         base.merge_patch(rbase);
         checkMapping(*it, entrySize);
         rams.push_back(RAM(base));
@@ -277,8 +277,7 @@ protected:
     }
     else{
       for(unsigned int i=0; i<rams.size(); i++){
-        if(data.size()>0) data += ".";
-        data += rams[i].getData();
+        data += (i != 0 ? "." : "") + rams[i].getData();
       }
     }
     return data;
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 76bc07c..b6429d2 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -76,8 +76,7 @@ private:
   std::unordered_map<int,ram_t> ramdata;
 
   void setData(std::string inputdata){
-    int s = ramdata_sufix.size();
-    if(inputdata.substr(inputdata.size()-s,s).compare(ramdata_sufix) == 0){
+    if(endsWith(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
       if(dataFile.is_open()){
@@ -92,10 +91,10 @@ private:
       }
     }
     else{
-      int pos=0;
-      unsigned int found = 0;
-      while(found < inputdata.size()){
-        found = inputdata.find('.',pos);
+      size_t pos=0;
+      while(pos <= inputdata.size()){
+        size_t found = inputdata.find('.',pos);
+        if(found == std::string::npos) found = inputdata.size();
         ramdata[ramdata.size()] = dataToRam(inputdata.substr(pos,found-pos));
         pos = found+1;
       }
-- 
2.43.0


From c66144c4fc8d488961ef5c276e4796169621d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 23/31] fix: the lead over every class counts for bleaching,
 whatever the order of labels

---
 include/wisardpkg.hpp   | 10 ++++++----
 src/common/bleaching.cc | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index ca1e194..2355911 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17560,16 +17560,18 @@ public:
 private:
   static std::tuple<bool, int> isThereAmbiguity(std::map<std::string,int>& candidates, int confidence) {
     int biggest = 0;
-    bool ambiguity = false;
+    int closest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second > biggest){
         biggest = i->second;
-        ambiguity = false;
       }
-      else if( (biggest - i->second) < confidence ){
-        ambiguity = true;
+    }
+    for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
+      if( (biggest - i->second) < confidence ){
+        closest++;
       }
     }
+    bool ambiguity = closest > 1;
     std::tuple<bool, int> ambiguityAndHighest = std::make_tuple(ambiguity, biggest);
     return ambiguityAndHighest;
   }
diff --git a/src/common/bleaching.cc b/src/common/bleaching.cc
index 2ed82f3..6506d06 100644
--- a/src/common/bleaching.cc
+++ b/src/common/bleaching.cc
@@ -63,16 +63,18 @@ public:
 private:
   static std::tuple<bool, int> isThereAmbiguity(std::map<std::string,int>& candidates, int confidence) {
     int biggest = 0;
-    bool ambiguity = false;
+    int closest = 0;
     for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
       if(i->second > biggest){
         biggest = i->second;
-        ambiguity = false;
       }
-      else if( (biggest - i->second) < confidence ){
-        ambiguity = true;
+    }
+    for(std::map<std::string,int>::iterator i=candidates.begin(); i != candidates.end(); ++i){
+      if( (biggest - i->second) < confidence ){
+        closest++;
       }
     }
+    bool ambiguity = closest > 1;
     std::tuple<bool, int> ambiguityAndHighest = std::make_tuple(ambiguity, biggest);
     return ambiguityAndHighest;
   }
-- 
2.43.0


From 7bfe9276b358dcc8bf1f2d1c555af5d3cb9cd4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 24/31] fix: save and check every setting of a model

---
 include/wisardpkg.hpp               | 6 ++++--
 src/models/cluswisard/cluswisard.cc | 3 ++-
 src/models/wisard/wisard.cc         | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 2355911..2fcbe66 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -19057,12 +19057,13 @@ protected:
       {"addressSize", addressSize},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"mapping", mapping},
       {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
       {"base", base},
       {"confidence", confidence},
-      // {"searchBestConfidence", searchBestConfidence},
+      {"searchBestConfidence", searchBestConfidence},
       {"returnConfidence", returnConfidence},
       {"returnActivationDegree", returnActivationDegree},
       {"returnClassesDegrees", returnClassesDegrees}
@@ -19356,6 +19357,7 @@ public:
       minScore = c["minScore"];
       threshold = c["threshold"];
       discriminatorsLimit = c["discriminatorsLimit"];
+      checkConfigInputs(minScore, threshold, discriminatorsLimit);
 
       nl::json dConfig = {
         {"addressSize", addressSize},
@@ -19621,7 +19623,7 @@ protected:
       {"completeAddressing", completeAddressing},
       {"base", base},
       {"confidence", confidence},
-      // {"searchBestConfidence", searchBestConfidence},
+      {"searchBestConfidence", searchBestConfidence},
       {"returnConfidence", returnConfidence},
       {"returnActivationDegree", returnActivationDegree},
       {"returnClassesDegrees", returnClassesDegrees}
diff --git a/src/models/cluswisard/cluswisard.cc b/src/models/cluswisard/cluswisard.cc
index 69bdab8..4f9d40f 100644
--- a/src/models/cluswisard/cluswisard.cc
+++ b/src/models/cluswisard/cluswisard.cc
@@ -48,6 +48,7 @@ public:
       minScore = c["minScore"];
       threshold = c["threshold"];
       discriminatorsLimit = c["discriminatorsLimit"];
+      checkConfigInputs(minScore, threshold, discriminatorsLimit);
 
       nl::json dConfig = {
         {"addressSize", addressSize},
@@ -313,7 +314,7 @@ protected:
       {"completeAddressing", completeAddressing},
       {"base", base},
       {"confidence", confidence},
-      // {"searchBestConfidence", searchBestConfidence},
+      {"searchBestConfidence", searchBestConfidence},
       {"returnConfidence", returnConfidence},
       {"returnActivationDegree", returnActivationDegree},
       {"returnClassesDegrees", returnClassesDegrees}
diff --git a/src/models/wisard/wisard.cc b/src/models/wisard/wisard.cc
index 3fecbed..7c7359d 100644
--- a/src/models/wisard/wisard.cc
+++ b/src/models/wisard/wisard.cc
@@ -212,12 +212,13 @@ protected:
       {"addressSize", addressSize},
       {"bleachingActivated", bleachingActivated},
       {"verbose", verbose},
+      {"mapping", mapping},
       {"indexes", indexes},
       {"ignoreZero", ignoreZero},
       {"completeAddressing", completeAddressing},
       {"base", base},
       {"confidence", confidence},
-      // {"searchBestConfidence", searchBestConfidence},
+      {"searchBestConfidence", searchBestConfidence},
       {"returnConfidence", returnConfidence},
       {"returnActivationDegree", returnActivationDegree},
       {"returnClassesDegrees", returnClassesDegrees}
-- 
2.43.0


From 7598ff1d1d71e2fdb8c6fbeabe711f1e331cb143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 25/31] fix: file errors are reported, and saving never appends
 to an older file

---
 include/wisardpkg.hpp              | 74 ++++++++++++++++++++++++++----
 src/common/utils.cc                |  9 ++++
 src/data/dataset.cc                | 26 +++++++++--
 src/models/wisard/discriminator.cc | 19 +++++++-
 src/models/wisard/ramdatahandle.cc | 20 ++++++--
 5 files changed, 130 insertions(+), 18 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 2fcbe66..816d358 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17353,6 +17353,15 @@ std::string getRandomString(int len){
   return s;
 }
 
+// a name starting with prefix that no file has yet
+inline std::string getNewFilename(const std::string& prefix, const std::string& sufix){
+  for(int i=0; i<100; i++){
+    std::string filename = prefix + getRandomString(10) + sufix;
+    if(!std::ifstream(filename).good()) return filename;
+  }
+  throw Exception("There is no free file name with the given prefix!");
+}
+
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
   if(addressSize < 1){
     throw Exception("The address size cann't be lesser than 1!");
@@ -17713,13 +17722,23 @@ public:
     }
     std::ifstream dataFile;
     dataFile.open(filename);
-    if(dataFile.is_open()){
+    if(!dataFile.is_open()){
+      throw Exception("The file of the data set can not be opened!");
+    }
+    else{
       while(true){
         if(dataFile.eof()) break;
 
         std::string input="";
         std::getline(dataFile,input,'.');
-        int sharp = input.find("#");
+        if(dataFile.fail() && !dataFile.eof()){
+          throw Exception("The file of the data set can not be read!");
+        }
+        if(input.empty() && data.empty()) break;
+        size_t sharp = input.find("#");
+        if(sharp == std::string::npos){
+          throw Exception("The file of the data set has an incomplete entry!");
+        }
         std::string label = Base64::decode(input.substr(0,sharp));
 
         add(BinInput(input.substr(sharp+1,input.size()-(sharp+1))),label);
@@ -17767,13 +17786,21 @@ public:
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename, std::ios::trunc);
+    if(!dataFile.is_open()){
+      throw Exception("The file of the data set can not be created!");
+    }
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      auto label = labels.find(i);
+      std::string encodedLabel = label == labels.end() ? "" : Base64::encode(label->second);
+      dataFile << (i != 0 ? "." : "") + encodedLabel + "#" + data[i].data();
     }
 
     dataFile.close();
+    if(dataFile.fail()){
+      throw Exception("The file of the data set can not be written!");
+    }
   }
 
 private:
@@ -18131,13 +18158,19 @@ public:
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename, std::ios::trunc);
+    if(!dataFile.is_open()){
+      throw Exception("The file of RAM data can not be created!");
+    }
 
     for(unsigned int i=0; i<ramdata.size(); i++){
       dataFile << (i != 0 ? "." : "") + data(i);
     }
 
     dataFile.close();
+    if(dataFile.fail()){
+      throw Exception("The file of RAM data can not be written!");
+    }
   }
 
 private:
@@ -18147,12 +18180,18 @@ private:
     if(endsWith(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
-      if(dataFile.is_open()){
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data can not be opened!");
+      }
+      else{
         while(true){
           if(dataFile.eof()) break;
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
+          if(dataFile.fail() && !dataFile.eof()){
+            throw Exception("The file of RAM data can not be read!");
+          }
           ramdata[ramdata.size()] = dataToRam(rdata);
         }
         dataFile.close();
@@ -18173,7 +18212,9 @@ private:
     ram_t ramout;
     std::string decodedData = Base64::decode(inputdata);
     const int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    if(decodedData.size()%blockSize != 0) return ramout;
+    if(decodedData.size()%blockSize != 0){
+      throw Exception("The RAM data has an incomplete position!");
+    }
 
     for(unsigned long i=0; i<decodedData.size(); i+=blockSize){
       addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));
@@ -18683,12 +18724,18 @@ protected:
     if(endsWith(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
-      if(dataFile.is_open()){
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data can not be opened!");
+      }
+      else{
         for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
           if(dataFile.eof()) break;
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
+          if(dataFile.fail() && !dataFile.eof()){
+            throw Exception("The file of RAM data can not be read!");
+          }
           nl::json base = {
             {"addresses", *it},
             {"data", rdata}
@@ -18698,6 +18745,9 @@ protected:
           rams.push_back(RAM(base));
         }
         dataFile.close();
+        if(rams.size() != mapping.size()){
+          throw Exception("The file of RAM data does not have the data of every RAM!");
+        }
       }
     }
     else{
@@ -18720,15 +18770,21 @@ protected:
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
-      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      std::string filename = getNewFilename(prefix, ramdata_sufix);
       std::ofstream dataFile;
       dataFile.open(filename, std::ios::app);
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data can not be created!");
+      }
 
       for(unsigned int i=0; i<rams.size(); i++){
         dataFile << (i != 0 ? "." : "") + rams[i].getData();
       }
 
       dataFile.close();
+      if(dataFile.fail()){
+        throw Exception("The file of RAM data can not be written!");
+      }
       data = filename;
     }
     else{
diff --git a/src/common/utils.cc b/src/common/utils.cc
index dafbbd2..46b333a 100644
--- a/src/common/utils.cc
+++ b/src/common/utils.cc
@@ -23,6 +23,15 @@ std::string getRandomString(int len){
   return s;
 }
 
+// a name starting with prefix that no file has yet
+inline std::string getNewFilename(const std::string& prefix, const std::string& sufix){
+  for(int i=0; i<100; i++){
+    std::string filename = prefix + getRandomString(10) + sufix;
+    if(!std::ifstream(filename).good()) return filename;
+  }
+  throw Exception("There is no free file name with the given prefix!");
+}
+
 int calculateNumberOfRams(int entrySize, int addressSize, bool completeAddressing=true){
   if(addressSize < 1){
     throw Exception("The address size cann't be lesser than 1!");
diff --git a/src/data/dataset.cc b/src/data/dataset.cc
index 658131e..a4a5ae4 100644
--- a/src/data/dataset.cc
+++ b/src/data/dataset.cc
@@ -7,13 +7,23 @@ public:
     }
     std::ifstream dataFile;
     dataFile.open(filename);
-    if(dataFile.is_open()){
+    if(!dataFile.is_open()){
+      throw Exception("The file of the data set can not be opened!");
+    }
+    else{
       while(true){
         if(dataFile.eof()) break;
 
         std::string input="";
         std::getline(dataFile,input,'.');
-        int sharp = input.find("#");
+        if(dataFile.fail() && !dataFile.eof()){
+          throw Exception("The file of the data set can not be read!");
+        }
+        if(input.empty() && data.empty()) break;
+        size_t sharp = input.find("#");
+        if(sharp == std::string::npos){
+          throw Exception("The file of the data set has an incomplete entry!");
+        }
         std::string label = Base64::decode(input.substr(0,sharp));
 
         add(BinInput(input.substr(sharp+1,input.size()-(sharp+1))),label);
@@ -61,13 +71,21 @@ public:
   void save(std::string prefix) {
     std::string filename = prefix + dataset_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename, std::ios::trunc);
+    if(!dataFile.is_open()){
+      throw Exception("The file of the data set can not be created!");
+    }
 
     for(unsigned int i=0; i<data.size(); i++){
-      dataFile << (i != 0 ? "." : "") + Base64::encode(labels[i]) + "#" + data[i].data();
+      auto label = labels.find(i);
+      std::string encodedLabel = label == labels.end() ? "" : Base64::encode(label->second);
+      dataFile << (i != 0 ? "." : "") + encodedLabel + "#" + data[i].data();
     }
 
     dataFile.close();
+    if(dataFile.fail()){
+      throw Exception("The file of the data set can not be written!");
+    }
   }
 
 private:
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 0aac3ed..4a1df39 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -227,12 +227,18 @@ protected:
     if(endsWith(data, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(data);
-      if(dataFile.is_open()){
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data can not be opened!");
+      }
+      else{
         for(nl::json::iterator it = mapping.begin(); it != mapping.end(); ++it){
           if(dataFile.eof()) break;
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
+          if(dataFile.fail() && !dataFile.eof()){
+            throw Exception("The file of RAM data can not be read!");
+          }
           nl::json base = {
             {"addresses", *it},
             {"data", rdata}
@@ -242,6 +248,9 @@ protected:
           rams.push_back(RAM(base));
         }
         dataFile.close();
+        if(rams.size() != mapping.size()){
+          throw Exception("The file of RAM data does not have the data of every RAM!");
+        }
       }
     }
     else{
@@ -264,15 +273,21 @@ protected:
   std::string getRAMsData(bool huge=false, std::string prefix=""){
     std::string data;
     if(huge){
-      std::string filename = prefix + getRandomString(10) + ramdata_sufix;
+      std::string filename = getNewFilename(prefix, ramdata_sufix);
       std::ofstream dataFile;
       dataFile.open(filename, std::ios::app);
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data can not be created!");
+      }
 
       for(unsigned int i=0; i<rams.size(); i++){
         dataFile << (i != 0 ? "." : "") + rams[i].getData();
       }
 
       dataFile.close();
+      if(dataFile.fail()){
+        throw Exception("The file of RAM data can not be written!");
+      }
       data = filename;
     }
     else{
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index b6429d2..7e83e50 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -63,13 +63,19 @@ public:
   void save(std::string prefix){
     std::string filename = prefix + ramdata_sufix;
     std::ofstream dataFile;
-    dataFile.open(filename, std::ios::app);
+    dataFile.open(filename, std::ios::trunc);
+    if(!dataFile.is_open()){
+      throw Exception("The file of RAM data can not be created!");
+    }
 
     for(unsigned int i=0; i<ramdata.size(); i++){
       dataFile << (i != 0 ? "." : "") + data(i);
     }
 
     dataFile.close();
+    if(dataFile.fail()){
+      throw Exception("The file of RAM data can not be written!");
+    }
   }
 
 private:
@@ -79,12 +85,18 @@ private:
     if(endsWith(inputdata, ramdata_sufix)){
       std::ifstream dataFile;
       dataFile.open(inputdata);
-      if(dataFile.is_open()){
+      if(!dataFile.is_open()){
+        throw Exception("The file of RAM data can not be opened!");
+      }
+      else{
         while(true){
           if(dataFile.eof()) break;
 
           std::string rdata="";
           std::getline(dataFile,rdata,'.');
+          if(dataFile.fail() && !dataFile.eof()){
+            throw Exception("The file of RAM data can not be read!");
+          }
           ramdata[ramdata.size()] = dataToRam(rdata);
         }
         dataFile.close();
@@ -105,7 +117,9 @@ private:
     ram_t ramout;
     std::string decodedData = Base64::decode(inputdata);
     const int blockSize = (sizeof(addr_t)+sizeof(content_t));
-    if(decodedData.size()%blockSize != 0) return ramout;
+    if(decodedData.size()%blockSize != 0){
+      throw Exception("The RAM data has an incomplete position!");
+    }
 
     for(unsigned long i=0; i<decodedData.size(); i+=blockSize){
       addr_t address = convertToValue<addr_t>(decodedData.substr(i,sizeof(addr_t)));
-- 
2.43.0


From d28292ce06379e567ad76d57e13f51bc0074348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 26/31] fix: the synthesizer uses the shuffled examples

---
 include/wisardpkg.hpp              | 2 +-
 src/synthetic_data/synthesizers.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 816d358..1583cba 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17858,7 +17858,7 @@ private:
 
       for(unsigned int j=0; j<indexes.size(); j++){
         if(intensity <= 0) break;
-        cube[i][j] = 1;
+        cube[i][indexes[j]] = 1;
         intensity--;
       }
     }
diff --git a/src/synthetic_data/synthesizers.cc b/src/synthetic_data/synthesizers.cc
index fbafe7d..7c25698 100644
--- a/src/synthetic_data/synthesizers.cc
+++ b/src/synthetic_data/synthesizers.cc
@@ -49,7 +49,7 @@ private:
 
       for(unsigned int j=0; j<indexes.size(); j++){
         if(intensity <= 0) break;
-        cube[i][j] = 1;
+        cube[i][indexes[j]] = 1;
         intensity--;
       }
     }
-- 
2.43.0


From 12034b4ba514540f94a96a5de649aa5e0cc95cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 27/31] fix: refuse packed inputs whose data is malformed

---
 include/wisardpkg.hpp | 8 +++++++-
 src/data/bininput.cc  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 1583cba..11176ce 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -17668,9 +17668,15 @@ public:
 
   BinInput(const std::string& data){
     std::string decodedData = Base64::decode(data);
-    int s = sizeof(char);
+    unsigned int s = sizeof(char);
+    if(decodedData.size() < s){
+      throw Exception("Invalid data of binary input!");
+    }
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
+    if(remain < 0 || remain > 7 || (remain > 0 && input.empty())){
+      throw Exception("Invalid data of binary input!");
+    }
   }
 
   int operator[](index_size_t index) const {
diff --git a/src/data/bininput.cc b/src/data/bininput.cc
index 14d9230..53f488d 100644
--- a/src/data/bininput.cc
+++ b/src/data/bininput.cc
@@ -14,9 +14,15 @@ public:
 
   BinInput(const std::string& data){
     std::string decodedData = Base64::decode(data);
-    int s = sizeof(char);
+    unsigned int s = sizeof(char);
+    if(decodedData.size() < s){
+      throw Exception("Invalid data of binary input!");
+    }
     remain = convertToValue<char>(decodedData.substr(0,s));
     input = decodedData.substr(s,decodedData.size()-s);
+    if(remain < 0 || remain > 7 || (remain > 0 && input.empty())){
+      throw Exception("Invalid data of binary input!");
+    }
   }
 
   int operator[](index_size_t index) const {
-- 
2.43.0


From 6742852fe5cfd053aab7e90ead3caca23275c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 28/31] fix: RAM data keeps every RAM when one is set beyond
 the last

---
 include/wisardpkg.hpp              | 5 +++++
 src/models/wisard/ramdatahandle.cc | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 11176ce..40ea4f4 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18123,6 +18123,11 @@ public:
   }
 
   void set(int r, addr_t addr, int value){
+    if(r < 0){
+      throw Exception("The RAM index can not be negative!");
+    }
+    // the text form has one piece per RAM, so every RAM before this one exists too
+    for(int i=ramdata.size(); i<r; i++) ramdata[i];
     ramdata[r][addr] = value;
   }
 
diff --git a/src/models/wisard/ramdatahandle.cc b/src/models/wisard/ramdatahandle.cc
index 7e83e50..83a4071 100644
--- a/src/models/wisard/ramdatahandle.cc
+++ b/src/models/wisard/ramdatahandle.cc
@@ -22,6 +22,11 @@ public:
   }
 
   void set(int r, addr_t addr, int value){
+    if(r < 0){
+      throw Exception("The RAM index can not be negative!");
+    }
+    // the text form has one piece per RAM, so every RAM before this one exists too
+    for(int i=ramdata.size(); i<r; i++) ramdata[i];
     ramdata[r][addr] = value;
   }
 
-- 
2.43.0


From c669747522220fa2262ba8b3e54949f9c26aa18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 29/31] fix: default constructed RAMs, discriminators and
 clusters have definite settings

---
 include/wisardpkg.hpp              | 8 +++++---
 src/models/cluswisard/cluster.cc   | 4 +++-
 src/models/wisard/discriminator.cc | 2 +-
 src/models/wisard/ram.cc           | 2 +-
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index 40ea4f4..c5f13ef 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18311,7 +18311,7 @@ private:
 
 class RAM{
 public:
-  RAM(){}
+  RAM(): ignoreZero(false), base(2){}
   RAM(nl::json c){
     ignoreZero = c["ignoreZero"];
     base=c["base"];
@@ -18510,7 +18510,7 @@ private:
 class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
-  Discriminator(int entrySize):entrySize(entrySize){}
+  Discriminator(int entrySize):entrySize(entrySize),count(0){}
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
@@ -19184,7 +19184,9 @@ protected:
 
 class Cluster {
 public:
-  Cluster(){}
+  Cluster():
+    addressSize(2), entrySize(2), minScore(0), threshold(1), discriminatorsLimit(1),
+    completeAddressing(true), ignoreZero(false), base(2){}
   Cluster(int entrySize, int addressSize, float minScore, unsigned int threshold,
     int discriminatorsLimit, bool completeAddressing=true, bool ignoreZero=false, int base=2):
     addressSize(addressSize), entrySize(entrySize), minScore(minScore),
diff --git a/src/models/cluswisard/cluster.cc b/src/models/cluswisard/cluster.cc
index b4f9765..63c4c83 100644
--- a/src/models/cluswisard/cluster.cc
+++ b/src/models/cluswisard/cluster.cc
@@ -1,7 +1,9 @@
 
 class Cluster {
 public:
-  Cluster(){}
+  Cluster():
+    addressSize(2), entrySize(2), minScore(0), threshold(1), discriminatorsLimit(1),
+    completeAddressing(true), ignoreZero(false), base(2){}
   Cluster(int entrySize, int addressSize, float minScore, unsigned int threshold,
     int discriminatorsLimit, bool completeAddressing=true, bool ignoreZero=false, int base=2):
     addressSize(addressSize), entrySize(entrySize), minScore(minScore),
diff --git a/src/models/wisard/discriminator.cc b/src/models/wisard/discriminator.cc
index 4a1df39..4590d79 100644
--- a/src/models/wisard/discriminator.cc
+++ b/src/models/wisard/discriminator.cc
@@ -2,7 +2,7 @@
 class Discriminator{
 public:
   Discriminator(): entrySize(0),count(0){}
-  Discriminator(int entrySize):entrySize(entrySize){}
+  Discriminator(int entrySize):entrySize(entrySize),count(0){}
   Discriminator(std::string config): Discriminator(nl::json::parse(config)){}
   Discriminator(nl::json config){
     entrySize = config["entrySize"];
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index e506b51..45b8836 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -1,7 +1,7 @@
 
 class RAM{
 public:
-  RAM(){}
+  RAM(): ignoreZero(false), base(2){}
   RAM(nl::json c){
     ignoreZero = c["ignoreZero"];
     base=c["base"];
-- 
2.43.0


From 7dd535ef4a87f10276e3b2c5bb8413fe88732b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:41 +0000
Subject: [PATCH 30/31] fix: a RAM refuses an input or mapping it addresses
 beyond the end

---
 include/wisardpkg.hpp    | 8 ++++++++
 src/models/wisard/ram.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/wisardpkg.hpp b/include/wisardpkg.hpp
index c5f13ef..5c301d0 100644
--- a/include/wisardpkg.hpp
+++ b/include/wisardpkg.hpp
@@ -18399,6 +18399,7 @@ public:
   }
 
   void setMapping(std::vector<std::vector<int>>& mapping, int i){
+    checkAddress(i, mapping.size());
     int size = addresses.size();
     mapping[i].resize(size);
     for(int j=0; j<size; j++) {
@@ -18428,6 +18429,7 @@ protected:
     addr_t index = 0;
     addr_t p = 1;
     for(unsigned int i=0; i<addresses.size(); i++){
+      checkAddress(addresses[i], image.size());
       int bin = image[addresses[i]];
       checkPos(bin);
       index += bin*p;
@@ -18494,6 +18496,12 @@ private:
     }
   }
 
+  void checkAddress(const int address, const std::size_t size) const{
+    if(address < 0 || (std::size_t)address >= size){
+      throw Exception("A RAM addresses a position outside of the data given!");
+    }
+  }
+
   void checkPos(const int code) const{
     if(code < 0 || code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
diff --git a/src/models/wisard/ram.cc b/src/models/wisard/ram.cc
index 45b8836..223fcff 100644
--- a/src/models/wisard/ram.cc
+++ b/src/models/wisard/ram.cc
@@ -89,6 +89,7 @@ public:
   }
 
   void setMapping(std::vector<std::vector<int>>& mapping, int i){
+    checkAddress(i, mapping.size());
     int size = addresses.size();
     mapping[i].resize(size);
     for(int j=0; j<size; j++) {
@@ -118,6 +119,7 @@ protected:
     addr_t index = 0;
     addr_t p = 1;
     for(unsigned int i=0; i<addresses.size(); i++){
+      checkAddress(addresses[i], image.size());
       int bin = image[addresses[i]];
       checkPos(bin);
       index += bin*p;
@@ -184,6 +186,12 @@ private:
     }
   }
 
+  void checkAddress(const int address, const std::size_t size) const{
+    if(address < 0 || (std::size_t)address >= size){
+      throw Exception("A RAM addresses a position outside of the data given!");
+    }
+  }
+
   void checkPos(const int code) const{
     if(code < 0 || code >= base){
       throw Exception("The input data has a value bigger than base of addresing!");
-- 
2.43.0


From 8642c15f001e210bb5fe37c796121c4588d80d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:05 +0000
Subject: [PATCH 31/31] fix: the class degrees of an untrained model name no
 class

---
 src/wrappers/cluswisardwrapper.cc | 6 ++++--
 src/wrappers/wisardwrapper.cc     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wrappers/cluswisardwrapper.cc b/src/wrappers/cluswisardwrapper.cc
index 5fd0263..11b46ce 100644
--- a/src/wrappers/cluswisardwrapper.cc
+++ b/src/wrappers/cluswisardwrapper.cc
@@ -49,17 +49,19 @@ public:
       std::string label = Bleaching::getBiggestCandidate(candidates);
       std::string aClass = label.substr(0,label.rfind("::"));
 
+      int votes = candidates.count(label) > 0 ? candidates[label] : 0;
+
       if(returnConfidence || returnActivationDegree || returnClassesDegrees){
         labels[i] = py::dict(py::arg("class")=aClass);
       }
 
       if(returnActivationDegree){
-        float activationDegree = numberOfRAMS > 0 ? candidates[label]/numberOfRAMS : 0;
+        float activationDegree = numberOfRAMS > 0 ? votes/numberOfRAMS : 0;
         labels[i]["activationDegree"]=activationDegree;
       }
 
       if(returnConfidence){
-        float confidence = Bleaching::getConfidence(candidates, candidates[label]);
+        float confidence = Bleaching::getConfidence(candidates, votes);
         labels[i]["confidence"]=confidence;
       }
 
diff --git a/src/wrappers/wisardwrapper.cc b/src/wrappers/wisardwrapper.cc
index 127fed2..6229049 100644
--- a/src/wrappers/wisardwrapper.cc
+++ b/src/wrappers/wisardwrapper.cc
@@ -44,17 +44,19 @@ public:
   }
 
   void setClassifyOutput(py::list& labels, int i, std::string aClass, float numberOfRAMS, std::map<std::string,int>& candidates){
+    int votes = candidates.count(aClass) > 0 ? candidates[aClass] : 0;
+
     if(returnConfidence || returnActivationDegree || returnClassesDegrees){
       labels[i] = py::dict(py::arg("class")=aClass);
     }
 
     if(returnActivationDegree){
-      float activationDegree = numberOfRAMS > 0 ? candidates[aClass]/numberOfRAMS : 0;
+      float activationDegree = numberOfRAMS > 0 ? votes/numberOfRAMS : 0;
       labels[i]["activationDegree"]=activationDegree;
     }
 
     if(returnConfidence){
-      float confidence = Bleaching::getConfidence(candidates, candidates[aClass]);
+      float confidence = Bleaching::getConfidence(candidates, votes);
       labels[i]["confidence"]=confidence;
     }
 
-- 
2.43.0

