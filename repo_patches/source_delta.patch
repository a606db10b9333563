From 9e55f882a76974e9214a3ad6180de054fe278625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 001/139] fix: removePoint looks the id up before touching the
 dataset

An id that no point has corrupted the size and the class distribution (uninitialised
label), and ids above the last point's id were refused after a shuffle.
---
 .../include/ufjfmltk/core/Data.hpp            | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 123a324..6023960 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1184,9 +1184,12 @@ namespace mltk{
         int i;
 
         if(m_size == 1){ std::cout << "Error: RemovePoint, only one point left\n"; return false; }
-        //Ids bound verification
-        if(pid > m_points[m_size - 1]->Id() || pid <= 0) return false;
-        int y;
+        //Find the point by its id
+        auto found = std::find_if(m_points.begin(), m_points.end(), [&pid](const auto &p){
+            return int(p->Id()) == pid;
+        });
+        if(pid <= 0 || found == m_points.end()) return false;
+        int y = (*found)->Y();
         if(!index.empty()){
             index.resize(m_size);
 
@@ -1197,17 +1200,10 @@ namespace mltk{
             }
         }
 
-        //Find the point by its id and erase it
-        for(i = 0; i < m_size; i++){
-            if(m_points[i]->Id() == pid){
-                y = m_points[i]->Y();
-                m_points.erase(m_points.begin() + i);
-                break;
-            }
-        }
+        m_points.erase(found);
         m_size--;
         auto pos = std::find(m_classes.begin(), m_classes.end(), y) - m_classes.begin();
-        class_distribution[pos]--;
+        if(pos < class_distribution.size()) class_distribution[pos]--;
         return true;
     }
 
-- 
2.43.0


From 4158ece622200b13ea1ea6392185cfb0468336ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 002/139] fix: removePoints keeps the last point instead of
 erasing it uncounted

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 6023960..b1a800f 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1260,13 +1260,15 @@ namespace mltk{
             for(i = 0; i < idsize; i++){
                 if(po->Id() == ids[i]){
                     save = false;
-                    notFound[i] = false;
                     break;
                 }
             }
 
             if(save) p++;
             else{
+                //Size verification.
+                if(m_size == 1){ std::clog << "Error: RemovePoint, only one point left." << std::endl; break;}
+                notFound[i] = false;
                 p = m_points.erase(p);
                 int c = po->Y();
                 if(!index.empty()){
@@ -1278,10 +1280,8 @@ namespace mltk{
                         }
                     }
                 }
-                //Size verification.
-                if(m_size == 1){ std::clog << "Error: RemovePoint, only one point left." << std::endl; break;}
                 auto class_pos = std::find(m_classes.begin(), m_classes.end(), c) - m_classes.begin();
-                class_distribution[class_pos]--;
+                if(class_pos < class_distribution.size()) class_distribution[class_pos]--;
                 m_size--;
             }
         }
-- 
2.43.0


From dc60642181a6400ce1ed07f5cc14a6bada86318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 003/139] fix: updatePointValue counts a new class once and
 does not use a stale iterator

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index b1a800f..9767644 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1987,7 +1987,8 @@ namespace mltk{
             if(class_pos == m_classes.end()){
                 m_classes.push_back(_c);
                 class_names.push_back(std::to_string(_c));
-                class_distribution.push_back(1);
+                class_distribution.push_back(0);
+                class_pos = m_classes.end() - 1;
             }
             auto oldclass_pos = std::find(m_classes.begin(), m_classes.end(), int(old_value))- m_classes.begin();
             class_distribution[class_pos - m_classes.begin()]++;
-- 
2.43.0


From dae38a8291db1325fa6a48d1ea88999ab81dc093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 004/139] fix: inserting a point from another dataset copies it
 and reports failure

The source dataset's point was shared and renumbered, a dimension mismatch was
reported as success, and an empty source was read out of bounds.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 9767644..726adcb 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1431,14 +1431,12 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::insertPoint(const Data< T >& samples, int _index, bool keepIndex){
-        if(_index > samples.size() - 1){
+        if(_index < 0 || _index >= samples.size()){
             std::cerr << "Index out of bounds. (insertPoint)" << std::endl;
             return false;
         }
 
-        insertPoint(samples.point(_index), keepIndex);
-
-        return true;
+        return insertPoint(*samples.point(_index), keepIndex);
     }
 
     template<typename T>
-- 
2.43.0


From 82920eadf24a65dbc52fdbe952a193df8255b39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 005/139] fix: insertPoint keeps the names of the features the
 dataset already has

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 726adcb..94b903b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1448,7 +1448,7 @@ namespace mltk{
             return false;
         }
 
-        if(p->size() > 0) {
+        if(p->size() > 0 && this->fnames.size() != p->size()) {
             this->fnames = std::vector<int>(p->size(), 0);
             std::iota(this->fnames.begin(), this->fnames.end(), 1);
         }
-- 
2.43.0


From e021530d925e1778edc0acefe541e588bd860552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 006/139] fix: clear also forgets the class distribution

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 94b903b..ba45d7d 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1724,6 +1724,7 @@ namespace mltk{
         index.clear();
         m_classes.clear();
         class_names.clear();
+        class_distribution.clear();
         m_size = 0;
         m_dim = 0;
         normalized = false;
-- 
2.43.0


From ad963904342a30253e3f942117983432ad4dffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 007/139] fix: removeFeatures with a feature named twice keeps
 names and columns in step

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index ba45d7d..a27d399 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1380,6 +1380,8 @@ namespace mltk{
 
         //Sort feats for remove features easily
         sort(feats.begin(), feats.end());
+        feats.erase(std::unique(feats.begin(), feats.end()), feats.end());
+        rsize = feats.size();
 
         //Check the existence of the features to be removed
         for(i = 0; i < rsize; i++){
-- 
2.43.0


From 26c776f081f97298e39c139d0cd599886a865767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 008/139] fix: computeClassesDistribution always recounts the
 classes

A dataset loaded from a file never recounted (join left it with an all-zero
distribution), and a label outside the class list was counted out of bounds.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index a27d399..9b19c6f 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1838,11 +1838,11 @@ namespace mltk{
 
     template <typename T>
     void mltk::Data< T >::computeClassesDistribution(){
-        if(cdist_computed) return;
         this->class_distribution = std::vector<size_t>(this->m_classes.size(), 0);
         for(auto p: m_points){
             int c = p->Y();
             auto class_it = std::find(this->m_classes.begin(), this->m_classes.end(), c);
+            if(class_it == this->m_classes.end()) continue;
             size_t class_pos = class_it - this->m_classes.begin();
             class_distribution[class_pos]++;
         }
-- 
2.43.0


From 2f1aee8f9a9cf20661c0022008f362f0a6a46a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 009/139] fix: join into an empty dataset takes over dimension
 and non-empty state

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 9b19c6f..fbf67b0 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1601,6 +1601,8 @@ namespace mltk{
             exit(1);
         }
 
+        if(m_points.empty()) m_dim = dim1;
+        if(size1 > 0) is_empty = false;
         m_size += size1;
 
         m_points.resize(m_size);
-- 
2.43.0


From a2f27338acfcc5e296e8ef0fec1a65ab7a20ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 010/139] fix: join keeps class names aligned with the classes
 they name

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp     | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index fbf67b0..8f126ac 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1625,13 +1625,11 @@ namespace mltk{
         m_classes.reserve(m_classes.size()+diff.size());
         m_classes.insert(m_classes.end(), diff.begin(), diff.end());
 
-        std::vector<std::string> diff_names, classes_names1 = data.classesNames(), classes_names = class_names;
-        std::sort(classes_names.begin(), classes_names.end());
-        std::sort(classes_names1.begin(), classes_names1.end());
-        std::set_difference(classes_names1.begin(), classes_names1.end(), classes_names.begin(), classes_names.end(),
-                            std::inserter(diff_names, diff_names.begin()));
-        class_names.reserve(class_names.size()+diff_names.size());
-        class_names.insert(class_names.end(), diff_names.begin(), diff_names.end());
+        auto classes_names1 = data.classesNames();
+        for(const auto& c: diff){
+            size_t pos = std::find(data.m_classes.begin(), data.m_classes.end(), c) - data.m_classes.begin();
+            class_names.push_back((pos < classes_names1.size()) ? classes_names1[pos] : std::to_string(c));
+        }
 
         class_distribution.assign(m_classes.size(), 0);
         computeClassesDistribution();
-- 
2.43.0


From 3da0cf0853a8ec8a43b617d656f98f317822b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 011/139] fix: loading a file replaces the classes of what was
 loaded before

---
 .../include/ufjfmltk/core/Data.hpp            | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 8f126ac..355ebd7 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -744,6 +744,11 @@ namespace mltk{
         input.clear();
         input.seekg(0, std::ios::beg);
 
+        //forget the classes of a previously loaded dataset
+        m_classes.clear();
+        class_names.clear();
+        class_distribution.clear();
+
         //initialize _dim and _size
         this->m_dim = _dim;
         this->m_size = _size;
@@ -860,6 +865,11 @@ namespace mltk{
         input.clear();
         input.seekg(0, std::ios::beg);
 
+        //forget the classes of a previously loaded dataset
+        m_classes.clear();
+        class_names.clear();
+        class_distribution.clear();
+
         //initialize _dim and _size
         this->m_dim = _dim;
         this->m_size = _size;
@@ -988,6 +998,11 @@ namespace mltk{
         input.clear();
         input.seekg(0, std::ios::beg);
 
+        //forget the classes of a previously loaded dataset
+        m_classes.clear();
+        class_names.clear();
+        class_distribution.clear();
+
         //initialize _dim and _size
         _dim--;
         this->m_dim = _dim;
@@ -1083,6 +1098,11 @@ namespace mltk{
             ss.clear();
         }
 
+        //forget the classes of a previously loaded dataset
+        m_classes.clear();
+        class_names.clear();
+        class_distribution.clear();
+
         //Initialize _size and _dim
         this->m_size = _size;
         this->m_dim = _dim;
-- 
2.43.0


From faa3b068754b17e269321f11cef4267f6589c143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 012/139] fix: a copied dataset keeps its positive and negative
 class labels

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 355ebd7..516950d 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1598,6 +1598,8 @@ namespace mltk{
         this->time_mult = _data.getTime_mult();
         this->cdist_computed = _data.cdist_computed;
         this->dataset_name = _data.dataset_name;
+        this->pos_class = _data.pos_class;
+        this->neg_class = _data.neg_class;
     }
 
     template<typename T>
-- 
2.43.0


From bae9b81dc6f733ab7d7112e6f0de9f1a3189d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 013/139] fix: removing points shrinks the index vector with
 the dataset

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 516950d..c57aa17 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1222,6 +1222,7 @@ namespace mltk{
 
         m_points.erase(found);
         m_size--;
+        if(!index.empty()) index.resize(m_size);
         auto pos = std::find(m_classes.begin(), m_classes.end(), y) - m_classes.begin();
         if(pos < class_distribution.size()) class_distribution[pos]--;
         return true;
@@ -1303,6 +1304,7 @@ namespace mltk{
                 auto class_pos = std::find(m_classes.begin(), m_classes.end(), c) - m_classes.begin();
                 if(class_pos < class_distribution.size()) class_distribution[class_pos]--;
                 m_size--;
+                if(!index.empty()) index.resize(m_size);
             }
         }
 
-- 
2.43.0


From 777dc52650bf4eff8ae3898c5271cc065cb76aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 014/139] fix: every occurrence of a class label in a file maps
 to the same class

After "-1" had been seen, the first occurrence of any other label was read as
class 1 and the later ones as their own value; labels with inner whitespace were
never found among the known names.
---
 .../include/ufjfmltk/core/Data.hpp            | 20 +++++--------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index c57aa17..cee281e 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1157,28 +1157,18 @@ namespace mltk{
     template<typename T>
     int mltk::Data<T>::process_class(std::string& item) {
         int c = 0;
-        auto class_name_it = std::find(this->class_names.begin(), this->class_names.end(), item);
-
         item.erase(std::remove_if(item.begin(), item.end(), ::isspace), item.end());
         if(item.empty()) return std::numeric_limits<int>::infinity();
 
+        auto class_name_it = std::find(this->class_names.begin(), this->class_names.end(), item);
         if(class_name_it == class_names.end()){
             this->class_names.push_back(item);
-            auto has_mone = std::find(class_names.begin(), class_names.end(), "-1");
-            if(has_mone == class_names.end()){
-                if(utils::is_number(item)) {
-                    c = std::stoi(item);
-                }else{
-                    auto pos = std::find(class_names.begin(), class_names.end(), item);
-                    c = (int)(pos - this->class_names.begin())+1;
-                }
+            if(utils::is_number(item)) {
+                c = std::stoi(item);
             }else{
-                c = 1;
+                auto pos = std::find(class_names.begin(), class_names.end(), item);
+                c = (int)(pos - this->class_names.begin())+1;
             }
-            if(item == "-1"){
-                c = -1;
-            }
-
         }else{
             if(utils::is_number(item)) {
                 c = std::stoi(item);
-- 
2.43.0


From a681c6a3bbdc05649a6b9930770b3c1345e720a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 015/139] fix: sampling draws from the whole of each class and
 terminates without replacement

Only the first points of each class could ever be drawn, and without replacement the
positions already drawn for one class were withheld from the next, looping forever.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index cee281e..4ff1370 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2055,13 +2055,14 @@ namespace mltk{
             class_dist[i] = (double(temp_dist[i]) / size()) * samp_size;
         }
         for(int i = 0; i < class_dist.size(); i++){
-            dist.emplace_back(0, class_dist[i]-1);
+            dist.emplace_back(0, classes_split[i].size()-1);
         }
         for(size_t i = 0; i < class_dist.size(); i++){
             class_dist[i] = (class_dist[i] < 1) ? 1 : std::floor(class_dist[i]);
         }
 
         for(size_t i = 0; i < class_dist.size(); i++){
+            ids.clear();
             for(size_t j = 0; j < class_dist[i]; j++){
                 std::size_t idx = dist[i](gen);
                 if(!with_replacement) {
-- 
2.43.0


From e9e07dec6862531ab17d654d9c6bb88eac46e8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 016/139] fix: atod reads exponents

Values the library itself writes (1e-05, 1.5e+20) were read back without them.
---
 subprojects/ufjfmltk-core/src/Utils.cpp | 17 +----------------
 1 file changed, 1 insertion(+), 16 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 3a1fa13..7539e3c 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -39,22 +39,7 @@ namespace mltk::utils{
 
         double atod(const char* s)
         {
-            double val, power;
-            int i, sign;
-            for (i = 0; isspace(s[i]); i++) /* skip white space */
-                ;
-            sign = (s[i] == '-') ? -1 : 1;
-            if (s[i] == '+' || s[i] == '-')
-                i++;
-            for (val = 0.0; isdigit(s[i]); i++)
-                val = 10.0 * val + (s[i] - '0');
-            if (s[i] == '.')
-                i++;
-            for (power = 1.0; isdigit(s[i]); i++) {
-                val = 10.0 * val + (s[i] - '0');
-                power *= 10;
-            }
-            return sign * val / power;
+            return std::strtod(s, nullptr);
         }
 
         std::string itos(int n){
-- 
2.43.0


From b13295ffd1a90fe0b049a80c358bff42f9ad90ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 017/139] fix: sampling skips classes that have no points left

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 1 +
 subprojects/ufjfmltk-core/src/Utils.cpp                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 4ff1370..30a24d8 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2063,6 +2063,7 @@ namespace mltk{
 
         for(size_t i = 0; i < class_dist.size(); i++){
             ids.clear();
+            if(classes_split[i].size() == 0) continue;
             for(size_t j = 0; j < class_dist[i]; j++){
                 std::size_t idx = dist[i](gen);
                 if(!with_replacement) {
diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 7539e3c..713340a 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -4,6 +4,7 @@
    \author Mateus Coutinho Marim
 */
 #include <cmath>
+#include <cstdlib>
 #include <sstream>
 #include <algorithm>
 #include <iostream>
-- 
2.43.0


From f3bf3bf9dddb7fe8afc8a5511abea10afd06311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 018/139] fix: 2-fold cross-validation no longer tests on its
 own training fold

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 26d0d30..822e4e5 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -474,7 +474,7 @@ namespace mltk::validation {
             train.join(data_folds[i]);
 
             int gone = 0;
-            int next_j=(i+2) % folds;
+            int next_j=(i+1) % folds;
 
             for(int j = (i+1) % folds; gone < folds-2; gone++, j = (j+1) % folds){
                 train.join(data_folds[j]);
-- 
2.43.0


From 5442264ecbef13a5a0d8827a6bb9068ea3c69200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 019/139] fix: unstratified splits share out the points left
 over by the division

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 30a24d8..f3d8ca4 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1899,8 +1899,9 @@ namespace mltk{
         } 
 
         size_t counter = 0;
+        size_t leftover = size() % split_size;
         for(size_t i = 0; i < partitions.size(); i++) {
-            for(size_t j = 0; j < new_size; j++) {
+            for(size_t j = 0; j < new_size + (i < leftover); j++) {
                 partitions[i].insertPoint(data[counter], keepIndex);
                 counter++;
                 if(counter == this->size()){
-- 
2.43.0


From 8e7b4665fc0b9ebace347bb0cabfbdf57c922907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 020/139] fix: splitting a regression dataset yields regression
 datasets

The parts were typed as classification, and every real-valued target was
registered as another class.
---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp       | 1 +
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp       | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index f3d8ca4..a606ff0 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1871,6 +1871,7 @@ namespace mltk{
         size_t new_size = std::floor(double(size()) / split_size);
         size_t _seed = (seed == 0) ? std::random_device{}() : seed;
 
+        for(auto& partition: partitions) partition.setType(this->type);
         data.shuffle(_seed);
 
         if(this->isClassification() && stratified) {
diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 822e4e5..08328de 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -417,6 +417,8 @@ namespace mltk::validation {
         std::vector<Data<T> > folds = samples.splitSample(fold, stratified, keepIndex, seed);
         TrainTestPair<T> result;
 
+        result.train.setType(data.getType());
+        result.test.setType(data.getType());
         for(auto it = folds.begin(); it != folds.end()-1; it++){
             auto _data = *it;
             for(auto p = _data.begin(); p != _data.end(); p++){
@@ -471,6 +473,7 @@ namespace mltk::validation {
 
         for(int i = 0; i < folds; i++){
             Data<T> train;
+            train.setType(data.getType());
             train.join(data_folds[i]);
 
             int gone = 0;
-- 
2.43.0


From 65f2f0d34e053e964d021b590042c6445ef88bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 021/139] fix: itos handles the smallest int

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 713340a..d2045e1 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -49,7 +49,7 @@ namespace mltk::utils{
 
             bool isNeg = n<0;
 
-            unsigned int n1 = isNeg ? -n : n;
+            unsigned int n1 = isNeg ? 0u - (unsigned int)n : n;
 
             while(n1!=0){
                 buffer[i++] = n1%10+'0';
-- 
2.43.0


From e61dc9bce47c0eec4b14011a54c909ce7da081c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 022/139] fix: dtoa writes exact powers of ten below 1e-8 with
 a one-digit mantissa

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index d2045e1..5e2551c 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -103,6 +103,10 @@ namespace mltk::utils{
                     if (m < 0)
                         m -= 1.0;
                     n = n / pow(10.0, m);
+                    if (n >= 10.0) {
+                        n /= 10.0;
+                        m += 1;
+                    }
                     m1 = m;
                     m = 0;
                 }
-- 
2.43.0


From 78f7c41593c1b283aededbd48cfcf91a6ab433a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 023/139] fix: stoin no longer overflows or mangles leading
 zeros and non-digits

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 5e2551c..5149405 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -5,6 +5,7 @@
 */
 #include <cmath>
 #include <cstdlib>
+#include <limits>
 #include <sstream>
 #include <algorithm>
 #include <iostream>
@@ -19,23 +20,11 @@ namespace mltk::utils{
         }
 
         int stoin(std::string str){
-            int i = 1, m = 1, num = 0, sign = 0, size = str.size();
+            long num = std::strtol(str.c_str(), nullptr, 10);
+            num = std::max<long>(num, std::numeric_limits<int>::min());
+            num = std::min<long>(num, std::numeric_limits<int>::max());
 
-            if(str[0] == '0'){
-                return 0;
-            }else if(str[0] == '-'){
-                sign = 1;
-            }
-
-            for(i = i + sign; i < size; ++i)
-                m *= 10;
-
-            for(i = sign; i < size; ++i){
-                num += int(str[i] - '0')*m;
-                m /= 10;
-            }
-
-            return (sign) ? num * -1 : num;
+            return (int)num;
         }
 
         double atod(const char* s)
-- 
2.43.0


From 66c24e36206a42f6ba947f470863c9b80493edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 024/139] fix: is_number accepts exactly the decimal numbers,
 including upper case exponents

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 5149405..69272c6 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -15,8 +15,13 @@ using namespace std;
 
 namespace mltk::utils{
         bool is_number(std::string s){
-            return !s.empty() && std::find_if(s.begin(),
-                                              s.end(), [](unsigned char c) { return !(std::isdigit(c) || c == '.' || c == '-' || c == '+' || c == 'e'); }) == s.end();
+            if(s.empty() || std::find_if(s.begin(),
+                                              s.end(), [](unsigned char c) { return !(std::isdigit(c) || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E'); }) != s.end())
+                return false;
+            //the characters have to make up a number: "e", "-" or "1-2" are not
+            char *end = nullptr;
+            std::strtod(s.c_str(), &end);
+            return end == s.c_str() + s.size();
         }
 
         int stoin(std::string str){
-- 
2.43.0


From 166d642ed6cb295bd5ac9f80384dc6bd824baecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 025/139] fix: class labels that are not integers in range no
 longer throw or misalign the class names

---
 .../include/ufjfmltk/core/Data.hpp            | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index a606ff0..8b6bf1b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1160,25 +1160,21 @@ namespace mltk{
         item.erase(std::remove_if(item.begin(), item.end(), ::isspace), item.end());
         if(item.empty()) return std::numeric_limits<int>::infinity();
 
+        double value = utils::is_number(item) ? utils::atod(item.c_str()) : std::numeric_limits<double>::infinity();
         auto class_name_it = std::find(this->class_names.begin(), this->class_names.end(), item);
-        if(class_name_it == class_names.end()){
-            this->class_names.push_back(item);
-            if(utils::is_number(item)) {
-                c = std::stoi(item);
-            }else{
-                auto pos = std::find(class_names.begin(), class_names.end(), item);
-                c = (int)(pos - this->class_names.begin())+1;
-            }
+        if(class_name_it != class_names.end()){
+            c = this->m_classes[class_name_it - this->class_names.begin()];
+        }else if(std::abs(value) <= std::numeric_limits<int>::max()){
+            c = (int)value;
         }else{
-            if(utils::is_number(item)) {
-                c = std::stoi(item);
-            }else{
-                c = (int)(class_name_it - this->class_names.begin())+1;
-            }
+            //a name: give it the next label that is not taken
+            c = (int)this->class_names.size()+1;
+            while(std::find(this->m_classes.begin(), this->m_classes.end(), c) != this->m_classes.end()) c++;
         }
         auto class_it = std::find(this->m_classes.begin(), this->m_classes.end(), c);
         if(class_it == this->m_classes.end()){
             this->m_classes.push_back(c);
+            this->class_names.push_back(item);
             this->class_distribution.push_back(0);
         }
         auto it_pos = std::find_if(this->m_classes.begin(), this->m_classes.end(), [&c](const int &_class){
-- 
2.43.0


From 33f768902da135683e6ebb237dd0985f3a9be6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 026/139] fix: identifying the type of a file without an
 extension does not read out of bounds

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 8b6bf1b..6c1ea99 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -592,6 +592,7 @@ namespace mltk{
     Type mltk::Data< T >::identifyFileType(std::string file){
         size_t l , k, i, j, tsize = types.size();
 
+        if(file.empty() || file.find('.') == std::string::npos) return Type::TYPE_INVALID;
         for(k = file.size() - 1; (k >= 0 && file[k] != '.') ; k--){
             for(i = 0; i < tsize; ++i){
                 if(file[k] == types[i][types[i].size()-1]){
@@ -2146,6 +2147,7 @@ namespace mltk{
     template<typename T>
     std::string Data<T>::discover_dataset_name(const std::string &path) {
         auto tokens = mltk::utils::tokenize(path, '/');
+        if(tokens.empty()) return std::string();
         tokens = mltk::utils::tokenize(tokens.back(), '.');
         return (tokens.empty())?std::string():tokens[0];
     }
-- 
2.43.0


From 097a1ca719b4156b8e4e950400af5ff4250ebe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 027/139] fix: a sample with an empty class label is registered
 like any other

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 6c1ea99..d8b7d45 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1159,7 +1159,7 @@ namespace mltk{
     int mltk::Data<T>::process_class(std::string& item) {
         int c = 0;
         item.erase(std::remove_if(item.begin(), item.end(), ::isspace), item.end());
-        if(item.empty()) return std::numeric_limits<int>::infinity();
+
 
         double value = utils::is_number(item) ? utils::atod(item.c_str()) : std::numeric_limits<double>::infinity();
         auto class_name_it = std::find(this->class_names.begin(), this->class_names.end(), item);
-- 
2.43.0


From 7ca480047ebad66e7313fbd1eae7d8dd54485376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 028/139] fix: load_data skips repeated separators, needs one
 class per sample and stays inside the point

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index d8b7d45..9dedf8e 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -825,6 +825,7 @@ namespace mltk{
         while(std::getline(input, str)){
             str = mltk::utils::trim_copy(str);
             _dim = -1;
+            int n_labels = 0;
 
             ss.str(str);
             ss.clear();
@@ -833,6 +834,7 @@ namespace mltk{
                 if(item == "") continue;
                 item = mltk::utils::trim_copy(item);
                 const char * pch = std::strchr(item.c_str(), ':');
+                if(!pch) n_labels++;
                 _dim++;
                 /*if(_size > 0 && _dim < ldim && pch == nullptr){
                     std::cerr << "Error (line: " << _size << ", _dim: " << _dim << "): file isn't in the .data format." << std::endl;
@@ -854,6 +856,10 @@ namespace mltk{
                     }
                 }
             }
+            if(n_labels != 1){
+                std::cerr << "Error (line: " << _size << "): a sample must have exactly one class." << std::endl;
+                return false;
+            }
             if(ldim != _dim && ldim != 0){
                 std::cerr << "Error (line: " << _size << "): all the samples must have the same dimension! (_dim: " << _dim << ", last_dim: " << ldim << ")" << std::endl;
                 return false;
@@ -897,6 +903,7 @@ namespace mltk{
             //Read features from line
             _dim = 0;
             while(std::getline(ss, item, ' ')){
+                if(item == "") continue;
                 item = mltk::utils::trim_copy(item);
                 const char * pch = std::strchr(item.c_str(), ':');
                 if(!pch){
@@ -912,7 +919,7 @@ namespace mltk{
                     ss1.str(item);
                     ss1.clear();
                     //Get feature name and value
-                    while(std::getline(ss1, item, ':')){
+                    while(_dim < (int)this->m_dim && std::getline(ss1, item, ':')){
                         item.erase( std::remove(item.begin(), item.end(), '\r'), item.end() );
                         if(!is_feature){
                             fnames[_dim] = utils::stoin(item);
-- 
2.43.0


From 2c4411a09377f86a0d25cfb94b2833dcbbe87e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 029/139] fix: a non-numeric value in a .data file does not
 shift the features after it

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 9dedf8e..3863cd4 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -926,8 +926,9 @@ namespace mltk{
                             is_feature = true;
                         }else{
                             if(utils::is_number(item)){
-                                new_point->X()[_dim++] = utils::atod(item.c_str());
+                                new_point->X()[_dim] = utils::atod(item.c_str());
                             }
+                            _dim++;
                             is_feature = false;
                         }
                     }
-- 
2.43.0


From 5580a6c9823fc0ccfff82e020e11bb947d547b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 030/139] fix: files without samples are rejected

---
 .../include/ufjfmltk/core/Data.hpp            | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 3863cd4..a0eca70 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -742,6 +742,11 @@ namespace mltk{
             ss.clear();
         }
 
+        if(_size == 0 || _dim < 0){
+            std::cerr << "There are no samples in the file!" << std::endl;
+            return false;
+        }
+
         input.clear();
         input.seekg(0, std::ios::beg);
 
@@ -869,6 +874,11 @@ namespace mltk{
             _size++;
         }
 
+        if(_size == 0 || _dim < 0){
+            std::cerr << "There are no samples in the file!" << std::endl;
+            return false;
+        }
+
         input.clear();
         input.seekg(0, std::ios::beg);
 
@@ -1004,6 +1014,11 @@ namespace mltk{
             _size++;
             ss.clear();
         }
+        if(_size == 0 || _dim < 1){
+            std::cerr << "There are no samples in the file!" << std::endl;
+            return false;
+        }
+
         input.clear();
         input.seekg(0, std::ios::beg);
 
@@ -1107,6 +1122,11 @@ namespace mltk{
             ss.clear();
         }
 
+        if(_size == 0 || n1 == 0){
+            std::cerr << "There are no samples in the file!" << std::endl;
+            return false;
+        }
+
         //forget the classes of a previously loaded dataset
         m_classes.clear();
         class_names.clear();
-- 
2.43.0


From d3db7f01e4ceb53f64fc8d91fb57f6d6c9e69eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 031/139] fix: arff and csv samples are read inside the point
 for either position of the class

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index a0eca70..07e0a31 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -786,9 +786,11 @@ namespace mltk{
                 else
                     cond = _dim != -1;
 
+                int pos = (!atEnd) ? _dim : _dim + 1;
+                item = mltk::utils::trim_copy(item);
                 if(cond){
-                    if(utils::is_number(item))
-                        new_point->X()[(!atEnd) ? _dim : _dim + 1] = utils::atod(item.c_str());
+                    if(utils::is_number(item) && pos < (int)this->m_dim)
+                        new_point->X()[pos] = utils::atod(item.c_str());
                 }else{
                     double c;
 
@@ -987,7 +989,6 @@ namespace mltk{
 
                 if(!utils::is_number(item) && (found_class != this->class_names.end())){
                     std::clog << "Warning: point[" << _size << "] " << _dim + 1 << " feature is not a number. (" << item << ")" << std::endl;
-                    _dim--;
                 }
                 if(this->isClassification()) {
                     if (_dim == 0 && !flag) {
@@ -1058,11 +1059,13 @@ namespace mltk{
                 if(atEnd)
                     cond = (!ss.eof() && atEnd);
                 else
-                    cond = _dim != 0;
+                    cond = _dim != -1;
 
+                int pos = (!atEnd) ? _dim : _dim + 1;
+                item = mltk::utils::trim_copy(item);
                 if(cond){
-                    if(utils::is_number(item)){
-                        new_point->X()[_dim + 1] = utils::atod(item.c_str());
+                    if(utils::is_number(item) && pos < (int)this->m_dim){
+                        new_point->X()[pos] = utils::atod(item.c_str());
                     }
                 }else{
                     if(this->isClassification()){
-- 
2.43.0


From e8c1ba7a6f28f7a9b88fc7a4104b8485d844feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 032/139] fix: load_arff reads the target of regression samples

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 07e0a31..04f0571 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -966,7 +966,8 @@ namespace mltk{
         std::ifstream input(path.c_str());
         std::istringstream ss;
         std::string str, item;
-        int _dim, ldim, _size, c;
+        int _dim, ldim, _size;
+        double c;
         bool atBegin, flag, cond;
 
         if(!input){
@@ -1070,6 +1071,8 @@ namespace mltk{
                 }else{
                     if(this->isClassification()){
                         c = process_class(item);
+                    }else{
+                        c = utils::atod(item.c_str());
                     }
                     new_point->Y() = c;
                 }
-- 
2.43.0


From 5789e609353bcacf859385277470dad0161de5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 033/139] fix: csv and arff samples without a class are
 rejected

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 04f0571..45829b3 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -736,6 +736,10 @@ namespace mltk{
                 std::cerr << "All the samples must have the same dimension!" << std::endl;
                 return false;
             }
+            if(str.empty() || (atEnd && str.back() == deli)){
+                std::cerr << "All the samples must have a class!" << std::endl;
+                return false;
+            }
 
             ldim = _dim;
             _size++;
@@ -1011,6 +1015,10 @@ namespace mltk{
                 std::cerr << "All the samples must have the same dimension!" << std::endl;
                 return false;
             }
+            if(str.empty() || (atEnd && str.back() == ',')){
+                std::cerr << "All the samples must have a class!" << std::endl;
+                return false;
+            }
 
             ldim = _dim;
             _size++;
-- 
2.43.0


From 6493468e3109f44873f96be142083a13853ba843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 034/139] fix: load_data keeps samples it read as regression
 typed as regression

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 45829b3..82854a1 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -954,10 +954,12 @@ namespace mltk{
             m_points[_size - 1]->Id() = _size;
         }
 
-        if(m_classes.size() == 2){
-            type = "BinClassification";
-        }else{
-            type = "MultiClassification";
+        if(this->isClassification()){
+            if(m_classes.size() == 2){
+                type = "BinClassification";
+            }else{
+                type = "MultiClassification";
+            }
         }
 
         input.close();
-- 
2.43.0


From f7f919f89ea797e6f72c5be161b960f9a89b5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 035/139] fix: max of a point with only negative components

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 2d2cba6..2fbe61b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -542,7 +542,7 @@ namespace mltk {
      */
     template < typename T, typename R >
     T max(const Point<T, R> &p){
-        T _max = std::numeric_limits<T>::min();
+        T _max = std::numeric_limits<T>::lowest();
         for(size_t i = 0; i < p.size(); i++){
             if(p[i] > _max) _max = p[i];
         }
-- 
2.43.0


From 72c27b29fd81aa56915ee7808bd2b7a02b180d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 036/139] fix: printing a point without features does not read
 past it

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 2fbe61b..bb64f44 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -700,10 +700,11 @@ namespace mltk {
             output << p.x[i] << ", ";
         }
 
+        if(dim > 0)
+            output << p.x[i];
         if(p.y > -std::numeric_limits<double>::max())
-            output <<  p.x[i] << ", " << p.y << "]";
-        else
-            output <<  p.x[i] << "]";
+            output << ((dim > 0) ? ", " : "") << p.y;
+        output << "]";
 
         return output;
     }
-- 
2.43.0


From b1080f516e6468b5a8b925b40116bc0a631c80fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 037/139] fix: metrics whose one-half or 1/n factor was an
 integer division

---
 .../include/ufjfmltk/core/DistanceMetric.hpp           | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 626c4a4..69d019b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -107,7 +107,7 @@ namespace mltk::metrics::dist{
         class  NonIntersection : public DistanceMetric<T> {
         public:
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1 / 2) * mltk::abs(p1 - p2).sum();
+                return 0.5 * mltk::abs(p1 - p2).sum();
             }
         };
 
@@ -318,7 +318,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Average";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return std::sqrt((1/p1.size())*(mltk::pow(p1 - p2, 2)).sum());
+                return std::sqrt((mltk::pow(p1 - p2, 2)).sum()/p1.size());
             }
         };
 
@@ -400,7 +400,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "JensenShannon";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1/2) * (p1 * mltk::log((2 * p1)/(p1 + p2))).sum() + (p2 * mltk::log((2 * p2)/(p1 + p2))).sum();
+                return 0.5 * ((p1 * mltk::log((2 * p1)/(p1 + p2))).sum() + (p2 * mltk::log((2 * p2)/(p1 + p2))).sum());
             }
         };
 
@@ -412,7 +412,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "JensenDifference";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1/2) * ((p1 * mltk::log(p1) + p2 * mltk::log(p2))/2 - ((p1 + p2)/2) * mltk::log((p1 + p2)/2)).sum();
+                return 0.5 * ((p1 * mltk::log(p1) + p2 * mltk::log(p2))/2 - ((p1 + p2)/2) * mltk::log((p1 + p2)/2)).sum();
             }
         };
 
@@ -464,7 +464,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "KumarJohnson";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (mltk::pow(mltk::pow(p1, 2) + mltk::pow(p2, 2), 2)/(2 * mltk::pow(p1 * p2, 3/2))).sum();
+                return (mltk::pow(mltk::pow(p1, 2) + mltk::pow(p2, 2), 2)/(2 * mltk::pow(p1 * p2, 1.5))).sum();
             }
         };
 
-- 
2.43.0


From 685f4f7c11e365c3baa1fabbd099b672f2e7659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 038/139] fix: Lorentzian, Bhattacharyya, Clark, MinSymmetric
 and Hassanat follow their definitions

---
 .../include/ufjfmltk/core/DistanceMetric.hpp           | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 69d019b..fb9117f 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -75,7 +75,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Lorentzian";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return mltk::log(1 - mltk::abs(p1 - p2)).sum();
+                return mltk::log(1 + mltk::abs(p1 - p2)).sum();
             }
         };
 
@@ -172,7 +172,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Bhattacharyya";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return -std::sqrt(mltk::pow(p1 * p2, 0.5).sum());
+                return -std::log(mltk::pow(p1 * p2, 0.5).sum());
             }
         };
 
@@ -234,7 +234,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Clark";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return mltk::pow((p1 - p2)/(mltk::abs(p1) + mltk::abs(p2)), 2).sum();
+                return std::sqrt(mltk::pow((p1 - p2)/(mltk::abs(p1) + mltk::abs(p2)), 2).sum());
             }
         };
 
@@ -438,7 +438,7 @@ namespace mltk::metrics::dist{
         class  MinSymmetric: public DistanceMetric<T> {
         public:
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return std::max((mltk::pow(p1 - p2, 2)/p1).sum(), (mltk::pow(p1 - p2, 2)/p2).sum());
+                return std::min((mltk::pow(p1 - p2, 2)/p1).sum(), (mltk::pow(p1 - p2, 2)/p2).sum());
             }
         };
 
@@ -495,7 +495,7 @@ namespace mltk::metrics::dist{
                         sum += 1 - (1+_min)/(1+std::max(p1[i], p2[i]));
                     }else{
                         auto _max = std::max(p1[i], p2[i]);
-                        sum += 1 - (1+_min + std::abs(_min))/(1+_max + std::abs(_max));
+                        sum += 1 - (1+_min + std::abs(_min))/(1+_max + std::abs(_min));
                     }
                 }
                 return sum;
-- 
2.43.0


From acfe608a010bb1e181e101f8b0a03809a0130c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 039/139] fix: distance matrix rows are sized and filled by
 point id

---
 .../include/ufjfmltk/core/DistanceMatrix.hpp    | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
index 340f042..ec3c18f 100644
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
@@ -40,17 +40,16 @@ namespace mltk::metrics::dist {
             
             auto loop = [data, this](const int a, const int b) {
                 for(size_t idx = a; idx < b; idx++) {
-                    this->rows[idx] = mltk::Point<double>((isDiagonal) ? idx+1 : data.size());
+                    const size_t id = data(idx).Id();
+                    mltk::Point<double> row((isDiagonal) ? id : data.size());
 
-                    for(size_t j = 0; j < idx; j++){
-                        this->rows[data(idx).Id()-1][data(j).Id()-1] = this->dist_function(data(idx), data(j));
-                    }
-                    
-                    if(isDiagonal) continue;
+                    for(size_t j = 0; j < data.size(); j++){
+                        const size_t other = data(j).Id();
 
-                    for(size_t j = idx+1; j < data.size(); j++){
-                        this->rows[data(idx).Id()-1][data(j).Id()-1] = this->dist_function(data(idx), data(j));
-                    }    
+                        if(j == idx || (isDiagonal && other > id)) continue;
+                        row[other-1] = this->dist_function(data(idx), data(j));
+                    }
+                    this->rows[id-1] = std::move(row);
                 }
             };
 
-- 
2.43.0


From f3035ec5562822c3c455309a6f129afd57359c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 040/139] fix: kNN with a diagonal distance matrix orders
 neighbours consistently

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp               | 2 --
 1 file changed, 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index ba533b3..7f53085 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -98,8 +98,6 @@ namespace mltk{
                             size_t id2 = points[i2]->Id()-1;
                             size_t idp = p.Id()-1;
                             
-                            if(idp == id1 || idp == id2) return false;
-
                             size_t idp1 = (idp > id1) ? idp : id1;
                             size_t id1p = (idp > id1) ? id1 : idp;
                             
-- 
2.43.0


From 2fc7e9289d5624a61d2898f59650fbb0643f169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 041/139] fix: precomputing distances does not claim a matrix
 the classifier was not given

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp               | 2 --
 1 file changed, 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index 7f53085..6c1e092 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -52,8 +52,6 @@ namespace mltk{
                     }
 
                     metrics::dist::DistanceMatrix<Callable> precomputeDistances(mltk::Data<T> &data, bool diagonal = false, const size_t threads = std::thread::hardware_concurrency()){
-                        this->precomputed = true;
-
                         return metrics::dist::DistanceMatrix<Callable>(data, diagonal, threads);
                     }
             };
-- 
2.43.0


From ed897656523d434606eaacc011cd9051b9d949d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:34 +0000
Subject: [PATCH 042/139] fix: assigning a shorter point shrinks the target

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index bb64f44..227fdc7 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -298,7 +298,7 @@ namespace mltk {
 
             // assignment operator from same type
             Point& operator=(Point const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
@@ -321,7 +321,7 @@ namespace mltk {
             }
 
             Point& operator=(std::vector<T> const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
@@ -334,7 +334,7 @@ namespace mltk {
 
             template< typename T2 >
             Point& operator=(std::vector<T2> const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
-- 
2.43.0


From dd3bb49bd7df05131fae80747bc642cb80f14800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 043/139] fix: seeding the generator with the seed in use
 restarts its sequence

---
 subprojects/ufjfmltk-core/src/Datasets.cpp | 18 +++++++++++++-----
 subprojects/ufjfmltk-core/src/Random.cpp   |  9 +++------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Datasets.cpp b/subprojects/ufjfmltk-core/src/Datasets.cpp
index c26fe0f..02db455 100755
--- a/subprojects/ufjfmltk-core/src/Datasets.cpp
+++ b/subprojects/ufjfmltk-core/src/Datasets.cpp
@@ -13,12 +13,18 @@ namespace mltk::datasets {
 
         dataset.setName("spirals");
 
-        mltk::Point<> theta = mltk::random_init<double>(samples_byclass, seed) * n_loops * 360.0 * M_PI / 180.0;
+        auto uniform = [](size_t size) {
+            mltk::Point<> p(size);
+            for (size_t k = 0; k < size; k++) p[k] = mltk::random::floatInRange(0.0, 1.0);
+            return p;
+        };
+
+        mltk::Point<> theta = uniform(samples_byclass) * n_loops * 360.0 * M_PI / 180.0;
         mltk::Point<> r = theta * margin * n_classes;
         for (int i = 0; i < n_classes; i++) {
             mltk::Point<> rotated_theta = theta + i * 2.0 * M_PI / n_classes;
-            mltk::Point<> x1 = r * mltk::cos(rotated_theta) + mltk::random_init<double>(samples_byclass, seed) * noise;
-            mltk::Point<> x2 = r * mltk::sin(rotated_theta) + mltk::random_init<double>(samples_byclass, seed) * noise;
+            mltk::Point<> x1 = r * mltk::cos(rotated_theta) + uniform(samples_byclass) * noise;
+            mltk::Point<> x2 = r * mltk::sin(rotated_theta) + uniform(samples_byclass) * noise;
 
             for (size_t j = 0; j < samples_byclass; j++) {
                 auto point = mltk::Point<double>({x1[j], x2[j]});
@@ -114,8 +120,10 @@ namespace mltk::datasets {
         RegPair pair;
         mltk::Point<double> ground_truth(n_dims, 0.0), y(n_samples);
         n_informative = std::min(n_dims, n_informative);
-        auto random_init = [&n_dims, seed](const mltk::PointPointer<double> &point) {
-            *point = mltk::random_init<double, std::normal_distribution<double>>(0, 1, n_dims, seed);
+        auto random_init = [&n_dims](const mltk::PointPointer<double> &point) {
+            for (size_t k = 0; k < n_dims; k++) {
+                (*point)[k] = mltk::random::floatInRange<double, std::normal_distribution<double>>(0, 1);
+            }
         };
 
         dataset.apply(random_init);
diff --git a/subprojects/ufjfmltk-core/src/Random.cpp b/subprojects/ufjfmltk-core/src/Random.cpp
index 0498a7a..60d032a 100755
--- a/subprojects/ufjfmltk-core/src/Random.cpp
+++ b/subprojects/ufjfmltk-core/src/Random.cpp
@@ -10,12 +10,9 @@ namespace mltk::random {
     std::mt19937 m_generator{std::random_device{}()};
 
     size_t  init(unsigned int seed) {
-        if(seed != seed_param){
-            m_generator.discard(std::mt19937::state_size);
-            seed_param = seed;
-            m_seed = (seed == 0)?std::random_device {} (): seed;
-            m_generator.seed(m_seed);
-        }
+        seed_param = seed;
+        m_seed = (seed == 0)?std::random_device {} (): seed;
+        m_generator.seed(m_seed);
         return m_seed;
     }
 
-- 
2.43.0


From 210425f023c15977a60cafd6af0fe754858063bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 044/139] fix: make_blobs draws the requested number of samples
 for each blob

---
 subprojects/ufjfmltk-core/src/Datasets.cpp | 32 ++++++++++------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Datasets.cpp b/subprojects/ufjfmltk-core/src/Datasets.cpp
index 02db455..be188f2 100755
--- a/subprojects/ufjfmltk-core/src/Datasets.cpp
+++ b/subprojects/ufjfmltk-core/src/Datasets.cpp
@@ -53,7 +53,7 @@ namespace mltk::datasets {
                          double center_max, bool shuffle, const bool has_classes, const size_t seed) {
         mltk::random::init(seed);
         std::vector<mltk::Point<>> centers(n_centers, mltk::Point<>(n_dims, 0.0));
-        std::vector<size_t> samples_per_center(n_centers, std::floor(n_samples / n_centers));
+        std::vector<size_t> samples_per_center(n_centers, n_samples);
         std::vector<double> clusters_std(n_centers, cluster_std);
 
         std::for_each(centers.begin(), centers.end(), [&center_min, &center_max](auto &center) {
@@ -75,24 +75,22 @@ namespace mltk::datasets {
         if(has_classes) dataset.setType("Classification");
         else dataset.setType("Clustering");
 
-        for (const auto &n: n_samples) {
-            for (int c = 0; c < centers.size(); c++) {
-                auto center = centers[c];
-                for (int i = 0; i < n; i++) {
-                    mltk::Point<double> p(n_dims, 0.0);
-                    for (int j = 0; j < n_dims; j++) {
-                        p[j] = mltk::random::floatInRange<double, std::normal_distribution<double>>(center[j],
-                                                                                                    clusters_std[c]);
-                    }
-                    if(has_classes) {
-                        if (centers.size() == 2) {
-                            p.Y() = (c == 0) ? -1 : 1;
-                        } else {
-                            p.Y() = c + 1;
-                        }
+        for (int c = 0; c < centers.size(); c++) {
+            auto center = centers[c];
+            for (size_t i = 0; i < n_samples[c]; i++) {
+                mltk::Point<double> p(n_dims, 0.0);
+                for (int j = 0; j < n_dims; j++) {
+                    p[j] = mltk::random::floatInRange<double, std::normal_distribution<double>>(center[j],
+                                                                                                clusters_std[c]);
+                }
+                if(has_classes) {
+                    if (centers.size() == 2) {
+                        p.Y() = (c == 0) ? -1 : 1;
+                    } else {
+                        p.Y() = c + 1;
                     }
-                    dataset.insertPoint(p);
                 }
+                dataset.insertPoint(p);
             }
         }
         if (shuffle) dataset.shuffle(seed);
-- 
2.43.0


From 08811c31566916fea4fd774caa2236adda54a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 045/139] fix: the H matrix without a dimension is symmetric

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 87e8e01..88d7565 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -206,8 +206,9 @@ namespace mltk{
         /* Calculating Matrix */
         for(i = 0; i < size; ++i) {
             for (j = i; j < size; ++j) {
-                HwithoutDim[i][j] = functionWithoutDim(samples->point(i), samples->point(j), dim, samples->dim());
-                HwithoutDim[j][i] = HwithoutDim[i][j]*samples->point(i)->Y() * samples->point(j)->Y();
+                HwithoutDim[i][j] = functionWithoutDim(samples->point(i), samples->point(j), dim, samples->dim()) *
+                        samples->point(i)->Y() * samples->point(j)->Y();
+                HwithoutDim[j][i] = HwithoutDim[i][j];
             }
         }
     // clog << "\nH matrix without dim generated.\n";
-- 
2.43.0


From 7778a9afe04537a51c99f3b963e0d978790e864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 046/139] fix: the polynomial kernel without a dimension is the
 polynomial kernel

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 88d7565..1bd79f9 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -273,7 +273,7 @@ namespace mltk{
                 for(i = 0; i < dim; ++i)
                     if(i != j)
                         sum += (*one)[i] * (*two)[i];
-                sum = (param > 1) ? std::pow(sum+1, param) : sum;
+                sum = (param > 1) ? std::pow(sum, param) : sum;
                 break;
 
             case mltk::GAUSSIAN: //Gaussiano
-- 
2.43.0


From 5919fad6aa7474b05128d318d7dee0aede7a24e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 047/139] fix: the H matrix follows the size of the samples it
 is computed for

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 1bd79f9..364c78f 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -179,7 +179,7 @@ namespace mltk{
         int i = 0, j = 0;
         size_t size = samples->size(), dim = samples->dim();
 
-        H.resize(size, std::vector<double>(size));
+        H.assign(size, std::vector<double>(size));
 
         /* Calculating Matrix */
         for(i = 0; i < size; ++i) {
-- 
2.43.0


From e4e8339571c492fe0d140d8fffec0f43c87c76e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 048/139] fix: the kernel norm sums each row on its own

---
 .../ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp        | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 364c78f..bb5b1d8 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -297,16 +297,14 @@ namespace mltk{
     template < typename T >
     double Kernel<T>::norm(Data< T > data){
         size_t i, j, size = data.size();
-        double sum, sum1;
+        double sum = 0.0, sum1;
         auto points = data.points();
 
-        sum = sum1 = 0;
-
         for(i = 0; i < size; ++i){
-            for(j = 0; j < size; j++){
+            for(sum1 = 0.0, j = 0; j < size; j++){
                 sum1 += points[j]->Alpha() * points[j]->Y() * K[i][j];
-                sum += points[i]->Y() * points[i]->Alpha() * sum1;
             }
+            sum += points[i]->Y() * points[i]->Alpha() * sum1;
         }
 
         return sqrt(sum);
-- 
2.43.0


From 63e0083b630979e3589c3ea9539f6e970d99d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 049/139] fix: calling a kernel on a dataset computes the
 matrix of that dataset

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index bb5b1d8..bc378b3 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -147,6 +147,7 @@ namespace mltk{
             if(this->type == mltk::CUSTOM){
                 assert(f && "A function must be provided for a custom kernel.");
             }
+            recompute();
             compute(make_data<T>(samples), f);
         }
 
-- 
2.43.0


From 10224d0882e84e4167cde7d408c5cfc532ed7616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 050/139] fix: kNN with more neighbours than samples uses all
 of them

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp     | 11 ++++++-----
 .../include/ufjfmltk/regressor/KNNRegressor.hpp       |  5 +++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index 6c1e092..565acb4 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -66,6 +66,7 @@ namespace mltk{
                 std::vector<size_t> idx(distances.size());
                 std::vector<PointPointer<T>> neigh;
                 auto p0 = std::make_shared<Point<T> >(p);
+                const size_t k = std::min(this->k, idx.size());
                
                 if(algorithm == "brute"){
                     // fill the index vector
@@ -79,19 +80,19 @@ namespace mltk{
 
 
                         // sort the index vector by the metrics from the sample to be evaluated
-                        std::nth_element(idx.begin(), idx.begin() + this->k, idx.end(), [&distances](size_t i1, size_t i2) {
+                        std::nth_element(idx.begin(), idx.begin() + k, idx.end(), [&distances](size_t i1, size_t i2) {
                             return distances[i1] < distances[i2];
                         });
                     }else if(!this->distances.isDiagonalMatrix()){
                         size_t idp = p.Id()-1;
-                        std::nth_element(idx.begin(), idx.begin() + this->k, idx.end(), [&idp, &distances, &points, this](size_t i1, size_t i2) {
+                        std::nth_element(idx.begin(), idx.begin() + k, idx.end(), [&idp, &distances, &points, this](size_t i1, size_t i2) {
                             size_t id1 = points[i1]->Id()-1;
                             size_t id2 = points[i2]->Id()-1;
 
                             return this->distances[idp][id1] < this->distances[idp][id2];
                         }); 
                     } else { 
-                        std::nth_element(idx.begin(), idx.begin() + this->k, idx.end(), [&p, this, &points](size_t i1, size_t i2) {
+                        std::nth_element(idx.begin(), idx.begin() + k, idx.end(), [&p, this, &points](size_t i1, size_t i2) {
                             size_t id1 = points[i1]->Id()-1;
                             size_t id2 = points[i2]->Id()-1;
                             size_t idp = p.Id()-1;
@@ -107,9 +108,9 @@ namespace mltk{
                     }
                 }
                // Define frequency counting logic in a lambda function.
-                auto calculateFrequency = [&idx, &points, &neigh, this](int c) {
+                auto calculateFrequency = [&idx, &points, &neigh, k, this](int c) {
                     if (algorithm == "brute") {
-                        return std::count_if(idx.begin(), idx.begin() + this->k, [&points, &c](size_t id) { 
+                        return std::count_if(idx.begin(), idx.begin() + k, [&points, &c](size_t id) { 
                             return points[id]->Y() == c; 
                         });
                     } else {
diff --git a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
index f74ab17..9de831d 100755
--- a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
+++ b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
@@ -51,12 +51,13 @@ namespace mltk{
                     });
 
                     double sum = 0.0;
+                    const size_t k = std::min(this->k, idx.size());
 
                     // sum the values in the k nearest neighbors and return the average
-                    for (size_t j = 0; j < this->k; j++) {
+                    for (size_t j = 0; j < k; j++) {
                         sum += points[idx[j]]->Y();
                     }
-                    return sum / this->k;
+                    return sum / k;
                 }
             };
         }
-- 
2.43.0


From 6338874ab80d5ce395e5ad091dc12cfb0b2f35d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:18 +0000
Subject: [PATCH 051/139] fix: dtoa writes only decimal digits when a division
 rounds up

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 69272c6..af6b2e8 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -111,7 +111,7 @@ namespace mltk::utils{
                 while (n > PRECISION || m >= 0) {
                     double weight = pow(10.0, m);
                     if (weight > 0 && !std::isinf(weight)) {
-                        digit = floor(n / weight);
+                        digit = std::min(9, std::max(0, (int)floor(n / weight)));
                         n -= (digit * weight);
                         *(c++) = '0' + digit;
                     }
-- 
2.43.0


From 11cd5de997870944174b03ea1fb92c7fa44ceeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:53 +0000
Subject: [PATCH 052/139] fix: a paused ThreadPool no longer starts a task
 after wait_for_tasks returned

---
 .../include/ufjfmltk/core/ThreadPool.hpp      | 1096 +++++++++--------
 1 file changed, 549 insertions(+), 547 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index 42e87ee..3573582 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -1,548 +1,550 @@
-#pragma once
-
-/**
- * @file thread_pool.hpp
- * @author Barak Shoshany (baraksh@gmail.com) (http://baraksh.com)
- * @version 2.0.0
- * @date 2021-08-14
- * @copyright Copyright (c) 2021 Barak Shoshany. Licensed under the MIT license. If you use this library in published research, please cite it as follows:
- *  - Barak Shoshany, "A C++17 Thread Pool for High-Performance Scientific Computing", doi:10.5281/zenodo.4742687, arXiv:2105.00613 (May 2021)
- *
- * @brief A C++17 thread pool for high-performance scientific computing.
- * @details A modern C++17-compatible thread pool implementation, built from scratch with high-performance scientific computing in mind. The thread pool is implemented as a single lightweight and self-contained class, and does not have any dependencies other than the C++17 standard library, thus allowing a great degree of portability. In particular, this implementation does not utilize OpenMP or any other high-level multithreading APIs, and thus gives the programmer precise low-level control over the details of the parallelization, which permits more robust optimizations. The thread pool was extensively tested on both AMD and Intel CPUs with up to 40 cores and 80 threads. Other features include automatic generation of futures and easy parallelization of loops. Two helper classes enable synchronizing printing to an output stream by different threads and measuring execution time for benchmarking purposes. Please visit the GitHub repository at https://github.com/bshoshany/thread-pool for documentation and updates, or to submit feature requests and bug reports.
- */
-
-#define THREAD_POOL_VERSION "v2.0.0 (2021-08-14)"
-
-#include <atomic>      // std::atomic
-#include <chrono>      // std::chrono
-#include <cstdint>     // std::int_fast64_t, std::uint_fast32_t
-#include <functional>  // std::function
-#include <future>      // std::future, std::promise
-#include <iostream>    // std::cout, std::ostream
-#include <memory>      // std::shared_ptr, std::unique_ptr
-#include <mutex>       // std::mutex, std::scoped_lock
-#include <queue>       // std::queue
-#include <thread>      // std::this_thread, std::thread
-#include <type_traits> // std::common_type_t, std::decay_t, std::enable_if_t, std::is_void_v, std::invoke_result_t
-#include <utility>     // std::move
-
-
-namespace mltk {
-// ============================================================================================= //
-//                                    Begin class thread_pool                                    //
-
-/**
- * @brief A C++17 thread pool class. The user submits tasks to be executed into a queue. Whenever a thread becomes available, it pops a task from the queue and executes it. Each task is automatically assigned a future, which can be used to wait for the task to finish executing and/or obtain its eventual return value.
- */
-class ThreadPool
-{
-    typedef std::uint_fast32_t ui32;
-    typedef std::uint_fast64_t ui64;
-
-public:
-    // ============================
-    // Constructors and destructors
-    // ============================
-
-    /**
-     * @brief Construct a new thread pool.
-     *
-     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
-     */
-    ThreadPool(const ui32 &_thread_count = std::thread::hardware_concurrency())
-        : thread_count(_thread_count ? _thread_count : std::thread::hardware_concurrency()), threads(new std::thread[_thread_count ? _thread_count : std::thread::hardware_concurrency()])
-    {
-        create_threads();
-    }
-
-    /**
-     * @brief Destruct the thread pool. Waits for all tasks to complete, then destroys all threads. Note that if the variable paused is set to true, then any tasks still in the queue will never be executed.
-     */
-    ~ThreadPool()
-    {
-        wait_for_tasks();
-        running = false;
-        destroy_threads();
-    }
-
-    // =======================
-    // Public member functions
-    // =======================
-
-    /**
-     * @brief Get the number of tasks currently waiting in the queue to be executed by the threads.
-     *
-     * @return The number of queued tasks.
-     */
-    ui64 get_tasks_queued() const
-    {
-        const std::scoped_lock lock(queue_mutex);
-        return tasks.size();
-    }
-
-    /**
-     * @brief Get the number of tasks currently being executed by the threads.
-     *
-     * @return The number of running tasks.
-     */
-    ui32 get_tasks_running() const
-    {
-        return tasks_total - (ui32)get_tasks_queued();
-    }
-
-    /**
-     * @brief Get the total number of unfinished tasks - either still in the queue, or running in a thread.
-     *
-     * @return The total number of tasks.
-     */
-    ui32 get_tasks_total() const
-    {
-        return tasks_total;
-    }
-
-    /**
-     * @brief Get the number of threads in the pool.
-     *
-     * @return The number of threads.
-     */
-    ui32 get_thread_count() const
-    {
-        return thread_count;
-    }
-
-    /**
-     * @brief Parallelize a loop by splitting it into blocks, submitting each block separately to the thread pool, and waiting for all blocks to finish executing. The user supplies a loop function, which will be called once per block and should iterate over the block's range.
-     *
-     * @tparam T1 The type of the first index in the loop. Should be a signed or unsigned integer.
-     * @tparam T2 The type of the index after the last index in the loop. Should be a signed or unsigned integer. If T1 is not the same as T2, a common type will be automatically inferred.
-     * @tparam F The type of the function to loop through.
-     * @param first_index The first index in the loop.
-     * @param index_after_last The index after the last index in the loop. The loop will iterate from first_index to (index_after_last - 1) inclusive. In other words, it will be equivalent to "for (T i = first_index; i < index_after_last; i++)". Note that if first_index == index_after_last, the function will terminate without doing anything.
-     * @param loop The function to loop through. Will be called once per block. Should take exactly two arguments: the first index in the block and the index after the last index in the block. loop(start, end) should typically involve a loop of the form "for (T i = start; i < end; i++)".
-     * @param num_blocks The maximum number of blocks to split the loop into. The default is to use the number of threads in the pool.
-     */
-    template <typename T1, typename T2, typename F>
-    void parallelize_loop(const T1 &first_index, const T2 &index_after_last, const F &loop, ui32 num_blocks = 0)
-    {
-        typedef std::common_type_t<T1, T2> T;
-        T the_first_index = (T)first_index;
-        T last_index = (T)index_after_last;
-        if (the_first_index == last_index)
-            return;
-        if (last_index < the_first_index)
-        {
-            T temp = last_index;
-            last_index = the_first_index;
-            the_first_index = temp;
-        }
-        last_index--;
-        if (num_blocks == 0)
-            num_blocks = thread_count;
-        ui64 total_size = (ui64)(last_index - the_first_index + 1);
-        ui64 block_size = (ui64)(total_size / num_blocks);
-        if (block_size == 0)
-        {
-            block_size = 1;
-            num_blocks = (ui32)total_size > 1 ? (ui32)total_size : 1;
-        }
-        std::atomic<ui32> blocks_running = 0;
-        for (ui32 t = 0; t < num_blocks; t++)
-        {
-            T start = ((T)(t * block_size) + the_first_index);
-            T end = (t == num_blocks - 1) ? last_index + 1 : ((T)((t + 1) * block_size) + the_first_index);
-            blocks_running++;
-            push_task([start, end, &loop, &blocks_running]
-                      {
-                          loop(start, end);
-                          blocks_running--;
-                      });
-        }
-        while (blocks_running != 0)
-        {
-            sleep_or_yield();
-        }
-    }
-
-    /**
-     * @brief Push a function with no arguments or return value into the task queue.
-     *
-     * @tparam F The type of the function.
-     * @param task The function to push.
-     */
-    template <typename F>
-    void push_task(const F &task)
-    {
-        tasks_total++;
-        {
-            const std::scoped_lock lock(queue_mutex);
-            tasks.push(std::function<void()>(task));
-        }
-    }
-
-    /**
-     * @brief Push a function with arguments, but no return value, into the task queue.
-     * @details The function is wrapped inside a lambda in order to hide the arguments, as the tasks in the queue must be of type std::function<void()>, so they cannot have any arguments or return value. If no arguments are provided, the other overload will be used, in order to avoid the (slight) overhead of using a lambda.
-     *
-     * @tparam F The type of the function.
-     * @tparam A The types of the arguments.
-     * @param task The function to push.
-     * @param args The arguments to pass to the function.
-     */
-    template <typename F, typename... A>
-    void push_task(const F &task, const A &...args)
-    {
-        push_task([task, args...]
-                  { task(args...); });
-    }
-
-    /**
-     * @brief Reset the number of threads in the pool. Waits for all currently running tasks to be completed, then destroys all threads in the pool and creates a new thread pool with the new number of threads. Any tasks that were waiting in the queue before the pool was reset will then be executed by the new threads. If the pool was paused before resetting it, the new pool will be paused as well.
-     *
-     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
-     */
-    void reset(const ui32 &_thread_count = std::thread::hardware_concurrency())
-    {
-        bool was_paused = paused;
-        paused = true;
-        wait_for_tasks();
-        running = false;
-        destroy_threads();
-        thread_count = _thread_count ? _thread_count : std::thread::hardware_concurrency();
-        threads.reset(new std::thread[thread_count]);
-        paused = was_paused;
-        running = true;
-        create_threads();
-    }
-
-    /**
-     * @brief Submit a function with zero or more arguments and no return value into the task queue, and get an std::future<bool> that will be set to true upon completion of the task.
-     *
-     * @tparam F The type of the function.
-     * @tparam A The types of the zero or more arguments to pass to the function.
-     * @param task The function to submit.
-     * @param args The zero or more arguments to pass to the function.
-     * @return A future to be used later to check if the function has finished its execution.
-     */
-    template <typename F, typename... A, typename = std::enable_if_t<std::is_void_v<std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>>>>
-    std::future<bool> submit(const F &task, const A &...args)
-    {
-        std::shared_ptr<std::promise<bool>> task_promise(new std::promise<bool>);
-        std::future<bool> future = task_promise->get_future();
-        push_task([task, args..., task_promise]
-                  {
-                      try
-                      {
-                          task(args...);
-                          task_promise->set_value(true);
-                      }
-                      catch (...)
-                      {
-                          try
-                          {
-                              task_promise->set_exception(std::current_exception());
-                          }
-                          catch (...)
-                          {
-                          }
-                      }
-                  });
-        return future;
-    }
-
-    /**
-     * @brief Submit a function with zero or more arguments and a return value into the task queue, and get a future for its eventual returned value.
-     *
-     * @tparam F The type of the function.
-     * @tparam A The types of the zero or more arguments to pass to the function.
-     * @tparam R The return type of the function.
-     * @param task The function to submit.
-     * @param args The zero or more arguments to pass to the function.
-     * @return A future to be used later to obtain the function's returned value, waiting for it to finish its execution if needed.
-     */
-    template <typename F, typename... A, typename R = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>, typename = std::enable_if_t<!std::is_void_v<R>>>
-    std::future<R> submit(const F &task, const A &...args)
-    {
-        std::shared_ptr<std::promise<R>> task_promise(new std::promise<R>);
-        std::future<R> future = task_promise->get_future();
-        push_task([task, args..., task_promise]
-                  {
-                      try
-                      {
-                          task_promise->set_value(task(args...));
-                      }
-                      catch (...)
-                      {
-                          try
-                          {
-                              task_promise->set_exception(std::current_exception());
-                          }
-                          catch (...)
-                          {
-                          }
-                      }
-                  });
-        return future;
-    }
-
-    /**
-     * @brief Wait for tasks to be completed. Normally, this function waits for all tasks, both those that are currently running in the threads and those that are still waiting in the queue. However, if the variable paused is set to true, this function only waits for the currently running tasks (otherwise it would wait forever). To wait for a specific task, use submit() instead, and call the wait() member function of the generated future.
-     */
-    void wait_for_tasks()
-    {
-        while (true)
-        {
-            if (!paused)
-            {
-                if (tasks_total == 0)
-                    break;
-            }
-            else
-            {
-                if (get_tasks_running() == 0)
-                    break;
-            }
-            sleep_or_yield();
-        }
-    }
-
-    // ===========
-    // Public data
-    // ===========
-
-    /**
-     * @brief An atomic variable indicating to the workers to pause. When set to true, the workers temporarily stop popping new tasks out of the queue, although any tasks already executed will keep running until they are done. Set to false again to resume popping tasks.
-     */
-    std::atomic<bool> paused = false;
-
-    /**
-     * @brief The duration, in microseconds, that the worker function should sleep for when it cannot find any tasks in the queue. If set to 0, then instead of sleeping, the worker function will execute std::this_thread::yield() if there are no tasks in the queue. The default value is 1000.
-     */
-    ui32 sleep_duration = 1000;
-
-private:
-    // ========================
-    // Private member functions
-    // ========================
-
-    /**
-     * @brief Create the threads in the pool and assign a worker to each thread.
-     */
-    void create_threads()
-    {
-        for (ui32 i = 0; i < thread_count; i++)
-        {
-            threads[i] = std::thread(&ThreadPool::worker, this);
-        }
-    }
-
-    /**
-     * @brief Destroy the threads in the pool by joining them.
-     */
-    void destroy_threads()
-    {
-        for (ui32 i = 0; i < thread_count; i++)
-        {
-            threads[i].join();
-        }
-    }
-
-    /**
-     * @brief Try to pop a new task out of the queue.
-     *
-     * @param task A reference to the task. Will be populated with a function if the queue is not empty.
-     * @return true if a task was found, false if the queue is empty.
-     */
-    bool pop_task(std::function<void()> &task)
-    {
-        const std::scoped_lock lock(queue_mutex);
-        if (tasks.empty())
-            return false;
-        else
-        {
-            task = std::move(tasks.front());
-            tasks.pop();
-            return true;
-        }
-    }
-
-    /**
-     * @brief Sleep for sleep_duration microseconds. If that variable is set to zero, yield instead.
-     *
-     */
-    void sleep_or_yield()
-    {
-        if (sleep_duration)
-            std::this_thread::sleep_for(std::chrono::microseconds(sleep_duration));
-        else
-            std::this_thread::yield();
-    }
-
-    /**
-     * @brief A worker function to be assigned to each thread in the pool. Continuously pops tasks out of the queue and executes them, as long as the atomic variable running is set to true.
-     */
-    void worker()
-    {
-        while (running)
-        {
-            std::function<void()> task;
-            if (!paused && pop_task(task))
-            {
-                task();
-                tasks_total--;
-            }
-            else
-            {
-                sleep_or_yield();
-            }
-        }
-    }
-
-    // ============
-    // Private data
-    // ============
-
-    /**
-     * @brief A mutex to synchronize access to the task queue by different threads.
-     */
-    mutable std::mutex queue_mutex = {};
-
-    /**
-     * @brief An atomic variable indicating to the workers to keep running. When set to false, the workers permanently stop working.
-     */
-    std::atomic<bool> running = true;
-
-    /**
-     * @brief A queue of tasks to be executed by the threads.
-     */
-    std::queue<std::function<void()>> tasks = {};
-
-    /**
-     * @brief The number of threads in the pool.
-     */
-    ui32 thread_count;
-
-    /**
-     * @brief A smart pointer to manage the memory allocated for the threads.
-     */
-    std::unique_ptr<std::thread[]> threads;
-
-    /**
-     * @brief An atomic variable to keep track of the total number of unfinished tasks - either still in the queue, or running in a thread.
-     */
-    std::atomic<ui32> tasks_total = 0;
-};
-
-//                                     End class thread_pool                                     //
-// ============================================================================================= //
-
-// ============================================================================================= //
-//                                   Begin class synced_stream                                   //
-
-/**
- * @brief A helper class to synchronize printing to an output stream by different threads.
- */
-class synced_stream
-{
-public:
-    /**
-     * @brief Construct a new synced stream.
-     *
-     * @param _out_stream The output stream to print to. The default value is std::cout.
-     */
-    synced_stream(std::ostream &_out_stream = std::cout)
-        : out_stream(_out_stream){};
-
-    /**
-     * @brief Print any number of items into the output stream. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
-     *
-     * @tparam T The types of the items
-     * @param items The items to print.
-     */
-    template <typename... T>
-    void print(const T &...items)
-    {
-        const std::scoped_lock lock(stream_mutex);
-        (out_stream << ... << items);
-    }
-
-    /**
-     * @brief Print any number of items into the output stream, followed by a newline character. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
-     *
-     * @tparam T The types of the items
-     * @param items The items to print.
-     */
-    template <typename... T>
-    void println(const T &...items)
-    {
-        print(items..., '\n');
-    }
-
-private:
-    /**
-     * @brief A mutex to synchronize printing.
-     */
-    mutable std::mutex stream_mutex = {};
-
-    /**
-     * @brief The output stream to print to.
-     */
-    std::ostream &out_stream;
-};
-
-//                                    End class synced_stream                                    //
-// ============================================================================================= //
-
-// ============================================================================================= //
-//                                       Begin class timer                                       //
-
-/**
- * @brief A helper class to measure execution time for benchmarking purposes.
- */
-class timer
-{
-    typedef std::int_fast64_t i64;
-
-public:
-    /**
-     * @brief Start (or restart) measuring time.
-     */
-    void start()
-    {
-        start_time = std::chrono::steady_clock::now();
-    }
-
-    /**
-     * @brief Stop measuring time and store the elapsed time since start().
-     */
-    void stop()
-    {
-        elapsed_time = std::chrono::steady_clock::now() - start_time;
-    }
-
-    /**
-     * @brief Get the number of milliseconds that have elapsed between start() and stop().
-     *
-     * @return The number of milliseconds.
-     */
-    i64 ms() const
-    {
-        return (std::chrono::duration_cast<std::chrono::milliseconds>(elapsed_time)).count();
-    }
-
-private:
-    /**
-     * @brief The time point when measuring started.
-     */
-    std::chrono::time_point<std::chrono::steady_clock> start_time = std::chrono::steady_clock::now();
-
-    /**
-     * @brief The duration that has elapsed between start() and stop().
-     */
-    std::chrono::duration<double> elapsed_time = std::chrono::duration<double>::zero();
-};
-
-//                                        End class timer                                        //
-// ============================================================================================= //
-
+#pragma once
+
+/**
+ * @file thread_pool.hpp
+ * @author Barak Shoshany (baraksh@gmail.com) (http://baraksh.com)
+ * @version 2.0.0
+ * @date 2021-08-14
+ * @copyright Copyright (c) 2021 Barak Shoshany. Licensed under the MIT license. If you use this library in published research, please cite it as follows:
+ *  - Barak Shoshany, "A C++17 Thread Pool for High-Performance Scientific Computing", doi:10.5281/zenodo.4742687, arXiv:2105.00613 (May 2021)
+ *
+ * @brief A C++17 thread pool for high-performance scientific computing.
+ * @details A modern C++17-compatible thread pool implementation, built from scratch with high-performance scientific computing in mind. The thread pool is implemented as a single lightweight and self-contained class, and does not have any dependencies other than the C++17 standard library, thus allowing a great degree of portability. In particular, this implementation does not utilize OpenMP or any other high-level multithreading APIs, and thus gives the programmer precise low-level control over the details of the parallelization, which permits more robust optimizations. The thread pool was extensively tested on both AMD and Intel CPUs with up to 40 cores and 80 threads. Other features include automatic generation of futures and easy parallelization of loops. Two helper classes enable synchronizing printing to an output stream by different threads and measuring execution time for benchmarking purposes. Please visit the GitHub repository at https://github.com/bshoshany/thread-pool for documentation and updates, or to submit feature requests and bug reports.
+ */
+
+#define THREAD_POOL_VERSION "v2.0.0 (2021-08-14)"
+
+#include <atomic>      // std::atomic
+#include <chrono>      // std::chrono
+#include <cstdint>     // std::int_fast64_t, std::uint_fast32_t
+#include <functional>  // std::function
+#include <future>      // std::future, std::promise
+#include <iostream>    // std::cout, std::ostream
+#include <memory>      // std::shared_ptr, std::unique_ptr
+#include <mutex>       // std::mutex, std::scoped_lock
+#include <queue>       // std::queue
+#include <thread>      // std::this_thread, std::thread
+#include <type_traits> // std::common_type_t, std::decay_t, std::enable_if_t, std::is_void_v, std::invoke_result_t
+#include <utility>     // std::move
+
+
+namespace mltk {
+// ============================================================================================= //
+//                                    Begin class thread_pool                                    //
+
+/**
+ * @brief A C++17 thread pool class. The user submits tasks to be executed into a queue. Whenever a thread becomes available, it pops a task from the queue and executes it. Each task is automatically assigned a future, which can be used to wait for the task to finish executing and/or obtain its eventual return value.
+ */
+class ThreadPool
+{
+    typedef std::uint_fast32_t ui32;
+    typedef std::uint_fast64_t ui64;
+
+public:
+    // ============================
+    // Constructors and destructors
+    // ============================
+
+    /**
+     * @brief Construct a new thread pool.
+     *
+     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
+     */
+    ThreadPool(const ui32 &_thread_count = std::thread::hardware_concurrency())
+        : thread_count(_thread_count ? _thread_count : std::thread::hardware_concurrency()), threads(new std::thread[_thread_count ? _thread_count : std::thread::hardware_concurrency()])
+    {
+        create_threads();
+    }
+
+    /**
+     * @brief Destruct the thread pool. Waits for all tasks to complete, then destroys all threads. Note that if the variable paused is set to true, then any tasks still in the queue will never be executed.
+     */
+    ~ThreadPool()
+    {
+        wait_for_tasks();
+        running = false;
+        destroy_threads();
+    }
+
+    // =======================
+    // Public member functions
+    // =======================
+
+    /**
+     * @brief Get the number of tasks currently waiting in the queue to be executed by the threads.
+     *
+     * @return The number of queued tasks.
+     */
+    ui64 get_tasks_queued() const
+    {
+        const std::scoped_lock lock(queue_mutex);
+        return tasks.size();
+    }
+
+    /**
+     * @brief Get the number of tasks currently being executed by the threads.
+     *
+     * @return The number of running tasks.
+     */
+    ui32 get_tasks_running() const
+    {
+        // one consistent view: tasks enter and leave the queue under the same lock
+        const std::scoped_lock lock(queue_mutex);
+        return tasks_total - (ui32)tasks.size();
+    }
+
+    /**
+     * @brief Get the total number of unfinished tasks - either still in the queue, or running in a thread.
+     *
+     * @return The total number of tasks.
+     */
+    ui32 get_tasks_total() const
+    {
+        return tasks_total;
+    }
+
+    /**
+     * @brief Get the number of threads in the pool.
+     *
+     * @return The number of threads.
+     */
+    ui32 get_thread_count() const
+    {
+        return thread_count;
+    }
+
+    /**
+     * @brief Parallelize a loop by splitting it into blocks, submitting each block separately to the thread pool, and waiting for all blocks to finish executing. The user supplies a loop function, which will be called once per block and should iterate over the block's range.
+     *
+     * @tparam T1 The type of the first index in the loop. Should be a signed or unsigned integer.
+     * @tparam T2 The type of the index after the last index in the loop. Should be a signed or unsigned integer. If T1 is not the same as T2, a common type will be automatically inferred.
+     * @tparam F The type of the function to loop through.
+     * @param first_index The first index in the loop.
+     * @param index_after_last The index after the last index in the loop. The loop will iterate from first_index to (index_after_last - 1) inclusive. In other words, it will be equivalent to "for (T i = first_index; i < index_after_last; i++)". Note that if first_index == index_after_last, the function will terminate without doing anything.
+     * @param loop The function to loop through. Will be called once per block. Should take exactly two arguments: the first index in the block and the index after the last index in the block. loop(start, end) should typically involve a loop of the form "for (T i = start; i < end; i++)".
+     * @param num_blocks The maximum number of blocks to split the loop into. The default is to use the number of threads in the pool.
+     */
+    template <typename T1, typename T2, typename F>
+    void parallelize_loop(const T1 &first_index, const T2 &index_after_last, const F &loop, ui32 num_blocks = 0)
+    {
+        typedef std::common_type_t<T1, T2> T;
+        T the_first_index = (T)first_index;
+        T last_index = (T)index_after_last;
+        if (the_first_index == last_index)
+            return;
+        if (last_index < the_first_index)
+        {
+            T temp = last_index;
+            last_index = the_first_index;
+            the_first_index = temp;
+        }
+        last_index--;
+        if (num_blocks == 0)
+            num_blocks = thread_count;
+        ui64 total_size = (ui64)(last_index - the_first_index + 1);
+        ui64 block_size = (ui64)(total_size / num_blocks);
+        if (block_size == 0)
+        {
+            block_size = 1;
+            num_blocks = (ui32)total_size > 1 ? (ui32)total_size : 1;
+        }
+        std::atomic<ui32> blocks_running = 0;
+        for (ui32 t = 0; t < num_blocks; t++)
+        {
+            T start = ((T)(t * block_size) + the_first_index);
+            T end = (t == num_blocks - 1) ? last_index + 1 : ((T)((t + 1) * block_size) + the_first_index);
+            blocks_running++;
+            push_task([start, end, &loop, &blocks_running]
+                      {
+                          loop(start, end);
+                          blocks_running--;
+                      });
+        }
+        while (blocks_running != 0)
+        {
+            sleep_or_yield();
+        }
+    }
+
+    /**
+     * @brief Push a function with no arguments or return value into the task queue.
+     *
+     * @tparam F The type of the function.
+     * @param task The function to push.
+     */
+    template <typename F>
+    void push_task(const F &task)
+    {
+        {
+            const std::scoped_lock lock(queue_mutex);
+            tasks_total++;
+            tasks.push(std::function<void()>(task));
+        }
+    }
+
+    /**
+     * @brief Push a function with arguments, but no return value, into the task queue.
+     * @details The function is wrapped inside a lambda in order to hide the arguments, as the tasks in the queue must be of type std::function<void()>, so they cannot have any arguments or return value. If no arguments are provided, the other overload will be used, in order to avoid the (slight) overhead of using a lambda.
+     *
+     * @tparam F The type of the function.
+     * @tparam A The types of the arguments.
+     * @param task The function to push.
+     * @param args The arguments to pass to the function.
+     */
+    template <typename F, typename... A>
+    void push_task(const F &task, const A &...args)
+    {
+        push_task([task, args...]
+                  { task(args...); });
+    }
+
+    /**
+     * @brief Reset the number of threads in the pool. Waits for all currently running tasks to be completed, then destroys all threads in the pool and creates a new thread pool with the new number of threads. Any tasks that were waiting in the queue before the pool was reset will then be executed by the new threads. If the pool was paused before resetting it, the new pool will be paused as well.
+     *
+     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
+     */
+    void reset(const ui32 &_thread_count = std::thread::hardware_concurrency())
+    {
+        bool was_paused = paused;
+        paused = true;
+        wait_for_tasks();
+        running = false;
+        destroy_threads();
+        thread_count = _thread_count ? _thread_count : std::thread::hardware_concurrency();
+        threads.reset(new std::thread[thread_count]);
+        paused = was_paused;
+        running = true;
+        create_threads();
+    }
+
+    /**
+     * @brief Submit a function with zero or more arguments and no return value into the task queue, and get an std::future<bool> that will be set to true upon completion of the task.
+     *
+     * @tparam F The type of the function.
+     * @tparam A The types of the zero or more arguments to pass to the function.
+     * @param task The function to submit.
+     * @param args The zero or more arguments to pass to the function.
+     * @return A future to be used later to check if the function has finished its execution.
+     */
+    template <typename F, typename... A, typename = std::enable_if_t<std::is_void_v<std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>>>>
+    std::future<bool> submit(const F &task, const A &...args)
+    {
+        std::shared_ptr<std::promise<bool>> task_promise(new std::promise<bool>);
+        std::future<bool> future = task_promise->get_future();
+        push_task([task, args..., task_promise]
+                  {
+                      try
+                      {
+                          task(args...);
+                          task_promise->set_value(true);
+                      }
+                      catch (...)
+                      {
+                          try
+                          {
+                              task_promise->set_exception(std::current_exception());
+                          }
+                          catch (...)
+                          {
+                          }
+                      }
+                  });
+        return future;
+    }
+
+    /**
+     * @brief Submit a function with zero or more arguments and a return value into the task queue, and get a future for its eventual returned value.
+     *
+     * @tparam F The type of the function.
+     * @tparam A The types of the zero or more arguments to pass to the function.
+     * @tparam R The return type of the function.
+     * @param task The function to submit.
+     * @param args The zero or more arguments to pass to the function.
+     * @return A future to be used later to obtain the function's returned value, waiting for it to finish its execution if needed.
+     */
+    template <typename F, typename... A, typename R = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>, typename = std::enable_if_t<!std::is_void_v<R>>>
+    std::future<R> submit(const F &task, const A &...args)
+    {
+        std::shared_ptr<std::promise<R>> task_promise(new std::promise<R>);
+        std::future<R> future = task_promise->get_future();
+        push_task([task, args..., task_promise]
+                  {
+                      try
+                      {
+                          task_promise->set_value(task(args...));
+                      }
+                      catch (...)
+                      {
+                          try
+                          {
+                              task_promise->set_exception(std::current_exception());
+                          }
+                          catch (...)
+                          {
+                          }
+                      }
+                  });
+        return future;
+    }
+
+    /**
+     * @brief Wait for tasks to be completed. Normally, this function waits for all tasks, both those that are currently running in the threads and those that are still waiting in the queue. However, if the variable paused is set to true, this function only waits for the currently running tasks (otherwise it would wait forever). To wait for a specific task, use submit() instead, and call the wait() member function of the generated future.
+     */
+    void wait_for_tasks()
+    {
+        while (true)
+        {
+            if (!paused)
+            {
+                if (tasks_total == 0)
+                    break;
+            }
+            else
+            {
+                if (get_tasks_running() == 0)
+                    break;
+            }
+            sleep_or_yield();
+        }
+    }
+
+    // ===========
+    // Public data
+    // ===========
+
+    /**
+     * @brief An atomic variable indicating to the workers to pause. When set to true, the workers temporarily stop popping new tasks out of the queue, although any tasks already executed will keep running until they are done. Set to false again to resume popping tasks.
+     */
+    std::atomic<bool> paused = false;
+
+    /**
+     * @brief The duration, in microseconds, that the worker function should sleep for when it cannot find any tasks in the queue. If set to 0, then instead of sleeping, the worker function will execute std::this_thread::yield() if there are no tasks in the queue. The default value is 1000.
+     */
+    ui32 sleep_duration = 1000;
+
+private:
+    // ========================
+    // Private member functions
+    // ========================
+
+    /**
+     * @brief Create the threads in the pool and assign a worker to each thread.
+     */
+    void create_threads()
+    {
+        for (ui32 i = 0; i < thread_count; i++)
+        {
+            threads[i] = std::thread(&ThreadPool::worker, this);
+        }
+    }
+
+    /**
+     * @brief Destroy the threads in the pool by joining them.
+     */
+    void destroy_threads()
+    {
+        for (ui32 i = 0; i < thread_count; i++)
+        {
+            threads[i].join();
+        }
+    }
+
+    /**
+     * @brief Try to pop a new task out of the queue.
+     *
+     * @param task A reference to the task. Will be populated with a function if the queue is not empty.
+     * @return true if a task was found, false if the queue is empty.
+     */
+    bool pop_task(std::function<void()> &task)
+    {
+        const std::scoped_lock lock(queue_mutex);
+        if (paused || tasks.empty())
+            return false;
+        else
+        {
+            task = std::move(tasks.front());
+            tasks.pop();
+            return true;
+        }
+    }
+
+    /**
+     * @brief Sleep for sleep_duration microseconds. If that variable is set to zero, yield instead.
+     *
+     */
+    void sleep_or_yield()
+    {
+        if (sleep_duration)
+            std::this_thread::sleep_for(std::chrono::microseconds(sleep_duration));
+        else
+            std::this_thread::yield();
+    }
+
+    /**
+     * @brief A worker function to be assigned to each thread in the pool. Continuously pops tasks out of the queue and executes them, as long as the atomic variable running is set to true.
+     */
+    void worker()
+    {
+        while (running)
+        {
+            std::function<void()> task;
+            if (!paused && pop_task(task))
+            {
+                task();
+                tasks_total--;
+            }
+            else
+            {
+                sleep_or_yield();
+            }
+        }
+    }
+
+    // ============
+    // Private data
+    // ============
+
+    /**
+     * @brief A mutex to synchronize access to the task queue by different threads.
+     */
+    mutable std::mutex queue_mutex = {};
+
+    /**
+     * @brief An atomic variable indicating to the workers to keep running. When set to false, the workers permanently stop working.
+     */
+    std::atomic<bool> running = true;
+
+    /**
+     * @brief A queue of tasks to be executed by the threads.
+     */
+    std::queue<std::function<void()>> tasks = {};
+
+    /**
+     * @brief The number of threads in the pool.
+     */
+    ui32 thread_count;
+
+    /**
+     * @brief A smart pointer to manage the memory allocated for the threads.
+     */
+    std::unique_ptr<std::thread[]> threads;
+
+    /**
+     * @brief An atomic variable to keep track of the total number of unfinished tasks - either still in the queue, or running in a thread.
+     */
+    std::atomic<ui32> tasks_total = 0;
+};
+
+//                                     End class thread_pool                                     //
+// ============================================================================================= //
+
+// ============================================================================================= //
+//                                   Begin class synced_stream                                   //
+
+/**
+ * @brief A helper class to synchronize printing to an output stream by different threads.
+ */
+class synced_stream
+{
+public:
+    /**
+     * @brief Construct a new synced stream.
+     *
+     * @param _out_stream The output stream to print to. The default value is std::cout.
+     */
+    synced_stream(std::ostream &_out_stream = std::cout)
+        : out_stream(_out_stream){};
+
+    /**
+     * @brief Print any number of items into the output stream. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
+     *
+     * @tparam T The types of the items
+     * @param items The items to print.
+     */
+    template <typename... T>
+    void print(const T &...items)
+    {
+        const std::scoped_lock lock(stream_mutex);
+        (out_stream << ... << items);
+    }
+
+    /**
+     * @brief Print any number of items into the output stream, followed by a newline character. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
+     *
+     * @tparam T The types of the items
+     * @param items The items to print.
+     */
+    template <typename... T>
+    void println(const T &...items)
+    {
+        print(items..., '\n');
+    }
+
+private:
+    /**
+     * @brief A mutex to synchronize printing.
+     */
+    mutable std::mutex stream_mutex = {};
+
+    /**
+     * @brief The output stream to print to.
+     */
+    std::ostream &out_stream;
+};
+
+//                                    End class synced_stream                                    //
+// ============================================================================================= //
+
+// ============================================================================================= //
+//                                       Begin class timer                                       //
+
+/**
+ * @brief A helper class to measure execution time for benchmarking purposes.
+ */
+class timer
+{
+    typedef std::int_fast64_t i64;
+
+public:
+    /**
+     * @brief Start (or restart) measuring time.
+     */
+    void start()
+    {
+        start_time = std::chrono::steady_clock::now();
+    }
+
+    /**
+     * @brief Stop measuring time and store the elapsed time since start().
+     */
+    void stop()
+    {
+        elapsed_time = std::chrono::steady_clock::now() - start_time;
+    }
+
+    /**
+     * @brief Get the number of milliseconds that have elapsed between start() and stop().
+     *
+     * @return The number of milliseconds.
+     */
+    i64 ms() const
+    {
+        return (std::chrono::duration_cast<std::chrono::milliseconds>(elapsed_time)).count();
+    }
+
+private:
+    /**
+     * @brief The time point when measuring started.
+     */
+    std::chrono::time_point<std::chrono::steady_clock> start_time = std::chrono::steady_clock::now();
+
+    /**
+     * @brief The duration that has elapsed between start() and stop().
+     */
+    std::chrono::duration<double> elapsed_time = std::chrono::duration<double>::zero();
+};
+
+//                                        End class timer                                        //
+// ============================================================================================= //
+
 } // namespace mltk
\ No newline at end of file
-- 
2.43.0


From 13f99cf5061da38c8204cf9fbcbebb9d73a0fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:53 +0000
Subject: [PATCH 053/139] fix: ThreadPool::sleep_duration may be set while the
 workers read it

---
 .../ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index 3573582..a3a4d57 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -320,7 +320,7 @@ public:
     /**
      * @brief The duration, in microseconds, that the worker function should sleep for when it cannot find any tasks in the queue. If set to 0, then instead of sleeping, the worker function will execute std::this_thread::yield() if there are no tasks in the queue. The default value is 1000.
      */
-    ui32 sleep_duration = 1000;
+    std::atomic<ui32> sleep_duration = 1000;
 
 private:
     // ========================
@@ -374,8 +374,9 @@ private:
      */
     void sleep_or_yield()
     {
-        if (sleep_duration)
-            std::this_thread::sleep_for(std::chrono::microseconds(sleep_duration));
+        const ui32 duration = sleep_duration;
+        if (duration)
+            std::this_thread::sleep_for(std::chrono::microseconds(duration));
         else
             std::this_thread::yield();
     }
-- 
2.43.0


From 7a52d0abdac67c91ee87a53ec780df91ee3fbb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:41 +0000
Subject: [PATCH 054/139] fix: a primal classifier returns its raw decision
 value when asked

---
 .../include/ufjfmltk/classifier/PrimalClassifier.hpp             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
index a57f638..20c5e84 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
@@ -53,6 +53,7 @@ namespace mltk{
                         func += this->solution.w[i] * p[i];
                     }
 
+                    if (raw_value) return func;
                     return (func >= 0) ? 1 : -1;
                 }
 
-- 
2.43.0


From 61b39dc7c22f245bb30711ae704c3b7be566b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:41 +0000
Subject: [PATCH 055/139] fix: a dual classifier returns its raw decision value
 when asked

---
 .../include/ufjfmltk/classifier/DualClassifier.hpp               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index e3eea10..cbc17ab 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -40,6 +40,7 @@ namespace mltk{
                     func += this->solution.alpha[r] * (*this->samples)[r]->Y() * fk;
                 }
 
+                if (raw_value) return func;
                 return (func >= 0) ? 1 : -1;
             }
 
-- 
2.43.0


From 001953967ef1f12f369c2b6d4ffa421bbf9da295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:41 +0000
Subject: [PATCH 056/139] fix: giving a dual classifier other samples drops the
 kernel and alphas of the old ones

---
 .../include/ufjfmltk/classifier/DualClassifier.hpp   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index cbc17ab..bfd7698 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -46,6 +46,18 @@ namespace mltk{
 
             inline void recomputeKernel(){ if(this->kernel) this->kernel->recompute(); }
 
+            void setSamples(const Data<T> &data) override {
+                Learner<T>::setSamples(data);
+                this->alpha.clear();
+                this->recomputeKernel();
+            }
+
+            void setSamples(DataPointer<T> data) override {
+                Learner<T>::setSamples(data);
+                this->alpha.clear();
+                this->recomputeKernel();
+            }
+
             /*********************************************
              *               Setters                     *
              *********************************************/
-- 
2.43.0


From b6255b3f56dee6f9e5a2e47aa23e5b28e3c35c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 057/139] fix: copying a trained SMO classifier no longer frees
 its kernel twice

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index f743972..ee6598c 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -66,6 +66,12 @@ namespace mltk{
                 explicit SMO(const Data<T>& samples, KernelType kernel_type = KernelType::INNER_PRODUCT,
                              double param = 0, int verbose = 0);
 
+                /// A copy takes the parameters and samples; it builds its own kernel when trained.
+                SMO(const SMO<T> &other): Learner<T>(other), Classifier<T>(other), DualClassifier<T>(other),
+                                          param(other.param) {
+                    this->kernel = nullptr;
+                }
+
                 bool train() override;
 
                 ~SMO();
-- 
2.43.0


From 64585da50b7d8c21b496eb574f83efbd436e1fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 058/139] fix: the balanced perceptron learns its bias

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 05eb6f7..e036283 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -109,7 +109,7 @@ namespace mltk{
 
                         if (point->Y() != pred) {
                             weights += this->rate * (*point) * point->Y();
-                            bias += this->rate * bias;
+                            bias += this->rate * point->Y();
                             ite++;
                             errors++;
                         }
-- 
2.43.0


From e037f6d7fb51ad1c986fed4fbdad8d153087f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 059/139] fix: training a balanced perceptron leaves the order
 of its samples alone

---
 .../include/ufjfmltk/classifier/Perceptron.hpp            | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index e036283..5108352 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -98,13 +98,15 @@ namespace mltk{
 
                 this->bias = 0;
                 mltk::random_init<double>(this->weights, this->samples->dim(), this->seed);
-                this->samples->shuffle(this->seed);
+                // its samples may be shared with other learners: visit them in random order, do not reorder them
+                auto points = this->samples->points();
+                std::mt19937 generator((this->seed == 0) ? std::random_device{}() : this->seed);
+                std::shuffle(points.begin(), points.end(), generator);
                 this->timer.reset();
 
                 while (epoch < this->MAX_EPOCH) {
                     errors = 0;
-                    for (auto it = this->samples->begin(); it != this->samples->end(); ++it) {
-                        auto point = *it;
+                    for (const auto &point: points) {
                         int pred = ((mltk::dot(weights, *point) + bias) >= 0) ? 1 : -1;
 
                         if (point->Y() != pred) {
-- 
2.43.0


From 2987b1771b91901c74017b962c0ee2947ee373f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:12 +0000
Subject: [PATCH 060/139] fix: the primal perceptron reports the norm of its
 weights and accepts samples of another dimension

---
 .../include/ufjfmltk/classifier/Perceptron.hpp              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 5108352..381e417 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -188,9 +188,11 @@ namespace mltk{
             std::vector<T> x;
             std::vector<int> index = this->samples->getIndex();
 
-            if (this->solution.w.empty()) this->solution.w.resize(dim);
+            if (this->solution.w.size() != dim) this->solution.w = mltk::Point<double>(dim, 0.0);
             this->solution.bias = 0;
-            this->solution.norm = 0.0;
+            for (this->solution.norm = 0.0, j = 0; j < dim; ++j)
+                this->solution.norm += this->solution.w[j] * this->solution.w[j];
+            this->solution.norm = sqrt(this->solution.norm);
 
             this->timer.reset();
             while (this->timer.elapsed() - time <= 0) {
-- 
2.43.0


From 65ad0d622c1c74fc1af001c2a1d978304a1b3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 061/139] fix: the L1 fixed margin perceptron counts the
 updated first weight in its norm

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 381e417..7eea294 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -309,7 +309,9 @@ namespace mltk{
                                 } else
                                     w[j] += this->rate * (y * x[j]);
 
-                                if (j > 0) {
+                                if (j == 0) {
+                                    largw_temp = fabs(w[0]);
+                                } else {
                                     if (fabs(largw_temp - fabs(w[j])) / largw_temp < this->EPS)
                                         n_temp++;
                                     else if (fabs(w[j]) > largw_temp) {
-- 
2.43.0


From c025523584d50cbfd5488b2dc95f3fdd21af38c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 062/139] fix: the L1 incremental margin algorithm counts the
 updated first weight in its norm

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 0ff4e8c..7d3a4e7 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -450,7 +450,9 @@ namespace mltk{
                                 } else
                                     this->w[j] += this->rate * (y * x[j]);
 
-                                if (j > 0) {
+                                if (j == 0) {
+                                    maiorw_temp = fabs(this->w[0]);
+                                } else {
                                     if (fabs(maiorw_temp - fabs(this->w[j])) / maiorw_temp < this->EPS)
                                         n_temp++;
                                     else if (fabs(this->w[j]) > maiorw_temp) {
-- 
2.43.0


From 801ec33e1652d2bdc50582ad265ab8ffb2adf401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 063/139] fix: the fixed margin perceptron starts afresh for
 samples of another size or dimension

---
 .../include/ufjfmltk/classifier/Perceptron.hpp             | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 7eea294..1d51e91 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -258,8 +258,11 @@ namespace mltk{
             std::vector<int> index = this->samples->getIndex();
             std::shared_ptr<Point<T> > p;
 
-            if (func.empty()) func.resize(size);
-            if (w.empty()) w.resize(dim);
+            func.resize(size);
+            if (w.size() != dim) {
+                w.assign(dim, 0.0);
+                bias = norm = 0.0;
+            }
             e = s = 0;
             this->timer.reset();
             while (this->timer.elapsed() - time <= 0) {
-- 
2.43.0


From 66e459a4c257c2a59a6a3787e9a286a0f31ac8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 064/139] fix: the fixed margin perceptron decides by the sign
 of its function

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 1d51e91..28f52b5 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -378,7 +378,7 @@ namespace mltk{
                 func += this->solution.w[i] * p[i];
             }
 
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
-- 
2.43.0


From 940a4bed2ab3efc0003c1aea8428a482621ebe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 065/139] fix: the incremental margin classifiers decide by the
 sign of their function, not past the positive margin

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 7d3a4e7..952ea9c 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -360,7 +360,7 @@ namespace mltk{
             for (func = this->solution.bias, i = 0; i < dim; i++) {
                 func += this->solution.w[i] * p[i];
             }
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
@@ -519,7 +519,7 @@ namespace mltk{
                 func += this->solution.w[i] * p[i];
             }
 
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
-- 
2.43.0


From 062209f692a9eb351ce57563db36771cb9d49348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 066/139] Revert "fix: giving a dual classifier other samples
 drops the kernel and alphas of the old ones"

This reverts commit 001953967ef1f12f369c2b6d4ffa421bbf9da295.
---
 .../include/ufjfmltk/classifier/DualClassifier.hpp   | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index bfd7698..cbc17ab 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -46,18 +46,6 @@ namespace mltk{
 
             inline void recomputeKernel(){ if(this->kernel) this->kernel->recompute(); }
 
-            void setSamples(const Data<T> &data) override {
-                Learner<T>::setSamples(data);
-                this->alpha.clear();
-                this->recomputeKernel();
-            }
-
-            void setSamples(DataPointer<T> data) override {
-                Learner<T>::setSamples(data);
-                this->alpha.clear();
-                this->recomputeKernel();
-            }
-
             /*********************************************
              *               Setters                     *
              *********************************************/
-- 
2.43.0


From 91820833d3ba0307ef65114ab18deb425c8e7d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:21 +0000
Subject: [PATCH 067/139] fix: a kernel matrix computed for another number of
 samples is not reused

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index bc378b3..02d87c1 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -161,7 +161,7 @@ namespace mltk{
     void Kernel<T>::compute(const std::shared_ptr<Data< T > > samples, typename FunctionType<T>::Type f){
         size_t i, j, size = samples->size(), dim = samples->dim();
 
-        if(computed) return;
+        if(computed && K.size() == size) return;
         if(this->type == mltk::CUSTOM) this->func = f;
         K.assign(size, std::vector<double>(size, 0.0));
 
-- 
2.43.0


From f53466285c0fca526d65a60f4c70875f607f27d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:36 +0000
Subject: [PATCH 068/139] fix: the dual fixed margin perceptron starts afresh
 on other samples

---
 .../ufjfmltk/classifier/Perceptron.hpp        | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 28f52b5..046e09a 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -74,6 +74,16 @@ namespace mltk{
                                                Solution *initial_solution = nullptr);
 
             bool train() override;
+
+            void setSamples(const Data<T> &data) override {
+                Learner<T>::setSamples(data);
+                this->solution = Solution();
+            }
+
+            void setSamples(DataPointer<T> data) override {
+                Learner<T>::setSamples(data);
+                this->solution = Solution();
+            }
         };
 
         template<typename T>
@@ -501,7 +511,12 @@ namespace mltk{
                 this->alpha.resize(this->samples->size());
             }
 
-            if (func.empty()) { func.resize(size); }
+            if (func.size() != size) {
+                // nothing learned from these samples yet
+                func.assign(size, 0.0);
+                for (auto &p : this->samples->points()) p->Alpha() = 0.0;
+                norm = bias = 0.0;
+            }
             e = 1, s = 0;
             this->timer.reset();
 
@@ -547,7 +562,7 @@ namespace mltk{
             this->solution.bias = bias;
             this->solution.norm = norm;
             this->solution.func = func;
-            this->solution.w.resize(dim);
+            this->solution.w = std::vector<double>(dim, 0.0);
             this->solution.alpha.resize(size);
             for (i = 0; i < dim; i++) {
                 for (j = 0; j < size; j++) {
-- 
2.43.0


From 39897de5403109820abd190c7340a5d2fc69ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:36 +0000
Subject: [PATCH 069/139] fix: the dual fixed margin perceptron updates its
 norm with the function value before the update

---
 .../include/ufjfmltk/classifier/Perceptron.hpp               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 046e09a..b832fc3 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -528,15 +528,16 @@ namespace mltk{
                     //Checking if the point is a mistake
 
                     if (y * func[idx] - this->gamma * norm <= 0) {
-                        lambda = (this->gamma) ? (1 - this->rate * this->gamma / norm) : 1;
+                        lambda = (this->gamma && norm != 0) ? (1 - this->rate * this->gamma / norm) : 1;
                         norm *= lambda;
+                        const double inner = func[idx] - bias;
 
                         for (r = 0; r < size; ++r) {
                             (*this->samples)[r]->Alpha() *= lambda;
                             func[r] = lambda * func[r] + this->rate * y * ((*K)[idx][r] + 1) + bias * (1 - lambda);
                         }
 
-                        norm = sqrt(norm * norm + tworate * (*this->samples)[idx]->Y() * lambda * (func[idx] - bias) +
+                        norm = sqrt(norm * norm + tworate * (*this->samples)[idx]->Y() * lambda * inner +
                                     sqrate * (*K)[idx][idx]);
                         (*this->samples)[idx]->Alpha() += this->rate;
 
-- 
2.43.0


From 07958fdf4009b78ee7a63fec358d38495ac063c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:01 +0000
Subject: [PATCH 070/139] fix: training a dual perceptron again starts from its
 initial solution

---
 .../include/ufjfmltk/classifier/Perceptron.hpp         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index b832fc3..2ae4030 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -400,6 +400,7 @@ namespace mltk{
                 this->solution = *initial_solution;
                 this->alpha = (*initial_solution).alpha;
             }
+            this->initial = initial_solution;
             this->rate = rate;
             this->kernel = new Kernel<T>(kernel_type, kernel_param);
         }
@@ -432,11 +433,10 @@ namespace mltk{
             dMatrix *K = this->kernel->getKernelMatrixPointer();
             int y;
             iota(index.begin(), index.end(), 0);
-            if (this->alpha.empty()) {
-                this->alpha.assign(size, 0.0);
-            }
-            if(!initial){
+            if(!initial || this->alpha.size() != size){
                 this->solution = Solution();
+                this->alpha.assign(size, 0.0);
+                norm = bias = 0.0;
             }
             this->timer.reset();
             e = 1;
@@ -471,7 +471,7 @@ namespace mltk{
             this->solution.norm = norm;
             this->solution.alpha = this->alpha;
             this->solution.margin = 0.0;
-            this->solution.w.resize(dim);
+            this->solution.w = std::vector<double>(dim, 0.0);
 
             for (i = 0; i < size; i++) {
                 for (j = 0; j < dim; j++) {
-- 
2.43.0


From d434f18e15465410af6a82066db1fd8223d167c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:01 +0000
Subject: [PATCH 071/139] fix: IMADual keeps the bias of the solution whose
 alphas it keeps

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 952ea9c..aad3d2f 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -593,6 +593,7 @@ namespace mltk{
             PerceptronFixedMarginDual<T> percDual;
             Solution sol, *solr;
 
+            this->svs.clear();
             percDual.setSamples(this->samples);
             percDual.setKernel(this->kernel);
             percDual.setGamma(this->gamma);
@@ -648,15 +649,14 @@ namespace mltk{
             sol = percDual.getSolution();
             this->alpha = percDual.getAlphaVector();
             norm = sol.norm;
-            this->solution.bias = sol.bias;
             func = sol.func.X();
 
+            for (i = 0; i < size; ++i) points[i]->Alpha() = saved_alphas[i];
+
             for (i = 0; i < size; ++i) {
                 if (points[i]->Alpha() > this->EPS * this->rate) { this->svs.push_back(i); }
             }
 
-            for (i = 0; i < size; ++i) points[i]->Alpha() = saved_alphas[i];
-
             this->solution.norm = this->kernel->norm(*this->samples);
 
             /*recuperando o vetor DJ -- "pesos" das componentes*/
-- 
2.43.0


From 8fd2da77dde5c5840638f12ab75431dae9a68c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:28 +0000
Subject: [PATCH 072/139] fix: IMAp has a margin when it is default constructed

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index aad3d2f..074dc49 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -25,7 +25,7 @@ namespace mltk{
         template<typename T = double>
         class IMAp : public PrimalClassifier<T> {
         private:
-            double margin;
+            double margin = 0.0;
             /// Support vector.
             std::vector<int> svs;
 
-- 
2.43.0


From aed4f3c88f3584d1eb56c2c18bbf634bcf47042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:28 +0000
Subject: [PATCH 073/139] fix: the incremental fixed margin perceptron trains
 on its own

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 074dc49..de0ec30 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -52,9 +52,9 @@ namespace mltk{
         template<typename T = double>
         class IMApFixedMargin : public PrimalClassifier<T> {
         private:
-            int n, maiorn = 0, flagNao1aDim;
+            int n = 1, maiorn = 0, flagNao1aDim = 0;
             double margin = 0.0, maiorw = 0.0;
-            unsigned long tMax;
+            unsigned long tMax = 0;
 
             /// Support vector.
             std::vector<int> svs;
-- 
2.43.0


From f47425a3db8f6b322e23e1444fa93f49926a52ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:28 +0000
Subject: [PATCH 074/139] fix: IMAp centres its initial solution by that
 solution's own weights

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index de0ec30..723abe8 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -159,7 +159,7 @@ namespace mltk{
                 for (min = DBL_MAX, max = -DBL_MAX, i = 0; i < size; ++i) {
                     y = points[i]->Y();
                     for (func[i] = 0, j = 0; j < dim; ++j)
-                        func[i] += this->w[j] * points[i]->X()[j];
+                        func[i] += this->solution.w[j] * points[i]->X()[j];
                     if (y == 1 && func[i] < min) min = func[i];
                     else if (y == -1 && func[i] > max) max = func[i];
                 }
-- 
2.43.0


From ed9346a45b6086b51f1186ed5f0e6e4f750b99aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:28 +0000
Subject: [PATCH 075/139] fix: the incremental fixed margin perceptron starts
 afresh on samples of another dimension

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 723abe8..610a1eb 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -399,7 +399,10 @@ namespace mltk{
             
             if (!this->solution.w.empty())
                 this->w = this->solution.w.X();
-            else this->w.resize(this->samples->dim(), 0.0);
+            if (this->w.size() != dim) {
+                this->w.assign(dim, 0.0);
+                norm = bias = 0.0;
+            }
             while (time - this->timer.elapsed() > 0) {
                 for (e = 0, i = 0; i < size; ++i) {
                     //shuffling data r = i + rand()%(size-i); j = index[i]; idx = index[i] = index[r]; index[r] = j;
-- 
2.43.0


From 67088e5ee18ee6d21402d12027f893998ae9ebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:00 +0000
Subject: [PATCH 076/139] fix: SMO compares the objective at both ends of the
 segment

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index ee6598c..0d87955 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -322,7 +322,7 @@ namespace mltk{
                     double c1 = eta / 2.0;
                     double c2 = y2 * (e1 - e2) - eta * alpha2;
                     min_val_f = c1 * min_val * min_val + c2 * min_val;
-                    max_val_f = c1 * max_val * max_val + c2 * min_val;
+                    max_val_f = c1 * max_val * max_val + c2 * max_val;
 
                     if (min_val_f > max_val_f + this->EPS) new_alpha2 = min_val;
                     else if (min_val_f < max_val_f - this->EPS) new_alpha2 = max_val;
-- 
2.43.0


From 28a6caa6cd08563165c260b1d673afba56beb791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 077/139] fix: a default constructed OneVsAll has no over
 sampling method

---
 .../include/ufjfmltk/classifier/OneVsAll.hpp                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
index c0b425e..74d02d6 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
@@ -20,7 +20,7 @@ namespace mltk{
                 using LearnerPointer = std::shared_ptr<Learner<T> >;
 
                 /// Over sampling method (optional)
-                OverSampling<T> *samp_method;
+                OverSampling<T> *samp_method = nullptr;
                 /// Vector of binary base m_learners
                 std::vector<LearnerPointer> base_learners;
 
-- 
2.43.0


From 972aa227ec1eae04a123c56799b60f7be1950a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 078/139] fix: a default constructed OneVsOne has no over
 sampling method

---
 .../include/ufjfmltk/classifier/OneVsOne.hpp                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
index 804611a..7cc562f 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
@@ -22,7 +22,7 @@ namespace mltk{
             /// Matrix of binary base m_learners
             std::vector<std::vector<LearnerPointer> > base_learners;
             /// Over sampling method used during training (optional)
-            OverSampling<T> *samp_method;
+            OverSampling<T> *samp_method = nullptr;
 
         public:
             OneVsOne() = default;
-- 
2.43.0


From 69f89b979ef0ece30ce7c23675f05a284d1eef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 079/139] fix: AdaBoost weights each miss once

---
 .../include/ufjfmltk/ensemble/AdaBoostClassifier.hpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
index 257004b..fe1085f 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
@@ -44,7 +44,7 @@ namespace mltk {
                     for(size_t i = 0; i < _size; i++){
                         auto point = (*this->samples)[i];
 
-                        if(point->Y() != learner->evaluate(*point)) errors[i] = weights[i];
+                        if(point->Y() != learner->evaluate(*point)) errors[i] = 1.0;
                     }
                     // compute the estimator error as the weighted average of each point error
                     err[m] = mltk::dot(weights, errors)/weights.sum();
-- 
2.43.0


From 7d7ee6baaa9acec3f14768beece7c0ec43e13316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 080/139] fix: setSeed seeds a bagging classifier

---
 .../include/ufjfmltk/ensemble/BaggingClassifier.hpp       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
index 52ee33f..0f559da 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
@@ -12,7 +12,6 @@ namespace mltk {
         class BaggingClassifier : public Ensemble<T>, public classifier::Classifier<T> {
         private:
             size_t n_estimators = 10;
-            size_t seed = 0;
 
         public:
             BaggingClassifier() = default;
@@ -20,7 +19,8 @@ namespace mltk {
             template<class Estimator>
             explicit BaggingClassifier(const Data<T> &samples, const Estimator &estimator, size_t n_estimators = 10,
                                        size_t seed = 0)
-                    : n_estimators(n_estimators), seed(seed) {
+                    : n_estimators(n_estimators) {
+                this->seed = seed;
                 this->samples = mltk::make_data<T>(samples);
                 this->m_learners.resize(n_estimators);
                 for (size_t i = 0; i < n_estimators; i++) {
@@ -29,11 +29,11 @@ namespace mltk {
             }
 
             bool train() override {
-                seed = (seed == 0) ? std::random_device()() : seed;
+                const size_t seed = (this->seed == 0) ? std::random_device()() : this->seed;
 
                 size_t samp_size = this->samples->size() / n_estimators;
                 for (size_t i = 0; i < n_estimators; i++) {
-                    size_t salt = (seed == 0) ? std::random_device()() : i;
+                    size_t salt = i;
                     this->m_learners[i]->setSeed(seed+salt);
                     this->m_learners[i]->setSamples(this->samples->sampling(samp_size, true, seed+salt));
                     this->m_learners[i]->train();
-- 
2.43.0


From e3c3f113bd6718acf6a859be97629898270e22bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 081/139] fix: bagging gives each learner a sample when there
 are more learners than points

---
 .../include/ufjfmltk/ensemble/BaggingClassifier.hpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
index 0f559da..6b9558d 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
@@ -31,7 +31,7 @@ namespace mltk {
             bool train() override {
                 const size_t seed = (this->seed == 0) ? std::random_device()() : this->seed;
 
-                size_t samp_size = this->samples->size() / n_estimators;
+                size_t samp_size = std::max<size_t>(1, this->samples->size() / n_estimators);
                 for (size_t i = 0; i < n_estimators; i++) {
                     size_t salt = i;
                     this->m_learners[i]->setSeed(seed+salt);
-- 
2.43.0


From dddd9e426b92efb6cf7679abe47a17af1f9b3494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 082/139] fix: the seed of a perceptron committee reaches its
 members

---
 .../include/ufjfmltk/ensemble/PerceptronCommittee.hpp            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
index 5e06db4..1136673 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
@@ -21,6 +21,7 @@ namespace mltk{
                 this->m_learners.resize(n);
                 for (size_t i = 0; i < n; i++) {
                     this->m_learners[i] = std::make_shared<classifier::BalancedPerceptron<T>>();
+                    if (this->seed != 0) this->m_learners[i]->setSeed(this->seed + i);
                     this->m_learners[i]->setSamples(this->samples);
                     this->m_learners[i]->train();
                 }
-- 
2.43.0


From 429fee5a79a5750c851655a2fa5b3fba93cfaea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 083/139] fix: assigning a voting classifier returns and takes
 the voting type

---
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp              | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 4760255..934608d 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -78,6 +78,8 @@ namespace mltk{
                 this->m_learners = voter.m_learners;
                 this->weights = voter.weights;
                 this->samples = voter.samples;
+                this->voting_type = voter.voting_type;
+                return *this;
             }
         };
     }
-- 
2.43.0


From 4a7207a71819575534455e03b456ccc3f8fc02e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 084/139] fix: automatic weighting splits its samples with its
 seed

---
 .../include/ufjfmltk/ensemble/AutoWeightedVoting.hpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
index 7ecb4a4..adfabcb 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
@@ -199,7 +199,7 @@ namespace mltk {
             bool train() override {
                 voter.setLearners(this->m_learners);
                 voter.setVotingType("soft");
-                valid_pair = validation::partTrainTest(*this->samples, 10, this->seed);
+                valid_pair = validation::partTrainTest(*this->samples, 10, true, true, this->seed);
                 voter.setSamples(valid_pair.train);
                 voter.train();
                 generator.seed(this->seed);
-- 
2.43.0


From 37c79d19a97128a7080bb51cd07fa28a5cd144c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 085/139] fix: automatic weighting keeps the better of two
 weightings and stops at full accuracy

---
 .../include/ufjfmltk/ensemble/AutoWeightedVoting.hpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
index adfabcb..22be68a 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
@@ -218,7 +218,7 @@ namespace mltk {
                     for(size_t i = 0; i < population.size(); i++){
                         auto Si = new_sample(Sbest.first, population);
                         double si_cost = objective_function(Si);
-                        if(si_cost <= p_costs[i]){
+                        if(si_cost >= p_costs[i]){
                             new_population.push_back(Si);
                         }else{
                             new_population.push_back(population[i]);
@@ -236,7 +236,7 @@ namespace mltk {
                     }
                    // std::clog << "Best weights: " << Sbest.first << ", Cost: " << Sbest.second << std::endl;
                    //std::cout << Sbest.second <<std::endl;
-                    if(Sbest.second == 1){
+                    if(Sbest.second == 100){
                         break;
                     }
                 }
-- 
2.43.0


From af88948407c7c88a8cacfff2b60c8516c4647710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:52 +0000
Subject: [PATCH 086/139] fix: the simplex projection of voting weights sums to
 one

---
 .../ufjfmltk/ensemble/AutoWeightedVoting.hpp     | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
index 22be68a..89d431e 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
@@ -36,7 +36,7 @@ namespace mltk {
             }
 
             Point<T> simplex_projection(Point<T> const& y) {
-                Point<double> t(y.size(), 0), x(y.size()), u(y.size());
+                Point<double> x(y.size()), u(y.size());
                 double that = 0, tmpsum = 0, tmax = 0;
                 bool bget = false;
                 int i = y.size() - 2, n = y.size();
@@ -44,23 +44,19 @@ namespace mltk {
                 u = y;
                 std::sort(u.X().begin(), u.X().end());
 
-                do{
-                    for (size_t j = i+1; j < n; j++) {
-                        t[i] += u[j] - 1;
-                    }
-                    if (t[i] != 0) t[i] = t[i]/double(n - i);
-                    tmpsum += u[i];
-                    tmax = (tmpsum-1)/double(n-i);
+                while(i >= 0) {
+                    tmpsum += u[i+1];
+                    tmax = (tmpsum-1)/double(n-i-1);
                     if (tmax >= u[i]) {
                         that = tmax;
                         bget = true;
                         break;
                     }
                     i--;
-                }while(i >= 0);
+                }
 
                 if (!bget) {
-                    that = (tmpsum+u[n-1]-1)/n;
+                    that = (tmpsum+u[0]-1)/n;
                 }
                 for(int j = 0; j < x.size(); j++){
                     x[j] = y[j] - that;
-- 
2.43.0


From b6585559c22f723fdccb05982a2b10adbf0385cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:52 +0000
Subject: [PATCH 087/139] fix: kNN reports the share of the winning class as
 its probability

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index 565acb4..ed5d727 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -140,7 +140,7 @@ namespace mltk{
                     }
                 }
 
-                this->pred_prob = (1-max_prob > 1E-7) ? 1: max_prob;
+                this->pred_prob = (1-max_prob > 1E-7) ? max_prob: 1;
 
                 return classes[maxDetails.second];
             }
-- 
2.43.0


From 026bd05275e1220df3600e6db420d0083d861352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 088/139] fix: k-means draws its first centres among its
 samples

---
 .../include/ufjfmltk/clusterer/KMeans.hpp                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index b4f68b7..1e5c865 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -104,7 +104,7 @@ namespace mltk{
 
                     // generate the ids of the centers in the dataset using the random number generator function
                     std::generate(centers_ids.begin(), centers_ids.end(), [&size](){
-                        return mltk::random::intInRange(0, int(size));
+                        return mltk::random::intInRange(0, int(size)-1);
                     });
                     // get the values from the dataset for the centers
                     std::transform(centers_ids.begin(), centers_ids.end(), this->m_centers.begin(),
@@ -113,7 +113,7 @@ namespace mltk{
                                    });
                 } else if (initialization == "kmeanspp") {
                     // choose the first center randomly
-                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size))]->X();
+                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size)-1)]->X();
                     // choose the next cluster in points with a probability directly proportional to the metrics from the
                     // last chosen cluster.
                     for (size_t i = 1; i < this->m_centers.size(); i++) {
@@ -132,7 +132,7 @@ namespace mltk{
                         // use the distances as a probability distribution
                         std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
                         // generate the id for the next cluster
-                        size_t center = mltk::random::intInRange(0, int(size));
+                        size_t center = mltk::random::intInRange(0, int(size)-1);
                         this->m_centers[i] = points[center]->X();
                     }
                 }
-- 
2.43.0


From 864552b194fe9ac0fa6b6bcd687b9e72f06fbbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 089/139] fix: a k-means centre is the mean of its cluster

---
 .../include/ufjfmltk/clusterer/KMeans.hpp          | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 1e5c865..b327ac8 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -76,16 +76,16 @@ namespace mltk{
             void KMeans<T, Callable>::compute_centers(){
                 int i = 0;
                 std::for_each(this->m_clusters.begin(), this->m_clusters.end(), [&](const auto& cluster){
-                    for(const size_t id: cluster){
-                        this->m_centers[i] += *this->samples->point(id);
+                    // a cluster without points keeps its centre
+                    if(cluster.size() > 0) {
+                        this->m_centers[i] = std::vector<T>(this->samples->dim(), 0.0);
+                        for(const size_t id: cluster){
+                            this->m_centers[i] += *this->samples->point(id);
+                        }
+                        this->m_centers[i] /= cluster.size();
                     }
                     i++;
                 });
-                i = 0;
-                std::for_each(this->m_centers.begin(), this->m_centers.end(), [&](auto& center){
-                   center /= this->m_clusters[i].size();
-                   i++;
-                });
             }
 
             template<typename T, typename Callable>
-- 
2.43.0


From b37d278fb74e23a5f45a30515df4dd8074e945c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 090/139] fix: asking k-means for its clusters again does not
 repeat their points

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index b327ac8..c901bcf 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -185,6 +185,9 @@ namespace mltk{
 
             template<typename T, typename Callable>
             std::vector<mltk::Point<size_t>> KMeans<T, Callable>::clusters() {
+                for(auto& cluster: this->m_clusters){
+                    cluster.clear();
+                }
                 assign_clusters(this->samples->points());
                 return this->m_clusters;
             }
-- 
2.43.0


From fde084cf1c2f5f7362be29dd22b05469ca8b8146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 091/139] fix: k-means clusters hold positions of points,
 whatever their ids

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index c901bcf..b8296cf 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -59,6 +59,7 @@ namespace mltk{
             double KMeans<T, Callable>::assign_clusters(const std::vector<mltk::PointPointer<T>>& points) {
                 double sum_d = 0;
                 double cost = 0.0;
+                size_t position = 0;
 
                 std::for_each(points.begin(), points.end(), [&](const std::shared_ptr<Point<T> > q){
                     std::vector<double> distances(this->m_centers.size(), 0.0);
@@ -66,7 +67,7 @@ namespace mltk{
                         return this->dist_function(*q, center);
                     });
                     size_t cluster_id = std::min_element(distances.begin(), distances.end()) - distances.begin();
-                    this->m_clusters[cluster_id].X().push_back(q->Id()-1);
+                    this->m_clusters[cluster_id].X().push_back(position++);
                     cost += distances[cluster_id] * distances[cluster_id];
                 });
                 return cost;
@@ -147,7 +148,7 @@ namespace mltk{
                     old_cost = cost;
                     has_converged = true;
                     // assign each point to the nearest cluster
-                    cost = assign_clusters(points);
+                    cost = assign_clusters(this->samples->points());
                     // update the centers of the clusters
                     compute_centers();
 
-- 
2.43.0


From ac5a8c4f6b0980480ef24ea5f07e3cbef3713e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 092/139] fix: k-means uses the distance it is given

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index b8296cf..89a8c16 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -19,7 +19,7 @@ namespace mltk{
              * \brief Wrapper for the implementation of the K-Means clustering algorithm.
              */
             template<typename T = double, typename Callable = metrics::dist::Euclidean<T> >
-            class KMeans : public Clusterer<T> {
+            class KMeans : public Clusterer<T, Callable> {
             private:
                 /// Algorithm used for the initialization of the K-Means algorithm
                 std::string initialization;
@@ -48,7 +48,7 @@ namespace mltk{
             template<typename T, typename Callable>
             KMeans<T, Callable>::KMeans(const mltk::Data<T>& samples, size_t k, std::string initialization, size_t seed,
                                         int verbose)
-                    : Clusterer<T>(mltk::make_data<T>(samples), k), initialization(std::move(initialization)){
+                    : Clusterer<T, Callable>(mltk::make_data<T>(samples), k), initialization(std::move(initialization)){
                 this->m_centers.assign(this->n_clusters, std::vector<T>(this->samples->dim(), 0.0));
                 this->m_clusters.assign(this->n_clusters, std::vector<size_t>());
                 this->verbose = verbose;
-- 
2.43.0


From 304aa0bf4ca9fdee23c619b4cd940a55686f75a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 093/139] fix: k-means++ draws the next centre with the
 computed probabilities

---
 .../include/ufjfmltk/clusterer/KMeans.hpp                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 89a8c16..27985e6 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -96,7 +96,7 @@ namespace mltk{
                 size_t time = this->start_time + this->max_time;
                 auto points = this->samples->points();
                 bool has_converged = true;
-                mltk::random::init(this->seed);
+                std::mt19937 generator(mltk::random::init(this->seed));
 
                 std::shuffle(points.begin(), points.end(), std::mt19937(this->seed));
 
@@ -128,12 +128,12 @@ namespace mltk{
                                            return d;
                                        });
                         for (double &distance : distances) {
-                            distance /= sum_d;
+                            distance = (sum_d > 0) ? distance / sum_d : 1.0;
                         }
                         // use the distances as a probability distribution
                         std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
                         // generate the id for the next cluster
-                        size_t center = mltk::random::intInRange(0, int(size)-1);
+                        size_t center = (sum_d > 0) ? _dist(generator) : mltk::random::intInRange(0, int(size)-1);
                         this->m_centers[i] = points[center]->X();
                     }
                 }
-- 
2.43.0


From e162bf3d30d5a9f70a2f48389fc81f7e2b77bccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 094/139] fix: SMOTE takes its neighbours from the minority
 class

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index ec274b3..46d4c95 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -179,7 +179,7 @@ namespace mltk{
 
                 // get the k neighbors
                 for(size_t i = 0; (i < k) && (i < distance.size()); i++){
-                    k_neighbors[i] = data[distance[i].first-1];
+                    k_neighbors[i] = Z[distance[i].first-1];
                 }
 
                 // create the artificial points and insert them to the dataset
-- 
2.43.0


From 721e99d98c079191a17caba8a1f6b7525eec20a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 095/139] fix: SMOTE places artificial points between a point
 and its neighbour

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index 46d4c95..52b0d8c 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -189,7 +189,7 @@ namespace mltk{
                     Point< T > s(_z.size(), 0.0, 0);
                     double alpha = distribution(generator);
                     
-                    s = _z + alpha * (_z - _k);
+                    s = _z + alpha * (_k - _z);
                     s.Y() = min_class;
 
                     artificial_data.push_back(mltk::make_point< T >(s));
-- 
2.43.0


From 12bd9fa95dd342503ba3c5c4566584bf5f1ad1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 096/139] fix: borderline SMOTE skips the neighbours that are
 missing

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index 52b0d8c..bad78b7 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -266,7 +266,7 @@ namespace mltk{
                 
                 // set m' as the number of points on the majority class set on m neighbors
                 size_t m_ = std::count_if(M.begin(), M.end(), [&maj_class](auto &p){
-                    return p->Y() == maj_class;
+                    return p && p->Y() == maj_class;
                 });
                 
                 // insert the point to the danger subset if m/2 <= m' < m
-- 
2.43.0


From 3cd00a565275c5f9905969e3c8f31b582541834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:31 +0000
Subject: [PATCH 097/139] fix: the rows of a confusion matrix are the true
 labels

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 08328de..1b0572e 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -599,7 +599,7 @@ namespace mltk::validation {
                 }
                 if (idp && idy) break;
             }
-            confusion_m[idp][idy]++;
+            confusion_m[idy][idp]++;
         }
         return confusion_m;
     }
-- 
2.43.0


From 4d2d6d847fa9c28b72fdc1b49baaab6d02ac91c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:31 +0000
Subject: [PATCH 098/139] fix: the accuracy of a metrics report counts the true
 negatives

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 1b0572e..51d4073 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -569,7 +569,7 @@ namespace mltk::validation {
             }
         }
 
-        report.accuracy = (double)report.tp / data.size();
+        report.accuracy = (double)(report.tp + report.tn) / data.size();
         report.error = 1.0 - report.accuracy;
         report.errors = report.fp+report.fn;
         report.sensitivity = (double)report.tp/(report.tp + report.fn);
-- 
2.43.0


From 9816e586581c625187ff7cd5e70092b712407cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:31 +0000
Subject: [PATCH 099/139] fix: a classification report computes its ratios in
 floating point

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 51d4073..570e98b 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -631,10 +631,10 @@ namespace mltk::validation {
             }
         }
         report.accuracy /= real.size();
-        report.sensitivity = report.tp/(report.tp+report.fn);
-        report.specificity = report.tn/(report.fn+report.tn);
-        report.precision = report.tp/(report.tp+report.fp);
-        report.recall = report.tp/(report.tp+report.fn);
+        report.sensitivity = (double)report.tp/(report.tp+report.fn);
+        report.specificity = (double)report.tn/(report.tn+report.fp);
+        report.precision = (double)report.tp/(report.tp+report.fp);
+        report.recall = report.sensitivity;
         report.fscore = 2*(report.precision*report.recall)/(report.precision + report.recall);
         return report;
     }
-- 
2.43.0


From 98705af8d348a9daa7b65a30f50ba00dc7c2cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:31 +0000
Subject: [PATCH 100/139] fix: a k-fold report counts every fold once and
 averages its ratios

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 570e98b..5285da2 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -320,7 +320,8 @@ namespace mltk::validation {
         ValidationReport solution;
 
         //Start cross-validation
-        for(size_t fp = 0, fn = 0, tp = 0, tn = 0, j = 0; j < fold; ++j){
+        for(size_t j = 0; j < fold; ++j){
+            size_t fp = 0, fn = 0, tp = 0, tn = 0;
             auto _test_sample = folds[j].test;
             auto _train_sample = folds[j].train;
             
@@ -405,6 +406,9 @@ namespace mltk::validation {
                 solution.truePositive += tp;
             }
         }
+        solution.precision /= fold;
+        solution.recall /= fold;
+        solution.tnrate /= fold;
         solution.error = (((double)error)/(double)fold);
         solution.accuracy = 100.0 - solution.error;
         return solution;
-- 
2.43.0


From 1c572da86bfa3ce0df602dbd320a8d8f66d0d8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:40 +0000
Subject: [PATCH 101/139] fix: every fold of a k-fold starts from the
 classifier's initial solution

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 5285da2..d4b8a12 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -318,6 +318,7 @@ namespace mltk::validation {
         sample.shuffle(_seed);
         std::vector<TrainTestPair<T>> folds = kfoldsplit(sample, fold, stratified, true, seed);
         ValidationReport solution;
+        const Solution initial = classifier.getSolution();
 
         //Start cross-validation
         for(size_t j = 0; j < fold; ++j){
@@ -335,6 +336,7 @@ namespace mltk::validation {
             }
 
             // Training phase
+            classifier.setSolution(initial);
             classifier.setSamples(_train_sample);
             Solution s = classifier.getSolution();
             bool isDual = classifier.getFormulationString() == "Dual";
-- 
2.43.0


From a2716d4110ed97f46d3f595af977ffdb2eeaa836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:40 +0000
Subject: [PATCH 102/139] fix: the incremental fixed margin perceptron starts
 from its solution

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp  | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 610a1eb..1cce623 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -373,7 +373,7 @@ namespace mltk{
             this->samples = mltk::make_data<T>(samples);
 
             if (initial_solution) {
-                this->w = initial_solution->w.X();
+                this->solution.w = initial_solution->w;
                 this->solution.bias = initial_solution->bias;
                 this->solution.norm = initial_solution->norm;
             } else {
@@ -397,8 +397,7 @@ namespace mltk{
             std::vector<T> x;
             this->timer.reset();
             
-            if (!this->solution.w.empty())
-                this->w = this->solution.w.X();
+            this->w = this->solution.w.X();
             if (this->w.size() != dim) {
                 this->w.assign(dim, 0.0);
                 norm = bias = 0.0;
-- 
2.43.0


From a1235ce09d50bdef3c9201f1fce4933ba04b399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:12 +0000
Subject: [PATCH 103/139] fix: SMO puts an alpha left at a bound by rounding
 exactly on it

---
 .../include/ufjfmltk/classifier/SMO.hpp                    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index 0d87955..1837987 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -337,13 +337,16 @@ namespace mltk{
 
                 /*calculate new alpha1*/
                 new_alpha1 = alpha1 - s * (new_alpha2 - alpha2);
-                if (new_alpha1 < 0) {
+                /*a clipped step ends on the bound up to rounding: a residue must not count as a support vector*/
+                const double residue = 1e-12 * (alpha1 + alpha2);
+                if (new_alpha1 <= residue) {
                     new_alpha2 += s * new_alpha1;
                     new_alpha1 = 0;
-                } else if (new_alpha1 > this->C) {
+                } else if (new_alpha1 >= this->C - residue) {
                     new_alpha2 += s * (new_alpha1 - this->C);
                     new_alpha1 = this->C;
                 }
+                if (new_alpha2 <= residue) new_alpha2 = 0;
                 /*saving new alphas*/
                 (*this->samples)[i1]->Alpha() = new_alpha1;
                 (*this->samples)[i2]->Alpha() = new_alpha2;
-- 
2.43.0


From 08cb1fae075b982bd1a6a34a6e0d94a65dc5ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:17 +0000
Subject: [PATCH 104/139] fix: dual perceptron norms do not become nan when
 rounding leaves a tiny negative square

---
 .../include/ufjfmltk/classifier/Perceptron.hpp              | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 2ae4030..74bb835 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -453,7 +453,7 @@ namespace mltk{
 
                     //Checking if the point is a mistake
                     if (y * f <= 0.0) {
-                        norm = std::sqrt(norm * norm + tworate * points[idx]->Y() * (func[idx] - bias) + sqrate * (*K)[idx][idx]);
+                        norm = std::sqrt(std::max(0.0, norm * norm + tworate * points[idx]->Y() * (func[idx] - bias) + sqrate * (*K)[idx][idx]));
                         this->alpha[i] += this->rate;
                         bias += this->rate * y;
                         ++this->ctot, ++e;
@@ -537,8 +537,8 @@ namespace mltk{
                             func[r] = lambda * func[r] + this->rate * y * ((*K)[idx][r] + 1) + bias * (1 - lambda);
                         }
 
-                        norm = sqrt(norm * norm + tworate * (*this->samples)[idx]->Y() * lambda * inner +
-                                    sqrate * (*K)[idx][idx]);
+                        norm = sqrt(std::max(0.0, norm * norm + tworate * (*this->samples)[idx]->Y() * lambda * inner +
+                                                  sqrate * (*K)[idx][idx]));
                         (*this->samples)[idx]->Alpha() += this->rate;
 
                         bias += this->rate * y;
-- 
2.43.0


From e22cecd2ec09027ae2094af6d7ae0f5a2183a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:31 +0000
Subject: [PATCH 105/139] fix: dual fixed margin perceptron does not flip its
 weights when the margin step exceeds the norm

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 74bb835..114e516 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -528,7 +528,8 @@ namespace mltk{
                     //Checking if the point is a mistake
 
                     if (y * func[idx] - this->gamma * norm <= 0) {
-                        lambda = (this->gamma && norm != 0) ? (1 - this->rate * this->gamma / norm) : 1;
+                        // a step longer than the norm shrinks the weights to nothing, it does not turn them around
+                        lambda = (this->gamma && norm != 0) ? std::max(0.0, 1 - this->rate * this->gamma / norm) : 1;
                         norm *= lambda;
                         const double inner = func[idx] - bias;
 
-- 
2.43.0


From e479afe8db6db6756c0af9a74357efbf331abe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:31 +0000
Subject: [PATCH 106/139] fix: fixed margin IMA does not flip its weights when
 the margin step exceeds the norm

---
 .../include/ufjfmltk/classifier/IMA.hpp                    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 1cce623..51010b2 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -416,7 +416,9 @@ namespace mltk{
 
                     //Checking if the point is a mistake
                     if (y * func[idx] <= this->gamma * norm - (*this->samples)[idx]->Alpha() * this->flexible) {
-                        lambda = (norm) ? (1 - this->rate * this->gamma / norm) : 1;
+                        // a step longer than the norm shrinks the weights to nothing, it does not turn them around
+                        const double shrink = (norm) ? std::min(1.0, this->rate * this->gamma / norm) : 0;
+                        lambda = 1 - shrink;
                         for (r = 0; r < size; ++r)
                             (*this->samples)[r]->Alpha() *= lambda;
 
@@ -433,8 +435,7 @@ namespace mltk{
                         } else if (this->q == 2.0) //L2
                         {
                             for (sumnorm = 0, j = 0; j < dim; ++j) {
-                                lambda = (norm > 0 && this->w[j] != 0) ? this->w[j] * this->gamma / norm : 0;
-                                this->w[j] += this->rate * (y * x[j] - lambda);
+                                this->w[j] += this->rate * y * x[j] - this->w[j] * shrink;
                                 sumnorm += this->w[j] * this->w[j];
                             }
                             norm = sqrt(sumnorm);
-- 
2.43.0


From 3cc5c9514d633204c34c0e640d06b8605b1b6b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:28 +0000
Subject: [PATCH 107/139] fix: fixed margin perceptron does not flip its
 weights when the margin step exceeds the norm

---
 .../include/ufjfmltk/classifier/Perceptron.hpp             | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 114e516..db11ff4 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -289,7 +289,9 @@ namespace mltk{
 
                     //Checking if the point is a mistake
                     if (y * func[idx] <= this->gamma * norm - this->samples->point(idx)->Alpha() * this->flexible) {
-                        lambda = (norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
+                        // a step longer than the norm shrinks the weights to nothing, it does not turn them around
+                        const double shrink = (norm != 0.0) ? std::min(1.0, this->rate * this->gamma / norm) : 0;
+                        lambda = 1 - shrink;
                         for (r = 0; r < size; ++r) {
                             std::shared_ptr<Point<T> > b = this->samples->point(r);
                             b->Alpha() *= lambda;
@@ -306,8 +308,7 @@ namespace mltk{
                             norm = sumnorm;
                         } else if (this->q == 2.0) { //L2
                             for (sumnorm = 0.0, j = 0; j < dim; ++j) {
-                                lambda = (norm > 0 && w[j] != 0) ? w[j] * this->gamma / norm : 0;
-                                w[j] += this->rate * (y * x[j] - lambda);
+                                w[j] += this->rate * y * x[j] - w[j] * shrink;
                                 sumnorm += w[j] * w[j];
                             }
                             norm = sqrt(sumnorm);
-- 
2.43.0


From c7201574b458d1259ab56af42304c3323d8b5d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:53 +0000
Subject: [PATCH 108/139] fix: a copied dual classifier computes its own kernel
 matrix

---
 .../include/ufjfmltk/classifier/DualClassifier.hpp        | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index cbc17ab..b4a9214 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -24,6 +24,14 @@ namespace mltk{
             /// Object for kernel computations.
             Kernel<T> *kernel = nullptr;
         public:
+            DualClassifier() = default;
+
+            /// A copy does not share the kernel matrix, which belongs to the samples the other is trained on.
+            DualClassifier(const DualClassifier<T> &other): Learner<T>(other), Classifier<T>(other), alpha(other.alpha),
+                                                            kernel_type(other.kernel_type), kernel_param(other.kernel_param) {
+                if (other.kernel) this->kernel = new Kernel<T>((KernelType) other.kernel->getType(), other.kernel->getParam());
+            }
+            DualClassifier<T> &operator=(const DualClassifier<T> &other) = default;
 
             virtual double evaluate(const Point <T> &p, bool raw_value = false) override {
                 double func, bias = this->solution.bias, fk = 0.0, lambda;
-- 
2.43.0


From f730f8b7959c0d7d9001aec89de376252fea87dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:55 +0000
Subject: [PATCH 109/139] fix: AutoWeightedVoting could not be compiled (stray
 #endif, samples handed over by value)

---
 .../include/ufjfmltk/ensemble/AutoWeightedVoting.hpp         | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
index 89d431e..01c4cda 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AutoWeightedVoting.hpp
@@ -196,7 +196,7 @@ namespace mltk {
                 voter.setLearners(this->m_learners);
                 voter.setVotingType("soft");
                 valid_pair = validation::partTrainTest(*this->samples, 10, true, true, this->seed);
-                voter.setSamples(valid_pair.train);
+                voter.setSamples(std::make_shared<Data<T> >(valid_pair.train));
                 voter.train();
                 generator.seed(this->seed);
 
@@ -261,5 +261,4 @@ namespace mltk {
             auto getValidPair(){ return valid_pair; }
         };
     }
-}
-#endif //UFJF_MLTK_AUTOWEIGHTEDVOTING_HPP
\ No newline at end of file
+}
\ No newline at end of file
-- 
2.43.0


From 891634902fc5dd57f7657da1c8ad4f7b82d9aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 110/139] fix: ThreadPool.hpp keeps its original line endings

---
 .../include/ufjfmltk/core/ThreadPool.hpp      | 1100 ++++++++---------
 1 file changed, 550 insertions(+), 550 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
index a3a4d57..fc09425 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ThreadPool.hpp
@@ -1,551 +1,551 @@
-#pragma once
-
-/**
- * @file thread_pool.hpp
- * @author Barak Shoshany (baraksh@gmail.com) (http://baraksh.com)
- * @version 2.0.0
- * @date 2021-08-14
- * @copyright Copyright (c) 2021 Barak Shoshany. Licensed under the MIT license. If you use this library in published research, please cite it as follows:
- *  - Barak Shoshany, "A C++17 Thread Pool for High-Performance Scientific Computing", doi:10.5281/zenodo.4742687, arXiv:2105.00613 (May 2021)
- *
- * @brief A C++17 thread pool for high-performance scientific computing.
- * @details A modern C++17-compatible thread pool implementation, built from scratch with high-performance scientific computing in mind. The thread pool is implemented as a single lightweight and self-contained class, and does not have any dependencies other than the C++17 standard library, thus allowing a great degree of portability. In particular, this implementation does not utilize OpenMP or any other high-level multithreading APIs, and thus gives the programmer precise low-level control over the details of the parallelization, which permits more robust optimizations. The thread pool was extensively tested on both AMD and Intel CPUs with up to 40 cores and 80 threads. Other features include automatic generation of futures and easy parallelization of loops. Two helper classes enable synchronizing printing to an output stream by different threads and measuring execution time for benchmarking purposes. Please visit the GitHub repository at https://github.com/bshoshany/thread-pool for documentation and updates, or to submit feature requests and bug reports.
- */
-
-#define THREAD_POOL_VERSION "v2.0.0 (2021-08-14)"
-
-#include <atomic>      // std::atomic
-#include <chrono>      // std::chrono
-#include <cstdint>     // std::int_fast64_t, std::uint_fast32_t
-#include <functional>  // std::function
-#include <future>      // std::future, std::promise
-#include <iostream>    // std::cout, std::ostream
-#include <memory>      // std::shared_ptr, std::unique_ptr
-#include <mutex>       // std::mutex, std::scoped_lock
-#include <queue>       // std::queue
-#include <thread>      // std::this_thread, std::thread
-#include <type_traits> // std::common_type_t, std::decay_t, std::enable_if_t, std::is_void_v, std::invoke_result_t
-#include <utility>     // std::move
-
-
-namespace mltk {
-// ============================================================================================= //
-//                                    Begin class thread_pool                                    //
-
-/**
- * @brief A C++17 thread pool class. The user submits tasks to be executed into a queue. Whenever a thread becomes available, it pops a task from the queue and executes it. Each task is automatically assigned a future, which can be used to wait for the task to finish executing and/or obtain its eventual return value.
- */
-class ThreadPool
-{
-    typedef std::uint_fast32_t ui32;
-    typedef std::uint_fast64_t ui64;
-
-public:
-    // ============================
-    // Constructors and destructors
-    // ============================
-
-    /**
-     * @brief Construct a new thread pool.
-     *
-     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
-     */
-    ThreadPool(const ui32 &_thread_count = std::thread::hardware_concurrency())
-        : thread_count(_thread_count ? _thread_count : std::thread::hardware_concurrency()), threads(new std::thread[_thread_count ? _thread_count : std::thread::hardware_concurrency()])
-    {
-        create_threads();
-    }
-
-    /**
-     * @brief Destruct the thread pool. Waits for all tasks to complete, then destroys all threads. Note that if the variable paused is set to true, then any tasks still in the queue will never be executed.
-     */
-    ~ThreadPool()
-    {
-        wait_for_tasks();
-        running = false;
-        destroy_threads();
-    }
-
-    // =======================
-    // Public member functions
-    // =======================
-
-    /**
-     * @brief Get the number of tasks currently waiting in the queue to be executed by the threads.
-     *
-     * @return The number of queued tasks.
-     */
-    ui64 get_tasks_queued() const
-    {
-        const std::scoped_lock lock(queue_mutex);
-        return tasks.size();
-    }
-
-    /**
-     * @brief Get the number of tasks currently being executed by the threads.
-     *
-     * @return The number of running tasks.
-     */
-    ui32 get_tasks_running() const
-    {
-        // one consistent view: tasks enter and leave the queue under the same lock
-        const std::scoped_lock lock(queue_mutex);
-        return tasks_total - (ui32)tasks.size();
-    }
-
-    /**
-     * @brief Get the total number of unfinished tasks - either still in the queue, or running in a thread.
-     *
-     * @return The total number of tasks.
-     */
-    ui32 get_tasks_total() const
-    {
-        return tasks_total;
-    }
-
-    /**
-     * @brief Get the number of threads in the pool.
-     *
-     * @return The number of threads.
-     */
-    ui32 get_thread_count() const
-    {
-        return thread_count;
-    }
-
-    /**
-     * @brief Parallelize a loop by splitting it into blocks, submitting each block separately to the thread pool, and waiting for all blocks to finish executing. The user supplies a loop function, which will be called once per block and should iterate over the block's range.
-     *
-     * @tparam T1 The type of the first index in the loop. Should be a signed or unsigned integer.
-     * @tparam T2 The type of the index after the last index in the loop. Should be a signed or unsigned integer. If T1 is not the same as T2, a common type will be automatically inferred.
-     * @tparam F The type of the function to loop through.
-     * @param first_index The first index in the loop.
-     * @param index_after_last The index after the last index in the loop. The loop will iterate from first_index to (index_after_last - 1) inclusive. In other words, it will be equivalent to "for (T i = first_index; i < index_after_last; i++)". Note that if first_index == index_after_last, the function will terminate without doing anything.
-     * @param loop The function to loop through. Will be called once per block. Should take exactly two arguments: the first index in the block and the index after the last index in the block. loop(start, end) should typically involve a loop of the form "for (T i = start; i < end; i++)".
-     * @param num_blocks The maximum number of blocks to split the loop into. The default is to use the number of threads in the pool.
-     */
-    template <typename T1, typename T2, typename F>
-    void parallelize_loop(const T1 &first_index, const T2 &index_after_last, const F &loop, ui32 num_blocks = 0)
-    {
-        typedef std::common_type_t<T1, T2> T;
-        T the_first_index = (T)first_index;
-        T last_index = (T)index_after_last;
-        if (the_first_index == last_index)
-            return;
-        if (last_index < the_first_index)
-        {
-            T temp = last_index;
-            last_index = the_first_index;
-            the_first_index = temp;
-        }
-        last_index--;
-        if (num_blocks == 0)
-            num_blocks = thread_count;
-        ui64 total_size = (ui64)(last_index - the_first_index + 1);
-        ui64 block_size = (ui64)(total_size / num_blocks);
-        if (block_size == 0)
-        {
-            block_size = 1;
-            num_blocks = (ui32)total_size > 1 ? (ui32)total_size : 1;
-        }
-        std::atomic<ui32> blocks_running = 0;
-        for (ui32 t = 0; t < num_blocks; t++)
-        {
-            T start = ((T)(t * block_size) + the_first_index);
-            T end = (t == num_blocks - 1) ? last_index + 1 : ((T)((t + 1) * block_size) + the_first_index);
-            blocks_running++;
-            push_task([start, end, &loop, &blocks_running]
-                      {
-                          loop(start, end);
-                          blocks_running--;
-                      });
-        }
-        while (blocks_running != 0)
-        {
-            sleep_or_yield();
-        }
-    }
-
-    /**
-     * @brief Push a function with no arguments or return value into the task queue.
-     *
-     * @tparam F The type of the function.
-     * @param task The function to push.
-     */
-    template <typename F>
-    void push_task(const F &task)
-    {
-        {
-            const std::scoped_lock lock(queue_mutex);
-            tasks_total++;
-            tasks.push(std::function<void()>(task));
-        }
-    }
-
-    /**
-     * @brief Push a function with arguments, but no return value, into the task queue.
-     * @details The function is wrapped inside a lambda in order to hide the arguments, as the tasks in the queue must be of type std::function<void()>, so they cannot have any arguments or return value. If no arguments are provided, the other overload will be used, in order to avoid the (slight) overhead of using a lambda.
-     *
-     * @tparam F The type of the function.
-     * @tparam A The types of the arguments.
-     * @param task The function to push.
-     * @param args The arguments to pass to the function.
-     */
-    template <typename F, typename... A>
-    void push_task(const F &task, const A &...args)
-    {
-        push_task([task, args...]
-                  { task(args...); });
-    }
-
-    /**
-     * @brief Reset the number of threads in the pool. Waits for all currently running tasks to be completed, then destroys all threads in the pool and creates a new thread pool with the new number of threads. Any tasks that were waiting in the queue before the pool was reset will then be executed by the new threads. If the pool was paused before resetting it, the new pool will be paused as well.
-     *
-     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
-     */
-    void reset(const ui32 &_thread_count = std::thread::hardware_concurrency())
-    {
-        bool was_paused = paused;
-        paused = true;
-        wait_for_tasks();
-        running = false;
-        destroy_threads();
-        thread_count = _thread_count ? _thread_count : std::thread::hardware_concurrency();
-        threads.reset(new std::thread[thread_count]);
-        paused = was_paused;
-        running = true;
-        create_threads();
-    }
-
-    /**
-     * @brief Submit a function with zero or more arguments and no return value into the task queue, and get an std::future<bool> that will be set to true upon completion of the task.
-     *
-     * @tparam F The type of the function.
-     * @tparam A The types of the zero or more arguments to pass to the function.
-     * @param task The function to submit.
-     * @param args The zero or more arguments to pass to the function.
-     * @return A future to be used later to check if the function has finished its execution.
-     */
-    template <typename F, typename... A, typename = std::enable_if_t<std::is_void_v<std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>>>>
-    std::future<bool> submit(const F &task, const A &...args)
-    {
-        std::shared_ptr<std::promise<bool>> task_promise(new std::promise<bool>);
-        std::future<bool> future = task_promise->get_future();
-        push_task([task, args..., task_promise]
-                  {
-                      try
-                      {
-                          task(args...);
-                          task_promise->set_value(true);
-                      }
-                      catch (...)
-                      {
-                          try
-                          {
-                              task_promise->set_exception(std::current_exception());
-                          }
-                          catch (...)
-                          {
-                          }
-                      }
-                  });
-        return future;
-    }
-
-    /**
-     * @brief Submit a function with zero or more arguments and a return value into the task queue, and get a future for its eventual returned value.
-     *
-     * @tparam F The type of the function.
-     * @tparam A The types of the zero or more arguments to pass to the function.
-     * @tparam R The return type of the function.
-     * @param task The function to submit.
-     * @param args The zero or more arguments to pass to the function.
-     * @return A future to be used later to obtain the function's returned value, waiting for it to finish its execution if needed.
-     */
-    template <typename F, typename... A, typename R = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>, typename = std::enable_if_t<!std::is_void_v<R>>>
-    std::future<R> submit(const F &task, const A &...args)
-    {
-        std::shared_ptr<std::promise<R>> task_promise(new std::promise<R>);
-        std::future<R> future = task_promise->get_future();
-        push_task([task, args..., task_promise]
-                  {
-                      try
-                      {
-                          task_promise->set_value(task(args...));
-                      }
-                      catch (...)
-                      {
-                          try
-                          {
-                              task_promise->set_exception(std::current_exception());
-                          }
-                          catch (...)
-                          {
-                          }
-                      }
-                  });
-        return future;
-    }
-
-    /**
-     * @brief Wait for tasks to be completed. Normally, this function waits for all tasks, both those that are currently running in the threads and those that are still waiting in the queue. However, if the variable paused is set to true, this function only waits for the currently running tasks (otherwise it would wait forever). To wait for a specific task, use submit() instead, and call the wait() member function of the generated future.
-     */
-    void wait_for_tasks()
-    {
-        while (true)
-        {
-            if (!paused)
-            {
-                if (tasks_total == 0)
-                    break;
-            }
-            else
-            {
-                if (get_tasks_running() == 0)
-                    break;
-            }
-            sleep_or_yield();
-        }
-    }
-
-    // ===========
-    // Public data
-    // ===========
-
-    /**
-     * @brief An atomic variable indicating to the workers to pause. When set to true, the workers temporarily stop popping new tasks out of the queue, although any tasks already executed will keep running until they are done. Set to false again to resume popping tasks.
-     */
-    std::atomic<bool> paused = false;
-
-    /**
-     * @brief The duration, in microseconds, that the worker function should sleep for when it cannot find any tasks in the queue. If set to 0, then instead of sleeping, the worker function will execute std::this_thread::yield() if there are no tasks in the queue. The default value is 1000.
-     */
-    std::atomic<ui32> sleep_duration = 1000;
-
-private:
-    // ========================
-    // Private member functions
-    // ========================
-
-    /**
-     * @brief Create the threads in the pool and assign a worker to each thread.
-     */
-    void create_threads()
-    {
-        for (ui32 i = 0; i < thread_count; i++)
-        {
-            threads[i] = std::thread(&ThreadPool::worker, this);
-        }
-    }
-
-    /**
-     * @brief Destroy the threads in the pool by joining them.
-     */
-    void destroy_threads()
-    {
-        for (ui32 i = 0; i < thread_count; i++)
-        {
-            threads[i].join();
-        }
-    }
-
-    /**
-     * @brief Try to pop a new task out of the queue.
-     *
-     * @param task A reference to the task. Will be populated with a function if the queue is not empty.
-     * @return true if a task was found, false if the queue is empty.
-     */
-    bool pop_task(std::function<void()> &task)
-    {
-        const std::scoped_lock lock(queue_mutex);
-        if (paused || tasks.empty())
-            return false;
-        else
-        {
-            task = std::move(tasks.front());
-            tasks.pop();
-            return true;
-        }
-    }
-
-    /**
-     * @brief Sleep for sleep_duration microseconds. If that variable is set to zero, yield instead.
-     *
-     */
-    void sleep_or_yield()
-    {
-        const ui32 duration = sleep_duration;
-        if (duration)
-            std::this_thread::sleep_for(std::chrono::microseconds(duration));
-        else
-            std::this_thread::yield();
-    }
-
-    /**
-     * @brief A worker function to be assigned to each thread in the pool. Continuously pops tasks out of the queue and executes them, as long as the atomic variable running is set to true.
-     */
-    void worker()
-    {
-        while (running)
-        {
-            std::function<void()> task;
-            if (!paused && pop_task(task))
-            {
-                task();
-                tasks_total--;
-            }
-            else
-            {
-                sleep_or_yield();
-            }
-        }
-    }
-
-    // ============
-    // Private data
-    // ============
-
-    /**
-     * @brief A mutex to synchronize access to the task queue by different threads.
-     */
-    mutable std::mutex queue_mutex = {};
-
-    /**
-     * @brief An atomic variable indicating to the workers to keep running. When set to false, the workers permanently stop working.
-     */
-    std::atomic<bool> running = true;
-
-    /**
-     * @brief A queue of tasks to be executed by the threads.
-     */
-    std::queue<std::function<void()>> tasks = {};
-
-    /**
-     * @brief The number of threads in the pool.
-     */
-    ui32 thread_count;
-
-    /**
-     * @brief A smart pointer to manage the memory allocated for the threads.
-     */
-    std::unique_ptr<std::thread[]> threads;
-
-    /**
-     * @brief An atomic variable to keep track of the total number of unfinished tasks - either still in the queue, or running in a thread.
-     */
-    std::atomic<ui32> tasks_total = 0;
-};
-
-//                                     End class thread_pool                                     //
-// ============================================================================================= //
-
-// ============================================================================================= //
-//                                   Begin class synced_stream                                   //
-
-/**
- * @brief A helper class to synchronize printing to an output stream by different threads.
- */
-class synced_stream
-{
-public:
-    /**
-     * @brief Construct a new synced stream.
-     *
-     * @param _out_stream The output stream to print to. The default value is std::cout.
-     */
-    synced_stream(std::ostream &_out_stream = std::cout)
-        : out_stream(_out_stream){};
-
-    /**
-     * @brief Print any number of items into the output stream. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
-     *
-     * @tparam T The types of the items
-     * @param items The items to print.
-     */
-    template <typename... T>
-    void print(const T &...items)
-    {
-        const std::scoped_lock lock(stream_mutex);
-        (out_stream << ... << items);
-    }
-
-    /**
-     * @brief Print any number of items into the output stream, followed by a newline character. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
-     *
-     * @tparam T The types of the items
-     * @param items The items to print.
-     */
-    template <typename... T>
-    void println(const T &...items)
-    {
-        print(items..., '\n');
-    }
-
-private:
-    /**
-     * @brief A mutex to synchronize printing.
-     */
-    mutable std::mutex stream_mutex = {};
-
-    /**
-     * @brief The output stream to print to.
-     */
-    std::ostream &out_stream;
-};
-
-//                                    End class synced_stream                                    //
-// ============================================================================================= //
-
-// ============================================================================================= //
-//                                       Begin class timer                                       //
-
-/**
- * @brief A helper class to measure execution time for benchmarking purposes.
- */
-class timer
-{
-    typedef std::int_fast64_t i64;
-
-public:
-    /**
-     * @brief Start (or restart) measuring time.
-     */
-    void start()
-    {
-        start_time = std::chrono::steady_clock::now();
-    }
-
-    /**
-     * @brief Stop measuring time and store the elapsed time since start().
-     */
-    void stop()
-    {
-        elapsed_time = std::chrono::steady_clock::now() - start_time;
-    }
-
-    /**
-     * @brief Get the number of milliseconds that have elapsed between start() and stop().
-     *
-     * @return The number of milliseconds.
-     */
-    i64 ms() const
-    {
-        return (std::chrono::duration_cast<std::chrono::milliseconds>(elapsed_time)).count();
-    }
-
-private:
-    /**
-     * @brief The time point when measuring started.
-     */
-    std::chrono::time_point<std::chrono::steady_clock> start_time = std::chrono::steady_clock::now();
-
-    /**
-     * @brief The duration that has elapsed between start() and stop().
-     */
-    std::chrono::duration<double> elapsed_time = std::chrono::duration<double>::zero();
-};
-
-//                                        End class timer                                        //
-// ============================================================================================= //
-
+#pragma once
+
+/**
+ * @file thread_pool.hpp
+ * @author Barak Shoshany (baraksh@gmail.com) (http://baraksh.com)
+ * @version 2.0.0
+ * @date 2021-08-14
+ * @copyright Copyright (c) 2021 Barak Shoshany. Licensed under the MIT license. If you use this library in published research, please cite it as follows:
+ *  - Barak Shoshany, "A C++17 Thread Pool for High-Performance Scientific Computing", doi:10.5281/zenodo.4742687, arXiv:2105.00613 (May 2021)
+ *
+ * @brief A C++17 thread pool for high-performance scientific computing.
+ * @details A modern C++17-compatible thread pool implementation, built from scratch with high-performance scientific computing in mind. The thread pool is implemented as a single lightweight and self-contained class, and does not have any dependencies other than the C++17 standard library, thus allowing a great degree of portability. In particular, this implementation does not utilize OpenMP or any other high-level multithreading APIs, and thus gives the programmer precise low-level control over the details of the parallelization, which permits more robust optimizations. The thread pool was extensively tested on both AMD and Intel CPUs with up to 40 cores and 80 threads. Other features include automatic generation of futures and easy parallelization of loops. Two helper classes enable synchronizing printing to an output stream by different threads and measuring execution time for benchmarking purposes. Please visit the GitHub repository at https://github.com/bshoshany/thread-pool for documentation and updates, or to submit feature requests and bug reports.
+ */
+
+#define THREAD_POOL_VERSION "v2.0.0 (2021-08-14)"
+
+#include <atomic>      // std::atomic
+#include <chrono>      // std::chrono
+#include <cstdint>     // std::int_fast64_t, std::uint_fast32_t
+#include <functional>  // std::function
+#include <future>      // std::future, std::promise
+#include <iostream>    // std::cout, std::ostream
+#include <memory>      // std::shared_ptr, std::unique_ptr
+#include <mutex>       // std::mutex, std::scoped_lock
+#include <queue>       // std::queue
+#include <thread>      // std::this_thread, std::thread
+#include <type_traits> // std::common_type_t, std::decay_t, std::enable_if_t, std::is_void_v, std::invoke_result_t
+#include <utility>     // std::move
+
+
+namespace mltk {
+// ============================================================================================= //
+//                                    Begin class thread_pool                                    //
+
+/**
+ * @brief A C++17 thread pool class. The user submits tasks to be executed into a queue. Whenever a thread becomes available, it pops a task from the queue and executes it. Each task is automatically assigned a future, which can be used to wait for the task to finish executing and/or obtain its eventual return value.
+ */
+class ThreadPool
+{
+    typedef std::uint_fast32_t ui32;
+    typedef std::uint_fast64_t ui64;
+
+public:
+    // ============================
+    // Constructors and destructors
+    // ============================
+
+    /**
+     * @brief Construct a new thread pool.
+     *
+     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
+     */
+    ThreadPool(const ui32 &_thread_count = std::thread::hardware_concurrency())
+        : thread_count(_thread_count ? _thread_count : std::thread::hardware_concurrency()), threads(new std::thread[_thread_count ? _thread_count : std::thread::hardware_concurrency()])
+    {
+        create_threads();
+    }
+
+    /**
+     * @brief Destruct the thread pool. Waits for all tasks to complete, then destroys all threads. Note that if the variable paused is set to true, then any tasks still in the queue will never be executed.
+     */
+    ~ThreadPool()
+    {
+        wait_for_tasks();
+        running = false;
+        destroy_threads();
+    }
+
+    // =======================
+    // Public member functions
+    // =======================
+
+    /**
+     * @brief Get the number of tasks currently waiting in the queue to be executed by the threads.
+     *
+     * @return The number of queued tasks.
+     */
+    ui64 get_tasks_queued() const
+    {
+        const std::scoped_lock lock(queue_mutex);
+        return tasks.size();
+    }
+
+    /**
+     * @brief Get the number of tasks currently being executed by the threads.
+     *
+     * @return The number of running tasks.
+     */
+    ui32 get_tasks_running() const
+    {
+        // one consistent view: tasks enter and leave the queue under the same lock
+        const std::scoped_lock lock(queue_mutex);
+        return tasks_total - (ui32)tasks.size();
+    }
+
+    /**
+     * @brief Get the total number of unfinished tasks - either still in the queue, or running in a thread.
+     *
+     * @return The total number of tasks.
+     */
+    ui32 get_tasks_total() const
+    {
+        return tasks_total;
+    }
+
+    /**
+     * @brief Get the number of threads in the pool.
+     *
+     * @return The number of threads.
+     */
+    ui32 get_thread_count() const
+    {
+        return thread_count;
+    }
+
+    /**
+     * @brief Parallelize a loop by splitting it into blocks, submitting each block separately to the thread pool, and waiting for all blocks to finish executing. The user supplies a loop function, which will be called once per block and should iterate over the block's range.
+     *
+     * @tparam T1 The type of the first index in the loop. Should be a signed or unsigned integer.
+     * @tparam T2 The type of the index after the last index in the loop. Should be a signed or unsigned integer. If T1 is not the same as T2, a common type will be automatically inferred.
+     * @tparam F The type of the function to loop through.
+     * @param first_index The first index in the loop.
+     * @param index_after_last The index after the last index in the loop. The loop will iterate from first_index to (index_after_last - 1) inclusive. In other words, it will be equivalent to "for (T i = first_index; i < index_after_last; i++)". Note that if first_index == index_after_last, the function will terminate without doing anything.
+     * @param loop The function to loop through. Will be called once per block. Should take exactly two arguments: the first index in the block and the index after the last index in the block. loop(start, end) should typically involve a loop of the form "for (T i = start; i < end; i++)".
+     * @param num_blocks The maximum number of blocks to split the loop into. The default is to use the number of threads in the pool.
+     */
+    template <typename T1, typename T2, typename F>
+    void parallelize_loop(const T1 &first_index, const T2 &index_after_last, const F &loop, ui32 num_blocks = 0)
+    {
+        typedef std::common_type_t<T1, T2> T;
+        T the_first_index = (T)first_index;
+        T last_index = (T)index_after_last;
+        if (the_first_index == last_index)
+            return;
+        if (last_index < the_first_index)
+        {
+            T temp = last_index;
+            last_index = the_first_index;
+            the_first_index = temp;
+        }
+        last_index--;
+        if (num_blocks == 0)
+            num_blocks = thread_count;
+        ui64 total_size = (ui64)(last_index - the_first_index + 1);
+        ui64 block_size = (ui64)(total_size / num_blocks);
+        if (block_size == 0)
+        {
+            block_size = 1;
+            num_blocks = (ui32)total_size > 1 ? (ui32)total_size : 1;
+        }
+        std::atomic<ui32> blocks_running = 0;
+        for (ui32 t = 0; t < num_blocks; t++)
+        {
+            T start = ((T)(t * block_size) + the_first_index);
+            T end = (t == num_blocks - 1) ? last_index + 1 : ((T)((t + 1) * block_size) + the_first_index);
+            blocks_running++;
+            push_task([start, end, &loop, &blocks_running]
+                      {
+                          loop(start, end);
+                          blocks_running--;
+                      });
+        }
+        while (blocks_running != 0)
+        {
+            sleep_or_yield();
+        }
+    }
+
+    /**
+     * @brief Push a function with no arguments or return value into the task queue.
+     *
+     * @tparam F The type of the function.
+     * @param task The function to push.
+     */
+    template <typename F>
+    void push_task(const F &task)
+    {
+        {
+            const std::scoped_lock lock(queue_mutex);
+            tasks_total++;
+            tasks.push(std::function<void()>(task));
+        }
+    }
+
+    /**
+     * @brief Push a function with arguments, but no return value, into the task queue.
+     * @details The function is wrapped inside a lambda in order to hide the arguments, as the tasks in the queue must be of type std::function<void()>, so they cannot have any arguments or return value. If no arguments are provided, the other overload will be used, in order to avoid the (slight) overhead of using a lambda.
+     *
+     * @tparam F The type of the function.
+     * @tparam A The types of the arguments.
+     * @param task The function to push.
+     * @param args The arguments to pass to the function.
+     */
+    template <typename F, typename... A>
+    void push_task(const F &task, const A &...args)
+    {
+        push_task([task, args...]
+                  { task(args...); });
+    }
+
+    /**
+     * @brief Reset the number of threads in the pool. Waits for all currently running tasks to be completed, then destroys all threads in the pool and creates a new thread pool with the new number of threads. Any tasks that were waiting in the queue before the pool was reset will then be executed by the new threads. If the pool was paused before resetting it, the new pool will be paused as well.
+     *
+     * @param _thread_count The number of threads to use. The default value is the total number of hardware threads available, as reported by the implementation. With a hyperthreaded CPU, this will be twice the number of CPU cores. If the argument is zero, the default value will be used instead.
+     */
+    void reset(const ui32 &_thread_count = std::thread::hardware_concurrency())
+    {
+        bool was_paused = paused;
+        paused = true;
+        wait_for_tasks();
+        running = false;
+        destroy_threads();
+        thread_count = _thread_count ? _thread_count : std::thread::hardware_concurrency();
+        threads.reset(new std::thread[thread_count]);
+        paused = was_paused;
+        running = true;
+        create_threads();
+    }
+
+    /**
+     * @brief Submit a function with zero or more arguments and no return value into the task queue, and get an std::future<bool> that will be set to true upon completion of the task.
+     *
+     * @tparam F The type of the function.
+     * @tparam A The types of the zero or more arguments to pass to the function.
+     * @param task The function to submit.
+     * @param args The zero or more arguments to pass to the function.
+     * @return A future to be used later to check if the function has finished its execution.
+     */
+    template <typename F, typename... A, typename = std::enable_if_t<std::is_void_v<std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>>>>
+    std::future<bool> submit(const F &task, const A &...args)
+    {
+        std::shared_ptr<std::promise<bool>> task_promise(new std::promise<bool>);
+        std::future<bool> future = task_promise->get_future();
+        push_task([task, args..., task_promise]
+                  {
+                      try
+                      {
+                          task(args...);
+                          task_promise->set_value(true);
+                      }
+                      catch (...)
+                      {
+                          try
+                          {
+                              task_promise->set_exception(std::current_exception());
+                          }
+                          catch (...)
+                          {
+                          }
+                      }
+                  });
+        return future;
+    }
+
+    /**
+     * @brief Submit a function with zero or more arguments and a return value into the task queue, and get a future for its eventual returned value.
+     *
+     * @tparam F The type of the function.
+     * @tparam A The types of the zero or more arguments to pass to the function.
+     * @tparam R The return type of the function.
+     * @param task The function to submit.
+     * @param args The zero or more arguments to pass to the function.
+     * @return A future to be used later to obtain the function's returned value, waiting for it to finish its execution if needed.
+     */
+    template <typename F, typename... A, typename R = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>, typename = std::enable_if_t<!std::is_void_v<R>>>
+    std::future<R> submit(const F &task, const A &...args)
+    {
+        std::shared_ptr<std::promise<R>> task_promise(new std::promise<R>);
+        std::future<R> future = task_promise->get_future();
+        push_task([task, args..., task_promise]
+                  {
+                      try
+                      {
+                          task_promise->set_value(task(args...));
+                      }
+                      catch (...)
+                      {
+                          try
+                          {
+                              task_promise->set_exception(std::current_exception());
+                          }
+                          catch (...)
+                          {
+                          }
+                      }
+                  });
+        return future;
+    }
+
+    /**
+     * @brief Wait for tasks to be completed. Normally, this function waits for all tasks, both those that are currently running in the threads and those that are still waiting in the queue. However, if the variable paused is set to true, this function only waits for the currently running tasks (otherwise it would wait forever). To wait for a specific task, use submit() instead, and call the wait() member function of the generated future.
+     */
+    void wait_for_tasks()
+    {
+        while (true)
+        {
+            if (!paused)
+            {
+                if (tasks_total == 0)
+                    break;
+            }
+            else
+            {
+                if (get_tasks_running() == 0)
+                    break;
+            }
+            sleep_or_yield();
+        }
+    }
+
+    // ===========
+    // Public data
+    // ===========
+
+    /**
+     * @brief An atomic variable indicating to the workers to pause. When set to true, the workers temporarily stop popping new tasks out of the queue, although any tasks already executed will keep running until they are done. Set to false again to resume popping tasks.
+     */
+    std::atomic<bool> paused = false;
+
+    /**
+     * @brief The duration, in microseconds, that the worker function should sleep for when it cannot find any tasks in the queue. If set to 0, then instead of sleeping, the worker function will execute std::this_thread::yield() if there are no tasks in the queue. The default value is 1000.
+     */
+    std::atomic<ui32> sleep_duration = 1000;
+
+private:
+    // ========================
+    // Private member functions
+    // ========================
+
+    /**
+     * @brief Create the threads in the pool and assign a worker to each thread.
+     */
+    void create_threads()
+    {
+        for (ui32 i = 0; i < thread_count; i++)
+        {
+            threads[i] = std::thread(&ThreadPool::worker, this);
+        }
+    }
+
+    /**
+     * @brief Destroy the threads in the pool by joining them.
+     */
+    void destroy_threads()
+    {
+        for (ui32 i = 0; i < thread_count; i++)
+        {
+            threads[i].join();
+        }
+    }
+
+    /**
+     * @brief Try to pop a new task out of the queue.
+     *
+     * @param task A reference to the task. Will be populated with a function if the queue is not empty.
+     * @return true if a task was found, false if the queue is empty.
+     */
+    bool pop_task(std::function<void()> &task)
+    {
+        const std::scoped_lock lock(queue_mutex);
+        if (paused || tasks.empty())
+            return false;
+        else
+        {
+            task = std::move(tasks.front());
+            tasks.pop();
+            return true;
+        }
+    }
+
+    /**
+     * @brief Sleep for sleep_duration microseconds. If that variable is set to zero, yield instead.
+     *
+     */
+    void sleep_or_yield()
+    {
+        const ui32 duration = sleep_duration;
+        if (duration)
+            std::this_thread::sleep_for(std::chrono::microseconds(duration));
+        else
+            std::this_thread::yield();
+    }
+
+    /**
+     * @brief A worker function to be assigned to each thread in the pool. Continuously pops tasks out of the queue and executes them, as long as the atomic variable running is set to true.
+     */
+    void worker()
+    {
+        while (running)
+        {
+            std::function<void()> task;
+            if (!paused && pop_task(task))
+            {
+                task();
+                tasks_total--;
+            }
+            else
+            {
+                sleep_or_yield();
+            }
+        }
+    }
+
+    // ============
+    // Private data
+    // ============
+
+    /**
+     * @brief A mutex to synchronize access to the task queue by different threads.
+     */
+    mutable std::mutex queue_mutex = {};
+
+    /**
+     * @brief An atomic variable indicating to the workers to keep running. When set to false, the workers permanently stop working.
+     */
+    std::atomic<bool> running = true;
+
+    /**
+     * @brief A queue of tasks to be executed by the threads.
+     */
+    std::queue<std::function<void()>> tasks = {};
+
+    /**
+     * @brief The number of threads in the pool.
+     */
+    ui32 thread_count;
+
+    /**
+     * @brief A smart pointer to manage the memory allocated for the threads.
+     */
+    std::unique_ptr<std::thread[]> threads;
+
+    /**
+     * @brief An atomic variable to keep track of the total number of unfinished tasks - either still in the queue, or running in a thread.
+     */
+    std::atomic<ui32> tasks_total = 0;
+};
+
+//                                     End class thread_pool                                     //
+// ============================================================================================= //
+
+// ============================================================================================= //
+//                                   Begin class synced_stream                                   //
+
+/**
+ * @brief A helper class to synchronize printing to an output stream by different threads.
+ */
+class synced_stream
+{
+public:
+    /**
+     * @brief Construct a new synced stream.
+     *
+     * @param _out_stream The output stream to print to. The default value is std::cout.
+     */
+    synced_stream(std::ostream &_out_stream = std::cout)
+        : out_stream(_out_stream){};
+
+    /**
+     * @brief Print any number of items into the output stream. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
+     *
+     * @tparam T The types of the items
+     * @param items The items to print.
+     */
+    template <typename... T>
+    void print(const T &...items)
+    {
+        const std::scoped_lock lock(stream_mutex);
+        (out_stream << ... << items);
+    }
+
+    /**
+     * @brief Print any number of items into the output stream, followed by a newline character. Ensures that no other threads print to this stream simultaneously, as long as they all exclusively use this synced_stream object to print.
+     *
+     * @tparam T The types of the items
+     * @param items The items to print.
+     */
+    template <typename... T>
+    void println(const T &...items)
+    {
+        print(items..., '\n');
+    }
+
+private:
+    /**
+     * @brief A mutex to synchronize printing.
+     */
+    mutable std::mutex stream_mutex = {};
+
+    /**
+     * @brief The output stream to print to.
+     */
+    std::ostream &out_stream;
+};
+
+//                                    End class synced_stream                                    //
+// ============================================================================================= //
+
+// ============================================================================================= //
+//                                       Begin class timer                                       //
+
+/**
+ * @brief A helper class to measure execution time for benchmarking purposes.
+ */
+class timer
+{
+    typedef std::int_fast64_t i64;
+
+public:
+    /**
+     * @brief Start (or restart) measuring time.
+     */
+    void start()
+    {
+        start_time = std::chrono::steady_clock::now();
+    }
+
+    /**
+     * @brief Stop measuring time and store the elapsed time since start().
+     */
+    void stop()
+    {
+        elapsed_time = std::chrono::steady_clock::now() - start_time;
+    }
+
+    /**
+     * @brief Get the number of milliseconds that have elapsed between start() and stop().
+     *
+     * @return The number of milliseconds.
+     */
+    i64 ms() const
+    {
+        return (std::chrono::duration_cast<std::chrono::milliseconds>(elapsed_time)).count();
+    }
+
+private:
+    /**
+     * @brief The time point when measuring started.
+     */
+    std::chrono::time_point<std::chrono::steady_clock> start_time = std::chrono::steady_clock::now();
+
+    /**
+     * @brief The duration that has elapsed between start() and stop().
+     */
+    std::chrono::duration<double> elapsed_time = std::chrono::duration<double>::zero();
+};
+
+//                                        End class timer                                        //
+// ============================================================================================= //
+
 } // namespace mltk
\ No newline at end of file
-- 
2.43.0


From c8bbad46c4d0bb20057b2cfcae0b7c9286f54630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:51 +0000
Subject: [PATCH 111/139] fix: training k-means again does not start with the
 clusters of the last training

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 27985e6..0771477 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -143,6 +143,9 @@ namespace mltk{
                     std::cout << " steps     updates              cost_function      diff   variance       milli(ms)\n";
                     std::cout << "----------------------------------------------------------------------------------------\n";
                 }
+                for(auto& cluster: this->m_clusters){
+                    cluster.clear();
+                }
                 this->timer.reset();
                 do {
                     old_cost = cost;
-- 
2.43.0


From 9cc4c2c970dfc158ab1813fc523132cf7466c975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:12 +0000
Subject: [PATCH 112/139] fix: borderline SMOTE works on copies of the danger
 points

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index bad78b7..f2a0672 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -272,7 +272,7 @@ namespace mltk{
                 // insert the point to the danger subset if m/2 <= m' < m
                 if(m_ >= (m/2) && m_ < m){
                     danger_ids.insert(_z->Id());
-                    danger_subset.insertPoint(_z);
+                    danger_subset.insertPoint(*_z);
                 }
             }
 
-- 
2.43.0


From 57f224e97cb90d55eaf04920e282ed3cb83f4f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:12 +0000
Subject: [PATCH 113/139] fix: DSM gives features without variance no
 correlation instead of nan

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index f2a0672..e6a53f2 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -55,7 +55,9 @@ namespace mltk{
 
         double qual_correlation(const Data<T>& data, int feat){
             Point<T> x = data.getFeature(feat);
-            return mltk::stats::covar(x, labels)/(mltk::stats::std_dev(x)*mltk::stats::std_dev(labels));
+            double deviations = mltk::stats::std_dev(x)*mltk::stats::std_dev(labels);
+
+            return (deviations > 0) ? mltk::stats::covar(x, labels)/deviations : 0.0;
         }
 
         inline void setAlpha(double _alpha){ this->alpha = _alpha; }
-- 
2.43.0


From 8f162e6819642862979d4caa1c667e3f1d2a3af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:57 +0000
Subject: [PATCH 114/139] fix: DSM never takes a feature twice into one
 subspace

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index e6a53f2..eb8654d 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -65,7 +65,7 @@ namespace mltk{
         std::vector<std::vector<size_t>> operator()(const Data< T > &data){
            for(int i = 0; i < n_dims; i++) {
                for(int j = 0; j < subspaces.size(); j++) {
-                   Point<double> fscore(data.dim(), -1.01);
+                   Point<double> fscore(data.dim(), std::numeric_limits<double>::lowest());
                    for (int c = 0; c < data.dim(); c++) {
                        if (std::find(subspaces[j].begin(), subspaces[j].end(), c) == subspaces[j].end()) {
                            fscore[c] = alpha*qual_correlation(data, c) + (1-alpha)*div_m(j, c);
-- 
2.43.0


From b7ac74d85234e310bfbbe1494cd3701da1a3c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:12 +0000
Subject: [PATCH 115/139] fix: removing and keeping features works when the
 feature names are not in ascending order

---
 .../include/ufjfmltk/core/Data.hpp            | 30 ++++---------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 82854a1..a9dd491 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1344,7 +1344,7 @@ namespace mltk{
 
     template<typename T>
     mltk::Data< T > mltk::Data< T >::insertFeatures(std::vector<int> ins_feat, bool keepIndex){
-        size_t i, j, s, offset = 0, fsize = ins_feat.size();
+        size_t i, j, s, fsize = ins_feat.size();
         bool saveflag = false;
         std::vector<int> new_fnames(fsize, 0);
         std::shared_ptr<Point< T > > p;
@@ -1366,11 +1366,10 @@ namespace mltk{
             p->Y() = m_points[i]->Y();
 
             //Copying features
-            s = 0, offset = 0;
+            s = 0;
             for(j = 0; j < m_dim; j++){
-                if(offset < fsize && fnames[j] == ins_feat[offset]){
+                if(s < fsize && std::binary_search(ins_feat.begin(), ins_feat.end(), fnames[j])){
                     saveflag = true;
-                    offset++;
                 }
 
                 if(saveflag){
@@ -1418,7 +1417,6 @@ namespace mltk{
         size_t i, j, k, psize = m_points.size(), rsize = feats.size();
         typename std::vector< T >::iterator itr;
         std::vector<int>::iterator fitr;
-        std::vector<bool> exist(rsize, true);
 
         if(feats.empty()) return true;
 
@@ -1436,31 +1434,15 @@ namespace mltk{
         feats.erase(std::unique(feats.begin(), feats.end()), feats.end());
         rsize = feats.size();
 
-        //Check the existence of the features to be removed
-        for(i = 0; i < rsize; i++){
-            for(j = 0; j < m_dim; j++){
-                if((feats[i] > -1) && feats[i] == fnames[j]){
-                    break;
-                }
-            }
-            if(j == m_dim){
-                exist[i] = false;
-            }
-        }
-
         //Remove features from each point
         for(i = 0; i < psize; i++){
             if(m_points[i] == nullptr) std::clog << "WARNING: point is null." << std::endl;
 
             // Iterate through the point features
-            for(itr = m_points[i]->X().begin(),k = 0, j = 0; itr != m_points[i]->X().end();){
-                while(k < rsize && !exist[k]) k++; // go to next existent feature
-                if(k == rsize) break;              // Verify if is in the end of the feats vector
-
-                // Feature to remove found, remove it from the point and go to the next feat to remove
-                if(fnames[j] == feats[k]){
+            for(itr = m_points[i]->X().begin(), j = 0; itr != m_points[i]->X().end();){
+                // Feature to remove found, the names of the features may be in any order
+                if(std::binary_search(feats.begin(), feats.end(), fnames[j])){
                     itr = m_points[i]->X().erase(itr);
-                    k++;
                 }else{
                     itr++;
                 }
-- 
2.43.0


From 7dad4f2c9560308e4fdd1e3a0824fc42da83e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:55 +0000
Subject: [PATCH 116/139] fix: Golub and Fisher give constant features the
 lowest score instead of nan

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp  | 2 ++
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
index 753abc8..712f977 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
@@ -92,6 +92,8 @@ namespace mltk{
             /*calc scores*/
             for (i = 0; i < dim; ++i) {
                 scores[i].score = std::pow(avg_pos[i] - avg_neg[i], 2) / (sd_pos[i] + sd_neg[i]);
+                // a constant feature says nothing about the classes, its score can't be nan
+                if(fabs(avg_pos[i] - avg_neg[i]) <= 1e-12 * (fabs(avg_pos[i]) + fabs(avg_neg[i]))) scores[i].score = 0;
                 scores[i].fname = fnames[i];
                 if (this->verbose)
                     std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << std::endl;
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
index 732815d..8ab03cd 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
@@ -83,6 +83,8 @@ namespace mltk{
             /*calc scores*/
             for (i = 0; i < dim; ++i) {
                 scores[i].score = fabs(avg_pos[i] - avg_neg[i]) / (sd_pos[i] + sd_neg[i]);
+                // a constant feature says nothing about the classes, its score can't be nan
+                if(fabs(avg_pos[i] - avg_neg[i]) <= 1e-12 * (fabs(avg_pos[i]) + fabs(avg_neg[i]))) scores[i].score = 0;
                 scores[i].fname = fnames[i];
                 if (this->verbose)
                     std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << std::endl;
-- 
2.43.0


From e12b351b2bcbe730920b6533cfa7468352d8c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:55 +0000
Subject: [PATCH 117/139] fix: Golub does not remove a feature named 0 before
 its turn

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
index 8ab03cd..a46ff59 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
@@ -40,7 +40,7 @@ namespace mltk{
             size_t num_pos = 0, num_neg = 0, svs = 0, dim = this->samples->dim(), size = this->samples->size();
             int partial = 0;
             double margin = 0.0;
-            std::vector<int> remove(dim - number), fnames;
+            std::vector<int> remove(dim - number, -1), fnames;
             std::vector<double> avg_neg(dim), avg_pos(dim), sd_neg(dim), sd_pos(dim), w;
             std::vector<golub_select_score> scores(dim);
             std::shared_ptr<Data<T> > stmp(std::make_shared<Data<T> >()), stmp_partial(std::make_shared<Data<T> >());
-- 
2.43.0


From 29371ba850e03ace42cb936cb22a0d6211b07f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:55 +0000
Subject: [PATCH 118/139] fix: RFE returns the last subset that could be
 trained when a training fails

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index aa05301..0afbc2c 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -145,7 +145,7 @@ namespace mltk{
 
                 stmp_partial.reset();
                 stmp_partial = std::make_shared<Data<T> >();
-                stmp_partial->copy(*this->samples);
+                stmp_partial->copy(*stmp);
 
                 partial_features.clear();
 
-- 
2.43.0


From 48fd69bbd9d921a688ce4609df87cdd7aa6bbb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:55 +0000
Subject: [PATCH 119/139] fix: RFE can be run again after a last jump that was
 cut short

---
 .../include/ufjfmltk/featselect/RFE.hpp           | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index 0afbc2c..8dc997b 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -59,6 +59,7 @@ namespace mltk{
             std::shared_ptr<Data<T> > stmp_partial, stmp(std::make_shared<Data<T> >());
             Solution sol;
             int svcount = 0, level = 0, leveljump = 0, partial_svs = 0;
+            int jump = this->jump;
             int partial = 0; //verifica se última solução é uma solução recuperada (parcial)
             double max_time = this->classifier->getMaxTime(), time_mult = this->samples->getTime_mult();
             double margin = 0, leave_oo = 0, kfolderror = 0, partial_time = 0, partial_margin = 0;
@@ -149,10 +150,10 @@ namespace mltk{
 
                 partial_features.clear();
 
-                int levelminusjump = (level - this->jump);
+                int levelminusjump = (level - jump);
 
                 if (levelminusjump > 0) {
-                    partial_features.resize((size_t) (level - this->jump));
+                    partial_features.resize((size_t) (level - jump));
                 }
 
                 for (i = 0; (i < levelminusjump && levelminusjump > 0); ++i) {
@@ -241,10 +242,10 @@ namespace mltk{
                     break;
                 }
 
-                if (level + this->jump > this->depth)
+                if (level + jump > this->depth)
                     leveljump = this->depth;
                 else
-                    leveljump = level + this->jump;
+                    leveljump = level + jump;
 
                 /*manutencao do w do pai para o IMA Primal*/
                 if (this->classifier->getFormulationString() == "Primal") {
@@ -279,11 +280,11 @@ namespace mltk{
                 weight.clear();
 
                 /*increment*/
-                if (level + this->jump > this->depth) {
+                if (level + jump > this->depth) {
                     level = this->depth;
-                    this->jump = 0;
+                    jump = 0;
                 } else {
-                    level += this->jump;
+                    level += jump;
 
                 }
                 /*get temp data struct*/
-- 
2.43.0


From cd3ab747a8467ba95d58aaff40f922dd0a255727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:17 +0000
Subject: [PATCH 120/139] fix: AOS never branches on more features than there
 are

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 9274dd6..c67644d 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -739,7 +739,7 @@ namespace mltk{
             }
 
             // branching nodes
-            for(i = 0; i < breadth; i++){
+            for(i = 0; i < breadth && i < dim; i++){
                 if(kernel_type == INNER_PRODUCT){
                     // projected margin computation on IMA primal
                     if(dim > 1){
-- 
2.43.0


From e322b0c18b4557a12fc06800deb195af82c3facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:17 +0000
Subject: [PATCH 121/139] fix: AOS nodes are owned by the hash, which outlives
 their stay in the heap

---
 .../include/ufjfmltk/featselect/AOS.hpp               | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index c67644d..a94d21c 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -1222,6 +1222,8 @@ namespace mltk{
             size_t i = 0;
 
             for (i = 0; i < this->length; i++) {
+                for (size_t j = 0; j < this->width && this->elements[i][j] != nullptr; j++)
+                    delete this->elements[i][j];
                 delete[] this->elements[i];
             }
 
@@ -1436,9 +1438,7 @@ namespace mltk{
                 curr = this->elements[i];
                 if (curr->level < levelat)
                     if (curr->value < (1 - NUM_ERROR_EPS) * g_margin || levelat - curr->level >= cut) {
-                        /*errase it from hash*/
-                        if(curr) delete curr;
-                        curr = nullptr;
+                        /*the node is still known to the hash, which owns it*/
                         /*percolate heap*/
                         this->size--;
                         this->percolate(i);
@@ -1456,11 +1456,6 @@ namespace mltk{
 
         template<typename T>
         AOS<T>::Heap::~Heap() {
-            size_t i = 0;
-            for (i = 1; i <= this->size; ++i) {
-                if(this->elements[i])delete this->elements[i];
-                this->elements[i] = nullptr;
-            }
             delete[] this->elements;
             this->elements = nullptr;
         }
-- 
2.43.0


From bcd2a92ec26756406eac09d321895948a2634c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:24 +0000
Subject: [PATCH 122/139] fix: AOS stops when the initial training fails
 instead of reading the missing weights

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index a94d21c..aef1901 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -457,6 +457,7 @@ namespace mltk{
             if (this->heap->getSize() == 0) {
                 if(!this->classifier->train()){
                     std::cerr << "Training failed!" << std::endl;
+                    return;
                 }
                 auto solution = this->classifier->getSolution();
                 w = solution.w.X();
-- 
2.43.0


From 3a6a5be7958c505892060f5686e4c96e5caa2b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:51 +0000
Subject: [PATCH 123/139] fix: AOS branches on the features that matter least,
 not most

---
 .../include/ufjfmltk/featselect/AOS.hpp       | 43 ++++++-------------
 1 file changed, 13 insertions(+), 30 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index aef1901..963645a 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -699,37 +699,20 @@ namespace mltk{
                 }
             }
 
-            // sorting shape
-            if(sorting_shape == 6){ // w* fisher
-                std::sort(weight.begin(), weight.end(), [](const auto& a, const auto& b){
-                    return (((std::fabs(a.w * a.fisher) > std::fabs(b.w * b.fisher)) -
-                             (std::fabs(a.w * a.fisher) < std::fabs(b.w * b.fisher)))<=0)?false:true;
-                });
-            }else if(sorting_shape == 5){ // w * golub
-                std::sort(weight.begin(), weight.end(), [](const auto& a, const auto& b){
-                    return (((std::fabs(a.w * a.golub) > std::fabs(b.w * b.golub)) -
-                             (std::fabs(a.w * a.golub) < std::fabs(b.w * b.golub))) <= 0)?false:true;
-                });
-            }else if(sorting_shape == 4){  // w * radius
-                std::sort(weight.begin(), weight.end(), [](const auto& a, const auto& b){
-                    return (((std::fabs(a.w * a.radius) > std::fabs(b.w * b.radius)) -
-                             (std::fabs(a.w * a.radius) < std::fabs(b.w * b.radius))) <= 0)?false:true;
-                });
-            }else if(sorting_shape == 3){ // w * radius / distcenter
-                std::sort(weight.begin(), weight.end(), [](const auto& a, const auto& b){
-                    return ((std::fabs((a.w * a.radius)/a.dcents) > std::fabs((b.w * b.radius)/b.dcents)) -
-                            (std::fabs((a.w * a.radius)/a.dcents) < std::fabs((b.w * b.radius)/b.dcents))<=0)?false:true;
-                });
-            }else if(sorting_shape == 2){ // w / distcenter
-                std::sort(weight.begin(), weight.end(), [](const auto& a, const auto& b){
-                    return ((std::fabs(a.w / a.dcents) > std::fabs(b.w / b.dcents)) -
-                            (std::fabs(a.w / a.dcents) < std::fabs(b.w / b.dcents)) <= 0)?false:true;
-                });
-            }else{
-                std::sort(weight.begin(), weight.end(), [](const auto& a, const auto& b){
-                    return (((std::fabs(a.w)>std::fabs(b.w)) - (std::fabs(a.w)<std::fabs(b.w))) <= 0)?false:true;
-                });
+            // sorting shape: the features that matter least come first
+            for(auto& feature: weight){
+                switch(sorting_shape){
+                    case 6: feature.val = std::fabs(feature.w * feature.fisher); break;
+                    case 5: feature.val = std::fabs(feature.w * feature.golub); break;
+                    case 4: feature.val = std::fabs(feature.w * feature.radius); break;
+                    case 3: feature.val = std::fabs((feature.w * feature.radius)/feature.dcents); break;
+                    case 2: feature.val = std::fabs(feature.w / feature.dcents); break;
+                    default: feature.val = std::fabs(feature.w);
+                }
+                // a weightless feature has no criterion that can be nan
+                if(std::isnan(feature.val)) feature.val = 0;
             }
+            std::sort(weight.begin(), weight.end(), [](const auto& a, const auto& b){ return a.val < b.val; });
 
             if(kernel_type == INNER_PRODUCT){
                 wnorm = mltk::norm(mltk::Point<double>(w), q);
-- 
2.43.0


From 56f68092edb5c4f5c0993b894ec6f1f7cc40acd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:51 +0000
Subject: [PATCH 124/139] fix: the Golub score of AOS compares the two classes

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 963645a..d47abe5 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -693,8 +693,8 @@ namespace mltk{
                 }
 
                 for(i = 0; i < dim; i++){
-                    weight[i].golub = std::fabs(avg_pos[i] - avg_pos[i])/(std::sqrt(sd_pos[i]/num_pos-1)) +
-                                      std::sqrt(sd_neg[i]/num_neg-1);
+                    weight[i].golub = std::fabs(avg_pos[i] - avg_neg[i])/(std::sqrt(sd_pos[i]/(num_pos-1)) +
+                                      std::sqrt(sd_neg[i]/(num_neg-1)));
                     weight[i].fisher = std::pow(avg_pos[i] - avg_neg[i], 2)/(sd_pos[i] + sd_neg[i]);
                 }
             }
-- 
2.43.0


From 04dea4df1aa66be00a2cbc9806a58398a8c57460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:51 +0000
Subject: [PATCH 125/139] fix: the projected margin of AOS leaves out the
 weight of the removed feature

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index d47abe5..60b798e 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -729,7 +729,7 @@ namespace mltk{
                     if(dim > 1){
                         for(sumnorm = 0, j = 0; j < dim; j++){
                             if(i != j){
-                                sumnorm += std::pow(std::fabs(weight[i].w/wnorm)*margin, q);
+                                sumnorm += std::pow(std::fabs(weight[j].w/wnorm)*margin, q);
                             }
                         }
                         tpmargin = std::pow(sumnorm, 1.0/q);
-- 
2.43.0


From 2f8349b366a9097af69f59d1fbab1e405590bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:51 +0000
Subject: [PATCH 126/139] fix: AOS keeps the weights of the remaining features
 for a new node

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 60b798e..1eb3444 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -772,9 +772,9 @@ namespace mltk{
 
                 // father node W maintenance
                 if(kernel_type == INNER_PRODUCT){
-                    gtmp->w.resize(dim);
+                    gtmp->w.resize(dim-1);
 
-                    for(k = 0, j = 0; k < dim; k++){
+                    for(k = 0, j = 0; j < dim; j++){
                         if(sample.getFeaturesNames()[j] != weight[i].fname){
                             gtmp->w[k++] = w[j];
                         }
-- 
2.43.0


From 3920751144e3493383948f2f34a242b9edc17a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:15 +0000
Subject: [PATCH 127/139] fix: the look-ahead of AOS trains on the features it
 has left

---
 .../include/ufjfmltk/featselect/AOS.hpp       | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
index 1eb3444..597b0b4 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/AOS.hpp
@@ -842,7 +842,6 @@ namespace mltk{
             bool isPrimal = this->classifier->getFormulationString() == "Primal";
             std::vector<int> features((unsigned int) look_ahead_depth + 1, 0);
             double min = 0;
-            double margin = 0;
             double g_margin = 0;
             std::vector<double> w = w_orig;
             std::vector<double> novo_w;
@@ -880,15 +879,13 @@ namespace mltk{
                         }
                 }
 
-                /*manutencao do w do pai para o IMA Primal*/
-                if (isPrimal) {
-                    size_t dim = sample.dim() - 1;
-                    std::vector<int> fnames = sample.getFeaturesNames();
-                    novo_w.reserve(dim - 1);
-                    for (i = 0, j = 0; j < dim; ++j)
-                        if (fnames[j] != feat)
-                            novo_w.push_back(w[j]);
-                }
+                /*manutencao do w do pai*/
+                std::vector<int> fnames = stmp->getFeaturesNames();
+                novo_w.clear();
+                for (j = 0; j < fnames.size(); ++j)
+                    if (fnames[j] != feat)
+                        novo_w.push_back(w[j]);
+                w = novo_w;
 
                 /*saving removed feature name*/
                 features[count] = feat;
@@ -953,6 +950,7 @@ namespace mltk{
                     solution.bias = gtmp->bias;
                     solution.w = novo_w;
                     this->classifier->setSolution(solution);
+                    this->classifier->setSamples(stmp);
                     if (!this->classifier->train()) {
                         if (this->verbose) std::cout << "Training failed!\n";
                         break;
@@ -969,10 +967,7 @@ namespace mltk{
                         gtmp->value = this->classifier->getSolutionRef()->margin;
                     g_margin = gtmp->value;
                     this->heap->insert(gtmp, 1);
-                }
-                if (isPrimal) {
-                    w.resize(stmp->dim());
-                    w = this->classifier->getSolutionRef()->w.X();
+                    w = gtmp->w;
                 }
 
                 /*increment*/
-- 
2.43.0


From 618e513b16ab804d333973b94c053da3cfbadd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:59 +0000
Subject: [PATCH 128/139] fix: sampling with replacement gives every draw a
 point of its own

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index a9dd491..daf2c43 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2097,7 +2097,7 @@ namespace mltk{
                     }
                     ids.insert(idx);
                 }
-                sample.insertPoint(classes_split[i][idx]);
+                sample.insertPoint(*classes_split[i][idx]);
             }
         }
 
-- 
2.43.0


From 5be265f8c554cd7560d135432cde556dbb3b6e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:54 +0000
Subject: [PATCH 129/139] fix: normalizing does not give the new feature the
 name of another one

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index daf2c43..0c17c14 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1694,7 +1694,7 @@ namespace mltk{
             }
         }
         m_dim = old_dim + 1;
-        fnames.push_back(this->dim());
+        fnames.push_back(fnames.empty() ? 1 : *std::max_element(fnames.begin(), fnames.end()) + 1);
 
         normalized = true;
     }
-- 
2.43.0


From 6299f6073e36a241ce056b4aa5839193932a317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:49 +0000
Subject: [PATCH 130/139] fix: plots find the class of a series when its name
 has dots or underscores

---
 .../include/ufjfmltk/visual/Visualization.hpp | 32 ++++++-------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index aa66447..cefc1d5 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -937,33 +937,21 @@ namespace mltk::visualize{
         Point<int> classes = samples->classes();
         auto class_names = samples->classesNames();
         std::vector<std::string> names(files.size());
-        std::transform(files.begin(), files.end(), names.begin(), [type](std::string& path){
-            if(type == "decision") {
-                auto res = mltk::utils::tokenize(mltk::utils::tokenize(path, '_')[0], '/');
-                return mltk::utils::tokenize(mltk::utils::tokenize(path, '_')[0], '/')[1];
-            }else{
-                return mltk::utils::tokenize(mltk::utils::tokenize(path, '.')[0], '/')[1];
-            }
-        });
+        // the class name is the file name without the suffix it was given
+        auto class_of = [&type](const std::string& path){
+            auto fname = fs::path(path).filename().string();
+            return fname.substr(0, (type == "decision")?fname.rfind("_data"):fname.rfind('.'));
+        };
+        std::transform(files.begin(), files.end(), names.begin(), class_of);
         std::sort(names.begin(), names.end(),[&class_names, &classes](const auto& a, const auto& b){
             auto aclass_pos = std::find(class_names.begin(), class_names.end(), a) - class_names.begin();
             auto bclass_pos = std::find(class_names.begin(), class_names.end(), b) - class_names.begin();
             return classes[aclass_pos] < classes[bclass_pos];
         });
-        std::sort(files.begin(), files.end(), [&class_names, &classes, &type](const auto& a, const auto& b){
-            if(type == "decision") {
-                auto aclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(a, '_')[0], '/')[1]) - class_names.begin();
-                auto bclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(b, '_')[0], '/')[1]) - class_names.begin();
-                return classes[aclass_pos] < classes[bclass_pos];
-            }else{
-                auto aclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(a, '.')[0], '/')[1]) - class_names.begin();
-                auto bclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(b, '.')[0], '/')[1]) - class_names.begin();
-                return classes[aclass_pos] < classes[bclass_pos];
-            }
+        std::sort(files.begin(), files.end(), [&class_names, &classes, &class_of](const auto& a, const auto& b){
+            auto aclass_pos = std::find(class_names.begin(), class_names.end(), class_of(a)) - class_names.begin();
+            auto bclass_pos = std::find(class_names.begin(), class_names.end(), class_of(b)) - class_names.begin();
+            return classes[aclass_pos] < classes[bclass_pos];
         });
         return names;
     }
-- 
2.43.0


From fa2276e06beee8d93efddcb3c5307125984defe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:49 +0000
Subject: [PATCH 131/139] fix: plotting a regression over one feature shows the
 target, not the second feature

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index cefc1d5..2bc62f0 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -545,7 +545,7 @@ namespace mltk::visualize{
     std::string
     Visualization<T>::plot1DRegresion(int x, bool save, double scale, const std::string &title, const std::string &format,
                                       const std::string &x_label, const std::string &y_label) {
-        std::string dims = utils::itos(x+1) + ":" + utils::itos(2);
+        std::string dims = utils::itos(x+1) + ":" + utils::itos(this->samples->dim()+1);
         std::string cmd("plot ");
         std::vector<std::string> temp_files_names;
         size_t i;
-- 
2.43.0


From 39799434f80655fe90f7008d6ff4de08a2562f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:49 +0000
Subject: [PATCH 132/139] fix: a visualization with no sample has no folder to
 list

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 2bc62f0..841215d 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -40,7 +40,7 @@ namespace mltk::visualize{
         // Attributes
     private :
         /// Sample to be visualized.
-        Data< T > *samples;
+        Data< T > *samples{nullptr};
         std::map<std::string, std::string> configs;
         Gnuplot *g{nullptr};
         std::string plot_folder;
@@ -475,6 +475,7 @@ namespace mltk::visualize{
             }
         }else{
             std::cout << "Folder not found!" << std::endl;
+            return files;
         }
 
         closedir(dpdf);
-- 
2.43.0


From 10b1ecb843eeb8088487b76505091b909ee9a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:49 +0000
Subject: [PATCH 133/139] fix: kept plot files go to a folder with no colons in
 its name

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 841215d..37b3c2a 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -505,7 +505,7 @@ namespace mltk::visualize{
         if(keep_temp_files) {
             auto fname = this->plot_folder;
             auto timestamp = mltk::utils::timestamp();
-            timestamp.erase(std::remove(timestamp.begin(), timestamp.end(), ':'));
+            timestamp.erase(std::remove(timestamp.begin(), timestamp.end(), ':'), timestamp.end());
             fname.erase(std::remove(fname.begin(), fname.end(), '/'), fname.end());
             try {
                 fs::rename(fname, fname + "_saved_" + timestamp);
-- 
2.43.0


From 9fda9a527b2745523b78b2a134bde95092ecd88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:39 +0000
Subject: [PATCH 134/139] fix: the drawn range holds every point

---
 .../include/ufjfmltk/visual/Visualization.hpp | 48 +++++++++++--------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 37b3c2a..0b0af6f 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -1046,27 +1046,30 @@ namespace mltk::visualize{
         AxisRanges axis_ranges;
         if(x > -1) {
             auto _x = this->samples->getFeature(x);
-            double x_min = mltk::min(_x), x_max = scale*mltk::max(_x);
+            double x_min = mltk::min(_x), x_max = mltk::max(_x);
             x_min += (x_min > 0)?(1.0-scale)*x_min:-(1.0-scale)*x_min;
-            axis_ranges[0].min = std::round(x_min);
-            axis_ranges[0].max = std::round(x_max);
-            configs["xrange"] = "[" + std::to_string(axis_ranges[0].min) + ":" + std::to_string(axis_ranges[0].max) + "]";
+            x_max += (x_max > 0)?(scale-1.0)*x_max:(1.0-scale)*x_max;
+            axis_ranges[0].min = std::floor(x_min);
+            axis_ranges[0].max = std::ceil(x_max);
+            if(axis_ranges[0].min != axis_ranges[0].max) configs["xrange"] = "[" + std::to_string(axis_ranges[0].min) + ":" + std::to_string(axis_ranges[0].max) + "]";
         }
         if(y > -1) {
             auto _y = this->samples->getFeature(y);
-            double y_min = mltk::min(_y), y_max = scale*mltk::max(_y);
+            double y_min = mltk::min(_y), y_max = mltk::max(_y);
             y_min += (y_min > 0)?(1.0-scale)*y_min:-(1.0-scale)*y_min;
-            axis_ranges[1].min = std::round(y_min);
-            axis_ranges[1].max = std::round(y_max);
-            configs["yrange"] = "[" + std::to_string(axis_ranges[1].min) + ":" + std::to_string(axis_ranges[1].max) + "]";
+            y_max += (y_max > 0)?(scale-1.0)*y_max:(1.0-scale)*y_max;
+            axis_ranges[1].min = std::floor(y_min);
+            axis_ranges[1].max = std::ceil(y_max);
+            if(axis_ranges[1].min != axis_ranges[1].max) configs["yrange"] = "[" + std::to_string(axis_ranges[1].min) + ":" + std::to_string(axis_ranges[1].max) + "]";
         }
         if(z > -1) {
             auto _z = this->samples->getFeature(z);
-            double z_min = mltk::min(_z), z_max = scale*mltk::max(_z);
+            double z_min = mltk::min(_z), z_max = mltk::max(_z);
             z_min += (z_min > 0)?(1.0-scale)*z_min:-(1.0-scale)*z_min;
-            axis_ranges[2].min = std::round(z_min);
-            axis_ranges[2].max = std::round(z_max);
-            configs["zrange"] = "[" + std::to_string(axis_ranges[2].min) + ":" + std::to_string(axis_ranges[2].max) + "]";
+            z_max += (z_max > 0)?(scale-1.0)*z_max:(1.0-scale)*z_max;
+            axis_ranges[2].min = std::floor(z_min);
+            axis_ranges[2].max = std::ceil(z_max);
+            if(axis_ranges[2].min != axis_ranges[2].max) configs["zrange"] = "[" + std::to_string(axis_ranges[2].min) + ":" + std::to_string(axis_ranges[2].max) + "]";
         }
         return axis_ranges;
     }
@@ -1077,26 +1080,29 @@ namespace mltk::visualize{
                                                                             AxisRanges axis_ranges;
         if(x.size() > 0) {
             auto _x = x;
-            double x_min = mltk::min(_x), x_max = scale*mltk::max(_x);
+            double x_min = mltk::min(_x), x_max = mltk::max(_x);
             x_min += (x_min > 0)?(1.0-scale)*x_min:-(1.0-scale)*x_min;
-            axis_ranges[0].min = std::round(x_min);
-            axis_ranges[0].max = std::round(x_max);
+            x_max += (x_max > 0)?(scale-1.0)*x_max:(1.0-scale)*x_max;
+            axis_ranges[0].min = std::floor(x_min);
+            axis_ranges[0].max = std::ceil(x_max);
             if(axis_ranges[0].min != axis_ranges[0].max) configs["xrange"] = "[" + std::to_string(axis_ranges[0].min) + ":" + std::to_string(axis_ranges[0].max) + "]";
         }
         if(y.size() > 0) {
             auto _y = y;
-            double y_min = mltk::min(_y), y_max = scale*mltk::max(_y);
+            double y_min = mltk::min(_y), y_max = mltk::max(_y);
             y_min += (y_min > 0)?(1.0-scale)*y_min:-(1.0-scale)*y_min;
-            axis_ranges[1].min = std::round(y_min);
-            axis_ranges[1].max = std::round(y_max);
+            y_max += (y_max > 0)?(scale-1.0)*y_max:(1.0-scale)*y_max;
+            axis_ranges[1].min = std::floor(y_min);
+            axis_ranges[1].max = std::ceil(y_max);
             if(axis_ranges[1].min != axis_ranges[1].max) configs["yrange"] = "[" + std::to_string(axis_ranges[1].min) + ":" + std::to_string(axis_ranges[1].max) + "]";
         }
         if(z.size() > 0) {
             auto _z = z;
-            double z_min = mltk::min(_z), z_max = scale*mltk::max(_z);
+            double z_min = mltk::min(_z), z_max = mltk::max(_z);
             z_min += (z_min > 0)?(1.0-scale)*z_min:-(1.0-scale)*z_min;
-            axis_ranges[2].min = std::round(z_min);
-            axis_ranges[2].max = std::round(z_max);
+            z_max += (z_max > 0)?(scale-1.0)*z_max:(1.0-scale)*z_max;
+            axis_ranges[2].min = std::floor(z_min);
+            axis_ranges[2].max = std::ceil(z_max);
             if(axis_ranges[2].min != axis_ranges[2].max) configs["zrange"] = "[" + std::to_string(axis_ranges[2].min) + ":" + std::to_string(axis_ranges[2].max) + "]";
         }
         return axis_ranges;
-- 
2.43.0


From 0f24b8ead3701f833e2e5cad1f39fc5cffa98207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:39 +0000
Subject: [PATCH 135/139] fix: a visualization removes only the folder it
 created

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 0b0af6f..32a6188 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -347,11 +347,9 @@ namespace mltk::visualize{
     void Visualization<T>::create_plotfolder() {
         do{
             this->plot_folder = PLOT_FOLDER+std::to_string(n_plots)+"/";
-            if(std::find(plot_folders.begin(), plot_folders.end(), this->plot_folder) == plot_folders.end()) {
-                plot_folders.push_back(this->plot_folder);
-            }
             n_plots++;
         }while(fs::exists(this->plot_folder));
+        plot_folders.push_back(this->plot_folder);
         try {
             fs::create_directory(this->plot_folder);
         }
-- 
2.43.0


From d313ea3102d651cc743658a848711a44006158b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:51 +0000
Subject: [PATCH 136/139] fix: the decision surface is over the two columns
 plotted, in their order

---
 .../include/ufjfmltk/visual/Visualization.hpp      | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 32a6188..b233995 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -853,7 +853,19 @@ namespace mltk::visualize{
         mltk::Point xx = mltk::linspace(axis_ranges[0].min, axis_ranges[0].max, grid_dim);
         mltk::Point yy = mltk::linspace(axis_ranges[1].min, axis_ranges[1].max, grid_dim);
         mltk::Data grid(grid_dim, grid_dim,0);
-        auto data_copy = this->samples->selectFeatures({size_t(x+1), size_t(y+1)});
+        // the two columns plotted, with x first
+        Data<T> data_copy;
+        data_copy.setName(this->samples->name());
+        for(int i = 0; i < this->samples->size(); i++){
+            auto point = this->samples->point(i);
+            auto new_point = mltk::make_point<T>(2);
+            (*new_point)[0] = (*point)[x];
+            (*new_point)[1] = (*point)[y];
+            new_point->Y() = point->Y();
+            new_point->Alpha() = point->Alpha();
+            new_point->Id() = point->Id();
+            data_copy.insertPoint(new_point, true);
+        }
         auto timestamp = mltk::utils::timestamp();
         timestamp.erase(std::remove(timestamp.begin(), timestamp.end(), ':'), timestamp.end());
 
-- 
2.43.0


From af51ac906ef9dcde4a35eea4f966b8e9222d766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:21 +0000
Subject: [PATCH 137/139] fix: the points of a dual perceptron carry its
 alphas, from which the feature weights are computed

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index db11ff4..7763054 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -475,6 +475,7 @@ namespace mltk{
             this->solution.w = std::vector<double>(dim, 0.0);
 
             for (i = 0; i < size; i++) {
+                points[i]->Alpha() = this->alpha[i];
                 for (j = 0; j < dim; j++) {
                     this->solution.w[j] += this->alpha[i] * points[i]->Y() * points[i]->X()[j];
                 }
-- 
2.43.0


From 1ecd29afb4c4a2dffbfffdcb7f19d58b4e58fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:27 +0000
Subject: [PATCH 138/139] fix: selecting features skips the names that are not
 features instead of shifting the columns

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 0c17c14..43ee46a 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2126,7 +2126,7 @@ namespace mltk{
         for(auto const& point: this->m_points){
             auto new_point = make_point<T>(_size-invalid);
             for(i = 0; i < (_size-invalid); i++){
-                (*new_point)[i] = (*point)[feats_pos[i]];
+                (*new_point)[i] = (*point)[feats_pos[invalid+i]];
                 (*new_point).Y() = (*point).Y();
                 (*new_point).Id() = (*point).Id();
                 (*new_point).Alpha() = (*point).Alpha();
-- 
2.43.0


From 31ddccb308d2545ec0358841645600ba8e6a557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:39 +0000
Subject: [PATCH 139/139] fix: an initial solution of the incremental margin
 algorithm is normalised by the largest weight in the maximum norm

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 51010b2..a702b8b 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -143,6 +143,9 @@ namespace mltk{
                     for (this->solution.norm = 0.0, i = 0; i < dim; ++i)
                         this->solution.norm += this->solution.w[i] * this->solution.w[i];
                     this->solution.norm = sqrt(this->solution.norm);
+                } else if (this->q == -1) {
+                    for (this->solution.norm = 0.0, i = 0; i < dim; ++i)
+                        this->solution.norm = std::max(this->solution.norm, fabs(this->solution.w[i]));
                 } else {
                     for (this->solution.norm = 0.0, i = 0; i < dim; ++i)
                         this->solution.norm += std::pow(fabs(this->solution.w[i]), this->q);
-- 
2.43.0

