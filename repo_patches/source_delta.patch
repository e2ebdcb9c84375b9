From b826293ac9a12fbb7240e9eacdbe92afa3557f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 01/69] fix: keep interleaved fixed attributes in their own
 buffer

addFixedAttribute widened the particle stride, took its index from the
particle attributes and copied one stride per particle out of the fixed
buffer; fixedData pointed past the particle data.
---
 src/lib/core/ParticleSimpleInterleave.cpp | 22 +++++++---------------
 src/lib/core/ParticleSimpleInterleave.h   |  1 +
 2 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 573998a..74e1b2d 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -50,7 +50,7 @@ using namespace Partio;
 
 ParticlesSimpleInterleave::
 ParticlesSimpleInterleave()
-    :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),kdtree(nullptr)
+    :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),fixedStride(0),kdtree(nullptr)
 {
 }
 
@@ -246,27 +246,19 @@ addFixedAttribute(const char* attribute,ParticleAttributeType type,const int cou
     FixedAttribute attr;
     attr.name=attribute;
     attr.type=type;
-    attr.attributeIndex=attributes.size(); //  all arrays separate so we don't use this here!
+    attr.attributeIndex=fixedAttributes.size(); //  all arrays separate so we don't use this here!
     attr.count=count;
     fixedAttributes.push_back(attr);
     nameToFixedAttribute[attribute]=fixedAttributes.size()-1;
 
     // repackage data for new attribute
-    int oldStride=stride;
-    int newStride=stride+TypeSize(type)*count;
+    int oldStride=fixedStride;
+    int newStride=fixedStride+TypeSize(type)*count;
     char* newData=(char*)malloc((size_t)newStride);
-    if(fixedData){
-        char* ptrNew=newData;
-        char* ptrOld=fixedData;
-        for(int i=0;i<particleCount;i++){
-            memcpy(ptrNew,ptrOld,oldStride);
-            ptrNew+=newStride;
-            ptrOld+=oldStride;
-        }
-    }
+    if(fixedData) memcpy(newData,fixedData,oldStride);
     free(fixedData);
     fixedData=newData;
-    stride=newStride;
+    fixedStride=newStride;
     fixedAttributeOffsets.push_back(oldStride);
     fixedAttributeIndexedStrs.push_back(IndexedStrTable());
 
@@ -346,7 +338,7 @@ dataInternal(const ParticleAttribute& attribute,const ParticleIndex particleInde
 void* ParticlesSimpleInterleave::
 fixedDataInternal(const FixedAttribute& attribute) const
 {
-    return data+allocatedCount*stride+fixedAttributeOffsets[attribute.attributeIndex];
+    return fixedData+fixedAttributeOffsets[attribute.attributeIndex];
 }
 
 void ParticlesSimpleInterleave::
diff --git a/src/lib/core/ParticleSimpleInterleave.h b/src/lib/core/ParticleSimpleInterleave.h
index bd40e01..7b1bf12 100644
--- a/src/lib/core/ParticleSimpleInterleave.h
+++ b/src/lib/core/ParticleSimpleInterleave.h
@@ -110,6 +110,7 @@ private:
     char* data;
     char* fixedData;
     int stride;
+    int fixedStride;
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
-- 
2.43.0


From fa626de25ce9708ac13a501b7204ec5acc3ecf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 02/69] fix: implement bulk data access for interleaved
 particles

data(...,indices,...) and dataAsFloat were left empty, so they returned
whatever the caller's buffer held.
---
 src/lib/core/ParticleSimpleInterleave.cpp | 27 +++++++++++------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 74e1b2d..3182062 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -342,33 +342,32 @@ fixedDataInternal(const FixedAttribute& attribute) const
 }
 
 void ParticlesSimpleInterleave::
-dataInternalMultiple(const ParticleAttribute&,const int,const ParticleIndex*,const bool,char*) const
+dataInternalMultiple(const ParticleAttribute& attribute,const int indexCount,
+    const ParticleIndex* particleIndices,const bool,char* values) const
 {
-#if 0
     assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)attributes.size());
 
-    char* base=attributeData[attribute.attributeIndex];
-    int bytes=attributeStrides[attribute.attributeIndex];
+    const char* base=data+attributeOffsets[attribute.attributeIndex];
+    size_t bytes=TypeSize(attribute.type)*attribute.count;
     for(int i=0;i<indexCount;i++)
-        memcpy(values+bytes*i,base+particleIndices[i]*bytes,bytes);
-#endif
+        memcpy(values+bytes*i,base+particleIndices[i]*stride,bytes);
 }
 
 void ParticlesSimpleInterleave::
-dataAsFloat(const ParticleAttribute&,const int,
-    const ParticleIndex*,const bool,float*) const
+dataAsFloat(const ParticleAttribute& attribute,const int indexCount,
+    const ParticleIndex* particleIndices,const bool sorted,float* values) const
 {
-#if 0
     assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)attributes.size());
 
     if(attribute.type==FLOAT || attribute.type==VECTOR) dataInternalMultiple(attribute,indexCount,particleIndices,sorted,(char*)values);
-    else if(attribute.type==INT){
-        char* attrrawbase=attributeData[attribute.attributeIndex];
-        int* attrbase=(int*)attrrawbase;
+    else if(attribute.type==INT || attribute.type==INDEXEDSTR){
+        const char* base=data+attributeOffsets[attribute.attributeIndex];
         int count=attribute.count;
-        for(int i=0;i<indexCount;i++) for(int k=0;k<count;k++) values[i*count+k]=(int)attrbase[particleIndices[i]*count+k];
+        for(int i=0;i<indexCount;i++){
+            const int* attrbase=(const int*)(base+particleIndices[i]*stride);
+            for(int k=0;k<count;k++) values[i*count+k]=static_cast<float>(attrbase[k]);
+        }
     }
-#endif
 }
 
 
-- 
2.43.0


From debada7a826d8f4a368033f1ff80483291cad722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 03/69] fix: let the postfix iterator increment move past the
 last block

it++ never turned into end() after the last particle, so a loop written
with it ran past the end of the data.
---
 src/lib/PartioIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PartioIterator.h b/src/lib/PartioIterator.h
index e0ce86c..1d73735 100644
--- a/src/lib/PartioIterator.h
+++ b/src/lib/PartioIterator.h
@@ -179,7 +179,7 @@ public:
     ParticleIterator operator++(int)
     {
         ParticleIterator newIt(*this);
-        index++;
+        ++*this;
         return newIt;
     }
 
-- 
2.43.0


From 8781f52c19c109d5a78a3275b0ff3eddd6b91109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 04/69] fix: keep lookups right when tokens share a string

setIndexedStr to a string another token already has left two tokens with
one map entry; renaming either again dropped the entry of the other, and
then erased the end iterator.
---
 src/lib/core/ParticleSimple.cpp           |  8 ++------
 src/lib/core/ParticleSimple.h             | 12 ++++++++++++
 src/lib/core/ParticleSimpleInterleave.cpp |  8 ++------
 src/lib/core/ParticleSimpleInterleave.h   | 12 ++++++++++++
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 4fa23e6..841ba93 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -437,15 +437,11 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 void ParticlesSimple::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
 
 void ParticlesSimple::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
diff --git a/src/lib/core/ParticleSimple.h b/src/lib/core/ParticleSimple.h
index 86247e8..3ebd4cc 100644
--- a/src/lib/core/ParticleSimple.h
+++ b/src/lib/core/ParticleSimple.h
@@ -107,6 +107,18 @@ private:
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
+
+        // Give token a new string. Tokens may end up sharing a string, so the
+        // old string stays known as long as another token has it.
+        void rename(const int token,const std::string& str)
+        {
+            const std::string oldStr=strings[token];
+            strings[token]=str;
+            stringToIndex.erase(oldStr);
+            for(size_t i=0;i<strings.size();i++)
+                if(strings[i]==oldStr) stringToIndex[oldStr]=static_cast<int>(i);
+            stringToIndex[str]=token;
+        }
     };
     std::vector<IndexedStrTable> attributeIndexedStrs;
     std::vector<ParticleAttribute> attributes;
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 3182062..48303e3 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -431,15 +431,11 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 void ParticlesSimpleInterleave::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
 
 void ParticlesSimpleInterleave::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
diff --git a/src/lib/core/ParticleSimpleInterleave.h b/src/lib/core/ParticleSimpleInterleave.h
index 7b1bf12..75fc035 100644
--- a/src/lib/core/ParticleSimpleInterleave.h
+++ b/src/lib/core/ParticleSimpleInterleave.h
@@ -114,6 +114,18 @@ private:
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
+
+        // Give token a new string. Tokens may end up sharing a string, so the
+        // old string stays known as long as another token has it.
+        void rename(const int token,const std::string& str)
+        {
+            const std::string oldStr=strings[token];
+            strings[token]=str;
+            stringToIndex.erase(oldStr);
+            for(size_t i=0;i<strings.size();i++)
+                if(strings[i]==oldStr) stringToIndex[oldStr]=static_cast<int>(i);
+            stringToIndex[str]=token;
+        }
     };
     std::vector<IndexedStrTable> attributeIndexedStrs;
     std::vector<size_t> attributeOffsets; // Inside is data of appropriate type
-- 
2.43.0


From 805b4bc99049b8133259b6d99b1b463a651e1493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 05/69] fix: zero new merged attributes of any width

The default came from a 128-byte buffer, read past its end for
attributes of more than 32 components.
---
 src/lib/core/Particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index b3c81ff..626c379 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -505,7 +505,6 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     }
 
     // Identify the attributes to be added (in delta, not present in base)
-    double empty[16]{0};
     for (int i=0; i<delta.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
         delta.attributeInfo(i, deltaAttr);
@@ -514,8 +513,9 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
             attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
 
             // Set the attribute to a default value in the base particle set
+            const std::vector<char> empty(Partio::TypeSize(deltaAttr.type) * deltaAttr.count, 0);
             for (int p=0; p<base.numParticles(); ++p) {
-                base.set(baseAttr, p, empty);
+                base.set(baseAttr, p, empty.data());
             }
         }
     }
-- 
2.43.0


From 1be989abaff0a0840d082f931e40fbeb4ae479ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 06/69] fix: carry the strings of new attributes through merge

An indexed-string attribute only the delta had was added to the base
without its strings, and every particle got token 0.
---
 src/lib/core/Particle.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 626c379..2d5b960 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -510,6 +510,9 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         delta.attributeInfo(i, deltaAttr);
         if (!base.attributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
+            if (baseAttr.type == INDEXEDSTR) {
+                indexStrAttrs.push_back(attrs.size());
+            }
             attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
 
             // Set the attribute to a default value in the base particle set
-- 
2.43.0


From 93ee76e3114d4afe211ccf4d27ef6b31edf39921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 07/69] fix: carry fixed strings through merge

Fixed indexed-string attributes got the delta's tokens but not its
strings.
---
 src/lib/core/Particle.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 2d5b960..a7446b7 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -463,6 +463,28 @@ struct IntPairHash {
 // merge two particle sets.  if no identifiers are specified, the particle sets will be aggregated together.
 // if one or more identifiers are specified, the particle will be overwritten if the identifier(s) match.
 // if the identifier only exists in one particle set, the particle sets will be aggregated together.
+// Give a fixed attribute of base the value it has in delta. Strings are
+// registered in base, so that tokens keep their meaning.
+static void setFixedFromDelta(ParticlesDataMutable& base, const FixedAttribute& baseAttr,
+                              const ParticlesData& delta, const FixedAttribute& deltaAttr)
+{
+    if (baseAttr.type == INDEXEDSTR && deltaAttr.type == INDEXEDSTR) {
+        const std::vector<std::string>& deltaStrs = delta.fixedIndexedStrs(deltaAttr);
+        std::vector<int> indices;
+        for (size_t i=0; i<deltaStrs.size(); ++i) {
+            indices.push_back(base.registerFixedIndexedStr(baseAttr, deltaStrs[i].c_str()));
+        }
+        const int* src = delta.fixedData<int>(deltaAttr);
+        int* dst = base.fixedDataWrite<int>(baseAttr);
+        for (int j=0; j<baseAttr.count && j<deltaAttr.count; ++j) {
+            dst[j] = src[j] >= 0 && src[j] < (int)indices.size() ? indices[src[j]] : src[j];
+        }
+        return;
+    }
+    const void *src = delta.fixedData<void>(deltaAttr);
+    base.setFixed(baseAttr, src);
+}
+
 void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::string& identifier0, const std::string& identifier1)
 {
     // Build a map from the identifier value to the particle index
@@ -528,8 +550,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         FixedAttribute baseAttr, deltaAttr;
         base.fixedAttributeInfo(i, baseAttr);
         if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr)) {
-            const void *src = delta.fixedData<void>(deltaAttr);
-            base.setFixed(baseAttr, src);
+            setFixedFromDelta(base, baseAttr, delta, deltaAttr);
         }
     }
 
@@ -539,8 +560,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         delta.fixedAttributeInfo(i, deltaAttr);
         if (!base.fixedAttributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addFixedAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
-            const void *src = delta.fixedData<void>(deltaAttr);
-            base.setFixed(baseAttr, src);
+            setFixedFromDelta(base, baseAttr, delta, deltaAttr);
         }
     }
 
-- 
2.43.0


From 5f9134e6d5d5f0eb0086dae0a801a26816617606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:59 +0000
Subject: [PATCH 08/69] fix: report the search radius when no point can be
 found

---
 src/lib/core/KdTree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/core/KdTree.h b/src/lib/core/KdTree.h
index 7b73b86..1fa94f3 100644
--- a/src/lib/core/KdTree.h
+++ b/src/lib/core/KdTree.h
@@ -365,6 +365,7 @@ int KdTree<k>::findNPoints(uint64_t *result, float *distanceSquared, float *fina
                            const float p[k],int nPoints,float maxRadius) const
 {
     float radius_squared=maxRadius*maxRadius;
+    *finalSearchRadius2=radius_squared;
 
     if (!size() || !_sorted || nPoints<1) return 0;
 
-- 
2.43.0


From f236dcbd1c25c1e42ef6be2d2c1ee6fcd029fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 09/69] fix: tell 32-bit PDB files from 64-bit ones by the
 first channel

---
 src/lib/io/PDB.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index a296535..13eed57 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -269,7 +269,11 @@ ParticlesDataMutable* readPDB(const char* filename,const bool headersOnly,std::o
     PDB_POLICY<64>::CHANNEL_IO channelIOHeader;
     input->read((char*)&channelIOHeader,sizeof(channelIOHeader));
     //cout<<"we got channel io as "<<int(channelIOHeader.type)<<" swap is "<<channelIOHeader.swap<<endl;
-    if(channelIOHeader.type > 5  || channelIOHeader.type < 0 || (channelIOHeader.swap != 1 && channelIOHeader.swap != 0)){
+    // The channel that follows must have a valid type too (a 32 bit header of zeros looks fine up to here)
+    PDB_POLICY<64>::CHANNEL channelHeader;
+    input->read((char*)&channelHeader,sizeof(channelHeader));
+    if(!*input || channelIOHeader.type > 5  || channelIOHeader.type < 0 || (channelIOHeader.swap != 1 && channelIOHeader.swap != 0)
+        || channelHeader.type < PDB_VECTOR || channelHeader.type > PDB_POINTERT){
         return readPDBHelper<32>(filename,headersOnly,errorStream);
     }else{
         return readPDBHelper<64>(filename,headersOnly,errorStream);
-- 
2.43.0


From 3711677d7fee0fa279a32f7977e6ec0a9b0f598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 10/69] fix: size PRT particles by the whole of the last
 channel

---
 src/lib/io/PRT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index cde7e1f..bd85652 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -222,7 +222,7 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
         }
         
         // The size of the particle is determined from the channel with largest offset. The channels are not required to be listed in order.
-        particleSize = (std::max)( particleSize, chans.back().offset + sizes[ch.type] );
+        particleSize = (std::max)( particleSize, ch.offset + sizes[ch.type] * ch.arity );
         
         // The channel entry might have more data in other PRT versions.
         if ((unsigned)channelsize > sizeof(Channel))
-- 
2.43.0


From 639407763533754325484aad14ce1d881e18a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:56 +0000
Subject: [PATCH 11/69] fix: refuse PRT channels of unknown type

---
 src/lib/io/PRT.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index bd85652..59a2098 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -209,18 +209,21 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
             type = INT;
             break;
         }
-        if (type != NONE) {
+        if (type == NONE) {
+            if(errorStream) *errorStream<<"Partio: unknown PRT channel type "<<ch.type<<std::endl;
+            simple->release();
+            return 0;
+        }
 #ifdef AUTO_CASES
-            if (ch.name[0] >= 'A' && ch.name[0] <= 'Z') {
-                ch.name[0] += 0x20;
-            }
-#endif
-            std::string name((char*)ch.name);
-            ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,ch.arity);
-            chans.push_back(ch);
-            attrs.push_back(attrHandle);
+        if (ch.name[0] >= 'A' && ch.name[0] <= 'Z') {
+            ch.name[0] += 0x20;
         }
-        
+#endif
+        std::string name((char*)ch.name);
+        ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,ch.arity);
+        chans.push_back(ch);
+        attrs.push_back(attrHandle);
+
         // The size of the particle is determined from the channel with largest offset. The channels are not required to be listed in order.
         particleSize = (std::max)( particleSize, ch.offset + sizes[ch.type] * ch.arity );
         
-- 
2.43.0


From 7cbeb496f3956a7ffb0e8b6bc07d9a8f57d0bed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:56 +0000
Subject: [PATCH 12/69] fix: count only the channels a PRT file has

---
 src/lib/io/PRT.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 59a2098..7372e60 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -366,7 +366,13 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
         int reserve = 4;
         output->write((char*)&header,sizeof(FileHeadder));
         write<LITEND>(*output, reserve);
-        write<LITEND>(*output, (int)p.numAttributes());
+        int channels=0; // channels written below
+        for (int i=0;i<p.numAttributes();i++) {
+            ParticleAttribute attr;
+            p.attributeInfo(i,attr);
+            if ((attr.type==FLOAT || attr.type==INT || attr.type==VECTOR) && attr.count) channels++;
+        }
+        write<LITEND>(*output, channels);
             reserve = 0x2c;
         write<LITEND>(*output, reserve);
 
-- 
2.43.0


From 8bbfa26c36d1cee40062a1e57380699739665982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:56 +0000
Subject: [PATCH 13/69] fix: keep PRT channel names within their field

---
 src/lib/io/PRT.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 7372e60..b4598ea 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -219,6 +219,7 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
             ch.name[0] += 0x20;
         }
 #endif
+        ch.name[sizeof(ch.name)-1]=0;
         std::string name((char*)ch.name);
         ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,ch.arity);
         chans.push_back(ch);
@@ -383,7 +384,7 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
             p.attributeInfo(i,attr);
             Channel ch;
             memset(&ch, 0, sizeof(Channel));
-                    memcpy((char*)ch.name, attr.name.c_str(), attr.name.size());
+                    memcpy((char*)ch.name, attr.name.c_str(), (std::min)(attr.name.size(), sizeof(ch.name)-1));
             ch.offset = offset;
             switch (attr.type) {
             case FLOAT: ch.type=4; ch.arity=attr.count; offset += sizeof(float)*attr.count; break;
-- 
2.43.0


From d898897e38091dd3ee95943bfab05f2c26f575d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:56 +0000
Subject: [PATCH 14/69] fix: read the points of GEO files without other
 attributes

---
 src/lib/io/GEO.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index f08a8b6..5779617 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -119,8 +119,9 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         if(word=="NPoints") *input>>NPoints;
         else if(word=="NPointAttrib"){*input>>NPointAttrib;break;}
     }
-    // skip until PointAttrib
-    while(input->good()){
+    // skip until PointAttrib, or to the points if there are none
+    if(NPointAttrib<=0) getline(*input,word);
+    else while(input->good()){
         *input>>word;
         if(word=="PointAttrib") break;
     }
@@ -193,6 +194,8 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         *input>>fval;
         //cout<<"saw "<<posInternal[0]<<" "<<posInternal[1]<<" "<<posInternal[2]<<endl;
         
+        if(attrs.empty()) continue; // no parentheses without attributes
+
         // skip open paren
         char paren = 0;
         *input>> paren;
-- 
2.43.0


From d577b58a166a30a2dba2abd34a9084f56b87ae5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:56 +0000
Subject: [PATCH 15/69] fix: keep the size of indexed strings read from GEO

---
 src/lib/io/GEO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 5779617..018eea0 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -141,7 +141,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             if(errorStream) *errorStream<<"Partio: attr '"<<attrName<<"' of type index (string) found, treating as integer"<<endl;
             int nIndices=0;
             *input>>nIndices;
-            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,1);
+            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,nvals);
             attrs.push_back(attribute);
             for(int j=0;j<nIndices;j++){
                 string indexName;
-- 
2.43.0


From fddeee805931133d438833b0f86040acdb187089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:51 +0000
Subject: [PATCH 16/69] fix: skip the data of compressed PDC files

---
 src/lib/io/PDC.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index baf466c..e9429d4 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -104,7 +104,8 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
 
         // if headersOnly, skip
         if(headersOnly){
-            input->seekg((int)input->tellg() + header.numParticles*sizeof(double)*attr.count);
+            // seekg doesn't work with gzip
+            input->ignore((streamsize)header.numParticles*sizeof(double)*attr.count);
             continue;
         }
         else{
-- 
2.43.0


From 3b9de1b1fc859eb4fb21cf9408e0743235f7622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:15 +0000
Subject: [PATCH 17/69] fix: let GEO strings be of any length

---
 src/lib/io/GEO.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 018eea0..0b06152 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -65,10 +65,8 @@ void writeString(std::ostream& output,const char* s){
 
 string scanString(istream& input)
 {
-    // TODO: this code does not check for buf overrun
     // TODO: this code doesn't properly check for FEOF condition
-    char buf[4096];
-    char *ptr=buf;
+    string buf;
     char c;
     while(input.good()){
         input.get(c);
@@ -78,7 +76,7 @@ string scanString(istream& input)
 
     if(c!='"'){
         while(input.good()){
-            *ptr++=c;
+            buf+=c;
             input.get(c);
             if(isspace(c)) break;
         }
@@ -87,16 +85,15 @@ string scanString(istream& input)
             input.get(c);
             if(c=='\\'){
                 input.get(c);
-                *ptr++=c;
+                buf+=c;
             }else if(c=='"'){
                 break;
             }else{
-                *ptr++=c;
+                buf+=c;
             }
         }
     }
-    *ptr++=0;
-    return string(buf);
+    return buf;
 }
 
 ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::ostream* errorStream)
-- 
2.43.0


From 6f3610bacd3fd58b72722847aaf25a6c9ef65888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:59 +0000
Subject: [PATCH 18/69] fix: read the optional fields of gzip headers by their
 RFC 1952 flags

---
 src/lib/io/ZIP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 5792b23..a9bfc9e 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -112,15 +112,15 @@ struct GZipFileHeader
     Read_Primitive(istream,os);
     unsigned char dummyByte;
     // read flags if necessary
-    if(flags&2){
-        unsigned short flgExtraLen;
+    if(flags&4){
+        unsigned short flgExtraLen=0;
         Read_Primitive(istream,flgExtraLen);
         for(int k=0;k<flgExtraLen;k++) Read_Primitive(istream,dummyByte);}
     // read filename/comment if present
-    int stringsToRead=((flags&8)?1:0) + ((flags&4)?1:0);
+    int stringsToRead=((flags&8)?1:0) + ((flags&16)?1:0);
     for(int i=0;i<stringsToRead;i++) 
         do{Read_Primitive(istream,dummyByte);}while(dummyByte!=0 && istream);
-    if(flags&1) Read_Primitive(istream,crc16);
+    if(flags&2) Read_Primitive(istream,crc16);
     if(!istream) {std::cerr<<"gzip: got to end of file after only reading gzip header"<<std::endl;return false;}
     return true;}
 
-- 
2.43.0


From 00bb4e742b01f69d715b61ba7d4312b000c5ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:59 +0000
Subject: [PATCH 19/69] fix: end the stream when gzip data is truncated

---
 src/lib/io/ZIP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index a9bfc9e..1831830 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -294,7 +294,7 @@ public:
                 case Z_MEM_ERROR: 
                     std::cerr<<"gzip error "<<strm.msg<<std::endl;
                     valid=false;return -1;}
-            if(ret==Z_STREAM_END) break;}
+            if(ret==Z_STREAM_END || ret==Z_BUF_ERROR) break;} // done, or out of input
         int unzip_count=buffer_size-strm.avail_out-4;
         total_uncompressed+=unzip_count;
         return unzip_count;}
-- 
2.43.0


From d26a08b44a96b4540e3a70e25af3b8894e067483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:59 +0000
Subject: [PATCH 20/69] fix: find the zip central directory from the end of the
 file

---
 src/lib/io/ZIP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 1831830..7ad6df6 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -525,7 +525,7 @@ Find_And_Read_Central_Header()
     char *buf=new char[static_cast<unsigned int>(read_start)];
     istream.read(buf,read_start);
     int found=-1;
-    for(unsigned int i=0;i<read_start-3;i++){
+    for(int i=static_cast<int>(read_start)-4;i>=0;i--){ // the last one, member data may contain the signature
         if(buf[i]==0x50 && buf[i+1]==0x4b && buf[i+2]==0x05 && buf[i+3]==0x06){found=i;break;}}
     delete [] buf;
     if(found==-1){std::cerr<<"ZIP: Failed to find zip header"<<std::endl;return false;}
-- 
2.43.0


From 58d5cee2557e51daecac83feae13e12370eca306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:39 +0000
Subject: [PATCH 21/69] fix: refuse truncated BGEO files

---
 src/lib/io/BGEO.cpp | 55 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index e3406d3..c4056d3 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -79,6 +79,13 @@ struct DummyAccessor{
     DummyAccessor(const T& /*attr*/){}
 };
 
+static bool truncated(std::ostream* errorStream)
+{
+    if(errorStream) *errorStream <<"Partio: unexpected end of BGEO file"<<endl;
+    return false;
+}
+
+// returns false if the attributes cannot be read, simple stays with the caller
 template<class TAttribute, class TAccessor>
 bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribute>& attrHandles, vector<TAccessor>& accessors, int nAttrib, istream* input, ParticlesDataMutable* simple, bool headersOnly, std::ostream* errorStream)
 {
@@ -86,11 +93,16 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
     for(int i=0;i<nAttrib;i++){
         unsigned short nameLength;
         read<BIGEND>(*input,nameLength);
+        if(!*input) return truncated(errorStream);
         char* name=new char[nameLength+1];
         input->read(name,nameLength);name[nameLength]=0;
         unsigned short size;
         int houdiniType;
         read<BIGEND>(*input,size,houdiniType);
+        if(!*input){
+            delete [] name;
+            return truncated(errorStream);
+        }
         if(houdiniType==0 || houdiniType==1 || houdiniType==5){
             // read default values. don't do anything with them
             for(int i=0;i<size;i++) {
@@ -115,6 +127,10 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
             for(int ii=0;ii<numIndices;ii++){
                 unsigned short indexNameLength;
                 read<BIGEND>(*input,indexNameLength);
+                if(!*input){
+                    delete [] name;
+                    return truncated(errorStream);
+                }
                 char* indexName=new char[indexNameLength+1];;
                 input->read(indexName,indexNameLength);
                 indexName[indexNameLength]=0;
@@ -130,15 +146,14 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
         }else if(houdiniType==2){
             if(errorStream) *errorStream <<"Partio: found attr of type 'string', aborting"<<endl;
             delete [] name;
-            simple->release();
-            return 0;
+            return false;
         }else{
             if(errorStream) *errorStream <<"Partio: unknown attribute "<<houdiniType<<" type... aborting"<<endl;
             delete [] name;
-            simple->release();
-            return 0;
+            return false;
         }
         delete[] name;
+        if(!*input) return truncated(errorStream);
     }
 
     return true;
@@ -149,7 +164,7 @@ void skip(istream *input, size_t numChars)
 {
     static const size_t bufferSize = 4096;
     static char buffer[bufferSize];
-    while (numChars>0) {
+    while (numChars>0 && *input) {
         int toRead=std::min(numChars,bufferSize);
         input->read(buffer,toRead);
         numChars-=toRead;
@@ -163,14 +178,16 @@ bool skipPrimitives(int nPoints, int nPrims, int nPrimAttrib, istream* input,std
     vector<int> primAttrOffsets; // offsets in # of 32 bit offsets
     vector<DummyAttribute> primAttrHandles;
     vector<DummyAccessor> primAccessors;
-    getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream);
+    if(!getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream)) return false;
 
     for(int i=0;i<nPrims;i++) {
         int primType;
         read<BIGEND>(*input,primType);
+        if(!*input) return truncated(errorStream);
         if(primType==0x00008000) {
             int size;
             read<BIGEND>(*input,size);
+            if(!*input) return truncated(errorStream);
             if(nPoints>=(int)1<<16)
                 skip(input,size*sizeof(int));
             else
@@ -208,7 +225,10 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     read<BIGEND>(*input,magic[0],magic[1],magic[2],magic[3]);
     read<BIGEND>(*input,versionChar,version,nPoints,nPrims,nPointGroups);
     read<BIGEND>(*input,nPrimGroups,nPointAttrib,nVertexAttrib,nPrimAttrib,nAttrib);
-
+    if(!*input){
+        truncated(errorStream);
+        return 0;
+    }
 
     // Check header magic and version
     const char bgeo_magic[5]={'B','g','e','o',0};
@@ -242,7 +262,10 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     attrOffsets.push_back(0); // pull values from byte offset
     attrHandles.push_back(simple->addAttribute("position",VECTOR,3)); // we always have one
     accessors.push_back(ParticleAccessor(attrHandles[0]));
-    getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple, headersOnly, errorStream);
+    if(!getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple, headersOnly, errorStream)){
+        simple->release();
+        return 0;
+    }
 
     if(headersOnly) {
         skip(input.get(),nPoints*particleSize*sizeof(int));
@@ -270,6 +293,11 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
         }
         delete [] buffer;
     }
+    if(!*input){
+        truncated(errorStream);
+        simple->release();
+        return 0;
+    }
 
     if (!skipPrimitives(nPoints, nPrims, nPrimAttrib, input.get(),errorStream)) return simple;
 
@@ -277,13 +305,22 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     vector<int> fixedAttrOffsets; // offsets in # of 32 bit offsets
     vector<FixedAttribute> fixedAttrHandles;
     vector<DummyAccessor> fixedAccessors;
-    getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple, headersOnly, errorStream);
+    if(!getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple, headersOnly, errorStream)){
+        simple->release();
+        return 0;
+    }
 
     if (headersOnly) return simple;
 
     // Read the points
     int *fixedBuffer=new int[particleSize];
     input->read((char*)fixedBuffer,particleSize*sizeof(int));
+    if(!*input){
+        truncated(errorStream);
+        delete [] fixedBuffer;
+        simple->release();
+        return 0;
+    }
     for(unsigned int attrIndex=0;attrIndex<fixedAttrHandles.size();attrIndex++){
         FixedAttribute& handle=fixedAttrHandles[attrIndex];
         // TODO: this violates strict aliasing, we could just go to char* and make
-- 
2.43.0


From c0189a0631d47d396a38ae3823df1b266d4863e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:39 +0000
Subject: [PATCH 22/69] fix: refuse truncated PDB files and free what a refused
 one allocated

---
 src/lib/io/PDB.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index 13eed57..1a69e20 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -98,8 +98,9 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
     typename PDB_POLICY<bits>::HEADER header;
 
     input->read((char*)&header,sizeof(typename PDB_POLICY<bits>::HEADER));
-    if(header.magic != PDB_MAGIC){
+    if(!*input || header.magic != PDB_MAGIC){
         if(errorStream) *errorStream<<"Partio: failed to get PDB magic"<<endl;
+        simple->release();
         return 0;
     }
 
@@ -119,7 +120,11 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
 
         typename PDB_POLICY<bits>::CHANNEL_DATA channelData;
         input->read((char*)&channelData,sizeof(channelData));
-
+        if(!*input){
+            if(errorStream) *errorStream<<"Partio: unexpected end of PDB file "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
         
         ParticleAttributeType type;
         switch(channelHeader.type){
@@ -159,6 +164,11 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
                 }
             }
         }
+        if(!*input){
+            if(errorStream) *errorStream<<"Partio: unexpected end of PDB file "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
     }
     return simple;
 }
@@ -259,6 +269,7 @@ ParticlesDataMutable* readPDB(const char* filename,const bool headersOnly,std::o
     }
     // Read header and add as many particles as found
     PDB_POLICY<64>::HEADER header;
+    header.magic=0;
     input->read((char*)&header,sizeof(header));
     if(header.magic != PDB_MAGIC){
         if(errorStream) *errorStream <<"Partio: failed to get PDB magic"<<endl;
-- 
2.43.0


From 625aa4d23cdae2d6a185cf1b3826c49e7a5f835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:10 +0000
Subject: [PATCH 23/69] fix: refuse truncated PRT files and free what a refused
 one allocated

---
 src/lib/io/PRT.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index b4598ea..fe0676a 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -158,8 +158,9 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     FileHeadder header;
     input->read((char*)&header,sizeof(FileHeadder));
 
-    if (memcmp(header.magic, magic, sizeof(magic))) {
+    if (!*input || memcmp(header.magic, magic, sizeof(magic))) {
         if(errorStream) *errorStream<<"Partio: failed to get PRT magic"<<std::endl;
+        simple->release();
         return 0;
     }
     
@@ -173,6 +174,11 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     read<LITEND>(*input,reserve);		// reserved
     read<LITEND>(*input,channels);		// number of channel
     read<LITEND>(*input,channelsize);	// size of channel
+    if (!*input) {
+        if(errorStream) *errorStream<<"Partio: unexpected end of PRT header"<<std::endl;
+        simple->release();
+        return 0;
+    }
 
     simple->addParticles((int)header.numParticles);
 
@@ -184,6 +190,11 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     for (int i=0; i<channels; i++) {
         Channel ch;
         input->read((char*)&ch, sizeof(Channel));
+        if (!*input) {
+            if(errorStream) *errorStream<<"Partio: unexpected end of PRT header"<<std::endl;
+            simple->release();
+            return 0;
+        }
         ParticleAttributeType type=NONE;
         switch (ch.type) {
         case 0:	// int16
@@ -239,6 +250,7 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     z.zalloc = Z_NULL;z.zfree = Z_NULL;z.opaque = Z_NULL;
     if (inflateInit( &z ) != Z_OK) {
         if(errorStream) *errorStream<<"Zlib inflateInit error"<<std::endl;
+        simple->release();
         return 0;
     }
 
@@ -250,7 +262,12 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
 
     for (unsigned int particleIndex=0;particleIndex<(unsigned int )simple->numParticles();particleIndex++) {
         // Read the particle from the file, and decompress it into a single particle-sized buffer.
-        read_buffer(*input, z, (char*)in_buf, prt_buf, particleSize, errorStream);
+        if (!read_buffer(*input, z, (char*)in_buf, prt_buf, particleSize, errorStream)) {
+            delete [] prt_buf;
+            inflateEnd( &z );
+            simple->release();
+            return 0;
+        }
         
         for (unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++) {
             if (attrs[attrIndex].type==Partio::INT) {
-- 
2.43.0


From ba04e18336daeb076834783cfcedf849c2137039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:10 +0000
Subject: [PATCH 24/69] fix: refuse truncated PDC files

---
 src/lib/io/PDC.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index e9429d4..d4158a8 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -61,6 +61,10 @@ typedef struct{
 string readName(istream& input){
     int nameLen = 0;
     read<BIGEND>(input, nameLen);
+    if(!input || nameLen < 0){
+        input.setstate(ios::failbit);
+        return string();
+    }
     char* name = new char[nameLen];
     input.read(name, nameLen);
     string result(name, name+nameLen);
@@ -77,8 +81,9 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
     }
 
     PDC_HEADER header;
+    header.magic = 0;
     input->read((char*)&header, sizeof(header));
-    if(PDC_MAGIC != header.magic){
+    if(!*input || PDC_MAGIC != header.magic){
         if(errorStream) *errorStream << "Partio: Magic number '" << header.magic << "' of '" << filename << "' doesn't match pdc magic '" << PDC_MAGIC << "'" << std::endl;
         return 0;
     }
@@ -95,6 +100,11 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
         string attrName = readName(*input);
         int type;
         read<BIGEND>(*input, type);
+        if(!*input){
+            if(errorStream) *errorStream << "Partio: unexpected end of PDC file " << filename << std::endl;
+            simple->release();
+            return 0;
+        }
         if(type == 3){
             attr = simple->addAttribute(attrName.c_str(), FLOAT, 1);
         }
@@ -116,6 +126,11 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
                     simple->dataWrite<float>(attr, partIndex)[dim] = (float)tmp[dim];
                 }
             }
+            if(!*input){
+                if(errorStream) *errorStream << "Partio: unexpected end of PDC file " << filename << std::endl;
+                simple->release();
+                return 0;
+            }
         }
     }
 
-- 
2.43.0


From b2f652626d83b8376feb60e5f79bf59c03932e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:20 +0000
Subject: [PATCH 25/69] fix: refuse truncated PTC files

---
 src/lib/io/PTC.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 3448d6f..06e7a72 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -69,9 +69,9 @@ bool ParseSpec(const string& spec,string& typeName,string& name)
     // TODO: make more robust
     const char* s=spec.c_str();
     typeName="";name="";
-    while(*s!=' ') typeName+=*s++;
+    while(*s && *s!=' ') typeName+=*s++;
     while(*s==' ') s++;
-    while(*s!='\n') name+=*s++;
+    while(*s && *s!='\n') name+=*s++;
     return true;
 }
 
@@ -83,14 +83,14 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
         return 0;
     }
 
-    int magic;
+    int magic=0;
     read<LITEND>(*input,magic);
     if(ptc_magic!=magic){
         if(errorStream) *errorStream <<"Partio: Magic number '"<<magic<<"' of '"<<filename<<"' doesn't match pptc magic '"<<ptc_magic<<"'"<<endl;
         return 0;
     }
 
-    int version;
+    int version=0;
     read<LITEND>(*input,version);
     if(version>2){
         if(errorStream) *errorStream <<"Partio: ptc reader only supports version 2 or less"<<endl;
@@ -124,6 +124,10 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
 
     int nVars,dataSize;
     read<LITEND>(*input,nVars,dataSize);
+    if(!*input){
+        if(errorStream) *errorStream <<"Partio: unexpected end of PTC file "<<filename<<endl;
+        return 0;
+    }
 
     // Allocate a simple particle with the appropriate number of points
     ParticlesDataMutable* simple=0;
@@ -223,7 +227,11 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
             for(int j=0;j<attrHandles[i].count;j++)
                 read<LITEND>(*input,data[j]);
         }
-
+        if(!*input){
+            if(errorStream) *errorStream <<"Partio: unexpected end of PTC file "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
     }
 
     return simple;
-- 
2.43.0


From 46b184a227b763c4153b71575bc801d234cf64a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:29 +0000
Subject: [PATCH 26/69] fix: refuse truncated BIN files

---
 src/lib/io/BIN.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index 326e6dc..4aa60f1 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -92,6 +92,10 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
 
     BIN_HEADER header;
     input->read((char*)&header, sizeof(BIN_HEADERV6));
+    if(!*input){
+        if(errorStream) *errorStream << "Partio: unexpected end of BIN file " << filename << endl;
+        return 0;
+    }
 
     // According to the NextLimit bin_particles_file_format.pdf file
     if (header.version >= 7)
@@ -255,11 +259,17 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
             else
             {
                 // Warning, cast the id on 32 bits here
-                uint64_t pid64;
+                uint64_t pid64 = 0;
                 input->read ((char*) &pid64, sizeof(pid64));
                 pid = (int)pid64;
             }
             simple->dataWrite<int>(pidAttr, partIndex)[0] = (int)pid;
+
+            if(!*input){
+                if(errorStream) *errorStream << "Partio: unexpected end of BIN file " << filename << endl;
+                simple->release();
+                return 0;
+            }
         }
     }
 
-- 
2.43.0


From 426bcbd29d5ad6711f057fa5475a0aa883828291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:59 +0000
Subject: [PATCH 27/69] fix: terminate the tags read from MC files

---
 src/lib/io/MC.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lib/io/MC.cpp b/src/lib/io/MC.cpp
index 82b5278..d866a03 100644
--- a/src/lib/io/MC.cpp
+++ b/src/lib/io/MC.cpp
@@ -50,15 +50,12 @@ using namespace std;
 // TODO: convert this to use iterators like the rest of the readers/writers
 
 std::string GetString(std::istream& input, unsigned int size){
-    char* tmp = new char [size];
+    // tags have no terminator, padded names do
+    char* tmp = new char [size+1];
     input.read(tmp, size);
+    tmp[input ? size : 0] = 0;
     std::string result(tmp);
 
-    // fix read tag error (ex: DBLA --> DBLAi, why !!)
-    if(result.size() > size){
-        result.resize(size);
-    }
-
     delete [] tmp;
     return result;
 }
-- 
2.43.0


From db6c5e10bb34ddbc2bceaef6995706b611e23f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 28/69] fix: stop reading MC files at their end

---
 src/lib/io/MC.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/lib/io/MC.cpp b/src/lib/io/MC.cpp
index d866a03..612a06d 100644
--- a/src/lib/io/MC.cpp
+++ b/src/lib/io/MC.cpp
@@ -72,8 +72,11 @@ bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute){
     char tag[4];
     input.read(tag, 4); // CHNM
 
-    int chnmSize;
+    int chnmSize = 0;
     read<BIGEND>(input, chnmSize);
+    if(!input || chnmSize < 0){
+        return false;
+    }
     if(chnmSize%4 > 0){
         chnmSize = chnmSize - chnmSize%4 + 4;
     }
@@ -90,7 +93,7 @@ bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute){
 
     read<BIGEND>(input, attribute.blocksize);
 
-    return true;
+    return !input.fail();
 }
 
 int CharArrayLen(char** charArray){
@@ -127,7 +130,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         return 0;
     }
 
-    int magic;
+    int magic = 0;
     read<BIGEND>(*input, magic);
     if(MC_MAGIC != magic){
         if(errorStream) *errorStream  << "Partio: Magic number '" << magic << "' of '" << filename << "' doesn't match mc magic '" << MC_MAGIC << "'" << std::endl;
@@ -146,7 +149,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
     char tag[4];
     input->read(tag, 4); // FOR4
 
-    int blockSize;
+    int blockSize = 0;
     read<BIGEND>(*input, blockSize);
 
     // Allocate a simple particle with the appropriate number of points
@@ -160,9 +163,9 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
 
     int numParticles = 0;
     input->read(tag, 4); // MYCH
-    while(((int)input->tellg()-HEADER_SIZE) < blockSize){
+    while(*input && ((int)input->tellg()-HEADER_SIZE) < blockSize){
         Attribute_Header attrHeader;
-        ReadAttrHeader(*input, attrHeader);
+        if(!ReadAttrHeader(*input, attrHeader)) break;
 
         if(attrHeader.name == std::string("id")){
             numParticles = attrHeader.numParticles;
@@ -198,6 +201,11 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
             if(errorStream) *errorStream << "Partio: Attribute '" << attrHeader.name << " " << attrHeader.type << "' cannot map type" << std::endl;
         }
     }
+    if(!*input){
+        if(errorStream) *errorStream << "Partio: unexpected end of MC file " << filename << std::endl;
+        simple->release();
+        return 0;
+    }
     simple->addParticles(numParticles);
 
     // If all we care about is headers, then return.--
@@ -207,9 +215,9 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
     //cout << "==============================================================" << endl;
     input->seekg(HEADER_SIZE);
     input->read(tag, 4); // MYCH
-    while((int)input->tellg()-HEADER_SIZE < blockSize){
+    while(*input && (int)input->tellg()-HEADER_SIZE < blockSize){
         Attribute_Header attrHeader;
-        ReadAttrHeader(*input, attrHeader);
+        if(!ReadAttrHeader(*input, attrHeader)) break;
 
         if(attrHeader.blocksize/sizeof(double) == 1){ // for who ?
             input->seekg((int)input->tellg() + attrHeader.blocksize);
@@ -272,6 +280,11 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         }*/
 
     }
+    if(!*input){
+        if(errorStream) *errorStream << "Partio: unexpected end of MC file " << filename << std::endl;
+        simple->release();
+        return 0;
+    }
     return simple;
 
 }
-- 
2.43.0


From 6a2185342acfd43baa3e596875bb5fa3e19bafa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 29/69] fix: abort on GEO attributes of unknown type

---
 src/lib/io/GEO.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 0b06152..cc4c216 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -166,7 +166,8 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             else if(attrType=="int") type=INT;
             else{
                 if(errorStream) *errorStream<<"Partio: unknown attribute "<<attrType<<" type... aborting"<<endl;
-                type=NONE;
+                simple->release();
+                return 0;
             }
             attrs.push_back(simple->addAttribute(attrName.c_str(),type,nvals));
             accessors.push_back(ParticleAccessor(attrs.back()));
-- 
2.43.0


From 3f0ad8469b08c8edd925fabb84f037c338a57084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 30/69] fix: skip PTS lines with too many columns

---
 src/lib/io/PTS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 6c437de..86f8288 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -192,7 +192,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
             stringstream foo(token);
             float x;
             foo >> x;
-			lineData[i] = x;
+			if (i < 8) lineData[i] = x;
             i++;
         }
 
-- 
2.43.0


From c5109a1bbf33faebb64483b5882ba0b91a4bedd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 31/69] fix: take PTS colors from the color columns

---
 src/lib/io/PTS.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 86f8288..e047a9d 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -222,9 +222,10 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 					if (attrs[attrIndex].name == "pointColor")
 					{
 						// 8 bit color  conversion
-						data[0]=lineData[4]/255;
-						data[1]=lineData[5]/255;
-						data[2]=lineData[6]/255;
+						// the color is in the last three columns
+						data[0]=lineData[valcount-3]/255;
+						data[1]=lineData[valcount-2]/255;
+						data[2]=lineData[valcount-1]/255;
 					}
 					else if (attrs[attrIndex].name == "position")
 					{
-- 
2.43.0


From 3c4c57e0713c6d61ee2abda890cb5674d0bc3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 32/69] fix: parse PTS numbers independently of the global
 locale

---
 src/lib/io/PTS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index e047a9d..3412aaa 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -190,6 +190,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
         while (ss >> token)
         {
             stringstream foo(token);
+            foo.imbue(std::locale::classic());
             float x;
             foo >> x;
 			if (i < 8) lineData[i] = x;
-- 
2.43.0


From a8ab0ae1fe4abebed032019b90701f9ba5adb3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 33/69] fix: free what a refused PTS file allocated

---
 src/lib/io/PTS.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 3412aaa..0e56aa9 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -150,6 +150,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 		break;
 		default:
 		{
+			simple->release();
 			return 0;
 		}
 		break;
-- 
2.43.0


From 43474883ff3a10e9c247e7138c5b108c64d9b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 34/69] fix: count the particles of PTS files when reading
 headers

---
 src/lib/io/PTS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 0e56aa9..e4d0e79 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -161,7 +161,6 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 
     unsigned int num=0;
     simple->addParticles(num);
-    if (headersOnly) return simple; // escape before we try to touch data
 
     if (input->good())
     { // garbage count at top of  file
@@ -201,6 +200,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
         if (i == valcount)
         {
             simple->addParticle();
+            if (headersOnly) continue; // only count them
             for (unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++)
             {
                 if (attrs[attrIndex].type==Partio::INT )
-- 
2.43.0


From 6a924eea98d06c74eb6404e895bffc386bf46fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:48 +0000
Subject: [PATCH 35/69] fix: let PTS files be compressed

---
 src/lib/io/PTS.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index e4d0e79..dc81426 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -73,14 +73,12 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     /// FORMAT  is  up to 8 elements  space delimited { posX posY posZ  remission quality  red green blue }
     // since there's no header data to parse we're just going to hard code this
 
-    /* Start from the beginning */
-	input->seekg(0,ios::beg);
-
     /* Determine amount of values per line */
     char line[1024];
     /* Jump over first line. */
 	input->getline(line,1024);
     input->getline(line,1024);
+    string firstLine(line); // the stream may be compressed, so we cannot go back to it
     int valcount = 0;
 #ifdef PARTIO_WIN32
 	char * nextLine = NULL;
@@ -157,32 +155,22 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 
     }
 
-    input->seekg(0,ios::beg);
-
     unsigned int num=0;
     simple->addParticles(num);
 
-    if (input->good())
-    { // garbage count at top of  file
-		char junk[1024];
-        input->getline(junk,1024);
-    }
-
     // Read actual particle data
-    if (!input->good()) {
-        simple->release();
-        return 0;
-    }
 
     // we have to read line by line, because data is not  clean and consistent so we skip any lines that dont' conform
 
-    for (unsigned int particleIndex=0;input->good();)
+    bool first=true;
+    for (unsigned int particleIndex=0;first || input->good();)
     {
         string token = "";
         char line[1024];
-        input->getline(line, 1024);
+        if (!first) input->getline(line, 1024);
 
-        stringstream ss(line);
+        stringstream ss(first ? firstLine.c_str() : line);
+        first=false;
 
         float lineData[8];
         int i = 0;
-- 
2.43.0


From 55148373e6094c30139691e8fdee076e6416f294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:58 +0000
Subject: [PATCH 36/69] fix: sort a cached set when a later request asks for it

---
 src/lib/core/ParticleCaching.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/core/ParticleCaching.cpp b/src/lib/core/ParticleCaching.cpp
index 0d3e69e..52fca25 100644
--- a/src/lib/core/ParticleCaching.cpp
+++ b/src/lib/core/ParticleCaching.cpp
@@ -34,6 +34,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 */
 #include <iostream>
 #include <cassert>
+#include <set>
 #include "Mutex.h"
 #include "../Partio.h"
 
@@ -48,6 +49,7 @@ namespace
 // cached read write
 std::map<ParticlesData*,int> cachedParticlesCount;
 std::map<std::string,ParticlesData*> cachedParticles;
+std::set<ParticlesData*> cachedSorted;
 
 ParticlesData* readCached(const char* filename,const bool sort,const bool verbose,std::ostream& error)
 {
@@ -58,10 +60,13 @@ ParticlesData* readCached(const char* filename,const bool sort,const bool verbos
     if(i!=cachedParticles.end()){
         p=i->second;
         cachedParticlesCount[p]++;
+        // the set may have been cached by a request without sorting
+        if(sort && cachedSorted.insert(p).second) static_cast<ParticlesDataMutable*>(p)->sort();
     }else{
         ParticlesDataMutable* p_rw=read(filename,verbose);
         if(p_rw){
             if(sort) p_rw->sort();
+            if(sort) cachedSorted.insert(p_rw);
             p=p_rw;
             cachedParticles[filename]=p;
             cachedParticlesCount[p]=1;
@@ -85,6 +90,7 @@ void freeCached(ParticlesData* particles)
         if(i->second==0){ // ref count is now zero, remove from structure
             delete particles;
             cachedParticlesCount.erase(i);
+            cachedSorted.erase(particles);
             for(std::map<std::string,ParticlesData*>::iterator i2=cachedParticles.begin();
                 i2!=cachedParticles.end();++i2){
                 if(i2->second==particles){
-- 
2.43.0


From 5934aaa399251e4f28e8bc6717d7170f148cc1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 37/69] fix: report the errors of cached reads to the caller's
 stream

---
 src/lib/core/ParticleCaching.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/core/ParticleCaching.cpp b/src/lib/core/ParticleCaching.cpp
index 52fca25..9efdcd8 100644
--- a/src/lib/core/ParticleCaching.cpp
+++ b/src/lib/core/ParticleCaching.cpp
@@ -63,7 +63,7 @@ ParticlesData* readCached(const char* filename,const bool sort,const bool verbos
         // the set may have been cached by a request without sorting
         if(sort && cachedSorted.insert(p).second) static_cast<ParticlesDataMutable*>(p)->sort();
     }else{
-        ParticlesDataMutable* p_rw=read(filename,verbose);
+        ParticlesDataMutable* p_rw=read(filename,verbose,error);
         if(p_rw){
             if(sort) p_rw->sort();
             if(sort) cachedSorted.insert(p_rw);
-- 
2.43.0


From 0853d99b80b93967738f03ec212ff4ccb142f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 38/69] fix: give each BGEO reader its own skip buffer

---
 src/lib/io/BGEO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index c4056d3..ae23325 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -163,7 +163,7 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
 void skip(istream *input, size_t numChars)
 {
     static const size_t bufferSize = 4096;
-    static char buffer[bufferSize];
+    char buffer[bufferSize];
     while (numChars>0 && *input) {
         int toRead=std::min(numChars,bufferSize);
         input->read(buffer,toRead);
-- 
2.43.0


From 56d4b8e5e97ae5ad138753e042a1fc56acd17044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:43 +0000
Subject: [PATCH 39/69] fix: look at the codec tables' state under their lock

---
 src/lib/io/ParticleIO.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/ParticleIO.cpp b/src/lib/io/ParticleIO.cpp
index ba4698f..de4bc42 100644
--- a/src/lib/io/ParticleIO.cpp
+++ b/src/lib/io/ParticleIO.cpp
@@ -52,8 +52,8 @@ readers()
 {
     static map<string,READER_FUNCTION> data;
     static bool initialized=false;
+    initializationMutex.lock();
     if(!initialized){
-	initializationMutex.lock();
         data["bgeo"]=readBGEO;
         data["bhclassic"]=readBGEO;
         data["geo"]=readGEO;
@@ -72,8 +72,8 @@ readers()
         data["itbl"]=readBGEO;
         data["atbl"]=readBGEO;
 	initialized=true;
-	initializationMutex.unlock();
     }
+    initializationMutex.unlock();
     return data;
 }
 
@@ -82,8 +82,8 @@ writers()
 {
     static map<string,WRITER_FUNCTION> data;
     static bool initialized=false;
+    initializationMutex.lock();
     if(!initialized){
-	initializationMutex.lock();
         data["bgeo"]=writeBGEO;
         data["bhclassic"]=writeBGEO;
         data["geo"]=writeGEO;
@@ -101,8 +101,8 @@ writers()
         data["itbl"]=writeBGEO;
         data["atbl"]=writeBGEO;
 	initialized=true;
-	initializationMutex.unlock();
     }
+    initializationMutex.unlock();
     return data;
 }
 
-- 
2.43.0


From cc9520f1a4b2298402f3dbcedb20d4806fdabd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:50 +0000
Subject: [PATCH 40/69] fix: free the inflate state after damaged gzip data

---
 src/lib/io/ZIP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 7ad6df6..d13da6d 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -288,12 +288,12 @@ public:
             switch(ret){
                 case Z_STREAM_ERROR: 
                     std::cerr<<"libz error Z_STREAM_ERROR"<<std::endl;
-                    valid=false;return -1;
+                    inflateEnd(&strm);valid=false;return -1;
                 case Z_NEED_DICT:
                 case Z_DATA_ERROR:
                 case Z_MEM_ERROR: 
                     std::cerr<<"gzip error "<<strm.msg<<std::endl;
-                    valid=false;return -1;}
+                    inflateEnd(&strm);valid=false;return -1;}
             if(ret==Z_STREAM_END || ret==Z_BUF_ERROR) break;} // done, or out of input
         int unzip_count=buffer_size-strm.avail_out-4;
         total_uncompressed+=unzip_count;
-- 
2.43.0


From 14ac7e6654d31d070307b54d30df63e440bdc71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:06 +0000
Subject: [PATCH 41/69] fix: write radiusPP as the width of RIB points

---
 src/lib/io/RIB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/RIB.cpp b/src/lib/io/RIB.cpp
index 5d5da08..9597341 100644
--- a/src/lib/io/RIB.cpp
+++ b/src/lib/io/RIB.cpp
@@ -75,7 +75,7 @@ bool writeRIB(const char* filename, const ParticlesData& p, const bool compresse
 
             string attrname = (attr.name == "position" || attr.name == "position2" || attr.name == "P" || attr.name == "P2")
                               ? "P"
-                              : (attr.name == "radius" ? "width" : attr.name);
+                              : ((attr.name == "radius" || attr.name == "radiusPP") ? "width" : attr.name);
 
             *output << "\"" << attrname << "\" [ ";
 			int spaceCount = 0;
-- 
2.43.0


From bf04863860cc08ece56666bf7d87557775ac5526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:17 +0000
Subject: [PATCH 42/69] fix: keep the lower bound of computeClustering's inner
 radius

---
 src/lib/core/Particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index a7446b7..41c409e 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -381,7 +381,7 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
         Vec3 position(center[0], center[1], center[2]);
         int id = particles->data<int>(idAttr,index)[0];
         double radius = std::max(0., radiusInside);
-        radius = std::min(100., radiusInside);
+        radius = std::min(100., radius);
         double innerRadius = .01 * radius * radiusSearch;
         double invRadius = 1 / (radiusSearch - innerRadius);
 
-- 
2.43.0


From ca55c5a95a52948e6aedd10526ae3948fd7a5cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:26 +0000
Subject: [PATCH 43/69] fix: write INT attributes to PDC as numbers, not as
 reinterpreted floats

---
 src/lib/io/PDC.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index d4158a8..c81ee48 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -170,6 +170,10 @@ bool writePDC(const char* filename,const ParticlesData& p,const bool compressed,
 
         // write data
         for(int partIndex = 0; partIndex < p.numParticles(); partIndex++){
+            if(attr.type == INT || attr.type == INDEXEDSTR){
+                write<BIGEND>(*output, (double)p.data<int>(attr, partIndex)[0]);
+                continue;
+            }
             const float* data = p.data<float>(attr, partIndex);
             for(int dim = 0; dim < count; dim++){
                 write<BIGEND>(*output, (double)data[dim]);
-- 
2.43.0


From 312df9e10ab07e9b71f6c44be335fdd7bab91690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:04 +0000
Subject: [PATCH 44/69] fix: refuse to write BGEO and GEO when position is not
 three values

---
 src/lib/io/BGEO.cpp | 2 +-
 src/lib/io/GEO.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index ae23325..f0d4eb5 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -367,7 +367,7 @@ bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed
     for(int i=0;i<p.numAttributes();i++){
         ParticleAttribute attr;
         p.attributeInfo(i,attr);
-        if(attr.name=="position"){
+        if(attr.name=="position" && attr.count==3){
             attrOffsets.push_back(0);
             foundPosition=true;
         }else{
diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index cc4c216..2ba871f 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -245,7 +245,7 @@ bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,
     for(int i=0;i<p.numAttributes();i++){
         ParticleAttribute attrib;
         p.attributeInfo(i,attrib);
-        if(attrib.name=="position"){
+        if(attrib.name=="position" && attrib.count==3){
             positionHandle=attrib;
             positionAccessor=ParticleAccessor(positionHandle);
             foundPosition=true;
-- 
2.43.0


From dd9910af8797c1ad3143b5287dc71520f419fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:04 +0000
Subject: [PATCH 45/69] fix: write to PTC only attributes that hold floats, and
 enough of them

---
 src/lib/io/PTC.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 06e7a72..5ea711e 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -237,6 +237,11 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     return simple;
 }
 
+static bool isFloat(const ParticleAttribute& attr)
+{
+    return attr.type==FLOAT || attr.type==VECTOR;
+}
+
 bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
@@ -258,6 +263,11 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
     bool foundNormal=p.attributeInfo("normal",normalHandle);
     bool foundRadius=p.attributeInfo("radius",radiusHandle);
 
+    // the values below are read as that many floats
+    if(foundPosition && (!isFloat(positionHandle) || positionHandle.count<3)) foundPosition=false;
+    if(foundNormal && (!isFloat(normalHandle) || normalHandle.count<3)) foundNormal=false;
+    if(foundRadius && (!isFloat(radiusHandle) || radiusHandle.count<1)) foundRadius=false;
+
     if(!foundPosition){
         if(errorStream) *errorStream <<"Partio: failed to find attr 'position' for PTC output"<<endl;
         return false;
@@ -299,17 +309,17 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
         ParticleAttribute attr;
         p.attributeInfo(i,attr);
         if(attr.name!="position" && attr.name!="radius" && attr.name!="normal"){
-            if(attr.count==3 && attr.type!=INT){
+            if(attr.count==3 && isFloat(attr)){
                 attrs.push_back(attr);
                 specs.push_back("color "+attr.name+"\n");
                 dataSize+=attr.count;
                 nVars++;
-            }else if(attr.count==1 && attr.type!=INT){
+            }else if(attr.count==1 && isFloat(attr)){
                 attrs.push_back(attr);
                 dataSize+=attr.count;
                 nVars++;
                 specs.push_back("float "+attr.name+"\n");
-            }else if(attr.count==16 && attr.type!=INT){
+            }else if(attr.count==16 && isFloat(attr)){
                 nVars++;
                 attrs.push_back(attr);
                 dataSize+=attr.count;
-- 
2.43.0


From c335fe258e4f976819b987ff35d8eb50c1dfe35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:33 +0000
Subject: [PATCH 46/69] fix: write to BIN only attributes of the channel's type
 and size

---
 src/lib/io/BIN.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index 4aa60f1..e39405e 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -375,6 +375,16 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
             ParticleAttribute attr;
             p.attributeInfo(attrIndex,attr);
 
+            // the values are read as these types below
+            const bool isVector = attr.name == "position" || attr.name == "velocity" || attr.name == "force"
+                || attr.name == "vorticity" || attr.name == "normal" || attr.name == "uvw";
+            const bool isInt = attr.name == "neighbors" || attr.name == "id";
+            if ((isInt ? attr.type != INT : attr.type != FLOAT && attr.type != VECTOR) || attr.count < (isVector ? 3 : 1))
+            {
+                cout << "Attribute found that  we don't support yet" << endl;
+                continue;
+            }
+
             //cout << attr.name << endl;
             if (attr.name ==  "position")
             {
-- 
2.43.0


From 517e0c9eef8a1fad64aacdbc8535e90eba40f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:33 +0000
Subject: [PATCH 47/69] fix: leave attributes PDA cannot hold out of the file

---
 src/lib/io/PDA.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 33edab8..0e550b7 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -141,15 +141,20 @@ bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,
 
     vector<ParticleAttribute> attrs;
     for (int aIndex=0;aIndex<p.numAttributes();aIndex++){
-        attrs.push_back(ParticleAttribute());
-        p.attributeInfo(aIndex,attrs[aIndex]);
-        *output<<" "<<attrs[aIndex].name;
+        ParticleAttribute attr;
+        p.attributeInfo(aIndex,attr);
+        // one column per scalar and three per vector is all the format can tell apart
+        if(attr.count!=(attr.type==VECTOR ? 3 : 1)){
+            if(errorStream) *errorStream<<"Partio: Unable to write "<<TypeName(attr.type)<<"["<<attr.count<<"] attribute "<<attr.name<<" to a pda file"<<endl;
+            continue;
+        }
+        attrs.push_back(attr);
+        *output<<" "<<attr.name;
     }
     *output<<endl;
 
-    // TODO: assert right count
     *output<<"TYPES"<<endl;
-    for (int aIndex=0;aIndex<p.numAttributes();aIndex++){
+    for (size_t aIndex=0;aIndex<attrs.size();aIndex++){
         switch(attrs[aIndex].type){
             case FLOAT: *output<<" R";break;
             case VECTOR: *output<<" V";break;
-- 
2.43.0


From d20e9f3fc3c25c300696a458d588206456c86045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:57 +0000
Subject: [PATCH 48/69] fix: partinfo without a file name prints the usage
 instead of crashing

---
 src/tools/partinfo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/partinfo.cpp b/src/tools/partinfo.cpp
index ee667c1..7a4d002 100644
--- a/src/tools/partinfo.cpp
+++ b/src/tools/partinfo.cpp
@@ -111,6 +111,10 @@ int main(int argc, char* argv[])
             particleIndices.insert(atoi(argv[i]));
         }
     }
+    if (!filename) {
+        help();
+        return 1;
+    }
     Partio::ParticlesDataMutable* p = Partio::read(filename);
     if (!p) {
         std::cerr << "Unable to read \"" << filename << "\"\n";
-- 
2.43.0


From 97bc9b17f0c0b60630169d3f2c1e20dc875e28f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:57 +0000
Subject: [PATCH 49/69] fix: partattr refuses an attribute the file does not
 have

---
 src/tools/partattr.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/partattr.cpp b/src/tools/partattr.cpp
index b8997f6..f8eac66 100644
--- a/src/tools/partattr.cpp
+++ b/src/tools/partattr.cpp
@@ -56,7 +56,11 @@ int main(int argc,char *argv[])
     }
 
     Partio::ParticleAttribute attrhandle;
-    p->attributeInfo(attrName.c_str(), attrhandle);
+    if (!p->attributeInfo(attrName.c_str(), attrhandle)) {
+        std::cerr << "No attribute " << attrName << " in " << argv[1] << std::endl;
+        p->release();
+        return 1;
+    }
     maxParticles = std::min(maxParticles, p->numParticles());
 
     if (attrhandle.type == Partio::INT) {
-- 
2.43.0


From 5b8daae2772cc464abd94da750827a2eecb34f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:19 +0000
Subject: [PATCH 50/69] fix: keep string tokens when a table holds a string
 twice in clone, clustering, BGEO and GEO readers

---
 src/lib/core/IndexedStrs.h | 68 ++++++++++++++++++++++++++++++++++++++
 src/lib/core/Particle.cpp  |  7 ++--
 src/lib/io/BGEO.cpp        | 11 +++---
 src/lib/io/GEO.cpp         |  3 +-
 4 files changed, 80 insertions(+), 9 deletions(-)
 create mode 100644 src/lib/core/IndexedStrs.h

diff --git a/src/lib/core/IndexedStrs.h b/src/lib/core/IndexedStrs.h
new file mode 100644
index 0000000..9650215
--- /dev/null
+++ b/src/lib/core/IndexedStrs.h
@@ -0,0 +1,68 @@
+/*
+PARTIO SOFTWARE
+Copyright 2010 Disney Enterprises, Inc. All rights reserved
+
+Redistribution and use in source and binary forms, with or without
+modification, are permitted provided that the following conditions are
+met:
+
+* Redistributions of source code must retain the above copyright
+notice, this list of conditions and the following disclaimer.
+
+* Redistributions in binary form must reproduce the above copyright
+notice, this list of conditions and the following disclaimer in
+the documentation and/or other materials provided with the
+distribution.
+
+* The names "Disney", "Walt Disney Pictures", "Walt Disney Animation
+Studios" or the names of its contributors may NOT be used to
+endorse or promote products derived from this software without
+specific prior written permission from Walt Disney Pictures.
+
+Disclaimer: THIS SOFTWARE IS PROVIDED BY WALT DISNEY PICTURES AND
+CONTRIBUTORS "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING,
+BUT NOT LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY, FITNESS
+FOR A PARTICULAR PURPOSE, NONINFRINGEMENT AND TITLE ARE DISCLAIMED.
+IN NO EVENT SHALL WALT DISNEY PICTURES, THE COPYRIGHT HOLDER OR
+CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL,
+EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO,
+PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR
+PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND BASED ON ANY
+THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
+(INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
+OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
+*/
+#ifndef _IndexedStrs_h_
+#define _IndexedStrs_h_
+
+#include "../Partio.h"
+#include <string>
+
+namespace Partio{
+
+// Adds a string to the table of an attribute under the next token. Unlike the register
+// functions this keeps the tokens of a table that holds the same string more than once
+// (setIndexedStr() can lead to such tables)
+
+inline int appendIndexedStr(ParticlesDataMutable& particles,const ParticleAttribute& attribute,const char* str)
+{
+    if(particles.lookupIndexedStr(attribute,str)<0) return particles.registerIndexedStr(attribute,str);
+    std::string unused(str);
+    do unused+='_'; while(particles.lookupIndexedStr(attribute,unused.c_str())>=0);
+    int token=particles.registerIndexedStr(attribute,unused.c_str());
+    particles.setIndexedStr(attribute,token,str);
+    return token;
+}
+
+inline int appendFixedIndexedStr(ParticlesDataMutable& particles,const FixedAttribute& attribute,const char* str)
+{
+    if(particles.lookupFixedIndexedStr(attribute,str)<0) return particles.registerFixedIndexedStr(attribute,str);
+    std::string unused(str);
+    do unused+='_'; while(particles.lookupFixedIndexedStr(attribute,unused.c_str())>=0);
+    int token=particles.registerFixedIndexedStr(attribute,unused.c_str());
+    particles.setFixedIndexedStr(attribute,token,str);
+    return token;
+}
+
+}
+#endif
diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 41c409e..1002cc0 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -39,6 +39,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #include <PartioVec3.h>
 #include "ParticleSimple.h"
 #include "ParticleSimpleInterleave.h"
+#include "IndexedStrs.h"
 #include <iostream>
 #include <string>
 #include <cstring>
@@ -121,7 +122,7 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
         if (srcFixedAttr.type == Partio::INDEXEDSTR) {
             const std::vector<std::string>& values = other.fixedIndexedStrs(srcFixedAttr);
             for (int j = 0, jend = values.size(); j < jend; ++j) {
-                p->registerFixedIndexedStr(dstFixedAttr, values[j].c_str());
+                appendFixedIndexedStr(*p, dstFixedAttr, values[j].c_str());
             }
         }
         // Copy fixed data
@@ -149,7 +150,7 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
         if (srcAttr.type == Partio::INDEXEDSTR) {
             const std::vector<std::string>& values = other.indexedStrs(srcAttr);
             for (int m = 0, mend = values.size(); m < mend; ++m) {
-                p->registerIndexedStr(dstAttr, values[m].c_str());
+                appendIndexedStr(*p, dstAttr, values[m].c_str());
             }
         }
         size_t size = Partio::TypeSize(srcAttr.type) * srcAttr.count;
@@ -354,7 +355,7 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
             if (attr.type == Partio::INDEXEDSTR) {
                 const std::vector<std::string>& strings = particles->indexedStrs(attr);
                 for (size_t j=0; j<strings.size(); j++) {
-                    cluster->registerIndexedStr(clusterAttributes.back(),strings[j].c_str());
+                    appendIndexedStr(*cluster,clusterAttributes.back(),strings[j].c_str());
                 }
             }
             if (attr.name == "position") {
diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index f0d4eb5..1d07197 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -35,6 +35,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 
 #include "PartioEndian.h"
 #include "../core/ParticleHeaders.h"
+#include "../core/IndexedStrs.h"
 #include "io.h"
 
 namespace Partio
@@ -52,19 +53,19 @@ template<class T>
 struct Helper
 {
     T addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size);
-    int registerIndexedStr(const T& attribute,const char* str);
+    int appendIndexedStr(const T& attribute,const char* str);
 };
 template<>
 struct Helper<ParticleAttribute>
 {
     ParticleAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) {return simple->addAttribute(name,type,size);}
-    int registerIndexedStr(ParticlesDataMutable* simple, const ParticleAttribute& attribute,const char* str) {return simple->registerIndexedStr(attribute,str);}
+    int appendIndexedStr(ParticlesDataMutable* simple, const ParticleAttribute& attribute,const char* str) {return Partio::appendIndexedStr(*simple,attribute,str);}
 };
 template<>
 struct Helper<FixedAttribute>
 {
     FixedAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) {return simple->addFixedAttribute(name,type,size);}
-    int registerIndexedStr(ParticlesDataMutable* simple, const FixedAttribute& attribute,const char* str) {return simple->registerFixedIndexedStr(attribute,str);}
+    int appendIndexedStr(ParticlesDataMutable* simple, const FixedAttribute& attribute,const char* str) {return Partio::appendFixedIndexedStr(*simple,attribute,str);}
 };
 
 class DummyAttribute {};
@@ -72,7 +73,7 @@ template<>
 struct Helper<DummyAttribute>
 {
     DummyAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) { return DummyAttribute(); }
-    int registerIndexedStr(ParticlesDataMutable* simple, const DummyAttribute& attribute,const char* str) { return 0; }
+    int appendIndexedStr(ParticlesDataMutable* simple, const DummyAttribute& attribute,const char* str) { return 0; }
 };
 struct DummyAccessor{
     template<class T>
@@ -135,7 +136,7 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
                 input->read(indexName,indexNameLength);
                 indexName[indexNameLength]=0;
                 if (!headersOnly) {
-                    int id=helper.registerIndexedStr(simple,attribute,indexName);
+                    int id=helper.appendIndexedStr(simple,attribute,indexName);
                     if(id != ii){
                         if(errorStream) *errorStream <<"Partio: error on read, expected registerIndexStr to return index "<<ii<<" but got "<<id<<" for string "<<indexName<<std::endl;
                     }
diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 2ba871f..95b0a58 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -34,6 +34,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 */
 
 #include "../core/ParticleHeaders.h"
+#include "../core/IndexedStrs.h"
 #include "io.h"
 
 namespace Partio
@@ -145,7 +146,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
                 //*input>>indexName;
                 indexName=scanString(*input);
                 if (!headersOnly) {
-                    int id=simple->registerIndexedStr(attribute,indexName.c_str());
+                    int id=appendIndexedStr(*simple,attribute,indexName.c_str());
                     if(id != j){
                         if(errorStream) *errorStream<<"Partio: error on read, expected registerIndexStr to return index "<<j<<" but got "<<id<<" for string "<<indexName<<endl;
                     }
-- 
2.43.0


From e7cc276c9a9cb66a1ce3e729a547b3f3bee8eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:10 +0000
Subject: [PATCH 51/69] fix: python find functions refuse sequences longer than
 their buffer and report wrong lengths

---
 src/py/partio.i | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 0835111..472a976 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -124,8 +124,12 @@ public:
         PyErr_SetString(PyExc_TypeError,"Expecting a sequence");
         return NULL;
     }
-    int size=PyObject_Length($input);
-    $1.count=size;
+    Py_ssize_t size=PyObject_Length($input);
+    if(size<0 || size>16){
+        if(!PyErr_Occurred()) PyErr_SetString(PyExc_ValueError,"Expecting a sequence of at most 16 floats");
+        return NULL;
+    }
+    $1.count=(int)size;
     for(i=0;i<size;i++){
         PyObject* o=PySequence_GetItem($input,i);
         if(!PyFloat_Check(o)){
@@ -253,7 +257,7 @@ public:
     {
         // make sure we are close
         if(center.count!=3){
-            fprintf(stderr,"Need center to be a 3 tuple of floats\n");
+            PyErr_SetString(PyExc_ValueError,"Need center to be a 3 tuple of floats");
             return NULL;
         }
         // find nearest neighbors
@@ -277,7 +281,7 @@ public:
     {    
         // make sure we are close
         if(bboxMin.count!=3 || bboxMax.count!=3){
-            fprintf(stderr,"Need bboxMin and bboxMax to be a 3 tuple of floats\n");
+            PyErr_SetString(PyExc_ValueError,"Need bboxMin and bboxMax to be a 3 tuple of floats");
             return NULL;
         }
         // find nearest neighbors
-- 
2.43.0


From e9f081854fc50586d1b200ff86ee40acbab9bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:10 +0000
Subject: [PATCH 52/69] fix: python clone maps take byte strings as new names
 and leak no references

---
 src/py/partio.i | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 472a976..6936187 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -613,21 +613,27 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     PyObject *key = nullptr;
     PyObject *value = nullptr;
     Py_ssize_t pos = 0;
+    auto toString = [](PyObject *text) -> std::string {
+        if (PyBytes_Check(text))
+            return PyBytes_AsString(text);
+        std::string result;
+        if (PyUnicode_Check(text)) {
+            if (PyObject *bytes = PyUnicode_AsUTF8String(text)) {
+                result = PyBytes_AsString(bytes);
+                Py_DECREF(bytes);
+            }
+        }
+        return result;
+    };
 
     if (PyDict_Check($input)) {
         while (PyDict_Next($input, &pos, &key, &value)) {
-            std::string key_str;
-            if (PyBytes_Check(key))
-                key_str = PyBytes_AsString(key);
-            else if (PyUnicode_Check(key))
-                key_str = PyBytes_AsString(PyUnicode_AsUTF8String(key));
+            std::string key_str = toString(key);
+            if (PyErr_Occurred()) SWIG_fail;
             if (key_str.empty())
                 continue;
-            std::string value_str;
-            if (PyBytes_Check(value))
-                key_str = PyBytes_AsString(value);
-            else if (PyUnicode_Check(value))
-                value_str = PyBytes_AsString(PyUnicode_AsUTF8String(value));
+            std::string value_str = toString(value);
+            if (PyErr_Occurred()) SWIG_fail;
             temp[std::move(key_str)] = std::move(value_str);
         }
         $1 = &temp;
-- 
2.43.0


From e1bf93e946fbb855597e6480233c313d9a4556b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:10 +0000
Subject: [PATCH 53/69] fix: python particle indices raise when they are no
 integers or no particle

---
 src/py/partio.i | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 6936187..ca42520 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -109,7 +109,9 @@ public:
 
 
 %typemap(in) uint64_t {
-	$1 = (uint64_t) PyLong_AsLong($input);
+	long index = PyLong_AsLong($input);
+	if(index == -1 && PyErr_Occurred()) SWIG_fail;
+	$1 = (uint64_t) index;
 }
 %typemap(out) uint64_t {
 	$result = PyLong_FromLong(
@@ -300,6 +302,10 @@ public:
     %feature("docstring","Gets attribute data for particleIndex'th particle");
     PyObject* get(const ParticleAttribute& attr,const ParticleIndex particleIndex)
     {
+        if(particleIndex>=(ParticleIndex)$self->numParticles()){
+            PyErr_SetString(PyExc_IndexError,"Invalid particle index");
+            return NULL;
+        }
         PyObject* tuple=PyTuple_New(attr.count);
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
             const int* p=$self->data<int>(attr,particleIndex);
-- 
2.43.0


From 5c15de060b6d61d5dedcb0e4da4d635139aae298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:10 +0000
Subject: [PATCH 54/69] fix: python attribute lookup by an invalid index raises
 IndexError

---
 src/py/partio.i | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index ca42520..81cd189 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -478,6 +478,15 @@ public:
     unsigned long long ptr() const { return (unsigned long long)(void*)self; }
 }
 
+%exception ParticlesInfo::attributeInfo {
+    $action
+    if(PyErr_Occurred()) SWIG_fail;
+}
+%exception ParticlesInfo::fixedAttributeInfo {
+    $action
+    if(PyErr_Occurred()) SWIG_fail;
+}
+
 %extend ParticlesInfo {
 
     %feature("autodoc");
-- 
2.43.0


From d6d49d7bafee721c393d3623b3d7827d03a0a500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:10 +0000
Subject: [PATCH 55/69] fix: python set and setFixed raise OverflowError for
 integers that do not fit

---
 src/py/partio.i | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 81cd189..3e22b74 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -67,6 +67,23 @@ struct fixedFloatArray
     };
 };
 
+// Converts a python integer, raises an exception if it isn't one or doesn't fit
+static bool intFromPython(PyObject* o,int& result)
+{
+    if(!PyInt_Check(o)){
+        PyErr_SetString(PyExc_ValueError,"Expecting a sequence of ints");
+        return false;
+    }
+    long value=PyInt_AsLong(o);
+    if(value==-1 && PyErr_Occurred()) return false;
+    if(value!=(long)(int)value){
+        PyErr_SetString(PyExc_OverflowError,"Integer does not fit the attribute");
+        return false;
+    }
+    result=(int)value;
+    return true;
+}
+
 %}
 
 // Particle Types
@@ -383,11 +400,8 @@ public:
             if (p) {
                 for(int i=0;i<size;i++){
                     PyObject* o=PySequence_GetItem(tuple,i);
-                    if(PyInt_Check(o)){
-                        p[i]=PyInt_AsLong(o);
-                    }else{
+                    if(!intFromPython(o,p[i])){
                         Py_XDECREF(o);
-                        PyErr_SetString(PyExc_ValueError,"Expecting a sequence of ints");
                         return NULL;
                     }
                     Py_XDECREF(o);
@@ -402,7 +416,12 @@ public:
                     if(PyFloat_Check(o)){
                         p[i]=PyFloat_AsDouble(o);
                     }else if(PyInt_Check(o)){
-                        p[i]=(float)PyInt_AsLong(o);
+                        long value=PyInt_AsLong(o);
+                        if(value==-1 && PyErr_Occurred()){
+                            Py_XDECREF(o);
+                            return NULL;
+                        }
+                        p[i]=(float)value;
                     }else{
                         Py_XDECREF(o);
                         PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats or ints");
@@ -439,11 +458,8 @@ public:
             int* p=$self->fixedDataWrite<int>(attr);
             for(int i=0;i<size;i++){
                 PyObject* o=PySequence_GetItem(tuple,i);
-                if(PyInt_Check(o)){
-                    p[i]=PyInt_AsLong(o);
-                }else{
+                if(!intFromPython(o,p[i])){
                     Py_XDECREF(o);
-                    PyErr_SetString(PyExc_ValueError,"Expecting a sequence of ints");
                     return NULL;
                 }
                 Py_XDECREF(o);
@@ -456,7 +472,12 @@ public:
                 if(PyFloat_Check(o)){
                     p[i]=PyFloat_AsDouble(o);
                 }else if(PyInt_Check(o)){
-                    p[i]=(float)PyInt_AsLong(o);
+                    long value=PyInt_AsLong(o);
+                    if(value==-1 && PyErr_Occurred()){
+                        Py_XDECREF(o);
+                        return NULL;
+                    }
+                    p[i]=(float)value;
                 }else{
                     Py_XDECREF(o);
                     PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats or ints");
-- 
2.43.0


From 59b6fe5c69db68234c5d6e134612e4c1acde83f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:10 +0000
Subject: [PATCH 56/69] fix: python owns the sets made by clone, cloneSchema
 and computeClustering

---
 src/py/partio.i | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 3e22b74..5e78363 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -622,6 +622,7 @@ void print(const ParticlesData* particles);
 
 %feature("autodoc");
 %feature("docstring","Creates a clustered particle set");
+%newobject computeClustering;
 ParticlesDataMutable* computeClustering(ParticlesDataMutable* particles,const int numNeighbors,const double radiusSearch,const double radiusInside,const int connections,const double density)=0;
 
 %feature("autodoc");
@@ -680,10 +681,12 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
 
 %feature("autodoc");
 %feature("docstring","Clone a particle set's attribute schema");
+%newobject cloneSchema;
 ParticlesDataMutable* cloneSchema(const ParticlesData& other, const std::map<std::string, std::string>* attrNameMap=nullptr);
 
 %feature("autodoc");
 %feature("docstring","Clone a particle set");
+%newobject clone;
 ParticlesDataMutable* clone(const ParticlesData& other, bool particles, const std::map<std::string, std::string>* attrNameMap=nullptr);
 
 %feature("autodoc");
-- 
2.43.0


From 56f737e26f4e38b2b5b2fa9be3c5cc94d7a40128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:10 +0000
Subject: [PATCH 57/69] fix: python functions raise when given None for a name,
 file or set

---
 src/py/partio.i | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 5e78363..aa512f4 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -169,6 +169,12 @@ public:
     $result=tuple;
 }
 
+// None converts to a null pointer, which partio cannot take
+%typemap(check) const char*, const ParticlesData* particles, ParticlesDataMutable* particles
+{
+    if(!$1) SWIG_exception_fail(SWIG_TypeError,"None is not allowed for argument $argnum of $symname");
+}
+
 %typemap(freearg) float* floatTupleIn
 {
     delete [] $1;
-- 
2.43.0


From 8d4532a46e74ce81303766ee9404857c57af201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:52 +0000
Subject: [PATCH 58/69] fix: python clone and cloneSchema accept None and byte
 strings as name map

---
 src/py/partio.i | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index aa512f4..336e455 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -651,6 +651,11 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
  */
 %template() std::map<std::string, std::string>;
 
+/* clone and cloneSchema are overloaded (optional arguments), this says which arguments the typemap below takes. */
+%typemap(typecheck, precedence=SWIG_TYPECHECK_MAP) const std::map<std::string, std::string> * attrNameMap {
+    $1 = PyDict_Check($input) || $input == Py_None;
+}
+
 /* typemap to convert Python arguments into an attrNameMap std::map pointer. */
 %typemap(in) const std::map<std::string, std::string> * attrNameMap (std::map<std::string, std::string> temp) {
     PyObject *key = nullptr;
-- 
2.43.0


From bcc1dd5d21fee1562147d504a714f9a8735960db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 59/69] fix: merging a particle set into itself ends

---
 src/lib/core/Particle.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 1002cc0..d4f286c 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -602,7 +602,9 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     bool hasIdentifier = (baseHasIdentifier0 && deltaHasIdentifier0) || (baseHasIdentifier1 && deltaHasIdentifier1);
     // just append if there are mismatched attributes
     hasIdentifier = hasIdentifier && !((baseHasIdentifier0 ^ deltaHasIdentifier0) || (baseHasIdentifier1 ^ deltaHasIdentifier1));
-    for (int i=0; i<delta.numParticles(); ++i) {
+    // base may be delta itself, don't merge what is added here
+    const int numDelta = delta.numParticles();
+    for (int i=0; i<numDelta; ++i) {
 
         // Grab index into base particle set - either existing or new
         int index(-1);
-- 
2.43.0


From bdf7d21c2a014ac2a066645b0a4eba0f00483244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 60/69] fix: merge leaves attributes whose type or count differ
 alone

---
 src/lib/core/Particle.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index d4f286c..251e0a4 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -519,7 +519,8 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     for (int i=0; i<base.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
         base.attributeInfo(i, baseAttr);
-        if (delta.attributeInfo(baseAttr.name.c_str(), deltaAttr)) {
+        if (delta.attributeInfo(baseAttr.name.c_str(), deltaAttr) &&
+            deltaAttr.type == baseAttr.type && deltaAttr.count == baseAttr.count) {
             if (baseAttr.type == INDEXEDSTR) {
                 indexStrAttrs.push_back(attrs.size());
             }
@@ -550,7 +551,8 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     for (int i=0; i<base.numFixedAttributes(); ++i) {
         FixedAttribute baseAttr, deltaAttr;
         base.fixedAttributeInfo(i, baseAttr);
-        if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr)) {
+        if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr) &&
+            deltaAttr.type == baseAttr.type && deltaAttr.count == baseAttr.count) {
             setFixedFromDelta(base, baseAttr, delta, deltaAttr);
         }
     }
-- 
2.43.0


From 4eb62528b052aca143239abdb136760f44f2a84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:53 +0000
Subject: [PATCH 61/69] fix: partjson skips attributes of a particle that are
 not defined, as it says

---
 src/tools/partjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/partjson.py b/src/tools/partjson.py
index 342253d..b9b8292 100644
--- a/src/tools/partjson.py
+++ b/src/tools/partjson.py
@@ -124,7 +124,7 @@ def fromJson(data):
             for attrName, value in particle.items():
                 try:
                     attr = attributes[attrName]
-                except IndexError:
+                except KeyError:
                     sys.stderr.write('Could not match attribute "{}" for particle {} with any defined attributes. Skipping.\n'.format(attrName, pnum))
                     continue
                 if len(value) != attr.count:
-- 
2.43.0


From b92edae5f2bed66dc8ed430577f2537c724d84ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:53 +0000
Subject: [PATCH 62/69] fix: partjson keeps the indices of string tables with
 repeated strings

---
 src/tools/partjson.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/tools/partjson.py b/src/tools/partjson.py
index b9b8292..3d54ceb 100644
--- a/src/tools/partjson.py
+++ b/src/tools/partjson.py
@@ -73,6 +73,19 @@ def toJson(particleSet):
     return data
 
 
+def appendIndexedStr(lookup, register, assign, attr, string):
+    """ Adds a string to the table of an attribute under the next index. Registering
+        a string that is in the table would not add it, and shift the ones after it """
+
+    if lookup(attr, string) < 0:
+        register(attr, string)
+        return
+    unused = string + '_'
+    while lookup(attr, unused) >= 0:
+        unused += '_'
+    assign(attr, register(attr, unused), string)
+
+
 def fromJson(data):
     """ Converts a json dictionary to a particle set """
 
@@ -105,7 +118,8 @@ def fromJson(data):
                 sys.stderr.write('Could not match fixed indexed string {} with any defined fixed attribute. Skipping.\n'.format(attrName))
                 continue
             for string in strings:
-                particleSet.registerFixedIndexedStr(fixedAttributes[attrName], string)
+                appendIndexedStr(particleSet.lookupFixedIndexedStr, particleSet.registerFixedIndexedStr,
+                                 particleSet.setFixedIndexedStr, fixedAttributes[attrName], str(string))
 
     # Convert indexed strings
     if 'indexedStrings' in data:
@@ -114,7 +128,8 @@ def fromJson(data):
                 sys.stderr.write('Could not match indexed string {} with any defined attribute. Skipping.\n'.format(attrName))
                 continue
             for string in strings:
-                particleSet.registerIndexedStr(attributes[attrName], str(string))
+                appendIndexedStr(particleSet.lookupIndexedStr, particleSet.registerIndexedStr,
+                                 particleSet.setIndexedStr, attributes[attrName], str(string))
 
     # Convert particles
     if 'particles' in data:
-- 
2.43.0


From d450265d61508322d8a96624ae9722ed24723795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:03 +0000
Subject: [PATCH 63/69] fix: partedit copies the values of all attributes when
 attributes are removed

---
 src/tools/partedit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index 0c7774e..6df82e4 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -94,7 +94,7 @@ def copyParticles(src, dst):
     srcAttrs = {attr.name:attr for attr in srcAttrs}
     dstAttrs = {attr.name:attr for attr in dstAttrs}
     attrs = {'src':[], 'dst':[]}
-    for name, srcAttr in srcAttrs.iteritems():
+    for name, srcAttr in srcAttrs.items():
         if name in dstAttrs:
             attrs['src'].append(srcAttr)
             attrs['dst'].append(dstAttrs[name])
@@ -102,7 +102,7 @@ def copyParticles(src, dst):
     numParticles = src.numParticles()
     dst.addParticles(numParticles)
     for pnum in range(numParticles):
-        for anum in range(len(attrs)):
+        for anum in range(len(attrs['src'])):
             dst.set(attrs['dst'][anum], pnum, src.get(attrs['src'][anum], pnum))
 
 #------------------------------------------------------------------------------
-- 
2.43.0


From 8b551ba7e226852a0f293ebf266e6860207fbea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:03 +0000
Subject: [PATCH 64/69] fix: partedit keeps the string tables when it removes
 particles or attributes or saves a delta

---
 src/tools/partedit.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index 6df82e4..ec43972 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -84,6 +84,28 @@ def getAttrs(numAttributesFunc, attributeInfoFunc, sort=False):
 
     return attrs
 
+#--------------------------------------------------------------------------
+def copyIndexedStrs(src, srcAttr, dst, dstAttr, fixed=False):
+    """ Copy the string table of an attribute, keeping the index of each string """
+
+    if srcAttr.type != partio.INDEXEDSTR:
+        return
+    if fixed:
+        strings = src.fixedIndexedStrs(srcAttr)
+        lookup, register, assign = dst.lookupFixedIndexedStr, dst.registerFixedIndexedStr, dst.setFixedIndexedStr
+    else:
+        strings = src.indexedStrs(srcAttr)
+        lookup, register, assign = dst.lookupIndexedStr, dst.registerIndexedStr, dst.setIndexedStr
+    for string in strings:
+        # Registering a string that is in the table would not add it,
+        # and shift the ones after it
+        unused = string
+        while lookup(dstAttr, unused) >= 0:
+            unused += '_'
+        index = register(dstAttr, unused)
+        if unused != string:
+            assign(dstAttr, index, string)
+
 #--------------------------------------------------------------------------
 def copyParticles(src, dst):
     """ Copy particles from src to dst. """
@@ -98,6 +120,7 @@ def copyParticles(src, dst):
         if name in dstAttrs:
             attrs['src'].append(srcAttr)
             attrs['dst'].append(dstAttrs[name])
+            copyIndexedStrs(src, srcAttr, dst, dstAttrs[name])
 
     numParticles = src.numParticles()
     dst.addParticles(numParticles)
@@ -258,6 +281,7 @@ class ParticleData(QObject):
             attr = self.data.attributeInfo(anum)
             oldAttrs.append(attr)
             newAttr = data.addAttribute(attr.name, attr.type, attr.count)
+            copyIndexedStrs(self.data, attr, data, newAttr)
             newAttrs.append(newAttr)
 
         data.addParticles(len(modifiedHashes))
@@ -313,7 +337,8 @@ class ParticleData(QObject):
         want = [pnum for pnum in range(self.data.numParticles()) if pnum not in indices ]
         newData = partio.clone(self.data, False)
         for attr in attributes:
-            newData.addAttribute(attr.name, attr.type, attr.count)
+            newAttr = newData.addAttribute(attr.name, attr.type, attr.count)
+            copyIndexedStrs(self.data, attr, newData, newAttr)
         newData.addParticles(len(want))
         for i, idx in enumerate(want):
             for attr in attributes:
@@ -363,6 +388,7 @@ class ParticleData(QObject):
         for anum in range(self.data.numFixedAttributes()):
             oldAttr = self.data.fixedAttributeInfo(anum)
             newAttr = newData.addFixedAttribute(oldAttr.name, oldAttr.type, oldAttr.count)
+            copyIndexedStrs(self.data, oldAttr, newData, newAttr, fixed=True)
             newData.setFixed(newAttr, self.data.getFixed(oldAttr))
 
         self.setData(newData)
@@ -389,6 +415,7 @@ class ParticleData(QObject):
             srcAttr = self.fixedAttributeInfo(anum)
             if srcAttr.name not in names:
                 dstAttr = newData.addFixedAttribute(srcAttr.name, srcAttr.type, srcAttr.count)
+                copyIndexedStrs(self.data, srcAttr, newData, dstAttr, fixed=True)
                 newData.setFixed(dstAttr, self.data.getFixed(srcAttr))
 
         self.setData(newData)
-- 
2.43.0


From 96b8c351d01045c232c676a1d57ac791a6fb2dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:03 +0000
Subject: [PATCH 65/69] fix: partedit adds a particle to an empty particle set

---
 src/tools/partedit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index ec43972..842f0aa 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -296,7 +296,8 @@ class ParticleData(QObject):
     #--------------------------------------------------------------------------
     def addParticle(self):
         """ Adds a new particle, emitting its new index.
-            The new particle's values are copied from the last particle.
+            The new particle's values are copied from the last particle,
+            and zero for the first one.
             If the particle set has the 'id' attribute, the new
             particle id is set to max(ids)+1.
         """
@@ -310,12 +311,14 @@ class ParticleData(QObject):
 
         idAttr = self.attributeInfo('id')
         if idAttr:
-            newId = max(self.data.get(idAttr, pnum)[0] for pnum in range(numParticles)) + 1
+            newId = max([self.data.get(idAttr, pnum)[0] for pnum in range(numParticles)] or [-1]) + 1
 
         for anum in range(numAttr):
             attr = self.attributeInfo(anum)
             if idAttr and attr.name == 'id':
                 value = (newId,)
+            elif not numParticles:
+                value = (0,) * attr.count
             else:
                 value = self.get(attr, numParticles-1)
             self.set(attr, numParticles, value)
-- 
2.43.0


From 9dd83916a4fecec00110b003e087afb1a64fc653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:03 +0000
Subject: [PATCH 66/69] fix: a partedit delta holds every particle that
 changed, in order

---
 src/tools/partedit.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index 842f0aa..dc523a8 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -243,23 +243,23 @@ class ParticleData(QObject):
         """
 
         def hashParticles(data):
-            """ Given a partio data set, create a dictionary of hashes
-                to indices
+            """ Given a partio data set, create a list of the hashes
+                of its particles
             """
-            items = {}
+            items = []
             numAttrs = data.numAttributes()
             for pnum in range(data.numParticles()):
                 item = []
                 for anum in range(numAttrs):
                     attr = data.attributeInfo(anum)
                     item.append(data.get(attr, pnum))
-                items[hash(str(item))] = pnum
+                items.append(hash(str(item)))
             return items
 
         # TODO: Handle new attributes as deltas
         # For now, any new attributes will write all of the particles
 
-        # Hash up the new data into an index table
+        # Hash up the particles
         newParticles = hashParticles(self.data)
         oldParticles = hashParticles(self.originalData)
 
@@ -269,9 +269,8 @@ class ParticleData(QObject):
             return data
 
         # Identify which particles changed
-        oldHashes = set(oldParticles.keys())
-        newHashes = set(newParticles.keys())
-        modifiedHashes = newHashes - oldHashes
+        oldHashes = set(oldParticles)
+        modified = [pnum for pnum, newHash in enumerate(newParticles) if newHash not in oldHashes]
 
         # Create the new particle set
         numAttrs = self.data.numAttributes()
@@ -284,9 +283,8 @@ class ParticleData(QObject):
             copyIndexedStrs(self.data, attr, data, newAttr)
             newAttrs.append(newAttr)
 
-        data.addParticles(len(modifiedHashes))
-        for newIndex, modifiedHash in enumerate(modifiedHashes):
-            oldIndex = newParticles[modifiedHash]
+        data.addParticles(len(modified))
+        for newIndex, oldIndex in enumerate(modified):
             for anum, oldAttr in enumerate(oldAttrs):
                 value = self.data.get(oldAttr, oldIndex)
                 data.set(newAttrs[anum], newIndex, value)
-- 
2.43.0


From 12747b68ca35b53fdd1a3acb99276fd4da1e8e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:03 +0000
Subject: [PATCH 67/69] fix: partedit deltas keep the changes made before a
 removal

---
 src/tools/partedit.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index dc523a8..517d860 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -154,12 +154,14 @@ class ParticleData(QObject):
             self.dirtied.emit(dirty)
 
     #--------------------------------------------------------------------------
-    def setData(self, data):
+    def setData(self, data, rebaseline=True):
         """ Sets the data, linking class methods to partio methods and
             notifying all observers that the data set has changed.
+            Edits keep the baseline that deltas are made against.
         """
         self.data = data
-        self.originalData = copy(data)
+        if rebaseline:
+            self.originalData = copy(data)
         self.facade()
         self.dataReset.emit()
 
@@ -345,7 +347,7 @@ class ParticleData(QObject):
             for attr in attributes:
                 newData.set(attr, i, self.data.get(attr, idx))
 
-        self.setData(newData)
+        self.setData(newData, rebaseline=False)
         self.setDirty(True)
 
     #--------------------------------------------------------------------------
@@ -392,7 +394,7 @@ class ParticleData(QObject):
             copyIndexedStrs(self.data, oldAttr, newData, newAttr, fixed=True)
             newData.setFixed(newAttr, self.data.getFixed(oldAttr))
 
-        self.setData(newData)
+        self.setData(newData, rebaseline=False)
         self.setDirty(True)
 
 
@@ -419,7 +421,7 @@ class ParticleData(QObject):
                 copyIndexedStrs(self.data, srcAttr, newData, dstAttr, fixed=True)
                 newData.setFixed(dstAttr, self.data.getFixed(srcAttr))
 
-        self.setData(newData)
+        self.setData(newData, rebaseline=False)
         self.setDirty(True)
 
 #------------------------------------------------------------------------------
-- 
2.43.0


From ae881ceb55fa77d0e445197076c48d7866f7ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:03 +0000
Subject: [PATCH 68/69] fix: PTS lines may be longer than 1023 characters

---
 src/lib/io/PTS.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index dc81426..c15f40d 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -74,17 +74,17 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     // since there's no header data to parse we're just going to hard code this
 
     /* Determine amount of values per line */
-    char line[1024];
+    string line; // as long as it takes
     /* Jump over first line. */
-	input->getline(line,1024);
-    input->getline(line,1024);
-    string firstLine(line); // the stream may be compressed, so we cannot go back to it
+    getline(*input,line);
+    getline(*input,line);
+    string firstLine(line.c_str()); // the stream may be compressed, so we cannot go back to it
     int valcount = 0;
 #ifdef PARTIO_WIN32
 	char * nextLine = NULL;
-    char * pch = strtok_s( line, "\t ", &nextLine );
+    char * pch = strtok_s( &line[0], "\t ", &nextLine );
 #else
-	char * pch = strtok( line, "\t " );
+	char * pch = strtok( &line[0], "\t " );
 #endif
     while ( pch )
     {
@@ -166,10 +166,10 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     for (unsigned int particleIndex=0;first || input->good();)
     {
         string token = "";
-        char line[1024];
-        if (!first) input->getline(line, 1024);
+        string line;
+        if (!first) getline(*input, line);
 
-        stringstream ss(first ? firstLine.c_str() : line);
+        stringstream ss(first ? firstLine : string(line.c_str()));
         first=false;
 
         float lineData[8];
-- 
2.43.0


From d8a89553e5b54b35a59829705871ab3365c0af4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:32 +0000
Subject: [PATCH 69/69] fix: partattr prints out-of-range string indices
 without reading past the table

---
 src/tools/partattr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/partattr.cpp b/src/tools/partattr.cpp
index f8eac66..e9b4e0e 100644
--- a/src/tools/partattr.cpp
+++ b/src/tools/partattr.cpp
@@ -73,7 +73,9 @@ int main(int argc,char *argv[])
         const std::vector<std::string>& indexedStrs = p->indexedStrs(attrhandle);
         for(int i = 0; i < std::min(maxParticles, p->numParticles());i++){
             const int index = p->data<int>(attrhandle,i)[0];
-            std::cout << attrName << "[" << i << "]='" << indexedStrs[index]<<"'\n";
+            std::cout << attrName << "[" << i << "]=";
+            if (index >= 0 && (size_t)index < indexedStrs.size()) std::cout << "'" << indexedStrs[index] << "'\n";
+            else std::cout << "<out-of-bounds>\n";
        }
     }
     else {
-- 
2.43.0

