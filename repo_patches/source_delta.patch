From 5796a821693564098699e03c05a787a3295550cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:33 +0000
Subject: [PATCH 01/58] fix: range contexts freed an uninitialised iterator;
 variables and ranges dereferenced past the end of an empty index

---
 src/mws/index/IndexIterator.hpp |  6 +++++-
 src/mws/query/SearchContext.cpp | 17 ++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/mws/index/IndexIterator.hpp b/src/mws/index/IndexIterator.hpp
index 1a14660..f551b8e 100644
--- a/src/mws/index/IndexIterator.hpp
+++ b/src/mws/index/IndexIterator.hpp
@@ -63,7 +63,11 @@ class IndexIterator {
 
     typename Accessor::Node* next() {
         if (_backtrackIterators.empty()) {  // add first branch
-            _push(Accessor::getChildrenIterator(_root));
+            auto first = Accessor::getChildrenIterator(_root);
+            if (!first.isValid()) {  // empty index
+                return nullptr;
+            }
+            _push(first);
         } else {  // or find first unexplored branch
             while (!_backtrackIterators.back().hasNext()) {
                 _pop();
diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index eba24a9..5b29e68 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -119,19 +119,20 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
 
     typename Accessor::Index* index;
     typename Accessor::Node* root;
-    typename Accessor::Iterator* iterator;
+    // no default constructor for iterators, hence the pointer
+    unique_ptr<typename Accessor::Iterator> iterator;
 
     typename Accessor::Node* solve(typename Accessor::Index* index,
                                    typename Accessor::Node* root) {
         this->index = index;
         this->root = root;
 
-        // XXX:
-        typename Accessor::Iterator it = Accessor::getChildrenIterator(root);
-        // malloc'ed because there is no default constructor
-        iterator = (typename Accessor::Iterator*)malloc(sizeof(it));
-        assert(iterator != nullptr);
-        *iterator = it;
+        iterator.reset(new typename Accessor::Iterator(
+            Accessor::getChildrenIterator(root)));
+        if (!iterator->isValid()) {  // empty index
+            this->isSolved = false;
+            return nullptr;
+        }
 
         encoded_token_t tok = Accessor::getToken(*iterator);
         while (!validSubst(tok) && iterator->hasNext()) {
@@ -176,8 +177,6 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
         return node;
     }
 
-    ~RangeCtxt() { free(iterator); }
-
  private:
     bool isCmmlNumber(encoded_token_t tok) {
         if (tok.arity != 0) return false;
-- 
2.43.0


From eca69c93174401fe0f9b82f587a7355dd6854d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:33 +0000
Subject: [PATCH 02/58] fix: a range without a (valid) low bound excluded zero
 and negative numbers

---
 src/mws/types/CmmlToken.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mws/types/CmmlToken.cpp b/src/mws/types/CmmlToken.cpp
index 2dc954c..e2623c5 100644
--- a/src/mws/types/CmmlToken.cpp
+++ b/src/mws/types/CmmlToken.cpp
@@ -228,7 +228,7 @@ std::string CmmlToken::getAttribute(const std::string& attr) const {
 /**
  * @brief CmmlToken::getRangeBounds
  * @return a pair with the first field set to the low bound
- * (MIN_DOUBLE if no low bound found)
+ * (lowest double if no low bound found)
  * and the second field set to the upper bound
  * (MAX_DOUBLE if no upper bound found)
  */
@@ -239,7 +239,7 @@ const std::pair<double, double> CmmlToken::getRangeBounds() const {
 
     auto itLow = _attributes.find(RANGE_LOW_ATTR);
     if (itLow == _attributes.end()) {
-        bounds.first = numeric_limits<double>::min();
+        bounds.first = numeric_limits<double>::lowest();
     } else {
         try {
             bounds.first = std::stod(itLow->second);
@@ -247,7 +247,7 @@ const std::pair<double, double> CmmlToken::getRangeBounds() const {
         catch (std::exception & e) {
             UNUSED(e);
             PRINT_WARN("Invalid low bound for range.");
-            bounds.first = numeric_limits<double>::min();
+            bounds.first = numeric_limits<double>::lowest();
         }
     }
 
-- 
2.43.0


From aa958cfd49b663c544ef926707eb3288454e833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:33 +0000
Subject: [PATCH 03/58] fix: an ampersand in an attribute (url, data id,
 variable name) was read as '&#38;'

---
 src/mws/xmlparser/processMwsHarvest.cpp | 9 ++++++---
 src/mws/xmlparser/readMwsQuery.cpp      | 3 +++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index a61621e..3d85588 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -486,10 +486,13 @@ HarvestResult processHarvestFromFd(int fd, HarvestProcessor* harvestProcessor,
                                          XML_CHAR_ENCODING_UTF8)) ==
         nullptr) {
         PRINT_WARN("Error while creating the ParserContext\n");
-    }
+    } else {
+        // Report "&amp;" in attribute values as "&", not as "&#38;"
+        ctxtPtr->replaceEntities = 1;
         // Parsing the document
-        else if ((result.status = xmlParseDocument(ctxtPtr)) == -1) {
-        PRINT_WARN("Parsing XML document failed\n");
+        if ((result.status = xmlParseDocument(ctxtPtr)) == -1) {
+            PRINT_WARN("Parsing XML document failed\n");
+        }
     }
 
     // Freeing the parser context
diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 95bce09..ec077ca 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -401,6 +401,9 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
         return nullptr;
     }
 
+    // Report "&amp;" in attribute values as "&", not as "&#38;"
+    ctxtPtr->replaceEntities = 1;
+
     ret = xmlParseDocument(ctxtPtr);
     if (ret == -1) {
         PRINT_WARN("Parsing failed\n");
-- 
2.43.0


From f744b94d54622fe4dca3e828eb79785a0115ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:10 +0000
Subject: [PATCH 04/58] fix: expressions with more variables or ranges than
 there are ids were confused with other variables, ranges or symbols

---
 src/mws/index/ExpressionEncoder.cpp | 13 +++++++++++--
 src/mws/index/encoded_token.h       | 10 ++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index a97cea1..74d1905 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -83,9 +83,15 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
             if (qvarName == "") {
                 encoded_token.id = _getAnonVarOffset() + anonVarId;
                 anonVarId++;
+                if (anonVarId > ENC_TOK_MAX_ANON_VARS) {
+                    rv = -1;  // the id belongs to another kind of token
+                }
             } else {
-                encoded_token.id =
-                    _getNamedVarOffset() + namedVarDictionary.put(qvarName);
+                MeaningId namedVarId = namedVarDictionary.put(qvarName);
+                encoded_token.id = _getNamedVarOffset() + namedVarId;
+                if (namedVarId > ENC_TOK_MAX_NAMED_VARS) {
+                    rv = -1;  // the id belongs to another kind of token
+                }
                 if (expressionInfo != nullptr) {
                     expressionInfo->qvarNames.push_back(qvarName);
                     expressionInfo->qvarXpaths
@@ -96,6 +102,9 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
             encoded_token.arity = 1;
             encoded_token.id = _getRangeOffset() + anonRangeId;
             anonRangeId++;
+            if (anonRangeId > ENC_TOK_MAX_RANGES) {
+                rv = -1;  // the id belongs to another kind of token
+            }
             if (expressionInfo != nullptr) {
                 MeaningId tokenId = encoded_token.id;
                 expressionInfo->rangeBounds
diff --git a/src/mws/index/encoded_token.h b/src/mws/index/encoded_token.h
index e095e27..15eddab 100644
--- a/src/mws/index/encoded_token.h
+++ b/src/mws/index/encoded_token.h
@@ -58,6 +58,12 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #define RANGE_ID_MAX 160
 #define CONSTANT_ID_MIN 161
 
+/* Number of distinct ids available for each kind of special token in one
+ * expression (ids of named variables start at 1 after the offset) */
+#define ENC_TOK_MAX_NAMED_VARS (HVAR_ID_MAX - HVAR_ID_MIN)
+#define ENC_TOK_MAX_ANON_VARS (ANON_HVAR_ID_MAX - ANON_HVAR_ID_MIN + 1)
+#define ENC_TOK_MAX_RANGES (RANGE_ID_MAX - RANGE_ID_MIN + 1)
+
 /*--------------------------------------------------------------------------*/
 /* Type declarations                                                        */
 /*--------------------------------------------------------------------------*/
@@ -117,8 +123,8 @@ static inline bool encoded_token_is_range(encoded_token_t token) {
 }
 
 static inline bool encoded_token_is_anon_var(encoded_token_t token) {
-    return (ANON_HVAR_ID_MIN <= token.id && token.id < ANON_HVAR_ID_MAX) ||
-           (ANON_QVAR_ID_MIN <= token.id && token.id < ANON_QVAR_ID_MAX);
+    return (ANON_HVAR_ID_MIN <= token.id && token.id <= ANON_HVAR_ID_MAX) ||
+           (ANON_QVAR_ID_MIN <= token.id && token.id <= ANON_QVAR_ID_MAX);
 }
 
 END_DECLS
-- 
2.43.0


From 5a7bbe060fecdfaf124e4e5b572c3c8cba13d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:10 +0000
Subject: [PATCH 05/58] fix: mws-index left the delete-old-data option
 uninitialised

---
 src/mws/index/IndexWriter.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mws/index/IndexWriter.hpp b/src/mws/index/IndexWriter.hpp
index 19f0875..2ce4081 100644
--- a/src/mws/index/IndexWriter.hpp
+++ b/src/mws/index/IndexWriter.hpp
@@ -41,6 +41,8 @@ struct IndexConfiguration {
     HarvesterConfiguration harvester;
     std::string dataPath;
     bool deleteOldData;
+
+    IndexConfiguration() : deleteOldData(false) {}
 };
 
 /**
-- 
2.43.0


From 8d64391e3af4eb43221fa49ff5a692b993a0cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:10 +0000
Subject: [PATCH 06/58] fix: the cutoff mode of a schema query was
 uninitialised when not given

---
 src/mws/types/Query.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/types/Query.hpp b/src/mws/types/Query.hpp
index 0f3ea24..5b94786 100644
--- a/src/mws/types/Query.hpp
+++ b/src/mws/types/Query.hpp
@@ -90,7 +90,8 @@ struct Query {
           attrResultTotalReq(DEFAULT_QUERY_TOTALREQ),
           attrResultTotalReqNr(DEFAULT_QUERY_RESULT_TOTAL),
           restricted(false),
-          max_depth(DEFAULT_SCHEMA_DEPTH) {}
+          max_depth(DEFAULT_SCHEMA_DEPTH),
+          cutoff_mode('A') {}
 
     /// Destructor of the MwsQuery class
     ~Query() {
-- 
2.43.0


From f490445f88d50b05ad3139f417b40c1eb1b49dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:10 +0000
Subject: [PATCH 07/58] fix: a page size near the integer limit together with
 an offset gave an empty page

---
 src/mws/query/SearchContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index 5b29e68..19b708d 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -301,7 +301,7 @@ MwsAnswset* SearchContext::getResult(typename A::Index* index,
     auto startTime = Time::now();
 
     // Checking the arguments
-    if (offset + size > maxTotal) {
+    if (maxTotal <= offset || size > maxTotal - offset) {
         if (maxTotal <= offset) {
             size = 0;
         } else {
-- 
2.43.0


From 34aa4f47420535f4e7d6912cb01e1bc6514792d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:10 +0000
Subject: [PATCH 08/58] fix: the experimental engine explored only the first
 child of an index node, repeatedly

---
 src/mws/query/engine.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index d72e77a..08ef98e 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -304,11 +304,11 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
             encoded_token_t entry_token;
             memsector_long_off_t entry_off;
             if (node_type == LONG_INTERNAL_NODE) {
-                entry_token = long_data->token;
-                entry_off = long_data->off;
+                entry_token = long_data[i].token;
+                entry_off = long_data[i].off;
             } else {
-                entry_token = data->token;
-                entry_off = data->off;
+                entry_token = data[i].token;
+                entry_off = data[i].off;
             }
             int pushed_var_tokens = 0;
             token_stack_t var_stack;
-- 
2.43.0


From 0bb4755cc7e4d5897737416452be773164bf5c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:55 +0000
Subject: [PATCH 09/58] fix: the experimental engine applied offset and size to
 every formula separately and ignored the maximum total

---
 src/mws/daemon/IndexQueryHandler.cpp | 29 +++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/mws/daemon/IndexQueryHandler.cpp b/src/mws/daemon/IndexQueryHandler.cpp
index a2df29b..cc8f947 100644
--- a/src/mws/daemon/IndexQueryHandler.cpp
+++ b/src/mws/daemon/IndexQueryHandler.cpp
@@ -32,6 +32,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 // System includes
 
+#include <algorithm>
 #include <stdio.h>
 #include <string.h>
 #include <unistd.h>
@@ -110,12 +111,30 @@ static result_cb_return_t result_callback(void* _ctxt, const leaf_t* leaf) {
     }
     ;
 
-    dbQueryManager->query((FormulaId)leaf->formula_id,
-                          mwsQuery->attrResultLimitMin,
-                          mwsQuery->attrResultMaxSize, queryCallback);
-    result->total += leaf->num_hits;
+    const size_t offset = mwsQuery->attrResultLimitMin;
+    const size_t maxTotal = mwsQuery->attrResultTotalReqNr;
+    const size_t size =
+        (offset < maxTotal)
+            ? std::min(mwsQuery->attrResultMaxSize, maxTotal - offset)
+            : 0;
+    const size_t found = result->total;
+    const size_t hits = mwsQuery->options.includeHits ? leaf->num_hits : 1;
+
+    // only the part of the hits which lies inside the requested page
+    if (found < offset + size && found + hits > offset) {
+        if (mwsQuery->options.includeHits) {
+            size_t dbOffset = (offset < found) ? 0 : offset - found;
+            size_t dbMaxSize = (offset < found) ? size + offset - found : size;
+            dbQueryManager->query((FormulaId)leaf->formula_id, dbOffset,
+                                  dbMaxSize, queryCallback);
+        }
+        if (mwsQuery->options.includeMwsIds) {
+            result->ids.insert(leaf->formula_id);
+        }
+    }
+    result->total = std::min(found + hits, maxTotal);
 
-    return QUERY_CONTINUE;
+    return (found + hits < maxTotal) ? QUERY_CONTINUE : QUERY_STOP;
 }
 
 GenericAnswer* IndexQueryHandler::handleQuery(Query* query) {
-- 
2.43.0


From 591c5db6a01f63f8844a4b3e99b58b11a9dc6e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:03 +0000
Subject: [PATCH 10/58] fix: a recoverable XML error made the harvest reader
 misread or abort on what follows it

---
 src/mws/xmlparser/processMwsHarvest.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index 3d85588..788694f 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -196,6 +196,9 @@ static void my_startElement(void* user_data, const xmlChar* name,
                             const xmlChar** attrs) {
     MwsHarvest_SaxUserData* data = (MwsHarvest_SaxUserData*)user_data;
 
+    // Nothing is read past an error, even if libXML could recover from it
+    if (data->errorDetected) return;
+
     switch (data->state) {
     case MWSHARVESTSTATE_DEFAULT:
         if (strcmp(reinterpret_cast<const char*>(name), MWSHARVEST_MAIN_NAME) ==
@@ -337,6 +340,9 @@ static void my_startElement(void* user_data, const xmlChar* name,
 static void my_endElement(void* user_data, const xmlChar* name) {
     MwsHarvest_SaxUserData* data = (MwsHarvest_SaxUserData*)user_data;
 
+    // Nothing is read past an error, even if libXML could recover from it
+    if (data->errorDetected) return;
+
     switch (data->state) {
     case MWSHARVESTSTATE_DEFAULT:
         PRINT_WARN("Unexpected Default State for end element \"%s\"",
@@ -402,6 +408,9 @@ static void my_endElement(void* user_data, const xmlChar* name) {
 static void my_characters(void* user_data, const xmlChar* ch, int len) {
     MwsHarvest_SaxUserData* data = (MwsHarvest_SaxUserData*)user_data;
 
+    // Nothing is read past an error, even if libXML could recover from it
+    if (data->errorDetected) return;
+
     if (data->state == MWSHARVESTSTATE_IN_MWS_EXPR &&  // Valid state
         data->currentToken != nullptr) {               // Valid token
         data->currentToken->appendTextContent((char*)ch, len);
-- 
2.43.0


From 91d73292ad88387abce5bef85fa346d32b50b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:08 +0000
Subject: [PATCH 11/58] fix: one unreadable file or sub-directory kept the rest
 of a harvest directory from being loaded

---
 src/common/utils/util.cpp      | 10 +++++++---
 src/mws/index/IndexBuilder.cpp |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index 9caed66..f39d845 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -202,6 +202,7 @@ int foreachEntryInDirectory(const std::string& path,
                             const DirectoryCallback& directoryCallback) {
     queue<string> directories;
     queue<FileData> files;
+    int result = 0;
 
     FAIL_ON(getPathsInDirectory(path, ".", &directories, &files) != 0);
 
@@ -216,13 +217,16 @@ int foreachEntryInDirectory(const std::string& path,
             const string directory = directories.front();
             directories.pop();
             if (directoryCallback(directory)) {
-                FAIL_ON(getPathsInDirectory(path + "/" + directory, directory,
-                                            &directories, &files) != 0);
+                // the other entries can still be processed
+                if (getPathsInDirectory(path + "/" + directory, directory,
+                                        &directories, &files) != 0) {
+                    result = -1;
+                }
             }
         }
     }
 
-    return 0;
+    return result;
 
 fail:
     return -1;
diff --git a/src/mws/index/IndexBuilder.cpp b/src/mws/index/IndexBuilder.cpp
index dfedf6c..b42450c 100644
--- a/src/mws/index/IndexBuilder.cpp
+++ b/src/mws/index/IndexBuilder.cpp
@@ -145,8 +145,9 @@ uint64_t loadHarvests(IndexBuilder* indexBuilder,
                 PRINT_LOG("Loading %s... ", path.c_str());
                 int fd = open(path.c_str(), O_RDONLY);
                 if (fd < 0) {
+                    // the other files can still be loaded
                     perror(path.c_str());
-                    return -1;
+                    return 0;
                 }
                 auto loadReturn = loadHarvestFromFd(indexBuilder, fd,
                                                     !config.shouldIgnoreData);
-- 
2.43.0


From 56f3a5ec4649b4eacd4cc4143a2861e26404ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:47 +0000
Subject: [PATCH 12/58] fix: unfinished, truncated or altered memsector files
 passed validation

---
 src/mws/index/TmpIndex.cpp |  4 ++--
 src/mws/index/TmpIndex.hpp |  3 ++-
 src/mws/index/memsector.c  | 49 ++++++++++++++++++++++++++++++++------
 src/mws/index/memsector.h  |  1 +
 4 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/src/mws/index/TmpIndex.cpp b/src/mws/index/TmpIndex.cpp
index 4f4f5b4..76dea72 100644
--- a/src/mws/index/TmpIndex.cpp
+++ b/src/mws/index/TmpIndex.cpp
@@ -142,7 +142,7 @@ uint64_t TmpIndex::computeMemsectorSize() const {
     return size;
 }
 
-void TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
+int TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
     stack<vector<memsector_long_off_t> > dfsStack;
 
     auto onPush = [&](TmpIndexAccessor::Iterator iterator) {
@@ -181,7 +181,7 @@ void TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
 
     dfsStack.pop();
     assert(dfsStack.empty());
-    memsector_save(mswr, rootOffset);
+    return memsector_save(mswr, rootOffset) == 0 ? 0 : -1;
 }
 
 }  // namespace index
diff --git a/src/mws/index/TmpIndex.hpp b/src/mws/index/TmpIndex.hpp
index f74c18c..f2b06c6 100644
--- a/src/mws/index/TmpIndex.hpp
+++ b/src/mws/index/TmpIndex.hpp
@@ -117,8 +117,9 @@ class TmpIndex {
     /**
      * @brief exportToMemsector dump index data to a memsector index
      * @param mswr memsector writer handle
+     * @return 0 on success, -1 if the memsector could not be written
      */
-    void exportToMemsector(memsector_writer_t* mswr) const;
+    int exportToMemsector(memsector_writer_t* mswr) const;
 
  private:
     static memsector_long_off_t _writeChildrenOffsets(
diff --git a/src/mws/index/memsector.c b/src/mws/index/memsector.c
index dbbac2c..3003564 100644
--- a/src/mws/index/memsector.c
+++ b/src/mws/index/memsector.c
@@ -27,6 +27,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  */
 
 #include <errno.h>
+#include <stddef.h>
 #include <stdint.h>
 #include <string.h>
 #include <stdio.h>
@@ -39,7 +40,9 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include "mws/index/memsector.h"
 
 const uint64_t MEMSECTOR_MAGIC = 0x88CAFE88;
-const uint32_t MEMSECTOR_VERSION = 1;
+/* version 2: the checksum also covers the root offset */
+const uint32_t MEMSECTOR_VERSION = 2;
+const uint32_t MEMSECTOR_MIN_VERSION = 1;
 
 /*--------------------------------------------------------------------------*/
 /* Local methods                                                            */
@@ -67,8 +70,11 @@ int memsector_create(memsector_writer_t* mswr, const char* path) {
     mswr->ms.version = MEMSECTOR_VERSION;
     mswr->offset = sizeof(mswr->ms);
 
-    /* write header to memsector file */
-    size_t items_writen = fwrite(&mswr->ms, sizeof(mswr->ms), 1, mswr->file);
+    /* reserve space for the header. The real one is written by
+     * memsector_save, so an unfinished file is never a valid memsector */
+    memsector_header_t no_header;
+    memset(&no_header, 0, sizeof(no_header));
+    size_t items_writen = fwrite(&no_header, sizeof(no_header), 1, mswr->file);
     if (items_writen != 1) {
         PRINT_WARN("Error while writing memsector header: %s\n",
                    strerror(errno));
@@ -83,6 +89,7 @@ void memsector_write(memsector_writer_t* msw, void* data, size_t size) {
     size_t items_writen = fwrite(data, size, 1, msw->file);
     if (items_writen != 1) {
         perror("fwrite");
+        msw->failed = true;
     }
     msw->offset += size;
     msw->ms.checksum = crc32(msw->ms.checksum, data, size);
@@ -91,8 +98,17 @@ void memsector_write(memsector_writer_t* msw, void* data, size_t size) {
 int memsector_save(memsector_writer_t* msw, memsector_long_off_t index_off) {
     msw->ms.root_off = index_off;
     msw->ms.index_size = msw->offset - sizeof(msw->ms);
-    fseek(msw->file, 0, SEEK_SET);
-    fwrite(&msw->ms, sizeof(msw->ms), 1, msw->file);
+    msw->ms.checksum = crc32(msw->ms.checksum, &msw->ms.root_off,
+                             sizeof(msw->ms.root_off));
+
+    /* the header makes the file valid, so all data has to be written before */
+    if (fflush(msw->file) != 0 || msw->failed ||
+        fseek(msw->file, 0, SEEK_SET) != 0 ||
+        fwrite(&msw->ms, sizeof(msw->ms), 1, msw->file) != 1) {
+        PRINT_WARN("Error while writing memsector: %s\n", strerror(errno));
+        fclose(msw->file);
+        return -1;
+    }
 
     return fclose(msw->file);
 }
@@ -109,17 +125,29 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
     // read and validate memsector data
     memsector_header_t* memsector =
         (memsector_header_t*)ms->mmap_handle.start_addr;
+    const size_t file_size = ms->mmap_handle.size;
+    if (file_size < sizeof(*memsector)) {
+        PRINT_WARN("File %s is not a memsector (too short)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
     if (memsector->magic != MEMSECTOR_MAGIC) {
         PRINT_WARN("File %s is not a memsector (magic mismatch)\n", path);
         mmap_unload(&ms->mmap_handle);
         return -1;
     }
-    if (memsector->version != MEMSECTOR_VERSION) {
+    if (memsector->version < MEMSECTOR_MIN_VERSION ||
+        memsector->version > MEMSECTOR_VERSION) {
         PRINT_WARN("Cannot process memsector %s v%d\n", path,
                    (int)memsector->version);
         mmap_unload(&ms->mmap_handle);
         return -1;
     }
+    if (memsector->index_size != file_size - sizeof(*memsector)) {
+        PRINT_WARN("Memsector %s is corrupted (size mismatch)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
     if (memsector->checksum != memsector_get_checksum(memsector)) {
         PRINT_WARN("Memsector %s is corrupted (checksum mismatch)\n", path);
         mmap_unload(&ms->mmap_handle);
@@ -149,5 +177,12 @@ static uint32_t memsector_get_checksum(const memsector_header_t* memsector) {
     const char* index_start = ((char*)memsector) + sizeof(*memsector);
     size_t index_size = memsector->index_size;
 
-    return crc32(/* initial crc32 = */ 0, index_start, index_size);
+    uint32_t checksum = crc32(/* initial crc32 = */ 0, index_start, index_size);
+    if (memsector->version >= 2) {
+        const char* root_off = ((char*)memsector) +
+                               offsetof(memsector_header_t, root_off);
+        checksum = crc32(checksum, root_off, sizeof(memsector->root_off));
+    }
+
+    return checksum;
 }
diff --git a/src/mws/index/memsector.h b/src/mws/index/memsector.h
index d3f59d8..87d0b91 100644
--- a/src/mws/index/memsector.h
+++ b/src/mws/index/memsector.h
@@ -75,6 +75,7 @@ typedef struct memsector_writer_s {
     FILE* file;
     memsector_header_t ms;
     uint64_t offset;
+    bool failed;  // true if some data could not be written
     struct {
         uint32_t entries_promised;
         uint32_t entries_delivered;
-- 
2.43.0


From d541d59b311b898b8ca5731172f3fcea8b9d279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:02 +0000
Subject: [PATCH 13/58] fix: a failed or interrupted index build could leave a
 directory that was served, and report success

---
 src/mws/index/IndexBuilder.cpp |  6 ++++-
 src/mws/index/IndexWriter.cpp  | 45 ++++++++++++++++++++++++++++------
 src/mws/mwsd.cpp               |  5 +++-
 3 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/mws/index/IndexBuilder.cpp b/src/mws/index/IndexBuilder.cpp
index b42450c..27182bb 100644
--- a/src/mws/index/IndexBuilder.cpp
+++ b/src/mws/index/IndexBuilder.cpp
@@ -28,6 +28,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <fcntl.h>
 
 #include <cinttypes>
+#include <stdexcept>
 #include <set>
 using std::set;
 #include <stack>
@@ -110,7 +111,10 @@ int IndexBuilder::indexContentMath(const CmmlToken* cmmlToken,
             types::FormulaPath formulaPath;
             formulaPath.xmlId = xmlId;
             formulaPath.xpath = token->getXpath();
-            m_formulaDb->insertFormula(leaf->id, crawlId, formulaPath);
+            if (m_formulaDb->insertFormula(leaf->id, crawlId, formulaPath) !=
+                0) {
+                throw std::runtime_error("Error while inserting a formula");
+            }
             leaf->solutions++;
             numSubExpressions++;
         }
diff --git a/src/mws/index/IndexWriter.cpp b/src/mws/index/IndexWriter.cpp
index 717c1b9..ce85610 100644
--- a/src/mws/index/IndexWriter.cpp
+++ b/src/mws/index/IndexWriter.cpp
@@ -28,9 +28,14 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
   * @date 29 May 2014
   */
 
+#include <errno.h>
+#include <string.h>
+#include <unistd.h>
+
 #include <cinttypes>
 #include <stdexcept>
 using std::exception;
+using std::runtime_error;
 #include <string>
 using std::string;
 #include <fstream>
@@ -55,6 +60,7 @@ namespace index {
 
 int createCompressedIndex(const IndexConfiguration& config) {
     const std::string output_dir = config.dataPath;
+    const std::string memsector_path = output_dir + "/" + INDEX_MEMSECTOR_FILE;
     memsector_writer_t mwsr;
     unique_ptr<dbc::CrawlDb> crawlDb;
     unique_ptr<dbc::FormulaDb> formulaDb;
@@ -66,6 +72,16 @@ int createCompressedIndex(const IndexConfiguration& config) {
 
     try {
         create_directory(output_dir);
+        // An old memsector must not be served together with new data. The new
+        // one is written last, so that a directory which has one is complete
+        if (access(memsector_path.c_str(), F_OK) == 0) {
+            if (!config.deleteOldData) {
+                throw runtime_error(memsector_path + " already exists");
+            }
+            if (unlink(memsector_path.c_str()) != 0) {
+                throw runtime_error(memsector_path + ": " + strerror(errno));
+            }
+        }
         auto crawlLevDb = new dbc::LevCrawlDb();
         crawlLevDb->create_new((output_dir + "/" + CRAWL_DB_FILE).c_str(),
                                config.deleteOldData);
@@ -82,24 +98,37 @@ int createCompressedIndex(const IndexConfiguration& config) {
 
     IndexBuilder indexBuilder(formulaDb.get(), crawlDb.get(), &index,
                               &meaningDictionary, config.harvester.encoding);
-    numExpressions = loadHarvests(&indexBuilder, config.harvester);
+    try {
+        numExpressions = loadHarvests(&indexBuilder, config.harvester);
+    }
+    catch (exception & e) {
+        PRINT_WARN("%s\n", e.what());
+        return EXIT_FAILURE;
+    }
     if (numExpressions == 0) {
         PRINT_WARN("No expressions loaded. Aborting...\n");
         return EXIT_FAILURE;
     }
     PRINT_LOG("%" PRIu64 " expressions loaded.\n", numExpressions);
 
-    memsector_create(&mwsr, (output_dir + "/" + INDEX_MEMSECTOR_FILE).c_str());
-    index.exportToMemsector(&mwsr);
+    const bool opened =
+        fb.open((output_dir + "/" + MEANING_DICTIONARY_FILE).c_str(),
+                std::ios::out) != nullptr;
+    if (!opened || meaningDictionary.save(os) != 0 || !os.good() ||
+        fb.close() == nullptr) {
+        PRINT_WARN("Error while writing %s\n", MEANING_DICTIONARY_FILE);
+        return EXIT_FAILURE;
+    }
+
+    if (memsector_create(&mwsr, memsector_path.c_str()) != 0 ||
+        index.exportToMemsector(&mwsr) != 0) {
+        PRINT_WARN("Error while writing %s\n", memsector_path.c_str());
+        return EXIT_FAILURE;
+    }
     PRINT_LOG("Created index of %s\n",
               humanReadableByteCount(mwsr.ms.index_size,
                                      /* si= */ false).c_str());
 
-    fb.open((output_dir + "/" + MEANING_DICTIONARY_FILE).c_str(),
-            std::ios::out);
-    meaningDictionary.save(os);
-    fb.close();
-
     return EXIT_SUCCESS;
 }
 
diff --git a/src/mws/mwsd.cpp b/src/mws/mwsd.cpp
index 030718b..cccd81e 100644
--- a/src/mws/mwsd.cpp
+++ b/src/mws/mwsd.cpp
@@ -192,7 +192,10 @@ int main(int argc, char* argv[]) {
 
             if (qh == nullptr && FlagParser::hasArg('I')) {
                 PRINT_LOG("Attempting to build it from harvests\n");
-                createCompressedIndex(indexConfig);
+                if (createCompressedIndex(indexConfig) != EXIT_SUCCESS) {
+                    PRINT_WARN("Could not build the index. Aborting...\n");
+                    return EXIT_FAILURE;
+                }
                 qh = new IndexQueryHandler(indexConfig.dataPath, config);
             } else if (qh == nullptr) {
                 PRINT_WARN("Invalid index and no harvests supplied."
-- 
2.43.0


From f6d04de263544cf03693c7130f1f2ae8e49ffcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 14/58] fix: ignore what is written inside qvar and range
 elements

A query variable (or range) with child elements was encoded as a leaf
followed by the tokens of its children, which ends the formula before its
tokens do and aborts the server when the query is run.
---
 src/mws/index/ExpressionEncoder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index 74d1905..4bae5d3 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -127,6 +127,10 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
         }
         encodedFormula->push_back(encoded_token);
 
+        // Variables and ranges stand for whole terms: they are leaves of the
+        // encoded formula, whatever was written inside their elements
+        if (token->isVar() || token->isRange()) continue;
+
         // Replenish stack
         for (auto rIt = token->getChildNodes().rbegin();
              rIt != token->getChildNodes().rend(); rIt++) {
-- 
2.43.0


From 666896c461e1b461cd2cbfebb1aebf763fbd2708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 15/58] fix: let only the waiting thread receive the quit
 signals

SIGINT and SIGTERM were blocked in the main thread alone, after the daemon
had started its own threads. A signal taken by one of those sets shouldQuit
while the main thread stays in sigsuspend, and the daemon does not stop.
---
 src/mws/mwsd.cpp    | 20 ++++++++++++++------
 src/mws/schemad.cpp | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/mws/mwsd.cpp b/src/mws/mwsd.cpp
index cccd81e..75c5270 100644
--- a/src/mws/mwsd.cpp
+++ b/src/mws/mwsd.cpp
@@ -271,16 +271,24 @@ static void setup_signals() {
     sigaction(SIGTERM, &sa, nullptr);
     sigaction(SIGSEGV, &sa, nullptr);
     sigaction(SIGABRT, &sa, nullptr);
-}
 
-static void wait_for_signal() {
-    sigset_t mask, old_mask;
+    // Block the quit signals before any daemon thread is started. The threads
+    // inherit the mask, so that only wait_for_signal() receives the signals.
+    sigset_t mask;
     sigemptyset(&mask);
     sigaddset(&mask, SIGINT);
     sigaddset(&mask, SIGTERM);
-    sigprocmask(SIG_BLOCK, &mask, &old_mask);
+    sigprocmask(SIG_BLOCK, &mask, nullptr);
+}
+
+static void wait_for_signal() {
+    // The signals are blocked since setup_signals()
+    sigset_t mask;
+    sigprocmask(SIG_BLOCK, nullptr, &mask);
+    sigdelset(&mask, SIGINT);
+    sigdelset(&mask, SIGTERM);
     // Waiting for SIGINT / SIGTERM
-    while (!shouldQuit) sigsuspend(&old_mask);
+    while (!shouldQuit) sigsuspend(&mask);
 
-    sigprocmask(SIG_SETMASK, &old_mask, nullptr);
+    sigprocmask(SIG_SETMASK, &mask, nullptr);
 }
diff --git a/src/mws/schemad.cpp b/src/mws/schemad.cpp
index 8e92e8d..13e2253 100644
--- a/src/mws/schemad.cpp
+++ b/src/mws/schemad.cpp
@@ -186,16 +186,24 @@ static void setup_signals() {
     sigaction(SIGTERM, &sa, nullptr);
     sigaction(SIGSEGV, &sa, nullptr);
     sigaction(SIGABRT, &sa, nullptr);
-}
 
-static void wait_for_signal() {
-    sigset_t mask, old_mask;
+    // Block the quit signals before any daemon thread is started. The threads
+    // inherit the mask, so that only wait_for_signal() receives the signals.
+    sigset_t mask;
     sigemptyset(&mask);
     sigaddset(&mask, SIGINT);
     sigaddset(&mask, SIGTERM);
-    sigprocmask(SIG_BLOCK, &mask, &old_mask);
+    sigprocmask(SIG_BLOCK, &mask, nullptr);
+}
+
+static void wait_for_signal() {
+    // The signals are blocked since setup_signals()
+    sigset_t mask;
+    sigprocmask(SIG_BLOCK, nullptr, &mask);
+    sigdelset(&mask, SIGINT);
+    sigdelset(&mask, SIGTERM);
     // Waiting for SIGINT / SIGTERM
-    while (!shouldQuit) sigsuspend(&old_mask);
+    while (!shouldQuit) sigsuspend(&mask);
 
-    sigprocmask(SIG_SETMASK, &old_mask, nullptr);
+    sigprocmask(SIG_SETMASK, &mask, nullptr);
 }
-- 
2.43.0


From 62f1006c07ecb7bf207b977bf0d8dcecd156b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:02 +0000
Subject: [PATCH 16/58] fix: block the quit signals before the crawler starts
 its threads

---
 src/crawler/crawlerd.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/crawler/crawlerd.cpp b/src/crawler/crawlerd.cpp
index accd50a..6657aff 100644
--- a/src/crawler/crawlerd.cpp
+++ b/src/crawler/crawlerd.cpp
@@ -105,19 +105,6 @@ int main(int argc, char* argv[]) {
         exit(0);
     }
 
-    // Start the Crawler on a second Thread
-    auto ci = new CrawlerInfo;
-    ci->sharedQueuePtr = sq;
-    ci->dataDirectory = dataDir;
-    ThreadWrapper::run(*startCrawler, (void*)ci);
-
-    // Starting the daemon
-    ret = crawlerDaemon.start(restPort, sq);
-    if (ret != 0) {
-        fprintf(stderr, "Failure while starting the Crawler Daemon\n");
-        exit(0);
-    }
-
     // Preparing the Signal Action
     sa.sa_handler = catch_sigint;
     sigemptyset(&sa.sa_mask);
@@ -126,7 +113,8 @@ int main(int argc, char* argv[]) {
     sigemptyset(&mask);
     sigaddset(&mask, SIGINT);
     sigaddset(&mask, SIGTERM);
-    // Block the signals and actions
+    // Block the signals and actions. The threads started below inherit the
+    // mask, so that only sigsuspend() receives the signals
     if (sigprocmask(SIG_BLOCK, &mask, &old_mask) == -1)
         fprintf(stderr, "sigprocmask - SIG_BLOCK");
     if (sigaction(SIGINT, &sa, &old_sa1) == -1)
@@ -134,6 +122,19 @@ int main(int argc, char* argv[]) {
     if (sigaction(SIGTERM, &sa, &old_sa2) == -1)
         fprintf(stderr, "sigaction - open");
 
+    // Start the Crawler on a second Thread
+    auto ci = new CrawlerInfo;
+    ci->sharedQueuePtr = sq;
+    ci->dataDirectory = dataDir;
+    ThreadWrapper::run(*startCrawler, (void*)ci);
+
+    // Starting the daemon
+    ret = crawlerDaemon.start(restPort, sq);
+    if (ret != 0) {
+        fprintf(stderr, "Failure while starting the Crawler Daemon\n");
+        exit(0);
+    }
+
     // Waiting for SIGINT / SIGTERM
     while (!sigQuit) sigsuspend(&old_mask);
 
-- 
2.43.0


From d02c493cbea9c9c36fef74b147342167d2434ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 17/58] fix: do not build a database over the remains of an old
 one

When a file of the old database could not be removed, its records were
recovered into the new database and served with it.
---
 src/mws/dbc/LevCrawlDb.cpp   | 6 +++++-
 src/mws/dbc/LevFormulaDb.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mws/dbc/LevCrawlDb.cpp b/src/mws/dbc/LevCrawlDb.cpp
index af154e1..0e0572c 100644
--- a/src/mws/dbc/LevCrawlDb.cpp
+++ b/src/mws/dbc/LevCrawlDb.cpp
@@ -68,7 +68,11 @@ void LevCrawlDb::open(const char* path) {
 void LevCrawlDb::create_new(const char* path,
                             bool deleteIfExists) {
     if (deleteIfExists) {
-        (void)DestroyDB(path, Options());
+        // What cannot be removed would be recovered into the new database
+        Status destroyed = DestroyDB(path, Options());
+        if (!destroyed.ok()) {
+            throw std::runtime_error(destroyed.ToString());
+        }
     }
 
     Options options;
diff --git a/src/mws/dbc/LevFormulaDb.cpp b/src/mws/dbc/LevFormulaDb.cpp
index cb68a7e..07be0a5 100644
--- a/src/mws/dbc/LevFormulaDb.cpp
+++ b/src/mws/dbc/LevFormulaDb.cpp
@@ -69,7 +69,11 @@ void LevFormulaDb::open(const char* path) {
 /** @throw runtime_error */
 void LevFormulaDb::create_new(const char* path, bool deleteIfExists) {
     if (deleteIfExists) {
-        (void)DestroyDB(path, Options());
+        // What cannot be removed would be recovered into the new database
+        Status destroyed = DestroyDB(path, Options());
+        if (!destroyed.ok()) {
+            throw runtime_error(destroyed.ToString());
+        }
     }
 
     Options options;
-- 
2.43.0


From 4c72f59b7ddb89c187ab45f0a513d5e72243a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:30 +0000
Subject: [PATCH 18/58] fix: cut schemata at the depth that was asked for

Depths above 255 wrapped around, and a percentage was computed in floating
point, which cuts some formulae one level too early (58% of 50 is 29).
---
 src/mws/daemon/SchemaQueryHandler.cpp |  2 +-
 src/mws/query/SchemaEngine.cpp        | 12 ++++++------
 src/mws/query/SchemaEngine.hpp        |  6 +++---
 src/mws/types/Query.hpp               |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 8508940..1214d98 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -57,7 +57,7 @@ SchemaQueryHandler::SchemaQueryHandler(const ExpressionEncoder::Config& conf)
 SchemaQueryHandler::~SchemaQueryHandler() {}
 
 GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
-    const uint8_t max_depth = query->max_depth;
+    const uint32_t max_depth = query->max_depth;
     const uint32_t max_total = query->attrResultMaxSize;
 
     MeaningDictionary dict;
diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index e439292..5b220f2 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -61,21 +61,21 @@ SchemaEngine::SchemaEngine(const MeaningDictionary& meaningDictionary,
 SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
                                 const vector<const CmmlToken*>& exprsTokens,
                                 uint32_t max_total,
-                                uint8_t depth) const {
+                                uint32_t depth) const {
     SchemaAnswset* result = new SchemaAnswset();
 
     unordered_map<string, vector<uint32_t>> schemaGroup;
-    unordered_map<string, uint8_t> cutoffs;
+    unordered_map<string, uint32_t> cutoffs;
     for (size_t i = 0; i < formulae.size(); i++) {
         const EncodedFormula& expr = formulae[i];
-        uint8_t cutoff;
+        uint32_t cutoff;
         switch (_config.cutoffHeuristic) {
         case ABSOLUTE:
             cutoff = depth;
             break;
         case RELATIVE:
             // "depth" percentages of token depth
-            cutoff = 0.01 * depth * exprsTokens[i]->getExprDepth();
+            cutoff = (uint64_t)depth * exprsTokens[i]->getExprDepth() / 100;
             break;
         default:
             assert(false);
@@ -121,7 +121,7 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
 }
 
 EncodedFormula SchemaEngine::reduceFormula(const EncodedFormula& expr,
-                                           uint8_t max_depth) const {
+                                           uint32_t max_depth) const {
     EncodedFormula reducedExpr;
     if (expr.empty()) return {};
     if (max_depth == 0) return {};
@@ -226,7 +226,7 @@ EncodedFormula SchemaEngine::unhashExpr(const std::string& exprHash) const {
 }
 
 CmmlToken* SchemaEngine::decodeFormula(const EncodedFormula& expr,
-                                       uint8_t max_depth) const {
+                                       uint32_t max_depth) const {
     if (expr.size() == 0) {
         CmmlToken* unifZero = CmmlToken::newRoot();
         unifZero->setTag(types::QVAR_TAG);
diff --git a/src/mws/query/SchemaEngine.hpp b/src/mws/query/SchemaEngine.hpp
index bc582d7..0d47bd0 100644
--- a/src/mws/query/SchemaEngine.hpp
+++ b/src/mws/query/SchemaEngine.hpp
@@ -66,20 +66,20 @@ class SchemaEngine {
     mws::SchemaAnswset* getSchemata(const std::vector<EncodedFormula>& formulae,
                             const std::vector<const types::CmmlToken*>& toks,
                             uint32_t max_total,
-                            uint8_t depth = DEFAULT_SCHEMA_DEPTH) const;
+                            uint32_t depth = DEFAULT_SCHEMA_DEPTH) const;
 
  private:
     const index::ExpressionDecoder decoder;
     const Config _config;
 
     EncodedFormula reduceFormula(const EncodedFormula& expr,
-                                 uint8_t depth) const;
+                                 uint32_t depth) const;
     size_t completeExpression(const EncodedFormula& expr,
                               size_t startExpr) const;
     std::string hashExpr(const EncodedFormula& expr) const;
     EncodedFormula unhashExpr(const std::string& exprHash) const;
     types::CmmlToken* decodeFormula(const EncodedFormula& expr,
-                                    uint8_t depth) const;
+                                    uint32_t depth) const;
     std::pair<std::string, std::string> decodeMeaning(
         const types::Meaning& meaning) const;
     bool isApply(const encoded_token_t& tok) const;
diff --git a/src/mws/types/Query.hpp b/src/mws/types/Query.hpp
index 5b94786..56ed89a 100644
--- a/src/mws/types/Query.hpp
+++ b/src/mws/types/Query.hpp
@@ -78,7 +78,7 @@ struct Query {
     /// Boolean value showing if the query needed restrictions
     bool restricted;
     /// Depth used for schema-queries; ignored for regular mws-queries
-    uint8_t max_depth;
+    uint32_t max_depth;
     /// Cutoff mode used for schema-queries; ignored for regular mws-queries
     char cutoff_mode;
 
-- 
2.43.0


From fb91b8546cd8f5643b4d54875dcedc22d4e488df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:35 +0000
Subject: [PATCH 19/58] fix: number the formulae of a schema by their position
 in the query

Formulae which cannot be encoded shifted the indices of all later ones, and
the substitutions were taken from other formulae.
---
 src/mws/daemon/SchemaQueryHandler.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 1214d98..6a74bbd 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -69,11 +69,16 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
 
     vector<const CmmlToken*> exprsTokens;
     exprsTokens.reserve(query->tokens.size());
-    for (const CmmlToken* tok : query->tokens) {
+    // positions in the query of the formulae which could be encoded
+    vector<uint32_t> exprIds;
+    exprIds.reserve(query->tokens.size());
+    for (size_t i = 0; i < query->tokens.size(); i++) {
+        const CmmlToken* tok = query->tokens[i];
         EncodedFormula encTok;
         if (encoder.encode(_encodingConfig, tok, &encTok, nullptr) == 0) {
             exprs.push_back(std::move(encTok));
             exprsTokens.push_back(tok);
+            exprIds.push_back(i);
         }
     }
 
@@ -99,6 +104,7 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
     /* we can't deduce the substitutions in SchemaEngine because we need
      * the original query, so we will do it here */
     for (ExprSchema& sch : result->schemata) {
+        for (uint32_t& formula : sch.formulae) formula = exprIds[formula];
         /* As a heuristic,
          * we choose the first formula in this class to be schematized */
         const uint32_t representativeId = sch.formulae.front();
-- 
2.43.0


From 822e5bd2a52e33492432d9326ec40498606ace9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:52 +0000
Subject: [PATCH 20/58] fix: report the subterms cut off inside an operator too

Only the head of the operator of an apply is always kept; what was cut off
below it is a variable of the schema, but had no substitution.
---
 src/mws/daemon/SchemaQueryHandler.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 6a74bbd..0c994f6 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -153,12 +153,6 @@ void SchemaQueryHandler::getSubstitutions(CmmlToken* exprRoot,
         return;
     }
 
-    // disregard the first child of apply
-    if (currExprTag == "apply") {
-        expr_it++;
-        schema_it++;
-    }
-
     /* we know that both exprChildren and schemaChildren have the same length,
      * so it is enough to check for one */
     while (expr_it != exprChildren.end()) {
-- 
2.43.0


From 16fd3270d35d0ff734d8f6619a5eef5a43863158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:52 +0000
Subject: [PATCH 21/58] fix: count no children for query variables in schema
 formulae

Their encoding says they have one child, so that the schema engine took the
next term for it or read past the end of the formula.
---
 src/mws/daemon/SchemaQueryHandler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 0c994f6..5b10d97 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -76,6 +76,10 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
         const CmmlToken* tok = query->tokens[i];
         EncodedFormula encTok;
         if (encoder.encode(_encodingConfig, tok, &encTok, nullptr) == 0) {
+            // variables and ranges are leaves
+            for (encoded_token_t& t : encTok) {
+                if (t.id < CONSTANT_ID_MIN) t.arity = 0;
+            }
             exprs.push_back(std::move(encTok));
             exprsTokens.push_back(tok);
             exprIds.push_back(i);
-- 
2.43.0


From 2efb6e3afd7607e70c07af7534217e240a51fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:52 +0000
Subject: [PATCH 22/58] fix: refuse the id format for schema queries

The formatter of search results was applied to schemata and crashed schemad.
---
 src/mws/xmlparser/readMwsQuery.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index ec077ca..c465103 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -201,7 +201,8 @@ static void my_startElement(void* user_data, const xmlChar* name,
                             data->result->responseFormatter =
                                 RESPONSE_FORMATTER_MWS_JSON;
                         }
-                    } else if (strcmp((char*)attrs[1], "mws-ids") == 0) {
+                    } else if (strcmp((char*)attrs[1], "mws-ids") == 0 &&
+                               !schemaMode) {
                         data->result->responseFormatter =
                             RESPONSE_FORMATTER_MWS_IDS;
                         data->result->options.includeHits = false;
-- 
2.43.0


From 809230dd3b060caaec32dd7cb4d28029b47cc032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:09 +0000
Subject: [PATCH 23/58] fix: do not group formulae of different schemata in
 relative mode

Formulae with different cutoffs may be cut to the same tokens although their
schemata differ, since the tokens do not say where subterms were cut off.
---
 src/mws/query/SchemaEngine.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index 5b220f2..c6377de 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -40,6 +40,8 @@ using std::unordered_map;
 #include <utility>
 using std::pair;
 #include <algorithm>
+#include <memory>
+using std::unique_ptr;
 
 #include "mws/index/index.h"
 #include "mws/index/MeaningDictionary.hpp"
@@ -81,7 +83,14 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
             assert(false);
         }
 
-        string hash = hashExpr(reduceFormula(expr, cutoff));
+        const EncodedFormula reduced = reduceFormula(expr, cutoff);
+        string hash = hashExpr(reduced);
+        if (_config.cutoffHeuristic == RELATIVE) {
+            // The reduced tokens do not say where subterms were cut off. With
+            // different cutoffs, formulae which differ may have the same ones
+            unique_ptr<CmmlToken> schema(decodeFormula(reduced, cutoff));
+            hash += " " + schema->toString();
+        }
 
         auto it = schemaGroup.find(hash);
         if (it != schemaGroup.end()) {
-- 
2.43.0


From 6e248dc89e2971e64e081c432a0916729bcda162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:09 +0000
Subject: [PATCH 24/58] fix: escape text and attributes of printed terms

The schemata of a JSON answer were not well-formed XML if an identifier
contained one of <, > and &.
---
 src/mws/types/CmmlToken.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/mws/types/CmmlToken.cpp b/src/mws/types/CmmlToken.cpp
index e2623c5..4b959bc 100644
--- a/src/mws/types/CmmlToken.cpp
+++ b/src/mws/types/CmmlToken.cpp
@@ -142,6 +142,29 @@ string CmmlToken::getXpathRelative() const {
     return xpath_relative;
 }
 
+static string escapeXml(const string& text) {
+    string escaped;
+    for (char c : text) {
+        switch (c) {
+        case '&':
+            escaped += "&amp;";
+            break;
+        case '<':
+            escaped += "&lt;";
+            break;
+        case '>':
+            escaped += "&gt;";
+            break;
+        case '"':
+            escaped += "&quot;";
+            break;
+        default:
+            escaped += c;
+        }
+    }
+    return escaped;
+}
+
 string CmmlToken::toString(int indent) const {
     stringstream ss;
     string padding;
@@ -153,10 +176,10 @@ string CmmlToken::toString(int indent) const {
     ss << padding << "<" << _tag << " ";
 
     for (mIt = _attributes.begin(); mIt != _attributes.end(); mIt++) {
-        ss << mIt->first << "=\"" << mIt->second << "\" ";
+        ss << mIt->first << "=\"" << escapeXml(mIt->second) << "\" ";
     }
 
-    ss << ">" << _textContent;
+    ss << ">" << escapeXml(_textContent);
 
     if (_childNodes.size()) {
         ss << "\n";
-- 
2.43.0


From 3e84bb30fec38ccfcca472969dfe2acfca7317b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 25/58] fix: rename identifiers of each formula by itself, and
 keep their tag

With renaming, schemad named the identifiers of all formulae in one sequence,
so that renamed copies were different, and printed elements called ~1.
---
 src/mws/daemon/SchemaQueryHandler.cpp | 3 ++-
 src/mws/query/SchemaEngine.cpp        | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 5b10d97..0440c7e 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -63,7 +63,6 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
     MeaningDictionary dict;
     // using a HarvestEncoder to be able to fill
     // the MeaningDictonary on the fly, so we don't require an index for ids
-    HarvestEncoder encoder(&dict);
     vector<EncodedFormula> exprs;
     exprs.reserve(query->tokens.size());
 
@@ -75,6 +74,8 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
     for (size_t i = 0; i < query->tokens.size(); i++) {
         const CmmlToken* tok = query->tokens[i];
         EncodedFormula encTok;
+        // identifiers are renamed within each formula
+        HarvestEncoder encoder(&dict);
         if (encoder.encode(_encodingConfig, tok, &encTok, nullptr) == 0) {
             // variables and ranges are leaves
             for (encoded_token_t& t : encTok) {
diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index c6377de..b6e1eb3 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -337,6 +337,8 @@ pair<string, string> SchemaEngine::decodeMeaning(
     const types::Meaning& meaning) const {
     size_t delim_pos = meaning.find('#');
     if (delim_pos == string::npos) {
+        // renamed identifiers have lost their tag
+        if (meaning.compare(0, 1, "~") == 0) return {"ci", meaning};
         return {meaning, ""};
     }
 
-- 
2.43.0


From d0997ce90bf6cf7122c9c50e06f81e7bbbf0c56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 26/58] fix: request a page only once, even if it cannot be
 downloaded

---
 src/crawler/utils/Page.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index e7d03f0..389c859 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -76,6 +76,11 @@ Page::Page(GURL gurl) {
  */
 void Page::downloadContent() {
     CURL* curl;
+
+    // The page is requested only once, even if it cannot be downloaded
+    downloadedContent = 1;
+    downloadedHeader = 1;
+
     curl = curl_easy_init();
 
     if (!curl) {
@@ -94,10 +99,7 @@ void Page::downloadContent() {
     curl_easy_setopt(curl, CURLOPT_CONNECTTIMEOUT, 100);
     curl_easy_setopt(curl, CURLOPT_ERRORBUFFER, errorstr);
 
-    if (curl_easy_perform(curl) == 0) {
-        downloadedContent = 1;
-        downloadedHeader = 1;
-    } else
+    if (curl_easy_perform(curl) != 0)
         PRINT_WARN("CURL: Cannot Download page because: \n  %s \n", errorstr);
 
     curl_easy_cleanup(curl);
-- 
2.43.0


From a5f40d197a4ecaae7ce4cd80b6cef67422d30164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:57 +0000
Subject: [PATCH 27/58] fix: follow a link only once when a page repeats it

---
 src/crawler/crawler/MwsCrawler.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 0f9ad1b..52fc5a3 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -157,9 +157,7 @@ void Crawler::start() {
              << endl;
         vector<GURL>::iterator it;
         for (it = page_links.begin(); it != page_links.end(); ++it) {
-            GURL url_to_add = (*it);
-            url_queue.push(url_to_add);
-            all_urls.insert(getQueryable(url_to_add));
+            url_queue.push(*it);
         }
     }
 
@@ -267,8 +265,9 @@ void Crawler::cleanupLinks(vector<GURL>& page_links) {
     for (itpos = it = page_links.begin(); it != page_links.end(); ++i, ++it) {
         current = (*it);
         if (rtxt->is_allowed_by_robots_txt(current))
-            if (all_urls.find(getQueryable(current)) == all_urls.end()) {
-                page_links[pos++] = (*it);
+            // the insertion fails for links seen before, also in this page
+            if (all_urls.insert(getQueryable(current)).second) {
+                page_links[pos++] = current;
                 itpos++;
             }
     }
-- 
2.43.0


From 2e01d34354ca51942153c6814a7c3155a2c48f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:57 +0000
Subject: [PATCH 28/58] fix: tell pages of different origins apart

---
 src/crawler/crawler/MwsCrawler.cpp | 2 +-
 src/crawler/crawler/MwsCrawler.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 52fc5a3..219f8e6 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -278,7 +278,7 @@ void Crawler::cleanupLinks(vector<GURL>& page_links) {
  * Implementation of getQueryable
  */
 string Crawler::getQueryable(GURL url) {
-    return url.path() + "?" + url.query();
+    return url.GetOrigin().spec() + url.path() + "?" + url.query();
 }
 
 }  // namespace mws
diff --git a/src/crawler/crawler/MwsCrawler.hpp b/src/crawler/crawler/MwsCrawler.hpp
index c811dfe..2ed6ae7 100644
--- a/src/crawler/crawler/MwsCrawler.hpp
+++ b/src/crawler/crawler/MwsCrawler.hpp
@@ -109,7 +109,7 @@ private:
     int MAX_URLS_TO_CRAWL; // The Maximum count of URL we will crawl in this session
     GURL URL_START; // The Starting URL
     std::set < std::string > all_urls; // The Set of all URL's for avoiding crawling duplicates
-                                  // has the format: path?query
+                                  // has the format: origin/path?query
     std::string data_directory; // The Path of storing the Harvest Files
 
     Robotstxt* rtxt; // The Robotstxt that handles the disallowed links on a website
-- 
2.43.0


From ceccfbf64d6e1198be4bb055a0c779eaf05856f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:51 +0000
Subject: [PATCH 29/58] fix: decode entities in the addresses of links

---
 src/crawler/utils/Page.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index 389c859..1b75f6a 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -31,6 +31,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <gurl.h>
 #include <htmlcxx/html/ParserDom.h>
 #include <htmlcxx/html/tree.h>
+#include <htmlcxx/html/utils.h>
 
 #include "common/utils/compiler_defs.h"
 
@@ -197,7 +198,8 @@ vector<GURL> Page::getLinks() {
     for (; it != end; ++it) {
         if (it->tagName() == "a") {
             it->parseAttributes();
-            string relative = it->attribute("href").second;
+            string relative =
+                HTML::decode_entities(it->attribute("href").second);
 
             GURL resolved = curr.Resolve(relative);
             if (resolved.host() == curr.host()) answer.push_back(resolved);
-- 
2.43.0


From 26357136e6b5e8e3ffd8b3db1e1d117a318cb4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:50 +0000
Subject: [PATCH 30/58] fix: follow links whose tag is written in upper case

---
 src/crawler/utils/Page.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index 1b75f6a..e5a1402 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -196,7 +196,7 @@ vector<GURL> Page::getLinks() {
     tree<HTML::Node>::iterator it = dom.begin();
     tree<HTML::Node>::iterator end = dom.end();
     for (; it != end; ++it) {
-        if (it->tagName() == "a") {
+        if (it->tagName() == "a" || it->tagName() == "A") {
             it->parseAttributes();
             string relative =
                 HTML::decode_entities(it->attribute("href").second);
-- 
2.43.0


From d5aa7e5bf626249be65c604132c43325c3db3a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:29 +0000
Subject: [PATCH 31/58] fix: read all groups and lines of robots.txt

---
 src/crawler/types/Robotstxt.cpp | 57 +++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/crawler/types/Robotstxt.cpp b/src/crawler/types/Robotstxt.cpp
index bb9e54d..7f30bcd 100644
--- a/src/crawler/types/Robotstxt.cpp
+++ b/src/crawler/types/Robotstxt.cpp
@@ -23,9 +23,11 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  */
 
 // System includes
+#include <strings.h>
 #include <string>
 #include <vector>
 #include <iostream>
+#include <sstream>
 
 // Local includes
 #include "common/utils/compiler_defs.h"
@@ -38,6 +40,14 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 using namespace std;
 
+/// Remove the white space around a string
+static string trim(const string& str) {
+    const char* space = " \t\r\n\v\f";
+    size_t first = str.find_first_not_of(space);
+    if (first == string::npos) return "";
+    return str.substr(first, str.find_last_not_of(space) - first + 1);
+}
+
 /**
  * Implementation of Robotstxt constructor
  *
@@ -53,30 +63,29 @@ Robotstxt::Robotstxt(GURL aStartUrl) {
         return;
     }
 
-    // If Our Crawler has no name
-    string userAgent = "User-agent: ";
-    string thisCrawler = "*";
-    string disallow = "Disallow: ";
-    int isInBrackets = 0;
-    FILE* stream;
-    auto robpg = new char[rob.size()];
-    strcpy(robpg, rob.c_str());
-    stream = fmemopen(robpg, rob.size(), "r");
-    const int bufmax = 1000;
-    char buf[bufmax];
-    while (fgets(buf, bufmax, stream) != nullptr) {
-        string line(buf);
-        if (line.compare(0, userAgent.size(), userAgent) == 0) {
-            if (isInBrackets)
-                isInBrackets = 0;
-            else if (line.compare(0, userAgent.size() + thisCrawler.size(),
-                                  userAgent + thisCrawler) == 0)
-                isInBrackets = 1;
-        }
-
-        if (isInBrackets && line.compare(0, disallow.size(), disallow) == 0) {
-            string dontCrawlLink = line.substr(disallow.size());
-            this->dont_allow(dontCrawlLink);
+    // The rules of a group hold for all the agents which were named before it.
+    // Our Crawler has no name
+    bool isForUs = false;
+    bool inAgents = false;
+    istringstream stream(rob);
+    string line;
+    while (getline(stream, line)) {
+        line = line.substr(0, line.find('#'));
+        size_t colon = line.find(':');
+        if (colon == string::npos) continue;
+        string field = trim(line.substr(0, colon));
+        string value = trim(line.substr(colon + 1));
+
+        if (strcasecmp(field.c_str(), "User-agent") == 0) {
+            if (!inAgents) isForUs = false;
+            inAgents = true;
+            if (value == "*") isForUs = true;
+        } else {
+            inAgents = false;
+            if (isForUs && strcasecmp(field.c_str(), "Disallow") == 0 &&
+                value != "") {
+                this->dont_allow(value);
+            }
         }
     }
     // TODO: Crawl-Delay getter for Non-Standard robots.txt extension
-- 
2.43.0


From 75c8a8d965265f1b893f02d3d5ff76f9839b752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:29 +0000
Subject: [PATCH 32/58] fix: match excluded addresses by their prefix, query
 included

---
 src/crawler/types/Robotstxt.cpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/crawler/types/Robotstxt.cpp b/src/crawler/types/Robotstxt.cpp
index 7f30bcd..659e4af 100644
--- a/src/crawler/types/Robotstxt.cpp
+++ b/src/crawler/types/Robotstxt.cpp
@@ -48,6 +48,11 @@ static string trim(const string& str) {
     return str.substr(first, str.find_last_not_of(space) - first + 1);
 }
 
+/// The part of a URL which the rules are about
+static string path_and_query(const GURL& url) {
+    return url.has_query() ? url.path() + "?" + url.query() : url.path();
+}
+
 /**
  * Implementation of Robotstxt constructor
  *
@@ -108,21 +113,14 @@ void Robotstxt::dont_allow(string url) {
  * See if a url is accepted to crawl by the site
  */
 int Robotstxt::is_allowed_by_robots_txt(GURL gurl) {
-    vector<GURL>::iterator it;
-    GURL c;
-    string cp;
-
-    for (it = not_allowed.begin(); it != not_allowed.end(); ++it) {
-        c = (*it);
-        if (gurl.host() == c.host() && gurl.query() == c.query()) {
-            cp = c.path();
-            if (cp[cp.size() - 1] == '/') {
-                if (gurl.path().substr(0, cp.length() - 1) ==
-                    cp.substr(0, cp.length() - 1))
-                    return 0;
-            } else {
-                if (gurl.path().substr(0, cp.length()) == cp) return 0;
-            }
+    string url = path_and_query(gurl);
+
+    for (const GURL& c : not_allowed) {
+        if (gurl.host() == c.host()) {
+            string prefix = path_and_query(c);
+            if (url.compare(0, prefix.size(), prefix) == 0) return 0;
+            // the directory itself, without the final slash
+            if (gurl.path() + "/" == prefix) return 0;
         }
     }
     return 1;
-- 
2.43.0


From 7a8b689271821137492100c5648e0d702180e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:29 +0000
Subject: [PATCH 33/58] fix: do not add exclusions to a crawl without a valid
 start

---
 src/crawler/crawler/MwsCrawler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 219f8e6..34d56e2 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -112,7 +112,10 @@ void Crawler::addCrawlerCount(int cnt) {
 /**
  * Implementation of dontCrawl
  */
-void Crawler::dontCrawl(string link) { rtxt->dont_allow(link); }
+void Crawler::dontCrawl(string link) {
+    // there are no rules to add to when the starting URL was not valid
+    if (rtxt != nullptr) rtxt->dont_allow(link);
+}
 
 /**
  * Implementation of addDataDirectory
-- 
2.43.0


From 1820e61d35e8dfb2f9b99f03602403d3ca52b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:05 +0000
Subject: [PATCH 34/58] fix: store every harvest of the crawler in a file of
 its own

---
 src/crawler/crawler/MwsCrawler.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 34d56e2..e38f261 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -33,7 +33,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <set>
 #include <unistd.h>
 #include <time.h>
-#include <sstream>
+#include <errno.h>
 #include <iostream>
 
 // Local includes
@@ -204,11 +204,15 @@ void Crawler::run(SharedQueue* sq, const char* dataDir) {
  * Implementation of storeMath
  */
 void Crawler::storeMath(const char* xml) {
-    stringstream strs;
-    strs << data_directory << "/harvest" << time(nullptr) << ".xml";
-    string fileName;
-    strs >> fileName;
-    FILE* f = fopen(fileName.c_str(), "w");
+    string baseName =
+        data_directory + "/harvest" + to_string(time(nullptr));
+    string fileName = baseName + ".xml";
+    FILE* f = fopen(fileName.c_str(), "wx");
+    // keep the harvests that were stored in the same second
+    for (int i = 1; f == nullptr && errno == EEXIST; ++i) {
+        fileName = baseName + "_" + to_string(i) + ".xml";
+        f = fopen(fileName.c_str(), "wx");
+    }
     if (f == nullptr) {
         cerr << "Cannot open harvest file: " << fileName << endl;
         return;
-- 
2.43.0


From a1a431a0fdc5cee5f8d056f5b46434756d6d0c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:05 +0000
Subject: [PATCH 35/58] fix: read the list of MathML tags without running past
 its end

---
 src/crawler/utils/MwsGetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 9670d62..b5da128 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -272,7 +272,7 @@ void store_mathml_tags() {
     is.seekg(0, ios::beg);
     is.read(alltags, length);
     is.close();
-    string all_tags(alltags);
+    string all_tags(alltags, length);
     delete[] alltags;
     int pos = 0;
 
-- 
2.43.0


From 178646a77c8f316bae14a63cc3a7ab7fabbfdcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:05 +0000
Subject: [PATCH 36/58] fix: do not skip the formula after a self-closing math
 tag

---
 src/crawler/utils/MwsGetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index b5da128..df1bb9d 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -78,7 +78,7 @@ vector<pair<string, string> > get_math_blocks(string html) {
             if (html[pos] == '>') break;
             if (html[pos] == '/' && (pos + 1) < sz && html[pos + 1] == '>') {
                 allpos.push_back(make_pair(pos, -1));
-                pos = pos + 2;
+                break;
             }
             ++pos;
         }
-- 
2.43.0


From fa0471f84a54f7ccd068b356db3f82e6033fe648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:05 +0000
Subject: [PATCH 37/58] fix: find the formulae after a stray closing math tag

---
 src/crawler/utils/MwsGetMath.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index df1bb9d..03ca6ed 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -104,7 +104,11 @@ vector<pair<string, string> > get_math_blocks(string html) {
     int lpos = 0, val = 0;
     for (int i = 0; (unsigned int)i < allpos.size(); ++i) {
         val += allpos[i].second;
-        if (val == 0) {
+        if (val < 0) {
+            // a closing tag that was not opened
+            val = 0;
+            lpos = i + 1;
+        } else if (val == 0) {
             string nstr;
             int start = allpos[lpos].first;
             int stop = allpos[i].first + mathc.size();
-- 
2.43.0


From c95acbdaa13396e25b2330b74cb71d0d3149ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:31 +0000
Subject: [PATCH 38/58] fix: escape the address of harvested formulae, and read
 their identifier from the XML

---
 src/crawler/utils/MwsGetMath.cpp | 80 +++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 23 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 03ca6ed..09f09ed 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -53,6 +53,59 @@ using namespace mws;
 
 std::set<std::string> mathml_tags;
 
+/*
+ * Parses xml as the content of a harvest
+ */
+static xmlDocPtr parse_harvest(const string& xml) {
+    string xmlfull =
+        "<?xml version=\"1.0\" ?> <mws:harvest "
+        "xmlns:m=\"http://www.w3.org/1998/Math/MathML\" "
+        "xmlns:mws=\"http://search.mathweb.org/ns\">" +
+        xml + "</mws:harvest>";
+
+    return xmlParseMemory(xmlfull.c_str(), xmlfull.size());
+}
+
+/*
+ * Escapes a string for use in an XML attribute
+ */
+static string escape_attribute(const string& value) {
+    xmlChar* escaped =
+        xmlEncodeSpecialChars(nullptr, (const xmlChar*)value.c_str());
+    string result = (const char*)escaped;
+    xmlFree(escaped);
+    return result;
+}
+
+/*
+ * Returns the opening tag of the expression with the given id on a page
+ */
+static string expr_tag(const string& url, const string& id) {
+    string location = id.empty() ? url : url + "#" + id;
+    return "<mws:expr url=\"" + escape_attribute(location) + "\">\n";
+}
+
+/*
+ * Helper function for get_math_blocks
+ *
+ * returns the id of a formula, or "" if it has none or is not well-formed
+ */
+string get_block_id(const string& block) {
+    string id;
+    xmlDocPtr doc = parse_harvest(block);
+    if (doc == nullptr) return id;
+
+    xmlNodePtr formula = xmlFirstElementChild(xmlDocGetRootElement(doc));
+    if (formula != nullptr) {
+        xmlChar* prop = xmlGetProp(formula, (const xmlChar*)"id");
+        if (prop != nullptr) id = (const char*)prop;
+        xmlFree(prop);
+    }
+    xmlFreeDoc(doc);
+
+    return id;
+}
+
 /*
  * Helper function for get_math_html
  *
@@ -142,14 +195,7 @@ vector<pair<string, string> > get_math_blocks(string html) {
             lpos = i + 1;
 
             // check whether formula has an id, save it and return it
-            string id;
-            size_t we = nstr.find(">");
-            size_t wid = nstr.find(" id=");
-            if (wid != string::npos && wid < we)
-                for (int j = wid + 5; nstr[j] != '"'; ++j)
-                    id.push_back(nstr[j]);
-
-            ans.push_back(make_pair(nstr, id));
+            ans.push_back(make_pair(nstr, get_block_id(nstr)));
         }
     }
 
@@ -246,12 +292,7 @@ vector<string> get_math_html(Page& page) {
     for (it = xml.begin(); it != xml.end(); ++it) {
         string str;
         if (is_good_xml(it->first)) {
-            if (it->second != "")
-                str = "<mws:expr url=\"" + url + "#" + (it->second) + "\">\n" +
-                      (it->first) + "\n</mws:expr>\n";
-            else
-                str = "<mws:expr url=\"" + url + "\">\n" + (it->first) +
-                      "\n</mws:expr>\n";
+            str = expr_tag(url, it->second) + (it->first) + "\n</mws:expr>\n";
             ret.push_back(str);
         }
     }
@@ -343,7 +384,7 @@ std::vector<std::string> get_math_xhtml(const string& xhtml,
             xmlChar* id = xmlGetProp(
                 nodeset->nodeTab[i]->parent->parent->parent, (xmlChar*)"id");
 
-            fprintf(stream, "<mws:expr url=\"%s#%s\">\n", url.c_str(), id);
+            fputs(expr_tag(url, id ? (const char*)id : "").c_str(), stream);
             xmlElemDump(stream, doc, nodeset->nodeTab[i]);
             fprintf(stream, "</mws:expr>\n");
             fclose(stream);
@@ -391,14 +432,7 @@ vector<string> get_math(Page& page) {
  * Implementation of is_good_xml()
  */
 int is_good_xml(string xml) {
-    string xmlfull =
-        "<?xml version=\"1.0\" ?> <mws:harvest "
-        "xmlns:m=\"http://www.w3.org/1998/Math/MathML\" "
-        "xmlns:mws=\"http://search.mathweb.org/ns\">" +
-        xml + "</mws:harvest>";
-
-    int size = xmlfull.size();
-    xmlDocPtr doc = xmlParseMemory(xmlfull.c_str(), size);
+    xmlDocPtr doc = parse_harvest(xml);
 
     if (doc == nullptr) {
         return 0;
-- 
2.43.0


From 64067df11896408e8a6b651a2f6b41eb382e4db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:31 +0000
Subject: [PATCH 39/58] fix: recognise the content type however it is written

---
 src/crawler/utils/MwsGetMath.cpp | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 09f09ed..03a6a81 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -32,8 +32,10 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <vector>
 #include <algorithm>
 #include <cstring>
+#include <strings.h>
 #include <iostream>
 #include <fstream>
+#include <sstream>
 #include <libxml/parser.h>  // LIBXML2 library for XHTML parsing
 #include <libxml/HTMLparser.h>
 #include <libxml/xpath.h>
@@ -53,6 +55,25 @@ using namespace mws;
 
 std::set<std::string> mathml_tags;
 
+/*
+ * Searches for a content type in the header of a page. Neither case nor the
+ * spaces after the name of the field matter
+ */
+static bool hasContentType(const string& header, const string& type) {
+    const string name = "Content-Type:";
+    istringstream stream(header);
+    string line;
+    while (getline(stream, line)) {
+        if (strncasecmp(line.c_str(), name.c_str(), name.size()) != 0) continue;
+        size_t start = line.find_first_not_of(" \t", name.size());
+        if (start == string::npos) continue;
+        size_t end = line.find_first_of("; \t\r\n", start);
+        string value = line.substr(start, end - start);
+        if (strcasecmp(value.c_str(), type.c_str()) == 0) return true;
+    }
+    return false;
+}
+
 /*
  * Parses xml as the content of a harvest
  */
@@ -269,11 +290,7 @@ namespace mws {
  * returns 1 if the header says that the page is HTML
  */
 int isHTML(Page& page) {
-    string header = page.getHeader();
-
-    // Search for "Content-Type: text/html" in the header file
-    string ctype = "Content-Type: text/html";
-    return (header.find(ctype) != string::npos);
+    return hasContentType(page.getHeader(), "text/html");
 }
 
 /*
@@ -352,10 +369,7 @@ void store_mathml_tags() {
  * returns 1 if the header says that the page is XHTML
  */
 int isXHTML(Page& page) {
-    // Search for "Content-Type: application/xhtml+xml" in the header file
-    string ctype = "Content-Type: application/xhtml+xml";  // FIXME spaces can
-                                                           // easily break this
-    return (page.getHeader().find(ctype) != string::npos);
+    return hasContentType(page.getHeader(), "application/xhtml+xml");
 }
 
 /**
-- 
2.43.0


From 71d9af4044fb67c0b17aac64a67d258ee08867c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 40/58] fix: take the fields of a crawling request whole, of
 any length and number

---
 src/crawler/daemon/CrawlerDaemon.cpp | 78 ++++++++--------------------
 src/crawler/daemon/CrawlerDaemon.hpp |  9 ++--
 2 files changed, 24 insertions(+), 63 deletions(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index e5809be..22c648c 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -91,51 +91,26 @@ static int cd_IteratePostRequest(void* coninfo_cls, enum MHD_ValueKind kind,
     UNUSED(filename);
     UNUSED(content_type);
     UNUSED(transfer_encoding);
-    UNUSED(off);
 
     struct connection_info_struct* con_info =
         (connection_info_struct*)coninfo_cls;
+    string* value;
 
     if (0 == strcmp(key, "urlstart")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* urlstart;
-            urlstart = (char*)malloc(MAXNAMESIZE);
-            if (!urlstart) return MHD_NO;
-
-            strcpy(urlstart, data);
-            con_info->urlstart = urlstart;
-        } else
-            con_info->urlstart = nullptr;
-
+        value = &con_info->urlstart;
+    } else if (0 == strcmp(key, "count")) {
+        value = &con_info->count;
+    } else if (0 == strcmp(key, "dontcrawl")) {
+        if (off == 0) con_info->dontcrawl.push_back("");
+        value = &con_info->dontcrawl.back();
+    } else {
         return MHD_YES;
     }
-    if (0 == strcmp(key, "count")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* count;
-            count = (char*)malloc(MAXNAMESIZE);
-            if (!count) return MHD_NO;
-
-            strcpy(count, data);
-            con_info->count = count;
-        } else
-            con_info->count = nullptr;
 
-        return MHD_YES;
-    }
-    if (0 == strcmp(key, "dontcrawl")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* dontcrawl;
-            dontcrawl = (char*)malloc(MAXNAMESIZE);
-            if (!dontcrawl) return MHD_NO;
-
-            strcpy(dontcrawl, data);
-            con_info->dontcrawl[con_info->dontcrawlnr] = dontcrawl;
-            con_info->dontcrawlnr++;
-        } else
-            con_info->dontcrawl[con_info->dontcrawlnr] = nullptr;
+    // the value may arrive in several pieces
+    if (off == 0) value->clear();
+    value->append(data, size);
 
-        return MHD_YES;
-    }
     return MHD_YES;
 }
 
@@ -161,27 +136,22 @@ static void cd_RequestCompletedCallback(void* cls,
     if (nullptr == con_info) return;
 
     if (con_info->connectiontype == POST) {
-        if (con_info->urlstart != nullptr) {
+        if (con_info->urlstart != "") {
             qNode.urlstart = con_info->urlstart;
             goodRequest = 1;
         }
-        if (con_info->count != nullptr && atoi(con_info->count))
-            qNode.count = atoi(con_info->count);
+        if (atoi(con_info->count.c_str()))
+            qNode.count = atoi(con_info->count.c_str());
         else
             qNode.count = -1;
-        qNode.dontcrawlnr = con_info->dontcrawlnr;
-        for (int i = 0; i < con_info->dontcrawlnr; ++i)
-            qNode.dontcrawl.push_back((string)con_info->dontcrawl[i]);
+        for (const string& dontcrawl : con_info->dontcrawl)
+            if (dontcrawl != "") qNode.dontcrawl.push_back(dontcrawl);
+        qNode.dontcrawlnr = qNode.dontcrawl.size();
 
         MHD_destroy_post_processor(con_info->postprocessor);
-        if (con_info->urlstart) free(con_info->urlstart);
-        if (con_info->count) free(con_info->count);
-        for (int i = 0; i < con_info->dontcrawlnr; ++i)
-            free(con_info->dontcrawl[i]);
-        con_info->dontcrawlnr = 0;
     }
 
-    free(con_info);
+    delete con_info;
     *con_cls = nullptr;
 
     if (goodRequest)  // put Request in Queue
@@ -209,13 +179,7 @@ static int cd_AccessHandlerCallback(void* cls,
     if (nullptr == *con_cls) {
         struct connection_info_struct* con_info;
 
-        con_info = (connection_info_struct*)malloc(
-            sizeof(struct connection_info_struct));
-        if (nullptr == con_info) return MHD_NO;
-        con_info->urlstart = nullptr;
-        con_info->count = nullptr;
-        con_info->dontcrawlnr = 0;
-        con_info->dontcrawl[0] = nullptr;
+        con_info = new connection_info_struct;
 
         if (0 == strcmp(method, "POST")) {
             con_info->postprocessor = MHD_create_post_processor(
@@ -223,7 +187,7 @@ static int cd_AccessHandlerCallback(void* cls,
                 (void*)con_info);
 
             if (nullptr == con_info->postprocessor) {
-                free(con_info);
+                delete con_info;
                 return MHD_NO;
             }
 
@@ -250,7 +214,7 @@ static int cd_AccessHandlerCallback(void* cls,
             *upload_data_size = 0;
 
             return MHD_YES;
-        } else if (con_info->urlstart != nullptr) {
+        } else if (con_info->urlstart != "") {
             return cd_SendPageThroughConnection(connection, answerpage);
         }
     }
diff --git a/src/crawler/daemon/CrawlerDaemon.hpp b/src/crawler/daemon/CrawlerDaemon.hpp
index 56e9944..1d2b74d 100644
--- a/src/crawler/daemon/CrawlerDaemon.hpp
+++ b/src/crawler/daemon/CrawlerDaemon.hpp
@@ -42,10 +42,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include "crawler/types/SharedQueue.hpp"
 
 #define POSTBUFFERSIZE  512
-#define MAXNAMESIZE     100
 #define MAXANSWERSIZE   512
 #define MAXASKPAGESIZE  4096
-#define MAXDONTCRAWLSIZE 128
 
 #define GET             0
 #define POST            1
@@ -56,10 +54,9 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 struct connection_info_struct
 {
     int connectiontype;
-    char *urlstart;
-    char *count;
-    int dontcrawlnr;
-    char *dontcrawl[MAXDONTCRAWLSIZE];
+    std::string urlstart;
+    std::string count;
+    std::vector<std::string> dontcrawl;
     struct MHD_PostProcessor *postprocessor;
 };
 
-- 
2.43.0


From b2ef556849c35c04b33cc8015b9bc8800c1c7913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 41/58] fix: do not start a crawl for a request that was not
 received completely

---
 src/crawler/daemon/CrawlerDaemon.cpp | 8 ++++++--
 src/crawler/daemon/CrawlerDaemon.hpp | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index 22c648c..df4173d 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -136,7 +136,7 @@ static void cd_RequestCompletedCallback(void* cls,
     if (nullptr == con_info) return;
 
     if (con_info->connectiontype == POST) {
-        if (con_info->urlstart != "") {
+        if (con_info->complete && con_info->urlstart != "") {
             qNode.urlstart = con_info->urlstart;
             goodRequest = 1;
         }
@@ -180,6 +180,7 @@ static int cd_AccessHandlerCallback(void* cls,
         struct connection_info_struct* con_info;
 
         con_info = new connection_info_struct;
+        con_info->complete = false;
 
         if (0 == strcmp(method, "POST")) {
             con_info->postprocessor = MHD_create_post_processor(
@@ -214,7 +215,10 @@ static int cd_AccessHandlerCallback(void* cls,
             *upload_data_size = 0;
 
             return MHD_YES;
-        } else if (con_info->urlstart != "") {
+        }
+
+        con_info->complete = true;
+        if (con_info->urlstart != "") {
             return cd_SendPageThroughConnection(connection, answerpage);
         }
     }
diff --git a/src/crawler/daemon/CrawlerDaemon.hpp b/src/crawler/daemon/CrawlerDaemon.hpp
index 1d2b74d..ff90489 100644
--- a/src/crawler/daemon/CrawlerDaemon.hpp
+++ b/src/crawler/daemon/CrawlerDaemon.hpp
@@ -57,6 +57,7 @@ struct connection_info_struct
     std::string urlstart;
     std::string count;
     std::vector<std::string> dontcrawl;
+    bool complete; // the whole request was received
     struct MHD_PostProcessor *postprocessor;
 };
 
-- 
2.43.0


From 00a1620f7a204b8074146a7c5a9eccc1554e049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 42/58] fix: answer requests to the crawler which are not a
 form, or have a body

---
 src/crawler/daemon/CrawlerDaemon.cpp | 31 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index df4173d..100ad71 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -148,7 +148,9 @@ static void cd_RequestCompletedCallback(void* cls,
             if (dontcrawl != "") qNode.dontcrawl.push_back(dontcrawl);
         qNode.dontcrawlnr = qNode.dontcrawl.size();
 
-        MHD_destroy_post_processor(con_info->postprocessor);
+        // there is none if the request was not a form
+        if (con_info->postprocessor != nullptr)
+            MHD_destroy_post_processor(con_info->postprocessor);
     }
 
     delete con_info;
@@ -181,17 +183,13 @@ static int cd_AccessHandlerCallback(void* cls,
 
         con_info = new connection_info_struct;
         con_info->complete = false;
+        con_info->postprocessor = nullptr;
 
         if (0 == strcmp(method, "POST")) {
             con_info->postprocessor = MHD_create_post_processor(
                 connection, POSTBUFFERSIZE, (MHD_PostDataIterator)cd_IteratePostRequest,
                 (void*)con_info);
 
-            if (nullptr == con_info->postprocessor) {
-                delete con_info;
-                return MHD_NO;
-            }
-
             con_info->connectiontype = POST;
         } else
             con_info->connectiontype = GET;
@@ -201,6 +199,19 @@ static int cd_AccessHandlerCallback(void* cls,
         return MHD_YES;
     }
 
+    // an answer can only be given when the whole request was received
+    if (*upload_data_size != 0) {
+        struct connection_info_struct* con_info =
+            (connection_info_struct*)*con_cls;
+
+        if (con_info->postprocessor != nullptr)
+            MHD_post_process(con_info->postprocessor, upload_data,
+                             *upload_data_size);
+        *upload_data_size = 0;
+
+        return MHD_YES;
+    }
+
     if (0 == strcmp(method, "GET")) {
         return cd_SendPageThroughConnection(connection, askpage);
     }
@@ -209,14 +220,6 @@ static int cd_AccessHandlerCallback(void* cls,
         struct connection_info_struct* con_info =
             (connection_info_struct*)*con_cls;
 
-        if (*upload_data_size != 0) {
-            MHD_post_process(con_info->postprocessor, upload_data,
-                             *upload_data_size);
-            *upload_data_size = 0;
-
-            return MHD_YES;
-        }
-
         con_info->complete = true;
         if (con_info->urlstart != "") {
             return cd_SendPageThroughConnection(connection, answerpage);
-- 
2.43.0


From 62e46b37c714fe9aac2100d4fd5128235bc9b277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 43/58] fix: read the queue of crawling requests under its lock

---
 src/crawler/crawler/MwsCrawler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index e38f261..f809244 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -178,13 +178,15 @@ void Crawler::start() {
  */
 void Crawler::run(SharedQueue* sq, const char* dataDir) {
     while (true) {
+        pthread_mutex_lock(&sq->lock);
         while ((*sq).sharedQueue.empty()) {
+            pthread_mutex_unlock(&sq->lock);
             sleep(1);  // TODO
+            pthread_mutex_lock(&sq->lock);
         }
 
         QueueNode qNode = (*sq).sharedQueue.front();
 
-        pthread_mutex_lock(&sq->lock);
         (*sq).sharedQueue.pop();
         pthread_mutex_unlock(&sq->lock);
 
-- 
2.43.0


From 74cb29367d28a228e22a6e53c920e0e7195a84bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:42 +0000
Subject: [PATCH 44/58] fix: number the formulae which are not part of the text
 of a document

---
 src/crawler/parser/MathParser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 8322189..cbf9615 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -129,16 +129,18 @@ Harvest createHarvestFromDocument(const string& path,
             return;
         }
 
+        // formulae outside of the text have no number yet
+        const uint32_t localId = mathIdDictionary.put(id);
+
         if (config.shouldSaveData) {
-            data << "<math local_id=\"" << mathIdDictionary.get(id) << "\">"
+            data << "<math local_id=\"" << localId << "\">"
                  << getEscapedXmlFromNode(doc, mathNode) << "</math>\n";
         }
         cleanContentMath(cmmlNode);
 
         stringstream expression;
         if (config.shouldSaveData) {
-            expression << "<mws:expr url=\"" << mathIdDictionary.get(id)
-                       << "\"";
+            expression << "<mws:expr url=\"" << localId << "\"";
             expression << " mws:data_id=\"" << config.data_id << "\"";
         } else {
             expression << "<mws:expr url=\"" << documentId << "#" << id << "\"";
-- 
2.43.0


From fcd11657282f7b37304a634337c63dc6e3cbfecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:42 +0000
Subject: [PATCH 45/58] fix: escape the addresses of formulae harvested without
 data

---
 src/crawler/parser/MathParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index cbf9615..ade79cb 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -143,7 +143,8 @@ Harvest createHarvestFromDocument(const string& path,
             expression << "<mws:expr url=\"" << localId << "\"";
             expression << " mws:data_id=\"" << config.data_id << "\"";
         } else {
-            expression << "<mws:expr url=\"" << documentId << "#" << id << "\"";
+            expression << "<mws:expr url=\""
+                       << escapeXml(doc, documentId + "#" + id) << "\"";
         }
         expression << ">" << getXmlFromNode(doc, cmmlNode) << "</mws:expr>\n";
         harvest.contentMathElements.push_back(expression.str());
-- 
2.43.0


From 4732be28fcb65e5188b319927e26ea61e728bc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:42 +0000
Subject: [PATCH 46/58] fix: do not copy attributes with undeclared prefixes to
 the harvest

---
 src/crawler/parser/MathParser.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index ade79cb..f0ac7f4 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -176,6 +176,20 @@ static void cleanContentMath(xmlNode* node) {
     xmlUnsetProp(node, BAD_CAST "id");
     xmlUnsetProp(node, BAD_CAST "xref");
 
+    // Remove attributes with a prefix, which is not declared in the harvest
+    if (node->type == XML_ELEMENT_NODE) {
+        xmlAttr* attr = node->properties;
+        while (attr != nullptr) {
+            xmlAttr* next = attr->next;
+            // (the HTML parser leaves prefixes in the name)
+            if (attr->ns != nullptr ||
+                xmlStrchr(attr->name, ':') != nullptr) {
+                xmlRemoveProp(attr);
+            }
+            attr = next;
+        }
+    }
+
     // Remove namespace from name
     xmlSetNs(node, nullptr);
 
-- 
2.43.0


From 947ba70f5098f90abf8db2c0541ec7b7d1da4285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:42 +0000
Subject: [PATCH 47/58] fix: discard formulae whose entities are not known in
 the harvest

---
 src/crawler/parser/MathParser.cpp |  9 ++++++++-
 src/crawler/parser/XmlParser.cpp  | 11 +++++++++++
 src/crawler/parser/XmlParser.hpp  |  6 ++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index f0ac7f4..554a437 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -138,6 +138,13 @@ Harvest createHarvestFromDocument(const string& path,
         }
         cleanContentMath(cmmlNode);
 
+        const string contentMath = getXmlFromNode(doc, cmmlNode);
+        if (!isWellFormedXml(contentMath)) {
+            PRINT_WARN("Discarding math element #%s with undeclared entities\n",
+                       id.c_str());
+            return;
+        }
+
         stringstream expression;
         if (config.shouldSaveData) {
             expression << "<mws:expr url=\"" << localId << "\"";
@@ -146,7 +153,7 @@ Harvest createHarvestFromDocument(const string& path,
             expression << "<mws:expr url=\""
                        << escapeXml(doc, documentId + "#" + id) << "\"";
         }
-        expression << ">" << getXmlFromNode(doc, cmmlNode) << "</mws:expr>\n";
+        expression << ">" << contentMath << "</mws:expr>\n";
         harvest.contentMathElements.push_back(expression.str());
     });
 
diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index a712e89..5774246 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -85,6 +85,17 @@ xmlDocPtr parseDocument(const char* content, int size) {
     throw runtime_error("XML/HTML parse error");
 }
 
+bool isWellFormedXml(const string& xml) {
+    xmlDocPtr doc = xmlReadMemory(xml.c_str(), xml.size(), /* URL = */ "",
+                                  "UTF-8",
+                                  XML_PARSE_NOWARNING | XML_PARSE_NOERROR);
+    if (doc == nullptr) {
+        return false;
+    }
+    xmlFreeDoc(doc);
+    return true;
+}
+
 string escapeXml(xmlDoc* doc, const string& xml) {
     xmlChar* escapedXml = xmlEncodeSpecialChars(doc, BAD_CAST xml.c_str());
     string escapedXmlString(reinterpret_cast<char*>(escapedXml));
diff --git a/src/crawler/parser/XmlParser.hpp b/src/crawler/parser/XmlParser.hpp
index de55618..5308f55 100644
--- a/src/crawler/parser/XmlParser.hpp
+++ b/src/crawler/parser/XmlParser.hpp
@@ -49,6 +49,12 @@ namespace parser {
  */
 xmlDocPtr parseDocument(const char *content, int size);
 
+/**
+ * @param xml a single element
+ * @return whether it is well-formed by itself
+ */
+bool isWellFormedXml(const std::string& xml);
+
 typedef std::function<void (xmlNode*)> ProcessXmlNodeCallback;
 class XmlNodeProcessor {
  public:
-- 
2.43.0


From c367b657592a15090619c347e5d3fc2d21cf0b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:42 +0000
Subject: [PATCH 48/58] fix: replace characters which are not allowed in
 harvests

---
 src/crawler/parser/MathParser.cpp |  2 +-
 src/crawler/parser/XmlParser.cpp  | 27 ++++++++++++++++++++++++++-
 src/crawler/parser/XmlParser.hpp  |  5 +++++
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 554a437..623bec4 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -93,7 +93,7 @@ Harvest createHarvestFromDocument(const string& path,
     if (config.documentIdXpath != "") {
         documentId = getTextByXpath(doc, config.documentIdXpath);
     } else {
-        documentId = path;
+        documentId = replaceInvalidCharacters(path);
     }
 
     MathIdDictionary mathIdDictionary;
diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index 5774246..51d036b 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -28,6 +28,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <string.h>
 #include <libxml/parser.h>
 #include <libxml/HTMLparser.h>
+#include <libxml/parserInternals.h>
 #include <libxml/tree.h>
 #include <libxml/xpath.h>
 
@@ -73,9 +74,10 @@ xmlDocPtr parseDocument(const char* content, int size) {
     }
 
     // Try as HTML
+    const string text = replaceInvalidCharacters(string(content, size));
     htmlParserCtxtPtr htmlParserCtxt = htmlNewParserCtxt();
     doc = htmlCtxtReadMemory(
-        htmlParserCtxt, content, size, /* URL = */ "", "UTF-8",
+        htmlParserCtxt, text.c_str(), text.size(), /* URL = */ "", "UTF-8",
         HTML_PARSE_RECOVER | HTML_PARSE_NOWARNING | HTML_PARSE_NOERROR);
     htmlFreeParserCtxt(htmlParserCtxt);
     if (doc != nullptr) {
@@ -85,6 +87,29 @@ xmlDocPtr parseDocument(const char* content, int size) {
     throw runtime_error("XML/HTML parse error");
 }
 
+string replaceInvalidCharacters(const string& text) {
+    const char REPLACEMENT[] = "\xEF\xBF\xBD";  // U+FFFD
+    string result;
+    size_t i = 0;
+    while (i < text.size()) {
+        int length = text.size() - i;
+        int c = xmlGetUTF8Char(BAD_CAST text.c_str() + i, &length);
+        if (c < 0) {
+            result += REPLACEMENT;
+            i += 1;
+        } else {
+            if (IS_CHAR(c)) {
+                result.append(text, i, length);
+            } else {
+                result += REPLACEMENT;
+            }
+            i += length;
+        }
+    }
+
+    return result;
+}
+
 bool isWellFormedXml(const string& xml) {
     xmlDocPtr doc = xmlReadMemory(xml.c_str(), xml.size(), /* URL = */ "",
                                   "UTF-8",
diff --git a/src/crawler/parser/XmlParser.hpp b/src/crawler/parser/XmlParser.hpp
index 5308f55..2c50975 100644
--- a/src/crawler/parser/XmlParser.hpp
+++ b/src/crawler/parser/XmlParser.hpp
@@ -49,6 +49,11 @@ namespace parser {
  */
 xmlDocPtr parseDocument(const char *content, int size);
 
+/**
+ * @brief replace what is not valid UTF-8, or not allowed in XML
+ */
+std::string replaceInvalidCharacters(const std::string& text);
+
 /**
  * @param xml a single element
  * @return whether it is well-formed by itself
-- 
2.43.0


From 3f2956cc0788f26e66a984351362df43f329ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:24 +0000
Subject: [PATCH 49/58] fix: escape white space in the addresses of formulae
 harvested without data

---
 src/crawler/parser/MathParser.cpp |  2 +-
 src/crawler/parser/XmlParser.cpp  | 18 ++++++++++++++++++
 src/crawler/parser/XmlParser.hpp  |  1 +
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 623bec4..f33ac1d 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -151,7 +151,7 @@ Harvest createHarvestFromDocument(const string& path,
             expression << " mws:data_id=\"" << config.data_id << "\"";
         } else {
             expression << "<mws:expr url=\""
-                       << escapeXml(doc, documentId + "#" + id) << "\"";
+                       << escapeXmlAttribute(doc, documentId + "#" + id) << "\"";
         }
         expression << ">" << contentMath << "</mws:expr>\n";
         harvest.contentMathElements.push_back(expression.str());
diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index 51d036b..e047112 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -128,6 +128,24 @@ string escapeXml(xmlDoc* doc, const string& xml) {
     return escapedXmlString;
 }
 
+string escapeXmlAttribute(xmlDoc* doc, const string& xml) {
+    string escapedXml;
+    for (char c : escapeXml(doc, xml)) {
+        // white space in attributes is otherwise read as spaces
+        switch (c) {
+        case '\n':
+            escapedXml += "&#10;";
+            break;
+        case '\t':
+            escapedXml += "&#9;";
+            break;
+        default:
+            escapedXml += c;
+        }
+    }
+    return escapedXml;
+}
+
 string getTextFromNode(xmlNode* node, MathIdDictionary* encodedMathIds) {
     stringstream stream;
     dumpNodeToText(node, &stream, encodedMathIds);
diff --git a/src/crawler/parser/XmlParser.hpp b/src/crawler/parser/XmlParser.hpp
index 2c50975..c02105f 100644
--- a/src/crawler/parser/XmlParser.hpp
+++ b/src/crawler/parser/XmlParser.hpp
@@ -88,6 +88,7 @@ std::string getXmlFromNode(xmlDoc* doc, xmlNode* node);
 typedef common::types::IdDictionary<std::string, uint32_t> MathIdDictionary;
 
 std::string escapeXml(xmlDoc* doc, const std::string& xml);
+std::string escapeXmlAttribute(xmlDoc* doc, const std::string& xml);
 std::string getTextFromNode(xmlNode* node,
                             MathIdDictionary* encodedMathIds = nullptr);
 
-- 
2.43.0


From 4daa0f76bca4f61363da286e00dbdfd510b6601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:54 +0000
Subject: [PATCH 50/58] fix: replace stray continuation bytes and overlong
 characters in documents

---
 src/crawler/parser/XmlParser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index e047112..752af07 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -94,7 +94,12 @@ string replaceInvalidCharacters(const string& text) {
     while (i < text.size()) {
         int length = text.size() - i;
         int c = xmlGetUTF8Char(BAD_CAST text.c_str() + i, &length);
-        if (c < 0) {
+        // neither continuation bytes nor overlong forms begin a character
+        const bool isContinuation = (text[i] & 0xC0) == 0x80;
+        const bool isOverlong = (length >= 2 && c < 0x80) ||
+                                (length >= 3 && c < 0x800) ||
+                                (length >= 4 && c < 0x10000);
+        if (c < 0 || isContinuation || isOverlong) {
             result += REPLACEMENT;
             i += 1;
         } else {
-- 
2.43.0


From 225cb2c7db34359085ad41cb595f61a3d9c5bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:41 +0000
Subject: [PATCH 51/58] fix: read exported data as XML, with all their elements
 and names

---
 src/crawler/harvests2json.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index f4d17f7..b690268 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -139,7 +139,9 @@ struct DataItems {
 };
 
 static DataItems* getDataItems(const string& content) {
-    xmlDocPtr doc = parseDocument(content.c_str(), content.size());
+    // the content of a data element is not a document: it has several roots
+    const string document = "<data>" + content + "</data>";
+    xmlDocPtr doc = parseDocument(document.c_str(), document.size());
     DataItems* dataItems = new DataItems();
     dataItems->text = getTextByXpath(doc, TEXT_XPATH);
     dataItems->id = getTextByXpath(doc, ID_XPATH);
-- 
2.43.0


From 466639f1f16f818495ee073202d586a3f62ebec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:41 +0000
Subject: [PATCH 52/58] fix: export documents whose data contain math elements
 without number

---
 src/crawler/harvests2json.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index b690268..d42a2f1 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -149,7 +149,10 @@ static DataItems* getDataItems(const string& content) {
     // get math node mappings
     processXpathResults(doc, MATH_XPATH, [&](xmlNode* mathNode) {
         const xmlChar* xmlId = xmlGetProp(mathNode, BAD_CAST "local_id");
-        assert(xmlId != nullptr);
+        if (xmlId == nullptr) {
+            PRINT_WARN("Ignoring math element without local_id\n");
+            return;
+        }
 
         string id((char*)xmlId);
         xmlFree((void*)xmlId);
-- 
2.43.0


From f9abadc967d6105700df9739a0728d6e3ccd2069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:41 +0000
Subject: [PATCH 53/58] fix: skip expressions without document in the export

---
 src/crawler/harvests2json.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index d42a2f1..db836c9 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -90,6 +90,7 @@ using mws::dbc::FormulaDb;
 using mws::dbc::LevFormulaDb;
 #include "mws/dbc/CrawlDb.hpp"
 using mws::dbc::CrawlId;
+using mws::dbc::CRAWLID_NULL;
 #include "mws/query/SearchContext.hpp"
 using mws::query::SearchContext;
 #include "mws/types/FormulaPath.hpp"
@@ -365,6 +366,11 @@ int HarvestParser::processExpression(const CmmlToken* expression,
     assert(expression != nullptr);
     assert(crawlId <= _idCounter);
 
+    if (crawlId == CRAWLID_NULL) {
+        PRINT_WARN("Skipping an expression which is not part of a document\n");
+        return 0;
+    }
+
     HarvestEncoder encoder(_meaningDictionary);
     u_int32_t numSubExpressions = 0;
 
-- 
2.43.0


From 5e72175ef16880c93d3bad470b1887f44792c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:41 +0000
Subject: [PATCH 54/58] fix: skip formulae which are not in the index in the
 export

---
 src/crawler/harvests2json.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index db836c9..6e4f9e0 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -389,6 +389,11 @@ int HarvestParser::processExpression(const CmmlToken* expression,
                                                /* offset = */ 0,
                                                /* size = */ 1,
                                                /* maxTotal = */ 1);
+        if (result->ids.empty()) {
+            PRINT_WARN("Skipping a formula (not in the index)\n");
+            delete result;
+            return;
+        }
         numSubExpressions += result->total;
         auto hit = new Hit();
         FormulaId fmId = *(result->ids.begin());
-- 
2.43.0


From a985ef79cddccb82d31d594e67303d1106d13a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:41 +0000
Subject: [PATCH 55/58] fix: do not leave an empty export of a harvest that
 cannot be opened

---
 src/crawler/harvests2json.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 6e4f9e0..ee38c6a 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -259,27 +259,28 @@ int main(int argc, char* argv[]) {
             const std::string& path, const std::string& prefix) {
             UNUSED(prefix);
             if (hasSuffix(path, "." + config.harvester.fileExtension)) {
+                int fd = open(path.c_str(), O_RDONLY);
+                if (fd < 0) {
+                    PRINT_WARN("Open %s: %s\n", path.c_str(), strerror(errno));
+                    return -1;
+                }
+
                 string outputName = path + ".json";
                 FILE* output = fopen(outputName.c_str(), "wx");
                 if (output == nullptr) {
-                    if (errno == EEXIST) {
+                    const int error = errno;
+                    close(fd);
+                    if (error == EEXIST) {
                         PRINT_LOG("Skipping \"%s\": already converted\n",
                                   path.c_str());
                         return 0;
                     } else {
                         PRINT_WARN("Open %s: %s\n", outputName.c_str(),
-                                   strerror(errno));
+                                   strerror(error));
                         return -1;
                     }
                 }
 
-                int fd = open(path.c_str(), O_RDONLY);
-                if (fd < 0) {
-                    PRINT_WARN("Open %s: %s\n", path.c_str(), strerror(errno));
-                    fclose(output);
-                    return -1;
-                }
-
                 vector<ParseResult*> parseResults = parseMwsHarvestFromFd(
                     config.encoding, data.getIndexHandle(),
                     data.getMeaningDictionary(), fd);
-- 
2.43.0


From 4b7ddfbbe81df9324c3771c32576dd7ab611b36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:53 +0000
Subject: [PATCH 56/58] fix: analyses of an index with renamed identifiers no
 longer abort

---
 src/mws/analytics/analytics.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mws/analytics/analytics.cpp b/src/mws/analytics/analytics.cpp
index 1b34b38..986f0f0 100644
--- a/src/mws/analytics/analytics.cpp
+++ b/src/mws/analytics/analytics.cpp
@@ -148,9 +148,14 @@ void CmmlTokenBuilder::pushToken(encoded_token_t encodedToken) {
 
     string meaning = _decoder.getMeaning(encodedToken.id);
     std::size_t separator_pos = meaning.find('#');
-    assert(separator_pos != std::string::npos);
-    string tag = meaning.substr(0, separator_pos);
-    string textContent = meaning.substr(separator_pos + 1);
+    string tag, textContent;
+    if (separator_pos != std::string::npos) {
+        tag = meaning.substr(0, separator_pos);
+        textContent = meaning.substr(separator_pos + 1);
+    } else {  // an identifier renamed by the ExpressionEncoder
+        tag = "ci";
+        textContent = meaning;
+    }
     token->setTag(tag);
     token->appendTextContent(textContent);
 
-- 
2.43.0


From 97e8a05c07850bf25aca1dd13d09029580379211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:29 +0000
Subject: [PATCH 57/58] fix: the experimental engine overran its fixed-size
 stacks on formulas of more than 256 tokens

---
 src/mws/query/engine.c | 110 +++++++++++++++++++++++++++++------------
 1 file changed, 78 insertions(+), 32 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index 08ef98e..e007ef0 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -26,6 +26,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  * License: GPLv3
  */
 
+#include <stdlib.h>
+
 #include "mws/query/engine.h"
 
 #include "mws/index/encoded_token.h"
@@ -35,23 +37,33 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 /* Constants                                                                */
 /*--------------------------------------------------------------------------*/
 
-#define MAX_VAR_INSTATIATION_SIZE 256
-#define MAX_QUERY_STACK_SIZE 512
+#define TOKEN_STACK_MIN_CAPACITY 64
 
 /*--------------------------------------------------------------------------*/
 /* Type declarations                                                        */
 /*--------------------------------------------------------------------------*/
 
+typedef struct token_stack_s {
+    encoded_token_t* data;
+    int size;
+    int capacity;
+} token_stack_t;
+
 typedef struct var_instantiation_s {
     bool solved;
-    encoded_token_t tokens[MAX_VAR_INSTATIATION_SIZE];
-    int num_tokens;
+    token_stack_t tokens;
 } var_instantiation_t;
 
-typedef struct token_stack_s {
-    encoded_token_t data[MAX_QUERY_STACK_SIZE];
-    int size;
-} token_stack_t;
+static inline void token_stack_init(token_stack_t* stack) {
+    stack->data = NULL;
+    stack->size = 0;
+    stack->capacity = 0;
+}
+
+static inline void token_stack_free(token_stack_t* stack) {
+    free(stack->data);
+    token_stack_init(stack);
+}
 
 static inline encoded_token_t token_stack_pop(token_stack_t* RESTRICT stack) {
     stack->size--;
@@ -60,6 +72,16 @@ static inline encoded_token_t token_stack_pop(token_stack_t* RESTRICT stack) {
 
 static inline void token_stack_push(token_stack_t* RESTRICT stack,
                                     encoded_token_t token) {
+    if (stack->size == stack->capacity) {
+        stack->capacity = (stack->capacity == 0) ? TOKEN_STACK_MIN_CAPACITY
+                                                 : 2 * stack->capacity;
+        stack->data = (encoded_token_t*)realloc(
+            stack->data, stack->capacity * sizeof(encoded_token_t));
+        if (stack->data == NULL) {
+            PRINT_WARN("Out of memory\n");
+            abort();
+        }
+    }
     stack->data[stack->size] = token;
     stack->size++;
 }
@@ -104,6 +126,8 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
                             result_callback_t result_cb,
                             void* RESTRICT result_cb_handle);
 
+static void query_ctxt_free(query_ctxt_t* query_ctxt);
+
 static int process_query_token(query_ctxt_t* query_ctxt);
 
 static int match_var_to_index(query_ctxt_t* query_ctxt, uint32_t arity);
@@ -124,7 +148,11 @@ int query_engine_run(index_handle_t* RESTRICT index,
 
     query_ctxt_init(&query_ctxt, index, query, result_cb, result_cb_handle);
 
-    return process_query_token(&query_ctxt);
+    int ret = process_query_token(&query_ctxt);
+
+    query_ctxt_free(&query_ctxt);
+
+    return ret;
 }
 
 /*--------------------------------------------------------------------------*/
@@ -141,18 +169,19 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
     // initialize variables table
     for (i = 0; i < VAR_ID_MAX; i++) {
         query_ctxt->vars[i].solved = false;
+        token_stack_init(&query_ctxt->vars[i].tokens);
     }
 
     // initialize query stack
     int size = query->size;
-    query_ctxt->query_stack.size = size;
+    token_stack_init(&query_ctxt->query_stack);
     for (i = 0; i < size; i++) {
-        query_ctxt->query_stack.data[size - i - 1] = query->data[i];
+        token_stack_push(&query_ctxt->query_stack, query->data[size - i - 1]);
     }
 
     // intialize index
     query_ctxt->curr_index_inode = (inode_t*)index->root;
-    query_ctxt->index_stack.size = 0;
+    token_stack_init(&query_ctxt->index_stack);
 
     // initialize memsector alloc
     query_ctxt->alloc = index->ms;
@@ -162,6 +191,16 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
     query_ctxt->result_cb_handle = result_cb_handle;
 }
 
+static void query_ctxt_free(query_ctxt_t* query_ctxt) {
+    int i;
+
+    for (i = 0; i < VAR_ID_MAX; i++) {
+        token_stack_free(&query_ctxt->vars[i].tokens);
+    }
+    token_stack_free(&query_ctxt->query_stack);
+    token_stack_free(&query_ctxt->index_stack);
+}
+
 static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
     int ret;
     token_stack_t* query = &query_ctxt->query_stack;
@@ -182,9 +221,9 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
         if (query_ctxt->vars[var_id].solved) {  // solved
             var_instantiation_t* var = &query_ctxt->vars[var_id];
             int i;
-            int size = var->num_tokens;
+            int size = var->tokens.size;
             for (i = 0; i < size; ++i) {
-                token_stack_push(query, var->tokens[size - i - 1]);
+                token_stack_push(query, var->tokens.data[size - i - 1]);
             }
 
             // continue
@@ -195,7 +234,7 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
             token_stack_pop_many(query, size);
         } else {  // unsolved
             query_ctxt->solving_var_id = var_id;
-            query_ctxt->vars[var_id].num_tokens = 0;
+            query_ctxt->vars[var_id].tokens.size = 0;
             ret = match_var_to_index(query_ctxt, 1);
             if (ret != QUERY_CONTINUE) return ret;
         }
@@ -276,7 +315,7 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
 
     if (arity == 0) {
         uint32_t var_id = query_ctxt->solving_var_id;
-        if (var->num_tokens > 0) {
+        if (var->tokens.size > 0) {
             var->solved = true;
         }
 
@@ -312,7 +351,7 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
             }
             int pushed_var_tokens = 0;
             token_stack_t var_stack;
-            var_stack.size = 0;
+            token_stack_init(&var_stack);
             token_stack_push(&var_stack, entry_token);
 
             while (!token_stack_empty(&var_stack)) {
@@ -322,7 +361,7 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
                     // check self-referencing variable
                     if (var_id == query_ctxt->solving_var_id) {
                         if (token_stack_empty(&var_stack) &&
-                            var->num_tokens == 0) {
+                            var->tokens.size == 0) {
                             // variable self references (e.g. Q1 -> H1 -> Q1)
                             // => set as not solved and proceed
                             break;
@@ -330,6 +369,7 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
                             // variable is infinitely recursive
                             // (e.g. Q1 -> f(H1) -> f(g(Q1)))
                             // => no solution
+                            token_stack_free(&var_stack);
                             goto revert_index;
                         }
                     }
@@ -338,18 +378,19 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
                             &query_ctxt->vars[var_id];
                         // push in reverse order on stack
                         int i;
-                        for (i = solved_var->num_tokens - 1; i >= 0; --i) {
-                            token_stack_push(&var_stack, solved_var->tokens[i]);
+                        for (i = solved_var->tokens.size - 1; i >= 0; --i) {
+                            token_stack_push(&var_stack, solved_var->tokens.data[i]);
                         }
                         continue;
                     }
                 }
                 // save to var_instantiation
-                var->tokens[var->num_tokens] = token;
-                var->num_tokens++;
+                token_stack_push(&var->tokens, token);
                 pushed_var_tokens++;
             }
 
+            token_stack_free(&var_stack);
+
             // advance in the index
             const inode_t* curr = query_ctxt->curr_index_inode;
             const inode_t* child =
@@ -362,7 +403,7 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
 
         revert_index:
             // revert
-            var->num_tokens -= pushed_var_tokens;
+            token_stack_pop_many(&var->tokens, pushed_var_tokens);
             query_ctxt->curr_index_inode = curr;
         }
     }
@@ -380,7 +421,7 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
     var_instantiation_t* var = &query_ctxt->vars[query_ctxt->solving_var_id];
 
     token_stack_t tmp_rev_stack;
-    tmp_rev_stack.size = 0;
+    token_stack_init(&tmp_rev_stack);
 
     // move the var matching to a temp reverted stack
     int arity = 1;
@@ -394,9 +435,9 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
     token_stack_t var_stack;
     int i;
     int size = tmp_rev_stack.size;
-    var_stack.size = size;
+    token_stack_init(&var_stack);
     for (i = 0; i < size; ++i) {
-        var_stack.data[i] = tmp_rev_stack.data[size - 1 - i];
+        token_stack_push(&var_stack, tmp_rev_stack.data[size - 1 - i]);
     }
 
     // simplify using solved vars and save to var_instantiation
@@ -407,7 +448,7 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
             uint32_t var_id = encoded_token_get_id(token);
             // check self-referencing variable
             if (var_id == query_ctxt->solving_var_id) {
-                if (token_stack_empty(&var_stack) && var->num_tokens == 0) {
+                if (token_stack_empty(&var_stack) && var->tokens.size == 0) {
                     // variable self references (e.g. Q1 -> H1 -> Q1)
                     // => set as not solved and proceed
                     solved = false;
@@ -423,15 +464,14 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
                 var_instantiation_t* solved_var = &query_ctxt->vars[var_id];
                 // push in reverse order on stack
                 int i;
-                for (i = solved_var->num_tokens - 1; i >= 0; --i) {
-                    token_stack_push(&var_stack, solved_var->tokens[i]);
+                for (i = solved_var->tokens.size - 1; i >= 0; --i) {
+                    token_stack_push(&var_stack, solved_var->tokens.data[i]);
                 }
                 continue;
             }
         }
         // save to var_instantiation
-        var->tokens[var->num_tokens] = token;
-        var->num_tokens++;
+        token_stack_push(&var->tokens, token);
     }
 
     // set var as solved
@@ -439,13 +479,19 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
 
     // continue
     ret = process_query_token(query_ctxt);
-    if (ret != QUERY_CONTINUE) return ret;
+    if (ret != QUERY_CONTINUE) {
+        token_stack_free(&var_stack);
+        token_stack_free(&tmp_rev_stack);
+        return ret;
+    }
 
 revert_stack:
+    token_stack_free(&var_stack);
     var->solved = false;
     while (!token_stack_empty(&tmp_rev_stack)) {
         token_stack_push(stack, token_stack_pop(&tmp_rev_stack));
     }
+    token_stack_free(&tmp_rev_stack);
 
     return QUERY_CONTINUE;
 }
-- 
2.43.0


From e414701c8edcf68b862aa37687c33d1b3ff33975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:45 +0000
Subject: [PATCH 58/58] fix: the experimental engine recursed once per token
 and overflowed its stack on large formulas

---
 src/mws/query/engine.c | 314 ++++++++++++++++++++++++++---------------
 1 file changed, 198 insertions(+), 116 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index e007ef0..6b6e3d6 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -27,6 +27,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  */
 
 #include <stdlib.h>
+#include <string.h>
 
 #include "mws/query/engine.h"
 
@@ -96,6 +97,50 @@ static inline bool token_stack_empty(const token_stack_t* RESTRICT stack) {
     return (stack->size == 0);
 }
 
+/* nodes of the index on the way to the current one */
+typedef struct inode_path_entry_s {
+    const inode_t* inode;
+    encoded_token_t token;
+    uint32_t arity;
+    uint32_t next_child;
+    int pushed_var_tokens;
+} inode_path_entry_t;
+
+typedef struct inode_path_s {
+    inode_path_entry_t* entries;
+    int size;
+    int capacity;
+} inode_path_t;
+
+static inline void inode_path_init(inode_path_t* path) {
+    path->entries = NULL;
+    path->size = 0;
+    path->capacity = 0;
+}
+
+static inline void inode_path_free(inode_path_t* path) {
+    free(path->entries);
+    inode_path_init(path);
+}
+
+static inline inode_path_entry_t* inode_path_push(inode_path_t* path,
+                                                  const inode_t* inode) {
+    if (path->size == path->capacity) {
+        path->capacity = (path->capacity == 0) ? TOKEN_STACK_MIN_CAPACITY
+                                               : 2 * path->capacity;
+        path->entries = (inode_path_entry_t*)realloc(
+            path->entries, path->capacity * sizeof(inode_path_entry_t));
+        if (path->entries == NULL) {
+            PRINT_WARN("Out of memory\n");
+            abort();
+        }
+    }
+    inode_path_entry_t* entry = &path->entries[path->size++];
+    memset(entry, 0, sizeof(*entry));
+    entry->inode = inode;
+    return entry;
+}
+
 typedef struct query_ctxt_s {
     /* query tokens and iterator */
     token_stack_t query_stack;
@@ -130,6 +175,8 @@ static void query_ctxt_free(query_ctxt_t* query_ctxt);
 
 static int process_query_token(query_ctxt_t* query_ctxt);
 
+static int match_constants_to_index(query_ctxt_t* query_ctxt);
+
 static int match_var_to_index(query_ctxt_t* query_ctxt, uint32_t arity);
 
 static int match_var_to_query(query_ctxt_t* query_ctxt, uint32_t arity);
@@ -264,151 +311,186 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
             }
             token_stack_push(&query_ctxt->index_stack, index_token);
         } else {  // regular index
-            const inode_t* curr = query_ctxt->curr_index_inode;
-            memsector_long_off_t off;
-            if (curr->type == LONG_INTERNAL_NODE) {
-                off = inode_long_get_child((inode_long_t*)curr, query_token);
-            } else if (curr->type == INTERNAL_NODE) {
-                off = inode_get_child(curr, query_token);
-            } else {
-                assert(false);
-            }
-            if (off != MEMSECTOR_OFF_NULL) {  // move to corresponding child
-                const inode_t* child =
-                    (inode_t*)memsector_relOff2addr((char*)curr, off);
+            // push back query token to stack
+            token_stack_push(query, query_token);
 
-                query_ctxt->curr_index_inode = child;
+            ret = match_constants_to_index(query_ctxt);
+            if (ret != QUERY_CONTINUE) return ret;
+        }
+    }
 
-                // continue
-                ret = process_query_token(query_ctxt);
-                if (ret != QUERY_CONTINUE) return ret;
+    return QUERY_CONTINUE;
+}
 
-                // revert
-                query_ctxt->curr_index_inode = curr;
+/**
+ * @brief Match the constants on top of the query stack to the index, as far
+ * as there are any, then whatever follows them
+ */
+static int match_constants_to_index(query_ctxt_t* query_ctxt) {
+    int ret = QUERY_CONTINUE;
+    token_stack_t* query = &query_ctxt->query_stack;
+    inode_path_t path;
+    bool matching = true;
 
-                // revert query token before hvars processing
-                token_stack_push(query, query_token);
+    inode_path_init(&path);
 
-                // hvars
-                uint32_t hvar_id_max =
-                    inode_get_max_var(query_ctxt->curr_index_inode);
-                uint32_t hvar_id;
-                for (hvar_id = 0; hvar_id < hvar_id_max; hvar_id++) {
-                    query_ctxt->solving_var_id = hvar_id;
-                    ret = match_var_to_query(query_ctxt, 1);
-                    if (ret != QUERY_CONTINUE) return ret;
-                }
-            } else {  // no child node exists
-                // revert query token
-                token_stack_push(query, query_token);
-            }
+    while (matching && !token_stack_empty(query)) {
+        const inode_t* curr = query_ctxt->curr_index_inode;
+        encoded_token_t query_token = token_stack_pop(query);
+        memsector_long_off_t off;
+
+        if (encoded_token_is_var(query_token)) {
+            token_stack_push(query, query_token);
+            break;
+        }
+
+        if (curr->type == LONG_INTERNAL_NODE) {
+            off = inode_long_get_child((inode_long_t*)curr, query_token);
+        } else if (curr->type == INTERNAL_NODE) {
+            off = inode_get_child(curr, query_token);
+        } else {
+            assert(false);
+        }
+        if (off != MEMSECTOR_OFF_NULL) {  // move to corresponding child
+            inode_path_entry_t* entry = inode_path_push(&path, curr);
+            entry->token = query_token;
+            query_ctxt->curr_index_inode =
+                (inode_t*)memsector_relOff2addr((char*)curr, off);
+        } else {  // no child node exists
+            token_stack_push(query, query_token);
+            matching = false;
         }
     }
 
-    return QUERY_CONTINUE;
+    // continue
+    if (matching) ret = process_query_token(query_ctxt);
+
+    // revert
+    while (ret == QUERY_CONTINUE && path.size > 0) {
+        inode_path_entry_t* entry = &path.entries[--path.size];
+        query_ctxt->curr_index_inode = entry->inode;
+        token_stack_push(query, entry->token);
+
+        // hvars
+        uint32_t hvar_id_max = inode_get_max_var(entry->inode);
+        uint32_t hvar_id;
+        for (hvar_id = 0; ret == QUERY_CONTINUE && hvar_id < hvar_id_max;
+             hvar_id++) {
+            query_ctxt->solving_var_id = hvar_id;
+            ret = match_var_to_query(query_ctxt, 1);
+        }
+    }
+
+    inode_path_free(&path);
+
+    return ret;
 }
 
 static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
                               uint32_t arity) {
-    int ret;
-    var_instantiation_t* var = &query_ctxt->vars[query_ctxt->solving_var_id];
+    int ret = QUERY_CONTINUE;
+    const uint32_t var_id = query_ctxt->solving_var_id;
+    var_instantiation_t* var = &query_ctxt->vars[var_id];
 
-    if (arity == 0) {
-        uint32_t var_id = query_ctxt->solving_var_id;
-        if (var->tokens.size > 0) {
-            var->solved = true;
-        }
+    if (!token_stack_empty(&query_ctxt->index_stack)) {  // index stack
+        return match_var_to_stack(query_ctxt, &query_ctxt->index_stack);
+    }
 
-        // continue
-        ret = process_query_token(query_ctxt);
-        if (ret != QUERY_CONTINUE) return ret;
+    // regular index
+    token_stack_t var_stack;
+    inode_path_t path;
 
-        query_ctxt->solving_var_id = var_id;
-        var->solved = false;
+    token_stack_init(&var_stack);
+    inode_path_init(&path);
+    inode_path_push(&path, query_ctxt->curr_index_inode)->arity = arity;
+
+    while (ret == QUERY_CONTINUE && path.size > 0) {
+        inode_path_entry_t* entry = &path.entries[path.size - 1];
+        const inode_t* curr = entry->inode;
+        encoded_token_t entry_token;
+        memsector_long_off_t entry_off;
+
+        // revert the child which was tried last
+        token_stack_pop_many(&var->tokens, entry->pushed_var_tokens);
+        entry->pushed_var_tokens = 0;
+        query_ctxt->curr_index_inode = curr;
+
+        if (entry->next_child == curr->size) {
+            path.size--;
+            continue;
+        }
 
-    } else if (!token_stack_empty(&query_ctxt->index_stack)) {  // index stack
-        return match_var_to_stack(query_ctxt, &query_ctxt->index_stack);
-    } else {  // regular index
-        uint32_t i;
-        uint32_t size = query_ctxt->curr_index_inode->size;
-        const encoded_token_dict_entry_t* data;
-        const encoded_token_dict_entry_long_t* long_data;
-        const node_type_t node_type = query_ctxt->curr_index_inode->type;
-        if (node_type == LONG_INTERNAL_NODE) {
-            long_data = ((inode_long_t*)query_ctxt->curr_index_inode)->data;
+        if (curr->type == LONG_INTERNAL_NODE) {
+            const encoded_token_dict_entry_long_t* data =
+                ((inode_long_t*)curr)->data;
+            entry_token = data[entry->next_child].token;
+            entry_off = data[entry->next_child].off;
         } else {
-            data = query_ctxt->curr_index_inode->data;
+            entry_token = curr->data[entry->next_child].token;
+            entry_off = curr->data[entry->next_child].off;
         }
-        for (i = 0; i < size; ++i) {
-            encoded_token_t entry_token;
-            memsector_long_off_t entry_off;
-            if (node_type == LONG_INTERNAL_NODE) {
-                entry_token = long_data[i].token;
-                entry_off = long_data[i].off;
-            } else {
-                entry_token = data[i].token;
-                entry_off = data[i].off;
-            }
-            int pushed_var_tokens = 0;
-            token_stack_t var_stack;
-            token_stack_init(&var_stack);
-            token_stack_push(&var_stack, entry_token);
-
-            while (!token_stack_empty(&var_stack)) {
-                encoded_token_t token = token_stack_pop(&var_stack);
-                if (encoded_token_is_var(token)) {  // var
-                    uint32_t var_id = encoded_token_get_id(token);
-                    // check self-referencing variable
-                    if (var_id == query_ctxt->solving_var_id) {
-                        if (token_stack_empty(&var_stack) &&
-                            var->tokens.size == 0) {
-                            // variable self references (e.g. Q1 -> H1 -> Q1)
-                            // => set as not solved and proceed
-                            break;
-                        } else {
-                            // variable is infinitely recursive
-                            // (e.g. Q1 -> f(H1) -> f(g(Q1)))
-                            // => no solution
-                            token_stack_free(&var_stack);
-                            goto revert_index;
-                        }
-                    }
-                    if (query_ctxt->vars[var_id].solved) {  // solved var
-                        var_instantiation_t* solved_var =
-                            &query_ctxt->vars[var_id];
-                        // push in reverse order on stack
-                        int i;
-                        for (i = solved_var->tokens.size - 1; i >= 0; --i) {
-                            token_stack_push(&var_stack, solved_var->tokens.data[i]);
-                        }
-                        continue;
+        entry->next_child++;
+
+        bool recursive = false;
+        var_stack.size = 0;
+        token_stack_push(&var_stack, entry_token);
+
+        while (!token_stack_empty(&var_stack)) {
+            encoded_token_t token = token_stack_pop(&var_stack);
+            if (encoded_token_is_var(token)) {  // var
+                uint32_t token_var_id = encoded_token_get_id(token);
+                // check self-referencing variable
+                if (token_var_id == var_id) {
+                    // variable self references (e.g. Q1 -> H1 -> Q1)
+                    // => set as not solved and proceed, or
+                    // variable is infinitely recursive
+                    // (e.g. Q1 -> f(H1) -> f(g(Q1))) => no solution
+                    recursive = !token_stack_empty(&var_stack) ||
+                                var->tokens.size != 0;
+                    break;
+                }
+                if (query_ctxt->vars[token_var_id].solved) {  // solved var
+                    token_stack_t* solved =
+                        &query_ctxt->vars[token_var_id].tokens;
+                    // push in reverse order on stack
+                    int i;
+                    for (i = solved->size - 1; i >= 0; --i) {
+                        token_stack_push(&var_stack, solved->data[i]);
                     }
+                    continue;
                 }
-                // save to var_instantiation
-                token_stack_push(&var->tokens, token);
-                pushed_var_tokens++;
             }
+            // save to var_instantiation
+            token_stack_push(&var->tokens, token);
+            entry->pushed_var_tokens++;
+        }
+        if (recursive) continue;
 
-            token_stack_free(&var_stack);
+        // advance in the index
+        query_ctxt->curr_index_inode =
+            (inode_t*)memsector_relOff2addr((char*)curr, entry_off);
+        uint32_t child_arity = entry->arity + entry_token.arity - 1;
 
-            // advance in the index
-            const inode_t* curr = query_ctxt->curr_index_inode;
-            const inode_t* child =
-                (inode_t*)memsector_relOff2addr((char*)curr, entry_off);
-            query_ctxt->curr_index_inode = child;
+        if (child_arity == 0) {
+            if (var->tokens.size > 0) {
+                var->solved = true;
+            }
 
             // continue
-            ret = match_var_to_index(query_ctxt, arity + entry_token.arity - 1);
-            if (ret != QUERY_CONTINUE) return ret;
+            ret = process_query_token(query_ctxt);
 
-        revert_index:
-            // revert
-            token_stack_pop_many(&var->tokens, pushed_var_tokens);
-            query_ctxt->curr_index_inode = curr;
+            query_ctxt->solving_var_id = var_id;
+            var->solved = false;
+        } else {
+            inode_path_push(&path, query_ctxt->curr_index_inode)->arity =
+                child_arity;
         }
     }
 
-    return QUERY_CONTINUE;
+    token_stack_free(&var_stack);
+    inode_path_free(&path);
+
+    return ret;
 }
 
 static int match_var_to_query(query_ctxt_t* query_ctxt, uint32_t arity) {
-- 
2.43.0

