From 582643af3a9a00519926a1c510e200131391920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 01/39] fix: compare all constants of array operands in
 hasIdenticalBehavior

---
 gegelatilib/src/program/program.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/gegelatilib/src/program/program.cpp b/gegelatilib/src/program/program.cpp
index f098b29..0a0192e 100644
--- a/gegelatilib/src/program/program.cpp
+++ b/gegelatilib/src/program/program.cpp
@@ -262,17 +262,24 @@ bool Program::Program::hasIdenticalBehavior(const Program& other) const
                      operandIdx < instruction.getNbOperands(); operandIdx++) {
                     // Is the operand from the Constant data source.
                     if (thisLine.getOperand(operandIdx).first == 1) {
-                        // Check equality of constants
-                        Data::Constant thisCste =
-                            this->getConstantAt(this->constants.scaleLocation(
-                                thisLine.getOperand(operandIdx).second,
-                                typeid(Data::Constant)));
-                        Data::Constant otherCste =
-                            other.getConstantAt(other.constants.scaleLocation(
-                                otherLine.getOperand(operandIdx).second,
-                                typeid(Data::Constant)));
-                        if (thisCste != otherCste) {
-                            return false;
+                        // Check equality of all accessed constants (there may
+                        // be several of them if the operand is an array).
+                        const std::type_info& instrType =
+                            instruction.getOperandTypes().at(operandIdx).get();
+                        const std::type_info& operandType =
+                            (this->constants.getAddressSpace(instrType) > 0)
+                                ? instrType
+                                : typeid(Data::Constant);
+                        const uint64_t location = this->constants.scaleLocation(
+                            thisLine.getOperand(operandIdx).second,
+                            operandType);
+                        for (size_t address :
+                             this->constants.getAddressesAccessed(operandType,
+                                                                  location)) {
+                            if (this->getConstantAt(address) !=
+                                other.getConstantAt(address)) {
+                                return false;
+                            }
                         }
                     }
                 }
-- 
2.43.0


From ac0e1d5593617043cc7e364e46f0c4217cadd8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 02/39] fix: use the width of 2D data sources when printing
 accesses to 1D operands

---
 gegelatilib/src/data/dataHandlerPrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/data/dataHandlerPrinter.cpp b/gegelatilib/src/data/dataHandlerPrinter.cpp
index 53022f7..20a4b53 100644
--- a/gegelatilib/src/data/dataHandlerPrinter.cpp
+++ b/gegelatilib/src/data/dataHandlerPrinter.cpp
@@ -74,7 +74,7 @@ std::string Data::DataHandlerPrinter::printDataAt(
             }
             else {
 
-                size_t width = dataSizes.at(0);
+                size_t width = dataSizes.at(1);
                 size_t arrayWidth = opDimension.at(0);
 
                 size_t addressH = address / (width - arrayWidth + 1);
-- 
2.43.0


From 91d297df333a1c2e2b5e26739a4001d664c3945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 03/39] fix: name the root of stack-mode generated code
 correctly when it is an action

---
 gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
index 40604f8..65ff8a3 100644
--- a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
+++ b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
@@ -122,7 +122,7 @@ void CodeGen::TPGStackGenerationEngine::generateAction(
 void CodeGen::TPGStackGenerationEngine::setRoot(const TPG::TPGVertex& team)
 {
     fileMainH << "\nextern void* (*root)(int* action);" << std::endl;
-    fileMain << "void* (*root)(int* action) = T" << findVertexID(team) << ";"
+    fileMain << "void* (*root)(int* action) = " << vertexName(team) << ";"
              << std::endl;
 }
 
-- 
2.43.0


From a02ec4750a2f4a4146b8ff8325d9cc0c4e12f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 04/39] fix: generate a single function per action ID in stack
 mode

---
 .../src/codeGen/tpgStackGenerationEngine.cpp   | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
index 65ff8a3..a6a1217 100644
--- a/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
+++ b/gegelatilib/src/codeGen/tpgStackGenerationEngine.cpp
@@ -38,6 +38,8 @@
 
 #ifdef CODE_GENERATION
 
+#include <set>
+
 #include "codeGen/tpgStackGenerationEngine.h"
 
 CodeGen::TPGStackGenerationEngine::TPGStackGenerationEngine(
@@ -133,13 +135,18 @@ void CodeGen::TPGStackGenerationEngine::generateTPGGraph()
 
     std::map<const TPG::TPGTeam*, std::list<TPG::TPGEdge*>> graph;
     auto vertices = this->tpg.getVertices();
+    // several action vertices may share an action ID, and thus a function
+    std::set<uint64_t> generatedActionIDs;
     // give an id for each team of the graph
     for (auto vertex : vertices) {
         if (dynamic_cast<const TPG::TPGTeam*>(vertex) != nullptr) {
             generateTeam(*(const TPG::TPGTeam*)vertex);
         }
         else if (dynamic_cast<const TPG::TPGAction*>(vertex) != nullptr) {
-            generateAction(*(const TPG::TPGAction*)vertex);
+            const auto& action = *(const TPG::TPGAction*)vertex;
+            if (generatedActionIDs.insert(action.getActionID()).second) {
+                generateAction(action);
+            }
         }
     }
     setRoot(*tpg.getRootVertices().at(0));
@@ -205,9 +212,14 @@ void CodeGen::TPGStackGenerationEngine::initHeaderFile()
     fileMainH << "#include <stdlib.h>\n\n";
 
     fileMainH << "typedef enum Vertex {";
+    // several action vertices may share an action ID, and thus a name
+    std::set<std::string> printedNames;
     for (auto vertex : this->tpg.getVertices()) {
-        fileMainH << vertexName(*vertex) << "Vert"
-                  << ", ";
+        const std::string name = vertexName(*vertex);
+        if (printedNames.insert(name).second) {
+            fileMainH << name << "Vert"
+                      << ", ";
+        }
     }
 
     fileMainH << "} Vertex;\n\n"
-- 
2.43.0


From 98f0612bf3e4ecec4c018ee59d87e64c60036a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 05/39] fix: refuse reads through a null Array2DWrapper instead
 of crashing

---
 gegelatilib/include/data/array2DWrapper.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index 5139710..86666b7 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -285,6 +285,9 @@ namespace Data {
     UntypedSharedPtr Array2DWrapper<T>::getDataAt(const std::type_info& type,
                                                   const size_t address) const
     {
+        if (this->containerPtr == nullptr) {
+            throw std::runtime_error("Null pointer access.");
+        }
 #ifndef NDEBUG
         // Throw exception in case of invalid arguments.
         ArrayWrapper<T>::checkAddressAndType(type, address);
-- 
2.43.0


From 9b05bbd58a267bc945707ef94f31829c52e01c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 06/39] fix: invalidate the cached hash when a primitive array
 is assigned

---
 gegelatilib/include/data/primitiveTypeArray.h   | 3 +++
 gegelatilib/include/data/primitiveTypeArray2D.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gegelatilib/include/data/primitiveTypeArray.h b/gegelatilib/include/data/primitiveTypeArray.h
index 5fab7d4..bd001d4 100644
--- a/gegelatilib/include/data/primitiveTypeArray.h
+++ b/gegelatilib/include/data/primitiveTypeArray.h
@@ -228,6 +228,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash
+            this->invalidCachedHash = true;
         }
         return *this;
     }
diff --git a/gegelatilib/include/data/primitiveTypeArray2D.h b/gegelatilib/include/data/primitiveTypeArray2D.h
index d22f9d7..0e1b6a8 100644
--- a/gegelatilib/include/data/primitiveTypeArray2D.h
+++ b/gegelatilib/include/data/primitiveTypeArray2D.h
@@ -230,6 +230,9 @@ namespace Data {
             for (auto i = 0; i < this->nbElements; i++) {
                 this->data.at(i) = other.data.at(i);
             }
+
+            // Invalidate the cached hash
+            this->invalidCachedHash = true;
         }
         return *this;
     }
-- 
2.43.0


From 483d13df557821af1737aa80a250dc3f5978e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:57 +0000
Subject: [PATCH 07/39] fix: hash arrays so that elements 64 positions apart
 are not commutative

---
 gegelatilib/include/data/arrayWrapper.h   | 3 +++
 gegelatilib/include/data/pointerWrapper.h | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/gegelatilib/include/data/arrayWrapper.h b/gegelatilib/include/data/arrayWrapper.h
index ec26b4d..85aa41a 100644
--- a/gegelatilib/include/data/arrayWrapper.h
+++ b/gegelatilib/include/data/arrayWrapper.h
@@ -422,6 +422,9 @@ namespace Data {
             this->cachedHash =
                 (this->cachedHash >> 1) | (this->cachedHash << 63);
             this->cachedHash ^= hasher((T)dataElement);
+            // Multiply because otherwise, elements located 64 positions apart
+            // are rotated identically, and are still commutative.
+            this->cachedHash *= Data::_FNV_prime;
         }
 
         // Validate the cached hash value
diff --git a/gegelatilib/include/data/pointerWrapper.h b/gegelatilib/include/data/pointerWrapper.h
index 0fbf6aa..713dde4 100644
--- a/gegelatilib/include/data/pointerWrapper.h
+++ b/gegelatilib/include/data/pointerWrapper.h
@@ -159,6 +159,8 @@ namespace Data {
                 (this->cachedHash >> 1) | (this->cachedHash << 63);
 
             this->cachedHash ^= Data::Hash<T>()(*this->containerPtr);
+            // Same computation as in ArrayWrapper<T>::updateHash.
+            this->cachedHash *= Data::_FNV_prime;
             return this->cachedHash;
         }
         else {
-- 
2.43.0


From 1c88512175c85b76af7f8749b5efc41211bc5c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:36 +0000
Subject: [PATCH 08/39] fix: give moved-to and assigned-to graphs a factory

---
 gegelatilib/include/tpg/tpgGraph.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/tpg/tpgGraph.h b/gegelatilib/include/tpg/tpgGraph.h
index a1dfd1a..31e0bf0 100644
--- a/gegelatilib/include/tpg/tpgGraph.h
+++ b/gegelatilib/include/tpg/tpgGraph.h
@@ -73,7 +73,8 @@ namespace TPG {
          *
          * \param[in] model the TPGGraph to copy
          */
-        TPGGraph(TPGGraph&& model) noexcept : env{model.getEnvironment()}
+        TPGGraph(TPGGraph&& model) noexcept
+            : env{model.getEnvironment()}, factory{model.factory}
         {
             swap(*this, model);
         }
@@ -88,6 +89,7 @@ namespace TPG {
             using std::swap;
             swap(a.vertices, b.vertices);
             swap(a.edges, b.edges);
+            swap(a.factory, b.factory);
         }
 
         /**
@@ -306,7 +308,7 @@ namespace TPG {
         const Environment& env;
 
         /// TPGFactory of the TPGGraph
-        const std::unique_ptr<TPGFactory> factory;
+        std::shared_ptr<TPGFactory> factory;
 
         /**
          * \brief Set of TPGVertex composing the TPGGraph.
-- 
2.43.0


From 2d92e576d1c662ee30425e1609bcebcea812aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 09/39] fix: leave the graph unchanged when an edge cannot get
 an action as source

---
 gegelatilib/src/tpg/tpgGraph.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gegelatilib/src/tpg/tpgGraph.cpp b/gegelatilib/src/tpg/tpgGraph.cpp
index 75a6451..daac3b5 100644
--- a/gegelatilib/src/tpg/tpgGraph.cpp
+++ b/gegelatilib/src/tpg/tpgGraph.cpp
@@ -286,15 +286,17 @@ bool TPG::TPGGraph::setEdgeSource(const TPGEdge& edge, const TPGVertex& newSrc)
     auto iterNewSrc = findVertex(&newSrc);
     auto iterEdge = findEdge(&edge);
     if (iterNewSrc != this->vertices.end() && iterEdge != this->edges.end()) {
-        // Unregister the edge from the old source
         const TPG::TPGVertex* oldSrc = iterEdge->get()->getSource();
         auto iterOldSrc = findVertex(oldSrc);
         // finding the vertex should not fail. Otherwise, the exception for
         // next line would be well deserved since it means an edge in the
         // graph is connected to a vertex not in the graph.
-        (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
-        // Register the edge to the new source
-        (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
+        if (*iterNewSrc != *iterOldSrc) {
+            // Register the edge to the new source first, as this throws and
+            // must leave the graph unchanged if the new source is an action.
+            (*iterNewSrc)->addOutgoingEdge(iterEdge->get());
+            (*iterOldSrc)->removeOutgoingEdge(iterEdge->get());
+        }
         // Set the destination
         iterEdge->get()->setSource(*(iterNewSrc));
         return true;
-- 
2.43.0


From f0ae9a459bcd88ccab3420ff16f2defa40f6c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:47 +0000
Subject: [PATCH 10/39] fix: number data handlers atomically

---
 gegelatilib/include/data/dataHandler.h | 5 ++++-
 gegelatilib/src/data/dataHandler.cpp   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/data/dataHandler.h b/gegelatilib/include/data/dataHandler.h
index c7b84b1..09e33d9 100644
--- a/gegelatilib/include/data/dataHandler.h
+++ b/gegelatilib/include/data/dataHandler.h
@@ -38,6 +38,7 @@
 #ifndef DATA_HANDLER_H
 #define DATA_HANDLER_H
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <typeinfo>
@@ -56,8 +57,10 @@ namespace Data {
       protected:
         /**
          * \brief Static count used to initialize the id of each DataHandler.
+         *
+         * Atomic since DataHandler may be created by several threads.
          */
-        static size_t count;
+        static std::atomic<size_t> count;
 
         /**
          * \brief Identifier of each DataHandler.
diff --git a/gegelatilib/src/data/dataHandler.cpp b/gegelatilib/src/data/dataHandler.cpp
index e03af5c..fedb081 100644
--- a/gegelatilib/src/data/dataHandler.cpp
+++ b/gegelatilib/src/data/dataHandler.cpp
@@ -39,7 +39,7 @@
 
 #include "data/dataHandler.h"
 
-size_t Data::DataHandler::count = 0;
+std::atomic<size_t> Data::DataHandler::count(0);
 
 Data::DataHandler::DataHandler()
     : id{count++}, cachedHash(), invalidCachedHash(true){};
-- 
2.43.0


From 7d9b096be79df049053a4e60a3cb4b37835e81a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:47 +0000
Subject: [PATCH 11/39] fix: read the job queue of the parallel agent under its
 mutex only

---
 gegelatilib/src/learn/parallelLearningAgent.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index 95a0013..ec6871b 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -110,13 +110,15 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
     int i = 0;
     // Pop a job
-    while (!jobsToProcess.empty()) { // Thread safe access to size
+    bool jobsLeft = true;
+    while (jobsLeft) {
         i++;
         bool doProcess = false;
         std::shared_ptr<Learn::Job> jobToProcess;
         { // Mutuel exclusion zone
             std::lock_guard<std::mutex> lock(rootsToProcessMutex);
-            if (!jobsToProcess.empty()) { // Additional verification after lock
+            jobsLeft = !jobsToProcess.empty();
+            if (jobsLeft) {
                 jobToProcess = jobsToProcess.front();
                 jobsToProcess.pop();
                 doProcess = true;
-- 
2.43.0


From 4a3f4a31daa967541c03ff156d5d7e78a1e37831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:23 +0000
Subject: [PATCH 12/39] fix: clone learning environments before the main thread
 uses the original

---
 .../include/learn/parallelLearningAgent.h     |  7 +++--
 .../src/learn/parallelLearningAgent.cpp       | 28 +++++++++----------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/gegelatilib/include/learn/parallelLearningAgent.h b/gegelatilib/include/learn/parallelLearningAgent.h
index 67d5c04..44d84f2 100644
--- a/gegelatilib/include/learn/parallelLearningAgent.h
+++ b/gegelatilib/include/learn/parallelLearningAgent.h
@@ -143,8 +143,8 @@ namespace Learn {
          * Mutex protecting the results. \param[in,out] archiveMap Map
          * storing the exhaustiveArchive to be merged. \param[in]
          * archiveMapMutex Mutex protecting the archiveMap.
-         * \param[in] useMainEnvironment Boolean that is true if we use the
-         * declared LearningEnvironment, otherwise the method will clone it.
+         * \param[in] privateLearningEnvironment the LearningEnvironment used
+         * by this thread only: either the main one, or a clone of it.
          */
         void slaveEvalJobThread(
             uint64_t generationNumber, LearningMode mode,
@@ -155,7 +155,8 @@ namespace Learn {
                 resultsPerRootMap,
             std::mutex& resultsPerRootMapMutex,
             std::map<uint64_t, Archive*>& archiveMap,
-            std::mutex& archiveMapMutex, bool useMainEnvironment);
+            std::mutex& archiveMapMutex,
+            LearningEnvironment& privateLearningEnvironment);
 
         /**
          * \brief Method to merge several Archive created in parallel
diff --git a/gegelatilib/src/learn/parallelLearningAgent.cpp b/gegelatilib/src/learn/parallelLearningAgent.cpp
index ec6871b..2174616 100644
--- a/gegelatilib/src/learn/parallelLearningAgent.cpp
+++ b/gegelatilib/src/learn/parallelLearningAgent.cpp
@@ -92,17 +92,12 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
                                  std::shared_ptr<Job>>>& resultsPerRootMap,
     std::mutex& resultsPerRootMapMutex,
     std::map<uint64_t, Archive*>& archiveMap, std::mutex& archiveMapMutex,
-    bool useMainEnvironment)
+    LearningEnvironment& privateLearningEnvironment)
 {
 
-    // Clone learningEnvironment
-    LearningEnvironment* privateLearningEnvironment =
-        useMainEnvironment ? &this->learningEnvironment
-                           : this->learningEnvironment.clone();
-
     // Create a TPGExecutionEngine
     Environment privateEnv(this->env.getInstructionSet(),
-                           privateLearningEnvironment->getDataSources(),
+                           privateLearningEnvironment.getDataSources(),
                            this->env.getNbRegisters(),
                            this->env.getNbConstant());
     std::unique_ptr<TPG::TPGExecutionEngine> tee =
@@ -139,7 +134,7 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
 
             std::shared_ptr<EvaluationResult> avgScore =
                 this->evaluateJob(*tee, *jobToProcess, generationNumber, mode,
-                                  *privateLearningEnvironment);
+                                  privateLearningEnvironment);
 
             { // Store result Mutual exclusion zone
                 std::lock_guard<std::mutex> lock(resultsPerRootMapMutex);
@@ -157,11 +152,6 @@ void Learn::ParallelLearningAgent::slaveEvalJobThread(
             }
         }
     }
-
-    // Clean up
-    if (!useMainEnvironment) {
-        delete privateLearningEnvironment;
-    }
 }
 
 void Learn::ParallelLearningAgent::mergeArchiveMap(
@@ -248,6 +238,13 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
     std::mutex resultsPerRootMutex;
     std::mutex archiveMapMutex;
 
+    // Clone the learningEnvironment for each thread, before starting any of
+    // them since the main environment is used by the main thread.
+    std::vector<std::unique_ptr<LearningEnvironment>> privateEnvironments;
+    for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
+        privateEnvironments.emplace_back(this->learningEnvironment.clone());
+    }
+
     // Create the threads
     std::vector<std::thread> threads;
     for (auto i = 0; i < (this->maxNbThreads - 1); i++) {
@@ -255,14 +252,15 @@ void Learn::ParallelLearningAgent::evaluateAllRootsInParallelExecute(
             &ParallelLearningAgent::slaveEvalJobThread, this, generationNumber,
             mode, std::ref(jobsToProcess), std::ref(rootsToProcessMutex),
             std::ref(resultsPerJobMap), std::ref(resultsPerRootMutex),
-            std::ref(archiveMap), std::ref(archiveMapMutex), false));
+            std::ref(archiveMap), std::ref(archiveMapMutex),
+            std::ref(*privateEnvironments.at(i))));
     }
 
     // Work in the main thread also, using the main environment
     this->slaveEvalJobThread(generationNumber, mode, jobsToProcess,
                              rootsToProcessMutex, resultsPerJobMap,
                              resultsPerRootMutex, archiveMap, archiveMapMutex,
-                             true);
+                             this->learningEnvironment);
 
     // Join the threads
     for (auto& thread : threads) {
-- 
2.43.0


From ac99139220004c3cedbc058c7acc198bc8e26c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 13/39] fix: do not share the address space cache of a data
 source between threads

---
 gegelatilib/include/data/array2DWrapper.h | 90 +++++++++--------------
 gegelatilib/include/data/arrayWrapper.h   | 57 ++++++--------
 2 files changed, 59 insertions(+), 88 deletions(-)

diff --git a/gegelatilib/include/data/array2DWrapper.h b/gegelatilib/include/data/array2DWrapper.h
index 86666b7..c422786 100644
--- a/gegelatilib/include/data/array2DWrapper.h
+++ b/gegelatilib/include/data/array2DWrapper.h
@@ -66,25 +66,6 @@ namespace Data {
      */
     template <class T> class Array2DWrapper : public ArrayWrapper<T>
     {
-      private:
-        /**
-         * \brief Caching mechanism for storing addressSpace for different
-         * types.
-         *
-         * This map stores for each data type the size of the addressSpace for
-         * the Array2DWrapper. The purpose of this cache is to accelerate
-         * the numerous access to the addressSpace for different data types, by
-         * performing it only once per data type requested by the Instructions,
-         * through the ProgramExecutionEngine.
-         *
-         * This map is updated and used by the getAddressSpace method.
-         *
-         * Like the getAddressSpace method of the 2D array, this map stores all
-         * type dimensions.
-         */
-        mutable std::map<std::type_index, std::tuple<size_t, size_t, size_t>>
-            cachedAddressSpace;
-
       protected:
         /// Number of columns of the 2D array.
         size_t width;
@@ -217,37 +198,34 @@ namespace Data {
     size_t Array2DWrapper<T>::getAddressSpace(const std::type_info& type,
                                               size_t* dim1, size_t* dim2) const
     {
-        // Has the result been cached
-        auto iter = this->cachedAddressSpace.find(type);
-        if (iter != this->cachedAddressSpace.end()) {
+        // The parent function is not used to avoid performing 2 regex matches.
+        if (type == typeid(T)) {
             if (dim1 != nullptr) {
-                *dim1 = std::get<1>(iter->second);
+                *dim1 = 0;
             }
             if (dim2 != nullptr) {
-                *dim2 = std::get<2>(iter->second);
+                *dim2 = 0;
             }
-            return std::get<0>(iter->second);
-        }
-
-        size_t result = 0;
-        // The parent function is not used to avoid performing 2 regex matches.
-        if (type == typeid(T)) {
-            this->cachedAddressSpace.emplace(
-                type, std::make_tuple(this->nbElements, 0, 0));
-            result = this->nbElements;
+            return this->nbElements;
         }
 
-        // Check if it is a 1D or 2D array
-        // with a size (h and w) inferior to the container dimensions.
-        if (result == 0) {
+        // Dimensions (h and w) of each array type already encountered, or 0 if
+        // the type is not an array of the primitive type.
+        // This cache is used to accelerate the numerous accesses to the
+        // addressSpace for different data types. It is local to the thread
+        // since a DataHandler may be accessed by several threads.
+        static thread_local std::map<std::type_index, std::pair<size_t, size_t>>
+            cachedDimensions;
+        auto iter = cachedDimensions.find(type);
+        if (iter == cachedDimensions.end()) {
+            size_t typeH = 0;
+            size_t typeW = 0;
             std::string typeName = DEMANGLE_TYPEID_NAME(type.name());
             std::string regex{DEMANGLE_TYPEID_NAME(typeid(T).name())};
             regex.append("\\s*(const\\s*)?\\[([0-9]+)\\](\\[([0-9]+)\\])?");
             std::regex arrayType(regex);
             std::cmatch cm;
             if (std::regex_match(typeName.c_str(), cm, arrayType)) {
-                int typeH = 0;
-                int typeW = 0;
                 if (cm[2].matched && !cm[4].matched) {
                     // 1D array
                     typeH = 1;
@@ -258,23 +236,27 @@ namespace Data {
                     typeH = std::atoi(cm[2].str().c_str());
                     typeW = std::atoi(cm[4].str().c_str());
                 }
+            }
+            iter = cachedDimensions.emplace(type, std::make_pair(typeH, typeW))
+                       .first;
+        }
 
-                // Make sure dimensions are valid for this array
-                // Only spatially coherent data can be provided.
-                // Data spanning over several lines can not be
-                // provided
-                if (typeH <= this->height && typeW <= this->width) {
-                    result = (this->height - typeH + 1) *
-                             ((this->width - typeW + 1));
-                    if (dim1 != nullptr) {
-                        *dim1 = typeH;
-                    }
-                    if (dim2 != nullptr) {
-                        *dim2 = typeW;
-                    }
-                    this->cachedAddressSpace.emplace(
-                        type, std::make_tuple(result, typeH, typeW));
-                }
+        // Check if it is a 1D or 2D array
+        // with a size (h and w) inferior to the container dimensions.
+        // Only spatially coherent data can be provided.
+        // Data spanning over several lines can not be provided
+        size_t result = 0;
+        const size_t typeH = iter->second.first;
+        const size_t typeW = iter->second.second;
+        if (typeH > 0 && typeW > 0 && typeH <= this->height &&
+            typeW <= this->width) {
+            result =
+                (this->height - typeH + 1) * ((this->width - typeW + 1));
+            if (dim1 != nullptr) {
+                *dim1 = typeH;
+            }
+            if (dim2 != nullptr) {
+                *dim2 = typeW;
             }
         }
 
diff --git a/gegelatilib/include/data/arrayWrapper.h b/gegelatilib/include/data/arrayWrapper.h
index 85aa41a..b877f1a 100644
--- a/gegelatilib/include/data/arrayWrapper.h
+++ b/gegelatilib/include/data/arrayWrapper.h
@@ -72,21 +72,6 @@ namespace Data {
                       "Template class PrimitiveTypeArray<T> can only be used "
                       "for primitive types.");
 
-      private:
-        /**
-         * \brief Caching mechanism for storing addressSpace for different
-         * types.
-         *
-         * This map stores for each data type the size of the addressSpace for
-         * the PrimitiveTypeArray. The purpose of this cache is to accelerate
-         * the numerous access to the addressSpace for different data types, by
-         * performing it only once per data type requested by the Instructions,
-         * through the ProgramExecutionEngine.
-         *
-         * This map is updated and used by the getAddressSpace method.
-         */
-        mutable std::map<std::type_index, size_t> cachedAddressSpace;
-
       protected:
         /**
          * \brief Number of elements contained pointer vector.
@@ -273,31 +258,35 @@ namespace Data {
     template <class T>
     size_t ArrayWrapper<T>::getAddressSpace(const std::type_info& type) const
     {
-        // Has the addresSpaceSize been cached
-        auto iter = this->cachedAddressSpace.find(type);
-        if (iter != this->cachedAddressSpace.end()) {
-            return iter->second;
-        }
-
         if (type == typeid(T)) {
-            this->cachedAddressSpace.emplace(type, this->nbElements);
             return this->nbElements;
         }
 
+        // Number of elements of each array type already encountered, or 0 if
+        // the type is not an array of the primitive type.
+        // This cache is used to accelerate the numerous accesses to the
+        // addressSpace for different data types. It is local to the thread
+        // since a DataHandler may be accessed by several threads.
+        static thread_local std::map<std::type_index, size_t> cachedArraySize;
+        auto iter = cachedArraySize.find(type);
+        if (iter == cachedArraySize.end()) {
+            size_t arraySize = 0;
+            std::string typeName = DEMANGLE_TYPEID_NAME(type.name());
+            std::string regex{DEMANGLE_TYPEID_NAME(typeid(T).name())};
+            regex.append("\\s*(const\\s*)?\\[([0-9]+)\\]");
+            std::regex arrayType(regex);
+            std::cmatch cm;
+            if (std::regex_match(typeName.c_str(), cm, arrayType)) {
+                arraySize = std::atoi(cm[2].str().c_str());
+            }
+            iter = cachedArraySize.emplace(type, arraySize).first;
+        }
+
         // If the type is an array of the primitive type
         // with a size inferior to the container.
-        std::string typeName = DEMANGLE_TYPEID_NAME(type.name());
-        std::string regex{DEMANGLE_TYPEID_NAME(typeid(T).name())};
-        regex.append("\\s*(const\\s*)?\\[([0-9]+)\\]");
-        std::regex arrayType(regex);
-        std::cmatch cm;
-        if (std::regex_match(typeName.c_str(), cm, arrayType)) {
-            int size = std::atoi(cm[2].str().c_str());
-            if (size <= this->nbElements) {
-                size_t result = this->nbElements - size + 1;
-                this->cachedAddressSpace.emplace(type, result);
-                return result;
-            }
+        const size_t size = iter->second;
+        if (size > 0 && size <= this->nbElements) {
+            return this->nbElements - size + 1;
         }
         // Default case
         return 0;
-- 
2.43.0


From f660ecf0932b7d4fd32ba4c6f0f97f941ffde8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:55 +0000
Subject: [PATCH 14/39] fix: forget the results and champions of a previous
 training in init

---
 gegelatilib/include/learn/adversarialLearningAgent.h | 6 ++++++
 gegelatilib/include/learn/learningAgent.h            | 2 +-
 gegelatilib/src/learn/adversarialLearningAgent.cpp   | 6 ++++++
 gegelatilib/src/learn/learningAgent.cpp              | 4 ++--
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/gegelatilib/include/learn/adversarialLearningAgent.h b/gegelatilib/include/learn/adversarialLearningAgent.h
index 0af9f3a..907878a 100644
--- a/gegelatilib/include/learn/adversarialLearningAgent.h
+++ b/gegelatilib/include/learn/adversarialLearningAgent.h
@@ -199,6 +199,12 @@ namespace Learn {
             uint64_t generationNumber, LearningMode mode,
             LearningEnvironment& le) const override;
 
+        /**
+         * \brief Specialization of the LearningAgent::forgetPreviousResults
+         * method, also forgetting the champions.
+         */
+        void forgetPreviousResults() override;
+
         /**
          * \brief Puts all roots into AdversarialJob to be able to use them in
          * simulation later. The difference with the base learning agent
diff --git a/gegelatilib/include/learn/learningAgent.h b/gegelatilib/include/learn/learningAgent.h
index 6fcadab..072fb7d 100644
--- a/gegelatilib/include/learn/learningAgent.h
+++ b/gegelatilib/include/learn/learningAgent.h
@@ -352,7 +352,7 @@ namespace Learn {
          * been tested. To use for example when there is a scoring policy
          * change.
          */
-        void forgetPreviousResults();
+        virtual void forgetPreviousResults();
 
         /**
          * \brief This method update the best score reached at the last
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 66c5103..aea99c9 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -177,6 +177,12 @@ std::shared_ptr<Learn::EvaluationResult> Learn::AdversarialLearningAgent::
     return results;
 }
 
+void Learn::AdversarialLearningAgent::forgetPreviousResults()
+{
+    ParallelLearningAgent::forgetPreviousResults();
+    champions.clear();
+}
+
 std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
     makeJobs(Learn::LearningMode mode, TPG::TPGGraph* tpgGraph)
 {
diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 2c74dea..1093d31 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -78,8 +78,8 @@ void Learn::LearningAgent::init(uint64_t seed)
     // Clear the archive
     this->archive.clear();
 
-    // Clear the best root
-    this->bestRoot = {nullptr, nullptr};
+    // Clear the best root and the results of any previous training
+    this->forgetPreviousResults();
 }
 
 void Learn::LearningAgent::addLogger(Log::LALogger& logger)
-- 
2.43.0


From da390db52077cdcb8b9048fbccf575d863060938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:55 +0000
Subject: [PATCH 15/39] fix: forget previous results when all vertices of the
 graph are replaced

---
 gegelatilib/src/learn/learningAgent.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 1093d31..da9d7db 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -36,6 +36,7 @@
  * knowledge of the CeCILL-C license and that you accept its terms.
  */
 
+#include <algorithm>
 #include <inttypes.h>
 #include <queue>
 
@@ -229,6 +230,17 @@ void Learn::LearningAgent::trainOneGeneration(uint64_t generationNumber)
         logger.get().logNewGeneration(generationNumber);
     }
 
+    // Without any root team left, populating the graph starts by replacing all
+    // its vertices, results of the removed ones must be forgotten.
+    auto roots = this->tpg->getRootVertices();
+    if (std::none_of(roots.begin(), roots.end(),
+                     [](const TPG::TPGVertex* root) {
+                         return dynamic_cast<const TPG::TPGTeam*>(root) !=
+                                nullptr;
+                     })) {
+        this->forgetPreviousResults();
+    }
+
     // Populate Sequentially
     Mutator::TPGMutator::populateTPG(*this->tpg, this->archive,
                                      this->params.mutation, this->rng,
-- 
2.43.0


From 7b0a14af1334e9ede76d864f4ee57ba4d623c6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 16/39] fix: forget the records of all removed roots, champions
 included

---
 .../include/learn/adversarialLearningAgent.h  |  6 +++++
 .../learn/classificationLearningAgent.h       |  9 ++------
 gegelatilib/include/learn/learningAgent.h     |  8 +++++++
 .../src/learn/adversarialLearningAgent.cpp    |  8 +++++++
 gegelatilib/src/learn/learningAgent.cpp       | 23 +++++++++++++------
 5 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/gegelatilib/include/learn/adversarialLearningAgent.h b/gegelatilib/include/learn/adversarialLearningAgent.h
index 907878a..778e7f8 100644
--- a/gegelatilib/include/learn/adversarialLearningAgent.h
+++ b/gegelatilib/include/learn/adversarialLearningAgent.h
@@ -87,6 +87,12 @@ namespace Learn {
          */
         size_t agentsPerEvaluation;
 
+        /**
+         * \brief Specialization of the LearningAgent::removeRoot method, also
+         * removing the root from the champions.
+         */
+        void removeRoot(const TPG::TPGVertex& root) override;
+
         /**
          * \brief Subfunction of evaluateAllRootsInParallel which handles the
          * gathering of results and the merge of the archives, adapted to
diff --git a/gegelatilib/include/learn/classificationLearningAgent.h b/gegelatilib/include/learn/classificationLearningAgent.h
index 978d11b..ffddab5 100644
--- a/gegelatilib/include/learn/classificationLearningAgent.h
+++ b/gegelatilib/include/learn/classificationLearningAgent.h
@@ -327,20 +327,15 @@ namespace Learn {
         // Because of potential root actions, the preserved number of roots
         // may be higher than the given ratio.
         auto allRoots = this->tpg->getRootVertices();
-        auto& tpgRef = this->tpg;
-        auto& resultsPerRootRef = this->resultsPerRoot;
         std::for_each(
             allRoots.begin(), allRoots.end(),
-            [&rootsToKeep, &tpgRef, &resultsPerRootRef,
-             &results](const TPG::TPGVertex* vert) {
+            [this, &rootsToKeep, &results](const TPG::TPGVertex* vert) {
                 // Do not remove actions
                 if (dynamic_cast<const TPG::TPGAction*>(vert) == nullptr &&
                     std::find(rootsToKeep.begin(), rootsToKeep.end(), vert) ==
                         rootsToKeep.end()) {
-                    tpgRef->removeVertex(*vert);
-
                     // Keep only results of non-decimated roots.
-                    resultsPerRootRef.erase(vert);
+                    this->removeRoot(*vert);
 
                     // Update results also
                     std::multimap<std::shared_ptr<EvaluationResult>,
diff --git a/gegelatilib/include/learn/learningAgent.h b/gegelatilib/include/learn/learningAgent.h
index 072fb7d..25d572e 100644
--- a/gegelatilib/include/learn/learningAgent.h
+++ b/gegelatilib/include/learn/learningAgent.h
@@ -99,6 +99,14 @@ namespace Learn {
         std::map<const TPG::TPGVertex*, std::shared_ptr<EvaluationResult>>
             resultsPerRoot;
 
+        /**
+         * \brief Remove a root from the TPGGraph and from all the records of
+         * the LearningAgent.
+         *
+         * \param[in] root the TPGVertex to remove.
+         */
+        virtual void removeRoot(const TPG::TPGVertex& root);
+
         /// Random Number Generator for this Learning Agent
         Mutator::RNG rng;
 
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index aea99c9..34d5dc5 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -34,6 +34,7 @@
  * knowledge of the CeCILL-C license and that you accept its terms.
  */
 
+#include <algorithm>
 #include <fstream>
 #include <memory>
 
@@ -177,6 +178,13 @@ std::shared_ptr<Learn::EvaluationResult> Learn::AdversarialLearningAgent::
     return results;
 }
 
+void Learn::AdversarialLearningAgent::removeRoot(const TPG::TPGVertex& root)
+{
+    champions.erase(std::remove(champions.begin(), champions.end(), &root),
+                    champions.end());
+    ParallelLearningAgent::removeRoot(root);
+}
+
 void Learn::AdversarialLearningAgent::forgetPreviousResults()
 {
     ParallelLearningAgent::forgetPreviousResults();
diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index da9d7db..94383a3 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -282,6 +282,12 @@ void Learn::LearningAgent::trainOneGeneration(uint64_t generationNumber)
     }
 }
 
+void Learn::LearningAgent::removeRoot(const TPG::TPGVertex& root)
+{
+    this->resultsPerRoot.erase(&root);
+    this->tpg->removeVertex(root);
+}
+
 void Learn::LearningAgent::decimateWorstRoots(
     std::multimap<std::shared_ptr<EvaluationResult>, const TPG::TPGVertex*>&
         results)
@@ -299,9 +305,8 @@ void Learn::LearningAgent::decimateWorstRoots(
         // If the root is an action, do not remove it!
         const TPG::TPGVertex* root = results.begin()->second;
         if (dynamic_cast<const TPG::TPGAction*>(root) == nullptr) {
-            tpg->removeVertex(*results.begin()->second);
-            // Removed stored result (if any)
-            this->resultsPerRoot.erase(results.begin()->second);
+            // Also removes the stored result (if any)
+            this->removeRoot(*root);
         }
         else {
             preservedActionRoots.insert(*results.begin());
@@ -430,18 +435,22 @@ double Learn::LearningAgent::getBestScoreLastGen() const
 void Learn::LearningAgent::keepBestPolicy()
 {
     // Evaluate all roots
-    if (this->tpg->hasVertex(*this->bestRoot.first)) {
+    if (this->bestRoot.first != nullptr &&
+        this->tpg->hasVertex(*this->bestRoot.first)) {
         auto bestRootVertex = this->bestRoot.first;
 
         // Remove all but the best root from the tpg
-        while (this->tpg->getNbRootVertices() != 1) {
+        bool removed;
+        do {
+            removed = false;
             auto roots = this->tpg->getRootVertices();
             for (auto root : roots) {
                 if (root != bestRootVertex) {
-                    tpg->removeVertex(*root);
+                    this->removeRoot(*root);
+                    removed = true;
                 }
             }
-        }
+        } while (removed);
     }
 }
 
-- 
2.43.0


From a94e194e7d01482c9b9de3382bdcfee4499add79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:14 +0000
Subject: [PATCH 17/39] fix: identify archived programs by an identifier
 instead of an address

---
 gegelatilib/include/archive.h         | 10 +++++---
 gegelatilib/include/program/program.h | 36 +++++++++++++++++++++------
 gegelatilib/src/archive.cpp           |  9 ++++---
 gegelatilib/src/program/program.cpp   |  7 ++++++
 4 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/gegelatilib/include/archive.h b/gegelatilib/include/archive.h
index 123bc01..4555841 100644
--- a/gegelatilib/include/archive.h
+++ b/gegelatilib/include/archive.h
@@ -65,6 +65,9 @@ typedef struct ArchiveRecording
     /// Value returned by the Program for the DataHandler with the specified
     /// hash.
     const double result;
+
+    /// Identifier of the Program, still valid when the program is freed.
+    const uint64_t progId;
 } ArchiveRecording;
 
 /**
@@ -108,8 +111,8 @@ class Archive
         dataHandlers;
 
     /**
-     * \brief Map storing the Program pointers referenced in recordings the
-     * associated recording.
+     * \brief Map storing for each Program identifier referenced in recordings
+     * the associated recordings.
      *
      * The Map is filled in the addRecording method, and elements are removed
      * whenever the las ArchiveRecording referencing a Program is removed from
@@ -117,8 +120,7 @@ class Archive
      *
      * The Map is used to speed the unicity tests.
      */
-    std::map<const Program::Program*, std::deque<ArchiveRecording>>
-        recordingsPerProgram;
+    std::map<uint64_t, std::deque<ArchiveRecording>> recordingsPerProgram;
 
     /// Recordings of the Archive
     std::deque<ArchiveRecording> recordings;
diff --git a/gegelatilib/include/program/program.h b/gegelatilib/include/program/program.h
index ae4b77c..cbf0ffb 100644
--- a/gegelatilib/include/program/program.h
+++ b/gegelatilib/include/program/program.h
@@ -38,6 +38,7 @@
 #define PROGRAM_H
 
 #include <algorithm>
+#include <atomic>
 #include <vector>
 
 #include "data/constantHandler.h"
@@ -51,7 +52,19 @@ namespace Program {
      */
     class Program
     {
+      private:
+        /// Count used to initialize the id of each Program.
+        static std::atomic<uint64_t> count;
+
       protected:
+        /**
+         * \brief Unique identifier of the Program.
+         *
+         * Contrary to its address, the identifier of a Program is never given
+         * to another Program after its destruction.
+         */
+        const uint64_t id;
+
         /// Environment within which the Program will be executed.
         const Environment& environment;
 
@@ -87,7 +100,7 @@ namespace Program {
          * in the Program attributes.
          */
         Program(const Environment& e)
-            : environment{e}, constants{e.getNbConstant()}
+            : id{count++}, environment{e}, constants{e.getNbConstant()}
         {
             constants.resetData(); // force all constant to 0 at first.
         };
@@ -101,17 +114,17 @@ namespace Program {
          * \param[in] other a const reference the the copied Program.
          */
         Program(const Program& other)
-            : environment{other.environment}, lines{other.lines},
+            : id{count++}, environment{other.environment}, lines{other.lines},
               constants{other.constants}
         {
             // Replace lines with their copy
             // Keep intro info
-            std::transform(
-                lines.begin(), lines.end(), lines.begin(),
-                [](std::pair<Line*, bool>& otherLine)
-                    -> std::pair<Line*, bool> {
-                    return {new Line(*(otherLine.first)), otherLine.second};
-                });
+            std::transform(lines.begin(), lines.end(), lines.begin(),
+                           [](std::pair<Line*, bool>& otherLine)
+                               -> std::pair<Line*, bool> {
+                               return {new Line(*(otherLine.first)),
+                                       otherLine.second};
+                           });
         };
 
         /**
@@ -130,6 +143,13 @@ namespace Program {
          */
         ~Program();
 
+        /**
+         * \brief Get the identifier of the Program.
+         *
+         * \return the value of the id attribute.
+         */
+        uint64_t getId() const;
+
         /**
          * \brief Add a new line to the Program with only 0 bits.
          *
diff --git a/gegelatilib/src/archive.cpp b/gegelatilib/src/archive.cpp
index 03448ee..1af7bb2 100644
--- a/gegelatilib/src/archive.cpp
+++ b/gegelatilib/src/archive.cpp
@@ -96,16 +96,17 @@ void Archive::addRecording(
         }
 
         // Create and stores the recording
-        ArchiveRecording recording{program, hash, result};
+        ArchiveRecording recording{program, hash, result, program->getId()};
         this->recordings.push_back(recording);
 
         // Update the recordings per Program
-        auto iterNbRecordings = this->recordingsPerProgram.find(program);
+        auto iterNbRecordings =
+            this->recordingsPerProgram.find(recording.progId);
         if (iterNbRecordings != this->recordingsPerProgram.end()) {
             iterNbRecordings->second.push_back(recording);
         }
         else {
-            this->recordingsPerProgram.insert({program, {recording}});
+            this->recordingsPerProgram.insert({recording.progId, {recording}});
         }
 
         // Check if Archive max size was reached (or exceeded)
@@ -138,7 +139,7 @@ void Archive::addRecording(
 
             // Update the recordingsPerProgram of the corresponding Program,
             // and remove it if it was the last.
-            auto iter = this->recordingsPerProgram.find(rec.prog);
+            auto iter = this->recordingsPerProgram.find(rec.progId);
             iter->second.pop_front();
             if (iter->second.size() == 0) {
                 this->recordingsPerProgram.erase(iter);
diff --git a/gegelatilib/src/program/program.cpp b/gegelatilib/src/program/program.cpp
index 0a0192e..492b7c0 100644
--- a/gegelatilib/src/program/program.cpp
+++ b/gegelatilib/src/program/program.cpp
@@ -44,6 +44,8 @@
 
 #include "program/program.h"
 
+std::atomic<uint64_t> Program::Program::count(0);
+
 Program::Program::~Program()
 {
     while (!lines.empty()) {
@@ -53,6 +55,11 @@ Program::Program::~Program()
     }
 }
 
+uint64_t Program::Program::getId() const
+{
+    return this->id;
+}
+
 Program::Line& Program::Program::addNewLine()
 {
     return this->addNewLine(this->getNbLines());
-- 
2.43.0


From 6a50d4e959187889f93be1f349465e966c4d1c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 18/39] fix: keep validation from using the generator and
 replacing the champions

---
 gegelatilib/src/learn/adversarialLearningAgent.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 34d5dc5..5124358 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -51,7 +51,12 @@ Learn::AdversarialLearningAgent::evaluateAllRoots(uint64_t generationNumber,
     }
     std::multimap<std::shared_ptr<EvaluationResult>, const TPG::TPGVertex*>
         results;
+    // Only a training evaluation designates new champions
+    auto previousChampions = champions;
     evaluateAllRootsInParallel(generationNumber, mode, results);
+    if (mode != LearningMode::TRAINING) {
+        champions = previousChampions;
+    }
     return results;
 }
 
@@ -247,7 +252,11 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
         for (auto& team : championsTeams) {
             // puts the root at each possible location in the team
             for (int16_t i = 0; i < agentsPerEvaluation; i++) {
-                archiveSeed = this->rng.getUnsignedInt64(0, UINT64_MAX);
+                // Archiving is only active in TRAINING mode
+                archiveSeed = 0;
+                if (mode == LearningMode::TRAINING) {
+                    archiveSeed = this->rng.getUnsignedInt64(0, UINT64_MAX);
+                }
                 auto job = std::make_shared<Learn::AdversarialJob>(
                     Learn::AdversarialJob({}, archiveSeed, index++, i));
 
-- 
2.43.0


From a553817d8749bfc019bcbbc96f02ff8c1b877c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:33 +0000
Subject: [PATCH 19/39] fix: do not read past the roots when choosing the first
 champions

---
 gegelatilib/src/learn/adversarialLearningAgent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 5124358..00de40d 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -211,6 +211,7 @@ std::queue<std::shared_ptr<Learn::Job>> Learn::AdversarialLearningAgent::
     // if champions is empty fills it with the first roots come
     if (champions.size() == 0) {
         for (int i = 0;
+             i < roots.size() &&
              i <= (double)roots.size() * (1.0 - params.ratioDeletedRoots);
              i++) {
             champions.emplace_back(roots[i]);
-- 
2.43.0


From 2193a5947064ebcb73a2e541c51f4fb32abc0f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 20/39] fix: update the records when no evaluated root is left

---
 gegelatilib/src/learn/learningAgent.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/learn/learningAgent.cpp b/gegelatilib/src/learn/learningAgent.cpp
index 94383a3..2d4981a 100644
--- a/gegelatilib/src/learn/learningAgent.cpp
+++ b/gegelatilib/src/learn/learningAgent.cpp
@@ -393,7 +393,14 @@ void Learn::LearningAgent::updateEvaluationRecords(
         }
     }
 
-    { // Update bestRoot
+    if (results.empty()) {
+        // No evaluated root is left to replace the bestRoot
+        if (this->bestRoot.first != nullptr &&
+            !this->tpg->hasVertex(*this->bestRoot.first)) {
+            this->bestRoot = {nullptr, nullptr};
+        }
+    }
+    else { // Update bestRoot
         auto iterator = --results.end();
         const std::shared_ptr<EvaluationResult> evaluation = iterator->first;
         const TPG::TPGVertex* candidate = iterator->second;
-- 
2.43.0


From 260332b0880c65ead819e26f534d967521c143fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:39 +0000
Subject: [PATCH 21/39] fix: keep the scores finite when a class was never
 evaluated

---
 gegelatilib/src/learn/classificationEvaluationResult.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gegelatilib/src/learn/classificationEvaluationResult.cpp b/gegelatilib/src/learn/classificationEvaluationResult.cpp
index 6228d59..e05a0f2 100644
--- a/gegelatilib/src/learn/classificationEvaluationResult.cpp
+++ b/gegelatilib/src/learn/classificationEvaluationResult.cpp
@@ -65,6 +65,12 @@ Learn::EvaluationResult& Learn::ClassificationEvaluationResult::operator+=(
         }
 
         for (auto idx = 0; idx < this->scorePerClass.size(); idx++) {
+            // A class never seen so far has no score to average.
+            if (this->nbEvaluationPerClass.at(idx) == 0 &&
+                otherEval.nbEvaluationPerClass.at(idx) == 0) {
+                continue;
+            }
+
             // Weighted sum of scores.
             this->scorePerClass.at(idx) =
                 this->scorePerClass.at(idx) *
-- 
2.43.0


From 59832488094f0e056668703f47c1d54c0f1a165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 22/39] fix: export the destination of edges sharing a program
 but not its destination

---
 gegelatilib/include/file/tpgGraphDotExporter.h |  9 +++++++++
 gegelatilib/src/file/tpgGraphDotExporter.cpp   | 10 +++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/include/file/tpgGraphDotExporter.h b/gegelatilib/include/file/tpgGraphDotExporter.h
index 1c1d61c..7d643f9 100644
--- a/gegelatilib/include/file/tpgGraphDotExporter.h
+++ b/gegelatilib/include/file/tpgGraphDotExporter.h
@@ -70,6 +70,15 @@ namespace File {
          */
         std::string offset;
 
+        /**
+         * \brief Destination of the first exported TPGEdge of each Program.
+         *
+         * The other TPGEdge using the same Program are exported without their
+         * destination when it is this one.
+         */
+        std::map<const Program::Program*, const TPG::TPGVertex*>
+            programDestination;
+
         /**
          * \brief Print the dot content for the given TPGTeam.
          *
diff --git a/gegelatilib/src/file/tpgGraphDotExporter.cpp b/gegelatilib/src/file/tpgGraphDotExporter.cpp
index 5018c95..949ea07 100644
--- a/gegelatilib/src/file/tpgGraphDotExporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotExporter.cpp
@@ -85,7 +85,13 @@ void File::TPGGraphDotExporter::printTPGEdge(const TPG::TPGEdge& edge)
         printProgram(p);
         fprintf(pFile, "%sP%" PRIu64 " -> I%" PRIu64 "[style=invis]\n",
                 this->offset.c_str(), progID, progID);
-        auto* dest = edge.getDestination();
+    }
+
+    // The destination is printed for the first edge using the Program, and for
+    // the following ones unless they lead to the same TPGVertex.
+    auto* dest = edge.getDestination();
+    auto firstDestination = this->programDestination.emplace(&p, dest);
+    if (firstDestination.second || firstDestination.first->second != dest) {
         if (dest && dynamic_cast<const TPG::TPGAction*>(dest) != nullptr) {
             uint64_t actionID =
                 printTPGAction(*(const TPG::TPGAction*)edge.getDestination());
@@ -204,6 +210,7 @@ void File::TPGGraphDotExporter::print()
     // ID, which should remain constant through multiple exports and
     // generations.
     this->programID.erase(this->programID.begin(), this->programID.end());
+    this->programDestination.clear();
 
     // Print all edges
     auto& edges = this->tpg.getEdges();
@@ -229,6 +236,7 @@ void File::TPGGraphDotExporter::printSubGraph(const TPG::TPGVertex* root)
     // ID, which should remain constant through multiple exports and
     // generations.
     this->programID.erase(this->programID.begin(), this->programID.end());
+    this->programDestination.clear();
 
     // Print edges stemming from the given root
     // Init a Breadth First scan
-- 
2.43.0


From f480f2ed511dfca6fa7cb2e0aef944d6fe5d4fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 23/39] fix: export the sub-graph of a root action

---
 gegelatilib/src/file/tpgGraphDotExporter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gegelatilib/src/file/tpgGraphDotExporter.cpp b/gegelatilib/src/file/tpgGraphDotExporter.cpp
index 949ea07..1e0855f 100644
--- a/gegelatilib/src/file/tpgGraphDotExporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotExporter.cpp
@@ -274,6 +274,10 @@ void File::TPGGraphDotExporter::printSubGraph(const TPG::TPGVertex* root)
                 }
             }
         }
+        else {
+            // Only the given root can be an action here.
+            this->printTPGAction(*(const TPG::TPGAction*)vertex);
+        }
     }
 
     // Print edges
-- 
2.43.0


From ea9b8b67ea15bd01c86ffa123abe9b389a6e6d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:01 +0000
Subject: [PATCH 24/39] fix: export the edges of a team in their own order

---
 gegelatilib/src/file/tpgGraphDotExporter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/src/file/tpgGraphDotExporter.cpp b/gegelatilib/src/file/tpgGraphDotExporter.cpp
index 1e0855f..6ea6087 100644
--- a/gegelatilib/src/file/tpgGraphDotExporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotExporter.cpp
@@ -212,10 +212,17 @@ void File::TPGGraphDotExporter::print()
     this->programID.erase(this->programID.begin(), this->programID.end());
     this->programDestination.clear();
 
-    // Print all edges
+    // Print all edges. The edges of a vertex are printed in their own order, as
+    // it settles ties between bids.
+    std::map<const TPG::TPGVertex*, std::list<TPG::TPGEdge*>::const_iterator>
+        nextEdges;
     auto& edges = this->tpg.getEdges();
     for (const std::unique_ptr<TPG::TPGEdge>& edge : edges) {
-        this->printTPGEdge(*edge.get());
+        const TPG::TPGVertex* source = edge->getSource();
+        auto next =
+            nextEdges.emplace(source, source->getOutgoingEdges().begin()).first;
+        this->printTPGEdge(**next->second);
+        next->second++;
     }
 
     // Print footer
-- 
2.43.0


From 0fe855b81b6af6679f0cd46ec335ac2c6a2b6623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:01 +0000
Subject: [PATCH 25/39] fix: import programs of any length

---
 .../include/file/tpgGraphDotImporter.h        | 14 +++++-----
 gegelatilib/src/file/tpgGraphDotImporter.cpp  | 26 +++++++++++--------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/gegelatilib/include/file/tpgGraphDotImporter.h b/gegelatilib/include/file/tpgGraphDotImporter.h
index d57bcce..4e1c376 100644
--- a/gegelatilib/include/file/tpgGraphDotImporter.h
+++ b/gegelatilib/include/file/tpgGraphDotImporter.h
@@ -170,7 +170,7 @@ namespace File {
         /**
          * \brief contains the regex to identify an instruction declaration
          *
-         * this regex values "I([0-9]+)\\x20\\x5B.*label=\"(.*)\"\\x5D"
+         * this regex values "I([0-9]+)\\x20\\x5B[^\"]*label=\""
          *
          * Explanation :
          *
@@ -178,10 +178,9 @@ namespace File {
          * stored in a group
          * \\x20\\x5B    looks for a succession of a whitespace and an opening
          * bracket ('[')
-         * .*			the following can be any sequence of character
-         * label=\"	    looks for the label declaration sequence.
-         * (.*)\"\\x5D	stores the content of the label in a group and  look for
-         * the ending sequence : "]
+         * [^\"]*		the following can be any sequence of character but "
+         * label=\"	    looks for the label declaration sequence. The content
+         * of the label follows.
          *
          * Example:
          * I0 [shape=box style=invis]			Should pass
@@ -400,8 +399,9 @@ namespace File {
         };
 
         /**
-         * \brief Maximum number of characters that can be read in a single
-         * line.
+         * \brief Former maximum number of characters of a line.
+         *
+         * Lines of any length are read.
          */
         static const unsigned int MAX_READ_SIZE = 4096;
 
diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 3f9eaf3..4dd121e 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -42,7 +42,7 @@ const std::string File::TPGGraphDotImporter::teamRegex(
 const std::string File::TPGGraphDotImporter::programRegex(
     "P([0-9]+)\\x20\\x5B.*\\x5D");
 const std::string File::TPGGraphDotImporter::instructionRegex(
-    "I([0-9]+)\\x20\\x5B.*label=\"(.*)\"\\x5D");
+    "I([0-9]+)\\x20\\x5B[^\"]*label=\"");
 const std::string File::TPGGraphDotImporter::actionRegex(
     "A([0-9]+)\\x20\\x5B.*=\"([0-9]+)\"\\x5D");
 const std::string File::TPGGraphDotImporter::linkProgramInstructionRegex(
@@ -88,7 +88,14 @@ void File::TPGGraphDotImporter::readLine(std::smatch& matches)
     // inst_idx|dest_idx&op1_param1|op1_param2#...#opN_param1|opN_param2
     if (!this->lastLine.empty() && !matches.empty()) {
         uint64_t prog_label = std::stoi(matches[1]);
-        std::string label = matches[2];
+        // The label is not matched, since regular expressions can not process
+        // long lines.
+        std::string label = matches.suffix();
+        std::string::size_type labelEnd = label.rfind("\"]");
+        if (labelEnd == std::string::npos) {
+            throw std::ifstream::failure("Couldn't read in the given file");
+        }
+        label = label.substr(0, labelEnd);
 
         auto p_it = programID.find(prog_label);
         if (p_it != programID.end() && !label.empty()) {
@@ -186,17 +193,19 @@ void File::TPGGraphDotImporter::readProgram(std::smatch& matches)
 void File::TPGGraphDotImporter::dumpTPGGraphHeader()
 {
 
-    char buffer[MAX_READ_SIZE];
+    std::string buffer;
 
     // skips the comment lines of header (if any)
     do {
-        pFile.getline(buffer, MAX_READ_SIZE);
+        if (!std::getline(pFile, buffer)) {
+            throw std::ifstream::failure("Couldn't read in the given file");
+        }
     } while (buffer[0] == '/');
 
     // Skip the header (should be 3 lines, including one covered by previous
     // while loop)
     for (int i = 0; i < 2; i++) {
-        pFile.getline(buffer, MAX_READ_SIZE);
+        std::getline(pFile, buffer);
     }
 }
 
@@ -336,8 +345,6 @@ void File::TPGGraphDotImporter::importGraph()
 
 bool File::TPGGraphDotImporter::readLineFromFile()
 {
-    char buffer[MAX_READ_SIZE];
-
     std::regex testActionDeclare(this->actionRegex);
     std::regex testTeamDeclare(this->teamRegex);
     std::regex testProgramDeclare(this->programRegex);
@@ -349,11 +356,8 @@ bool File::TPGGraphDotImporter::readLineFromFile()
 
     std::smatch matches;
 
-    if (!pFile.getline(buffer, MAX_READ_SIZE))
+    if (!std::getline(pFile, this->lastLine))
         throw std::ifstream::failure("Couldn't read in the given file");
-    else {
-        this->lastLine = buffer;
-    }
 
     // check the line shape and parse it
     if (std::regex_search(this->lastLine, matches, testTeamDeclare)) {
-- 
2.43.0


From 7014036791e90dabe45b22e1bc425706871cb1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:01 +0000
Subject: [PATCH 26/39] fix: report a truncated file instead of importing part
 of it

---
 gegelatilib/src/file/tpgGraphDotImporter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 4dd121e..77907c4 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -388,6 +388,10 @@ bool File::TPGGraphDotImporter::readLineFromFile()
     else if (std::regex_search(this->lastLine, matches, testLinkTP)) {
         readLinkTeamProgram(matches);
     }
+    else if (this->lastLine.find('}') == std::string::npos) {
+        // Neither a known line nor the end of the graph.
+        throw std::ifstream::failure("Couldn't read in the given file");
+    }
     else {
         return false;
     }
-- 
2.43.0


From 2c9678b088be76495d2434a4cdc376b8324578b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 27/39] fix: load parameters above 32 bits

---
 gegelatilib/src/file/parametersParser.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 7ed970a..3434352 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -102,19 +102,19 @@ void File::ParametersParser::setParameterFromString(
     Json::Value const& value)
 {
     if (param == "nbActions") {
-        params.mutation.tpg.nbActions = (size_t)value.asUInt();
+        params.mutation.tpg.nbActions = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbRoots") {
-        params.mutation.tpg.nbRoots = (size_t)value.asUInt();
+        params.mutation.tpg.nbRoots = (size_t)value.asUInt64();
         return;
     }
     if (param == "maxInitOutgoingEdges") {
-        params.mutation.tpg.maxInitOutgoingEdges = (size_t)value.asUInt();
+        params.mutation.tpg.maxInitOutgoingEdges = (size_t)value.asUInt64();
         return;
     }
     if (param == "maxOutgoingEdges") {
-        params.mutation.tpg.maxOutgoingEdges = (size_t)value.asUInt();
+        params.mutation.tpg.maxOutgoingEdges = (size_t)value.asUInt64();
         return;
     }
     if (param == "pEdgeDeletion") {
@@ -143,7 +143,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "maxProgramSize") {
-        params.mutation.prog.maxProgramSize = (size_t)value.asUInt();
+        params.mutation.prog.maxProgramSize = (size_t)value.asUInt64();
         return;
     }
     if (param == "pDelete") {
@@ -163,7 +163,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "nbProgramConstant") {
-        params.nbProgramConstant = (size_t)value.asUInt();
+        params.nbProgramConstant = (size_t)value.asUInt64();
         return;
     }
     if (param == "pConstantMutation") {
@@ -179,7 +179,7 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "archiveSize") {
-        params.archiveSize = (size_t)value.asUInt();
+        params.archiveSize = (size_t)value.asUInt64();
         return;
     }
     if (param == "archivingProbability") {
@@ -207,15 +207,15 @@ void File::ParametersParser::setParameterFromString(
         return;
     }
     if (param == "maxNbEvaluationPerPolicy") {
-        params.maxNbEvaluationPerPolicy = (size_t)value.asUInt();
+        params.maxNbEvaluationPerPolicy = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbRegisters") {
-        params.nbRegisters = (size_t)value.asUInt();
+        params.nbRegisters = (size_t)value.asUInt64();
         return;
     }
     if (param == "nbThreads") {
-        params.nbThreads = (size_t)value.asUInt();
+        params.nbThreads = (size_t)value.asUInt64();
         return;
     }
     if (param == "doValidation") {
-- 
2.43.0


From 64a6cc6bdc820049c7e12990779c1bae776c747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 28/39] fix: ignore all of an ill-formed parameter file

---
 gegelatilib/src/file/parametersParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 3434352..37d13c0 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -58,6 +58,8 @@ void File::ParametersParser::readConfigFile(const char* path, Json::Value& root)
     if (!parseFromStream(builder, ifs, &root, &errs)) {
         std::cout << errs << std::endl;
         std::cerr << "Ignoring ill-formed config file " << path << std::endl;
+        // Forget what was read before the error
+        root = Json::Value(Json::objectValue);
     }
 }
 
-- 
2.43.0


From e97521a72add7bb6d70b3d33ff8e697d54f6c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 29/39] fix: keep all parameters when a file has an invalid
 value

---
 gegelatilib/src/file/parametersParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/file/parametersParser.cpp b/gegelatilib/src/file/parametersParser.cpp
index 37d13c0..2ae9bfc 100644
--- a/gegelatilib/src/file/parametersParser.cpp
+++ b/gegelatilib/src/file/parametersParser.cpp
@@ -234,7 +234,10 @@ void File::ParametersParser::loadParametersFromJson(
     Json::Value root;
     readConfigFile(path, root);
 
-    setAllParamsFrom(root, params);
+    // If a value is not valid, none is changed
+    Learn::LearningParameters newParams = params;
+    setAllParamsFrom(root, newParams);
+    params = newParams;
 }
 
 void File::ParametersParser::writeParametersToJson(
-- 
2.43.0


From 8b642b6e945844a126caf3640a9a397a92169023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:24 +0000
Subject: [PATCH 30/39] fix: analyze instrumented graphs whose roots are
 actions

---
 gegelatilib/src/tpg/instrumented/executionStats.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gegelatilib/src/tpg/instrumented/executionStats.cpp b/gegelatilib/src/tpg/instrumented/executionStats.cpp
index cd8b744..e654e99 100644
--- a/gegelatilib/src/tpg/instrumented/executionStats.cpp
+++ b/gegelatilib/src/tpg/instrumented/executionStats.cpp
@@ -65,10 +65,11 @@ void TPG::ExecutionStats::analyzeInstrumentedGraph(const TPGGraph* graph)
     uint64_t nbInferences = std::accumulate(
         roots.cbegin(), roots.cend(), (uint64_t)0,
         [](uint64_t accu, const TPGVertex* vertex) {
-            const auto& rootTeam =
-                dynamic_cast<const TPGTeamInstrumented&>(*vertex);
-            // Raise std::bad_cast if not an instrumented team
-            return accu + rootTeam.getNbVisits();
+            // A root may be a team or an action
+            const auto& root =
+                dynamic_cast<const TPGVertexInstrumentation&>(*vertex);
+            // Raise std::bad_cast if not an instrumented vertex
+            return accu + root.getNbVisits();
         });
 
     uint64_t nbEvaluatedTeams = 0;
-- 
2.43.0


From f78c370eae212d137b7d719659e12b24b052894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:13 +0000
Subject: [PATCH 31/39] fix: write statistics of a policy that uses no data

---
 gegelatilib/src/tpg/policyStats.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/src/tpg/policyStats.cpp b/gegelatilib/src/tpg/policyStats.cpp
index eea1b86..2e508d9 100644
--- a/gegelatilib/src/tpg/policyStats.cpp
+++ b/gegelatilib/src/tpg/policyStats.cpp
@@ -265,8 +265,11 @@ std::ostream& TPG::operator<<(std::ostream& os,
     os << std::endl << std::endl;
 
     os << "## Data info";
+    // No data location is used if there is no (non-intron) line.
     size_t currentDHandler =
-        policyStats.nbUsagePerDataLocation.begin()->first.first - 1;
+        policyStats.nbUsagePerDataLocation.empty()
+            ? 0
+            : policyStats.nbUsagePerDataLocation.begin()->first.first - 1;
 
     std::for_each(
         policyStats.nbUsagePerDataLocation.cbegin(),
-- 
2.43.0


From c987593c5a1215dfdf9ce60a20ff07e84145c84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 32/39] fix: do not report the absence of cycles after a cycle

---
 gegelatilib/src/log/cycleDetectionLALogger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gegelatilib/src/log/cycleDetectionLALogger.cpp b/gegelatilib/src/log/cycleDetectionLALogger.cpp
index 9f20e80..33317c6 100644
--- a/gegelatilib/src/log/cycleDetectionLALogger.cpp
+++ b/gegelatilib/src/log/cycleDetectionLALogger.cpp
@@ -112,6 +112,7 @@ void Log::CycleDetectionLALogger::logAfterPopulateTPG()
         // This happens when a connected sub-graph has no root, which indicates
         // that the subgraph has a cycle.
         *this << "A cycle was detected in the TPG.";
+        return;
     }
 
     // If this point of the algorithm is reached, no cycle were detected
-- 
2.43.0


From 94151ac17d3aa9b200fcd9436e6354c0ebd62d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:11 +0000
Subject: [PATCH 33/39] fix: separate wide columns of the basic logger

---
 gegelatilib/src/log/laBasicLogger.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gegelatilib/src/log/laBasicLogger.cpp b/gegelatilib/src/log/laBasicLogger.cpp
index b27570b..2d7986b 100644
--- a/gegelatilib/src/log/laBasicLogger.cpp
+++ b/gegelatilib/src/log/laBasicLogger.cpp
@@ -56,8 +56,10 @@ void Log::LABasicLogger::logResults(
                      const TPG::TPGVertex*>
                pair) -> double { return acc + pair.first->getResult(); });
     avg /= (double)results.size();
-    *this << std::setw(colWidth) << min << std::setw(colWidth) << avg
-          << std::setw(colWidth) << max;
+    // Separate the columns, even if the values do not fit in colWidth
+    *this << ' ' << std::setw(colWidth - 1) << min << ' '
+          << std::setw(colWidth - 1) << avg << ' ' << std::setw(colWidth - 1)
+          << max;
 }
 
 void Log::LABasicLogger::logHeader()
@@ -99,7 +101,7 @@ void Log::LABasicLogger::logAfterPopulateTPG()
 {
     this->mutationTime = getDurationFrom(*checkpoint);
 
-    *this << std::setw(colWidth)
+    *this << ' ' << std::setw(colWidth - 1)
           << this->learningAgent.getTPGGraph()->getNbVertices();
 
     chronoFromNow();
@@ -130,10 +132,11 @@ void Log::LABasicLogger::logAfterValidate(
 
 void Log::LABasicLogger::logEndOfTraining()
 {
-    *this << std::setw(colWidth) << mutationTime;
-    *this << std::setw(colWidth) << evalTime;
+    *this << ' ' << std::setw(colWidth - 1) << mutationTime;
+    *this << ' ' << std::setw(colWidth - 1) << evalTime;
     if (doValidation) {
-        *this << std::setw(colWidth) << validTime;
+        *this << ' ' << std::setw(colWidth - 1) << validTime;
     }
-    *this << std::setw(colWidth) << getDurationFrom(*start) << std::endl;
+    *this << ' ' << std::setw(colWidth - 1) << getDurationFrom(*start)
+          << std::endl;
 }
-- 
2.43.0


From 6ec2bef85cd3fda129f9538810144b212691a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 34/39] fix: log the policy of an agent that was initialized
 again

---
 gegelatilib/include/log/laPolicyStatsLogger.h | 4 +---
 gegelatilib/src/log/laPolicyStatsLogger.cpp   | 9 +++++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/gegelatilib/include/log/laPolicyStatsLogger.h b/gegelatilib/include/log/laPolicyStatsLogger.h
index 863efa7..c7932bc 100644
--- a/gegelatilib/include/log/laPolicyStatsLogger.h
+++ b/gegelatilib/include/log/laPolicyStatsLogger.h
@@ -84,9 +84,7 @@ namespace Log {
         };
 
         /// Inherited from LALogger
-        void logAfterPopulateTPG() override{
-            // nothing to log
-        };
+        void logAfterPopulateTPG() override;
 
         /// Inherited from LALogger
         void logAfterDecimate() override;
diff --git a/gegelatilib/src/log/laPolicyStatsLogger.cpp b/gegelatilib/src/log/laPolicyStatsLogger.cpp
index d10032e..261b9a8 100644
--- a/gegelatilib/src/log/laPolicyStatsLogger.cpp
+++ b/gegelatilib/src/log/laPolicyStatsLogger.cpp
@@ -42,6 +42,15 @@ void Log::LAPolicyStatsLogger::logNewGeneration(uint64_t& generationNumber)
     this->generationNumber = generationNumber;
 }
 
+void Log::LAPolicyStatsLogger::logAfterPopulateTPG()
+{
+    // When the LearningAgent forgot its best root (e.g. because it was
+    // initialized again), a new TPGVertex may have the address of the old one.
+    if (this->learningAgent.getBestRoot().first != this->lastBestRoot) {
+        this->lastBestRoot = nullptr;
+    }
+}
+
 void Log::LAPolicyStatsLogger::logAfterDecimate()
 {
     if (this->learningAgent.getBestRoot().first != this->lastBestRoot) {
-- 
2.43.0


From b6423735cdb78ebdc2df6ec177c3fbb2d46728be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 35/39] fix: refuse to evaluate a team without edges

---
 gegelatilib/src/tpg/tpgExecutionEngine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gegelatilib/src/tpg/tpgExecutionEngine.cpp b/gegelatilib/src/tpg/tpgExecutionEngine.cpp
index 669ab1a..6971d86 100644
--- a/gegelatilib/src/tpg/tpgExecutionEngine.cpp
+++ b/gegelatilib/src/tpg/tpgExecutionEngine.cpp
@@ -36,6 +36,7 @@
 
 #include <algorithm>
 #include <set>
+#include <stdexcept>
 #include <vector>
 
 #include "program/programExecutionEngine.h"
@@ -77,6 +78,11 @@ const TPG::TPGEdge& TPG::TPGExecutionEngine::evaluateTeam(const TPGTeam& team)
     // Copy outgoing edge list
     const std::list<TPG::TPGEdge*>& outgoingEdges = team.getOutgoingEdges();
 
+    if (outgoingEdges.empty()) {
+        throw std::runtime_error("Cannot evaluate a TPGTeam without any "
+                                 "outgoing TPGEdge.");
+    }
+
     // Note: No need to exclude previously visited edges as the graph is now
     // assumed to be acyclic.
 
-- 
2.43.0


From 4a9fad75c7547a247948d18a2747441c215608d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 36/39] fix: do not leak the programs of an ill-formed file

---
 gegelatilib/src/file/tpgGraphDotImporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 77907c4..08b828b 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -178,7 +178,7 @@ void File::TPGGraphDotImporter::readProgram(std::smatch& matches)
             pos1 = this->lastLine.find("|", pos);
         }
         // create new program with the correct amount of constants
-        Program::Program* p = new Program::Program(this->tpg.getEnvironment());
+        auto p = std::make_shared<Program::Program>(this->tpg.getEnvironment());
         // set the previously read constants
         for (int i = 0; i < v_constant.size(); i++) {
             p->getConstantHandler().setDataAt(typeid(Data::Constant), i,
-- 
2.43.0


From 0127b4f3afa7ac27a71bf4b6208b48040ecaf94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:51 +0000
Subject: [PATCH 37/39] fix: refuse imported lines whose operands cannot be
 read

---
 gegelatilib/src/file/tpgGraphDotImporter.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/gegelatilib/src/file/tpgGraphDotImporter.cpp b/gegelatilib/src/file/tpgGraphDotImporter.cpp
index 08b828b..d168851 100644
--- a/gegelatilib/src/file/tpgGraphDotImporter.cpp
+++ b/gegelatilib/src/file/tpgGraphDotImporter.cpp
@@ -146,6 +146,21 @@ void File::TPGGraphDotImporter::readLine(std::smatch& matches)
                 // parse operands
                 readOperands(operands, l);
 
+                // the operands of the instruction must be readable
+                const Environment& env = this->tpg.getEnvironment();
+                const Instructions::Instruction& inst =
+                    env.getInstructionSet().getInstruction(
+                        l.getInstructionIndex());
+                for (uint64_t i = 0; i < inst.getNbOperands(); i++) {
+                    uint64_t dataIdx = l.getOperand(i).first;
+                    if (dataIdx >= env.getFakeDataSources().size() ||
+                        !env.getFakeDataSources().at(dataIdx).get().canHandle(
+                            inst.getOperandTypes().at(i).get())) {
+                        throw std::ifstream::failure(
+                            "Operand is not available in the environment");
+                    }
+                }
+
                 if (label.size() <= 3) {
                     cont = false;
                 }
-- 
2.43.0


From a1622729a1e127e3809f575c0aa62a70b310fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 38/39] fix: multiply by constants in double precision in
 generated code

---
 gegelatilib/include/instructions/multByConstant.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gegelatilib/include/instructions/multByConstant.h b/gegelatilib/include/instructions/multByConstant.h
index 1c99f09..7b4e57e 100644
--- a/gegelatilib/include/instructions/multByConstant.h
+++ b/gegelatilib/include/instructions/multByConstant.h
@@ -65,7 +65,8 @@ namespace Instructions {
          * \param[in] printTemplate std::string use at the generation. Check
          * Instructions::Instruction for more details.
          */
-        MultByConstant(const std::string& printTemplate = "$0 = $1 * $2;");
+        MultByConstant(
+            const std::string& printTemplate = "$0 = $1 * (double)$2;");
 #endif // CODE_GENERATION
 
       public:
-- 
2.43.0


From 0331c395d482bf15bdfa58a0e10402367102472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 39/39] fix: tell all environments the iteration and generation
 numbers

---
 gegelatilib/include/learn/classificationLearningAgent.h | 2 +-
 gegelatilib/src/learn/adversarialLearningAgent.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gegelatilib/include/learn/classificationLearningAgent.h b/gegelatilib/include/learn/classificationLearningAgent.h
index ffddab5..d03c1c9 100644
--- a/gegelatilib/include/learn/classificationLearningAgent.h
+++ b/gegelatilib/include/learn/classificationLearningAgent.h
@@ -172,7 +172,7 @@ namespace Learn {
             uint64_t hash = hasher(generationNumber) ^ hasher(i);
 
             // Reset the learning Environment
-            le.reset(hash, mode);
+            le.reset(hash, mode, i, generationNumber);
 
             uint64_t nbActions = 0;
             while (!le.isTerminal() &&
diff --git a/gegelatilib/src/learn/adversarialLearningAgent.cpp b/gegelatilib/src/learn/adversarialLearningAgent.cpp
index 00de40d..a4d81d8 100644
--- a/gegelatilib/src/learn/adversarialLearningAgent.cpp
+++ b/gegelatilib/src/learn/adversarialLearningAgent.cpp
@@ -146,7 +146,7 @@ std::shared_ptr<Learn::EvaluationResult> Learn::AdversarialLearningAgent::
         uint64_t hash = hasher(generationNumber) ^ hasher(i);
 
         // Reset the learning Environment
-        ale.reset(hash, mode);
+        ale.reset(hash, mode, i, generationNumber);
 
         uint64_t nbActions = 0;
 
-- 
2.43.0

