From 0fa6b282ecc4c99abf0fbe0e16c8e7ea7cf9547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 01/33] fix: restore SIGABRT and SIGILL handlers separately
 after a guarded run

---
 src/Runtime/ExecutionSession.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index aa512d0..657c2e4 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -435,7 +435,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   return nullptr;
 #else
   // Save old signal handlers
-  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill;
+  struct sigaction oldSigsegv, oldSigbus, oldSigfpe, oldSigill, oldSigabrt;
   struct sigaction newAction;
 
   // Setup new signal handler
@@ -448,7 +448,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   sigaction(SIGBUS, &newAction, &oldSigbus);
   sigaction(SIGFPE, &newAction, &oldSigfpe);
   sigaction(SIGILL, &newAction, &oldSigill);
-  sigaction(SIGABRT, &newAction, &oldSigill);
+  sigaction(SIGABRT, &newAction, &oldSigabrt);
 
   // Reset signal state
   signalCaught = 0;
@@ -469,7 +469,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
-    sigaction(SIGABRT, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Throw error if nullptr output (list expected in successful executions).
     if (!output)
       throw ExecutionSessionException(reportErrnoError());
@@ -483,6 +483,7 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
     sigaction(SIGBUS, &oldSigbus, nullptr);
     sigaction(SIGFPE, &oldSigfpe, nullptr);
     sigaction(SIGILL, &oldSigill, nullptr);
+    sigaction(SIGABRT, &oldSigabrt, nullptr);
     // Set errno to the signal number for error reporting
     errno = signum;
     throw ExecutionSessionException(reportErrnoError(/*from signal*/ true));
-- 
2.43.0


From c89b36d7ba11fee3cbf49f0bc91c8643bdced731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 02/33] fix: initialize the library handle of a session that
 never loads a model

---
 src/Runtime/ExecutionSession.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/ExecutionSession.hpp b/src/Runtime/ExecutionSession.hpp
index c46fd8e..cd2c988 100644
--- a/src/Runtime/ExecutionSession.hpp
+++ b/src/Runtime/ExecutionSession.hpp
@@ -153,7 +153,7 @@ protected:
   bool isInitialized = false;
 
   // Handler to the shared library file being loaded.
-  DynamicLibraryHandleType _sharedLibraryHandle;
+  DynamicLibraryHandleType _sharedLibraryHandle{};
 
   // Entry point function.
   std::string _entryPointName;
-- 
2.43.0


From f4efcbd94f93720713a60908855d66f7905b5b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 03/33] fix: undo the side effects of a model load that fails

---
 src/Runtime/ExecutionSession.cpp | 45 ++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 657c2e4..99480f8 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -76,9 +76,40 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
 
   std::string tag = modelTag;
 
-  // If OM_CONSTANT_PATH is not set, set it for loading constants from file. Do
-  // this before dlopen since OM_CONSTANT_PATH is used by constructors.
+  // Until the load completes, any exception must undo its side effects: unset
+  // OM_CONSTANT_PATH if it was set here, close the library, and leave the
+  // session uninitialized.
   bool setOMConstantPath = false;
+  struct LoadGuard {
+    ExecutionSession &session;
+    bool &setOMConstantPath;
+    bool completed = false;
+    ~LoadGuard() {
+      if (setOMConstantPath) {
+#if defined(_WIN32)
+        _putenv_s("OM_CONSTANT_PATH", "");
+#else
+        unsetenv("OM_CONSTANT_PATH");
+#endif
+      }
+      if (completed)
+        return;
+#if defined(_WIN32)
+      if (session._sharedLibraryHandle.isValid())
+        llvm::sys::DynamicLibrary::closeLibrary(session._sharedLibraryHandle);
+#else
+      if (session._sharedLibraryHandle)
+        dlclose(session._sharedLibraryHandle);
+#endif
+      session._sharedLibraryHandle = DynamicLibraryHandleType();
+      session._entryPointFunc = nullptr;
+      session.isInitialized = false;
+    }
+  } guard{*this, setOMConstantPath};
+
+  // If OM_CONSTANT_PATH is not set, set it for loading constants from file. Do
+  // this before dlopen since OM_CONSTANT_PATH is used by constructors. It is
+  // unset when leaving, to avoid conflict with the load of another model.
   if (!std::getenv("OM_CONSTANT_PATH")) {
     std::size_t found = sharedLibPath.find_last_of("/\\");
     if (found != std::string::npos) {
@@ -213,18 +244,10 @@ void ExecutionSession::loadModel(const std::string &sharedLibPath,
   // Successful completion of initialization.
   isInitialized = true;
 
-  // Unset OM_CONSTANT_PATH to avoid conflict with the load of another model.
-  if (setOMConstantPath) {
-#if defined(_WIN32)
-    _putenv_s("OM_CONSTANT_PATH", "");
-#else
-    unsetenv("OM_CONSTANT_PATH");
-#endif
-  }
-
   // Set default entry point if requested.
   if (defaultEntryPoint)
     setEntryPoint("run_main_graph" + lowDashTag);
+  guard.completed = true;
 
   errno = 0; // No errors.
 }
-- 
2.43.0


From 697efca838ae04aea71c54d62a1fa51ddf7b099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 04/33] fix: report a failed input list allocation instead of
 running on null

---
 src/Runtime/ExecutionSession.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index 99480f8..f3608ca 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -371,6 +371,8 @@ std::vector<OMTensorUniquePtr> ExecutionSession::run(
     omts.emplace_back(inOmt.get());
   auto *wrappedInput =
       omTensorListCreate(omts.data(), static_cast<int64_t>(omts.size()));
+  if (!wrappedInput)
+    throw ExecutionSessionException("Failed to allocate the input list.");
 
   // Run inference.
   errno = 0; // Clear errno.
-- 
2.43.0


From 15af0d629e03986c54c41c04412a58f53c429bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 05/33] fix: free the created tensors when their list cannot be
 allocated

---
 src/Runtime/OMTensorListHelper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMTensorListHelper.cpp b/src/Runtime/OMTensorListHelper.cpp
index 6c6fbd9..7cfc6b7 100644
--- a/src/Runtime/OMTensorListHelper.cpp
+++ b/src/Runtime/OMTensorListHelper.cpp
@@ -560,6 +560,8 @@ OMTensorList *omTensorListCreateFromInputSignature(
   }
 
   OMTensorList *list = omTensorListCreate(inputTensors, inputNum);
+  if (!list)
+    return abortWithCleanup(inputNum);
   free(inputTensors);
   return list;
 }
-- 
2.43.0


From 701a45876954cd455992e1d1ccb5b58b608224e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 06/33] fix: release inputs and outputs when a Python run
 throws

---
 src/Runtime/python/PyExecutionSession.cpp | 53 ++++++++++++++++++-----
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index 2c0efdb..c6697d3 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -123,6 +123,30 @@ static const char *omDataTypeToNumpyDtypeName(OM_DATA_TYPE type) {
   return nullptr;
 }
 
+// Owns the memory obtained from the runtime until it is handed over, so that it
+// is also released when an exception is thrown.
+namespace {
+struct FreeDeleter {
+  void operator()(void *ptr) const { free(ptr); }
+};
+using BufferPtr = std::unique_ptr<void, FreeDeleter>;
+
+struct OMTensorsGuard {
+  std::vector<OMTensor *> &tensors;
+  bool armed = true;
+  ~OMTensorsGuard() {
+    if (armed)
+      for (OMTensor *tensor : tensors)
+        omTensorDestroy(tensor);
+  }
+};
+
+struct OMTensorListDeleter {
+  void operator()(OMTensorList *list) const { omTensorListDestroy(list); }
+};
+using OMTensorListPtr = std::unique_ptr<OMTensorList, OMTensorListDeleter>;
+} // namespace
+
 // =============================================================================
 // Run.
 
@@ -148,6 +172,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   // 1. Process inputs.
   TIMING_INIT_START(process_input);
   std::vector<OMTensor *> omts;
+  OMTensorsGuard omtsGuard{omts};
   if (inputsPyArray.size() != shapesPyArray.size())
     throw onnx_mlir::ExecutionSessionException(
         "numbers of inputs and shapes should be the same");
@@ -163,6 +188,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
       throw onnx_mlir::ExecutionSessionException(
           "Expect contiguous python array.");
     void *dataPtr;
+    BufferPtr ownedData;
     int64_t ownData = 0;
     if (inputPyArray.writeable()) {
       dataPtr = inputPyArray.mutable_data();
@@ -172,6 +198,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
       if (!copiedData)
         throw onnx_mlir::ExecutionSessionException(
             "Failed to allocate data buffer for copied data.");
+      ownedData.reset(copiedData);
       memcpy(copiedData, inputPyArray.data(), inputPyArray.nbytes());
       dataPtr = copiedData;
       // We want OMTensor to free up the memory space upon destruction.
@@ -244,7 +271,11 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
             "fail to allocate Tensor buffer for string data");
       inputOMTensor = omTensorCreateWithOwnership(
           tensorBuffer, shape, ndim, dtype, /*own_data=*/true);
-
+      if (!inputOMTensor) {
+        free(tensorBuffer);
+        throw onnx_mlir::ExecutionSessionException(
+            "fail to allocate Tensor for input data");
+      }
       omTensorSetStridesWithPyArrayStrides(inputOMTensor, stride);
       // omTensorPrint("PyExecutionSession::pyRun: %t %d", inputOMTensor);
     } else if (std::is_same<int64_t, pybind11::ssize_t>::value) {
@@ -253,6 +284,8 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
       if (!inputOMTensor)
         throw onnx_mlir::ExecutionSessionException(
             "fail to allocate Tensor for input data");
+      // Copied data, if any, is now owned by the tensor.
+      (void)ownedData.release();
       omTensorSetStridesWithPyArrayStrides(inputOMTensor, stride);
     } else {
       std::vector<int64_t> safeShape(shape, shape + ndim);
@@ -262,6 +295,8 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
       if (!inputOMTensor)
         throw onnx_mlir::ExecutionSessionException(
             "fail to allocate Tensor for input data");
+      // Copied data, if any, is now owned by the tensor.
+      (void)ownedData.release();
       omTensorSetStridesWithPyArrayStrides(inputOMTensor, safeStrides.data());
     }
     omts.emplace_back(inputOMTensor);
@@ -274,6 +309,9 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   if (!wrappedInput)
     throw onnx_mlir::ExecutionSessionException(
         "fail to allocate Tensor List for input data");
+  // The list now owns the tensors.
+  omtsGuard.armed = false;
+  OMTensorListPtr ownedInput(wrappedInput);
   // Call
   OMTensorList *wrappedOutput = nullptr;
   {
@@ -289,9 +327,9 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
 
   // Check if inference succeeded and returned valid output
   if (!wrappedOutput) {
-    omTensorListDestroy(wrappedInput);
     throw onnx_mlir::ExecutionSessionException("error while runing the model");
   }
+  OMTensorListPtr ownedOutput(wrappedOutput);
 
   // 3. Process outputs.
   TIMING_INIT_START(process_output);
@@ -303,8 +341,6 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput); i++) {
     auto *omt = omTensorListGetOmtByIndex(wrappedOutput, i);
     if (!omt) {
-      omTensorListDestroy(wrappedOutput);
-      omTensorListDestroy(wrappedInput);
       std::stringstream errStr;
       errStr << "Failed to get output tensor at index " << i;
       throw onnx_mlir::ExecutionSessionException(errStr.str());
@@ -316,8 +352,6 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     const char *dtypeName =
         omDataTypeToNumpyDtypeName(omTensorGetDataType(omt));
     if (!dtypeName) {
-      omTensorListDestroy(wrappedOutput);
-      omTensorListDestroy(wrappedInput);
       throw onnx_mlir::ExecutionSessionException(
           "Unsupported ONNX type in OMTensor: " +
           std::to_string(omTensorGetDataType(omt)));
@@ -381,11 +415,11 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   TIMING_STOP_PRINT(process_output);
 
   TIMING_INIT_START(delete_out_lists);
-  omTensorListDestroy(wrappedOutput);
+  ownedOutput.reset();
   TIMING_STOP_PRINT(delete_out_lists);
 
   TIMING_INIT_START(delete_in_lists);
-  omTensorListDestroy(wrappedInput);
+  ownedInput.reset();
   TIMING_STOP_PRINT(delete_in_lists);
 
   return outputPyArrays;
@@ -405,6 +439,7 @@ std::vector<py::array> PyExecutionSession::pyFillInputDebug(
           defaultLowerBound.empty() ? nullptr : defaultLowerBound.c_str(),
           defaultUpperBound.empty() ? nullptr : defaultUpperBound.c_str(), seed,
           verbose);
+  OMTensorListPtr ownedInputs(inputs);
 
   // Convert the C++ OMTensorList to a Python list of numpy arrays so that:
   // 1. Python callers can inspect and modify individual inputs before
@@ -420,14 +455,12 @@ std::vector<py::array> PyExecutionSession::pyFillInputDebug(
     const char *dtypeName =
         omDataTypeToNumpyDtypeName(omTensorGetDataType(omt));
     if (!dtypeName) {
-      omTensorListDestroy(inputs);
       throw onnx_mlir::ExecutionSessionException(
           "pyFillInputDebug: unsupported tensor type at index " +
           std::to_string(i));
     }
     result.emplace_back(copyTensorToPyArray(py::dtype(dtypeName), shape, omt));
   }
-  omTensorListDestroy(inputs);
   return result;
 }
 
-- 
2.43.0


From de9e640dd4ee9327b8b83fccc3c4cfd75cf63c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 07/33] fix: do not redirect a command's output to a file that
 cannot be opened

---
 src/Compiler/Command.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Compiler/Command.cpp b/src/Compiler/Command.cpp
index 88b5155..6bc0a54 100644
--- a/src/Compiler/Command.cpp
+++ b/src/Compiler/Command.cpp
@@ -230,9 +230,14 @@ int Command::exec(const std::string &wdir) {
     // Child process.
     if (!stdFilename.empty()) {
       int fd = open(stdFilename.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
-      dup2(fd, STDOUT_FILENO); // Redirect stdout.
-      dup2(fd, STDERR_FILENO); // Redirect stderr.
-      close(fd);
+      if (fd == -1) {
+        fprintf(stderr, "Failed in Command to redirect output to '%s'\n",
+            stdFilename.c_str());
+      } else {
+        dup2(fd, STDOUT_FILENO); // Redirect stdout.
+        dup2(fd, STDERR_FILENO); // Redirect stderr.
+        close(fd);
+      }
     }
     errno = 0;
     execvp(path.c_str(), execArgs.data());
-- 
2.43.0


From 1cdc8125012f7802342c2e2f3d4063c170f0f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 08/33] fix: wait for a command's child again when interrupted
 by a signal

---
 src/Compiler/Command.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/Command.cpp b/src/Compiler/Command.cpp
index 6bc0a54..86faa92 100644
--- a/src/Compiler/Command.cpp
+++ b/src/Compiler/Command.cpp
@@ -263,8 +263,11 @@ int Command::exec(const std::string &wdir) {
   }
 
   // Parent process.
-  int status;
-  waitpid(pid, &status, 0);
+  int status = 0;
+  pid_t waited;
+  do {
+    waited = waitpid(pid, &status, 0);
+  } while (waited == -1 && errno == EINTR);
 
   // Restore working directory.
   if (requestedNewDir) {
@@ -275,6 +278,8 @@ int Command::exec(const std::string &wdir) {
     }
   }
 
+  if (waited == -1)
+    throw CommandException("Failed to wait for command '" + path + "'");
   // Check how the child process terminated.
   if (WIFEXITED(status)) {
     // Process exited normally.
-- 
2.43.0


From 4d9a73c12cd16548af190ea4e4fb3ce87ed107aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 09/33] fix: keep a caught signal unblocked for later guarded
 runs

---
 src/Runtime/ExecutionSession.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/ExecutionSession.cpp b/src/Runtime/ExecutionSession.cpp
index f3608ca..9b70904 100644
--- a/src/Runtime/ExecutionSession.cpp
+++ b/src/Runtime/ExecutionSession.cpp
@@ -466,7 +466,9 @@ OMTensorList *ExecutionSession::runWithSignalHandler(OMTensorList *input) {
   // Setup new signal handler
   newAction.sa_handler = signalHandler;
   sigemptyset(&newAction.sa_mask);
-  newAction.sa_flags = 0;
+  // The handler is left by a long jump, which does not unblock the signal: do
+  // not block it in the first place, so that it can be caught again.
+  newAction.sa_flags = SA_NODEFER;
 
   // Install signal handlers for the signals we want to catch
   sigaction(SIGSEGV, &newAction, &oldSigsegv);
-- 
2.43.0


From aa53045a517178c7ca7476a71eb339cdc29f9bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:10 +0000
Subject: [PATCH 10/33] fix: TopK keeps the element at the lowest position
 among equal ones

The heap of candidates was arranged by the comparator of the opposite
direction, which ranks equal elements by position the same way, so the
heap gave up the earliest of the equal worst elements instead of the
latest ([1,1,2,0], k=2, largest returned 2,1 instead of 2,0).
---
 src/Runtime/OMTopK.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/Runtime/OMTopK.c b/src/Runtime/OMTopK.c
index 71dc4b1..87bfa08 100644
--- a/src/Runtime/OMTopK.c
+++ b/src/Runtime/OMTopK.c
@@ -38,7 +38,9 @@ static void swap_indices(uint64_t *a, uint64_t *b) {
 }
 
 /**
- * Function to sift an element down the heap to maintain the heap property.
+ * Function to sift an element down the heap to maintain the heap property:
+ * every element ranks after its children in the order of "compare" (which also
+ * ranks equal elements by position), so that the root is the "worst" element.
  */
 static void heap_sift_down(uint64_t *heap, int64_t start, int64_t end,
 #if defined(__APPLE__) || defined(_MSC_VER)
@@ -53,18 +55,18 @@ static void heap_sift_down(uint64_t *heap, int64_t start, int64_t end,
     int64_t child = root * 2 + 1;
     int64_t swap_idx = root;
 
-    // Check if root is "worse" than left child
+    // Check if left child is "worse" than root
     int comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
     comparison = compare(data, &heap[swap_idx], &heap[child]);
 #else
     comparison = compare(&heap[swap_idx], &heap[child], data);
 #endif
-    if (comparison > 0) {
+    if (comparison < 0) {
       swap_idx = child;
     }
 
-    // Check if right child exists and is "better" than current swap_idx
+    // Check if right child exists and is "worse" than current swap_idx
     if (child + 1 <= end) {
       comparison = 0;
 #if defined(__APPLE__) || defined(_MSC_VER)
@@ -72,7 +74,7 @@ static void heap_sift_down(uint64_t *heap, int64_t start, int64_t end,
 #else
       comparison = compare(&heap[swap_idx], &heap[child + 1], data);
 #endif
-      if (comparison > 0) {
+      if (comparison < 0) {
         swap_idx = child + 1;
       }
     }
@@ -145,19 +147,18 @@ void omTensorTopK(OMTensor *orderTensor, const OMTensor *inputTensor,
     return;
   }
 
-  // 1. Get the heap comparator.
-  // To get Top-K "Largest" (ascending=0), we build a MIN-heap.
-  // To get Top-K "Smallest" (ascending=1), we build a MAX-heap.
-  // This uses the opposite ascending direction.
-  compareFunctionType *heapCompare =
-      getCompareFunction(1 - ascending, dataType);
-  if (!heapCompare)
-    return; // Unsupported data type
-
-  // 2. Get the loop comparator.
+  // 1. Get the loop comparator.
   // This checks if a new element is "better" than the heap root.
   // This uses the correct ascending direction.
   compareFunctionType *loopCompare = getCompareFunction(ascending, dataType);
+  if (!loopCompare)
+    return; // Unsupported data type
+
+  // 2. Get the heap comparator (same as loop).
+  // The heap keeps the "worst" element of that order at its root. The
+  // comparator of the opposite direction cannot be used here since it ranks
+  // equal elements by position in the same way, not in the opposite way.
+  compareFunctionType *heapCompare = loopCompare;
 
   // 3. Get the final sort comparator (same as loop).
   compareFunctionType *sortCompare = loopCompare;
-- 
2.43.0


From 5c6491f576044718d5f43170575e5ad884428b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:46 +0000
Subject: [PATCH 11/33] fix: RandomNormal of double honours its seed

get_random_normal_value_f64 ignored its seed argument, unlike the float
version, so equal seeds gave different values depending on what was
called before.
---
 src/Runtime/OMRandomNormal.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Runtime/OMRandomNormal.c b/src/Runtime/OMRandomNormal.c
index 4243bcd..95441c1 100644
--- a/src/Runtime/OMRandomNormal.c
+++ b/src/Runtime/OMRandomNormal.c
@@ -28,6 +28,7 @@ double normalRandom() {
 
 void get_random_normal_value_f64(
     double *result, long long size, double mean, double scale, double seed) {
+  srand(seed);
   for (long long index = 0; index < size; ++index)
     result[index] = normalRandom() * scale + mean;
 }
-- 
2.43.0


From c4ed16096f9dab68b31e675e12474e3792b76bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:14 +0000
Subject: [PATCH 12/33] fix: Unique along an axis works without an indices
 output

produceY read the indices tensor, which may be NULL, although a temporary
indices buffer is set up for exactly that case.
---
 src/Runtime/OMUnique.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/Runtime/OMUnique.c b/src/Runtime/OMUnique.c
index a33221b..10b7822 100644
--- a/src/Runtime/OMUnique.c
+++ b/src/Runtime/OMUnique.c
@@ -265,8 +265,8 @@ static int sliceTableRegister(sliceTable *table, void *slice, uint64_t off) {
 // If the axis attr is not given, sliceTableRegister generates the output Y
 //  directly, since the output is a simple array of unique elements.
 //
-static void produceY(const OMTensor *inputTensor, OMTensor *indices,
-    int64_t sliceAxis, OMTensor *Y) {
+static void produceY(const OMTensor *inputTensor, const int64_t *indicesPtr,
+    int64_t count, int64_t sliceAxis, OMTensor *Y) {
   const int64_t inputRank = omTensorGetRank(inputTensor);
   assert(inputRank <= 6); // Error: "input rank should be 6 or less".
   assert(sliceAxis <
@@ -274,11 +274,6 @@ static void produceY(const OMTensor *inputTensor, OMTensor *indices,
   const int64_t *inputShape = omTensorGetShape(inputTensor);
   const int64_t *inputStrides = omTensorGetStrides(inputTensor);
   void *inputPtr = omTensorGetDataPtr(inputTensor);
-  const int64_t indicesRank = omTensorGetRank(indices);
-  assert(indicesRank == 1); // Error: "indices rank should be 1".
-  const int64_t *indicesShape = omTensorGetShape(indices);
-  const int64_t count = indicesShape[0];
-  int64_t *indicesPtr = (int64_t *)omTensorGetDataPtr(indices);
   void *YPtr = omTensorGetDataPtr(Y);
 
   const OM_DATA_TYPE dataType = omTensorGetDataType(inputTensor);
@@ -406,7 +401,7 @@ void omTensorUnique(OMTensor *totalTensor, OMTensor *Y, OMTensor *indices,
       }
     }
     if ((count > 0) && (Y != NULL)) {
-      produceY(inputTensor, indices, sliceAxis, Y);
+      produceY(inputTensor, (int64_t *)indicesPtr, count, sliceAxis, Y);
     }
   }
   *totalPtr = count;
-- 
2.43.0


From 3a1682cf815798f9a154781b787b30e03b2f04b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:12 +0000
Subject: [PATCH 13/33] fix: look up int64 keys of 20 characters

The key was formatted into 20 bytes, so that the last digit of a 19-digit
negative number was cut and its hash disagreed with the one the compiler
built the table with.
---
 src/Runtime/OMIndexLookup.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMIndexLookup.c b/src/Runtime/OMIndexLookup.c
index 4c27f0b..22530ba 100644
--- a/src/Runtime/OMIndexLookup.c
+++ b/src/Runtime/OMIndexLookup.c
@@ -33,7 +33,8 @@ static inline uint32_t hash_string(uint32_t hval, const char *str) {
 
 // Adaptation of 32-bit FNV for int64_t values.
 static inline uint32_t hash_int64(uint32_t hval, int64_t val) {
-  char str[20];
+  // A sign, up to 19 digits, and the terminating null character.
+  char str[21];
   int num_chars_written = snprintf(str, sizeof(str), "%lld", (long long)val);
   assert(num_chars_written >= 0); // Error: "snprintf write error to str".
   return hash_string(hval, str);
-- 
2.43.0


From 650fcfac2fd94605bf4a3ca248411d9318019209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:51 +0000
Subject: [PATCH 14/33] fix: a table for keys that agree in their low bits is
 built in finite time

---
 src/Conversion/ONNXToKrnl/PerfectHash.cpp | 23 +++++++++++++++++------
 src/Conversion/ONNXToKrnl/PerfectHash.hpp |  5 +++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/Conversion/ONNXToKrnl/PerfectHash.cpp b/src/Conversion/ONNXToKrnl/PerfectHash.cpp
index be8ba0f..7ef53c9 100644
--- a/src/Conversion/ONNXToKrnl/PerfectHash.cpp
+++ b/src/Conversion/ONNXToKrnl/PerfectHash.cpp
@@ -111,21 +111,25 @@ template <typename KeyTy, typename ValueTy>
 PerfectHash<KeyTy, ValueTy>::PerfectHash(const std::map<KeyTy, ValueTy> &dict)
     : dict(dict) {
   assert(!dict.empty() && "Dictionary should not be empty");
+  // Some sets of keys cannot be told apart in a table with as many slots as
+  // there are keys: the low bits of the hash depend on the low bits of the
+  // characters only, whatever the initial hash value is. Use more slots then.
   size_t size = dict.size();
-  G.resize(size, 0);
-  V.resize(size, -1);
-  createPerfectHash();
+  while (!createPerfectHash(size))
+    ++size;
 }
 
 // Note: KeyTy is expected to be either a char* or a int64_t.
 // TODO: add a trait to ensure template cannot be instantiated with an
 // unexpected type.
 template <typename KeyTy, typename ValueTy>
-void PerfectHash<KeyTy, ValueTy>::createPerfectHash() {
+bool PerfectHash<KeyTy, ValueTy>::createPerfectHash(size_t size) {
+  constexpr int32_t maxHval = 1 << 16;
+  G.assign(size, 0);
+  V.assign(size, -1);
   LLVM_DEBUG({ Utilities::print(dict, "dict", llvm::dbgs()); });
 
   // Step 1: place all of the keys into buckets.
-  size_t size = dict.size();
   llvm::SmallVector<KeyTy> keys = Utilities::extractKeys<KeyTy, ValueTy>(dict);
   LLVM_DEBUG({ Utilities::print(keys, "keys", llvm::dbgs()); });
 
@@ -157,7 +161,8 @@ void PerfectHash<KeyTy, ValueTy>::createPerfectHash() {
       uint32_t slot = Utilities::hash(hval, bucket[item]) % size;
       if (V[slot] != -1 ||
           std::find(slots.begin(), slots.end(), slot) != slots.end()) {
-        hval++;
+        if (++hval > maxHval)
+          return false;
         item = 0;
         slots.clear();
       } else {
@@ -199,6 +204,12 @@ void PerfectHash<KeyTy, ValueTy>::createPerfectHash() {
     LLVM_DEBUG({ Utilities::print(G, "G", llvm::dbgs()); });
     LLVM_DEBUG({ Utilities::print(V, "V", llvm::dbgs()); });
   }
+
+  // A lookup of a key that is not in the dictionary may reach a free slot.
+  for (int32_t &index : V)
+    if (index == -1)
+      index = dict.begin()->second;
+  return true;
 }
 
 template class PerfectHash<int64_t, int32_t>;
diff --git a/src/Conversion/ONNXToKrnl/PerfectHash.hpp b/src/Conversion/ONNXToKrnl/PerfectHash.hpp
index b66339d..79d01a7 100644
--- a/src/Conversion/ONNXToKrnl/PerfectHash.hpp
+++ b/src/Conversion/ONNXToKrnl/PerfectHash.hpp
@@ -53,8 +53,9 @@ public:
   const llvm::SmallVector<int32_t> &getV() const { return V; }
 
 private:
-  // Creates a minimal perfect hash for the dictionary.
-  void createPerfectHash();
+  // Creates a perfect hash with the given number of slots for the dictionary.
+  // Returns false if the keys cannot be distributed over that many slots.
+  bool createPerfectHash(size_t size);
 };
 
 } // namespace onnx_mlir
-- 
2.43.0


From c86764d454ed41476e0ebcab68207d3ce60cfe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 15/33] fix: look for the constants file next to the compiled
 model

The constants file was looked for, and reported, in the current directory
instead of the directory of the output file.
---
 src/Compiler/OMCompile.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index f7b30bb..be4323e 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -675,9 +675,9 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
 
   successfullyCompiled = true;
 
-  // Check for constant file (shared logic).
-  std::string constFilename = fs::path(outputFilename).stem().string();
-  constFilename += ".constants.bin";
+  // Check for constant file (shared logic); it is located next to the output.
+  std::string constFilename =
+      fs::path(outputFilename).replace_extension(".constants.bin").string();
   if (fs::exists(constFilename))
     outputConstantFilename = constFilename;
 
-- 
2.43.0


From 407cf0eb84e2e8d9c56882c69202d11f079a5119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 16/33] fix: report a successful compilation only once nothing
 can fail anymore

Checking for the constants file can throw (name too long, for example), which
left a failed compile() with the session claiming success.
---
 src/Compiler/OMCompile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index be4323e..0f3b737 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -673,14 +673,14 @@ void OMCompile::compile(const std::string &modelPath, const std::string &flags,
         outputFilename);
   }
 
-  successfullyCompiled = true;
-
   // Check for constant file (shared logic); it is located next to the output.
   std::string constFilename =
       fs::path(outputFilename).replace_extension(".constants.bin").string();
   if (fs::exists(constFilename))
     outputConstantFilename = constFilename;
 
+  successfullyCompiled = true;
+
   if (verbose)
     std::cout << "Compilation successful. Output: " << outputFilename
               << std::endl;
-- 
2.43.0


From 376c63b214d08d2882a067f547148fcc47703b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:32 +0000
Subject: [PATCH 17/33] fix: predict the output of a model that is named by the
 flags

With an output path and the model given in the flags only, the predicted name
had no base name, unlike the one the compilation produces.
---
 src/Compiler/OMCompile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Compiler/OMCompile.cpp b/src/Compiler/OMCompile.cpp
index 0f3b737..91fafec 100644
--- a/src/Compiler/OMCompile.cpp
+++ b/src/Compiler/OMCompile.cpp
@@ -764,11 +764,13 @@ std::string OMCompile::getContainerEngineName() const {
     const std::string &modelPath, const std::string &flags,
     const std::string &outputPath) {
   std::vector<std::string> flagVect = parseFlags(flags);
+  // The input may be given by the flags, as for the compilation.
+  std::string inputFilename = onnx_mlir::getInputFilename(modelPath, flagVect);
   // Apply the output path as needed.
-  onnx_mlir::applyOutputPath(flagVect, outputPath, modelPath);
+  onnx_mlir::applyOutputPath(flagVect, outputPath, inputFilename);
   // Success, save filename of output, using an absolute path to increase
   // success of dlopen calls.
-  std::string name = onnx_mlir::getOutputFilename(modelPath, flagVect);
+  std::string name = onnx_mlir::getOutputFilename(inputFilename, flagVect);
   return getAbsolutePathUsingCurrentDir(name);
 }
 
-- 
2.43.0


From b6fa583dfcc0faac701e8cffbe6a0efe78001f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 18/33] fix: an option that starts with -o is not the output
 name

With -onnx-op-stats=TXT among the flags, the flag after it was taken for the
name of the output, unlike the compiler and applyOutputPath.
---
 src/Compiler/CommandUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Compiler/CommandUtils.cpp b/src/Compiler/CommandUtils.cpp
index 15c2b03..1dd400e 100644
--- a/src/Compiler/CommandUtils.cpp
+++ b/src/Compiler/CommandUtils.cpp
@@ -90,7 +90,7 @@ static std::string getOutputBasenameFromFlags(
       } else
         fprintf(
             stderr, "Parsing `-o=` option, expected a name. Use default.\n");
-    } else if (flagVect[i].find("-o") == 0) {
+    } else if (flagVect[i] == "-o") {
       if (i < num - 1) {
         return flagVect[i + 1];
         break;
-- 
2.43.0


From 9a29ab265feb625ab31a0680a99b740e2d5b5705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 19/33] fix: truncate wide integers to the element type in
 WideNum::toAPInt

Since LLVM 20 the APInt constructor no longer truncates (and leaves the unused
high bits set), so an element of an unsigned constant whose wide value is out
of range of its type, e.g. 300 cast to ui8, was read as 300 instead of 44.
---
 src/Dialect/ONNX/ElementsAttr/WideNum.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Dialect/ONNX/ElementsAttr/WideNum.cpp b/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
index 7b11568..430a066 100644
--- a/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
+++ b/src/Dialect/ONNX/ElementsAttr/WideNum.cpp
@@ -45,9 +45,9 @@ APInt WideNum::toAPInt(BType tag) const {
   unsigned bitwidth = bitwidthOfBType(tag);
   if (isSignedIntBType(tag))
     // Actually, isSigned flag is ignored because bitwidth <= 64.
-    return APInt(bitwidth, i64, /*isSigned=*/true);
+    return APInt(bitwidth, i64, /*isSigned=*/true, /*implicitTrunc=*/true);
   if (isUnsignedIntBType(tag))
-    return APInt(bitwidth, u64);
+    return APInt(bitwidth, u64, /*isSigned=*/false, /*implicitTrunc=*/true);
   llvm_unreachable("BType must be an integer");
 }
 
-- 
2.43.0


From c6c51e40d04fe87e0fe216275c27cd20c5b34369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:17 +0000
Subject: [PATCH 20/33] fix: number UINT4 and INT4 as ONNX does in the
 runtime's type table

The table left out FLOAT8E5M2FNUZ (20), so that compiled models, which use the
numbers of ONNX (UINT4 = 21, INT4 = 22), had FLOAT8E5M2FNUZ tensors taken for
UINT4, UINT4 for INT4, and INT4 rejected as unknown.
---
 include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc b/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
index 9e99a35..be4e24f 100644
--- a/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
+++ b/include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc
@@ -38,10 +38,11 @@ OM_TYPE_METADATA_DEF(ONNX_TYPE_BFLOAT16,       16, 2,                "bfloat16",
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E4M3FN,   17, 1,                "FLOAT8E4M3FN",    "f8e4m3fn",   "")           /* No C/C++ name. */
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E4M3FNUZ, 18, 1,                "FLOAT8E4M3FNUZ",  "f8e4m3fnuz", "")           /* No C/C++ name. */
 OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E5M2,     19, 1,                "FLOAT8E5M2",      "f8e5m2",     "")           /* No C/C++ name. */
-OM_TYPE_METADATA_DEF(ONNX_TYPE_UINT4,          20, 1 /*sub byte*/,   "UINT4",           "ui4",        "")           /* No C/C++ byte size & name. */
-OM_TYPE_METADATA_DEF(ONNX_TYPE_INT4,           21, 1 /*sub byte*/,   "INT4",            "i4",         "")           /* No C/C++ byte size & name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_FLOAT8E5M2FNUZ, 20, 1,                "FLOAT8E5M2FNUZ",  "f8e5m2fnuz", "")           /* No C/C++ name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_UINT4,          21, 1 /*sub byte*/,   "UINT4",           "ui4",        "")           /* No C/C++ byte size & name. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_INT4,           22, 1 /*sub byte*/,   "INT4",            "i4",         "")           /* No C/C++ byte size & name. */
 
-OM_TYPE_METADATA_DEF(ONNX_TYPE_LAST,           21, 0,                "OUT OF BOUND",    "OUT OF BOUND", "") /* MUST be last enum. */
+OM_TYPE_METADATA_DEF(ONNX_TYPE_LAST,           22, 0,                "OUT OF BOUND",    "OUT OF BOUND", "") /* MUST be last enum. */
 // clang-format on
 #else
 #error "Must define OM_TYPE_METADATA_DEF macro."
-- 
2.43.0


From 9d31ef43087abe4fa200e40deb96c472369ec0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:22 +0000
Subject: [PATCH 21/33] fix: mark a boolean Java tensor as boolean

setBoolData() labelled the tensor INT8, so that getBoolData() threw on it and the
model was handed an int8 tensor where it expects a boolean one.
---
 src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java b/src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java
index 87f56a7..8d9fbee 100644
--- a/src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java
+++ b/src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java
@@ -235,7 +235,7 @@ public class OMTensor {
          */
         _data = ByteBuffer.allocateDirect(data.length);
         _data.slice().put(data);
-        _dataType = ONNX_TYPE_INT8;
+        _dataType = ONNX_TYPE_BOOL;
     }
 
     /* ---------- Byte data getter and setter ---------- */
-- 
2.43.0


From 8d03ee1bcbe4558f2c3952c62463291543c62825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:28 +0000
Subject: [PATCH 22/33] fix: return string outputs to Python as the strings
 they are

A string output was given the zero-width numpy type 'str': its strings were
lost and, where the output is copied, object pointers were written past the end
of the array. Such outputs are now always copied into an array of objects, the
type in which strings are also accepted as inputs.
---
 src/Runtime/python/PyExecutionSession.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index c6697d3..01d9e02 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -118,6 +118,9 @@ static const char *omDataTypeToNumpyDtypeName(OM_DATA_TYPE type) {
 #include "onnx-mlir/Runtime/OnnxDataTypeMetaData.inc"
 #undef OM_TYPE_METADATA_DEF
   };
+  // Strings are handed out as Python objects, see copyTensorToPyArray.
+  if (type == ONNX_TYPE_STRING)
+    return "object";
   if (type >= 0 && type <= ONNX_TYPE_LAST && names[type][0] != '\0')
     return names[type];
   return nullptr;
@@ -378,7 +381,9 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
     // Check if the return value is a static constant, which cannot be freed and
     // thus would have been created with the "owning" flag being false.
     if (omTensorGetOwning(omt)) {
-      if (forceOutputDataCopy) {
+      // An array of Python strings cannot refer to the C strings of the tensor.
+      if (forceOutputDataCopy ||
+          omTensorGetDataType(omt) == ONNX_TYPE_STRING) {
         // force copy of result, leaving ownership on so that it be destroyed at
         // the end.
         outputPyArrays.emplace_back(copyTensorToPyArray(dtype, shape, omt));
-- 
2.43.0


From 58e9c1ec8f27fb56bcbdb1361ee68a0ec1d6c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:15 +0000
Subject: [PATCH 23/33] fix: free copied outputs that share their data once

A model may return one value as two outputs. With forceOutputDataCopy both tensors
still owned the data when the list of outputs was destroyed, which freed it twice.
---
 src/Runtime/python/PyExecutionSession.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index 01d9e02..9317f72 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -13,6 +13,8 @@
 //
 //===----------------------------------------------------------------------===//
 
+#include <set>
+
 #include "PyExecutionSession.hpp"
 #include "PyFloat16.hpp"
 #include "src/Runtime/OMTensorHelper.hpp"
@@ -341,6 +343,8 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   // creating two capsules for the same pointer. Otherwise, it causes double
   // free error.
   std::map<void *, py::capsule> mapPtrCapsule{};
+  // Allocated pointers of the owning outputs that have been copied.
+  std::set<void *> copiedPtrs;
   for (int64_t i = 0; i < omTensorListGetSize(wrappedOutput); i++) {
     auto *omt = omTensorListGetOmtByIndex(wrappedOutput, i);
     if (!omt) {
@@ -387,6 +391,9 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
         // force copy of result, leaving ownership on so that it be destroyed at
         // the end.
         outputPyArrays.emplace_back(copyTensorToPyArray(dtype, shape, omt));
+        // Outputs may share their data, which must be destroyed only once.
+        if (!copiedPtrs.insert(omtAllocPtr).second)
+          omTensorSetOwning(omt, false);
       } else {
         // We have a regular tensor which we will need to free at the right
         // time. Create the capsule that points to the data to be freed
-- 
2.43.0


From 2b3ab057a8e1cef177b6dea06224122eec5744dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:34 +0000
Subject: [PATCH 24/33] fix: pass the strides of the flattened data to the
 session

ravel() copies an input that is not C-contiguous, but the strides handed over with
the copy were those of the original array.
---
 src/Runtime/python/PyRuntime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Runtime/python/PyRuntime.py b/src/Runtime/python/PyRuntime.py
index 86e5960..7786495 100644
--- a/src/Runtime/python/PyRuntime.py
+++ b/src/Runtime/python/PyRuntime.py
@@ -33,6 +33,8 @@ class OMExecutionSession(OMExecutionSession_):
         pyrun_shapes = []
         pyrun_strides = []
         for inp in inputs:
+            # The strides passed below must be those of the flattened data.
+            inp = np.asarray(inp, order="C")
             pyrun_inputs.append(inp.ravel())
             pyrun_shapes.append(np.array(inp.shape, dtype=np.int64))
             pyrun_strides.append(np.array(inp.strides, dtype=np.int64))
@@ -52,6 +54,8 @@ class OMExecutionSession(OMExecutionSession_):
         pyrun_shapes = []
         pyrun_strides = []
         for inp in inputs:
+            # The strides passed below must be those of the flattened data.
+            inp = np.asarray(inp, order="C")
             pyrun_inputs.append(inp.ravel())
             pyrun_shapes.append(np.array(inp.shape, dtype=np.int64))
             pyrun_strides.append(np.array(inp.strides, dtype=np.int64))
-- 
2.43.0


From 11ac60bfe92f9b6afc58b8518fdce310a66c4956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:53 +0000
Subject: [PATCH 25/33] fix: tell outputs that share their memory by its
 allocated address

Two outputs may be views of one allocation that start at different
elements. Looking up the capsule by data pointer then created a second
capsule for the same allocation, which freed it twice.
---
 src/Runtime/python/PyExecutionSession.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Runtime/python/PyExecutionSession.cpp b/src/Runtime/python/PyExecutionSession.cpp
index 9317f72..14e3dda 100644
--- a/src/Runtime/python/PyExecutionSession.cpp
+++ b/src/Runtime/python/PyExecutionSession.cpp
@@ -339,8 +339,8 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
   // 3. Process outputs.
   TIMING_INIT_START(process_output);
   std::vector<py::array> outputPyArrays;
-  // Maintain an 1-to-1 mapping between data pointers and py::capsules, to avoid
-  // creating two capsules for the same pointer. Otherwise, it causes double
+  // Maintain an 1-to-1 mapping between allocated pointers and py::capsules, to
+  // avoid creating two capsules for the same memory. Otherwise, it causes double
   // free error.
   std::map<void *, py::capsule> mapPtrCapsule{};
   // Allocated pointers of the owning outputs that have been copied.
@@ -399,7 +399,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
         // time. Create the capsule that points to the data to be freed
         // (allocated pointer).
         py::capsule free_data_with_allocate_ptr;
-        auto it = mapPtrCapsule.find(omtDataPtr);
+        auto it = mapPtrCapsule.find(omtAllocPtr);
         if (it != mapPtrCapsule.end()) {
           free_data_with_allocate_ptr = it->second;
         } else {
@@ -408,7 +408,7 @@ std::vector<py::array> PyExecutionSession::pyRunImplementation(
               [](void *ptr) { /* Lambda function that performs the freeing. */
                 free(ptr);
               });
-          mapPtrCapsule.try_emplace(omtDataPtr, free_data_with_allocate_ptr);
+          mapPtrCapsule.try_emplace(omtAllocPtr, free_data_with_allocate_ptr);
         }
         // Set owning to false as we migrate the ownership to python
         omTensorSetOwning(omt, false);
-- 
2.43.0


From 49a8eaafff07b3e750d3b2b71a7b1294f75ea40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:01 +0000
Subject: [PATCH 26/33] fix: compute the strides of a tensor without dimensions

---
 src/Runtime/OMTensor.inc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index 04bf16c..f08b8c4 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -749,6 +749,8 @@ static inline std::vector<std::vector<int64_t>> CartProduct(
 /* Helper function to compute data strides from a size array */
 static inline std::vector<int64_t> computeStridesFromShape(
     const int64_t *dataSizes, int rank) {
+  if (rank == 0)
+    return {};
   std::vector<int64_t> sizesVec(dataSizes + 1, dataSizes + rank);
   sizesVec.push_back(1);
   std::vector<int64_t> dimStrides(rank);
-- 
2.43.0


From 203bf184f04832404adcd1561cf1b289c05db134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:01 +0000
Subject: [PATCH 27/33] fix: compute element offsets in 64 bits

---
 src/Runtime/OMTensor.inc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Runtime/OMTensor.inc b/src/Runtime/OMTensor.inc
index f08b8c4..77c03e2 100644
--- a/src/Runtime/OMTensor.inc
+++ b/src/Runtime/OMTensor.inc
@@ -763,7 +763,8 @@ static inline std::vector<int64_t> computeStridesFromShape(
 static inline int64_t computeElemOffset(
     const int64_t *dataStrides, int rank, const std::vector<int64_t> &indexes) {
   std::vector<int64_t> dimStrides(dataStrides, dataStrides + rank);
-  return inner_product(indexes.begin(), indexes.end(), dimStrides.begin(), 0);
+  return inner_product(
+      indexes.begin(), indexes.end(), dimStrides.begin(), int64_t{0});
 }
 
 /* Helper function to print a vector with delimiter */
-- 
2.43.0


From eb54469d2e3efd7912c4fa07d0855374b36b2fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:22 +0000
Subject: [PATCH 28/33] fix: report the end of an operation when only its end
 was recorded

---
 src/Runtime/OMInstrument.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index d5ccb2f..adc2b89 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -250,7 +250,7 @@ static void flushRecordBuffer() {
     bool isBefore = IS_INSTRUMENT_BEFORE_OP(tag);
     if (isBefore)
       PrintTime(&timeRecordBuffer[i].beforeTime, /*before*/ true);
-    bool isAfter = IS_INSTRUMENT_BEFORE_OP(tag);
+    bool isAfter = IS_INSTRUMENT_AFTER_OP(tag);
     if (isAfter)
       PrintTime(&timeRecordBuffer[i].afterTime, /*before*/ false);
   }
-- 
2.43.0


From 5f963643b4b3f578afebd57fce1cbac2a8d1af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:23 +0000
Subject: [PATCH 29/33] fix: keep every time of an operation that is reported
 repeatedly

---
 src/Runtime/OMInstrument.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index adc2b89..94df286 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -261,9 +261,12 @@ static void flushRecordBuffer() {
 static void updateRecordBuffer(
     const char *opName, uint64_t tag, const char *nodeName) {
   int64_t i = bufferIndex - 1;
-  if (i >= 0 && timeRecordBuffer[i].opName == opName &&
-      timeRecordBuffer[i].nodeName == nodeName) {
-    // Can reuse entry, or the tags so we have bits for both.
+  if (!IS_INSTRUMENT_BEFORE_OP(tag) && i >= 0 &&
+      timeRecordBuffer[i].opName == opName &&
+      timeRecordBuffer[i].nodeName == nodeName &&
+      !IS_INSTRUMENT_AFTER_OP(timeRecordBuffer[i].tag)) {
+    // Completes the entry of its own "before", whose "after" is still free: can
+    // reuse it, or the tags so we have bits for both.
     timeRecordBuffer[i].tag = timeRecordBuffer[i].tag | tag;
   } else {
     // Need a new entry; flush if full, then initialize entry.
-- 
2.43.0


From d41413e066c3ef14fd309c454ae6791657e7b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:23 +0000
Subject: [PATCH 30/33] fix: do not report a memory size that was never read

---
 src/Runtime/OMInstrument.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index 94df286..59ca528 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -193,14 +193,14 @@ static void ReportMemory() {
     psErrorCount++;
     return;
   }
-  (void)fgets(memOutput, 200, memPipe);
+  bool hasOutput = fgets(memOutput, 200, memPipe) != NULL;
   (void)fgetc(memPipe);
-  memOutput[strcspn(memOutput, "\n")] = 0;
-  if (!feof(memPipe)) {
+  if (!hasOutput || !feof(memPipe)) {
     fprintf(instrumentFout, ", error-unexpected-output-from-pipe\n");
     psErrorCount++;
   } else {
     // No error, print data.
+    memOutput[strcspn(memOutput, "\n")] = 0;
     fprintf(instrumentFout, ", %s\n", memOutput);
   }
   pclose(memPipe);
-- 
2.43.0


From 081d4f831de098b5acad610061867e394b24e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:23 +0000
Subject: [PATCH 31/33] fix: close the instrumentation file before it is
 forgotten

---
 src/Runtime/OMInstrument.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Runtime/OMInstrument.c b/src/Runtime/OMInstrument.c
index 59ca528..1b8a904 100644
--- a/src/Runtime/OMInstrument.c
+++ b/src/Runtime/OMInstrument.c
@@ -356,6 +356,9 @@ static void startInstrumentation() {
 /// So essentially this call make sure that all of the timeing info is printed.
 void omInstrumentPrint() {
   flushRecordBuffer();
+  // The reset forgets the file; close it so that it is complete and not leaked.
+  if (instrumentFout && instrumentFout != stdout)
+    fclose(instrumentFout);
   resetLocalState();
 }
 
-- 
2.43.0


From 896667c292e28604385034847f1869c9cf3be0ea Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 07:08:05 +0000
Subject: [PATCH 32/33] fix: refuse a constants file that is shorter than
 expected

---
 src/Runtime/OMExternalConstant.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index 02cfbce..cf8e264 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -259,6 +259,18 @@ static int mallocAndReadFile(void **constAddr, int fd, int64_t fileSize) {
 /// This function is thread-safe.
 ///
 static int mmapAndReadFile(void **constAddr, int fd, int64_t fileSize) {
+  // Pages mapped beyond the end of the file cannot be accessed.
+  struct stat st;
+  if (fstat(fd, &st) != 0) {
+    fprintf(stderr, "Error while getting the file size: %s\n", strerror(errno));
+    return 1;
+  }
+  if (st.st_size < fileSize) {
+    fprintf(stderr, "Constant file has %lld bytes but %lld are expected\n",
+        (long long)st.st_size, (long long)fileSize);
+    return 1;
+  }
+
 #ifdef __MVS__
   void *tempAddr = mmap(0, fileSize, PROT_READ, __MAP_MEGA, fd, 0);
 #else
-- 
2.43.0


From 1f1cf2be9ab04245e451e4742160ee13c177f105 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 07:08:05 +0000
Subject: [PATCH 33/33] fix: forget the address of constants that are unloaded

---
 src/Runtime/OMExternalConstant.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Runtime/OMExternalConstant.c b/src/Runtime/OMExternalConstant.c
index cf8e264..0be1fdb 100644
--- a/src/Runtime/OMExternalConstant.c
+++ b/src/Runtime/OMExternalConstant.c
@@ -189,6 +189,8 @@ bool omUnloadConstantData(void **constAddr, int64_t size) {
 #else
   munmap(ptr, size);
 #endif
+  // The constants are no longer loaded.
+  constAddr[0] = NULL;
   return true;
 }
 
-- 
2.43.0

