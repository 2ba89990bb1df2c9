TS = "path-sensitive typestate analysis over LLVM IR (static analysis)"
RT = ["src/Runtime/OMTensor.inc", "src/Runtime/OMTensorList.inc", "src/Runtime/OMTensorListHelper.cpp",
      "src/Runtime/OMExternalConstant.c", "src/Runtime/OMSort.c", "src/Runtime/OMTopK.c", "src/Runtime/OMUnique.c",
      "src/Runtime/OMResize.c", "src/Runtime/OMInstrument.c", "src/Runtime/ExecutionSession.cpp",
      "src/Runtime/python/PyExecutionSession.cpp", "src/Compiler/Command.cpp", "src/Compiler/OMCompile.cpp",
      "src/Tools/binary-decoder/BinaryDecoder.cpp"]

prop("R01", "No acquired resource is lost on any exit, normal or failing",
     "Every memory block, file, descriptor, memory mapping, shared-library handle, tensor and tensor list that the "
     "runtime, the session, the Python binding or the compile driver acquires is, by the time the operation returns or "
     "fails, released, kept by an object that later releases it, or handed to the caller. This includes the paths on "
     "which a later allocation, file operation or conversion fails or an exception is thrown.",
     ["inputs", "fault_sequences"],
     "every path of every built runtime/session/driver function, each acquisition succeeding or failing",
     "error exits need a failing malloc/open/mmap/dlopen or a throwing conversion at one specific point; no test injects any",
     RT, [("explicit frees on error paths, unique_ptr guards, list/tensor destroy routines", "src/Runtime")],
     TS, "Sound up to the modelled library (acquire/release tables) and bounded only by joins; exceptions considered are "
         "explicit throws, not allocation failure inside the C++ library. Ownership handed to outside code ends tracking.")

prop("R02", "Nothing is released twice, used after release, or released the wrong way",
     "No operation of the runtime, session, Python binding or compile driver releases the same resource twice, touches "
     "a resource it has released, releases something it has handed to another owner, or releases a resource with a "
     "routine that does not match how it was acquired.",
     ["inputs", "fault_sequences"],
     "every path of every built runtime/session/driver function, each acquisition succeeding or failing",
     "a double release appears only on particular failure combinations, which the tests never produce",
     RT, [("release routines and the ownership transfers between tensors, lists and arrays", "src/Runtime")],
     TS, "Same engine and assumptions as R01.")

prop("R03", "The result of a failed acquisition is never used",
     "When an allocation, file open, mapping, library load, tensor or list creation fails, the runtime, session, Python "
     "binding and compile driver never dereference, map, close or otherwise use the failed result: they report failure "
     "or carry on without it.",
     ["fault_sequences", "inputs"],
     "every acquisition site, on its failure outcome, to every exit",
     "needs each individual acquisition to fail; the tests run with everything succeeding",
     RT, [("null / -1 / MAP_FAILED checks after each acquisition", "src/Runtime, src/Compiler")],
     TS, "Every acquisition is split into success and failure; same engine and assumptions as R01.")

SESS = ["src/Runtime/ExecutionSession.cpp", "src/Runtime/ExecutionSession.hpp", "src/Runtime/python/PyExecutionSession.cpp"]

prop("R05", "A session never calls a model function that is missing or not loaded",
     "Every public operation of an execution session (C++ and Python) on a session without a loaded model, or without a "
     "selected entry point where one is needed, ends in a session exception and never calls into the model. A function the "
     "model library does not export is never called, and a run whose entry point returns no output, or the selection of an "
     "entry point that does not exist, always ends in an exception rather than a normal return.",
     ["histories", "inputs", "fault_sequences"],
     "every public session method in every session state, every library symbol present or missing",
     "needs model libraries with missing symbols, calls before or after failed loads, and entry points that fail; there is "
     "no session test in the suite that runs here",
     SESS, [("initialised flag and null tests before each call through a library symbol", "src/Runtime/ExecutionSession.cpp")],
     "typestate analysis of calls through library symbols over LLVM IR (static analysis)",
     "All paths of every public session method with helpers inlined; symbols not tested at the call must be guaranteed by "
     "all successful exits of the load routine. Decides that calls are guarded, not what the model does.",
     state=[("loaded flag, library handle, symbol fields", "what a load established", "src/Runtime/ExecutionSession.hpp")])

prop("R06", "A guarded run restores every signal handler and turns signals into exceptions",
     "A debug run with signal protection catches every crash signal (segmentation fault, bus error, floating-point error, "
     "illegal instruction, abort) raised while the model runs, now and in later guarded runs of the process, and reports it "
     "as an exception. On every exit, normal, exceptional or after a signal, each signal has exactly the handler it had before.",
     ["histories", "fault_sequences"],
     "every path through a guarded run: success, failed run, signal",
     "no test installs handlers, crashes a model or looks at dispositions afterwards",
     SESS, [("per-signal save and restore around the entry-point call, jump out of the handler", "src/Runtime/ExecutionSession.cpp")],
     "per-signal save/restore typestate analysis over LLVM IR (static analysis)",
     "All paths; loops with constant trip counts are unrolled. Signals delivered between installation and the jump point, and "
     "what the interrupted code left behind, are not considered.")

prop("R07", "A failed model load leaves nothing behind; a loaded session closes once",
     "Whatever makes the load of a model fail (missing library, missing symbol, missing entry point), the session stays "
     "unloaded, the library is closed, and the environment variable that locates the model's constants is as it was before; "
     "a successful load also restores that variable and never overrides one set by the user. A load into a loaded session "
     "is refused without changing it, and the end of a session closes its library exactly once.",
     ["histories", "fault_sequences"],
     "every exit of the load routine and constructors with each library and environment query succeeding or failing",
     "failures need crafted libraries lacking one symbol each; the suite never loads a model",
     SESS, [("scope guard in the load routine, destructor", "src/Runtime/ExecutionSession.cpp")],
     "resource and environment ledger over all paths of LLVM IR (static analysis)",
     "All paths of load, constructors and destructor; setenv/unsetenv/dlopen/dlsym outcomes enumerated. Allocation failure "
     "inside the C++ library is not considered.")

prop("R08", "Arrays and tensors cross the Python boundary intact and freed once",
     "Running a model from Python passes each input array on as one tensor with that array's data, shape and strides, only when its data is contiguous "
     "and the counts of arrays, shapes and strides agree; a read-only array is copied so that the model cannot change it, and Python's memory is never released with the tensor. "
     "Each output becomes, in order, an array of its type, shape and data, strings included, copied when copies were asked for or the tensor does not own its memory. "
     "Memory handed over is released exactly once, with the last array that uses it, at the address that was allocated, even when outputs share it.",
     ["inputs", "programs"],
     "every path of run and of generated inputs, over every combination of read-only/string/owning/forced-copy/shared outputs",
     "no test in the stable suite loads the Python binding; sharing, aligned data, constants and read-only inputs each need a particular model",
     ["src/Runtime/python/PyExecutionSession.cpp"],
     [("inputs from arrays", "src/Runtime/python/PyExecutionSession.cpp pyRun"),
      ("outputs to arrays", "src/Runtime/python/PyExecutionSession.cpp pyRun, pyFillInputDebug")],
     "path-sensitive provenance and ownership analysis over LLVM IR (static analysis)",
     "Loops over arrays are walked up to four rounds; pybind11 and the C++ library are modelled by what their calls do to the values tracked.")

prop("R13", "Sort, TopK and Unique rank elements by their exact value",
     "For every element type they support and both directions, Sort and TopK rank any two elements by their full numeric value "
     "in the requested direction, and equal elements by position; sorted Unique compares values the same way. No pair "
     "is ranked by a truncated, rounded, re-interpreted or overflowing view of its values. TopK gives up a kept element only "
     "for one that ranks before it, and puts the kept ones in the requested order.",
     ["inputs"],
     "every pair of elements and positions, every supported element type, both directions",
     "the test models rank a few values of one or two element types; the wrong order shows only for particular pairs (sign bit, "
     "ties, large values) of a particular type",
     ["src/Runtime/OMSort.c", "src/Runtime/OMTopK.c", "src/Runtime/OMUnique.c"],
     [("comparator per (type, direction), and its uses in sort and top-k", "src/Runtime/OMSort.c getCompareFunction, "
       "src/Runtime/OMTopK.c omTensorTopK, src/Runtime/OMUnique.c isLessNum")],
     "partial evaluation of the comparator choice per type and direction, abstract interpretation of each comparator over the "
     "finite domain of orderings (static analysis)",
     "Decides the ranking and its use, not the sorting algorithm around it (heap indices, slice offsets).")

prop("R14", "Kernels and tensor operations keep no state between calls",
     "The kernels that compiled models call and the tensor operations keep nothing in static, thread-local or hidden library "
     "state, so what they compute depends on their arguments only and calls on different tensors can run concurrently or in any "
     "order. Random-value kernels apply the seed they are given before the first value is drawn. Instrumentation, the seed of "
     "generated test data and what a signal handler shares with a guarded run are the only exceptions.",
     ["histories", "schedules"],
     "every runtime kernel and tensor operation, every sequence or interleaving of calls",
     "state that survives a call shows only in particular sequences of calls or under concurrency; tests call each kernel in isolation",
     ["src/Runtime/OMSort.c", "src/Runtime/OMTopK.c", "src/Runtime/OMUnique.c", "src/Runtime/OMResize.c",
      "src/Runtime/OMRandomNormal.c", "src/Runtime/OMRandomUniform.c", "src/Runtime/OMIndexLookup.c", "src/Runtime/OMTensor.inc",
      "src/Runtime/OMTensorList.inc", "src/Runtime/OMTensorHelper.cpp", "src/Runtime/OMTensorListHelper.cpp"],
     [("absence of writes to static storage", "src/Runtime, except OMInstrument.c"), ("srand before rand", "src/Runtime/OMRandom*.c")],
     "interprocedural effect analysis over LLVM IR, must-precede dataflow for seeding (static analysis)",
     "Does not follow the address of a global once it is stored in memory.")

prop("R19", "A missing tensor is never touched",
     "Destroying, reading or setting any attribute of an absent tensor or tensor list does nothing or returns the neutral value, "
     "and absent attribute arrays are ignored. Optional outputs of an operator that are left out (the indices, inverse "
     "indices, counts or values of Unique, in any combination) are never written, while the others still are; the Sort, TopK, "
     "Unique, Resize and random kernels return without touching memory when their input or output is absent.",
     ["inputs"],
     "every exported tensor, list and kernel routine that accepts an absent argument, every combination of optional outputs",
     "tests pass complete arguments; each combination of missing outputs takes its own path",
     ["src/Runtime/OMTensor.inc", "src/Runtime/OMTensorList.inc", "src/Runtime/OMUnique.c", "src/Runtime/OMSort.c",
      "src/Runtime/OMTopK.c", "src/Runtime/OMResize.c", "src/Runtime/OMRandomUniform.c"],
     [("null tests before use", "exported routines of src/Runtime")],
     "nullness analysis by path-sensitive abstract interpretation per absent argument (static analysis)",
     "The table of arguments that may be absent is frozen in the rule.")

prop("R09", "Constants kept in a file are exactly that file's bytes, once",
     "Loading maps the first bytes of the named file, as many as recorded however many, read-only, from the directory given in the environment if there is one, "
     "and sets the address only then; a missing or short file, a size below one, the other byte order or a failing system call is reported instead and leaves the address unset. "
     "Loading again changes nothing, files and names are released on every path, a constant's address is the base plus its whole offset, and unloading releases all of it once and lets it be loaded again.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "each combination of a directory given or not, sizes of one byte to beyond 8 GB, offsets beyond 2 and 8 GB, missing, short and longer files, failing mapping and memory, and loading, unloading and loading again; names and directories are arbitrary",
     "no test loads such a file; a truncated size, a path without room or a leaked file shows only for huge files, long names or failing calls",
     ["src/Runtime/OMExternalConstant.c"],
     [("loading, addresses and unloading", "src/Runtime/OMExternalConstant.c")],
     "abstract interpretation of the compiled routines, names and lengths being terms and the system's answers enumerated, comparing what is opened, mapped, set and released with the request (static analysis; nothing is run)",
     "The z/OS variant that reads the file, calls from several threads, and the code the compiler emits to call these routines are not covered.")

prop("R10", "A profiled run reports each of its points once, in order",
     "Each point that asks for its time or memory size is reported exactly once, in order, under its own names and mark (also when an operation repeats, nests, "
     "or only its end is marked, and when the store of times fills up), with the time since the previous one and since the start, after one heading. "
     "Kinds of report that are disabled take and write nothing, reports are added to the file named and it is closed when printed, a later run reports as a first one does, "
     "and the current point can always be read.",
     ["histories", "inputs", "configurations"],
     "every kind of point in histories of up to a dozen calls, every length of names a tag can hold at its bounds, each environment variable, failing files and commands, and the store of times one short of full and full",
     "the one test of it makes seven calls and compares nothing with what was printed; a lost record, a name copied too far or a file left open shows only for particular sequences",
     ["src/Runtime/OMInstrument.c", "include/onnx-mlir/Runtime/OMInstrument.h"],
     [("recording and printing", "src/Runtime/OMInstrument.c"), ("the tag", "include/onnx-mlir/Compiler/OMCompilerRuntimeTypes.h")],
     "abstract interpretation of the compiled routines along call histories, names, times and files being uninterpreted terms, comparing the text handed to the output with the points (static analysis; nothing is run)",
     "Longer histories are taken to behave as the ones followed. What `ps` prints, calls from several threads, and the Windows variant are not covered.")

prop("R12", "Tensors and lists keep and report what they are given",
     "A created tensor has exactly the data, shape, rank, type and ownership asked for, with dense row-major strides; an empty one owns a "
     "buffer of exactly the bytes its elements take. Each getter reports its attribute, each setter changes only its own, entry by entry, sizes "
     "are the product of the shape (times the element width for bytes), elements are found at the sum of indexes times strides, and a list keeps its tensors in order "
     "and answers by index within its bounds. Printing (up to six dimensions, of the types it supports) shows every element once, in order, as its own type, and the message's text and formats in order.",
     ["inputs"],
     "every routine that creates, reads, sets, sizes, lists or prints tensors, in C and C++, for ranks 0 to 4 (printing to 6) and every element type, all other values being arbitrary",
     "the tests create a few small tensors; a wrong rank, type, width or conversion shows only for particular ranks, types, signs or sizes",
     ["src/Runtime/OMTensor.inc", "src/Runtime/OMTensorList.inc", "include/onnx-mlir/Runtime/OMTensor.h"],
     [("creation, setters, getters, sizes, printing", "src/Runtime/OMTensor.inc"), ("lists", "src/Runtime/OMTensorList.inc")],
     "abstract interpretation of the compiled routines over uninterpreted terms, per rank and element type, comparing memory and printed text with the arguments (static analysis; nothing is run)",
     "Ranks above 4 (6 when printing) are taken to behave alike. Types printing does not support (bfloat16, complex, 8-bit and 4-bit) and random data are not covered.")

prop("R17", "Compiled lookup tables and the runtime lookup agree",
     "For every dictionary of strings or 64-bit integers the compiler builds a table in finite time, and the runtime's lookup "
     "of any of its keys finds exactly the value recorded for it. Both hash the whole text of a key (the full signed decimal "
     "text of an integer) with the same steps from the same start for every seed, reduce it the same way, read the same sign "
     "as a direct slot, and decode a slot as it was recorded; no slot is given to two keys.",
     ["inputs"],
     "every key, seed and table size, strings and integers",
     "the two sides are in different programs and the tests pin a few tables; a difference shows only for particular keys "
     "(non-ASCII, long, negative 19-digit integers)",
     ["src/Conversion/ONNXToKrnl/PerfectHash.cpp", "src/Runtime/OMIndexLookup.c"],
     [("hash, seed search and slot encoding", "src/Conversion/ONNXToKrnl/PerfectHash.cpp"), ("lookup", "src/Runtime/OMIndexLookup.c")],
     "canonical-expression comparison of the hash loops and slot codings on both sides, over LLVM IR (static analysis)",
     "Keys with an embedded null character and the lowering that embeds the tables in a model are not covered.")

prop("O01", "A compiler option is set, read back and cleared as itself",
     "Each kind of option that is set reads back as its own flag with the whole text passed (flags for the LLVM tools add up in order, the rest replace), changes no other kind, and is gone when cleared. "
     "Levels other than 0 to 3 and unknown accelerators are refused and change nothing; a list is applied in order up to the first refused. "
     "The LLVM tools are told the Z level of the architecture (else of the processor, capped at 14), arm64 for Apple machines and any other name as given; strings under a key are added at the end asked for, in order, and all equal ones are deleted.",
     ["inputs", "histories", "configurations"],
     "every kind of option, set over nothing and over everything else set, set twice and cleared, with arbitrary texts; every machine name the code knows and others in each pair; lists of up to five strings",
     "no test sets an option; one that leaks into another, survives being cleared, or is lost when set twice shows only in particular sequences",
     ["src/Compiler/CompilerOptions.cpp", "src/Compiler/CompilerOptions.hpp"],
     [("setting, reading and clearing options, machine names, configuration lists", "src/Compiler/CompilerOptions.cpp")],
     "abstract interpretation of the compiled routines over symbolic texts along short call sequences, comparing what is read back with what was passed (static analysis; nothing is run)",
     "The command-line declarations, the environment, the library path and instrumentation flags are not covered; NNPA is not built here. A library call the rules do not know is noted and its path left out.")

prop("D01", "Running an external command",
     "A command's program is started in a child with exactly the command's arguments, both output streams sent to the log file "
     "if one was requested, and is waited for even when the wait is interrupted; its exit status is returned unchanged, and "
     "death by a signal or a failure to start a child becomes the documented exception. However the run ends, the caller's "
     "working directory is the one it had before (or restoring it was tried and failed). A program that cannot be started gives "
     "exit status 16 if missing, 17 if not executable, 18 otherwise, and the child never runs the caller's code.",
     ["fault_sequences"],
     "every path through the run, each system call failing or succeeding, every exit status and signal",
     "tests run a few commands that succeed; failures of fork, of waiting, of changing directory and signals are hard to provoke",
     ["src/Compiler/Command.cpp", "src/Compiler/Command.hpp"],
     [("run of a command", "src/Compiler/Command.cpp: exec")],
     "path-sensitive abstract interpretation (typestate of process, working directory, redirections, errno; wait status as bit "
     "fields) over LLVM IR (static analysis)",
     "Windows code is not built here. A filesystem exception from reading the current directory is accepted.")

prop("D02", "A compilation's outcome is what the session reports",
     "A compile request starts the right compiler once, only after the input model was found, with the given flags (adapted to "
     "the output directory) followed by the model if it was passed separately, its output logged exactly if asked. It succeeds "
     "only if the compiler reported success and the output file exists afterwards; the session then gives the absolute output "
     "name, the constants file next to it if there is one, and the tag. However a request fails - missing input, compiler that "
     "cannot run, crashes or reports an error, missing output, file system error - the session has no compiled model afterwards, "
     "and asking for its names is an error.",
     ["histories", "fault_sequences"],
     "every path through a request, with any earlier request before it; every combination of given and missing arguments",
     "tests never run a request that fails after one that succeeded, nor make the file system or the compiler fail at each point",
     ["src/Compiler/OMCompile.cpp", "src/Compiler/OMCompile.hpp"],
     [("compile, accessors", "src/Compiler/OMCompile.cpp")],
     "path-sensitive abstract interpretation over string terms, file-existence facts and member typestate in LLVM IR (static analysis)",
     "The command line of the container mode is followed but only its outcome is judged. Out-of-memory is not followed.")

prop("D03", "Predicted names are the compiled names",
     "For all arguments, the predicted input, output and tag are exactly the ones a compilation with the same arguments looks "
     "for, produces and reports, whether the model is passed separately or named in the flags and with or without an output "
     "directory. Predicting the input fails exactly when there is none, and a prediction neither runs anything nor looks at files.",
     ["inputs"],
     "every model path, flag string and output directory",
     "tests compare a few literal names; the two computations are written twice and can drift apart for some combination",
     ["src/Compiler/OMCompile.cpp", "src/Compiler/CommandUtils.cpp"],
     [("predictions and compile", "src/Compiler/OMCompile.cpp")],
     "term equivalence of the names built on both sides by abstract interpretation of LLVM IR (static analysis)",
     "The name helpers are uninterpreted functions here, with the axioms listed in DESIGN.md.")

prop("D04", "Options decide the names",
     "For every list of flags: the output is named after the first option that gives it a name, or else after the model without "
     "its extension, with the suffix of the requested kind of output; the model is the one passed separately or else the first "
     "flag that is no option and ends like a model file; the tag is that of the first tag option. An output directory is put "
     "before a name without one, or added with the model's base name, and nothing else changes. Relative names become absolute.",
     ["inputs"],
     "every list of flags: any number, order, length and content",
     "tests use a few literal flag strings; order, repeated options, look-alike options and dots in names are not sampled",
     ["src/Compiler/CommandUtils.cpp"],
     [("name helpers", "src/Compiler/CommandUtils.cpp")],
     "abstract interpretation of LLVM IR with string terms; loop-iteration summaries of flag searches (static analysis)",
     "")

prop("D05", "Flag strings are split as documented",
     "For every flag string, the flags are exactly the runs of characters between whitespace that is neither quoted nor escaped: "
     "quotes and escaping backslashes are removed, an escaped character and the other kind of quote stay as they are, any "
     "whitespace character separates, and there are no empty flags and none is lost at the end.",
     ["inputs"],
     "every string, through all combinations of quoting, escaping and position in a word",
     "tests split a few literal strings; the state machine has transitions no test takes",
     ["src/Compiler/CommandUtils.cpp"],
     [("splitting", "src/Compiler/CommandUtils.cpp")],
     "finite-state abstraction of the loop checked in lockstep with the specification automaton (static analysis)",
     "")

prop("E01", "An element type means the same everywhere in the compiler",
     "For each element type of constants, its number is ONNX's, and its C++ type, MLIR type, width, kind, signedness and wide form "
     "(double, signed or unsigned 64 bits) agree, in both directions and for MLIR types of any signedness. Every value of the type "
     "survives widening and narrowing, and reading it as any other number type or as an arbitrary-precision number gives that "
     "value, cut to the width of the type if it does not fit. Small floats use the format of their own type, are rounded to nearest even "
     "from float, and compare as values (zeros equal, NaN unequal).",
     ["inputs"],
     "every element type, and all values of each, symbolically",
     "a table entry or switch case for one type and one direction is wrong for some values only; tests sample a few types and values",
     ["src/Dialect/ONNX/ElementsAttr/BType.hpp", "src/Dialect/ONNX/ElementsAttr/BType.cpp",
      "src/Dialect/ONNX/ElementsAttr/WideNum.hpp", "src/Dialect/ONNX/ElementsAttr/WideNum.cpp", "src/Support/SmallFP.hpp",
      "src/Support/SmallFP.cpp"],
     [("tags and tables", "src/Dialect/ONNX/ElementsAttr/BType.hpp"), ("wide numbers", "src/Dialect/ONNX/ElementsAttr/WideNum.hpp"),
      ("small floats", "src/Support/SmallFP.hpp")],
     "specialisation by the compiler's optimiser and comparison of normal forms with specification functions (static analysis; nothing is run)",
     "Arbitrary-precision floats and MLIR type queries are modelled; the two 16-bit conversion routines are uninterpreted here.")

prop("E03", "The pool of constants is thread safe and loses or leaks none",
     "Constants may be created from several threads at once: each gets an identity of its own, and the pool's table and its open flag "
     "are only used under the pool's lock. A constant made while the pool is open is recorded and handed out as it is; after closing, "
     "a dense copy made before its buffer is released is handed out instead. Garbage collection releases and forgets exactly the constants "
     "no operation of the module refers to, and scrubbing replaces each constant by its own dense value, made by some worker before its "
     "buffer is released, and leaves the pool empty.",
     ["schedules", "histories"],
     "every interleaving of creating threads and workers, every module and set of recorded constants",
     "the functions are not reached by the tests that run here, and a lost lock or a batch fetched twice shows only in rare interleavings",
     ["src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp", "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp"],
     [("creation", "src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp"), ("collection and scrubbing", "src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp")],
     "lock-set analysis and event-order rules over all paths of the pool's functions, with symbolic containers and iterators (static analysis)",
     "")

prop("E06", "A constant reads the same through every view and derivation",
     "Whatever its storage (shared buffer in another order or of another type, pending conversion of its elements, one value for all), a "
     "constant's wide numbers, typed array, raw bytes, single elements, splat value, dense copy, comparison with a value and printed form "
     "show the same elements, in order. Constants transposed, reshaped, expanded, cast or transformed from another keep its elements through its "
     "own buffer, strides and pending conversion, in the order applied, and are given a number type only that their numbers are of. Combining "
     "or selecting from operands takes each operand's elements at its own positions, in its own place, and takes one value for all elements only of a splat.",
     ["inputs", "histories"],
     "every constant representation and every path of the reading and building functions",
     "the wrong elements show only for certain storage (expanded, cast but untransformed, permuted, splat), which tests of this class that run here do not build",
     ["src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp", "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp",
      "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp", "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp"],
     [("reading", "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp"), ("building", "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp")],
     "abstract interpretation of every path with terms for order, encoding and transformation of each memory region, and for the parts constants are built from (static analysis; nothing is run)",
     "The positions strides arithmetic yields are not judged (E04); operations that copy elements one by one (concatenate, slice, pad, gather, "
     "scatter, reduce, multiply) are only checked for using numbers together with their strides.")

prop("E02", "An element type means the same in every layer of the runtime",
     "The runtime numbers each element type as ONNX does, and gives it the width of its representation wherever sizes are computed. The "
     "names of a type in model signatures (including the aliases for float and double), its C++ types, its numpy types in both "
     "directions of the Python bindings, and the tables of the scripts and of the Java API all denote that same type. Names and "
     "numbers that are not those of a type are given neither a type nor a size.",
     ["inputs"],
     "every element type in every table and mapping, and a set of unknown names and numbers next to them",
     "tests look at one or two common types; a wrong entry shows only in models with that type, in that language",
     ["include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc", "include/onnx-mlir/Runtime/OnnxDataType.h", "include/onnx-mlir/Runtime/OMTensor.h",
      "src/Runtime/OMTensorListHelper.cpp", "src/Runtime/python/PyExecutionSession.cpp", "utils/RunONNXModel.py",
      "src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java"],
     [("tables", "include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc"), ("signatures", "src/Runtime/OMTensorListHelper.cpp"),
      ("python", "src/Runtime/python/PyExecutionSession.cpp"), ("scripts", "utils/RunONNXModel.py"), ("java", "src/Runtime/jni/src/com/ibm/onnxmlir/OMTensor.java")],
     "specialisation by the compiler's optimiser, constant folding of each mapping, and queries over the Python and Java syntax trees (static analysis; nothing is run)",
     "A mapping that does not fold to a constant is reported as a note in the evidence, not judged.")

# ---------------------------------------------------------------- not decided by this family

prop("C01", "A compiled model computes what ONNX defines",
     "For every valid ONNX model the compiler accepts, the model library it produces computes, for every input, the outputs the ONNX "
     "operators' definitions give, with any set of optimisation and target options. Shapes and types of the outputs are those shape "
     "inference promised.",
     ["programs", "inputs", "configurations"],
     "every model, every input tensor, every option set",
     "backend tests run each operator on a few small tensors",
     ["src/Conversion", "src/Dialect/ONNX", "src/Transform", "src/Compiler"],
     [("lowering", "src/Conversion"), ("shape inference", "src/Dialect/ONNX")], "", "",
     na="functional equivalence of a model and its lowering quantifies over run-time tensors and shapes: no syntactic or dataflow fact about "
        "the lowering's source decides it (it needs a semantics of both sides and a prover, or execution), and these files are not "
        "compiled in this sandbox (full MLIR/ONNX builds are missing), so their typed form is not available either")

prop("E04", "Views of constants address the right element",
     "For every shape and every sequence of transposes, expansions, reshapes and slices of a constant, each position of the view reads the "
     "element of the original that the operations map it to, and copying a view in order yields exactly those elements.",
     ["inputs", "histories"],
     "every shape, stride vector and sequence of view operations",
     "tests use a handful of small shapes",
     ["src/Dialect/ONNX/ElementsAttr/Strides.cpp", "src/Dialect/ONNX/ElementsAttr/StridesRange.hpp",
      "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp"],
     [("stride arithmetic", "src/Dialect/ONNX/ElementsAttr/Strides.cpp")], "", "",
     na="the positions are products and sums over run-time ranks, shapes and strides, with divisibility conditions for reshapes; proving the index "
        "arithmetic needs inductive non-linear invariants (a prover's job), and a syntactic comparison with a frozen formula would judge how "
        "the code is written, not what it does")

prop("E05", "16-bit floats are rounded correctly",
     "Converting a float to half precision or bfloat16 gives the nearest representable value, ties to even, with overflow to infinity, gradual "
     "underflow and NaN kept; converting back is exact. The runtime's routines and the compiler's agree.",
     ["inputs"],
     "every one of the 2^32 floats and 2^16 small floats",
     "a test may sample, and the benchmark test here prints rather than checks",
     ["src/Support/SmallFPConversion.c", "src/Support/SmallFPConversion.h", "src/Support/SmallFP.cpp"],
     [("conversion", "src/Support/SmallFPConversion.c")], "", "",
     na="the routines are bit tricks relying on float multiplication rounding (scale up and down); their correctness is a statement about all bit "
        "patterns that needs bit-precise solving or exhaustive execution. E01 checks that these routines are the ones used, on the right bits")

prop("R04", "Kernels compute the operator's numbers",
     "For every input, the runtime kernels for Resize, Unique, Sort, TopK and the random distributions compute the values, shapes and "
     "distributions the ONNX operators define, up to the documented rounding.",
     ["inputs"],
     "every shape, attribute and value",
     "unit tests cover a few shapes and modes",
     ["src/Runtime/OMResize.c", "src/Runtime/OMUnique.c", "src/Runtime/OMTopK.c", "src/Runtime/OMSort.c", "src/Runtime/OMRandomNormal.c",
      "src/Runtime/OMRandomUniform.c"],
     [("resize", "src/Runtime/OMResize.c"), ("unique", "src/Runtime/OMUnique.c")], "", "",
     na="interpolation weights, slice offsets and distributions are arithmetic over run-time shapes and values, which no sound static argument in "
        "reach bounds. The parts that are finite (comparators, element types, seeds, absent outputs) are decided by R13, R14 and R19")

prop("C02", "Compilation ends and reports errors for any input file",
     "For every input file, well formed or not, and every option set, the compiler ends, and either produces a complete output or reports an "
     "error without leaving a partial output behind.",
     ["inputs", "configurations", "crash_points"],
     "every file content and every option set",
     "tests feed valid models only",
     ["src/Builder", "src/Compiler/CompilerUtils.cpp", "src/onnx-mlir.cpp"],
     [("import", "src/Builder"), ("pipeline", "src/Compiler/CompilerUtils.cpp")], "", "",
     na="termination and totality over arbitrary protobuf contents depend on LLVM, MLIR and protobuf internals whose sources are not here, and the "
        "importer is not compiled in this sandbox; the driver around the compiler is covered by D01 and D02")
