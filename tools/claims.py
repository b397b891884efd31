FILES = ("TLC checks the file-interface state machine (spec/PicoFiles.tla: byte-level encoders and the readers as token automata over bytes) on every scenario of the generator module; "
         "every behaviour - files put, damaged, cut at every byte, loaded, written - is replayed on the real readers and writers (ASAN build of the current tree, scratch directory), comparing return codes, "
         "every tensor bit for bit, produced files and open file descriptors. Trusts TLC, the format definitions of spec/PicoFiles.tla, the compiler and the replay driver. Bounded: enumerated small files plus seeded random and a few large ones.")
for i in range(18, 25):
    checks["C%02d" % i] = (TECH, FILES + (" PicoReader.tla additionally checks the reader automaton itself over all cuts and single-byte changes." if i in (18, 19) else ""))
IMPORT = ("TLC checks the import-and-run state machine (spec/PicoImport.tla: ONNX operator definitions, shape inference, verdict accept/may/refuse, node-by-node runs, instance histories) on every model of the generator module; "
          "every model is handed to the working tree's importer (own onnx and jinja2 stand-ins, the sandbox has neither), accepted networks are compiled against the library (ASAN) and taken through their histories, comparing refusals, outputs, "
          "parameters and memory with the specification. Trusts TLC, the operator definitions, the stand-ins for onnx/jinja2, numpy, the compiler and the drivers. Bounded: enumerated small models plus seeded samples; onnx's own shape inference and checker are not exercised.")
for i in range(25, 30):
    checks["C%02d" % i] = (TECH, IMPORT)
checks["C30"] = (TECH, "TLC checks the tools' state machine (spec/PicoTools.tla: tensors recorded as protobuf, models run on generated, image and audio data, the files each history must leave) on every history of GenC30; every one is replayed on the "
                 "working tree's two tools (own stand-ins for onnx, caffe2's runner, imageio, scipy; the sandbox has none), and every file left is loaded with the library's readers and compared bit for bit. Trusts TLC, numpy, the stand-ins. Bounded: enumerated shapes, types and seeds.")
checks["C31"] = (TECH, IMPORT + " The models reach the importer as protobuf files through its command line, in sequences sharing one directory.")
checks["C32"] = (TECH, "TLC runs shape inference over the shipped models' graphs (spec/PicoShipped.tla), decides every pairing of shipped inputs and outputs and every one-element change, and checks the inferred shapes against the data; "
                 "each model is imported from the command line, compiled (ASAN), and its reference program run on every pair. Trusts TLC and the stand-in protobuf decoder. Bounded by what is shipped; models are judged by their recorded outputs, not recomputed.")
checks["C33"] = (TECH, NUM)
checks["C34"] = (TECH, NUM + " Each behaviour is replayed twice in one process and must end with as many bytes allocated; the file-interface behaviours of GenC19-GenC24 likewise.")
checks["C35"] = (TECH, "TLC checks the tool's state machine (spec/PicoPictures.tla: a directory tree of images as pixels, the windows and scalings of each run) on every history of GenC35; every one is replayed on the working tree's tool with an own stand-in for PIL (resampling is a marked "
                 "function of image and size; real JPEG coding is not exercised), comparing every file after every run. Trusts TLC and the stand-in. Bounded: all windows of images up to 5x5, plus seeded folders.")
checks["C36"] = (TECH, "TLC checks the tools' state machine (spec/PicoModelTools.tla: recorded tensors, verdicts, saved tensors) on every history of GenC36; every one is replayed on the working tree's tools with own stand-ins for onnx, caffe2's and onnx_tf's runners, comparing verdicts, "
                 "what the model was run on and the files written. Differences between one and eight units of 2^-15 are not judged. Trusts TLC, numpy, the stand-ins. Bounded: seeded tensors.")
checks["C37"] = (TECH, "TLC steps a sample of the behaviours of every generator of the runtime and of the file interfaces (GenC37 and GenC37F instantiate them); every one is replayed on four builds of the current tree: as the Makefile compiles it, -O3, diagnostics on, "
                 "and undefined behaviour trapped (UBSAN), with freshly allocated memory filled. Trusts TLC, g++ and the replay driver. Bounded: up to 40 (files 30) partitions of each generator; one compiler, one machine.")
checks["C38"] = (TECH, "TLC checks the programs' state machine (spec/PicoPrograms.tla: images by formula, predictions, confusion counts, the ten largest outputs) on every job of GenC38; for each, the model is imported, built with its example program (ASAN) and run on "
                 "data sets and pictures written for it, comparing what is printed and the exit status. Trusts TLC, libjpeg, the stand-in protobuf decoder. Bounded: three small networks per kind, up to 1060 images, pictures of 4x4 plain fields. Five known findings of the programs themselves are recognised by program, run and failure.")
