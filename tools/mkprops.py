#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

T = "pico-cnn/tensor.cpp"; TH = "pico-cnn/tensor.h"
L = "pico-cnn/layers/"; A = L + "activation_functions/"; PO = L + "pooling/"; IO = "pico-cnn/io/"; OI = "onnx_import/"

p("C01", "Tensors start zeroed and address their elements in row-major order",
  "A tensor created with rank 1 to 4 holds exactly the product of its dimensions as elements, all equal to +0, and reports the element count, byte size, rank, batch/channel count, height and width that its shape implies. The multi-index accessors, the flat accessor and the per-channel pointer all name the same row-major element, distinct in-range indices name distinct elements, and a write through one of them is seen through every other one and changes no other element of this or any other tensor.",
  ["inputs", "histories"], "every shape of rank 1..4, every in-range index, every sequence of writes",
  "The unit tests create a handful of tensors with one fixed shape each and read back a few positions; an addressing slip that needs unequal dimensions, a second batch or a large channel count is not exercised.",
  [T, TH], [("constructors and value-initialised allocation", T + ":Tensor::Tensor"), ("inline index arithmetic", TH + ":access"), ("channel pointer", T + ":get_ptr_to_channel")],
  ["public Tensor API"], [("data_", "row-major element store", TH), ("shape_", "dimensions", TH)])

p("C02", "Padding embeds a tensor exactly and fills the whole border",
  "Padding a tensor of rank 2, 3 or 4, either into a newly created tensor or into an existing one of the padded shape, yields a tensor whose interior, displaced by the top and left amounts (left only for rank 3), equals the source bit for bit and whose every other element equals the given initialiser. This holds for asymmetric and zero amounts, for any initialiser, for every batch and channel, and whatever the destination contained before; the source is not changed.",
  ["inputs", "configurations", "histories"], "every rank-2..4 shape, every quadruple/pair of padding amounts, every initialiser, every previous content of the destination",
  "The tests pad small tensors with a few amounts into fresh zeroed destinations; asymmetric amounts on non-square tensors with several batches, non-zero initialisers and dirty destinations are a product space they sample at a few points.",
  [T], [("expand_with_padding / copy_with_padding_into", T)], ["public Tensor API"])

p("C03", "Copy, addition, channel addition and scaling act elementwise",
  "Copying a tensor into another with the same number of elements reproduces the elements in order bit for bit; adding a tensor adds corresponding elements in place; adding one channel adds exactly that batch's and channel's elements; multiplying by a factor writes every product into the destination. Each operation changes only its stated destination elements and no other tensor, and works the same when both operands are the same tensor.",
  ["inputs", "histories"], "all tensor shapes of rank 1..4, all element values, all channel/batch selections, aliased and distinct operands, arbitrary sequences of these operations",
  "Tests call each operation once on one small tensor; frame conditions (what must not change), aliasing and channel selection in multi-batch tensors are not examined.",
  [T], [("copy_data_into / add_tensor / add_channel / mul_with_factor", T)], ["public Tensor API"])

p("C04", "Concatenation along the channel axis keeps every element in order",
  "Concatenating any number of tensors of equal rank 2, 3 or 4 along dimension 1 into a destination whose dimension 1 is the sum of theirs places the inputs one after the other along that dimension, in argument order and bit for bit, for every batch. Inputs are not changed, the same tensor may appear several times, and every destination element is written.",
  ["inputs", "configurations"], "all input counts, per-input channel counts, ranks 2..4, spatial sizes, batches and element values",
  "The tests concatenate two or three equally shaped rank-4 tensors; unequal channel counts, rank 2 and 3, repeated inputs and several batches are not reached.",
  [T, OI + "pico_cnn.py"], [("concatenate_from", T)], ["public Tensor API"])

p("C05", "Tensor equality means same shape and elementwise closeness",
  "Two tensors with finite elements compare equal exactly when they have the same rank and the same dimensions and every pair of corresponding elements differs by less than 0.0001 in absolute value. The comparison is symmetric, does not depend on where the differing element is, reads nothing outside either tensor and changes neither.",
  ["inputs"], "all pairs of shapes of rank 1..4 and all finite element values, with the differing position anywhere",
  "Every other unit test relies on this operator as its oracle, so they cannot question it: an operator that overlooks a position or a shape difference only makes them pass more easily.",
  [TH, "pico-cnn/utils.h"], [("operator==", TH), ("fp_t_eq", "pico-cnn/utils.h")], ["public Tensor API"])

p("C06", "2-D convolution equals the ONNX Conv definition",
  "For a rank-4 single-batch input, odd kernel height and width, any strides, any asymmetric zero padding and any group count dividing the channel counts, the convolution layer writes to every output element the bias of its output channel (if given) plus the sum over its group's input channels and kernel positions of weight times (zero-padded) input. The output has floor((in+pads-kernel)/stride)+1 rows and columns, every element of it is overwritten, and the previous content of the output has no influence.",
  ["inputs", "configurations"], "all input sizes, kernel sizes (odd, not necessarily square), strides per axis, 4 pad amounts, group counts, with and without bias, all values whose sums are exactly representable",
  "About ten fixed configurations are tested, mostly square, stride 1 and ungrouped; the geometry space is a product of more than ten parameters and interactions (group x stride x asymmetric pad) are not sampled.",
  [L + "convolution.cpp"], [("group/channel accumulation", L + "convolution.cpp:run"), ("window loop", L + "convolution.cpp:convolve")], ["Convolution::run"])

p("C07", "1-D convolution equals the ONNX Conv definition",
  "For a rank-3 single-batch input, an odd kernel width, any stride, any left/right zero padding and any group count dividing the channel counts, the convolution layer writes to every output element the bias of its output channel (if given) plus the sum over its group's input channels and kernel positions of weight times (zero-padded) input. The output has floor((in+pads-kernel)/stride)+1 columns and every element of it is overwritten regardless of its previous content.",
  ["inputs", "configurations"], "all widths, odd kernel widths, strides, pad pairs, group counts, with and without bias, all exactly representable values",
  "Two or three fixed configurations are tested; padding asymmetry combined with stride and groups is not sampled.",
  [L + "convolution.cpp"], [("group/channel accumulation", L + "convolution.cpp:run"), ("window loop", L + "convolution.cpp:convolve_1d")], ["Convolution::run"])

p("C08", "Max pooling equals the ONNX MaxPool definition",
  "For rank-3 and rank-4 inputs of any batch and channel count, any window, any strides and any asymmetric padding smaller than the window, every output element is the largest input element inside its window, where padding positions never win over a real element, even when all elements are negative. The output has floor((in+pads-window)/stride)+1 positions per axis and every element of it is overwritten.",
  ["inputs", "configurations"], "all sizes, windows, strides, pads, batches and all finite element values including all-negative windows",
  "The tests use a few geometries and mostly positive data; negative borders, strides unequal per axis and windows not dividing the input are not covered.",
  [PO + "max_pooling.cpp", PO + "pooling.cpp"], [("window maximum", PO + "max_pooling.cpp"), ("padding before pooling", PO + "pooling.cpp")], ["MaxPooling::run"])

p("C09", "Average pooling divides by the right number of elements",
  "For rank-3 and rank-4 inputs of any batch and channel count, any window, any strides and any asymmetric padding smaller than the window (or none), every output element is the sum of the real input elements in its window divided by the window size when padding is counted, and by the number of real elements in the window when it is not. Every output element is overwritten.",
  ["inputs", "configurations"], "all sizes, windows, strides, pads (including none), batches, both count_include_pad settings",
  "Tests cover a few geometries; the divisor at edges and corners depends on the position, on both pads and on the input size, so a wrong case split shows up only for particular combinations (a past changelog entry is such a bug).",
  [PO + "average_pooling.cpp", PO + "pooling.cpp"], [("centre/edge divisor", PO + "average_pooling.cpp")], ["AveragePooling::run"])

p("C10", "Global pooling reduces exactly one channel each",
  "For rank-3 and rank-4 inputs of any size, global max pooling writes for each batch and channel the largest, and global average pooling the arithmetic mean, of all elements of that channel and of no other. The result does not depend on where in the channel the elements are.",
  ["inputs"], "all spatial sizes (including 1xN and Nx1), batches, channels and the position of the extreme element",
  "The tests have one small tensor each, with the maximum in a position the implementation happens to look at.",
  [PO + "global_max_pooling.cpp", PO + "global_average_pooling.cpp"], [("channel reduction loops", PO)], ["GlobalMaxPooling::run", "GlobalAveragePooling::run"])

p("C11", "Dense layers compute the exact matrix-vector product",
  "The fully connected layer maps a 1xX input to y_i = sum_j W[i][j]*x_j (+ bias_i when a bias is given) for weights stored as (Y,X), and the matrix product layer to y_i = sum_j x_j*W[j][i] for weights stored as (X,Y). This holds for every X and Y, each output element being overwritten whatever it held before.",
  ["inputs", "configurations"], "all widths X, Y from 1 to several thousand, with and without bias, all exactly representable values",
  "The tests use two fixed sizes; boundary sizes, large sizes and rectangular weights that distinguish W from its transpose are not systematically covered.",
  [L + "fully_connected.cpp"], [("gemm / matmul loops", L + "fully_connected.cpp")], ["FullyConnected::run", "MatMul::run"])

p("C12", "Batch normalisation applies each channel's own parameters",
  "For single-batch rank-3 and rank-4 inputs, every element x of channel c becomes gamma_c*(x-mean_c)/sqrt(variance_c+epsilon)+beta_c, using that channel's parameters and the layer's epsilon, for every spatial size and channel count. Input and parameters are not changed and the operation may be done in place.",
  ["inputs", "configurations"], "all shapes, per-channel parameter vectors, epsilons, and all values",
  "One or two fixed tensors are tested, with epsilon small enough not to matter.",
  [L + "batch_normalization.cpp"], [("normalize", L + "batch_normalization.cpp")], ["BatchNormalization::run"])

p("C13", "Piecewise-linear activations are exact elementwise maps",
  "The identity activation, ReLU, leaky ReLU, parameterised ReLU (with a slope tensor of the input's shape) and Clip apply respectively x, max(x,0), x or leak*x, x or slope_i*x, and min(max(x,lo),hi) to every element of a tensor of any rank, exactly and independently per position. They work in place and over the whole finite range including denormal and huge values.",
  ["inputs"], "all ranks and sizes, all finite element values, all leak/slope/bound parameters with lo <= hi",
  "Each activation is tested on one tensor with a few moderate values.",
  [A + "relu.cpp", A + "clip.cpp", A + "activation_function.cpp"], [("activate", A)], ["run() of each activation"])

p("C14", "Sigmoid, tanh and softmax are accurate and stay finite",
  "Sigmoid and tanh return 1/(1+exp(-x)) and tanh(x) to single-precision accuracy for every finite element, saturating to 0/1 and -1/1. Softmax over a tensor of any rank returns exp(x_i) divided by the sum over all elements, so its outputs are in [0,1], sum to 1, preserve order, do not change when a constant is added to all inputs, and never become NaN or infinite for any finite input.",
  ["inputs"], "all sizes and ranks, all finite inputs including large positive and negative magnitudes",
  "The tests compare one vector of small values per function; saturation, shift invariance and overflow behaviour need large magnitudes.",
  [A + "sigmoid.cpp", A + "tan_h.cpp", A + "softmax.cpp"], [("activate", A)], ["run() of each activation"])

p("C15", "Local response normalisation uses the right channel window",
  "For rank-4 inputs of any batch count, each element x of channel c becomes x/(1+alpha/n*S)^beta, where S is the sum of squares at the same batch and position over channels from c-floor((n-1)/2) to c+ceil((n-1)/2) cut off at the first and last channel, as ONNX defines it. This holds for odd and even n, n larger than the channel count, and any spatial size.",
  ["inputs", "configurations"], "all channel counts, window sizes n (odd, even, larger than the channel count), alpha, beta, shapes",
  "The tests use one tensor and one odd window.",
  [A + "lrn.cpp"], [("activate", A + "lrn.cpp")], ["LRN::run"])

p("C16", "A layer run is a pure function of its input and parameters",
  "Running any layer changes only the elements of its output tensor: input, weights, biases, slopes and all other tensors keep their exact contents. The result depends only on the layer's construction parameters, the current parameter tensors and the current input, not on the output's previous content, on earlier runs, on other layers, or on what the caller later does with the small parameter arrays (kernel size, stride, padding) it passed to the constructor.",
  ["histories", "inputs"], "every interleaving of constructing, running, re-running with other inputs, changing parameter tensors and destroying several layers that share tensors",
  "The tests run each layer object once on a fresh zeroed output; hidden state, stale output contents, aliasing of constructor arrays and interference between layers need a multi-step history.",
  [L, T], [("constructor copies of kernel/stride/padding", PO + "pooling.cpp, " + L + "convolution.cpp"), ("temporary padded tensors", PO + "pooling.cpp, " + L + "convolution.cpp")], ["Layer::run", "tensor contents before and after"])

p("C17", "Requests outside the supported domain stop with an error",
  "Convolution and batch normalisation of more than one batch, fully connected layers on inputs or outputs that are not rank 2, pooling of inputs that are not rank 3 or 4, batch normalisation of other ranks, LRN of inputs that are not rank 4, parameterised ReLU with a slope of another rank, copying between tensors of different element counts, concatenation along a dimension other than 1, and asking a rank-1 tensor for its height or width all terminate the process with a non-zero status and a message on the error stream. None of them returns a result.",
  ["inputs", "configurations"], "every combination of operation and unsupported rank, batch count, size or dimension",
  "No existing test triggers any of these paths; a dropped guard silently computes garbage or reads outside the tensor.",
  [T, L], [("PRINT_ERROR_AND_DIE guards", "pico-cnn/parameters.h and the run() functions")], ["process exit status", "stderr"])

p("C18", "A weights file loads into exactly the tensors it describes",
  "Reading a well-formed weights file (any sequence of Conv, BatchNormalization, Gemm, MatMul, Transpose and Add records in the documented format, with empty kernel or bias parts where a tensor is shared or absent) returns success and sets each kernel and bias tensor, in file order, to exactly the stored values, bit for bit. No other element of any tensor changes.",
  ["inputs", "programs"], "all record sequences, kernel geometries, bias counts, names and float bit patterns",
  "No existing test reads a weights file.",
  [IO + "read_binary_weights.cpp", "doc/binary_weight_file_format.md", OI + "backend.py"], [("record parser with kernel/bias cursors", IO + "read_binary_weights.cpp")], ["read_binary_weights"])

p("C19", "A damaged or missing weights file is reported, not loaded",
  "Reading a weights file that does not exist, ends early at any byte, has a wrong magic number or end marker, contains an unknown record type, or stores arrays whose sizes do not match the destination tensors returns a non-zero code. It never crashes, hangs, touches memory outside the destination tensors or reports success.",
  ["inputs", "crash_points", "fault_sequences"], "every truncation point of every well-formed file (as after an interrupted write or download), wrong magic/end marker/record type, missing file",
  "No existing test reads a weights file, let alone a damaged one; there are as many truncation points as bytes.",
  [IO + "read_binary_weights.cpp"], [("checked freads and marker comparisons", IO + "read_binary_weights.cpp")], ["read_binary_weights return code"])

p("C20", "Reference data files load exactly or are rejected",
  "Reading a well-formed reference input file into a tensor of rank 2, 3 or 4 (or a reference output file into a rank-2 tensor) of the matching dimensions returns success and sets the tensor to the stored values bit for bit. A file that is missing, truncated at any byte, has a wrong magic number, end marker, a batch count other than one or dimensions that do not match the tensor, or that is read into a tensor of unsupported rank, returns a non-zero code without crashing or writing outside the tensor.",
  ["inputs", "crash_points"], "all shapes and values, every truncation point, every single mismatching header field",
  "No existing test reads reference data files.",
  [IO + "read_binary_reference_data.cpp"], [("header checks and channel loop", IO + "read_binary_reference_data.cpp")], ["return code", "tensor contents"])

p("C21", "MNIST files are decoded with the right order, scaling and padding",
  "Reading an MNIST image file returns min(requested, available) images, each a row-major array of (height+2*padding) by (width+2*padding) values whose border is the lower bound and whose interior maps byte 0..255 linearly onto [lower,upper]; reading a label file returns min(requested, available) labels in file order. A missing file or a wrong magic number returns 0, and the byte-order conversion reverses the four bytes of any 32-bit value.",
  ["inputs", "configurations"], "all image counts, sizes (not only 28x28), paddings, bounds and pixel values, requests below, at and above the available number",
  "No existing test covers these readers.",
  [IO + "read_mnist.cpp"], [("big-endian header decoding, padding loop", IO + "read_mnist.cpp")], ["return value", "returned arrays"])

p("C22", "PGM images round-trip and float images are written exactly",
  "Writing an image as PGM produces a valid binary PGM of the right size whose pixels map the image's minimum to 0 and maximum to 255 linearly, and reading any such PGM back returns its size and, row-major with the requested lower-bound border, each pixel byte mapped linearly onto [lower,upper], for every pixel value including those that are white space in ASCII. Writing a float image stores the size followed by every value in order in a form that reads back bit for bit; unopenable paths return an error code.",
  ["inputs"], "all sizes, paddings, bounds, pixel bytes and float values",
  "No existing test covers these functions.",
  [IO + "read_pgm.cpp", IO + "write_pgm.cpp", IO + "write_float.cpp"], [("header parsing, normalisation", IO)], ["file bytes", "returned arrays", "return codes"])

p("C23", "Label and mean files are read completely and in order",
  "Reading an ImageNet label file whose lines have under 250 characters returns the number min(requested, lines) and that many lines' texts without their newline, in order; reading validation labels returns for each image its class from the line's label field in file order; reading a mean file returns its three hexadecimal-float means exactly. Missing files and mean files without the magic line return the documented error value.",
  ["inputs"], "all line counts, line contents and values",
  "No existing test covers these readers.",
  [IO + "read_imagenet_labels.cpp", IO + "read_imagenet_validation_labels.cpp", IO + "read_means.cpp", "doc/mean_file_format.md"], [("line parsing", IO)], ["return values", "returned arrays"])

p("C24", "JPEG images are decoded into blue, green, red planes",
  "Reading a JPEG returns its height and width and three row-major planes holding the blue, green and red samples in this order, each sample 0..255 mapped linearly onto [lower,upper]; a grey-scale JPEG yields the grey value in all three planes. A missing file returns an error code.",
  ["inputs"], "all image sizes, colours and bounds, colour and grey-scale files",
  "No existing test covers this reader.",
  [IO + "read_jpeg.cpp"], [("scanline loop", IO + "read_jpeg.cpp")], ["returned planes"])

p("C25", "An imported network computes its ONNX operators",
  "For a model made of supported operators with any attribute values the importer accepts (Conv and pooling 1-D/2-D with strides, pads, groups, count_include_pad; Gemm; MatMul; BatchNormalization; Clip; LRN of odd size; Relu; Softmax; Mul by a scalar; Add; Concat; Pad; Transpose; Reshape; Flatten; Squeeze; global pools), the generated C++ compiles, and the generated network, after loading the generated weights file, maps every input to the output the ONNX operator definitions give.",
  ["programs", "configurations", "inputs"], "all supported operators and accepted attribute combinations, all weights and inputs",
  "No existing test runs the importer; the build only checks that its Python parses.",
  [OI + "pico_cnn.py", OI + "backend.py", OI + "constprop.py", OI + "code_templates"], [("operator classes and templates", OI + "pico_cnn.py, " + OI + "code_templates"), ("shape propagation", OI + "constprop.py")], ["generated Network::run"])

p("C26", "The import preserves the graph's data flow",
  "For every graph topology of supported operators (chains, branches, tensors read by several later nodes, residual additions, concatenations, removed no-op reshapes and unsqueezes, constant sub-graphs computing reshape targets), each node of the generated network reads exactly the tensors the model names, after they were produced and before anything overwrites them, and the network output is the model's output. Folding constants and removing no-ops never changes the computed result.",
  ["programs", "inputs"], "all graphs up to a bounded number of nodes over the supported operators, all inputs",
  "No existing test runs the importer.",
  [OI + "backend.py", OI + "compute_graph.py", OI + "constprop.py", OI + "memory_manager.py"], [("node removal, buffer naming and schedule", OI + "backend.py"), ("graph construction", OI + "compute_graph.py")], ["generated Network::run"],
  [("buffers", "tensor id to buffer", OI + "memory_manager.py"), ("shape_dict", "tensor id to shape", OI + "compute_graph.py")])

p("C27", "Every model parameter reaches its place through the weights file",
  "The weights file the importer writes is accepted by the library's reader, and after reading it every parameter tensor of the generated network holds exactly the model's initializer, bit for bit, including kernels and biases shared by several nodes, operators without bias, and all supported parameterised operators in any order.",
  ["programs", "inputs"], "all sequences of parameterised operators, sharing patterns, kernel shapes and float values",
  "No existing test runs the importer or the reader; writer and reader are in different languages and only agree by convention.",
  [OI + "backend.py", OI + "memory_allocation.py", IO + "read_binary_weights.cpp"], [("_generate_weights_file / kernel and bias slot numbering", OI + "backend.py"), ("record parser", IO + "read_binary_weights.cpp")], ["network.weights.bin", "kernels/biases of the generated Network"])

p("C28", "A generated network can be created, run repeatedly and destroyed",
  "Any history of creating a generated network, loading weights, running it any number of times on any inputs and destroying it, including several networks at once and destruction without loading, is free of leaks, double frees, and accesses outside any tensor. Each run's output depends only on that run's input and the weights, and the generated stand-alone programs run on the generated weights file, report agreement with reference data that equals the network's output within 0.001 and disagreement with any other, and fail without a crash when a file is missing or damaged.",
  ["histories", "programs"], "all create/load/run/destroy histories over networks of all supported operators",
  "No existing test runs generated code.",
  [OI + "backend.py", OI + "code_templates"], [("generated constructor, run, destructor", OI + "backend.py:_generate_network_initialization/_cleanup")], ["generated Network under a memory checker"])

p("C29", "A model the library cannot represent is refused at import",
  "The importer stops with an error and produces no network for unsupported operators and for supported operators whose attributes or shapes the library does not implement: even convolution kernels, dilations other than 1, automatic same-size padding (SAME_UPPER, SAME_LOWER), ceiling-mode pooling, Gemm with transA=1, transB other than 1 or alpha/beta other than 1, Concat on another axis than 1, non-constant Pad, tensor-valued Mul, broadcasting Add of different sizes, Softmax over several rows, LRN with bias other than 1, several inputs or outputs, and batch sizes above 1. It never emits a network that silently computes something else.",
  ["programs", "configurations"], "every unsupported operator/attribute/shape alone and inside otherwise supported models",
  "No existing test runs the importer; a dropped or misspelt guard yields a network that compiles and computes wrong values.",
  [OI + "pico_cnn.py", OI + "backend.py"], [("guards in the operator classes' create()", OI + "pico_cnn.py"), ("input/output checks", OI + "backend.py:_export_model")], ["importer exit status and generated files"])

p("C30", "The reference-data tools record exactly what the model was given and returned",
  "The tool that converts recorded protobuf tensors and the tool that runs a model on generated, image or audio data write reference files that the library's readers load back bit for bit as the tensors given, respectively as what the model was run on and what it returned (input with its four dimensions, output with its length). Converted files lie beside the recorded ones under the same names; the others lie beside the model, named after source file and model; the same random seed gives the same data. Tensors of another rank, element type or batch size leave no file that states anything else.",
  ["inputs", "configurations"], "all tensors of ranks 1-5, element types, batch sizes, storage forms and special float values; all images and sounds; all seeds and ranges",
  "No existing test runs the Python tools; a swapped dimension, a narrowed value or a wrong batch still writes a well-formed file.",
  ["util/parse_onnx_reference_files.py", "util/generate_reference_data.py", IO + "read_binary_reference_data.cpp"],
  [("writing input and output files", "util/parse_onnx_reference_files.py"), ("data generation and reference run", "util/generate_reference_data.py")], ["written .data files as the library's readers load them"])

p("C31", "Importing from the command line gives the network of the named file",
  "Importing an ONNX file from the command line produces, under generated_code in the current directory, the network named after the file's base name up to its first dot; it computes the graph the file holds at batch size 1, whatever batch dimension the file states (1, another number, a symbol or none), with dropout having no effect. In any sequence of imports each import replaces the network of its own name and no other, and importing a model that is refused leaves every earlier network as it was.",
  ["histories", "programs", "configurations"], "all sequences of imports over models, names, directories and stated batch dimensions",
  "No existing test runs the importer or its command line.",
  [OI + "onnx_to_pico_cnn.py", OI + "onnx_importer.py", OI + "backend.py"], [("batch dimension, dropout, polishing", OI + "onnx_to_pico_cnn.py"), ("saving the generated files", OI + "backend.py")], ["generated_code tree", "generated Network::run"])

p("C32", "The shipped models reproduce the shipped reference outputs",
  "Each model that comes with the repository imports, compiles and, run on any of the input files that come with it, gives the output recorded for that input within 0.001; the generated reference program agrees for each recorded pair and reports a difference for every other pairing and for any recorded output changed by more than that.",
  ["inputs", "configurations"], "all shipped models, all pairs of their shipped inputs and outputs, every output element changed either way",
  "No existing test loads the shipped models or data.",
  ["data", OI + "backend.py", OI + "code_templates", "pico-cnn/layers"], [("model data", "data"), ("reference program", OI + "code_templates")], ["reference program's verdict"])

p("C33", "A tensor prints its shape and every element in order; layers keep identity",
  "Writing a tensor of any rank 1-4 to a stream prints its shape and then every element exactly once, in row-major order, bracketed by rows and (ranks 3 and 4) planes, each number as that stream formats it, and changes neither the tensor nor the stream's format. A layer's name, number and operation are those it was created with for its whole life, whatever other layers are created, run or deleted.",
  ["inputs", "histories"], "all shapes and values, stream formats; all layer kinds, names, numbers and histories",
  "The existing tests never print a tensor or ask a layer who it is.",
  [T, TH, L + "layer.h", L + "layer.cpp"], [("operator<<", T), ("Layer accessors", L + "layer.cpp")], ["printed text", "Layer::name/id/op"])

p("C34", "Using the library leaves no memory behind",
  "Any history of creating, using and deleting tensors and layers in any order, and of loading well-formed, damaged or missing files, in which the caller deletes exactly what it created or was handed (tensors, layers, returned arrays), ends with no more memory allocated than repeating it would start with. Deleting a layer never deletes a tensor it was given, and a tensor may be deleted before the layers that were given it.",
  ["histories"], "all lifecycles of tensors and layers of all kinds, with and without padding, bias, runs, in all deletion orders; all file interfaces",
  "The existing tests do not watch memory; a temporary that is not deleted on one path changes no result.",
  [L, T, IO], [("temporary padded and result tensors", L + "convolution.cpp, " + PO), ("destructors", L + "convolution.cpp, " + PO + "pooling.cpp, " + T), ("value buffers and files of the readers", IO)], ["allocated bytes after a history"])

p("C35", "Prepared images hold exactly the requested part or size of each image",
  "For every *.JPEG file of a folder (ILSVRC*.JPEG for positioned crops) the preparation tool writes, in a subfolder named after mode and size and under a name prefixed with both, the whole image scaled (antialiased) to the size, or exactly the pixels of the centred (towards the top left when it cannot be exact) or positioned window. Every run works on the images as they are then and leaves all other files as they were; no picture of a window reaching outside its image is written; unusable sizes, positions and modes write nothing.",
  ["inputs", "configurations", "histories"], "all image sizes, windows, positions, file names and sequences of runs, including runs on the results of others",
  "No existing test runs the tool.",
  ["util/prepare_images.py"], [("scale_images, crop_images, center_crop_images", "util/prepare_images.py")], ["written image files"])

p("C36", "Checking a model against its records and saving its tensors tell the truth",
  "The checking tool runs the model once on all recorded inputs in the order of their numbers and succeeds exactly when every recorded output agrees with what the model returned to four decimals. The saving tool runs the model on ones of the given shape and writes, per named tensor, a text file named after model and tensor that holds all its values in order, exactly. Neither changes any other file.",
  ["inputs", "histories"], "all numbers, shapes, element types and values of recorded and returned tensors, all names and histories",
  "No existing test runs the tools.",
  ["util/check_onnx_model.py", "util/save_intermediate_outputs.py"], [("loading records and comparing", "util/check_onnx_model.py"), ("saving", "util/save_intermediate_outputs.py")], ["tools' exit status and files"])

p("C37", "Results do not depend on how the library is built or on its diagnostics",
  "Every tensor operation, layer, file reader and writer gives the results its property demands on a library compiled with any optimisation level, for the machine at hand, and with its informational and debugging output switched on or off. No accepted request makes it depend on memory nobody wrote or execute an operation C++ leaves undefined.",
  ["inputs", "configurations"], "all requests of C01-C15, C17-C24 and C33 on every build",
  "The existing tests run on one build, with the diagnostics fixed.",
  ["pico-cnn/parameters.h", "pico-cnn/layers", IO, T], [("PRINT_DEBUG, PRINT_INFO", "pico-cnn/parameters.h"), ("compiler flags", "pico-cnn/Makefile, onnx_import/backend.py"), ("diagnostic output", "pico-cnn/layers, pico-cnn/io")], ["results and files on each build"])

p("C38", "The example programs classify as the model does and report it truthfully",
  "Built beside the imported network of its name, an MNIST example program runs every image of the first thousand of the data set and prints how many were classified right (largest output, the first of equals), the error rate, and how often each digit was taken for each; an ImageNet example program prints the ten largest outputs for its 224x224 picture minus the channel means (blue, green, red) in descending order, each with its label. Missing or damaged files, too few arguments, pictures of another size or a wrong number of labels end the program with a failure status and no result. Nothing outside the program's own memory is touched, whatever the data, the number of images or the length of the paths.",
  ["inputs", "configurations"], "all data sets, pictures, models of the programs' kinds, and damaged or missing files",
  "No existing test builds or runs an example program.",
  ["examples", OI + "backend.py", IO], [("the programs", "examples"), ("Makefile target of the model's name", OI + "backend.py"), ("data set, label, mean and picture readers", IO)], ["printed results", "exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
