import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=observe or [],hook_needed=None)))
TC="source/parser/type_checker.hpp"; CSV="source/parser/csv.hpp"; JS="source/parser/json.hpp"; MN="source/parser/mnist.hpp"; CI="source/parser/cifar.hpp"; PA="source/parser/parser.hpp"; DS="source/data/dataset.hpp"; DM="source/dnn/dlmath.hpp"
p("P01","Inferred type of a text field follows the documented grammar",
  "For every text field, the inferred type is: none for the empty text, string for text wrapped in double quotes, bool exactly for true/false, int exactly for an optionally signed decimal numeral without superfluous leading zeros, float for any other optionally signed decimal or scientific numeral ending its mantissa in a digit, and string for everything else. The one-type predicates and the element-wise inference over a list of fields agree with it.",
  ["inputs"],"every byte string up to the length bound (all 256 byte values but NUL, CR and LF at every position), and every list of such fields up to the list bound",
  "The unit tests try a few dozen literals; the grammar has to hold for every string, including sign, exponent, leading-zero and quote corner cases.",
  [TC],[("TypeChecker::parse","type_checker.hpp"),("anchored regular expressions","type_checker.hpp:42-57")],observe=["TypeChecker::parse / is_* / operator()"])
p("P02","Text-to-value conversion is exact and rejects anything but a whole numeral",
  "Converting a text to a number succeeds exactly when the whole text is one numeral (optionally after leading white space) representable in the target type, and then yields that numeral's value; converting to bool is true exactly for the texts true and 1; converting to text is the identity. Converting an integer or bool to text and back returns the same value.",
  ["inputs"],"every text up to the length bound, target types int, unsigned byte-count integers, double, bool and string; every 32-bit integer and bool for the way back",
  "Tests check a handful of literals; partial parses, trailing characters, overflow and empty text need every input.",
  [TC],[("convert<T>","type_checker.hpp:67-126")],observe=["TypeChecker::operator()(text, value)","convert<T>(value)"])
p("P03","A CSV file is read back as exactly the rows, fields and types it contains",
  "For every file of rows that end with a newline (the last one with or without) and have the same number of separated fields, the reported dimensions, header and every row and field text are exactly what the file holds between the separators, and every field's type is the declared one when a full list of types without automatic ones is declared, and otherwise the one inferred from the first data row.",
  ["inputs","configurations"],"every file content within bounds on rows, columns and field length, every separator character, header/typed/auto-typed configurations",
  "Tests read two fixed data files; the guarantee is over file contents, separators and type configurations.",
  [CSV],[("CSV constructor scan","csv.hpp"),("CSVRow field splitting","csv.hpp")],observe=["CSV::rows_size/cols_size/header/operator[]","CSVRow::operator[]","CSVField"])
p("P04","CSV rows do not depend on the order or way they are accessed",
  "Whatever sequence of row lookups (cached or not, wrapping past the end), iterator passes and copies precedes it, looking up a row or dereferencing an iterator yields the same row as a first lookup in a freshly opened file. An iteration visits each data row once, in file order, and row indices wrap around the number of rows.",
  ["histories","inputs"],"every history of lookups, iterator steps and copies up to the history bound, over files within the size bound, with and without the row cache",
  "Tests use one access pattern on one file; stale-cache and shared-stream bugs need particular access sequences.",
  [CSV],[("row cache","csv.hpp CSV::operator[]"),("CSVIterator lazy seek","csv.hpp")],state=[("row cache","rows already decoded","csv.hpp CSV"),("stream position","shared file stream","csv.hpp CSVIterator")],observe=["CSV::operator[]","CSVIterator::operator*"])
p("P05","Numeric data-set entries read from CSV equal the numerals in the file",
  "For every numeric CSV file with a header, the data set has one entry per data row and one feature per column, each entry holds exactly the numeric values of its row's fields in column order (a field holding no numeral counts as 0), and the declared label columns, data and features reported agree with those entries.",
  ["inputs","configurations"],"all numeric fields and label-column selections within the bounds on rows, columns and numeral length",
  "Tests compare against two fixed files.",
  [CSV,PA],[("CSV::entry","csv.hpp"),("CSVRow numeric conversion","csv.hpp")],observe=["CSV::entry","CSV::data_to_encoding","CSV::entries_amount","CSV::labels_idx"])
p("P06","JSON text written by the library reads back as an equal document",
  "Any document built from objects, lists and leaves (whose texts contain no quotes, separators, brackets or line breaks) that is written out and read in again is equal to the original, with every value, type, order of list elements and key preserved, and writing it again gives the same text.",
  ["inputs","programs"],"every document tree within the bounds on depth, width and text length, with every leaf kind, including empty lists and objects",
  "Tests round-trip a few fixed documents; nesting shapes and leaf contents are unbounded.",
  [JS],[("operator<< / operator>>","json.hpp")],observe=["stream insertion and extraction of Json values"])
p("P07","A JSON document behaves as a value: edits are local, copies independent",
  "Reading back what was stored, appended or erased gives exactly the effect of that operation on an ordinary list or map and nothing else changes; a copy of a document never changes when the original is edited, and two documents compare equal exactly when they have the same structure and the same leaf texts. Out-of-range, missing-key and wrong-kind accesses raise an error and leave the document unchanged.",
  ["histories","inputs"],"every sequence of edits and copies up to the history bound over small documents with symbolic keys, indices and values",
  "Tests exercise a fixed script; aliasing between copies shows only for particular copy/edit interleavings.",
  [JS],[("deep copy of nodes","json.hpp JsonItem/JsonList/JsonDict"),("operator[] / at","json.hpp")],observe=["Json/JsonItem/JsonList/JsonDict/JsonLeaf public API"])
p("P08","Reading any text as JSON terminates without corrupting memory",
  "Reading any text at all as a JSON document ends, either with an error or with a document, never touching memory it does not own and never looping forever.",
  ["inputs"],"every byte string up to the length bound",
  "Only well-formed files are tested; truncated and malformed inputs are a universally quantified robustness guarantee.",
  [JS],[("recursive-descent extraction","json.hpp operator>>")],observe=["stream extraction of Json values"])
p("P09","MNIST images and labels are decoded exactly as the file format lays them out",
  "For every well-formed pair of image and label files, the image and label at each index are exactly the pixel bytes in row-major order and the label byte that the format stores for that index, whatever was read before; the corresponding data-set entry is those pixels followed by the label, with indices wrapping around.",
  ["inputs","histories"],"every file content (all pixel and label values) and access order within the bound on the number of images",
  "Tests read a few entries of one fixed data file.",
  [MN],[("Mnist::image/label/entry","mnist.hpp"),("endianness conversion","mnist.hpp")],observe=["Mnist::image","Mnist::label","Mnist::entry"])
p("P10","MNIST files with a wrong header are refused",
  "Opening an image/label file pair succeeds exactly when both magic numbers, the two item counts and the image dimensions are the ones the format requires; in every other case an error is raised.",
  ["inputs"],"every value of the 24 header bytes",
  "Tests open only valid files; 2^192 headers.",
  [MN],[("header checks","mnist.hpp Mnist constructor")],observe=["Mnist constructor"])
p("P11","CIFAR records are decoded exactly as the file format lays them out",
  "For every well-formed CIFAR batch, the label(s), label names and pixels of each record are exactly the bytes at that record's position, in the requested channel order, whatever was read before, and the data-set entry is those pixels followed by the label that the chosen data set uses. The grey-scale and colour channel values derived from a pixel are the documented luminance combination and components of that pixel.",
  ["inputs","histories","configurations"],"every record content and access order within bounds on the records touched; CIFAR-10 and CIFAR-100; both pixel orders",
  "Tests read a few records of one fixed file.",
  [CI],[("Cifar::image/label/entry","cifar.hpp"),("pixel reorder","cifar.hpp")],observe=["Cifar::image","Cifar::coarse_label","Cifar::fine_label","Cifar::entry"])
p("P12","Label encoding keeps every feature and one-hot encodes every label",
  "Encoding a parsed data set yields one row per entry in which all non-label columns keep their value and order, followed, for each label column in order, by as many columns as it has distinct values, holding a one exactly at the rank of the entry's label and zero elsewhere; the reported encoded width and label columns agree with it.",
  ["inputs","configurations"],"every data matrix, label-column set and number of distinct labels within the bounds",
  "Tests encode one fixed data set whose label is the last column.",
  [PA],[("DatasetParser::data_to_encoding","parser.hpp"),("unique_map","parser.hpp")],observe=["data_to_encoding","encoding_feature_size","encoding_labels_idx","unique","unique_map"])
p("P13","A data set's views partition its data exactly",
  "For data given as a flat vector, a list of rows or a list of sequences, every entry, sequence, input and label view returns exactly the stored values at the positions selected by the feature, sequence and label-column settings; inputs and labels together contain every column exactly once, in order.",
  ["inputs","configurations"],"every data value, feature size, sequence size and label-column set within the bounds",
  "Tests use a few fixed shapes.",
  [DS],[("Dataset views","dataset.hpp")],observe=["Dataset::entry/input/label and their sequence and whole-set variants"])
p("P14","Splitting, slicing, shuffling and joining data sets lose and invent nothing",
  "Taking a slice or split returns exactly the entries of the requested ranges in order, the two parts of a split together being the whole; shuffling permutes whole entries; joining two data sets along an axis places every value of both at its proper place and rejects incompatible shapes.",
  ["inputs","configurations","schedules"],"every data value, range, percentage, axis, permutation outcome and shape within the bounds",
  "Tests use fixed data and only sample random shuffles.",
  [DS,DM],[("subdata/split/shuffle/concatenate","dataset.hpp"),("unique_rand_sequence","dlmath.hpp")],observe=["Dataset::subdata/split/shuffle/concatenate"])
p("P15","Min-max normalisation maps each feature affinely onto the unit interval",
  "After normalising a data set, every selected feature's minimum is 0, its maximum is 1 and every other value keeps its relative position, features not selected are unchanged, and normalising with given ranges applies exactly that affine map.",
  ["inputs"],"all real data values within the bounds on rows and columns with non-constant columns",
  "Tests use one fixed table.",
  [DS],[("min_max_normalization","dataset.hpp")],observe=["Dataset::min_max_normalization"])
p("P16","Vector and matrix kernels compute their mathematical definition",
  "Element-wise sum and product, scalar multiplication, matrix-array product and dense forward and backward kernels produce, for every shape and value, the value of their textbook definition, write exactly the destination elements, and refuse an aliased destination where documented.",
  ["inputs","configurations"],"all real values, all dimensions up to the bound",
  "Tests use a few fixed matrices.",
  [DM],[("arr_sum/arr_mul/matarr_mul/dense/dense_1","dlmath.hpp")],observe=["DLMath static functions"])
p("P17","Cross-correlation computes its definition for every shape, stride and padding",
  "For every input shape, kernel shape, stride and zero padding that fit, the output has the documented size and each output value is the sum over the kernel window and channels of kernel times zero-padded input, for every filter.",
  ["inputs","configurations"],"all real values; input sides, kernel sides, strides, paddings, channels and filters up to the bounds",
  "Tests use a few fixed shapes and integers.",
  [DM],[("kernel_slide / cross_correlation","dlmath.hpp")],observe=["DLMath::cross_correlation"])
p("P18","Max and average pooling compute their definition for every window geometry",
  "For every input shape, window and stride, max pooling returns the maximum and average pooling the mean of each window and channel, in output order.",
  ["inputs","configurations"],"all real values; sides, windows, strides and channels up to the bounds",
  "Tests use a few fixed arrays.",
  [DM],[("max_pool / avg_pool","dlmath.hpp")],observe=["DLMath::max_pool/avg_pool"])
p("P19","Concatenation, separation, appending and extraction are exact inverses",
  "Joining arrays along any axis places each source value at its proper index, separating the result along the same axis with the same shapes returns the sources exactly, and invalid axes or shapes are rejected.",
  ["inputs","configurations"],"all values, all three axes, all shapes and numbers of inputs up to the bounds",
  "Tests use fixed shapes.",
  [DM,"source/dnn/concatenate.cpp"],[("concatenate/separate/append/extract","dlmath.hpp")],observe=["DLMath::concatenate/separate/append/extract"])
p("P20","Activation functions compute their definition and their derivative is its slope",
  "ReLU, ELU, tanh, sigmoid and linear activations return their mathematical definition at every real input, and the derivative functions (from the input, and from the output where offered) return the exact derivative of that definition.",
  ["inputs"],"all real inputs (scalar) and arrays up to the bound",
  "Tests compare a few points with a tolerance.",
  [DM,"source/dnn/activation.cpp"],[("relu/elu/tanh/sigmoid and _1 variants","dlmath.hpp")],observe=["DLMath::relu, elu, tanh, sigmoid and derivatives"])
p("P21","Softmax yields a probability vector and its gradient is the exact Jacobian",
  "Softmax outputs are positive, sum to one, are ordered like the inputs and do not change when a constant is added to every input, the numerically stable form, which the softmax layer uses, equals the plain form and never overflows, and the back-propagated gradient is the exact product with softmax's Jacobian.",
  ["inputs"],"all real vectors up to the length bound",
  "Tests check fixed vectors with a tolerance.",
  [DM,"source/dnn/activation.cpp"],[("softmax/stable_softmax/softmax_1","dlmath.hpp")],observe=["DLMath::softmax family","SoftmaxLayer"])
p("P22","Loss values and gradients match their definition, scaled by the batch size",
  "Mean squared error and categorical cross entropy return their defined value, the gradient given back by the loss is, per element of the prediction, the exact derivative of that element's squared error or cross entropy (for predictions above the clamp) scaled by the inverse batch size, and running score counters report the mean loss and the fraction of correct predictions since the last reset.",
  ["inputs","histories"],"all real predictions and targets up to the length bound; every sequence of evaluations and resets up to the history bound",
  "Tests check fixed vectors.",
  [DM,"source/dnn/loss.cpp","source/dnn/mse_loss.cpp","source/dnn/cce_loss.cpp"],[("loss layers","loss.cpp, mse_loss.cpp, cce_loss.cpp"),("cross_entropy/mse","dlmath.hpp")],observe=["LossLayer API","DLMath loss functions"])
p("P23","Maximum and arg-max agree on every array",
  "For every non-empty array the reported maximum is an element not smaller than any other and the reported position is the first one holding it; searching for a value returns its first position or reports absence.",
  ["inputs"],"all arrays of reals and integers up to the length bound",
  "Tests use fixed arrays.",
  [DM],[("max/argmax/max_and_argmax/index_of","dlmath.hpp")],observe=["DLMath::max, argmax, max_and_argmax, index_of"])
p("P24","An optimiser step applies its rule to every parameter and clears gradients",
  "One training step of gradient descent subtracts learning rate times accumulated gradient from each parameter; one step of Adam applies its moment-based update with the configured coefficients; every accumulated gradient is zero afterwards and nothing else changes.",
  ["inputs","histories"],"all real parameters, gradients and learning rates; every sequence of steps and resets up to the history bound",
  "Tests check few values.",
  ["source/dnn/gd_optimizer.cpp","source/dnn/adam_optimizer.cpp","source/dnn/optimizer.cpp"],[("Optimizer::train","optimizer.cpp")],observe=["Layer::param/gradient after Optimizer::train"])
p("P25","Back-propagation through a dense layer is its exact gradient",
  "A dense layer outputs weights times input plus bias, and back-propagating any output gradient returns the exact gradient with respect to the input and adds the exact gradient with respect to every weight and bias to the accumulated parameter gradients; forwarding and back-propagating repeatedly, or interleaved with plain prediction, accumulates the sum.",
  ["inputs","histories","configurations"],"all real inputs, weights, biases and output gradients; layer sizes and number of steps up to the bounds",
  "Tests check a few sizes and do not check the gradient values.",
  ["source/dnn/dense.cpp",DM],[("DenseLayer::forward/backward","dense.cpp")],observe=["DenseLayer forward/backward/param/gradient"])
p("P26","Back-propagation through a convolutional layer is its exact gradient",
  "A convolutional layer outputs the cross-correlation of each filter with the padded input plus that filter's bias, and back-propagating any output gradient returns the exact gradient with respect to the input and adds the exact gradient of every weight and bias to the accumulated parameter gradients.",
  ["inputs","histories","configurations"],"all real inputs, weights, biases and output gradients; shapes, strides and paddings up to the bounds",
  "Tests check shapes and a few values.",
  ["source/dnn/convolutional.cpp",DM],[("ConvolutionalLayer::forward/backward","convolutional.cpp")],observe=["ConvolutionalLayer forward/backward/param/gradient"])
p("P27","Back-propagation through pooling layers is their exact gradient",
  "Pooling layers output the pooled input, and back-propagating any output gradient gives each input exactly the gradient of the pooled values it contributed to: the whole of it to a window's maximum, or an equal share to every element of an averaged window, summed over overlapping windows.",
  ["inputs","configurations"],"all real inputs and output gradients; shapes, windows and strides up to the bounds",
  "Tests check shapes and fixed examples.",
  ["source/dnn/max_pooling.cpp","source/dnn/avg_pooling.cpp","source/dnn/pooling.cpp"],[("MaxPoolingLayer/AveragePoolingLayer backward","max_pooling.cpp, avg_pooling.cpp")],observe=["pooling layers forward/backward"])
p("P28","Activation layers forward their function and back-propagate its exact gradient",
  "Every activation layer outputs its function applied element-wise (softmax: to the whole vector) and back-propagating any output gradient returns the exact gradient with respect to the input of the last training pass, over any sequence of training and prediction passes that keeps the order forward then backward.",
  ["inputs","histories"],"all real inputs and output gradients; vector lengths and numbers of passes up to the bounds",
  "Tests check fixed examples.",
  ["source/dnn/activation.cpp"],[("activation layers forward/backward","activation.cpp")],observe=["ReluLayer, EluLayer, SoftmaxLayer, TanhLayer, SigmoidLayer, LinearLayer"])
p("P29","Dropout masks consistently in training and is the identity in prediction",
  "In training, each value is either dropped to zero or kept and scaled as documented, and the back-propagated gradient uses exactly the same mask and scale; in prediction the layer returns its input unchanged.",
  ["inputs","schedules","histories"],"all real inputs and gradients, every outcome of the random draws, sizes and numbers of passes up to the bounds",
  "Tests sample random draws.",
  ["source/dnn/dropout.cpp"],[("DropoutLayer forward/backward","dropout.cpp")],observe=["DropoutLayer forward/training_forward/backward"])
p("P30","A recurrent layer computes its recurrence and back-propagates exactly",
  "For every sequence length the recurrent layer's outputs are those of the defined recurrence started from the stored hidden state, and back-propagating output gradients accumulates the exact gradient of the whole unrolled sequence for every parameter and input.",
  ["inputs","histories","configurations"],"all real inputs, parameters and gradients; sizes and sequence lengths up to the bounds",
  "Tests check shapes and a few values.",
  ["source/dnn/recurrent.cpp"],[("RecurrentLayer forward/backward","recurrent.cpp")],observe=["RecurrentLayer forward/backward/param/gradient"])
p("P31","A concatenation layer joins its inputs and splits gradients back",
  "A concatenation layer outputs its input sources joined along the configured axis and back-propagation hands each source exactly its own part of the output gradient, for every axis and shape.",
  ["inputs","configurations"],"all real values, all axes and shapes up to the bounds",
  "No shape space is tested.",
  ["source/dnn/concatenate.cpp"],[("ConcatenateLayer","concatenate.cpp")],observe=["ConcatenateLayer forward/backward"])
p("P32","The layer graph reports and runs exactly the connections that were made",
  "After any sequence of adding layers, losses and connections, predecessor, successor, adjacency, input-layer and output-layer queries are exactly those of the graph so built, a run visits each connection reachable from the inputs (backward: from the losses) exactly once with a layer's connections after the one that reached it, prediction runs never enter a loss, and a copy of the graph is equal and independent.",
  ["histories","configurations"],"every graph up to the bound on layers and connections, every construction order",
  "Tests build a few fixed graphs.",
  ["source/dnn/dlgraph.hpp","source/dnn/dlgraph.cpp"],[("Graph / DLGraph","dlgraph.hpp, dlgraph.cpp")],observe=["DLGraph queries and runs"])
p("P33","A model predicts the composition of its layers and a step adds exact gradients",
  "Predicting with a model of connected layers returns the composition of its layers; a training step adds to every parameter's accumulated gradient the exact derivative of the sum of that sample's element losses, scaled by the inverse batch size, so that a batch step of gradient descent moves each parameter by minus learning rate times the mean gradient, and predicting in between changes nothing.",
  ["inputs","histories"],"all real inputs, targets and parameters; small chains of layers; numbers of steps up to the bound",
  "Tests only check that training runs or that a loss shrinks on an example.",
  ["source/dnn/model.hpp","source/dnn/model.cpp"],[("Model::predict/step/train","model.cpp")],observe=["Model predict/step/train/avg_loss/accuracy"])
p("P34","Dumped layers and models load back with the same structure and parameters",
  "Loading what a layer or model has dumped, into an object of the same kind, restores its name, input and output shapes and every parameter to the precision of the text format, so that both predict the same; loading a dump of another kind of layer raises an error and changes nothing.",
  ["inputs","configurations"],"all parameter values representable in the dump, sizes and layer kinds up to the bounds",
  "Tests dump and load a few fixed layers.",
  ["source/dnn/layer.cpp","source/dnn/dense.cpp","source/dnn/convolutional.cpp","source/dnn/recurrent.cpp","source/dnn/model.cpp",JS],[("dump/load","layer.cpp and layers")],observe=["Layer::dump/load","Model::dump/load"])
p("P35","A network built from layer descriptors is the described network",
  "Building a feed-forward network from any valid list of layer descriptors gives the layers, sizes, shapes and activations described, in order, each fitting its predecessor's output; descriptors report the settings they were given; prediction maps each data entry through that network and evaluation reports mean loss, accuracy and their complements over the data set; sequential training starts from the initial parameters of its seed and applies, for every epoch and batch in order, one optimiser step with the accumulated gradients of the batch, and training again starts over.",
  ["configurations","inputs"],"every descriptor list up to the bound on layers and sizes",
  "Tests build a few fixed networks.",
  ["source/middleware/fnn.hpp","source/middleware/nn.hpp","source/middleware/layer_descriptor.hpp","source/middleware/layer_descriptor.cpp"],[("EdgeFeedforwardNeuralNetwork::add","fnn.hpp")],observe=["FeedforwardNeuralNetwork / DynamicFeedforwardNeuralNetwork / LayerDescriptor API"])
p("P36","Parallel training and kernels give the sequential result under every schedule",
  "Multi-threaded kernels and data-parallel training give one result for every order in which the worker tasks run, without unordered conflicting accesses: a parallel kernel equals its sequential form and its formula, training by entries equals sequential training (one optimiser step per batch with the summed gradients of its entries), and training by batches makes, round by round, one step per batch with gradients evaluated at the parameters the round started from.",
  ["schedules","inputs"],"every execution order of the tasks and all real values within the bounds on sizes and tasks",
  "A test run sees one schedule.",
  [DM,"source/middleware/fnn.hpp"],[("dense_thread_opt/dense_1_thread_opt","dlmath.hpp"),("Training<THREAD_PARALLELISM_*>","fnn.hpp")],observe=["DLMath::*_thread_opt","fit with a parallel level"])
p("P37","Random helpers stay in range and unique sequences are permutations",
  "Random values drawn from a range (real or integer) lie in it, a unique random sequence over a range contains each member exactly once, and parameter initialisation sets every weight to its own draw scaled by the prescribed deviation of its fan-in (sqrt(2/n) Kaiming, sqrt(1/n) Xavier, automatic choice by the next layer) and every bias to the same small constant, for every outcome of the generator; the seed a model reports reproduces its parameters.",
  ["schedules","configurations"],"every outcome of the random generator; ranges and layer sizes up to the bounds",
  "Tests sample a few seeds.",
  [DM,"source/dnn/dense.cpp","source/dnn/convolutional.cpp"],[("rand/unique_rand_sequence/pdf","dlmath.hpp")],observe=["DLMath::rand, unique_rand_sequence","Layer::init"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        
        if len(x["title"])>80: print(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
