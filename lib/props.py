"""The properties (source of properties.jsonl) and the text of their checks (source of MANIFEST.json).

Run lib/gen.py after editing."""

T = "app/tenncor/"
R = "app/rocnnet/"
NOTE = ("Randomised search with an independent oracle under AddressSanitizer: no violation among the generated cases, "
        "no guarantee beyond them. Trusts the harness model, the compiler and the sanitizer.")
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files,
                           "state": state or [],
                           "mechanism": [{"name": m[0], "where": m[1]} for m in mechanism],
                           "observe_at": observe or [], "hook_needed": None},
                  technique=technique, note=(note + " " if note else "") + NOTE))


prop("C01", "Tensor shapes form a consistent partial-shape algebra",
     "Two shapes are called compatible independently of their order, every shape is compatible with itself and with the undefined shape, shapes of one rank are compatible exactly when every pair of known dimensions agrees, and fully defined shapes of different rank exactly when they agree after outer dimensions of size one are dropped. "
     "Rank, number of elements, number of known elements, definedness, trimming, concatenation, padding or cutting to a rank and merging give exactly the result computed from the dimension lists, a merge of different ranks being refused. "
     "No operation changes its operands.",
     ["inputs"], "all pairs of shapes (any rank, known and unknown dimensions)",
     "The tests sample a few random shape pairs and partly recompute the answer with the code under test.",
     [T + "include/tensor/tensorshape.hpp", T + "src/tensor/tensorshape.cpp"],
     [("tensorshape", T + "src/tensor/tensorshape.cpp")],
     "property-based testing: random shape pairs against a reference shape algebra")
prop("C02", "Coordinates and flat positions are one bijection",
     "For every fully defined shape, flat positions and coordinates map to each other one to one with the first dimension varying fastest, and iterating a shape visits every element once in flat order with its coordinate. "
     "Reading a tensor element by coordinate returns the value stored at that position; missing trailing coordinates count as zero; a coordinate whose position lies past the data is refused with an out-of-range error.",
     ["inputs"], "all fully defined shapes, all coordinates of each, short and out-of-range coordinates",
     "The tests check a handful of coordinates of one or two shapes; the mapping must hold for every element of every shape.",
     [T + "src/tensor/tensorshape.cpp", T + "src/tensor/tensor.ipp"],
     [("tensorshape::flat_idx, coordinate_from_idx, iterate", T + "src/tensor/tensorshape.cpp"), ("tensor::get, expose", T + "src/tensor/tensor.ipp")],
     "property-based testing: round trip and reference mapping over every element of random shapes")
prop("C03", "Tensor storage behaves like a value with exactly one owned buffer",
     "After any history of constructing, writing, allocating, reshaping, releasing, copying, cloning, moving, storing, restoring and destroying tensors of several allocators, each reports the shape, size, allocation state and contents that a plain model predicts, and requests that do not fit its allowed shape are refused without changing it. "
     "Reshaping keeps the elements whose coordinates exist in both shapes and zeroes the rest. "
     "Every buffer is requested once, returned once with its size to the allocator it came from, and belongs to one tensor.",
     ["histories"], "all sequences of tensor operations over several tensors",
     "Each test runs one fixed operation on a fresh tensor; interactions of allowed shape, allocated shape and ownership over a history are not reached.",
     [T + "include/tensor/tensor.hpp", T + "src/tensor/tensor.ipp", T + "include/memory/iallocator.hpp", T + "src/memory/iallocator.cpp", T + "src/memory/default_alloc.cpp"],
     [("tensor", T + "src/tensor/tensor.ipp"), ("iallocator", T + "include/memory/iallocator.hpp")],
     "stateful model-based testing with a book-keeping allocator")
prop("C04", "Data offered to a partial shape is accepted and shaped consistently",
     "Data is compatible with a partial shape exactly when its size can be completed to a full shape, the guessed shape then fills the unknown dimensions (the first one takes the remaining size) and holds exactly the data; the loose variant also accepts data that must be padded and holds at least the data. "
     "Placeholders and constants made from data take exactly that shape and expose exactly that data, padded with zeros or cut where the shape asks for it. "
     "A tensor with storage accepts exactly its own number of elements.",
     ["inputs"], "all partial, full and undefined shapes against all data sizes",
     "The tests use one or two shapes with a single unknown dimension.",
     [T + "src/tensor/tensor.ipp", T + "src/graph/leaf/placeholder.ipp", T + "src/graph/leaf/constant.ipp"],
     [("tensor::guess_shape, loosely_guess_shape", T + "src/tensor/tensor.ipp"), ("constant", T + "src/graph/leaf/constant.ipp")],
     "property-based testing against a reference inference")
prop("C05", "Copies, clones and moves of nodes are faithful and independent",
     "A copy or clone of a variable or placeholder has the value, shape, label, initialiser and status of its original at that moment, an identity of its own and no observers, and later changes to either do not show in the other; a moved node hands over its value and, when moved by construction, its observers, which are computed from it and derived by it from then on. "
     "A clone of an operation node computes the same function of the same arguments, keeps following them after the original is gone, and leaves the original intact; an operation assigned or moved over one without dependents takes its place alike.",
     ["histories"], "all interleavings of construction, assignment, copy, clone, move, destruction and evaluation over several nodes",
     "The tests copy one node once and compare; aliasing shows only over later updates and destruction orders.",
     [T + "src/graph/inode.ipp", T + "src/graph/leaf/ileaf.ipp", T + "src/graph/leaf/variable.ipp", T + "src/graph/leaf/placeholder.ipp", T + "src/graph/connector/iconnector.ipp", T + "src/graph/react/subject.cpp", T + "src/graph/react/iobserver.cpp"],
     [("copy and move helpers of nodes", T + "src/graph/leaf/ileaf.ipp"), ("identity of a node", T + "include/graph/react/identifiable.hpp")],
     "stateful model-based testing of leaf histories and clone/update interleavings")
prop("C06", "Saved tensors and node groups are restored exactly",
     "A tensor of any element type that is serialized and read back onto any tensor, whatever its earlier state, has the same allocated shape, allowed shape and bit pattern. "
     "Saving a group of nodes to a file and loading it restores every stored node by its key, keeps entries of other groups, updates the dependents of restored nodes, and reports exactly the nodes that were not in the file, which stay untouched. "
     "An unallocated tensor does not read back as data, and serializing never changes its source.",
     ["inputs", "histories"], "all tensors (shape, type, bit pattern) and all sequences of saving and loading groups of nodes",
     "One test saves and loads one small model; types, bit patterns, partial groups and mixed shapes are not varied.",
     [T + "src/memory/tensor_io.ipp", T + "src/tensor/tensor.ipp", T + "src/graph/inode.ipp", T + "proto/serial/tenncor.proto"],
     [("tensor::serialize, from_proto", T + "src/tensor/tensor.ipp"), ("write_inorder, read_inorder", T + "src/memory/tensor_io.ipp")],
     "round-trip property testing of messages and save/load histories against a model of the file")
prop("C07", "Damaged or unfitting stored data is refused without harm",
     "Stored tensor data whose type, shape or amount of data is inconsistent is refused, and the tensor or node it was offered to keeps its shape, value and status; data that is consistent is accepted as it is. "
     "A file that cannot be parsed or does not exist makes loading report failure and change nothing, and saving over it is refused and leaves it as it was.",
     ["inputs", "fault_sequences"], "all damaged messages and files (cut, grown, flipped and replaced parts) against targets in any state",
     "No test loads damaged data.",
     [T + "src/memory/tensor_io.ipp", T + "src/tensor/tensor.ipp"],
     [("tensor::from_proto", T + "src/tensor/tensor.ipp"), ("read_inorder, write_inorder", T + "src/memory/tensor_io.ipp")],
     "structured mutation fuzzing of serialized messages and files with an acceptance oracle")
OPS = T + "src/graph/operations/"
prop("C08", "Elementwise operations compute their function on every element",
     "Each elementwise function, operator and comparison, applied to nodes or to a node and a scalar on either side, yields at every position the function of the operands' elements there; operands of one element pair with every element of the other, and the result has the shape of the larger operand. "
     "Results follow later changes of their operands, and operations that differ in function, operand order or scalar are never confused with each other. "
     "Operands of incompatible shapes are refused when evaluated.",
     ["inputs"], "all operations, shapes, scalars and element values",
     "The tests draw one random shape and value range per operation, compute the expectation elementwise only for a few of them, and never mix scalars on either side, sharing of nodes and later changes.",
     [OPS + "elementary.ipp", OPS + "operation_utils.ipp", T + "include/graph/operations/operations.hpp", T + "src/graph/connector/immutable/immutable.ipp"],
     [("elementary operations", OPS + "elementary.ipp")],
     "property-based testing of random operations, operands and scalars against a reference evaluation")
prop("C09", "Simplifying and sharing expressions never changes their value",
     "Whatever simplifications are made while an expression is built (folding constants, neutral and absorbing elements, double negation and double transposition, reuse of an equal existing node), every node has the value that evaluating the written expression element by element gives, now and after any later change of its leaves.",
     ["inputs", "histories"], "all expressions over variables, placeholders and constants, in particular with zeros, ones and repeated subexpressions",
     "The tests cover single simplifications on single operations; wrong sharing or folding shows in combinations and after updates.",
     [OPS + "elementary.ipp", OPS + "transform.ipp", OPS + "matmul.ipp", OPS + "operation_utils.ipp"],
     [("constant folding and node lookup", OPS + "elementary.ipp"), ("unary_parent_search, ordered_binary_parent_search", OPS + "operation_utils.ipp")],
     "property-based testing: random expression graphs against an evaluation that neither folds nor shares")
prop("C10", "Evaluating a node always reflects the current leaves",
     "After any history of changing leaves, giving them their first data, evaluating, asking for shapes, building further nodes, joining graphs, copying nodes and failing evaluations, the evaluation of a node equals its expression computed from the present values of the leaves, and is missing exactly while a needed leaf has no data. "
     "Evaluation never changes a leaf.",
     ["histories"], "all interleavings of leaf updates, evaluations, shape queries, node construction and copies",
     "Each test evaluates a fixed graph once or twice; stale caches and lost updates need particular orders of updates and reads.",
     [T + "src/graph/connector/iconnector.ipp", T + "src/graph/connector/immutable/base_immutable.ipp", T + "src/graph/connector/immutable/immutable.ipp", T + "src/graph/react/subject.cpp"],
     [("deferred updates of a graph", T + "src/graph/connector/iconnector.ipp"), ("base_immutable::update", T + "src/graph/connector/immutable/base_immutable.ipp")],
     "stateful model-based testing of update and read histories over random graphs")
prop("C11", "A frozen graph keeps its values until it is unfrozen",
     "Freezing any node of a graph brings all its nodes up to date and holds every node at that value, whatever happens to the leaves and even if further nodes join the graph, until some node of it is unfrozen; from then on every evaluation reflects the leaves again, including changes made while frozen.",
     ["histories"], "all interleavings of freezing, unfreezing, leaf changes and evaluations",
     "One test freezes a small graph once and changes one leaf.",
     [T + "src/graph/connector/iconnector.ipp", T + "src/graph/connector/immutable/base_immutable.ipp"],
     [("freeze_status", T + "src/graph/connector/iconnector.ipp")],
     "stateful model-based testing of freeze histories")
prop("C12", "Operations along an axis pair every element with its position there",
     "Adding, subtracting, multiplying or dividing a tensor by an operand that lacks one of its axes pairs every element with the operand's element at the same remaining coordinates, on whichever side the operand stands and for every axis, and has the shape of the larger operand. "
     "Operands whose remaining dimensions differ are refused.",
     ["inputs"], "all shapes, axes and operand sides",
     "The tests use a few random shapes where the axis and size rarely coincide with other dimensions.",
     [OPS + "elementary.ipp"], [("axial operations", OPS + "elementary.ipp")],
     "property-based testing against a coordinate-wise reference")
prop("C13", "Reductions combine exactly the elements of each slice in order",
     "Sum, mean, maximum, index of the maximum and custom reductions, over the whole tensor or along one axis, combine exactly the elements of each slice, each once and in order, and remove that axis (or yield one element); equal maxima yield the first index. "
     "Reducing along a missing axis leaves the values as they are; the norm is the root of the sum of all squares, and clipping by norm scales exactly the tensors above the cap down to it.",
     ["inputs"], "all shapes, axes, reductions and contents (ties, order-sensitive collectors)",
     "The tests reduce one random tensor per operation with order-insensitive collectors.",
     [OPS + "transform.ipp"], [("compress, arg_compress, reduce_sum, reduce_max, reduce_mean, arg_max", OPS + "transform.ipp")],
     "property-based testing with order-sensitive collectors against a slice-by-slice reference")
prop("C14", "Rearranging transforms move every element to its place",
     "Transposing two axes, flipping an axis, repeating along an axis and fitting to another node's shape place every element at the coordinate their definition gives (fitting cuts or pads with zeros), for every rank and axis; transposing or flipping twice restores the operand. "
     "Two-dimensional correlation and convolution sum the products of the filter with every window of the operand.",
     ["inputs"], "all shapes, axes, factors and chains of transforms",
     "The tests use matrices and few axes; ranks above two and chained transforms are not sampled.",
     [OPS + "transform.ipp"], [("transpose, fit, extend, flip, cross_corr2d, conv2d", OPS + "transform.ipp")],
     "property-based testing of chains of transforms against a coordinate-wise reference")
prop("C15", "Matrix products equal the textbook definition",
     "The product of two matrices, plain or transposed on either side, or of two equally deep stacks of matrices, has the shape and elements of the textbook definition, whichever algorithm the sizes select and whatever the operands' leaves are changed to. "
     "Operands whose inner or stacking dimensions differ are refused.",
     ["inputs"], "all sizes (above and below the threshold of the fast algorithm), stacks, transpositions and contents",
     "The tests multiply a few small matrices; the fast algorithm for large sizes is compared on one size.",
     [OPS + "matmul.ipp"], [("matmul, strassen, cubic_mul", OPS + "matmul.ipp")],
     "property-based testing against a textbook product, built with and without the fast algorithm")
prop("C16", "Derivatives equal the exact derivative of the expression",
     "For every expression of differentiable elementwise operations the derivative by a variable equals, at every element, the exact derivative of the written expression at the present values of the leaves, and transposing or flipping rearranges it likewise; for a scalar built from sums, means and norms it is the derivative of that scalar by each element. "
     "The derivative is one by itself, zero by a variable the expression does not contain, and follows later changes of the leaves.",
     ["inputs", "histories"], "all expressions, variables and leaf contents, derived before or after changes",
     "The tests check the derivative of single operations with a hand-written formula.",
     [OPS + "elementary.ipp", OPS + "transform.ipp", T + "src/graph/connector/immutable/immutable.ipp", T + "src/graph/connector/immutable/base_immutable.ipp", T + "src/graph/leaf/variable.ipp"],
     [("backward functions of the operations", OPS + "elementary.ipp"), ("immutable::backward_pass", T + "src/graph/connector/immutable/immutable.ipp")],
     "property-based testing against forward-mode automatic differentiation")
prop("C32", "Gradients of layered networks equal the exact gradients",
     "For networks of matrix products (weights on either side, transposed or not), biases and activations, and sums of several branches that share weights, the derivative of the output or of a squared-error loss by every weight, bias and input equals the exact derivative of its sum, for every batch size and after every change of the leaves.",
     ["inputs", "histories"], "all network structures, sizes, activations and contents",
     "The tests compare the gradient of one matrix product and one two-layer network with a formula for fixed sizes.",
     [OPS + "matmul.ipp", OPS + "elementary.ipp", OPS + "transform.ipp", T + "src/graph/connector/iconnector.ipp", T + "src/graph/connector/immutable/base_immutable.ipp"],
     [("jacobian lists of nodes", T + "src/graph/connector/iconnector.ipp"), ("jacobian of a matrix product", OPS + "matmul.ipp")],
     "property-based testing against forward-mode automatic differentiation of random networks")
prop("C17", "Destroying nodes takes exactly their dependents along",
     "Destroying a leaf or an operation destroys every node computed from it, empties the handles of those nodes, and leaves all other nodes working with their right values; nothing that is gone is touched again, in whatever order nodes are built, read, derived, copied and destroyed. Operations on an emptied handle give an empty handle and leave the value of their other operand alone. "
     "Once every leaf of a graph is destroyed, the memory of the whole graph is returned.",
     ["histories"], "all interleavings of building, evaluating, deriving, copying and destroying nodes",
     "The tests destroy a node or two of fixed graphs in a fixed order and cannot see the memory of what they lost.",
     [T + "src/graph/react/iobserver.cpp", T + "src/graph/react/subject.cpp", T + "src/graph/connector/iconnector.ipp", T + "src/graph/connector/immutable/base_immutable.ipp", T + "src/graph/varptr.ipp"],
     [("death of observers", T + "src/graph/react/iobserver.cpp"), ("update queue of a graph", T + "src/graph/connector/iconnector.ipp")],
     "stateful model-based testing of destruction histories under AddressSanitizer with a balance of allocated memory")
prop("C33", "Repeated work does not take more and more memory",
     "Once warmed up, repeating the same work on the same objects leaves no more memory allocated than before, however often it is repeated: allocating, copying, moving, storing and releasing tensors; changing, reading, deriving, freezing and copying expressions; training, asking, saving and restoring networks, agents with a full memory of experiences and restricted machines. "
     "Copies made on the way return their memory when they are destroyed.",
     ["histories"], "all rounds of operations repeated on the same objects",
     "The tests run every operation once and never look at the memory it leaves.",
     [T + "src/tensor/tensor.ipp", T + "src/graph/connector/immutable/immutable.ipp", T + "src/graph/connector/immutable/base_immutable.ipp", T + "src/graph/connector/iconnector.ipp", R + "src/models/gd_net.cpp", R + "src/models/dq_net.cpp", R + "src/models/rbm.cpp"],
     [("tensor::copy_helper, move_helper", T + "src/tensor/tensor.ipp"), ("dq_net::store", R + "src/models/dq_net.cpp")],
     "generated rounds of operations, repeated, with the balance of allocated memory after every round")
prop("C18", "Subjects and observers know each other exactly",
     "After any history of adding, replacing and removing dependencies, copying, moving, assigning, stealing and destroying, a subject's audience is exactly the observers depending on it, at exactly their positions. "
     "A notification reaches each of them exactly once with exactly its positions, and the end of a subject reaches every observer depending on it once.",
     ["histories"], "all histories over several subjects and observers, with repeated subjects and missing positions",
     "The tests wire one or two observers once; repeated positions, replacement and death orders are hardly reached.",
     [T + "src/graph/react/subject.cpp", T + "src/graph/react/iobserver.cpp"],
     [("subject::attach, detach, notify", T + "src/graph/react/subject.cpp"), ("iobserver", T + "src/graph/react/iobserver.cpp")],
     "stateful model-based testing of the observer protocol")
prop("C19", "Assignments and initialisers set variables to exactly what they stand for",
     "Assigning, adding or subtracting a node's value to a variable sets it, whenever the assignment is made, to exactly what the operands hold at that moment (one element fills the whole variable) and changes nothing else; announced changes show in every node computed from it. "
     "Constant initialisers fill with their value, random ones draw independent values of the stated range or moments for every element and every variable, the same after the same seed. "
     "A variable whose shape is unknown, or that is to take a shape that does not fit, refuses to be initialised and stays as it is.",
     ["histories", "inputs"], "all histories of preparing, making and repeating assignments, and all shapes and parameters of initialisers",
     "The tests make one assignment of matching shape and look at ranges of one initialised tensor.",
     [T + "src/graph/leaf/variable.ipp", T + "src/tensor/tensor_handler.ipp", T + "src/utils/utils.cpp"],
     [("assign_func, const_init, rand_uniform, rand_normal", T + "src/tensor/tensor_handler.ipp"), ("variable::assign, assign_add, assign_sub", T + "src/graph/leaf/variable.ipp")],
     "stateful model-based testing of assignment histories, statistical testing of initialisers")
prop("C21", "Optimisers move every trained variable by their rule along the exact gradient",
     "One step of plain gradient descent lowers every variable the objective contains by the learning rate times the (processed) exact derivative at that moment; one step of rmsprop by the rate times the derivative over the root of the running mean of its squares plus a small constant, the mean following every step. "
     "Changed rates and discounts, clones of the optimiser and ignored parts of the expression are respected, and no other leaf is touched.",
     ["histories", "inputs"], "all objectives, rates, discounts, ignored parts and histories of updates and leaf changes",
     "The tests run many steps of one objective and look whether the error falls.",
     [T + "src/utils/gd_utils.cpp", T + "include/utils/gd_utils.hpp"],
     [("gd_updater::calculate, vgb_updater, rmspropupdater", T + "src/utils/gd_utils.cpp")],
     "property-based testing of update histories against forward-mode differentiation and the textbook rules")
prop("C22", "Fully connected networks compute and train by their formula",
     "A layer gives the sum, over its inputs, of input times weight plus bias for every sample of the batch, a network the composition of its layers and activations, for the present values and every input it is applied to. "
     "One training step moves every weight and bias, all at the same point, by the optimiser's rule along the exact gradient of the summed squared error, and evaluating or reading the error changes nothing. "
     "Fresh networks have zero biases and independent weights within one over the root of the number of inputs.",
     ["histories", "inputs"], "all layouts, activations, batch sizes, optimisers and histories of training, evaluating and changing weights",
     "The repository has no tests of its networks; its demos print an error that falls on average.",
     [R + "src/layers/fc_layer.cpp", R + "src/compounds/mlp.cpp", R + "src/compounds/icompound.cpp", R + "src/models/gd_net.cpp"],
     [("fc_layer::operator()", R + "src/layers/fc_layer.cpp"), ("mlp::prop_up", R + "src/compounds/mlp.cpp"), ("gd_net::train", R + "src/models/gd_net.cpp")],
     "stateful model-based testing against a network and back propagation written in plain loops")
prop("C24", "Copied, moved and assigned models are faithful and independent",
     "A clone or copy of a layer, network, restricted machine, belief network or trainer has the same structure and values, gives the same outputs, and has variables of its own, so that training or changing either does not show in the other. "
     "A moved model keeps its variables and everything computed from them; an assigned one becomes equal to its source and what was computed from its old variables is gone. "
     "Models can be destroyed in any order, and once all are gone the memory they took is returned.",
     ["histories"], "all histories of cloning, moving, assigning, applying, changing, training and destroying models",
     "The repository has no tests of copying models.",
     [R + "src/layers/fc_layer.cpp", R + "src/layers/conv_layer.cpp", R + "src/compounds/mlp.cpp", R + "src/models/rbm.cpp", R + "src/models/db_net.cpp", R + "src/models/gd_net.cpp", R + "src/layers/ilayer.cpp"],
     [("copy_helper, move_helper, clean_up", R + "src/compounds/mlp.cpp")],
     "stateful model-based testing of pools of models under AddressSanitizer")
prop("C25", "Saved models are restored exactly and independently",
     "A model saved under a name (its own unless another is given) and initialised later from that file and name has exactly the saved values, and everything computed from it follows. "
     "A name the file does not hold completely, or a missing file, gives freshly initialised values instead; saving changes no model and no other name in the file.",
     ["histories", "agents"], "all histories of saving, overwriting, changing and initialising models and learning agents from several files and names",
     "The repository has no tests of saving models; a demo saves one network once.",
     [R + "src/compounds/icompound.cpp", R + "src/models/gd_net.cpp", T + "src/memory/tensor_io.ipp"],
     [("icompound::initialize, save", R + "src/compounds/icompound.cpp")],
     "stateful model-based testing against a map from names to values")
prop("C23", "The Q-learning agent stores, explores and learns by its rules",
     "An agent keeps every n-th experience it is given, the most recent ones up to its capacity, and trains at every n-th call once a mini batch, drawn evenly from the kept experiences, is available: the mean squared error between the score of the action taken and the reward plus the discounted best score of the target network (none after a final state) lowers the source network by the optimiser's rule along its exact gradient, clipped per variable, and the target network then follows by its rate. "
     "It acts by the best score except for the annealed share of uniformly random actions, and evaluating or acting changes no network. "
     "Copied, moved and assigned agents keep both networks and the experiences, saved and restored ones both networks.",
     ["histories", "inputs"], "all networks, parameters and histories of storing, training, acting, copying and saving",
     "The repository has no tests of its agent; a demo plays one game.",
     [R + "src/models/dq_net.cpp", R + "include/models/dq_net.hpp"],
     [("dq_net::train, variable_setup", R + "src/models/dq_net.cpp"), ("dq_net::action, linear_annealing", R + "src/models/dq_net.cpp"), ("dq_net::store", R + "src/models/dq_net.cpp")],
     "stateful model-based testing against Q-learning written in plain loops, statistical testing of exploration and of the experiences learnt from")
prop("C26", "Restricted Boltzmann machines and belief networks follow their formulas",
     "The probabilities of hidden and visible units given each other equal the logistic function of their weighted inputs for every sample of a batch, reconstructions are given by units sampled with those probabilities, and a training step moves weights and biases by the learning rate times the difference of the gradients of the mean free energies of the data and of the end of the sampling chain, a kept chain continuing where it ended. "
     "The costs equal the reconstruction cross entropy and the pseudo likelihood; a belief network trains each of its machines on the probabilities given by the ones below and leaves the others alone, and is fine tuned as a whole, all parameters at once by a gradient times the learning rate; nothing but training changes a variable.",
     ["inputs", "histories"], "all machine sizes, batches, contents and histories of training and changing variables",
     "The repository has no tests of these models; a demo trains one network.",
     [R + "src/models/rbm.cpp", R + "src/models/db_net.cpp"],
     [("rbm::train, prop_up, prop_down", R + "src/models/rbm.cpp"), ("db_net::pretraining_functions", R + "src/models/db_net.cpp")],
     "stateful property-based testing against the formulas in a plain reference model, saturated units making the sampled chains certain, and counts of samples")
prop("C27", "Random nodes sample their distribution, stably and afresh when they should",
     "A binomial sample has, for every element, an integer between zero and its number of trials, distributed with the mean, variance and independence of its number and chance, whether these are numbers, constants or changing nodes; it is drawn anew exactly when an operand changes and depends on every operand. "
     "A source of values shaped like a node stays empty until that shape is known, then keeps values from its distribution through every later change; clones, copies, moves and users of it agree with it. "
     "The same seed gives the same samples.",
     ["inputs", "histories"], "all operands, distributions and histories of changing, reading, copying and moving",
     "The tests draw from one distribution of fixed parameters and look at ranges and rough means.",
     [OPS + "elementary.ipp", T + "src/graph/connector/immutable/generator.ipp", T + "src/graph/react/subject.cpp"],
     [("binomial_sample", OPS + "elementary.ipp"), ("generator", T + "src/graph/connector/immutable/generator.ipp")],
     "stateful property-based testing against bounds, statistical moments and a model of what must stay")
prop("C28", "Shared caches deliver the newest items and threads stop when told",
     "Every consumer of a cache shared between threads sees the newest item of every key, never one that was replaced before it asked, and after finitely many reads has seen all; a consumer with nothing new waits, and every waiting consumer is woken by a new item or by an escape. "
     "A stoppable thread runs with its arguments until it ends or is told to stop, ends then wherever it checks or waits, and can be stopped, moved, joined and destroyed at any time, even before it was started or after it ended. "
     "There are no data races.",
     ["schedules", "histories"], "all histories of producers and consumers and all schedules of their threads",
     "The repository has no tests of these classes, and a test sees one schedule.",
     [T + "include/thread/shareable_cache.hpp", T + "src/thread/shareable_cache.ipp", T + "include/thread/stoppable_thread.hpp", T + "src/thread/stoppable_thread.cpp", T + "src/thread/stop_flag.cpp"],
     [("shareable_cache::get_latest, add_latest", T + "src/thread/shareable_cache.ipp"), ("stop_flag, stop_wait", T + "src/thread/stop_flag.cpp")],
     "stateful property-based testing against a map of newest versions, and random schedules of real threads under AddressSanitizer and ThreadSanitizer")
prop("C20", "Derivatives along an axis pair every element with its slice",
     "The derivative of any expression that combines a tensor with an operand lacking one of its axes, or that reduces a tensor along an axis by sum or mean and goes on with operands of the reduced shape, equals at every element of a variable the exact derivative of the sum of the output by that element. "
     "By the operand without the axis it adds up all elements the operand's element is paired with, by the full tensor it is repeated along the axis. "
     "It does not depend on which other derivatives were asked for before.",
     ["inputs", "histories"], "all shapes, axes, functions around both operands, orders of operations and orders of deriving",
     "The tests derive no operation along an axis.",
     [OPS + "elementary.ipp", OPS + "transform.ipp"],
     [("add_axial_a .. div_axial_b, axial_spread", OPS + "elementary.ipp"), ("compress", OPS + "transform.ipp")],
     "property-based testing against forward-mode differentiation of the same expression over generated shapes, axes and expressions")
prop("C29", "Recorded edges are exactly those of the living graph",
     "With edge recording on, the edge list written at any moment has exactly one line for every argument of every living operation (of all graphs, or of the graph of a given node), naming the operation, the argument, their shapes if asked for, and the argument's position, whatever nodes were built, simplified, copied, moved, assigned and destroyed before. "
     "In short form nodes are numbered one to one; in long form they are named by label and identity.",
     ["inputs", "histories"], "all histories of building, changing, copying, moving, assigning and destroying nodes, both forms, with and without shapes",
     "The tests build without edge recording.",
     ["app/tenncor/src/edgeinfo/adjlist_record.cpp", "app/tenncor/src/edgeinfo/csv_record.cpp", "app/tenncor/include/edgeinfo/csv_record.hpp", "app/tenncor/src/graph/react/subject.cpp", "app/tenncor/src/graph/react/iobserver.cpp"],
     [("edge_capture, edge_release, node_release", "app/tenncor/src/edgeinfo/adjlist_record.cpp"), ("to_csv", "app/tenncor/include/edgeinfo/csv_record.hpp"), ("attach, detach", "app/tenncor/src/graph/react/subject.cpp")],
     "stateful property-based testing against the edges reachable from the nodes a model holds")
prop("C30", "Clients of the visualisation service can follow the graph exactly",
     "A client of the visualisation service, whenever it subscribes and however many others do, is told of every argument of every living operation, of every node that was destroyed and of every node whose value changed, and of nothing else, so that the newest messages it has describe the graph. "
     "Ending a subscription ends that client's streams and no others, clients can come, leave and return at any time, and stopping the service ends all streams at once. "
     "When its address is in use the program goes on without it.",
     ["inputs", "histories", "schedules"], "all histories of the graph, of subscriptions and of stopping, real threads and a real connection",
     "The tests never build the service.",
     ["app/tenncor/src/edgeinfo/grpc_vis_record.cpp", "app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp", "app/tenncor/src/thread/shareable_cache.ipp", "app/tenncor/src/graph/react/subject.cpp"],
     [("rpc_record", "app/tenncor/src/edgeinfo/grpc_vis_record.cpp"), ("SubscribeNode, SubscribeEdge, EndSubscription, spawn_server", "app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp"), ("notify, attach, detach", "app/tenncor/src/graph/react/subject.cpp")],
     "stateful property-based testing of a real server and clients over generated histories and schedules, against the graph itself")
prop("C31", "Nodes describe the graph they are in as it was built",
     "Every operation reports its arguments in order, its depth (the longest way to a leaf), its leaves, its name, its entries and, by label, the operations computed from it exactly as the graph was built, after any history of copying, moving, assigning, relabelling and destroying nodes; operations connected through arguments or copies are in one graph, others are not, and an operation counts as possible part of those that have all of its leaves. "
     "Deriving an expression by an operation it contains gives the expression with that operation replaced by one, and follows the leaves from then on; by an operation it does not contain it gives zero. "
     "Neither changes any node.",
     ["inputs", "histories"], "all graphs of operations with up to four, also repeated, arguments, and all histories of changing them",
     "The tests look at single trees without repeated arguments, before anything in them was moved, assigned or destroyed.",
     [T + "src/graph/inode.ipp", T + "src/graph/connector/iconnector.ipp", T + "src/graph/connector/immutable/base_immutable.ipp", "app/tenncor/src/graph/react/iobserver.cpp"],
     [("find_audience, extract_metadata", T + "src/graph/inode.ipp"), ("get_name, get_depth, is_same_graph, potential_descendent", T + "src/graph/connector/iconnector.ipp"), ("derive, temp_eval_helper, get_leaves", T + "src/graph/connector/immutable/base_immutable.ipp")],
     "stateful property-based testing against a model of the graph as it was built, and differential evaluation with a part replaced")
NOT_APPLICABLE = []
