add('C01', 'Element-wise operators report the ONNX broadcast of their inputs or refuse',
    'For every pair (and for Max/Min/Sum/Where every tuple) of input shapes, shape inference of the element-wise operators Add Sub Mul Div Mod Pow '
    'Max Min Sum Less LessOrEqual Greater GreaterOrEqual Equal And Or Xor Where reports exactly the ONNX multidirectional broadcast shape, raises when '
    'the shapes do not broadcast, and never changes the shape of an input. The reported element type is that of the inputs, boolean for comparisons and '
    'logic. Unary element-wise operators (Neg Abs Ceil Floor Exp Log Sqrt trigonometric Sigmoid Tanh Relu family Softmax LogSoftmax Erf Identity '
    'Reciprocal Round Gelu Silu Dropout) and PRelu keep the shape and element type of their first input.',
    'every dimension value (including 0 and 1) and every rank combination',
    TESTS + '; the claim ranges over every extent and rank combination of 40 operators.', [N],
    [('shape_infer of element-wise nodes', N), ('_broadcast_shape / _max_shape helpers', N)],
    'Exhaustive over all extents 0..100000 (1..30 for three value-evaluated comparisons) at ranks 0-4 in the listed rank combinations; trusts z3, the '
    'shadow-numpy model (each path is replayed on the real package) and CPython.')
add('C02', 'Convolution and pooling output extents follow the ONNX window formulas',
    'For every input extent, kernel, stride, dilation, begin/end padding and auto_pad mode whose window fits, Conv, ConvInteger, QLinearConv, MaxPool and '
    'AveragePool (1 to 3 spatial axes, floor and ceil mode) and ConvTranspose (with output_padding, output_shape, groups) report exactly the output '
    'shape of the ONNX specification, with attributes given or left to their defaults. Global average pooling, DepthToSpace, Resize/Upsample (scales or '
    'sizes, of all or listed axes, keeping the aspect ratio or not) and GridSample likewise report the specified shape. The element type follows the specification (int32 for ConvInteger, that of the output '
    'zero point for QLinearConv, otherwise that of the data); the Indices of MaxPool have the shape of its values and type int64.',
    'every window geometry within the stated extents, and every subset of omitted attributes',
    TESTS + '; none touches a window operator, and the formulas involve floor/ceil divisions that samples do not settle.', [N],
    [('Conv/ConvTranspose/pooling shape_infer', N), ('auto_pad helpers', N)],
    'Exhaustive over extents 1..100000, kernels to 7, strides to 4, dilations to 3, pads 0..5, 1-3 spatial axes. Integer true division is encoded as exact '
    'rational arithmetic (exact below 2^51).')
add('C03', 'Data-layout operators report the ONNX output shape for every index argument',
    'For every input shape and every legal index argument (negative and unordered axes, out-of-range slice bounds, negative steps, -1/0 reshape targets, '
    'attribute or tensor form, omitted optional arguments), Reshape, Transpose, Flatten, Squeeze, Unsqueeze, Concat, Split, Slice, Gather, GatherND, '
    'GatherElements, ArrayFeatureExtractor, Scatter*, Expand, Tile, Pad, ConstantOfShape, Shape and Cast report exactly the shape and element type of the ONNX specification. '
    'Reshape and Expand refuse targets that the input cannot take. Empty and scalar inputs are included.',
    'every extent, axis choice, slice bound/step, split, pad and permutation within the bounds',
    TESTS + '; layout operators take index data whose corner cases (negatives, clamping, empties) are unbounded.', [N],
    [('shape_infer of layout nodes', N), ('_axes_neg2pos', N)],
    'Exhaustive within ranks 0-4 and extents to 100000 (12 where element counts are multiplied).')
add('C04', 'Reductions, selection, normalisation and recurrent operators report ONNX shapes',
    'For every input shape and every axis choice (negative, unordered, omitted; attribute or tensor form) ReduceMean/Sum/Prod/Min/Max/L2, ArgMax, TopK, '
    'OneHot, CumSum, Range, RoiAlign, LSTM and GRU (either layout, any direction) report exactly the shape and element type of the ONNX specification, where omitted or empty reduction axes mean '
    'all axes (none with noop_with_empty_axes) and an omitted TopK axis means the last one. Batch/Instance/Layer/Lp normalisation, LRN, Hardmax, Dropout, Random*Like, QuantizeLinear and '
    'DequantizeLinear preserve the shape of their first input; the latter two take the element type of output_dtype, else of the zero point (QuantizeLinear) or scale (DequantizeLinear). Further results (the mean and inverse deviation of LayerNormalization, the running statistics of BatchNormalization, the mask of Dropout, the indices of TopK) '
    'have the specified shape and element type, too.',
    'every extent and every axis list of the stated ranks',
    TESTS + '.', [N], [('shape_infer of reduction/selection nodes', N)],
    'Exhaustive over ranks 1-4 (2-5 for normalisations) and extents up to 100000 (12 for value-evaluated operators).')
add('C05', 'Matrix products and einsum report the ONNX shape and refuse mismatched operands',
    'MatMul, MatMulInteger and QLinearMatMul report the shape numpy-style matrix multiplication has (vectors promoted, batch dimensions broadcast) for '
    'operands of any rank, and raise exactly when the operands cannot be multiplied; Gemm does so for matrices under every transpose flag. Einsum '
    'reports, for explicit, implicit and ellipsis equations, the extent of every output label in the order of the equation, and refuses operands whose rank or extents do not match.',
    'all operand extents and rank combinations; every equation of a stated family with all extents',
    TESTS + '; no test multiplies matrices.', [N], [('GemmNode/MatMulNode/QLinearMatMulNode/EinsumNode.shape_infer', N)],
    'Exhaustive over extents 1..100000 for ranks 1-4 and 25 equations.')
add('C06', 'Constant folding of element-wise operators computes the ONNX result',
    'When the inputs of an element-wise operator are known, the folded tensor has exactly the ONNX value, shape and element type: integer division '
    'truncates, Mod follows its fmod attribute, Min/Max/Sum take any number of inputs, Clip bounds may be absent, Pow keeps the type of its base, '
    'comparisons give booleans, casts convert, broadcasting applies. Inputs are left unmodified.',
    'all element values within the bounds at several broadcast patterns',
    TESTS + '; Pow and Where are folded on one example each.', [N], [('value_infer of element-wise nodes', N)],
    'Exact over integers; floating arithmetic idealised as reals and transcendental functions uninterpreted.')
add('C07', 'Constant folding of data-movement, reduction and product operators is ONNX-exact',
    'When the inputs of Slice, Gather*, Scatter*, Concat, Split, Reshape, Transpose, Squeeze, Unsqueeze, Expand, Tile, Pad, OneHot, Shape (with start and end), '
    'Constant, CumSum, ArgMax, Range, ConstantOfShape, Trilu, the Reduce family, MatMul, MatMulInteger, Gemm and similar operators are known, the folded tensor holds, element for element, the '
    'ONNX result with its shape and element type, for every legal axis, index, bound, step, pad (negative ones crop) and permutation. Inputs are left unmodified.',
    'all element values and every legal axis/index/bound/step within small extents',
    TESTS + '; none folds along a negative axis or step.', [N], [('value_infer of layout, selection, reduction and product nodes', N)],
    'Extents up to 3 per axis, ranks 0-4 (one rank-6 Slice); floating arithmetic idealised as reals.')
add('C08', "Every operator's cost is the documented count of MACs and elements",
    'profile() of an operator reports as MACs exactly the documented arithmetic count: output elements times the per-element instruction weight for '
    'element-wise operators; output elements times the contracted or window extent for Conv, ConvInteger, QLinearConv, pooling, MatMul, MatMulInteger, '
    'QLinearMatMul, Gemm and Einsum (plus one addition per output element where there is a bias); input elements times output channels and kernel '
    'extent for ConvTranspose; the gate products for LSTM and GRU; the per-element and per-group count for reductions, normalisations and Resize; zero '
    'for data movement. The activation count is the number of elements of the outputs, and the weight count that of the inputs marked '
    'static (for Gather, as many table elements as it outputs).',
    'every extent, kernel, group, bias, axis, rank and static/dynamic input combination within the bounds',
    TESTS + '; no test profiles an operator.', [N],
    [('Node.profile / _profile_core of every operator', N)],
    'Exhaustive over extents to 4096 (64 for convolutions), ranks 1-5. Scalar (rank-0) operands excluded: the tool counts them as zero elements.')
G = 'onnx_tool/graph.py'
add('C09', 'Whole-graph shape inference reports every tensor shape, computed ones included',
    'After Graph.shape_infer every tensor has the shape the ONNX model gives it at the stated input sizes, also where shapes are computed inside the '
    'graph (Shape/Gather/Slice/Concat chains feeding Reshape, Resize, Expand, Slice, Range, Tile, Pad, TopK), in any node order after '
    'graph_reorder_nodes, with or without constant folding, for declared or fed inputs, and again when run for a second size. if_fixed_branch replaces an If '
    'by the chosen branch, fixed_topk gives every TopK the stated k, however k was given, and both remove the subgraph they replace. An input whose size is unknown or negative is refused '
    'with a ValueError naming it.',
    'all input sizes within the bounds, per graph family, node order, folding mode and feeding mode',
    TESTS + '; none builds a graph.', [G, N, 'onnx_tool/tensor.py'],
    [('Graph.__init__, __remove_if__, __set_fixed_topk, __constant_search__, __find_shape_tensors__, shape_infer', G), ('Tensor.update_tensor', 'onnx_tool/tensor.py')],
    '14 graph families of 3-18 nodes, extents up to 512, exhaustive over sizes.')
T = 'onnx_tool/tensor.py'
I = 'onnx_tool/__init__.py'
add('C10', 'Profile totals and printed tables equal the sums over the covered nodes',
    'After shape inference and profile the model totals (MACs, memory, parameters) are the sums of the per-node figures over the nodes that are not '
    'excluded, a shared weight being counted once in the deduplicated total (weights only excluded nodes read not at all); a node\'s memory is the bytes of its outputs plus its own weights at their element size. '
    'print_node_map prints one row per covered node and a total row holding these figures, their percentages and (metric FLOPs) exactly twice the MACs, '
    'as text or csv; with sparse weights also the pattern and ratios of each node\'s sparsest operand. Excluded or hidden operators of one call do not affect another, an unknown exclude_ops name is refused, and profiling before shape inference is refused.',
    'all extents and all per-node costs within the bounds, per graph family and option combination',
    TESTS + '; no test profiles a graph.', [G, I, 'onnx_tool/utils.py'],
    [('Graph.profile, print_node_map', G), ('model_profile', I), ('print_table', 'onnx_tool/utils.py')],
    'Six graph families, extents up to 4096, exhaustive over sizes; printed numbers are compared symbolically through text tokens.')
add('C11', 'The compressed memory plan never overlaps two tensors that are alive together',
    'compress_memory gives every activation of the graph a block of the pool that is aligned to the requested padding, at least as large as the tensor and '
    'inside the reported pool size. Two tensors whose lifetimes overlap (from the node producing them to the last node reading them; graph outputs to the '
    'end) never share a byte. The pool is never larger than the sum of all padded tensors.',
    'all tensor sizes within the bounds, per graph topology, padding and allocation option',
    TESTS + '; no test plans memory.', [G], [('Graph.compress_memory and the pool classes', G)],
    'Topologies of 2-7 nodes (chain, diamond, fan-out, skips, multi-output), sizes up to 2^16 elements, exhaustive over sizes.')
add('C12', 'Node reordering yields a topological order and keeps the graph unchanged',
    'graph_reorder_nodes leaves the same nodes with the same inputs and outputs, ordered so that every node follows the producers of its '
    'inputs, for any initial order of an acyclic graph, and the graph\'s inputs, outputs and activations (dynamics) stay. The producedby and consumedby tables of a graph name exactly the nodes that write and read each '
    'tensor (an operand or result left out by an empty name is none), and topsort_nodes orders any requested subset of nodes in the same way.',
    'every wiring of the stated number of nodes (symbolic connections) and every initial order',
    TESTS + '; no test builds a graph.', [G], [('Graph.graph_reorder_nodes, topsort_nodes, producer/consumer tables', G)],
    'Up to 5 nodes with symbolic connections, all permutations; exhaustive over wirings.')
add('C13', 'Constant folding of a graph removes only input-independent nodes, keeps outputs',
    'Loading a model with constant_folding removes exactly the nodes whose value depends on no graph input (DequantizeLinear and operators that cannot be evaluated, with what depends on them, are kept). What remains '
    'computes the same graph outputs: every tensor still read, and every graph output, that a removed node produced is a constant with the ONNX value, shape and '
    'element type. Graph inputs, outputs and the remaining nodes are unchanged.',
    'all constant values and extents within the bounds, per graph family and node order',
    TESTS + '; no test folds a graph.', [G, N], [('Graph.__constant_search__, __remove_constant__', G)],
    'Graph families of 2-6 nodes, element values and extents symbolic; floating arithmetic idealised as reals.')
add('C14', 'Tensor data and types survive loading from and saving to protobuf',
    'A Tensor built from an ONNX TensorProto (numeric, boolean or text; raw or typed storage) carries its name, shape, element type and exact values, '
    'reports its byte size from them, and saves back to a proto holding the same; tensor, number, list and text attributes of nodes read as they are. One built from a value info '
    'keeps declared, named and unknown dimensions, loading and saving alike. update_tensor, update_proto and the create helpers set data, '
    'shape and element type together.',
    'all element values and dims within the bounds, per element type and storage form',
    TESTS + '; no test loads a tensor.', [T], [('Tensor class and proto conversion helpers', T)],
    'Up to 4 elements per tensor, ranks 0-3, 16 element types (bfloat16 and float8 excluded).')
add('C15', 'Saving a loaded model writes the same model back, with its options honoured',
    'Model(...) of a proto, path or pathlib path followed by save_model writes a model with the same nodes (operator, domain, name, inputs, outputs and every attribute '
    'with its type and value, whatever the attribute is called), operator sets, IR version, local functions and metadata, the initialisers in use with their values, the inputs in their declared order, and input, output and intermediate declarations (a scalar keeps its empty shape), showing the inferred '
    'shapes after shape inference and the edited attributes and data after edits. shape_only leaves out the weight data (weights become inputs with their shapes); no_shape leaves out '
    'intermediate shapes. model_reorder_nodes and model_constant_folding save the reordered and the folded model.',
    'every attribute value, element value and dimension within the bounds, per option combination',
    TESTS + '; no test saves a model.', ['onnx_tool/model.py', G, N, T, I],
    [('Model', 'onnx_tool/model.py'), ('Graph.save_model, make_graph_onnx', G), ('Node.make_nodeproto', N), ('Tensor.make_value_proto, make_tensor_proto', T)],
    'Exhaustive over 64-bit attribute integers, dims to 10^6 and element values of small tensors; graphs of 1-7 nodes; protobuf and file I/O are modelled and every path is replayed with real files.')
add('C16', 'Command line, input re-declaration and weight export do what they are asked',
    'python -m onnx_tool in its four modes does what the corresponding function does with the options given (-d sizes with or without element type and values, -e exclusions, '
    '-o model, -f table, --names, --fp16) and refuses faulty ones. model_io_modify sets exactly the dimensions of the named inputs and outputs (a number is a size, anything else a name), '
    'refuses a different rank and keeps everything else of the model. model_export_tensors_numpy writes each requested weight, '
    'as float16 only when asked, to one file inside the folder, named after the weight with separators replaced.',
    'every dimension text, weight name and size within the bounds, per option combination',
    TESTS + '; no test runs the command line or saves anything.', [I, 'onnx_tool/__main__.py'],
    [('__main__ mode dispatch', 'onnx_tool/__main__.py'), ('model_io_modify, model_export_tensors_numpy', I)],
    'Texts are symbolic characters; export is checked for every weight name of up to 4 characters over a/b/dot/slash/backslash, with numpy.save recorded instead of executed.')

add('C17', 'Shape regression reproduces shape inference; the compute graph drops shape nodes',
    'The engine shape_regress returns gives, after update_variable for each variable and update_variables, for every activation the shape that shape_infer reports at that '
    'size, inside and outside the sampled range, when every extent is a one-variable relation of the kind a*x+b or a halving (strided window chains) that the three sampled '
    'sizes (ends and midpoint) determine; a sampled size it cannot fit is warned about, and generate_input builds inputs of the current size. '
    'get_compute_graph returns a copy without exactly the nodes whose results only reach the outputs through shape operands (Reshape targets, Slice bounds, Resize sizes, ...): '
    'the other nodes, inputs, outputs, shapes and node order stay, every data operand is still available, and the original graph is not modified. '
    'model_shape_regress returns both.',
    'every later size of every variable, every offset and range of the fitted relations',
    TESTS + '; none builds a shape engine or compute graph.', [G, I], [('ValueExpr, ShapeEngine, Graph.shape_regress', G), ('Graph.get_compute_graph', G)],
    'Exhaustive over later sizes 1..512 for 11 graph families and over the stated ranges of fitted relations; extents depending on two variables are outside.')

add('C18', 'Extracted subgraphs have the right borders and compose to the whole model',
    'get_iotensors of a set of nodes lists, each once, exactly the tensors they read but do not make (weights only on request) and exactly those they make that are read '
    'elsewhere, read nowhere or are graph outputs. get_onnxgraph_by_nodenames and model_subgraph write these nodes unchanged in topological order with these inputs and '
    'outputs, their declared shapes and exactly the weights used, so that the part computes the values the whole model does; the original graph stays. '
    'get_subgraph puts every node into exactly one of three parts, level 2 behind the given outputs, level 1 behind the given inputs otherwise, level 0 the rest, so that '
    'running them in order yields every graph output; model_subgraph saves the parts that have nodes as <model>_level0..2.onnx or _subgraph.onnx.',
    'every wiring, node subset and element value within the bounds',
    TESTS + '; none extracts a subgraph.', [G, I], [('get_iotensors, get_onnxgraph_by_nodenames, get_subgraph', G), ('model_subgraph', I)],
    'Exhaustive over wirings of 2-3 operators with symbolic operands; values are integers without wrap-around.')

add('C19', 'Removing, skipping and dumping keep the rest of the graph consistent',
    'remove_node, remove_subtree and remove_dangling_nodes take out exactly the named node, everything depending on it, and exactly the nodes no graph output '
    'depends on; the other nodes, the remaining graph outputs and the producer and consumer tables stay right and the results keep their values. skip_node (and '
    'removeShapeOps) makes every reader of a one-activation one-result node read that activation instead, keeping graph output names, and leaves other nodes alone. '
    'add_dump_tensors appends each named tensor to the graph outputs once, with its value; add_initial and add_dynamic register an array under its name and kind.',
    'every wiring, chosen node and element value within the bounds',
    TESTS + '; none removes a node.', [G, 'onnx_tool/fusion.py'], [('remove_node, remove_subtree, remove_dangling_nodes, skip_node, add_dump_tensors, add_initial, add_dynamic', G),
    ('removeShapeOps', 'onnx_tool/fusion.py')],
    'Exhaustive over wirings of 3 operators with symbolic operands; values are integers without wrap-around.')

F = 'onnx_tool/fusion.py'
add('C20', 'Fusion finds exactly the described structure and replaces it without loss',
    'FusionPattern.search_pattern returns disjoint matches, each with one node of a listed operator per description, satisfying every attribute condition and every described link '
    '(with inplace_fusion also that nobody else reads the linked tensor), and leaves no further occurrence among the remaining nodes; descriptions created from nodes find those nodes. '
    'fuse_subgraph_node_names, fuse_postop_node_names, fuse_subgraph_iotensors and model_opfusion replace a convex node set by one node that reads its outside inputs, produces every '
    'result read outside or output by the graph, keeps the attributes (of every type, as edited) under their documented names, and leaves the other nodes, graph outputs and tables right (a saved model is in order). '
    'ConvBNFusion keeps every graph output value, fusing exactly the constant-parameter convolutions whose result only the normalisation reads.',
    'every wiring, pattern match, attribute value and weight value within the bounds',
    TESTS + '; none fuses.', [F, G, I], [('FusionPattern, AttrExpr, create_descs_from_nodenames, ConvBNFusion, ready-made patterns', F),
    ('fuse_subgraph_node_names, fuse_postop_node_names, fuse_subgraph_iotensors', G), ('model_opfusion', I)],
    'Exhaustive over wirings of 3-4 operators; ConvBN in real arithmetic with an uninterpreted square root.')

add('C21', 'Quantised weights come back within half a step; sparsity figures are true',
    'quantize (symmetric or asymmetric, 8 or 4 bits, per tensor, per row or per block of a row, also all-zero or incomplete blocks) gives one code per value inside the range of its bits '
    'and one step and zero point per group, with (code - zero point) * step within half a step of each value and the smallest such step, and pack_4bits keeps each code as a nibble. '
    'graph_quantize replaces each 2-D float weight of MatMul and Gemm by such codes, steps (and zero points) for all its readers, tells it in their attributes, and changes nothing else. '
    'sparsity_search reports the true fraction of zeros and a block size dividing the weight with the true fraction of all-zero blocks, at most 10% below it.',
    'every weight value, code and zero pattern within the bounds',
    TESTS + '; none quantises or measures sparsity.', ['onnx_tool/quantization.py', T], [('quantize, graph_quantize, pack_4bits', 'onnx_tool/quantization.py'), ('search_sparse_blocksize, sparsity_search', T)],
    'Exhaustive over real weight values in [-8,8] of weights up to 2x2/1x3 (real arithmetic, not float rounding) and all zero patterns up to 4x4.')

L = 'onnx_tool/llm.py'
add('C22', 'A language model built from its configuration is the described architecture',
    'Builder.build_graph makes, for each architecture of ArchMap (and as llama for an unknown one) and every configuration, exactly the layers of that architecture: embedding, norms, Q/K/V (fused or not, biases, Q/K norms), '
    'rope, attention or MLA or linear attention, gated or plain MLP or MoE, residuals, head, with the sizes, attributes, weight names (weight_map) and weight count of the configuration, independent of models built before; '
    'add_kv_cache connects every attention to its past and cache, set_past_kv_length sets that past, build_vision_graph makes the vision tower. '
    'Shape inference at any token count, also decoding one token, agrees with the architecture, the rope tables are right, and save_graph writes a model that loads as the same graph.',
    'every size in the configuration, batch, token count, cache size and past within the bounds',
    TESTS + '; none builds a language model.', [L], [('Builder.build_graph and its add_* layers, add_kv_cache, set_past_kv_length, build_vision_graph, save_graph, ArchMap, WeightMap', L)],
    'Exhaustive over symbolic sizes per architecture and option; data flow is matched against an independent description.')

add('C23', 'Fused language-model operators have the documented shapes and costs',
    'SDPA (GQA, MQA) costs for every batch and head: scores, softmax and weighted sum over all past and current tokens (the longest past of the batch), reports its keys-and-values size and refuses a past that does not fit its cache. '
    'Rope, GeGelu, GDN (linear attention), MoE (router, chosen experts, shared expert and gate; weights of at most the chosen experts) and MLA (low-rank queries, joint keys, window, compression, index) cost the sum of their documented parts '
    'for any attributes, and attributes left out take the documented defaults. Output shapes and element types follow the input.',
    'every size and attribute within the bounds',
    TESTS + '; none uses these operators.', [N], [('SDPANode, GQANode, MQANode, RopeNode, GeGeluNode, GDNNode, MoENode, MLANode', N)],
    'Exhaustive over symbolic sizes; a logarithm is taken at concrete compressed lengths only.')

add('C24', 'Memory, latency and bottleneck of a language model follow from its graph',
    'Builder.profile gives every node twice its MACs as FLOPs, the bytes of activations and weights (keys and values for attention) at the configured bits of its kind, and on a device the compute time at the speed of the configured element '
    'type (FP32 if absent) and memory time at its bandwidth, both shared by the devices linked (matrix and attention work only), plus the exchange of activations; the slower one is the bottleneck. '
    'Totals and context_mem (weights, keys and values, other weights, sum) add them up, and estimating again leaves no trace of earlier ones. '
    'print_profile writes each of these figures, latencies in milliseconds, in a row per node and a total, as text or csv.',
    'every bit width, device speed, bandwidth, link and size within the bounds',
    TESTS + '; none estimates latency.', [L], [('Builder.profile, print_profile', L), ('num2str, print_table', 'onnx_tool/utils.py')],
    'Exhaustive over symbolic devices and bits for three models, in exact rational arithmetic.')

S = 'onnx_tool/serialization.py'
add('C25', 'Serialized engine, graph and memory plan hold everything, byte for byte',
    'The files of serialize_shape_engine, serialize_graph and serialize_memory_compression decode (little-endian counts, zero-terminated UTF-8 names, kind codes before values) to exactly the variables, tensor '
    'descriptions and expressions of the engine, the nodes in order with operators, inputs, outputs and attributes and the weights with type, shape and row-ordered values of the graph, the offsets, sizes, total and largest '
    'variables of the plan, and nothing follows. A number that does not fit its field, an attribute or element type the format has no place for is refused, never written as something else.',
    'every size, factor, attribute value, weight value and offset within the bounds',
    TESTS + '; none serializes.', [S], [('serialize_shape_engine, serialize_graph, serialize_memory_compression', S)],
    'Exhaustive over symbolic numbers; decoded by an independent reader of the format.')

add('C26', 'Evaluated convolutions, pools, normalisations and networks give the ONNX result',
    'Evaluating Conv and ConvInteger (two spatial axes, one group), MaxPool (values and Indices), GlobalAveragePool, BatchNormalization (with given or, in training mode, own statistics), Dropout and Erf on known tensors gives, element for element, the ONNX result with its shape and element type, for every stride, '
    'dilation, explicit or automatic padding, ceil_mode, omitted or empty bias and epsilon: padding counts as zero (the zero point of an integer input) in a convolution and not at all in a maximum. Graph.value_infer returns the value of every '
    'graph output of a network built from such operators; evaluating again, with other inputs, gives the results of those inputs, whatever was evaluated before, and leaves inputs, weights and results handed out earlier unmodified.',
    'every element value and hyperparameter within the bounds, two evaluations in turn',
    TESTS + '; one network is evaluated on one input.', [N, G], [('ConvNode, MaxPoolNode, GlobalAveragePoolNode, BatchNormalizationNode, ErfNode.value_infer', N), ('Graph.value_infer', G)],
    'Exhaustive over hyperparameters of small windows with symbolic real elements; erf and square root are uninterpreted.')

add('C27', 'What is left out of a node means its ONNX default',
    'A node whose optional attribute, optional operand (by an empty name, or by no name at the end) is left out has the same output shapes, element types, value, MACs (and, where the operand counts no bytes, parameters and memory) '
    'as the node that spells out the ONNX default, whatever spelling (attribute, operand, negative axis) the other opset versions use. An optional result that is not asked for (an empty name, or no name at the end) changes nothing about the others. '
    'In a graph what is left out connects no nodes: order, shapes, costs, producers and consumers, subgraphs, the compute graph, removals and skips are those of the graph with names of its own, '
    'and the saved graph keeps the place of every operand and result.',
    'every extent, element value, listing order and choice of left out operands and results within the bounds',
    TESTS + '; the models spell out one way each.', [N, G], [('the constructors and shape_infer, value_infer, profile of every operator; add_default_value', N), ('Graph.__update_consumer_producer__, topsort_nodes, get_iotensors, make_graph_onnx, profile', G)],
    'Exhaustive over symbolic extents and elements for some 95 operators; spellings are listed in props/c27.py.')

I = 'inference/'
add('C28', 'The inference engine runs models right inside one planned memory pool',
    'A MemoryPool accepts a plan exactly when every region (offset not negative, size positive) lies inside the pool; get, indexing and get_batch give dense views of exactly the planned bytes, in the asked shape and the element type of the pool, refuse '
    'unknown names and shapes larger than the region, and fill_tensor, zero_ and to change and keep exactly the elements they should. GraphInfer plans every intermediate result of a model inside its pool, and forward, called again and again with inputs of '
    'any size in the declared ranges, gives every graph output the values and shape ONNX defines, unspoiled by the sharing of memory or by earlier runs; get_tensor_shape reports the sizes of the last run, and an operator without a kernel is refused.',
    'every offset, size, shape, element value and input size within the bounds, three runs in turn',
    TESTS + '; none runs the inference engine (torch is absent).', [I + 'memory_pool.py', I + 'infer.py'], [('MemoryPool, create_memory_pool_from_model', I + 'memory_pool.py'), ('GraphInfer.__init__, forward', I + 'infer.py'), ('Graph.compress_memory, shape_regress', G)],
    'Exhaustive over symbolic plans and element values; torch is replaced by a stand-in of strided views over bytes.')

add('C29', 'Inference kernels compute the ONNX operators they are registered for',
    'Every kernel of inference/kernels.py writes into its output tensors, element for element, what ONNX (or, for the fused attention, rotary, layer-norm, multiply-add and range-gather operators, their definition in this project) defines for its inputs and attributes, '
    'in the shape of the result, whether sizes, axes, indices and pads come as attributes, as integer tensors or as the float tensors the engine hands over; negative axes and indices, asymmetric pads, groups, strides, dilations, omitted operands, transposed matrices, '
    'broadcasting, grouped heads and causal attention over the cached tokens included; attention stores the new keys and values in their cache and changes nothing else, and inputs are left alone.',
    'every element value, index and attribute within the bounds',
    TESTS + '; none runs a kernel (torch is absent).', [I + 'kernels.py'], [('the run method of every class registered in KernelRegistry', I + 'kernels.py')],
    'Exhaustive over attribute forms and small shapes with symbolic real elements; torch is replaced by a stand-in; exp, tanh, erf and roots are uninterpreted.')
add('C30', 'Text generation returns the continuation the model defines, caches or not',
    'For a language model built by Builder, saved, and loaded by LLMInfer with a checkpoint, generate returns the prompt followed by, token by token, the most likely continuation of the whole text so far, ending at the end-of-text token or at max_length tokens, the same with and without '
    'key-value caches, profiled or not, and independently of earlier calls; with a temperature each token is drawn with the probabilities of the softmax of logits / temperature, restricted to the top_k likeliest tokens when top_k is set. '
    'A text fed to the engine in pieces through the caches gives the logits of the whole text: every layer attends to its own cache at the right positions. Every weight reaches its operator under its checkpoint name (linear layers transposed, a tied head from the embedding).',
    'every text, cut of a text, order of logits and drawn token within the bounds',
    TESTS + '; none generates text (torch, tokenizers and checkpoints are absent).', [I + 'llm_infer.py', I + 'infer.py', 'onnx_tool/llm.py'],
    [('LLMInfer.generate', I + 'llm_infer.py'), ('LLMInfer.__init__', I + 'llm_infer.py'), ('get_qwen3_weight_map', I + 'llm_infer.py'), ('GraphInfer.forward', I + 'infer.py'), ('Builder.build_graph', 'onnx_tool/llm.py')],
    'Exhaustive over short texts for one- and two-layer models with symbolic logits; kernels are opaque functions, compared with an independently written architecture.')
add('C31', 'Registered operator classes and kernels decide what their nodes do',
    'An operator class registered under its name (NODE_REGISTRY, as a decorator or by a call) makes every node of its type in graphs loaded or fused afterwards: the attributes of the node, or the declared defaults, are members of it (none hiding what a node is made of), '
    'its shape_infer gives the shapes the rest of the graph is inferred from, its value_infer folds constants and run-time shapes, its costs enter the profile and its totals; other operators and nodes that already exist keep their classes, and registering a name again warns and replaces. '
    'An operator without a class is warned about on loading and refused, by name, by shape inference. A Registry is a mapping from names to what was registered last. A kernel registered in KernelRegistry runs the nodes of its operator in the engine with their attributes and prepared weights.',
    'every extent, attribute value and operand; the arrangements listed in the bounds',
    TESTS + '; none registers an operator.', ['onnx_tool/utils.py', 'onnx_tool/node.py', 'onnx_tool/graph.py', I + 'kernels.py'],
    [('Registry', 'onnx_tool/utils.py'), ('create_node', 'onnx_tool/node.py'), ('Node.__init__', 'onnx_tool/node.py'), ('Graph.shape_infer', 'onnx_tool/graph.py'), ('KernelRegistry', I + 'kernels.py')],
    'Extents and attribute values are symbolic; the registered classes have shapes and costs that depend on both.')
add('C32', 'Detections are decoded, suppressed and scored as COCO metrics define',
    'yolo_postprocess turns rows (x1, y1, x2, y2, confidence, class) - one image, with or without its batch axis - into rows (0, x1, y1, x2, y2, class, confidence) of exactly the detections above the confidence threshold whose box, clipped to the image (height, width), is not empty '
    'and whose IoU with every surviving, more confident detection of the same class is at most the NMS threshold; of these the max_det most confident. '
    'compute_coco_metrics gives, per IoU threshold (0.50:0.05:0.95 unless told otherwise), the mean over the classes with ground truth of the 101-point interpolated average precision of the detections ranked by confidence over all images, each matched to the unmatched ground truth of its image and class it overlaps most, '
    'a hit from the threshold on; mAP@0.5 and the mean over the thresholds follow. Class c of a detection is the category with the c-th smallest id; ground truth of images that were not evaluated does not count. '
    'evaluate_coco, evaluate_image_dir and export_pr_curve evaluate the images asked for (in the order of the annotations or of the names, at most max_images, missing files skipped), compare boxes in the coordinates of the original image and with the annotations of that image.',
    'every coordinate, confidence, class assignment and threshold side; the numbers of detections, objects and images listed in the bounds',
    TESTS + '; none runs the detection evaluation.', [I + 'yolo_eval.py'],
    [('yolo_postprocess', I + 'yolo_eval.py'), ('_nms_per_class', I + 'yolo_eval.py'), ('compute_coco_metrics', I + 'yolo_eval.py'), ('_compute_ap', I + 'yolo_eval.py'), ('YOLOEvaluator.evaluate_coco', I + 'yolo_eval.py'),
     ('YOLOEvaluator.evaluate_image_dir', I + 'yolo_eval.py'), ('export_pr_curve', I + 'yolo_eval.py')],
    'Coordinates and confidences are symbolic; suppression and matching are decided by their order and overlaps, and the metric is compared with an independent definition on every path.')
