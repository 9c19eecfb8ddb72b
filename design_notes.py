"""How each property is decided (hand-written part of DESIGN.md): id -> (oracle/method, why out of reach of tests or notes)."""
ORACLE = {
 'C01': 'Each node class is built from a record proto, its shape_infer runs on shape-only tensors with symbolic extents; the oracle is the multidirectional broadcast rule as a z3 term per output axis, plus '
        '"raises iff some axis has two different extents neither of which is 1". Inputs\' shapes are compared before/after.',
 'C02': 'Extents, kernel, stride, dilation, pads symbolic; the oracle is the ONNX formula with integer floor/ceil division (also the auto_pad ones); non-fitting windows are assumed away. Ceil mode includes the rule that the last window must start inside the data.',
 'C03': 'Shape and index tensors symbolic; the oracle re-states the ONNX operator text (clamping of slice bounds per sign of step, 0/-1 reshape targets, wrapped axes). Refusal clauses are checked in both directions.',
 'C04': 'Axes lists symbolic (negative, unordered, omitted), extents symbolic; oracle = spec rule per output axis.',
 'C05': 'numpy matmul rule as terms; einsum equations are parsed by an independent label mapper.',
 'C06': 'Element values symbolic; the oracle computes each output element with spec semantics (truncating division, sign rules of Mod, casts) and compares element by element, with dtype and shape.',
 'C07': 'Element values and index data symbolic; the oracle is an independent per-element index map of the ONNX operator. Case splits on axes come from the solver (forks), not from enumeration.',
 'C08': 'profile() of every operator on symbolic extents; the oracle is the documented closed form as a polynomial over the extents (nonlinear queries are discharged with polynomial normal forms first, then z3).',
 'C09': 'A graph family is built as a stand-in ModelProto with symbolic input sizes, loaded by the real loader, inferred; the oracle evaluates the same topology with independent shape rules (and values for computed shapes).',
 'C10': 'Totals are compared with sums built from the per-node figures; the printed table is parsed back: symbolic numbers inside text are tokens which compare as the numbers they stand for.',
 'C11': 'Tensor sizes symbolic; the plan is checked pairwise: alignment, containment, and disjointness whenever the lifetimes computed by the oracle from the graph intersect.',
 'C12': 'Each node input is a symbolic choice among all earlier tensors (hidden order), initial order is any permutation.',
 'C13': 'Constants have symbolic elements; the oracle evaluates the original graph (independent evaluator in glib.py) on symbolic inputs and compares with the evaluation of what remains.',
 'C14': 'Element data and dims symbolic, all storage forms; equality of data, type, shape and byte size after each conversion.',
 'C15': 'Model records with symbolic attributes/values are loaded and saved through the stand-in; the record written is compared field by field with the one read. Replays use real files.',
 'C16': 'argv contains tokens/symbolic characters; the functions called by the dispatcher and the files written are recorded and compared.',
 'C17': 'Engine relations are fitted at three sampled sizes and then evaluated at a symbolic later size; the oracle is shape_infer itself at that size (a differential property). The compute graph is compared with an independent data-flow closure.',
 'C18': 'Connections are names of a finite pool (symbolic equality); borders by an independent set computation; parts are evaluated in order and compared with evaluating the whole.',
 'C19': 'As C18 with the edited graph; results are compared through the independent evaluator.',
 'C20': 'All wirings of 3-4 operators are symbolic names; the oracle decides by formula whether an embedding of the pattern exists and checks matches, disjointness and maximality. ConvBN is compared by algebra (uninterpreted sqrt).',
 'C21': 'Weights symbolic reals; codes obey |x - (q-z)s| <= s/2; minimal-step claim by comparison with the closed form; sparsity counted by the oracle over symbolic zero patterns.',
 'C22': 'Configuration values symbolic; the built graph is matched against an architecture description written independently from the configuration (layer by layer data flow), then shape_infer is compared at symbolic token counts.',
 'C23': 'profile/shape_infer of fused operators against closed forms.',
 'C24': 'Rational arithmetic over symbolic device figures; totals are sums; printed rows are parsed back through tokens.',
 'C25': 'Writers run on symbolic byte buffers; an independent reader decodes them and the result is compared value by value; out-of-range numbers must raise.',
 'C26': 'value_infer runs on arrays of symbolic reals, twice into the same result tensors; an independent window enumeration gives the expected polynomial or maximum of every element. Whole graphs are evaluated on two symbolic inputs and the first results compared after the second.',
 'C27': 'The spelling with every default written out is the reference: all other spellings run on the same symbolic operands and must give equal terms. The graph family compares with closed forms.',
 'C28': 'The real memory_pool.py and infer.py run over a stand-in for torch (symex/ftorch.py: strided views over one byte store, so overlapping windows really overwrite each other). Pool geometry is decided over symbolic offsets, sizes and shapes; the engine is run two or three times on every combination of sizes and compared with closed forms of the four graphs.',
 'C29': 'Each registered kernel runs over the torch stand-in on symbolic elements; the oracle is the ONNX definition written as loops. Attention, rotary and cache layouts are written from the documentation in kernels.py.',
 'C30': 'The architecture (embedding, norms, projections, rotary, causal attention, gated MLP, head) is written again over the same opaque kernels; greedy decoding and softmax sampling are the textbook definitions. The branch taken by the decoding loop is decided by the order of symbolic logits.',
 'C31': 'The harness registers classes whose shapes, values and costs are closed forms of symbolic extents and attributes; the same closed forms are the oracle for the tensors, the profile and the totals. The registries are put back after every path.',
 'C32': 'An independent definition of clipping, greedy suppression, matching and 101-point interpolation, written with cross-multiplied overlaps instead of quotients, is run on the same symbolic coordinates and confidences; every comparison of either side splits the path. Confidences differ and no two objects of a class overlap a detection equally (such ties are outside). The drivers run with a stand-in for reading images that returns symbolic detections with several letterbox placements.',
}
