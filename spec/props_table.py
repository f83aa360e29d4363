prop('C01', 'Operations leave the FSAs, tensors, lists and dicts given to them unchanged',
     'No public Python operation changes an FSA, ragged tensor, tensor, list or dictionary that its caller passed in: '
     'not its arcs, scores, labels, attributes or elements, and not through storage that a view or a copy still shares with it. '
     'The exceptions are operations documented to work in place (a trailing underscore in the name, a documented accumulator or output argument).',
     ['inputs', 'programs'],
     'every public function and method of the Python package, every argument and every attribute the argument may carry, all option values and both tensor and ragged attribute values',
     'Tests look at results; the few that reuse an input reuse it with one option set, so a change to the caller\'s object on one branch or through a shared view goes unseen.',
     [PY + f for f in ('fsa.py', 'fsa_algo.py', 'nbest.py', 'decode.py', 'utils.py', 'ops.py', 'rnnt_loss.py', 'mwer_loss.py', 'autograd.py', 'symbol_table.py')],
     [('attribute assignment on fresh result objects only', PY + 'fsa.py'), ('clone() before in-place methods', PY + 'fsa_algo.py')],
     observe=['the argument objects after the call returns'],
     tech='interprocedural may-alias and in-place-effect analysis (all calls inlined) against the table of documented in-place operations',
     note='Every function of the Python package is analysed with its callees inlined; a write reaching storage that may belong to a parameter is reported. Trusts: the natives write only where the table says so; torch view semantics as tabulated.')

prop('C03', 'Values an FSA remembers (scores, batches) are never stale, mixed up or misplaced',
     'Quantities that an FSA computes once and remembers (forward and backward scores, total scores, arc posteriors and their running sums, state and arc batches) are always the ones for its present scores and for the options asked: '
     'a query with one semiring or precision never returns a value computed for another, and assigning the scores makes every score-dependent value be computed anew. '
     'Remembered values are handed to another FSA only if that FSA has the same arcs and scores.',
     ['histories', 'inputs'],
     'every history of queries with any combination of semiring and precision options, score assignments, copies and detachments of one FSA',
     'A stale or mixed-up value needs a particular order of two or three calls with particular options; tests make single queries on fresh FSAs.',
     [PY + 'fsa.py'],
     [('option-encoding keys', PY + 'fsa.py get_forward_scores_impl and siblings'), ('_invalidate_cache_ on score assignment', PY + 'fsa.py __setattr__')],
     state=[('_cache', 'remembered values by key', PY + 'fsa.py')],
     observe=['get_tot_scores', 'get_forward_scores', 'get_arc_post', 'arc_cdf users'],
     tech='abstract interpretation of the FSA class: keys, reads, writes, copies and invalidation of remembered values as gated value terms under every option assignment',
     note='Decides the discipline for every option assignment and every write of arcs or scores in the package. Trusts that the natives compute what their names say.')

prop('C02', 'Attributes of a result FSA are those of its source arcs, by the arc maps',
     'When an operation builds an FSA from other FSAs, every attribute of every source - tensor or ragged, integer or real, whatever its name - is carried over: each result arc gets the value of the source arc it came from, '
     'arcs that came from no arc get the filler recorded for that very attribute, and non-tensor attributes are carried unchanged. '
     'Copies and slices keep every attribute; concatenations join them in the order of the arcs; inversion and composition exchange labels and aux_labels as documented; an arc map is returned exactly when it was asked for, and it is the one the attributes were carried by.',
     ['inputs', 'programs'],
     'all FSA operations of the Python package, every kind of attribute (int32, float32, float64, ragged, non-tensor), every name, recorded fillers, all option values',
     'Tests attach one or two attributes of one kind to small FSAs; the combination of attribute kind, filler, option and operation is not sampled.',
     [PY + f for f in ('fsa.py', 'fsa_algo.py', 'autograd.py', 'utils.py', 'ops.py', 'rnnt_decode.py', 'online_intersector.py')],
     [('fsa_from_unary_function_tensor and siblings', PY + 'utils.py'), ('rename_tensor_attribute_', PY + 'fsa.py')],
     observe=['tensor, ragged and non-tensor attributes of the result'],
     tech='abstract interpretation of every function that builds an FSA: attribute assignments normalised to (selection, arc map, filler) and decided per attribute kind',
     note='Every FSA-building site of the package is judged for each attribute kind against the arc map of the native that made its arcs. Trusts that natives return correct arc maps.')

prop('C04', 'Reported FSA properties are those of its present arcs; bad arcs are rejected',
     'What an FSA reports about itself (valid, arc-sorted, epsilon-free, deterministic, accessible, ...) is always computed from its present arcs: after its labels change, by whatever route, what was known before is forgotten; each property name has one meaning on the Python and the native side. '
     'Arcs that do not form a valid FSA are rejected when the FSA is made or its labels are assigned, and a rejected assignment leaves the FSA as it was. '
     'An operation hands back its input only if the input already has the property asked for, and an operation that needs sorted operands rejects unsorted ones.',
     ['histories', 'inputs'],
     'every history of label assignments, in-place changes, queries and copies of one FSA; every operation of the package that trusts properties',
     'Tests query properties right after construction; a stale answer needs a query before a particular kind of change and another after.',
     [PY + 'fsa.py', PY + 'fsa_algo.py', PY + 'fsa_properties.py', 'k2/csrc/fsa.h'],
     [('lazy properties with the version of the labels', PY + 'fsa.py properties'), ('bit constants', PY + 'fsa_properties.py')],
     state=[('_properties', 'property bits, or 0 when not known', PY + 'fsa.py')],
     observe=['Fsa.properties', 'exceptions from assignments'],
     tech='typestate analysis of property and validity state over the abstract interpretation of the FSA class and the FSA operations; cross-language comparison of the bit constants',
     note='Every write of labels and every reader and writer of remembered properties in the package is examined. Trusts the native computation of each bit.')

prop('C05', 'Gradients of scores reach every source, along the same arc map, and only there',
     'Differentiating a result with respect to scores gives every source its due: an FSA made from other FSAs keeps its scores connected to the scores of each of them, and the gradient of a result arc goes back to exactly the arcs it was made from '
     '(the whole of it to every source arc when scores were summed, nothing for arcs that came from nowhere). '
     'Gradients of total scores, forward and backward scores and arc posteriors are those of the semiring and precision that was asked for. '
     'A backward pass returns one gradient per input, scores only, in place order, and never changes the incoming gradient.',
     ['inputs', 'programs'],
     'every autograd function of the Python package on every path, for all semiring and precision options; every operation that builds an FSA from others',
     'Tests compare gradients on small graphs for one option set per operation, and never for operations that combine, slice or select FSAs under an option.',
     [PY + f for f in ('autograd.py', 'autograd_utils.py', 'ops.py', 'fsa.py', 'fsa_algo.py', 'utils.py', 'mutual_information.py', 'sparse/autograd.py')],
     [('backward = index_add along the arc map saved by forward', PY + 'autograd_utils.py'), ('phantom_* tie scores to their sources', PY + 'autograd_utils.py')],
     observe=['.grad of score tensors after backward()'],
     tech='abstract interpretation of every autograd function (backward composed with what forward saved, under every option assignment) and of every site that builds an FSA, as differentiable-dataflow obligations',
     note='Decides which buffer gets which gradient along which map, under every option. Trusts that the native backward functions compute the derivative their names say, and torch autograd.')

prop('C06', 'The options given to an operation are the ones every computation in it runs with',
     'Every option of a public function - beams, state and arc limits, scales, thresholds, semiring, precision, sortedness and truncation options, reduction, delay penalty - has its effect: '
     'whatever layers of the package lie between, each native computation and each getter it reaches gets the value of the option of that name (not a constant, a default, or another option), under every combination of the boolean options, '
     'and an option kept by an object is the one its methods use. Documented default values stay as they are.',
     ['inputs', 'programs'],
     'every public function and class of the Python package, every option and every assignment of the boolean options',
     'Tests call most functions with one option set, often with the defaults; an option that is dropped or exchanged on the way down changes results only for other values.',
     [PY + f for f in ('fsa.py', 'fsa_algo.py', 'autograd.py', 'ctc_loss.py', 'mwer_loss.py', 'nbest.py', 'decode.py', 'rnnt_loss.py', 'utils.py', 'online_dense_intersecter.py', 'dense_fsa_vec.py')],
     [('call sites of natives', PY + 'autograd.py, fsa_algo.py'), ('constructor options of losses', PY + 'ctc_loss.py, mwer_loss.py')],
     observe=['arguments of every native call'],
     tech='interprocedural option-flow analysis: every public function is interpreted with its callees inlined under every assignment of its boolean options; native calls normalised to (slot = option, constant or data) and compared with the reviewed table',
     note='Parameter order and defaults of the natives are read from the pybind11 sources on every run. Trusts that natives honour their options.')

prop('C18', 'All forms of a sequence loss treat reduction, lattice type and lengths alike',
     'The forms of the RNN-T loss (simple, smoothed, joint, pruned, HAT) agree on what their options mean: reduction none, mean or sum of the negated per-sequence score and nothing else accepted; '
     'the regular, modified and constrained lattices get the shapes and label scores documented for each type; a delay penalty is added to label transitions only, by the same centred frame offset, and only when it is not zero; the boundary reaches the recursion and its gradient; '
     'interpolation weights of the smoothed loss sum to one. Shapes that disagree, unknown lattice types, and sequences too short for their labels are rejected. '
     'CTC mean divides by the target lengths and MWER is the normalised probability times the errors of each path.',
     ['inputs', 'programs'],
     'all RNN-T log-prob builders and losses, CTC and MWER losses, every lattice type, reduction, with and without boundary, delay penalty and gradient, for all shapes',
     'Tests compare a few of the forms with each other for equal-length batches and default options; the combination of form, lattice type, penalty and boundary is not sampled.',
     [PY + f for f in ('rnnt_loss.py', 'mutual_information.py', 'ctc_loss.py', 'mwer_loss.py')],
     [('rnnt_type branches and delay_penalty blocks of each log-prob builder', PY + 'rnnt_loss.py'), ('reduction tails of each loss', PY + 'rnnt_loss.py, ctc_loss.py, mwer_loss.py')],
     observe=['loss values and gradients', 'exceptions'],
     tech='abstract interpretation of every loss under every option assignment, results normalised to polynomials over slices and gathers and compared across the forms and lattice types, guards evaluated over shape scenarios',
     note='Decides the algebra of px, py, the penalty and the reductions for all shapes, not the numerics of the recursion. Trusts torch and the native recursion.')

prop('C08', 'Arguments that break a documented requirement are rejected',
     'The Python layer raises, rather than computes with, arguments that break a requirement of the operation: tensors of the wrong number of axes, element type, length or device; segments, indexes and counts out of range by as little as one; '
     'unknown reductions and options that exclude each other; single FSAs where a batch is needed and the reverse; unsorted operands, missing or ragged attributes where the operation cannot use them; '
     'symbol tables with clashing or negative ids. The check covers every argument, not only the first, and arguments that meet the requirements are not rejected.',
     ['inputs'],
     'every public function, method and constructor of the Python package that states a requirement, every single requirement, with values just inside and just outside',
     'Tests exercise the accepted cases and a handful of rejections; a guard weakened by one, by one operand or by one element type is not noticed.',
     [PY + f for f in ('fsa.py', 'fsa_algo.py', 'dense_fsa_vec.py', 'nbest.py', 'ops.py', 'utils.py', 'rnnt_decode.py', 'symbol_table.py', 'decode.py', 'ctc_loss.py', 'mwer_loss.py')],
     [('assertions and raises at the head of each function', PY + '*.py')],
     observe=['exceptions from calls with wrong arguments'],
     tech='abstract interpretation of every guarded function; the path conditions of its raises evaluated with three values on descriptions of wrong and right arguments',
     note='275 argument descriptions in the check; a wrong description must definitely reach a raise of the function (or of what it calls), a right one must not. Requirements the code never enforced are not in scope.')

prop('C16', 'Every call in the Python layer fits what it calls, on every branch',
     'Whatever branch of the Python package is taken, the functions, methods and attributes it uses exist, on the native side as well as the Python side; they are given the number of arguments, the keywords and the kinds of native object that they are registered or defined to take; '
     'members that are methods are called and members that are values are not; results are taken apart into as many pieces as they have; every name read is defined. '
     'No branch ends in a TypeError, NameError or AttributeError of the package\'s own making.',
     ['inputs', 'programs'],
     'every call, attribute access, import and unpacking of the Python package, including branches for rare options, failures and ragged attributes, against every pybind11 registration',
     'Python finds such faults only when the line runs; the branches for ragged attributes, retries, rare options and debugging are not run by the tests, and nothing in the build relates the Python calls to the C++ registrations.',
     [PY + '*.py', 'k2/python/csrc/torch/*.cu', 'k2/python/csrc/torch/v2/*.cu'],
     [('registrations m.def / class_.def with py::arg', 'k2/python/csrc/torch'), ('calls of _k2.*, k2.ragged.* and package functions', PY + '*.py')],
     observe=['TypeError, NameError, AttributeError from library code'],
     tech='type checking of the whole Python package (pyright) against stubs generated on every run from the pybind11 registrations; only contradictions (missing name, call that cannot bind, wrong unpacking, uncalled method) are reported',
     note='Tensors are untyped beyond being tensors, so calls of torch methods are not judged. Trusts pyright\'s inference.')

prop('C11', 'Saving and loading an FSA or a symbol table loses nothing',
     'The dict made by Fsa.as_dict holds the arcs and every attribute of the FSA - whatever its name, tensor or ragged, number or text, fillers included - each under its own name, and Fsa.from_dict restores every one of them. '
     'The text form of an FSA has the int32 labels and the ragged labels as columns in the order of their sorted names, in the format (k2 or OpenFst) asked for, with each FSA of a vector beside its own labels; '
     'reading text expects exactly the columns the options announce and gives each column its own name. '
     'A symbol table written as text or to a file is read back the same on any machine, whatever the symbols; symbols and ids stay one-to-one through reading, adding, joining and comparing, and a new symbol never takes an id in use.',
     ['inputs', 'histories'],
     'every attribute name and kind, every combination of label options, single FSAs and vectors, every symbol table and line layout of the documented format, every order of additions',
     'Tests save FSAs with one or two attributes and tables of ASCII symbols with consecutive ids; a lost kind of attribute, exchanged columns or a clash of ids needs another combination.',
     [PY + 'fsa.py', PY + 'utils.py', PY + 'symbol_table.py'],
     [('as_dict / from_dict', PY + 'fsa.py'), ('to_str / from_str / get_aux_label_info', PY + 'fsa.py, utils.py'), ('_id2sym and _sym2id', PY + 'symbol_table.py')],
     state=[('_next_available_id', 'an id above all ids in use', PY + 'symbol_table.py')],
     observe=['Fsa.from_dict(fsa.as_dict())', 'Fsa.from_str(k2.to_str(fsa), ...)', 'SymbolTable.from_file after to_file'],
     tech='abstract interpretation of the writers and readers; the entries, columns and lines they produce and consume are evaluated for every kind of attribute, option and table entry',
     note='Sizes and values of attributes are not sampled: an entry is decided by its kind and name. Trusts the native conversions of arcs to and from tensors and text.')

prop('C12', 'Output arguments of the native functions: null where allowed, set whenever given',
     'A native function that returns results through pointer arguments (arc maps, index maps, derivative lists, auxiliary labels, output FSAs) never uses an optional pointer (one with a null default, or one it compares with null) without knowing that it is not null, neither itself nor by handing it to a function that needs it. '
     'Every output it is given is set on every path on which it returns - early returns for empty inputs, single FSAs turned into vectors, and devices or sizes handled apart included - also when it is set by a function it calls; it is handed to the callee in the place of the same output, and an output that is one object is not used as an array of them.',
     ['inputs', 'programs'],
     'every pointer parameter of every function of the native library, the host library and the bindings, every combination of outputs asked for, every path to a return',
     'Tests ask for all outputs or for none on ordinary inputs; the early returns for empty or degenerate inputs with one output asked for and another not are each a rare combination, and an unset output is only noticed when used.',
     ['k2/csrc/fsa_algo.cu', 'k2/csrc/ragged_ops.cu', 'k2/csrc/fsa_utils.cu', 'k2/csrc/rm_epsilon.cu', 'k2/csrc/host/*.cc', 'k2/python/csrc/torch/*.cu'],
     [('Array1<int32_t> *arc_map = nullptr parameters', 'k2/csrc/fsa_algo.h, ragged_ops.h'), ('if (arc_map != nullptr) *arc_map = ...', 'k2/csrc/*.cu')],
     observe=['the output arguments after the call', 'arc_map returned by the binding'],
     tech='path-sensitive nullness and must-be-set analysis over Clang syntax trees of every native function (instantiations included), with function summaries',
     note='Judges that an output is set, not to what. Raw buffers filled element by element are taken as set when the filling loop or copy is reached. Conditions on values other than pointers, flags and unchanging comparisons are taken both ways.')

prop('C07', 'Native functions leave the elements of the arrays given to them unchanged',
     'A public native function (of the core library, the host library, the C++ inference library or a Python binding) never writes to the storage of the arcs, scores, arrays, ragged tensors, shapes or torch tensors it is given - neither by itself, nor through a copy that shares storage, a view of a part, a reversed or arc-sorted duplicate, a torch tensor wrapped as an array or an array wrapped as a tensor, nor by handing it to a function that writes - except where its documentation says it works in place (sorting sub-lists, fixing final labels, the mutual-information buffers, setters). '
     'Value types (ragged tensors, arrays, FSAs) likewise do not change their own elements in methods that compute something from them.',
     ['inputs', 'programs'],
     'every public native function and method, every pybind binding, every input parameter with storage, every path',
     'Arrays share memory on copy, so that an input is overwritten is only seen by a caller who looks at the input afterwards, or at another FSA that shares arcs with it, and often only for a special shape (one element per sub-list, no map asked for).',
     ['k2/csrc/*.cu', 'k2/csrc/*_inl.h', 'k2/python/csrc/torch/*.cu', 'k2/python/csrc/torch/v2/*.cu', 'k2/torch/csrc/*.cu'],
     [('Array1<T> copies share their region', 'k2/csrc/array.h'), ('Fsa tmp(src.shape, src.values.Clone())', 'k2/csrc/fsa_algo.cu ArcSort'), ('Array1<FloatType> backward_scores_deriv(backward_scores_deriv_in.Clone())', 'k2/csrc/fsa_utils.cu'), ('FromTorch<T>(tensor) shares memory', 'k2/csrc/torch_util.h')],
     observe=['the elements of the inputs after the call', 'other FSAs that share arcs with the input'],
     tech='flow-sensitive interprocedural alias and effect analysis over Clang syntax trees (template instantiations and kernels included): storage written, in terms of parameters',
     note='Writes through raw device memory routines the analysis does not know are not seen; the streaming state of the online decoders is meant to change and is not judged.')

prop('C15', 'Native memory lives as long as it is used; what shares memory keeps its owner',
     'Native code never reads or writes through a pointer, reference or view into an array, vector or tensor whose storage nothing holds any more - because it was a temporary, belonged to an inner block, was replaced by an assignment, or moved when it was resized - and never returns one. '
     'A tensor made around the memory of an array, tensor or object holds that owner, a memory region made around a tensor holds the tensor, and an object that Python holds keeps (and does not merely refer to) the graphs and arrays it was constructed with.',
     ['inputs', 'histories'],
     'every native function and binding, every pointer taken into storage made there, every tensor made around memory, every class registered with Python',
     'Memory that has been freed usually still has the old contents when it is read a moment later, so that tests pass; it depends on the allocator, on the sizes and on what the caller drops.',
     ['k2/csrc/*.cu', 'k2/csrc/*.h', 'k2/python/csrc/torch/*.cu', 'k2/torch/csrc/*.cu'],
     [('[saved_region = array.GetRegion()](void *) {}', 'k2/csrc/torch_util.h'), ('ans->deleter_context = managed_tensor', 'k2/csrc/pytorch_context.cu'), ('const T *data = array.Data()', 'k2/csrc/*.cu'), ('FsaVec a_fsas_', 'k2/csrc/intersect_dense_pruned.cu'), ('states_.Resize(n, true)', 'k2/csrc/intersect.cu')],
     observe=['contents of views after their source is dropped', 'crashes or wrong values with freed memory overwritten (MALLOC_PERTURB_)'],
     tech='flow-sensitive ownership analysis over Clang syntax trees: for each pointer, reference or view, whether any array still holds the storage; owner capture of shared tensors; members of classes held by Python',
     note='Storage reached through arrays of pointers, and host objects allocated with new, are taken to be alive.')

prop('C09', 'Results depend only on the arguments',
     'What a k2 operation returns depends on its arguments alone: every element of the arrays, tensors, structs and variables it makes is given a value before it is read or returned, for empty and single-element inputs, too. '
     'No static, global, module, class or default-argument object carries what one call saw into a later call. '
     'Random numbers, clocks, addresses and the environment enter only the operations documented to be random or to report them.',
     ['inputs', 'histories'],
     'every array, tensor, variable and struct made without values in native functions, kernels and the Python package; every object that outlives a call; every call that reaches a random source',
     'Memory that was never written is usually zero or holds the same values as the run before, and tests call a function once per process with one input, so reads of it and results remembered from an earlier call go unnoticed.',
     ['k2/csrc/*.cu', 'k2/csrc/*.h', 'k2/python/csrc/torch/*.cu', 'k2/torch/csrc/*.cu', PY + '*.py'],
     [('Array1<T>(context, dim) and torch::empty make arrays without values', 'k2/csrc/array.h, k2/python/csrc/torch/mutual_information_cpu.cu'), ('kernels that fill them', 'K2_EVAL in k2/csrc/*.cu'), ('statics and globals', 'k2/csrc/*.cu, k2/python/k2/*.py')],
     observe=['results of the same call repeated, after other calls, with memory pre-filled'],
     tech='definite-assignment analysis over symbolic ranges of every array made without values and of plain variables; a search of declarations for state that outlives calls and of the call graph for sources that differ between runs',
     note='Arrays written at positions that are data (scatter through an index map) or handed to another function before they are filled are not decided; the evidence counts them. Device-only (CUDA) branches are not compiled here and not covered.')

prop('C10', 'Native kernels and loops index only elements that exist, each over its own axis',
     'Where the number of elements of an array is fixed by its construction (n, n + 1 for row-splits, the size of an axis, a sum of sizes) and the index by the range of the kernel or loop that uses it, the first and the last value of the index lie within the array, for every number of FSAs, states, arcs, lists and elements; row-splits have one more element than there are lists. '
     'Positions are used over the axis they count: an index over FSAs, states or arcs (or where a list of an axis begins, or a state number within its FSA, such as an arc\'s dest_state) is never used in row-splits, row-ids or data over another axis of the same shape, nor added to the beginning of a list of another axis.',
     ['inputs'],
     'every subscript of every array of known size in every native function, kernel and binding; all sizes',
     'An access one past the end, or with the index of another axis, reads a neighbouring element or unused memory that is usually harmless for small or single inputs: state i of an FSA vector with one FSA is state i of the vector, too.',
     ['k2/csrc/*.cu', 'k2/csrc/*_inl.h', 'k2/csrc/*.h', 'k2/python/csrc/torch/*.cu', 'k2/torch/csrc/*.cu'],
     [('K2_EVAL(c, num_states, lambda, (int32_t state_idx01)->void { ... })', 'k2/csrc/*.cu'), ('RowSplits(axis) has TotSize(axis - 1) + 1 elements, RowIds(axis) has TotSize(axis)', 'k2/csrc/ragged.h'), ('idx01 / idx01x / idx1 naming of positions', 'k2/csrc/utils.h, ragged.h')],
     observe=['results for vectors of several FSAs of different sizes', 'memory errors'],
     tech='abstract interpretation of every native function over symbolic sizes (polynomials in the sizes of the inputs) and index ranges, with the axis each position counts; only accesses that leave the array or the axis for certain are reported',
     note='Indexes computed from data (arc fields, hash values, values read from arrays not known to hold positions) are not decided; the evidence says how many.')

prop('C17', 'Work handed to threads is done once, in order and without races',
     'Everything submitted to a thread pool or decoding worker is run exactly once, nobody who waits for it goes on before it is done, and every wait ends: state shared by threads is only touched under its mutex or before the threads start, waits re-check their condition, and whoever makes it true tells them. '
     'Tasks do not outlive the variables they use, do not write what the submitting function or other tasks use meanwhile, and leave process-wide state alone. '
     'Locks are taken in one order and are not held while tasks run or threads are waited for.',
     ['schedules'],
     'every class with a mutex, condition variable or semaphore, every task or thread that is started and every static or global used by them; all interleavings',
     'Tests see the few interleavings the machine happens to make; a missing lock or notification passes thousands of runs.',
     ['k2/csrc/thread_pool.*', 'k2/csrc/semaphore.h', 'k2/csrc/intersect_dense_pruned.cu', 'k2/csrc/context.h', 'k2/csrc/*.cu'],
     [('ThreadPool', 'k2/csrc/thread_pool.h, k2/csrc/thread_pool.cu'), ('backward pruning in a second thread, with two semaphores', 'k2/csrc/intersect_dense_pruned.cu'), ('statics set once', 'k2/csrc/context.cu, k2/csrc/log.h')],
     observe=['deadlocks, lost tasks, results that differ between runs, thread sanitizer reports'],
     tech='lockset, condition-variable and lock-order analysis of every class with a mutex; must-precede dataflow between submission, semaphore operations and accesses of what tasks capture',
     note='Reads and writes of the same array by tasks at different positions are taken to be disjoint when each task is given its own part; device (CUDA) streams are not covered.')

NA = 'The property is about the values a run computes; '
prop('C21', 'FSA operations keep the weighted language they are documented to keep',
     'Intersection, composition, determinization, epsilon removal, connection, top-sorting, reversal, closure, union, minimal paths and the graph builders (linear, CTC, Levenshtein, trivial) return FSAs whose weighted language is the documented function of the weighted languages of their operands, and arc maps that name the arcs each result arc came from, for every FSA.',
     ['inputs'], 'every FSA and FSA vector', 'Equality of languages is only tested on small or random samples.',
     ['k2/csrc/*.cu', 'k2/csrc/host/*.h'], [('operations on FSAs', 'k2/csrc/fsa_algo.h')], observe=['results of operations, compared path by path'], tech='', note='',
     na='Equality of weighted languages is a statement about the values that graph algorithms compute on unbounded inputs; no dataflow, typestate or effect fact in the source decides it. (Structural parts - arc-map use, outputs set, indexes in range - are C02, C12 and C10.)')
prop('C22', 'Pruned and streaming searches return what their beams promise',
     'Pruned intersection keeps every path within the beam of the best one; a search over chunks returns what the search over the whole input returns; beams and state limits only remove paths.',
     ['inputs', 'histories'], 'all decoding graphs, dense scores, beams and chunkings', 'Beam behaviour depends on the scores.',
     ['k2/csrc/intersect_dense_pruned.cu', 'k2/csrc/rnnt_decode.cu'], [('GetArcs/PropagateForward/PruneTimeRange', 'k2/csrc/intersect_dense_pruned.cu')], observe=['lattices'], tech='', note='',
     na='Which paths survive depends on score values compared at run time against dynamically adapted beams; a sound static bound on them is out of reach.')
prop('C23', 'Scores, posteriors and gradients are numerically right',
     'Forward, backward and total scores, posteriors, losses and their gradients equal the sums (or maxima) over paths that define them up to rounding, never NaN for inputs without NaN, in both precisions.',
     ['inputs'], 'all scores, including infinities', 'Rounding and overflow only show on extreme scores.',
     ['k2/csrc/fsa_utils.cu', 'k2/python/csrc/torch/mutual_information_cpu.cu'], [('LogAdd', 'k2/csrc/math.h')], observe=['values and gradients against the definition'], tech='', note='',
     na=NA + 'error bounds of long floating-point sums in data-dependent order are not derivable by the analyses of this family.')
prop('C24', 'CUDA kernels give the results of the CPU code and have no races',
     'Every operation gives the same result on CPU and CUDA devices, whatever the order in which kernel threads run and streams are joined.',
     ['schedules'], 'all kernel schedules', 'The test machine has no GPU.',
     ['k2/csrc/*.cu', 'k2/csrc/*.h'], [('K2_EVAL', 'k2/csrc/macros.h')], observe=['results on devices'], tech='', note='',
     na='The build here has no CUDA: device branches are preprocessed away, so neither the analyses nor any demonstration can see the code that would run.')
prop('C25', 'Sampled paths follow the scores; operations take the documented time',
     'random_paths draws each path with its posterior probability; operations documented as linear stay linear in arcs.',
     ['inputs'], 'all FSAs', 'Needs statistics over many runs.',
     ['k2/csrc/fsa_utils.cu'], [('RandomPaths', 'k2/csrc/fsa_utils.cu')], observe=['frequencies, run time'], tech='', note='',
     na='A statement about frequencies and run time, not about a construct of the source.')
