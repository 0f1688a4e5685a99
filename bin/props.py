HOOKS={'guard':'none: the checks use only public interfaces of the crates','enable':'nothing to enable','source_commits':[]}
NOTES='Every check explores the real code (the crates of /repo, compiled into the harness of /verif/mc) exhaustively within stated bounds, against reference definitions written independently in the harness.'
NB='not built yet'

p('C01','Any sequence of shape and view operations denotes the defined array',
 'However a tensor was obtained from another by reshaping, transposing, slicing (any start, end and step), broadcasting, repeating, flipping, splitting or making it contiguous, every way of reading it (flat and nested vectors, raw bytes, conversion, copying) shows the elements and shape the mathematical definition of that sequence gives. An operation whose arguments are not valid for the current shape fails with an error and leaves its operand unchanged.',
 ['histories','inputs'],'every sequence of shape/view operations up to the depth bound from several start shapes and every element type, including negative dimensions, negative steps and out-of-range arguments',
 'No test in the repository exercises views at all: kernel tests build contiguous buffers by hand, and a wrong offset, stride or reader shows only on particular compositions of views.',
 [C+'tensor/ops/shape.rs',C+'types/layout.rs',C+'types/shape.rs',C+'tensor/vec.rs',C+'tensor/bytes.rs',C+'be_cpu/storage/ops_shape_memory.rs',C+'tensor/ops/concat_split.rs'],
 [('stride/offset arithmetic of views',C+'types/layout.rs'),('readers that walk a layout',C+'tensor/vec.rs')],
 'explicit-state breadth-first search over operation sequences on the real tensors, reference array model compared at every transition',
 'Exhaustive for the operation alphabet, start shapes (up to 4 dimensions, at most 96 elements) and depth stated in the evidence; beyond them nothing is claimed.',['Tensor readers'])
p('C02','Results never depend on the physical layout of the operands',
 'Every tensor operation, in eager mode, gives the same result for the same logical operands whether they are stored contiguously, or are offset, strided, transposed, partial or broadcast views of larger storage. The result is itself a well-formed tensor that reads the same through every reader and can be used as an operand again.',
 ['inputs','configurations'],'every operation of the catalogue, every assignment of the eight physical layouts to its operands (all combinations for up to three operands), several element types',
 'Kernel tests pass hand-built metadata, almost always contiguous; which combination of operation and layout goes wrong cannot be sampled by a handful of tests.',
 [C+'tensor/ops',C+'op_metadatas.rs',C+'be_cpu/storage',K+'kernels'],
 [('layout metadata handed to kernels',C+'op_metadatas.rs'),('index arithmetic in kernels',K+'kernels')],
 'exhaustive enumeration of operand layouts per operation on the real code, differential against the contiguous execution and the reference definition',
 'Exhaustive over operation catalogue x layout assignments at small shapes.',['Tensor readers'])
p('C03','Element-wise operations and casts compute the defined value for every type',
 'For every supported element type, every unary, binary, scalar, comparison, logical and bitwise operation, selection and type conversion yields, at each position of the broadcast result, the value its mathematical definition gives for the operands (correctly rounded up to a few units of the type for floating point; modulo 2^n for integer addition, multiplication and signed subtraction; unsigned subtraction stops at zero; integer division truncates and gives 0 for a zero divisor; conversions between floating-point types round to nearest even and, for the 8-bit types, saturate). Comparisons and logical operations yield booleans.',
 ['inputs'],'all values (and, for binary operations, all pairs) of the 8-bit types and of a boundary alphabet for the wider types; all broadcastable shape pairs up to three dimensions of extents 1 to 3',
 'Unit tests check a few ordinary values of one or two types per kernel; macros instantiate each kernel for up to fifteen types.',
 [C+'tensor/ops',C+'be_cpu/storage',K+'kernels',C+'utils/valid.rs'],
 [('kernels instantiated per type',K+'kernels'),('dispatch by type',C+'be_cpu/storage')],
 'exhaustive enumeration of operand values (all 8-bit values and pairs; boundary alphabet otherwise) and broadcast shapes against an independent reference',
 'Exhaustive over the stated finite alphabets; wider types only on the boundary alphabet.')
p('C04','Reductions, scans, sorting, softmax and linear algebra compute their definition',
 'Sum, mean, product, extrema, argmax/argmin, variance, norms, log-sums, any/all, cumulative operations, sorting, top-k, softmax, and determinant, inverse, trace and linear solve return the values and shape of their definition, for every choice of axes, keep-dimension flag and element type they accept.',
 ['inputs'],'every subset and order of axes (negative included) of every shape up to three dimensions, all small value assignments over a tie-rich alphabet, every supported type',
 'Tests fix a shape, an axis and a type; ties, repeated axes, keep-dimension variants and narrow types are left out.',
 [C+'tensor/ops/reduce.rs',C+'tensor/ops/scan.rs',C+'tensor/ops/sort.rs',C+'tensor/ops/linalg.rs',K+'kernels'],
 [('reduction metadata',C+'op_metadatas.rs')],
 'exhaustive enumeration of shapes, axes and small value assignments against an independent reference',
 'Exhaustive within the stated bounds.')
p('C05','Indexing, joining, padding, windowing and resizing move the right data',
 'Index-select, index-put, gather, the scatter family, one-hot, compression, concatenation, stacking, splitting, every padding mode, window reduction and resizing put each source element (or its defined combination) at each destination position and nowhere else, for every axis and every index tensor in range.',
 ['inputs'],'every index tensor of the stated shapes over the whole index range (repeats included), every axis, every padding width and mode, window, stride and dilation up to the bound',
 'Tests use one index vector each; aliasing indices, every axis and degenerate windows are combinations that cannot be sampled.',
 [C+'tensor/ops/indexing.rs',C+'tensor/ops/padding.rs',C+'tensor/ops/windowing.rs',C+'tensor/ops/concat_split.rs',C+'tensor/ops/resize.rs',K+'kernels'],
 [('index arithmetic',K+'kernels/ops_indexing.c')],
 'exhaustive enumeration of index tensors, axes and window/padding parameters against an independent reference',
 'Exhaustive within the stated bounds.')
p('C06','Matrix products and convolutions equal their definition at every size',
 'Matrix multiplication, dot products (with batch broadcasting) and convolutions, transposed convolutions and their weight gradients in one to three dimensions equal the defining sum for every shape, stride, padding and dilation, including the sizes at which the implementation switches to blocked, vectorised, multi-threaded or library code.',
 ['inputs','configurations'],'all small parameter combinations, and every size around each internal threshold, for every supported type and operand layout',
 'Tests use one or two small sizes, below every threshold, of one type.',
 [C+'tensor/ops/matrix.rs',C+'tensor/ops/conv.rs',K+'kernels/ops_matrix.c',K+'kernels/ops_conv.c'],
 [('tiling and thread partition',K+'kernels/ops_matrix.c')],
 'exhaustive enumeration of sizes and parameters against the defining sums',
 'Exhaustive within the stated bounds.')
p('C07','Einsum evaluates every valid subscript expression and rejects every invalid one',
 'For every subscript expression, evaluating it on operands of matching shapes yields the sum of products its definition gives; an expression that is malformed or does not fit the operands is rejected with an error.',
 ['programs','inputs'],'every expression over a three-letter alphabet with one to three operands of up to three dimensions and every output subset',
 'Tests use a handful of well-known expressions.',
 [C+'einsum.rs',C+'tensor/ops/einsum.rs',C+'be_cpu/storage/ops_einsum.rs'],
 [('subscript parser',C+'einsum.rs')],
 'exhaustive enumeration of all expressions up to a size, each evaluated on the real code against the defining sum',
 'Exhaustive within the stated bounds.')
p('C08','Backward computes the derivative of what forward computed',
 'For every differentiable operation and every composition of them (with reuse of a tensor, broadcasting, views and several outputs), the gradient left on each leaf after backward equals the derivative of the forward function with respect to that leaf, with the leaf\'s shape. Leaves the result does not depend on receive no gradient or a zero one.',
 ['programs','inputs'],'every operation of the catalogue at several shapes and parameters, and every composition of two operations, evaluated at points where the function is smooth',
 'There is no gradient test in the repository; a wrong rule for one operation, axis or broadcast shows only on that combination.',
 [C+'tensor/gradient.rs',C+'tensor/gradient',C+'tensor/ops'],
 [('reverse-mode rules',C+'tensor/gradient')],
 'exhaustive enumeration of operations, parameters and two-operation compositions; gradient compared with differences of the reference definition',
 'Exhaustive over the enumerated programs; derivatives are compared at a fixed generic point each.')
p('C09','Gradient contexts and tensor lifetimes behave as specified over any history',
 'After any sequence of creating tensors, switching gradient tracking on or off, operating, running backward, zeroing gradients, opening and closing gradient contexts and dropping tensors, each tensor\'s gradient is exactly what the history defines, nothing computed in one context leaks into another, and dropped tensors are released. Backward sets (does not add to) the gradient, of the tensor\'s own type and shape, of every tracked tensor its result was computed from in the active context and uses up that part of the graph; only operands that were tracked when an operation ran receive a gradient through it.',
 ['histories'],'every history up to the depth bound over a small alphabet of these actions',
 'The repository has no test of gradient state at all; leaks and cross-context effects need multi-step histories.',
 [C+'tensor/gradient.rs',C+'tensor/registry.rs',C+'tensor.rs'],
 [('tape and registry',C+'tensor/gradient')],
 'explicit-state search over histories on the real code against a reference model of gradient state',
 'Exhaustive to the stated depth.')
p('C10','Threads working on their own tensors do not disturb each other',
 'Two or more threads that each compute, differentiate or optimise with their own tensors get the results they would get alone, under every interleaving, and never deadlock or crash.',
 ['schedules'],'every interleaving of two threads up to the preemption bound',
 'Tests never run two threads against the shared registries.',
 [C+'tensor/registry.rs',C+'tensor/gradient'],
 [('process-wide registries and flags',C+'tensor')],
 'stateless exploration of thread schedules of the real code under a controlled scheduler',
 'Exhaustive up to the stated preemption bound.',na=NB)
p('C11','A captured program means the same as running it eagerly',
 'Capturing a function and interpreting the recorded program on any inputs gives the results, shapes and types that running the same function eagerly on those inputs gives, whether the function uses views, constants, several results, unused results, or gradients. (Results whose shape depends on the data are recorded with the largest shape they can have.)',
 ['programs','inputs'],'every operation of the catalogue and every two-operation composition',
 'No test captures a program.',
 [C+'snapshot/capture',C+'snapshot.rs',C+'op_params.rs',C+'tensor/ops'],
 [('capture board',C+'snapshot/capture')],
 'exhaustive enumeration of programs; the recorded program is executed by an independent interpreter and compared with eager execution',
 'Exhaustive over the enumerated programs.')
p('C12','A saved program reloads as the same program; a damaged file is an error',
 'Serialising a captured program and reading it back, to memory or to a file, gives an equal program. Reading any truncated or altered file gives an error or a program, never a crash.',
 ['programs','fault_sequences'],'every captured program of the catalogue; every truncation and every single-byte corruption of small files',
 'No test round-trips a snapshot.',
 [C+'snapshot.rs',C+'format/hdss.rs'],
 [('encoder and decoder',C+'format/hdss.rs')],
 'exhaustive enumeration of programs, truncations and byte corruptions',
 'Exhaustive within the stated bounds.')
p('C13','Tensor files round-trip exactly and damaged files are errors',
 'Saving tensors and loading them back, in the binary and the JSON format, from any layout and any element type, reproduces name, shape, type and every value. Reading any truncated, altered or inconsistent file gives an error or a well-formed tensor, never a crash.',
 ['inputs','fault_sequences'],'every element type, all 8-bit values and a boundary alphabet of the wider types, several shapes and layouts; every truncation and every single-byte corruption of small files',
 'Tests do not cover the formats.',
 [C+'format/hdt.rs',C+'format/json.rs'],
 [('encoder and decoder',C+'format')],
 'exhaustive enumeration of values, truncations and byte corruptions',
 'Exhaustive within the stated bounds.')
p('C14','The plugin registry file survives crashes and concurrent updates',
 'A save of the plugin registry replaces the file as a whole: whoever reads it at any moment, and after an interruption at any point (the process or the machine stopping, unsynchronised data lost), sees the previous or the new complete contents. The commands that change it (install, remove, enable, disable), run at the same time by several processes, leave what some serial order of them leaves, with the results of that order: no reported change is lost.',
 ['crash_points','schedules'],'every crash point and torn write of every kind of update, and every interleaving (to the preemption bound) of two and three updates and readers at file-operation granularity, with and without a crash, from three initial states',
 'No test interrupts a save or runs two.',
 ['crates/hodu_plugin_runtime/src/registry.rs','hodu-cli/src/commands/plugin.rs','hodu-cli/src/commands/plugin/install.rs'],
 [('file locking and writing','crates/hodu_plugin_runtime/src/registry.rs'),('commands','hodu-cli/src/commands/plugin.rs')],
 'stateless exploration of the real library and command code under a controlled scheduler and crash injector at file-operation granularity; every outcome must be one of a serial order',
 'Exhaustive over crash points; interleavings to a preemption bound (3 to 4 quick, up to 6 thorough).')
p('C15','The plugin protocol pairs every request with its own answer',
 'A host talking to a plugin over the line protocol receives for every request exactly the answer to that request or an error, whatever order of responses, notifications, delays, malformed lines and early exits the plugin produces; a request that fails leaves the connection usable for the next one where the plugin still runs, and a request to a plugin that falls silent ends after its timeout. The plugin side answers every well-formed request exactly once under its id, never answers notifications, answers invalid requests with an error and survives malformed lines.',
 ['fault_sequences','histories'],'every sequence of peer behaviours and of request lines up to the depth bound, including stale, foreign, duplicate, malformed, split and missing answers, and cancellation',
 'Tests do not run the protocol.',
 ['crates/hodu_plugin_runtime/src/client.rs','crates/hodu_plugin/src/rpc.rs','hodu-plugin-sdk'],
 [('request/response matching','crates/hodu_plugin_runtime/src/client.rs'),('server loop','hodu-plugin-sdk')],
 'exhaustive exploration of peer behaviour sequences against the real client and server loops, with a model of the connection state as oracle',
 'Exhaustive to the stated depth.')
p('C16','Plugin lookup and plugin processes follow the registry',
 'After any sequence of registering, replacing, enabling, disabling and removing plugins, looking a plugin up by name, device or extension returns an enabled plugin that provides it exactly when one is registered. The plugin managers start exactly the enabled plugin asked for, reuse it while it runs, start it again when it has ended, and leave no process behind when starting or stopping fails; the commands that use plugins (run, build, convert, inspect) succeed exactly when the plugins they need are registered, enabled and working, and start no other plugin. Protocol compatibility follows the version rule.',
 ['histories','configurations'],'every reachable registry over a small set of plugins x every operation x every query; every manager history up to the depth bound with plugins that refuse, die, or do not stop; every small registry x every command; all version pairs over a small alphabet',
 'Tests do not cover the registry or start a plugin.',
 ['crates/hodu_plugin_runtime/src/registry.rs','crates/hodu_plugin_runtime/src/backend.rs','crates/hodu_plugin_runtime/src/format.rs','hodu-cli/src/plugins/process.rs','hodu-cli/src/commands/run.rs'],
 [('registry','crates/hodu_plugin_runtime/src/registry.rs'),('plugin managers','crates/hodu_plugin_runtime/src/backend.rs')],
 'explicit-state search over registry states and manager histories on the real code with real plugin processes, against a reference model',
 'Exhaustive to the stated depth (manager histories of 3 quick, 4 thorough).')
p('C17','A data loader delivers every sample exactly once per epoch',
 'Over one epoch a data loader yields each sample of its data set exactly once (fewer only by the dropped incomplete batch), in order without shuffling and as a permutation with it, with batches of the requested size (at least one), over any history of iterating and resetting; the same seed gives the same order, and after a batch that failed the loader goes on with it or with the next. Splitting, sub-setting and concatenating data sets lose and repeat no sample.',
 ['histories','configurations'],'every data set length, batch size, drop-last and shuffle setting and every history up to the bounds',
 'No test iterates a loader.',
 ['crates/hodu_datasets/src'],
 [('loader','crates/hodu_datasets/src/data')],
 'exhaustive enumeration of configurations and histories against a reference model',
 'Exhaustive within the stated bounds.')
p('C18','Optimisers apply their update rule at every step',
 'After any number of steps over any gradients each parameter equals what the published update rule of the optimiser gives for its settings, in every float type and layout of the parameter; a step reads no state of another parameter, and resetting or changing the learning rate takes effect as defined.',
 ['histories','configurations'],'every setting combination of the option alphabet, every gradient sequence over a small alphabet up to the depth bound',
 'No test steps an optimiser.',
 ['crates/hodu_nn/src/optimizers'],
 [('update rules','crates/hodu_nn/src/optimizers')],
 'explicit-state search over step histories against a reference implementation of the rule',
 'Exhaustive to the stated depth.')
p('C19','Layers and losses compute their definition and train their parameters',
 'Every layer and loss function returns the value its definition gives for its parameters and inputs, in training and in evaluation mode and over any alternation of the two, for every float type, and exposes exactly the parameters it has, each of which receives the gradient of that definition.',
 ['inputs','configurations','histories'],'every layer and loss, every combination of its options, small shapes, every short history of training and evaluation passes for layers with state',
 'No test runs a layer.',
 ['crates/hodu_nn/src/modules','crates/hodu_nn/src/losses'],
 [('layers','crates/hodu_nn/src/modules')],
 'exhaustive enumeration of layer configurations and mode histories against reference definitions, gradients against central differences of the definition',
 'Exhaustive within the stated bounds; random layers are judged by what every possible draw allows.')
p('C21','Invalid arguments are errors, never crashes',
 'Every tensor operation called with arguments that do not fit (axes out of range, shapes that do not match, indices outside, zero strides or windows, unsupported element types, mixed types or devices) returns an error; it never panics, crashes, hangs or reads outside its operands.',
 ['inputs'],'every operation of the catalogue x every single-argument deviation from a menu, every element type',
 'Tests only call operations the way they are meant to be called.',
 [C+'tensor/ops',C+'utils/valid.rs',C+'op_metadatas.rs'],
 [('argument validation',C+'utils/valid.rs')],
 'exhaustive enumeration of argument deviations per operation on the real code in a supervised process',
 'Exhaustive over the deviation menu.',na=NB)
