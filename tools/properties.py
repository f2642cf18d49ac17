# One entry per property: id -> dict.  gen.py writes properties.jsonl and MANIFEST.json from this and checks.py.
P = {}


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P[id] = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
             'why_tests_cant': why, 'anchors': a}


prop('P01', 'Running a compiled graph gives the value its definition denotes',
     'Compiling any valid computation graph and running it yields, for each declared output, exactly the value obtained by evaluating that node of the graph once on the given inputs and constants. This holds whatever the sharing, fan-out, repeated use of one node, multi-output fields, order of outputs, or outputs that are themselves inputs or constants. An output is never affected by other outputs or by dead nodes, and running again with the same inputs gives the same results.',
     ['programs'], 'all computation graphs up to the size bound, over the node kinds input, constant, unary, binary, multi-output, field access and in-place copy, with every choice of declared inputs and outputs',
     'The tests compile two or three hand-written graphs; a stack-scheduling mistake shows only for particular sharing patterns of the graph.',
     ['src/compiler/compiler.cpp', 'src/runtime/instruction/stack_instruction.cpp', 'src/runtime/instruction/instruction_factory.cpp', 'src/runtime/workbench.cpp', 'src/runtime/program.cpp'],
     [('stack-machine code generation', 'src/compiler/compiler.cpp'), ('data-segment for constants', 'src/runtime/program.cpp')])
prop('P02', 'Compile options never change what a program computes',
     'Every optimisation or translation option that can be passed when compiling a module only changes how the result is computed: outputs keep their count, order, type, shape and values (up to the accuracy the option documents). Compiling leaves the source module usable and unchanged, so it can be compiled again with other options or saved. Unknown options have no effect.',
     ['programs', 'configurations'], 'all bounded networks of convolution, bias, scale, activation, pooling, matrix product and arithmetic nodes x all subsets of the compile options for the CPU',
     'Tests never compile one module under several option sets and compare.',
     ['src/compiler/option', 'src/compiler/fence', 'src/compiler/translater.cpp', 'src/compiler/zipper.cpp', 'src/compiler/converter.cpp', 'src/compiler/argparse.cpp'],
     [('translator options', 'src/compiler/option'), ('zipper options', 'src/compiler/zipper.cpp'), ('pattern fences', 'src/compiler/fence')])
prop('P04', 'A saved model loads back as the same model',
     'Writing a module and reading it back, through any of the supported stream kinds, yields a module with the same inputs and outputs in the same order, the same nodes, parameters (names, types, shapes and bytes) and connections including sharing, and the same computed results. Saving the loaded module reproduces an equivalent file, in the documented format. A save that the stream or disk cannot take completely is reported. Tensors, packed tensors, strings and parameter tables round-trip individually as well.',
     ['programs', 'inputs'], 'all bounded graphs with shared nodes, every element type, packed and empty tensors, parameter kinds, and each save/load route (file, stream, C API)',
     'Tests save one module with a fixed topology.',
     ['src/module/module.cpp', 'src/module/serialization.cpp', 'src/module/graph.cpp', 'src/module/bubble.cpp', 'src/core/tensor.cpp', 'include/module/io'],
     [('graph serialisation with node indices', 'src/module/serialization.cpp'), ('tensor externalize/serialize', 'src/core/tensor.cpp')])
prop('P05', 'A damaged or truncated model file is refused with an error',
     'Loading a model whose bytes were cut short at any point, or in which a structural field (magic, version, count, index, length or type code) was overwritten, either reports an error or yields a well-formed module. It never crashes, reads or writes outside its buffers, hangs, or silently returns a model in which data the file does not contain was invented. The failure leaves the library usable.',
     ['fault_sequences', 'inputs'], 'every truncation point and every single-byte corruption from a fixed set of values at every offset of a set of model files',
     'Tests only load intact files; damage has to be tried at every offset.',
     ['src/module/module.cpp', 'src/module/serialization.cpp', 'src/module/header.cpp', 'src/core/tensor.cpp', 'include/utils/static.h', 'src/module/io'],
     [('checked stream reads', 'src/module/serialization.cpp'), ('header check', 'src/module/header.cpp')])
prop('P06', 'Encrypted streams and blocks return exactly the bytes written',
     'Data written through an encrypting file stream, or encrypted as a block, with a key is returned byte for byte when read with the same key, for every length and every split of the writes and reads. Reading with a different key does not return the plaintext, and the file does not contain it. A missing or truncated file is reported as an error.',
     ['inputs', 'histories'], 'all payload lengths around the block and buffer sizes x all splits of writes and reads up to the bound x keys of every length class',
     'No test writes an encrypted file; padding and buffering errors depend on the exact lengths.',
     ['src/encryption', 'include/encryption', 'src/module/io/sstream.cpp', 'src/module/io/fstream.cpp'],
     [('buffered block cipher stream', 'src/encryption/aes_fstream.cpp'), ('aes', 'src/encryption/aes.cpp')])
prop('P07', 'Tensor copies, views, slices and fields behave as documented values',
     'After any sequence of construct, copy, clone, reshape, slice, view, pack, refield and write operations, each tensor handle reports the dtype, shape, field count and elements predicted by value semantics with documented sharing: copies, reshapes and slices share storage, clones never do. An operation that is not valid for the handle is refused without changing any handle. Reshape with one unknown dimension keeps the element count.',
     ['histories'], 'all operation sequences up to the depth bound over a pool of tensor handles of several types and shapes',
     'Tests call each operation once on one tensor; sharing errors need a sequence of operations.',
     ['src/core/tensor.cpp', 'include/core/tensor.h', 'src/core/memory.cpp', 'src/core/tensor_builder.cpp'],
     [('shared memory blocks and field list', 'src/core/tensor.cpp')])
prop('P08', 'Pooled memory never overlaps, leaks or loses live contents',
     'Under any sequence of allocations, resizes, frees, moves, swaps and pool resets, every live block keeps its own contents, no two live blocks overlap, a resized block keeps its common prefix, and each block obtained from the underlying allocator is returned exactly once, also when an allocation fails. This holds for the pooling allocators, the flow controllers and plain memory blocks alike. Copying or filling memory touches exactly the bytes asked for, between devices too, and the destructor hook of a memory runs once, when its last handle goes.',
     ['histories'], 'all operation sequences up to the depth bound over a few sizes and slots for each allocator',
     'Tests allocate in one fixed order; overlap depends on the order of frees and reallocations.',
     ['src/memory/flow.cpp', 'src/memory/orz', 'include/memory', 'src/core/hard_memory.cpp', 'src/core/memory.cpp', 'src/core/controller.cpp'],
     [('size-sorted free list', 'src/memory/orz/vat.cpp'), ('memory controllers', 'src/core/controller.cpp')])
prop('P09', 'Data mirrored on several devices is never stale',
     'Whatever the sequence of reads, writes, shares, detaches and device switches on a mirrored value, a read on a device returns the most recently written value, a conversion is performed only when that device lacks the current version, and values on other handles are unaffected unless documented as shared. A device without a converter is refused and leaves the value intact.',
     ['histories'], 'all sequences up to the depth bound of get, set, write, view, broadcast, clear, detach on two handles and three devices',
     'Tests only ever have one device, so no synchronisation happens in them.',
     ['include/core/sync/sync_block.h', 'include/core/sync/sync_controller.h', 'src/core/sync', 'include/core/sync_memory.h'],
     [('per-device value map', 'include/core/sync/sync_block.h')])
prop('P10', 'The reader-writer lock excludes writers and never strands a waiter',
     'In every interleaving of threads taking and releasing read and write locks, a writer holds the lock alone, readers may hold it together, and what one holder wrote is visible to the next. Every thread that asked for the lock gets it once the holders release it. Scoped locks release exactly what they took, also when moved.',
     ['schedules'], 'all interleavings of up to three threads with up to two lock operations each, within the preemption bound',
     'Tests never run two threads on the lock.',
     ['include/utils/mutex.h', 'include/core/threadsafe', 'include/utils/mutex.h', 'include/utils/rwmutex.h'],
     [('reader count under mutex pair', 'include/core/threadsafe')])
prop('P11', 'The thread pool runs every task once and shuts down cleanly',
     'Each task submitted to the pool or to a single worker thread is executed exactly once with a valid worker number, joining returns only when every submitted task has finished, and what the tasks wrote is visible after the join. The pool reports itself busy exactly while a submitted task is unfinished. Destroying a pool in any state terminates and no two tasks run at once on one worker. Splitting a range over the pool covers each index exactly once.',
     ['schedules'], 'all interleavings of the submitting thread and up to two workers within the preemption bound, with up to three tasks, and destruction at every point',
     'A lost wake-up needs one specific interleaving; running the test many times does not produce it.',
     ['src/runtime/inside/thread_pool.cpp', 'include/runtime/inside/thread_pool.h', 'include/runtime/inside/parallel.h', 'src/runtime/inside/parallel.cpp', 'include/utils/box.h'],
     [('worker hand-off with mutex and condition', 'src/runtime/inside/thread_pool.cpp')])
prop('P13', 'A workbench behaves as a function of its latest inputs',
     'After any sequence of setting inputs by index or name, running, reading outputs, cloning, loading another program and failing calls, outputs are those of the current program applied to the latest inputs. A failed call (unknown name, bad index, wrong input, failing operator) reports an error and leaves later correct calls unaffected. A clone has inputs and outputs of its own, and reading outputs never changes later runs.',
     ['histories'], 'all sequences up to the depth bound of workbench calls on two programs and their clones',
     'Tests call set, run, get once; leftovers from an earlier or failed run need a longer history.',
     ['src/runtime/workbench.cpp', 'src/runtime/stack.cpp', 'src/api/workbench.cpp', 'src/runtime/program.cpp'],
     [('stack rebase around runs', 'src/runtime/workbench.cpp'), ('input and output slots', 'src/runtime/workbench.cpp')])
prop('P14', 'Independent workbenches on different threads do not disturb each other',
     'When several threads each use their own workbench (clones of one another or built from the same module), registry lookups, creation and runs produce the results of a sequential run in every interleaving, without data races or deadlock. Handles shared between threads are released exactly once.',
     ['schedules'], 'all interleavings within the preemption bound of two threads each creating, cloning, running or destroying workbenches that share a program',
     'Tests are single threaded.',
     ['src/runtime/workbench.cpp', 'src/runtime/program.cpp', 'src/utils/ctxmgr.cpp', 'include/utils/ctxmgr_lite.h', 'src/global', 'include/core/threadsafe/smart.h'],
     [('thread-local contexts', 'include/utils/ctxmgr_lite.h'), ('shared constants', 'src/runtime/program.cpp')])
prop('P15', 'Broadcasting operators match their element-by-element definition',
     'The binary arithmetic, maximum, modulo, comparison and selection operators give at each position of the broadcast shape the operation applied to the correspondingly broadcast operand elements, for operands of any broadcastable shapes and ranks and any numeric type. Shapes that cannot be broadcast are refused. The per-channel operators (bias, scale, batch norm, channel-wise leaky slope) apply the coefficient of the element\'s own channel.',
     ['inputs'], 'all operand shape pairs up to rank four with sizes 1 to 3 plus longer rows for the vector paths, all element types, all channel dimensions',
     'The tests use a few shape pairs; the implementation selects between five traversal strategies by shape.',
     ['src/backend/base/element_wise_reduce.cpp', 'src/kernels/cpu/add.cpp', 'src/kernels/cpu/sub.cpp', 'src/kernels/cpu/mul.cpp', 'src/kernels/cpu/div.cpp', 'src/kernels/cpu/mod.cpp', 'src/kernels/cpu/equal.cpp', 'src/kernels/cpu/where.cpp', 'src/kernels/cpu/add_bias.cpp', 'src/kernels/cpu/batch_norm.cpp'],
     [('shape alignment and strategy choice', 'src/backend/base/element_wise_reduce.cpp')])
prop('P16', 'Data-movement operators place every element where documented',
     'Concatenate, split, chunk, stack, slice (all versions), strided slice, gather and scatter, transpose, reshape, flatten, squeeze, expand, tile, pad, crop, shuffle, space/batch rearrangement, one-hot style index and broadcast operators put exactly the documented source element (or pad value) at each output position, for every legal parameter including negative axes, for every element size. Illegal parameters are refused instead of reading out of range.',
     ['inputs'], 'all small shapes x all legal and near-legal parameter values of each operator, several element sizes',
     'Tests cover one call per operator; index arithmetic fails for particular axis/size/stride combinations.',
     ['src/kernels/cpu', 'src/backend'],
     [('per-operator index computation', 'src/kernels/cpu'), ('parameter checks', 'src/backend')])
prop('P17', 'Reductions, activations and normalisations follow their formulas',
     'Each unary activation (abs to pow, relu to hard_sigmoid), reduction (max, reduce_sum, reduce_mean), softmax, normalisation (l2_norm, norm_image, batch_norm, fused_batch_norm, batch_scale) and cast operator returns at each element the documented formula applied to its input, for every axis (negative ones included where the operator takes them), rank, keep-dims choice and element type it accepts; on integers the value of the formula is truncated to the type. Softmax of floating numbers sums to one along the axis and stays finite for large inputs. Special values (zeros, negatives, large magnitudes, infinities) follow the formula too. An axis the input does not have, or axes of reduce_mean that are not neighbours, are refused.',
     ['inputs'], 'all shapes up to rank four with sizes 1 to 3 plus vector-length rows x all axes x both keep flags x float and integer types x a set of special values',
     'Tests use one vector per operator; the vectorised body and its tail are separate code.',
     ['src/kernels/cpu', 'src/backend', 'include/kernels/common'],
     [('vector loop plus scalar tail', 'src/kernels/cpu')])
prop('P18', 'Every convolution and pooling algorithm equals the direct definition',
     'For any input size, kernel, stride, dilation, padding, channel count and batch, convolution, depthwise, transposed, Winograd, deformable and packed-kernel convolutions and max/average/global pooling give the result of the direct sum (or window) definition, whichever internal algorithm is chosen. Positions in the padding contribute the documented padding value and windows are clipped as documented.',
     ['inputs', 'configurations'], 'all parameter tuples up to the bounds: sizes 1 to 7, kernels 1 to 3 (5, 7 at selected sizes), strides 1 to 3, dilations 1 to 2, asymmetric paddings 0 to 2, channels around the vector width',
     'Tests use a handful of geometries; each algorithm has its own tiling and edge handling.',
     ['src/kernels/cpu/conv2d.cpp', 'src/kernels/cpu/pooling2d.cpp', 'src/kernels/common', 'src/kernels/cpu', 'src/backend/base/base_conv2d.cpp'],
     [('algorithm selection', 'src/kernels/cpu'), ('tiling and packing', 'src/kernels/common')])
prop('P19', 'Matrix products equal the triple-loop definition for every size',
     'Inner product, general matrix multiply and matrix multiply (a first operand of any number of leading dimensions with one matrix, or two single images) return the sum of products for every row, column and depth size, transposition, scaling factor and bias, in float and double, with or without pre-packed operands. Operands whose sizes do not match are refused.',
     ['inputs'], 'all M, N, K in 1 to 20 (and up to 40 thorough), all transpositions, scale and bias choices',
     'Tests multiply a few sizes; the blocked kernel has separate code for each remainder.',
     ['src/kernels/cpu/math_cpu.cpp', 'src/kernels/cpu/cpu_gemm.cpp', 'src/kernels/cpu/inner_prod.cpp', 'src/kernels/cpu/matmul.cpp', 'include/kernels/common/math.h'],
     [('packed block kernel with remainders', 'src/kernels/cpu/math_cpu.cpp')])
prop('P20', 'Predicted output types and shapes match what operators produce',
     'Whenever an operator executes successfully, asking it beforehand for its output prototypes gives the number, element types and shapes of what it then produces. Where the number of result rows depends on the values (detection output, proposals, yolo post-processing) the number of outputs, their types and the row format are predicted. The prediction itself does not change the inputs or the later result.',
     ['inputs'], 'every successful call enumerated for the operator properties (element-wise, movement, reduction, convolution, matrix, image operators)',
     'Inference and execution are separate functions per operator; tests exercise execution only.',
     ['src/backend', 'src/kernels/cpu', 'src/runtime/workbench.cpp'],
     [('per-operator infer', 'src/backend')])
prop('P33', 'Shapes a graph announces before it runs are the shapes it produces',
     'Inferring the nodes of a graph before it runs (ts::infer) gives for every node the number of fields, the element types and the sizes that executing the node produces. A size that depends on a size not known, or on values, may stay unknown (-1), but no wrong size is announced (sizes that other operators compute from the shape of an input with unknown sizes excepted); with all inputs known constants, every supported operator that can run is answered. A value found in advance (such as the shape of a tensor) is the value computed when run. The answer does not depend on the order of asking, asking again gives the same answer, the shape and type kept in the node are those answered, and a graph that was asked computes the same results as before.',
     ['inputs', 'programs'], 'every successful operator call enumerated for the operator properties as a one-node graph with constant inputs, arguments, and each size of the first argument unknown; all chains of up to three operators (four for some) from a pool that passes shapes, values and packed fields on',
     'The inference of graphs is written a second time per operator, apart from the operators; the tests contain no graph inference.',
     ['src/runtime/inferer.cpp', 'src/runtime/inferer/factory.cpp', 'include/runtime/inferer.h', 'src/global/shape_inferer_factory.cpp'],
     [('per-operator graph inference', 'src/runtime/inferer/factory.cpp'), ('inference over the graph, values in advance', 'src/runtime/inferer.cpp')])
prop('P21', 'Element type conversion preserves or rounds values as documented',
     'Converting a tensor between any two supported element types gives each element the value of the usual numeric conversion, leaves the source intact, and keeps the shape. To boolean, every value but zero is true. Every finite half value (subnormal ones included) converts exactly to float and double and back; other finite numbers go to a neighbouring half value, and those too large for it (or no number) become the largest half of their sign or infinity. Type sizes agree with stored bytes, and each type has a name of its own.',
     ['inputs'], 'all pairs of element types, all 65536 half-precision patterns, all representable 8 and 16 bit values and boundary values of wider types',
     'Tests convert a few values; half precision has many special encodings.',
     ['src/core/ieee754_float.cpp', 'include/core/ieee754_float.h', 'src/core/tensor_builder.cpp', 'src/kernels/cpu/cast.cpp', 'src/core/dtype.cpp', 'include/core/dtype.h'],
     [('bit-level half conversion', 'src/core/ieee754_float.cpp'), ('type dispatch', 'src/core/tensor_builder.cpp')])
prop('P22', 'Image filters transform pixels as documented, alone and composed',
     'Each image preprocessing step (type conversion, scale, mean and deviation, crop, channel swap, layout change, colour forcing, resize, letterbox, pad to multiple, prewhiten) gives the documented pixel values for every image size and channel count; resampling (linear, cubic, nearest, hard; resize, affine sampling, letterbox) repeats the border instead of reading outside, every pixel of the image included, and fills only places outside the image with the outer value. A filter made of several steps equals applying them one after another. Reusing, cloning or recompiling a filter does not change its results, and images it cannot process are refused.',
     ['inputs', 'programs'], 'all pairs of image sizes from 1x1 to the bound, channels 1 to 4, all single steps, all step sequences up to length three, all histories of building, running, cloning and clearing filters up to the bound',
     'Tests run one or two pipelines on one picture.',
     ['src/runtime/image_filter.cpp', 'src/api/image_filter.cpp', 'src/kernels/cpu/resize2d.cpp', 'src/kernels/cpu/affine_sample2d.cpp', 'src/kernels/common'],
     [('pipeline compiled as a graph', 'src/runtime/image_filter.cpp')])
prop('P23', 'The C interface contains every failure and owns its handles',
     'No call through the C interface with null handles, wrong indices, unknown names, unreadable files or failing operators lets an exception escape or crashes; it returns its documented failure value and sets a message retrievable on that thread. A failed call leaves all other handles valid, and every created handle can be freed independently and in any order while results derived from it stay usable. Successful calls agree with the underlying library.',
     ['histories', 'inputs'], 'every exported function with every combination of null and invalid arguments, and all create/use/free orders up to the depth bound',
     'Tests call the interface only with valid arguments.',
     ['src/api', 'include/api'],
     [('try/catch macros around each entry', 'src/api')])
prop('P24', 'The runtime stack keeps its addressing rules under every operation order',
     'After any sequence of push, clone, pop, erase, rebase and indexed reads, positions counted from the top and from the base refer to the documented elements, the size is right, and elements outside the current base are untouched. Invalid positions are refused without changing the stack. Pushing a copy and cloning differ only in sharing storage.',
     ['histories'], 'all operation sequences up to the depth bound compared with a reference list',
     'Tests push and pop a few elements in one order.',
     ['src/runtime/stack.cpp', 'include/runtime/stack.h'],
     [('base-relative indexing', 'src/runtime/stack.cpp')])
prop('P34', 'Shapes, names and coordinates act like standard containers up to capacity',
     'Up to its fixed capacity a shape behaves like a standard vector after any sequence of construct, assign, insert, append, remove, resize, clear, copy and swap, and a device or operator name like a standard string; whatever would pass the capacity is refused, changes nothing and writes nowhere else. Names are equal exactly when their text is and are ordered strictly. Every position of a shape converts to coordinates and back unchanged, and walking a shape forwards or backwards visits its coordinates in row-major order.',
     ['histories', 'inputs'], 'all operation sequences up to the depth bound compared with the standard containers, all pairs of names, all coordinates of all shapes in the bound',
     'Shapes are only exercised through whatever sequences a tested operator happens to perform.',
     ['include/utils/otl.h', 'include/core/tensor_iterator.h'],
     [('capacity checks of the bounded containers', 'include/utils/otl.h')])
prop('P35', 'Every call leaves the contexts of its thread as it found them',
     'A context (graph, workbench, device, runtime, thread pool, hook, profiler) bound on a thread is current on that thread only, the innermost binding first, and the one before it is current again when the binding ends, normally or by an exception. Building, compiling, loading, saving, cloning, inferring, filtering and running, whether they succeed or fail, leave the contexts of the calling thread as they found them and add nothing to the graph bound there. An operator that runs sees the workbench, runtime, device and thread pool it runs on.',
     ['histories', 'fault_sequences'], 'all sequences of bindings on two threads to the depth bound against a stack per thread; every listed call and pair of calls from every stated combination of contexts',
     'Tests bind one context around a block and never look at what is bound afterwards.',
     ['include/utils/ctxmgr_lite.h', 'include/utils/ctxmgr_lite_support.h', 'src/runtime/workbench.cpp', 'src/runtime/image_filter.cpp', 'src/runtime/program.cpp'],
     [('scoped bindings around each entry', 'src/runtime/workbench.cpp')])
prop('P26', 'Detection and selection operators follow their definition',
     'Top-k, argmax, non-maximum suppression, detection output, prior boxes, proposals and region pooling return the elements the definition selects, in the documented order with the documented ties, limits and padding values, for every arrangement of scores and boxes including ties, identical boxes and empty results.',
     ['inputs'], 'all small score tables over a few values (ties included), all arrangements of up to four boxes on a small grid, all thresholds and limits in a small set',
     'Tests feed one recorded network output; ties and empty selections do not occur in it.',
     ['src/kernels/cpu/topkv2.cpp', 'src/kernels/cpu/argmax.cpp', 'src/kernels/cpu/non_max_suppression_v3.cpp', 'src/kernels/cpu/detection_output.cpp', 'src/kernels/cpu/prior_box.cpp', 'src/kernels/cpu/roi_align.cpp'],
     [('selection and suppression loops', 'src/kernels/cpu')])
prop('P27', 'Automatic paddings follow each framework\'s published rule',
     'The padding computed for convolution or pooling in the TensorFlow, ONNX, MXNet and Dragon conventions makes the ordinary output-size formula give exactly the size that convention prescribes, for every input size, kernel, stride, dilation, static padding and layout: ceil(size/stride) for SAME, ceil((size-kernel+1)/stride) for VALID. What SAME adds is split evenly with an odd line at the end (at the beginning for SAME_LOWER), nothing is cut from the beginning when the windows already fit, VALID adds nothing at the beginning, optional parameters may be left out, and images whose channels do not match the kernel are refused.',
     ['inputs'], 'all sizes 1 to 16, kernels 1 to 5, strides 1 to 4, dilations 1 to 3, all modes and static paddings 0 to 2',
     'Tests try one geometry per framework.',
     ['src/backend', 'src/kernels/common', 'include/backend/common_function.h'],
     [('per-framework dynamic padding', 'src/backend')])
prop('P31', 'Graph editing keeps links mutual and traversal order valid',
     'After any sequence of node creation, linking, re-linking, replacement and release, every input edge has exactly the matching output edge, node order for serialisation lists each reachable node exactly once after all its inputs, and merging modules preserves the meaning of each. Building a module from the same graph always gives the same order of inputs. Dead nodes disappear without affecting live ones, and a cyclic or unconnected graph is refused rather than looping.',
     ['histories', 'programs'], 'all sequences of editing operations up to the depth bound on up to five nodes',
     'Tests build one static graph.',
     ['include/module/graph.h', 'src/module/graph.cpp', 'src/module/module.cpp', 'src/module/menu.cpp', 'include/utils/box.h'],
     [('weak back links', 'include/module/graph.h'), ('graph walker', 'src/module/module.cpp')])
prop('P32', 'Operators built with the frontend equal direct execution',
     'Evaluating an operator immediately, executing it on a workbench, and building it as a one-node graph that is compiled and run give identical results and identical refusals (an immediate concatenation of one tensor and an immediate conversion to the type a tensor has already hand it on). User-registered operators, hooks and profiling observe but never change results, and are called once per executed operator in execution order.',
     ['programs', 'configurations'], 'all frontend operator builders over small inputs x hook and profiler configurations',
     'Tests build graphs but do not compare the three routes.',
     ['src/frontend', 'include/frontend', 'src/api/intime.cpp', 'src/runtime/workbench.cpp', 'src/runtime/instruction.cpp', 'src/board', 'src/api/plugin.cpp', 'src/global'],
     [('intime execution', 'src/frontend/intime.cpp'), ('node builders', 'src/frontend/symbol.cpp'), ('hook emission', 'src/runtime/instruction.cpp'), ('profiler', 'src/board/profiler.cpp')])
