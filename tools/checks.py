# What each property's check builds and runs.  See run.py for the meaning of the fields.
HOOK_COMMITS = []
NOT_APPLICABLE = {}
ENUM = 'bounded-exhaustive enumeration of executions of the real code against a reference model'
CHECKS = {}


def check(pid, parts, rule, note, level='exploration', technique=ENUM, assumptions=()):
    CHECKS[pid] = dict(parts=parts, rule=rule, note=note, level=level, technique=technique, assumptions=list(assumptions))


def plain(h, *args, **kw):
    return dict(variant='plain', harness=h, args=list(args), **kw)


check('P15', [plain('h_ewise.cpp')],
      'every pair of operand shapes in the bound, per operator and element type; an outcome is one distinct output tensor (type, shape, values) or a refusal',
      'every case inside the stated shape/type bound is executed on the real operators and compared with a direct definition')
check('P16', [plain('h_move.cpp')],
      'every operator call in the bound; an outcome is one distinct output tensor (type, shape, values) or a refusal',
      'every call inside the stated shape/parameter bound is executed on the real operators and compared with an index-level definition')


def asan(h, *args, **kw):
    return dict(variant='asan', harness=h, args=list(args), **kw)


def hist(pid, parts, note, **kw):
    check(pid, parts, 'operation sequences from the stated alphabet, each executed from a fresh system; states are the distinct states of the reference model reached',
          note, level='model_checking', technique='explicit-state exploration of all bounded operation histories: each trace of the reference model is executed on the real code and compared after every step', **kw)


hist('P07', [plain('h_tensor.cpp'), asan('h_tensor.cpp', '--mode', 'shallow')], 'all sequences of tensor handle operations to the depth bound over three handles, every trace replayed on real tensors (one operation less under the address sanitizer)')
hist('P34', [plain('h_shape.cpp')], 'all sequences of shape operations to the depth bound against a standard vector, every trace replayed on the real shape; every pair of names over the stated pool; every coordinate of every shape in the bound')
hist('P35', [plain('h_ctx.cpp')], 'all sequences of binding, leaving and replacing contexts on two threads to the depth bound, every trace replayed on the real context slots; every listed library call and every pair of calls from the stated combinations of contexts')
hist('P24', [plain('h_stack.cpp')], 'all sequences of stack operations to the depth bound, every trace replayed on the real stack')
check('P01', [plain('h_graph.cpp')],
      'computation graphs in the bound, each compiled and run several times on the real workbench; an outcome (state) is one distinct generated instruction sequence',
      'every graph inside the stated size bounds is compiled and executed and compared with evaluation of its nodes in a free algebra')
hist('P13', [plain('h_bench.cpp')], 'all sequences of workbench calls to the depth bound over two programs and two benches, every trace replayed on the real workbench')


def sched(pid, parts, note, **kw):
    check(pid, parts, 'all schedules of each scenario with at most the stated number of preemptions and one spurious wake-up; every execution runs the real code under the controlled scheduler',
          note, level='model_checking', technique='stateless model checking: systematic enumeration of thread schedules of the real code with a preemption bound, plus happens-before race detection and deadlock detection on each', **kw)


def sch(h, *args, **kw):
    return dict(variant='sched', harness=h, args=list(args), **kw)


sched('P11', [sch('h_pool.cpp')], 'every schedule inside the preemption bound is executed on the real thread pool')
sched('P10', [sch('h_rwlock.cpp')], 'every schedule inside the preemption bound is executed on the real lock')
check('P02', [plain('h_opts.cpp')],
      'every network of the bounded families x every option string (and every pair of option strings in sequence on one module); an outcome is one distinct output tensor',
      'every network/option combination inside the bound is compiled and executed on the real code and compared with node-by-node evaluation')
hist('P09', [plain('h_sync.cpp'), asan('h_sync.cpp', '--mode', 'shallow'), sch('h_syncrace.cpp')], 'all sequences of operations on mirrored values to the depth bound over three handles and stand-in devices, every trace replayed on the real code, and every schedule of threads sharing a locked value inside the preemption bound')
sched('P14', [sch('h_share.cpp')], 'every schedule inside the bound on departures from the default schedule is executed on the real library')
check('P19', [plain('h_matrix.cpp')],
      'every size, transposition, coefficient and third-operand shape in the bound; an outcome is one distinct output tensor or a refusal',
      'every product inside the bound is executed on the real operators and compared with the triple loop')
check('P21', [plain('h_cast.cpp')],
      'every pair of element types with every value of the bound (all 8 and 16 bit values, all half patterns, powers of two and their neighbours), through each conversion route; an outcome is one distinct result tensor',
      'every conversion inside the bound is executed on the real code and compared with the exact conversion')
check('P27', [plain('h_pad.cpp')],
      'every size, kernel, stride, dilation, mode, static padding and layout in the bound, per framework; an outcome is one distinct padding tensor or a refusal',
      'every geometry inside the bound is given to the real operators and the size that results is compared with the rule')
check('P22', [plain('h_image.cpp')],
      'every pair of sizes, sampling type, layout, single step, sequence of steps and history of filter calls in the bound; an outcome is one distinct output image or a refusal',
      'every step sequence and every history of add, compile, run, clear and clone calls inside the bound is executed on the real filters and compared with a pixel-level definition')
check('P18', [plain('h_conv.cpp'), plain('h_dcn.cpp')],
      'every geometry, channel count, padding value and element type in the bound, per operator; an outcome is one distinct output tensor or a refusal',
      'every convolution or pooling inside the bound is executed on the real operators and compared with the direct sum or window')
check('P26', [plain('h_detect.cpp')],
      'every score and box layout, threshold, limit, flag, code type and element type in the bound, per operator; an outcome is one distinct output tensor or a refusal',
      'every call inside the bound is executed on the real operators and compared with the published algorithm written out directly; where equal scores leave the order open every order is accepted')
check('P17', [plain('h_func.cpp'), plain('h_ewise.cpp', '--class', 'channel')],
      'every shape, axis, flag, parameter and element type in the bound, per operator, over fixed pools of special values; an outcome is one distinct output tensor or a refusal',
      'every call inside the bound is executed on the real operators and compared with the formula evaluated in double precision')
hist('P08', [plain('h_memory.cpp'), asan('h_memory.cpp', '--mode', 'shallow')], 'all sequences of pool, block, controller and handle operations to the depth bound on a counting allocator that may fail, every trace replayed on the real pools; all fills and copies up to the size bound')
check('P04', [plain('h_model.cpp'), asan('h_model.cpp', '--mode', 'shallow')],
      'every graph of the bound saved and loaded by every route, every tensor type and packing, every parameter table, every point at which a writer may stop taking data, and all short read/write sequences on streams; an outcome is one distinct saved module or tensor',
      'every case inside the bound is written and read by the real code and compared with an independent reader of the documented file format')
check('P05', [plain('h_damage.cpp'), asan('h_damage.cpp', '--mode', 'shallow')],
      'every truncation point, every single-byte change from a fixed set at every offset, every structural field overwritten by each value of a fixed set and every pair of such fields, of several module files, by every way to load; an outcome is one distinct result (refusal or canonical module)',
      'every damaged file in the bound is loaded by the real code and judged by an independent strict reader of the documented file format', level='fault_enumeration')
check('P31', [plain('h_link.cpp'), asan('h_link.cpp', '--mode', 'shallow')],
      'every sequence of node, link, replace, release and build operations to the depth bound on up to five nodes of one or two graphs, every way to join two or three small modules, every set of names; an outcome is one distinct graph or module',
      'every sequence inside the bound is executed on the real graph classes and compared with a reference graph; joined modules are compared with the functions they compute')
check('P06', [plain('h_crypt.cpp'), asan('h_crypt.cpp', '--mode', 'shallow')],
      'every payload length, content kind, key length class, first and repeated write and read size in the bound; every truncation point, every block of foreign bytes behind, every single-byte change from a fixed set and every key of a fixed set; an outcome is one distinct file or error',
      'every case inside the bound is written and read by the real code and compared with an AES-256 written from the standard')
check('P23', [plain('h_capi.cpp'), asan('h_capi.cpp', '--mode', 'shallow')],
      'every function of the interface with every combination of null, wrong and valid arguments from fixed pools; every order of freeing the handles; every sequence of workbench and context calls to the depth bound; every interleaving of the calls of two threads; every stage and way in which a user operator fails; an outcome is one distinct result or message',
      'every call inside the bound is executed through the real interface, other handles are checked after each, and results are compared with the library called directly')
check('P20', [plain('h_%s.cpp' % h, '--mode', 'infer') for h in ('ewise', 'move', 'matrix', 'func', 'pad', 'conv', 'dcn', 'image', 'detect')],
      'every operator call enumerated for P15-P19, P22, P26 and P27; an outcome is one distinct output tensor or a refusal',
      'every operator call inside those bounds is predicted and executed on the real operators: the prediction is compared with what execution produces, asked again afterwards, and the result is compared with that of an object which was not asked')
check('P33', [plain('h_proto.cpp')] + [plain('h_%s.cpp' % h, '--mode', 'graph') for h in ('move', 'matrix', 'func', 'ewise', 'pad', 'conv', 'dcn', 'image', 'detect')],
      'every successful operator call enumerated for P15-P19, P22, P26 and P27 as a graph of one node (constants, arguments, each size of the first argument unknown), and all chains of operators over the stated pool and leaves; an outcome is one distinct inferred shape or output tensor',
      'every graph inside the bound is inferred by the real library and its nodes are executed by the real operators: fields, types, sizes, values known in advance and the run of the inferred graph are compared')
check('P32', [plain('h_front.cpp')],
      'every call of every frontend builder over the stated shapes, types and parameters (valid or not) by every route; all graphs of up to three logging or user-registered operators with every hook, profiler and run_hook configuration and a failure at every execution; an outcome is one distinct result tensor, refusal or execution order',
      'every call inside the bound is made by every route on the real library and compared with the operator given its documented parameters; hooks, timings and user callbacks are compared with the executions the operators themselves record')
