import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
C="src/core/"; PL="src/plugins/"; RT="src/runtime/runtime.cpp"
p("C01","Kernels compute exactly what OpenCL C defines, at every optimisation level",
 "For every kernel free of undefined behaviour, the bytes it leaves in its buffers are those OpenCL C defines for its source: integer and floating arithmetic, comparisons, conversions, vectors, structs, arrays, pointers, control flow and function calls. The result does not depend on whether optimisations are enabled or disabled for the build.",
 ["programs","inputs","configurations"],"All well-defined kernels (integer/float scalar and vector types, aggregates, loops, switches, calls, address spaces), all argument values, default and -cl-opt-disable builds.",
 "About ninety fixed kernels with one input each are compared with stored text; the language and the input space are unbounded and a wrong instruction shows only for particular types, widths or values.",
 [C+"WorkItem.cpp",C+"Program.cpp",C+"Kernel.cpp",C+"common.cpp"],
 [("instruction interpreter",C+"WorkItem.cpp dispatch and the per-instruction handlers"),("IR preparation (l-value load removal, aggregate store scalarisation)",C+"Program.cpp"),("typed values and struct layout",C+"common.cpp")],
 [("value store","result of every executed instruction",C+"WorkItem.cpp m_values")],["buffer contents read back after the launch"])
p("C02","Integer, relational and vector built-ins return the OpenCL-defined values",
 "Every integer, common-integer, relational, select/bitselect, shuffle, as_type, vload/vstore and integer-conversion built-in returns, for every scalar and vector width and every argument value, exactly the value the OpenCL C specification defines. Saturating and rounded conversions clamp and round as specified.",
 ["inputs"],"All integer/relational/vector built-ins, all gentypes and widths 1-16, all argument values including extremes, all convert_ suffixes.",
 "Built-in tests use a handful of constants; corner values (minimum/maximum integers, shift counts, NaN lanes, saturation boundaries) across type and width combinations are never sampled.",
 [C+"WorkItemBuiltins.cpp"],[("built-in function table and handlers",C+"WorkItemBuiltins.cpp initBuiltins")],(),["buffer contents after the launch"])
p("C03","Floating-point built-ins and conversions meet the specified accuracy",
 "Every math, geometric, common and native floating-point built-in returns a value within the error bound OpenCL specifies for that function (exactly, where exact is required), including for infinities, NaNs, zeros and denormals, in every vector lane. Floating-point conversions (including half loads and stores) return the correctly rounded value for the requested rounding mode.",
 ["inputs"],"All floating built-ins, float and double, scalar and vector, full value range and special values; all conversion rounding modes.",
 "The tests call a few functions on ordinary arguments; precision, special values, lane order and pointer outputs are properties of the whole input range.",
 [C+"WorkItemBuiltins.cpp",C+"common.cpp"],[("math built-ins",C+"WorkItemBuiltins.cpp"),("half conversion",C+"common.cpp"),("typed value float accessors",C+"common.cpp")],(),["buffer contents after the launch"])
p("C04","Every work-item of an NDRange runs exactly once with consistent identifiers",
 "For every launch (1-3 dimensions, global offset, uniform or non-uniform local size, any number of worker threads) each work-item of the index space is executed exactly once, and its global, local and group identifiers, sizes, offset, dimension and linear identifiers are those OpenCL defines. Launches leave work-group state isolated: local memory of one group is never visible to another.",
 ["inputs","configurations","schedules"],"All global sizes/offsets/local sizes, work dimensions, explicit or implementation-chosen local size, reqd_work_group_size, thread counts and quick mode.",
 "Tests launch a few small fixed ranges; remainder groups, offsets and higher dimensions combine multiplicatively, and thread interleaving is never varied.",
 [C+"KernelInvocation.cpp",C+"WorkGroup.cpp",C+"WorkItem.cpp",C+"WorkItemBuiltins.cpp",RT],
 [("work-group enumeration and scheduling",C+"KernelInvocation.cpp"),("work-item creation and ids",C+"WorkGroup.cpp, WorkItem.cpp"),("work-item functions",C+"WorkItemBuiltins.cpp get_*")],
 [("pending groups","next work-group to be executed",C+"KernelInvocation.cpp")],["monitor plugin work-item/work-group events","ids stored by the kernel"])
p("C05","Barriers and asynchronous copies order and deliver data within a work-group",
 "No work-item proceeds past a barrier before every work-item of its group has reached it, writes made before the barrier are visible after it, and an asynchronous copy has transferred exactly the specified elements once its event is waited on. Work-items that reach different barriers, skip a barrier, or disagree on an asynchronous copy or event are reported, and well-synchronised kernels are never reported.",
 ["programs","schedules","inputs"],"All barrier-structured kernels (loops, nested calls, conditionals uniform or divergent), fences, strides, event lists, group shapes and thread counts.",
 "Tests have a few barrier kernels with fixed shape; divergence and copy parameters combine with group geometry, control flow and scheduling.",
 [C+"WorkGroup.cpp",C+"KernelInvocation.cpp",C+"WorkItemBuiltins.cpp"],
 [("barrier bookkeeping",C+"WorkGroup.cpp notifyBarrier/clearBarrier/notifyFinished"),("async copies",C+"WorkGroup.cpp async_copy")],
 [("barrier state","work-items waiting at the current barrier",C+"WorkGroup.h Barrier")],["monitor plugin barrier and memory events","buffer contents","diagnostic log"])
p("C06","Atomic operations are atomic and linearizable across all work-items",
 "Each atomic operation on global or local memory performs its read-modify-write indivisibly and returns the value held immediately before it, whatever the number of worker threads, so every observed history of returned values is a linearization of the operations performed. Each operation computes the OpenCL-defined result for its signedness.",
 ["schedules","inputs"],"All atomic operations and types, contention patterns, thread counts and schedules.",
 "Atomic tests run single-threaded on a sum; lost updates only appear under concurrent schedules and depend on the operation and address.",
 [C+"Memory.cpp",C+"WorkItemBuiltins.cpp"],[("atomic functions under address mutexes",C+"Memory.cpp atomic/atomicCmpxchg"),("atomic built-ins",C+"WorkItemBuiltins.cpp atomic_op")],(),["returned old values recorded by the kernel","final memory contents"])
p("C07","Every invalid memory access is reported, no valid one is, and none corrupts",
 "Every access a kernel makes outside its allocations, through a null or dangling pointer, against a read-only/write-only buffer or a host-mapped region, or beyond the bounds of a static array is reported with its kind, address space, size and responsible work-item. A kernel whose accesses are all valid produces no such report. An invalid access changes no other object's contents and the simulation continues.",
 ["programs","inputs","histories"],"All access sizes, offsets around every allocation boundary, address spaces, vector/struct/atomic/async/memcpy accesses, access flags and map states.",
 "A few fixed off-by-one tests; exactness has to hold at every boundary, size, address space and access path.",
 [PL+"MemCheck.cpp",C+"Memory.cpp",C+"common.cpp"],[("access validation",PL+"MemCheck.cpp"),("bounds and address decoding",C+"Memory.cpp isAddressValid/load/store")],
 [("map regions","regions currently mapped by the host",PL+"MemCheck.h m_mapRegions")],["diagnostic log","buffer contents and guard buffers"])
p("C08","The data-race detector reports exactly the conflicting unordered accesses",
 "With race detection on, a kernel is reported as racy at a byte if two work-items access it with no ordering barrier between them, at least one access is a write and not both are atomic, both within one work-group and across work-groups. Race-free kernels, identical-value writes when allowed, and properly fenced accesses are never reported, and each report names the right address space, kernel and conflicting entities.",
 ["programs","inputs","configurations"],"All access patterns over global and local memory, group shapes in 1-3 dimensions, barriers and fences, atomics, uniform-write option.",
 "Tests contain a few 1-D race kernels; detection must hold for all index patterns, dimensions and synchronisation structures and be silent on all race-free ones.",
 [PL+"RaceDetector.cpp"],[("per-work-item and per-group access maps merged at barriers",PL+"RaceDetector.cpp")],
 [("access maps","last load/store per byte and entity",PL+"RaceDetector.h")],["diagnostic log against an independent happens-before oracle"])
p("C09","Uses of uninitialised values that matter are reported and only those",
 "With uninitialised-value checking on, a kernel that stores a value derived from memory never written to global memory, or uses one for control flow or addressing, is reported. A kernel all of whose values derive from initialised memory is never reported.",
 ["programs","inputs"],"All data-flow paths from uninitialised private, local or global bytes through arithmetic, vectors, structs, memcpy, function calls, builtins and control flow to a sink.",
 "The tests check individual instructions; propagation composes over arbitrary programs, and false alarms appear only for particular flows.",
 [PL+"Uninitialized.cpp"],[("shadow propagation",PL+"Uninitialized.cpp")],[("shadow memory","definedness of every byte",PL+"Uninitialized.h")],["diagnostic log against an independently known initialisation pattern"])
p("C10","Analyses and thread count never change what a program computes",
 "Enabling any combination of the analyses, changing the number of worker threads, or repeating the run does not change the results of a deterministic kernel or the set of diagnostics of an analysis. Quick mode runs exactly the first and last work-groups and otherwise behaves the same.",
 ["configurations","schedules"],"All combinations of analysis options, thread counts and schedules for deterministic kernels.",
 "Each test runs in two fixed configurations with a single thread order; interference between analyses and between threads is never compared.",
 [C+"Context.cpp",C+"KernelInvocation.cpp",PL+"*.cpp"],[("plugin notification",C+"Context.cpp"),("worker threads",C+"KernelInvocation.cpp")],(),["buffer contents and diagnostics across configurations"])
p("C11","Instruction counts equal the instructions actually executed",
 "With instruction counting on, after each kernel the report lists every instruction kind executed by that launch with exactly the number of executions over all work-items, memory operations split by address space with exact byte totals, and calls by function. Counts do not leak between launches and do not depend on the number of threads.",
 ["programs","inputs","schedules"],"All kernels, launch sizes, and thread counts.",
 "One test prints counts for one kernel; exactness over instruction mixes, repeated launches and threads is not covered.",
 [PL+"InstructionCounter.cpp"],[("per-worker counters merged at kernel end",PL+"InstructionCounter.cpp")],(),["printed report against counts from an independent observer"])
p("C12","Buffer commands move exactly the requested bytes and no others",
 "Every sequence of buffer commands (read, write, copy, fill, rectangular transfers, map/unmap, migrate, on buffers and sub-buffers with any host-pointer flags) leaves buffers and host memory in exactly the state given by applying the commands in order to plain byte arrays. Bytes outside the requested regions never change.",
 ["histories","inputs"],"All sequences of buffer commands, offsets, sizes, pitches, sub-buffer origins, and host-pointer flags.",
 "Tests do a single copy per call; rectangles, pitches, sub-buffer offsets and interleavings of map/unmap with other commands are not sampled.",
 [C+"Queue.cpp",C+"Memory.cpp",RT],[("command execution",C+"Queue.cpp"),("memory operations",C+"Memory.cpp"),("argument handling",RT+" clEnqueue*Buffer*")],
 [("buffer storage","contents of every allocation",C+"Memory.h m_memory")],["bytes read back after every command against a byte-array model"])
p("C13","Image commands move exactly the requested pixels and no others",
 "Every sequence of image commands (read, write, copy, fill, image/buffer copies, map/unmap with explicit or default pitches) on every supported image type and format leaves images, buffers and host memory exactly as a pixel-array model predicts. Image queries report the pitches, sizes and formats that make such host accesses correct.",
 ["histories","inputs"],"All image types (1D, 1D-buffer, 1D-array, 2D, 2D-array, 3D), supported formats, origins, regions, pitches and command orders.",
 "One image test with one 2-D format; slices, arrays, pitches and fill conversions are not covered.",
 [RT,C+"Queue.cpp",C+"common.cpp"],[("image commands as rectangle commands",RT+" clEnqueue*Image*"),("pixel size",C+"common.cpp getPixelSize")],(),["bytes read back against a pixel-array model"])
p("C14","Kernel image reads and writes return what the sampler and format define",
 "read_image, write_image and image query built-ins return, for every image type, channel order and data type, sampler (normalised or not, addressing mode, filter) and coordinate, the value the OpenCL image model defines, with only the requested pixel modified by a write. Linear filtering and normalised conversions are within the specified tolerance.",
 ["inputs"],"All formats, channel orders, sampler combinations and coordinates including out-of-range ones.",
 "One sampler test; addressing modes, filters, borders, channel orders and formats combine multiplicatively.",
 [C+"WorkItemBuiltins.cpp"],[("image read/write built-ins",C+"WorkItemBuiltins.cpp read_image*/write_image*")],(),["pixel values stored by the kernel against a reference sampler"])
p("C15","Commands execute once, in dependency order, and events tell the truth",
 "Every enqueued command executes exactly once and only after everything its queue order, wait list, barriers and markers require, including user events and other queues; a failed dependency fails its dependents and they do not execute. Event status only moves forward, is complete only when the command's effects are visible, callbacks fire exactly once with the right status, and profiling times are ordered.",
 ["histories","schedules","fault_sequences"],"All DAGs of commands over in-order/out-of-order queues with wait lists, markers, barriers, user events completed or failed at any point, flush/finish/wait calls and callbacks.",
 "One multi-queue test; dependency structures, failures and the points at which execution is triggered form an unbounded history space.",
 [C+"Queue.cpp","src/runtime/async_queue.cpp",RT],[("dependency evaluation and execution",C+"Queue.cpp execute/finish"),("command tracking",  "src/runtime/async_queue.cpp"),("events",RT+" clSetEventCallback, clSetUserEventStatus, clGetEventProfilingInfo")],
 [("command queue state","pending commands and their wait lists",C+"Queue.h")],["order of effects observed through memory, callbacks and event queries against a dependency model"])
p("C16","Objects live exactly as long as they are referenced and are released once",
 "Every object (context, queue, buffer, sub-buffer, image, sampler, program, kernel, event) stays usable while any host reference, dependent object or pending command refers to it, and is destroyed when the last such reference goes. Reference counts reported equal retains minus releases plus internal references that OpenCL permits, memory-object destructor callbacks run exactly once in reverse order, and device memory is returned.",
 ["histories"],"All interleavings of create, retain, release, use and enqueue over related objects.",
 "Tests create and release objects in one fixed order; lifetime errors appear only in particular interleavings.",
 [RT,C+"Context.cpp",C+"Memory.cpp","src/runtime/async_queue.cpp"],[("retain/release functions",RT),("command object retention","src/runtime/async_queue.cpp")],
 [("refCount","host references to each object","src/runtime/icd.h")],["reference count queries, destructor callbacks, monitor allocation events, address sanitizer"])
p("C17","Invalid API calls return the specified error and have no effect",
 "Every API call with an invalid object, flag, size, range, region, pitch, wait list or argument returns one of the error codes OpenCL specifies for it and creates no object, enqueues no command and changes no state; every valid call succeeds. No argument combination, including values that overflow when added, is accepted while touching memory outside the objects involved.",
 ["inputs","histories"],"All API entry points and argument combinations, valid and invalid, including extreme sizes and offsets.",
 "Tests use valid calls almost exclusively; invalid combinations are unbounded and their absence of side effects is never observed.",
 [RT],[("argument validation",RT),("check-api reporting",RT+" notifyAPIError")],(),["return codes and object state before and after"])
p("C18","Information queries report the true attributes with correct sizes",
 "Every information query returns the attribute the object was created with or has acquired, reports the exact byte size needed, never writes beyond the size given, and rejects a too-small buffer or unknown attribute. Queries of kernels and their arguments agree with the source.",
 ["inputs","histories"],"All query functions, attributes, object kinds and buffer sizes.",
 "Tests query almost nothing; hundreds of attribute and object-state pairs exist.",
 [RT,C+"Kernel.cpp"],[("clGet*Info",RT),("kernel argument metadata",C+"Kernel.cpp")],(),["returned values, returned sizes and guard bytes"])
p("C19","Programs build, link, save and reload without changing their meaning",
 "Compiling from source, compile-then-link (with headers and libraries), and reloading from saved binaries give programs with the same kernels, argument metadata and results; build options are honoured, failures return an error with a log and leave the program without kernels, and rebuilding replaces the old code. Kernels enumerate exactly the kernel functions of the source.",
 ["programs","histories","configurations"],"All sources, options, header sets, link combinations and orders of build, query and release.",
 "One build test; combinations of options, headers, link inputs and rebuilds are not covered.",
 [C+"Program.cpp",RT],[("build, link and binary serialisation",C+"Program.cpp"),("clBuildProgram/clCompileProgram/clLinkProgram",RT)],(),["kernel lists, query results, build logs and launch results per route"])
p("C20","No kernel or API sequence makes the simulator itself misbehave",
 "Whatever kernel is simulated, including one that accesses invalid memory, diverges, divides by zero or overflows, and whatever the API sequence, the simulator itself performs no invalid memory access, use after free or undefined operation and does not crash or hang; errors of the program are diagnosed instead.",
 ["programs","inputs","histories"],"All kernels, including erroneous ones, and API histories.",
 "Tests run mostly correct kernels in uninstrumented builds, where silent corruption is invisible.",
 [C+"*.cpp",PL+"*.cpp",RT],[("fatal error handling",C+"common.cpp FatalError"),("bounds checks",C+"Memory.cpp")],(),["AddressSanitizer and UndefinedBehaviorSanitizer reports, exit status"])
p("C21","Multi-threaded simulation has no data races of its own",
 "With any number of worker threads and any combination of thread-safe analyses, and with several host threads using separate objects of one or more contexts, the simulator's own shared state is accessed without data races and no message or report is lost or garbled.",
 ["schedules","configurations"],"All schedules of worker and host threads.",
 "Tests cannot see races: results are usually right; only happens-before analysis over executions shows them.",
 [C+"KernelInvocation.cpp",C+"Memory.cpp",C+"Context.cpp",PL+"*.cpp",RT],[("worker threads, plugin locks, atomic mutexes",C+"KernelInvocation.cpp, plugins")],(),["ThreadSanitizer reports, log line integrity"])
p("C22","The standalone simulator runs simulation files faithfully",
 "The standalone simulator gives each kernel argument exactly the data its simulation file describes (sizes, types, fills, ranges, hex values, null, flags, address spaces), launches the described range, and prints the requested contents exactly in the declared type and format. A malformed file is rejected with an error message and a non-zero exit, never silently misread.",
 ["inputs"],"All simulation files, valid and malformed.",
 "Ninety valid files are checked; the parser's input space and its error handling are open-ended.",
 ["src/kernel/Simulation.cpp","src/kernel/oclgrind-kernel.cpp"],[("parser and argument initialisation","src/kernel/Simulation.cpp"),("output dump","src/kernel/Simulation.cpp")],(),["printed dumps, exit status and messages"])
p("C23","Options and limits take effect and every diagnostic reaches the log once",
 "Each launcher option has exactly its documented effect on the program run, and the program's own arguments, output and exit status pass through unchanged. Every error is written once to the selected log with the right context until the error limit, after which one notice is written; API errors are reported when requested, with the function and the returned code, and never otherwise.",
 ["configurations","inputs","histories"],"All option combinations and values, error counts around the limit, log destinations, API error histories.",
 "Tests run with one set of options; limits, logs and option forwarding are untested.",
 ["src/runtime/oclgrind.cpp",PL+"Logger.cpp",RT,"src/kernel/oclgrind-kernel.cpp",C+"Context.cpp"],[("option parsing","src/runtime/oclgrind.cpp"),("logging and error limit",PL+"Logger.cpp"),("API error notification",RT)],(),["log file, stderr, child environment and exit status"])
p("C24","The interactive debugger shows the true state and controls execution",
 "In interactive mode, breakpoints stop every work-item that reaches the line, stepping advances by source line (into or over calls), and printed variables, expressions, memory and work-item positions are the values the program really has at that point. Debugger use does not change the program's results.",
 ["programs","histories","inputs"],"All command sequences over programs with calls, loops, arrays, structs and several work-items.",
 "A handful of scripted sessions exist; positions and values are checked for fixed programs only.",
 [PL+"InteractiveDebugger.cpp",C+"WorkItem.cpp",C+"KernelInvocation.cpp"],[("commands",PL+"InteractiveDebugger.cpp"),("expression printing",C+"WorkItem.cpp printExpression")],(),["debugger transcript against values computed by an independent run of the program"])
p("C25","Kernel printf prints exactly the formatted values",
 "printf in a kernel writes the text the format string defines for the given arguments: flags, widths, precisions, length modifiers, vector specifiers, strings and percent signs, once per executing work-item and in program order within each work-item.",
 ["inputs","programs"],"All format strings and argument values of all printable types, including vectors.",
 "One or two printf tests; conversion, flag, width and vector combinations are open-ended.",
 [C+"WorkItemBuiltins.cpp"],[("printf built-in",C+"WorkItemBuiltins.cpp printf_builtin")],(),["captured standard output against an independent formatter"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
