#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single place the property texts are written)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        observe_at=list(observe), hook_needed=hook)))

p("C01", "Every NDRange runs each work-item exactly once with the right identity",
  "For every accepted combination of dimensions, global size, global offset and work-group size (including work-group sizes that do not divide the global size where the language version allows it), every work-item of the NDRange executes exactly once. Each work-item sees the global, local and group IDs, sizes, counts, offsets and linear IDs that OpenCL defines for it, and work-items of a group share exactly that group's local memory. In quick mode exactly the first and the last work-group run.",
  ["configurations"], "all NDRange configurations (dims 1-3, sizes, offsets, group sizes incl. non-dividing) and worker-thread counts within stated bounds",
  "Tests use a handful of fixed 1-D/2-D sizes; the remainder-group and 3-D index arithmetic is a function of every size combination.",
  ["src/core/KernelInvocation.cpp", "src/core/WorkGroup.cpp", "src/core/WorkItem.cpp", "src/core/WorkItemBuiltins.cpp"],
  [("group enumeration and remainder sizes", "KernelInvocation::KernelInvocation/runWorker"), ("work-item ID computation", "WorkItem::WorkItem, get_*_id builtins")],
  [("work-group list", "groups still to run", "KernelInvocation.cpp")], ["kernel-visible IDs written to a buffer"])

p("C02", "Results and diagnostics do not depend on worker-thread scheduling",
  "Work-groups are simulated by several worker threads. For every interleaving of those workers, a kernel whose work-groups are independent or only use atomics leaves the same memory contents, produces the same set of diagnostics and instruction counts as a single worker, and the simulator itself neither deadlocks nor performs unsynchronised conflicting accesses to its own state.",
  ["schedules"], "all interleavings of 2-3 worker threads at synchronisation operations within a preemption bound, for a set of colliding kernels and every plugin combination that runs multi-threaded",
  "The test runner sees one arbitrary OS schedule per run; lost updates in work distribution, logging, counters, or shadow state need a particular preemption.",
  ["src/core/KernelInvocation.cpp", "src/core/Context.cpp", "src/core/Memory.cpp", "src/plugins/RaceDetector.cpp", "src/plugins/InstructionCounter.cpp", "src/plugins/Logger.cpp", "src/plugins/Uninitialized.cpp"],
  [("next work-group index", "KernelInvocation::runWorker"), ("per-buffer/atomic mutexes", "Memory.cpp, RaceDetector.cpp"), ("per-thread pools merged under a mutex", "InstructionCounter.cpp")],
  [("nextGroupIndex", "shared work distribution counter", "KernelInvocation.cpp")], ["buffers read back", "stderr diagnostics", "instruction count report"])

p("C03", "Atomic operations are atomic and return the right old value",
  "Every atomic builtin, on every supported type and address space, reads the old value, writes the value OpenCL defines and returns the old value as one indivisible step. Concurrent atomics from different work-groups therefore always have an outcome explained by some sequential order of the calls.",
  ["schedules", "inputs"], "all interleavings (bounded preemptions) of short atomic call sequences from 2-3 concurrently simulated work-groups on shared and aliased-lock locations; all operations x operand lattice sequentially",
  "Tests run each atomic once from lock-step work-items; lost updates need a preemption inside the read-modify-write and result errors need edge operands.",
  ["src/core/Memory.cpp", "src/core/WorkItemBuiltins.cpp"],
  [("lock bank", "Memory::atomic, Memory::atomicCmpxchg")], [("atomic mutex bank", "mutexes hashed by address", "Memory.cpp")], ["final memory and returned old values"])

p("C04", "Barriers synchronise whole work-groups and divergence is always reported",
  "No work-item of a work-group passes a barrier before every work-item of that group has reached it, work before the barrier is visible after it, and asynchronous copies are complete when their event has been waited for. A kernel in which work-items of one group reach different barriers, or some finish while others wait, is always reported as divergent, and a kernel in which they do not is never reported; simulation always terminates.",
  ["programs", "configurations"], "all small per-work-item programs over {store, load, barrier, async copy, wait, branch, early return} for groups of up to 4 work-items, in several groups",
  "The tests contain a few fixed divergent and non-divergent kernels; which combinations of early exits, loops and copies are handled is a property of every control-flow shape.",
  ["src/core/WorkGroup.cpp", "src/core/WorkItemBuiltins.cpp", "src/core/KernelInvocation.cpp"],
  [("barrier arrival set", "WorkGroup::notifyBarrier/clearBarrier"), ("async copy queue", "WorkGroup::async_copy/wait_event")],
  [("m_barrier", "pending barrier of the group", "WorkGroup.h")], ["buffer contents", "divergence diagnostics"])

p("C05", "The race detector reports a data race exactly when there is one",
  "With data-race detection on, a kernel execution is reported as racy exactly when two work-items perform conflicting accesses (at least one write, not both atomic, and not identical-value writes where those are allowed) to the same byte of global or local memory that no barrier of the appropriate kind orders. Properly synchronised kernels are never reported, whatever the NDRange shape, access size or work-group count.",
  ["programs", "configurations"], "all small programs of loads, stores, atomics and barriers by up to 3 work-items in up to 2 work-groups, over 1-D/2-D/3-D shapes, overlapping access sizes and both address spaces",
  "Tests hold some twenty fixed kernels in 1-D shapes; exactness quantifies over every pair of accesses, barrier placement and geometry.",
  ["src/plugins/RaceDetector.cpp", "src/plugins/RaceDetector.h", "src/core/WorkGroup.cpp"],
  [("per-byte access records, synced on barrier/group completion", "RaceDetector::registerAccess/syncWorkItems/workGroupComplete")],
  [("global/local access state", "last load/store per byte with owner and sync flags", "RaceDetector.h")], ["race diagnostics per kernel run"])

p("C06", "Every out-of-bounds memory access is reported and contained",
  "Any access by a kernel to bytes that do not belong to a live object in that address space (outside a buffer, a sub-range crossing its end, a null or released buffer, local, private, constant or program-scope memory) is reported as an invalid read or write of the right size, and neither crashes the simulator nor changes any other object. An access entirely inside a live object is never reported and returns the bytes last stored there.",
  ["programs", "histories", "inputs"], "all accesses (kind x address space x width x offset around both ends of the object) and all bounded alloc/store/copy/free histories against a byte-map model",
  "Tests exercise a dozen fixed off-by-one kernels; containment and exactness depend on every offset/width/object-size combination and on allocation history.",
  ["src/core/Memory.cpp", "src/plugins/MemCheck.cpp", "src/core/WorkItemBuiltins.cpp", "src/core/WorkGroup.cpp"],
  [("buffer index/offset address split", "Memory::extractBuffer/isAddressValid"), ("access checks", "MemCheck::checkLoad/checkStore")],
  [("m_memory", "live buffers by index", "Memory.h")], ["invalid access diagnostics", "buffer contents"])

p("C07", "Accesses that violate declared permissions or mappings are reported exactly",
  "A kernel write to an object created read-only, a read from an object created write-only, an access to a region the host currently has mapped in a conflicting way, and an index outside the bounds of a fixed-size array are each reported; no access permitted by the object's flags, current mappings and array bounds is reported.",
  ["programs", "histories"], "all flag combinations x access kinds, all bounded histories of map/unmap/kernel commands over overlapping, adjacent and disjoint regions, all constant array shapes and indices in bounds",
  "Tests cover one mapping and one flag each; exactness depends on the relative position of access and region and on the map/unmap history.",
  ["src/plugins/MemCheck.cpp", "src/runtime/runtime.cpp", "src/core/Queue.cpp"],
  [("list of mapped regions", "MemCheck::memoryMap/memoryUnmap"), ("flag checks", "MemCheck::checkLoad/checkStore"), ("static array index check", "MemCheck::checkArrayAccess")],
  [("m_mapRegions", "regions currently mapped by the host", "MemCheck.h")], ["MemCheck diagnostics"])

p("C08", "Uses of uninitialized data are reported exactly when they matter",
  "With uninitialized-value detection on, a report is produced when data that was never written influences control flow, an address or index, or is written to global memory, and is tracked through arithmetic, vector, aggregate, memory, call and builtin operations. Kernels whose every such value derives from initialized data are never reported.",
  ["programs"], "all short pipelines source -> propagation step(s) -> sink over scalar, vector, struct and array values in private, local and global memory, initialised fully, partly or not at all",
  "Tests hold about thirty fixed kernels; propagation is a product of source, path and sink that enumeration covers and samples do not.",
  ["src/plugins/Uninitialized.cpp", "src/plugins/Uninitialized.h"],
  [("shadow values and shadow memory", "Uninitialized::instructionExecuted/handleBuiltinFunction")],
  [("shadow memory", "one poison byte per data byte", "Uninitialized.h")], ["uninitialized diagnostics"])

p("C09", "Kernel instructions are interpreted with LLVM IR semantics",
  "Every instruction and intrinsic a kernel may contain (integer, floating-point, comparison, conversion, vector, aggregate, memory, call and control flow) computes the value LLVM IR defines for it, for every operand value and vector width, at every optimisation level.",
  ["inputs", "programs"], "every opcode x type x vector width over exhaustive 8-bit operands and boundary lattices for wider types; all small control-flow graphs in bounds",
  "Tests touch single operand values; wrong results appear only at particular operands, widths or element positions.",
  ["src/core/WorkItem.cpp", "src/core/common.cpp", "src/core/Kernel.cpp"],
  [("one interpreter routine per opcode", "WorkItem::dispatch and instruction methods"), ("constant materialisation", "getConstantData, resolveConstant")],
  (), ["result buffers compared with native evaluation"])

p("C10", "Integer, relational, conversion and data-movement builtins match OpenCL C",
  "For every overload, vector width and operand value, the integer, relational, select, conversion (with saturation and rounding modes), reinterpretation, vector load/store (including half) and shuffle builtins return exactly the value OpenCL C specifies and touch exactly the memory it specifies.",
  ["inputs"], "all overloads x vector widths; exhaustive operand pairs for 8-bit types, boundary lattices for wider types and floats",
  "Tests call a few builtins with a few values; saturation, rotation, rounding and width-3 behaviour fail only at edges.",
  ["src/core/WorkItemBuiltins.cpp", "src/core/common.cpp"],
  [("builtin table and per-builtin routines", "WorkItemBuiltins.cpp"), ("half conversion", "cl_half.h / common.cpp")], (), ["result buffers compared with a reference"])

p("C11", "Floating-point builtins match their mathematical definition",
  "Math, common and geometric builtins return the correctly defined result (exact where OpenCL requires exactness, otherwise within the permitted error) for every float and double overload and vector width, including NaN, infinities, signed zeros, denormals and the edge cases OpenCL lists, and write every output pointer they are given.",
  ["inputs"], "all overloads x vector widths x boundary lattice of operands (all pairs / triples)",
  "Tests use a few ordinary values per function; edge operands and vector/scalar mixed overloads are not reached.",
  ["src/core/WorkItemBuiltins.cpp"], [("math builtin wrappers", "WorkItemBuiltins.cpp")], (), ["result buffers compared with a reference"])

p("C12", "Image reads, writes and queries address exactly the specified texel",
  "Reading, writing and querying an image of any supported type, channel order, data type and size through any sampler (normalised or not, every addressing mode, nearest or linear filtering) yields the colour or value OpenCL specifies, and a write changes exactly the addressed texel. Host commands on images see the same texels as kernels.",
  ["inputs", "configurations"], "all image types x formats x sampler states x coordinates around every border for small images",
  "Tests use two or three image kernels with one format and sampler.",
  ["src/core/WorkItemBuiltins.cpp", "src/runtime/runtime.cpp", "src/core/Queue.cpp"],
  [("coordinate and channel handling", "read_image*/write_image* builtins"), ("image commands", "clEnqueue*Image")], (), ["returned texels", "image contents"])

p("C13", "Commands run once, after everything they depend on, and failures propagate",
  "Every enqueued command executes exactly once, never before the commands and user events it waits for (its wait list, and earlier commands of an in-order queue) have completed, and is complete when a finish, blocking call or wait on its event returns. If an event a command waits for terminates with an error, directly or through a chain, the command does not execute and its event reports an error; event states, timestamps and callbacks are consistent with that order.",
  ["histories", "schedules"], "all dependency histories of up to 4 commands on 1-2 in-order/out-of-order queues with user events, failing dependencies and every observation call",
  "Tests have a few fixed wait lists; ordering and failure propagation depend on the whole dependency graph and on which call triggers execution.",
  ["src/core/Queue.cpp", "src/runtime/async_queue.cpp", "src/runtime/runtime.cpp"],
  [("lazy recursive execution of wait lists", "Queue::execute/finish"), ("event bookkeeping", "async_queue.cpp")],
  [("m_queue", "pending commands", "Queue.h"), ("Event::state", "execution status", "Queue.h")], ["event status, data effects, callbacks"])

p("C14", "API objects live exactly as long as something references them",
  "For every history of create, use, retain and release calls, an object stays usable while a reference or a dependent object, kernel argument in a pending command or event holds it, reference counts reported by the API match the history, and when the last reference goes its resources are freed and its destructor callbacks run exactly once, in reverse order of registration. No history that respects the API contract makes the simulator touch freed memory.",
  ["histories"], "all retain/release/use/drop orders up to a bounded length over contexts, queues, buffers, sub-buffers, images, samplers, programs, kernels and events",
  "Tests release everything once in one fixed order; use-after-free and leaks need particular orders.",
  ["src/runtime/runtime.cpp", "src/runtime/async_queue.cpp", "src/core/Program.cpp", "src/core/Context.cpp"],
  [("refCount fields and release functions", "clRetain*/clRelease*"), ("retained objects per pending command", "async_queue.cpp")],
  [("refCount", "references to an API object", "icd.h")], ["clGet*Info reference counts", "destructor callbacks", "AddressSanitizer"])

p("C15", "Host transfer commands move exactly the bytes they name",
  "Read, write, copy, fill, rectangular, image, map and unmap commands transfer exactly the bytes described by their offsets, regions, pitches and patterns between host memory, buffers, sub-buffers and images, and leave every other byte untouched.",
  ["inputs", "histories"], "all small region/origin/pitch combinations for each command, and all bounded sequences of transfer commands on aliasing buffers and sub-buffers, against a byte-array model",
  "Tests use one or two regions per command; pitch and origin arithmetic errors show only for particular combinations.",
  ["src/core/Queue.cpp", "src/runtime/runtime.cpp", "src/core/Memory.cpp"],
  [("offset and pitch arithmetic", "clEnqueue*Rect/*Image and Queue::execute*")], (), ["host and device bytes after the command"])

p("C16", "Invalid API calls are rejected with the right error and no effect",
  "A call whose arguments would make a command touch memory outside its objects, or that violates a documented precondition the runtime checks, returns the documented error, creates no object or command, and produces an API error report when API checking is on. A valid call is never rejected.",
  ["inputs"], "for each entry point, every combination of boundary arguments (0, in range, last valid, first invalid, arithmetic-overflowing) within bounds",
  "Tests check a few invalid calls; overflowing sums, zero sizes and missing early returns are not reached.",
  ["src/runtime/runtime.cpp"], [("argument checks", "each clEnqueue*/clCreate* function"), ("error reporting", "notifyAPIError")], (), ["error codes, reports, object contents"])

p("C17", "A kernel launch uses the arguments set when it was enqueued",
  "A kernel command runs with the argument values that were set on that kernel object at the time it was enqueued, whatever is set later, on other kernel objects, on clones or in other commands. Scalars, vectors, structures, buffers (including NULL), sub-buffers, images, samplers and local-memory sizes all reach the kernel unchanged and local memory is private to each work-group.",
  ["histories", "inputs"], "all interleavings up to a bounded length of set-argument, enqueue, clone, release and finish over several kernels, and every argument type and size in bounds",
  "Tests set arguments once and launch; aliasing between launches and clones needs a multi-step history.",
  ["src/core/Kernel.cpp", "src/runtime/runtime.cpp", "src/core/Queue.h"],
  [("argument value copies", "Kernel::setArgument, Kernel(const Kernel&)")], (), ["data written by each launch"])

p("C18", "Building, linking and reloading a program preserves its behaviour",
  "A program gives the same kernels and results whether it is built from source, compiled and linked from parts, or reloaded from its binary, and after any sequence of rebuilds each kernel behaves according to the program and options it was created from. Build options reach the compiler exactly as written (including quoted and escaped spaces), failures are reported with a build log, and program-scope variables have their initial values.",
  ["histories", "inputs"], "all bounded sequences of build/compile/link/binary/rebuild/create-kernel steps, all option strings over a small token alphabet, all initialiser shapes in bounds",
  "Tests build each program once with simple options.",
  ["src/core/Program.cpp", "src/runtime/runtime.cpp", "src/core/common.cpp"],
  [("option tokeniser", "Program::build"), ("module linking and serialisation", "Program::createFromPrograms/getBinary/createFromBitcode"), ("program-scope variables", "Program::allocateProgramScopeVars")], (), ["build status/log/info, kernel results"])

p("C19", "Every diagnostic is emitted once, attributed correctly, up to the limit",
  "Each detected problem is written to the configured log with the kernel, work-item or work-group and source location at which it happened, and reaches every plugin; at most the configured maximum of errors is printed, followed by a single suppression notice. Nothing is reported for a clean run, and detection never changes what the kernel computes.",
  ["configurations", "programs"], "all combinations of error positions (which work-items fail, in which dimension/offset shape), error limits around the number of errors and plugin configurations",
  "Tests compare one log per kernel with the default limit and 1-D shapes.",
  ["src/core/Context.cpp", "src/plugins/Logger.cpp", "src/core/common.cpp"],
  [("message attribution", "Context::Message"), ("error limit", "Logger::log")], [("m_numErrors", "errors printed so far", "Logger.cpp")], ["stderr / log file"])

p("C20", "Plugins observe a complete and well-nested record of the execution",
  "For every kernel execution a plugin is told about the kernel's begin and end, each work-group's and work-item's begin and completion, every barrier, executed instruction and memory allocation, access, map and release exactly once, in an order that respects program order and nesting, with the address, size and data the access really had. Host accesses are reported as host accesses.",
  ["programs", "histories"], "all small kernels and host command histories over memory operations of every kind (scalar, vector, atomic, async copy, memcpy/memset, vload/vstore, host transfer)",
  "Bundled tools each observe part of the stream on fixed kernels; a missing or doubled notification is visible only to a plugin that checks the whole stream.",
  ["src/core/Context.cpp", "src/core/Plugin.h", "src/core/Memory.cpp", "src/core/WorkItem.cpp", "src/core/WorkGroup.cpp"],
  [("notification fan-out", "Context::notify*")], (), ["callbacks of a recording plugin"])

p("C21", "Instruction counts equal the instructions actually executed",
  "The instruction-count report of a kernel lists every opcode, called function and memory operation with exactly the number of times it was executed over all work-items (and bytes moved), independently of how work-groups are distributed over threads and of which functions each work-group calls, and counts start afresh for each kernel.",
  ["programs", "configurations"], "all small kernels over loads, stores, arithmetic and calls to several functions in every per-group combination, work-group counts and thread counts in bounds",
  "No test checks counts under several work-groups calling different functions.",
  ["src/plugins/InstructionCounter.cpp"], [("per-group counters merged into totals", "InstructionCounter::workGroupComplete")],
  [("m_instructionCounts", "totals", "InstructionCounter.h")], ["instruction count report"])

p("C22", "The interactive debugger stops where asked and never changes results",
  "In interactive mode, stepping, continuing and breakpoints stop execution exactly at the source lines and work-items that the executed program reaches in that order, printed variables and memory show the current values, and switching work-items shows that work-item's state. Whatever commands are issued, the kernel finally computes the same result as without the debugger.",
  ["histories"], "all command sequences up to a bounded length over step/next/continue/break/delete/workitem/print on small kernels with calls, loops and barriers",
  "Tests replay a few fixed command scripts.",
  ["src/plugins/InteractiveDebugger.cpp", "src/core/KernelInvocation.cpp", "src/core/WorkItem.cpp"],
  [("prompt decision", "InteractiveDebugger::shouldShowPrompt/hasHitBreakpoint"), ("work-item switching", "KernelInvocation::switchWorkItem")],
  [("m_breakpoints", "breakpoints per program", "InteractiveDebugger.h")], ["debugger transcript", "kernel results"])

p("C23", "printf output is formatted as OpenCL C specifies",
  "Kernel printf prints each work-item's text completely and in program order, formatting every conversion, flag, width, precision, vector and length modifier as OpenCL C specifies for the value passed, and consumes exactly the arguments the format names.",
  ["inputs"], "all conversions x flag subsets x widths x precisions x vector/length modifiers over a value lattice",
  "Tests print a handful of formats.",
  ["src/core/WorkItemBuiltins.cpp", "src/core/common.cpp"], [("format parser", "printf builtin")], (), ["stdout"])

p("C24", "The kernel runner loads, runs and dumps exactly what the file describes",
  "The stand-alone kernel runner gives each kernel argument exactly the type, size and values (literal data, fill, range, uninitialised, null) that the simulation file describes, runs the named kernel over the given ranges, and dumps the final contents of exactly the arguments asked for; malformed files are rejected with a message instead of being run.",
  ["inputs"], "all argument headers over {type, size, fill, range, noinit, null, dump, hex} with small data, and all single-token corruptions of a valid file",
  "Tests use the runner as a vehicle with ordinary files only.",
  ["src/kernel/Simulation.cpp", "src/kernel/oclgrind-kernel.cpp"], [("argument parser", "Simulation::parseArgument*")], (), ["runner stdout/stderr and exit code"])

p("C25", "Vector and aggregate element stores change only the stored elements",
  "Storing components of a vector, structure or array through any pointer writes exactly those components with the values OpenCL C assigns, whatever other reads and writes surround it, and results are the same with optimisation enabled or disabled. The clean-up the simulator applies to compiled code never changes what a kernel computes.",
  ["programs"], "all short sequences of whole-vector and component loads, stores, swizzles and intervening aliasing writes over private, local and global vectors, at both optimisation settings",
  "Tests check a few component writes for spurious race reports, not the value semantics of every sequence.",
  ["src/core/Program.cpp", "src/core/WorkItem.cpp"], [("aggregate store scalarisation", "Program::removeLValueLoads/scalarizeAggregateStore")], (), ["buffer contents vs reference"])

p("C26", "Command-line options configure exactly the corresponding behaviour",
  "Each option of the launcher and of the kernel runner enables exactly the documented feature with the given value in the launched application, options combine independently, arguments of the application are passed through unchanged, its exit status is preserved, and invalid command lines are rejected with a message without starting anything.",
  ["inputs"], "all options singly and in pairs, with valid, missing and malformed values",
  "No test runs the launcher.",
  ["src/runtime/oclgrind.cpp", "src/kernel/oclgrind-kernel.cpp"], [("option parser setting environment variables", "parseArguments")], (), ["environment and arguments seen by the launched program"])

p("C27", "Information queries describe each object exactly as it was created",
  "Every information query about a platform, device, context, queue, buffer, sub-buffer, image, sampler, program, kernel, kernel argument or event returns the value that follows from how the object was created and from its history: flags, sizes, origins, image dimensions and pitches, formats, parents, host pointers, map and reference counts, properties, command types, execution status, profiling times (only where profiling was requested and the command is complete, and in order), sources, binaries, kernel names, attributes and argument descriptions, and device limits as configured and as enforced. The size form, the exact-size form and larger destinations agree, a destination that is too small is refused, and bytes beyond the value are never written. Every listed image format can be created.",
  ["objects", "inputs"], "every query on objects created with every combination of a lattice of creation parameters, at every point of the life of events, queues and mappings, in every calling form, for every combination of configured device limits",
  "Tests create one object of a kind and rarely query it; a wrong size, a stale pointer or an uninitialised byte needs a particular object, query and calling form.",
  ["src/runtime/runtime.cpp", "src/runtime/async_queue.cpp", "src/core/Program.cpp", "src/core/Kernel.cpp"],
  [("clGet*Info switches", "runtime.cpp"), ("argument metadata and attributes", "Kernel::getArgument*, Kernel::getAttributes"), ("binary and kernel names", "Program::getBinary, getKernelNames"), ("event type and profiling", "asyncEnqueue")], (), ["values returned by the clGet*Info functions and the bytes around the destination"])

p("C28", "Host threads using separate contexts do not affect each other",
  "When two host threads use the API at the same time, each with its own context, queue and objects (the first use of the platform included), every call of each thread returns, every command does and every report, count and printed line says exactly what it does when the thread runs alone, whatever the interleaving: kernels run every work-group exactly once with the right contents, callbacks, events, diagnostics, printf output and instruction counts of one context never appear mixed up with, suppressed by or attributed to the other, there is exactly one platform, and there is no data race, deadlock or crash.",
  ["schedules"], "every schedule (within a delay bound) of two host threads and their worker threads over every pair of a set of API scripts covering launches, errors, printf, asynchronous commands, transfers, events, objects, images, invalid arguments, queries and program building, with and without analysis plugins",
  "Tests use one host thread; state shared by accident between contexts (a static, a global map, a file-scope index) works until two threads interleave.",
  ["src/runtime/async_queue.cpp", "src/runtime/runtime.cpp", "src/core/Context.cpp", "src/core/KernelInvocation.cpp", "src/core/Queue.cpp", "src/plugins/InstructionCounter.cpp"],
  [("maps from commands to events, objects and kernels", "async_queue.cpp"), ("creation of the platform", "clIcdGetPlatformIDsKHR"), ("released queues", "clReleaseCommandQueue"), ("index of the next work-group", "KernelInvocation::runWorker"), ("report output", "InstructionCounter::kernelEnd, Logger")], (), ["results, memory contents, callbacks, printed output, accesses of memory by each thread"])

p("C29", "A program that reaches Oclgrind through an ICD loader behaves like one linked to it",
  "Every object Oclgrind hands out (platform, device, context, queue, buffer, sub-buffer, image, sampler, program, kernel and event, however it was made) begins with the ICD dispatch table; every entry of that table is Oclgrind's own function for that place in the order the ICD specification fixes, is missing only when Oclgrind does not provide the function, and never leads back into the loader; the vendor library answers clGetExtensionFunctionAddress for what a loader needs and NULL for unknown names. A program that makes its calls through an ICD loader therefore gets exactly the results, errors, contents, callbacks and queries that the same program gets when it is linked against Oclgrind directly, after any sequence of API operations.",
  ["histories", "configurations"], "every sequence up to a depth bound of operations which together make every API call Oclgrind provides, each executed through an ICD loader and directly, and the dispatch table of every kind of object made in every way, entry by entry",
  "The tests link directly against the library; a displaced or unrenamed entry of the table only matters to programs that come through a loader and use exactly that call.",
  ["src/runtime/runtime.cpp", "src/runtime/icd.h", "src/CL/cl_icd.h"],
  [("dispatch table", "m_dispatchTable"), ("dispatch pointer of new objects", "clCreate* in runtime.cpp"), ("renaming of the API functions in the ICD build", "icd.h"), ("vendor library entry points", "clGetExtensionFunctionAddress, clIcdGetPlatformIDsKHR")], (), ["return codes, query results, memory contents, callbacks"])

p("C30", "A host program can end at any point of its use of the API",
  "Whatever API calls a program has made, with objects released or not, commands pending, events unresolved and mappings outstanding, it can end by returning from main, by exit() from main, from another thread or from an event callback, and it may finish commands and release objects from atexit functions and from destructors of its static objects: it ends promptly with its own exit status, without a crash or use of freed memory, the commands it finished have had their effects, and everything that completed kernels printed and every report about them (errors, instruction counts) is complete on the output streams.",
  ["crash_points", "histories"], "every history up to a depth bound of API operations x every way of ending the process x configurations (no plugins, all plugins, several worker threads)",
  "Tests end in one way, after releasing everything; order of destruction of thread-local, static and library objects only matters when a program ends in the middle or cleans up late.",
  ["src/runtime/runtime.cpp", "src/runtime/async_queue.cpp", "src/core/Context.cpp", "src/core/KernelInvocation.cpp", "src/plugins/InstructionCounter.cpp"],
  [("name of the API call in progress", "REGISTER_API"), ("maps from commands to events and objects", "async_queue.cpp"), ("worker thread state", "KernelInvocation.cpp"), ("plugin shutdown", "Context::unloadPlugins")], (), ["exit status, signals, stdout, stderr, buffer contents"])

p("C31", "The host's floating-point environment and the simulation do not affect each other",
  "What kernels and commands compute (float, double, half and integer conversions, math builtins, image reads, writes and fills, printf output) is bit for bit the same whatever rounding mode, flush-to-zero or denormals-are-zero setting and enabled floating-point exceptions the host program has chosen, a kernel never ends the program because the host enabled floating-point traps, and every API call leaves the environment of the calling thread as it found it.",
  ["configurations"], "every combination of rounding mode, flush-to-zero, denormals-are-zero and enabled traps x number of workers x plugins, over kernels that apply each class of operation to a lattice of values",
  "Tests run in the default environment; worker threads inherit the environment of the thread that finishes a command (for instance of a program built with -ffast-math).",
  ["src/core/KernelInvocation.cpp", "src/core/WorkItemBuiltins.cpp", "src/core/WorkItem.cpp", "src/core/half.cpp", "src/runtime/runtime.cpp"],
  [("environment of worker threads", "KernelInvocation::runWorker"), ("rounding of conversions", "convert_* builtins (fesetround)"), ("conversion of fill colours", "clEnqueueFillImage")], (), ["buffers, images, printf output, MXCSR and x87 control word"])

p("C32", "Output does not depend on the host's streams and locale",
  "However the host program has set up its C and C++ streams (unsynchronised, buffered in any way, cout redirected, formatted, or in a failed state; cerr formatted) and whatever locale the environment names, available on the system or not, everything a kernel prints reaches the process's standard output completely, in order and unaltered, error and API reports and instruction count reports read exactly as in the default set-up, and the program is not ended.",
  ["configurations"], "every combination of stream synchronisation, stdout buffering, cout state, cerr state, locale environment and instruction counting, over launches that print, fail and misuse the API",
  "Tests run with untouched streams in the C locale; sharing the process's streams with the host only goes wrong when the host configures them.",
  ["src/core/WorkItemBuiltins.cpp", "src/plugins/Logger.cpp", "src/plugins/InstructionCounter.cpp", "src/runtime/runtime.cpp"],
  [("kernel output", "printf_builtin"), ("report output", "Logger::log, notifyAPIError"), ("instruction count report", "InstructionCounter::kernelEnd")], (), ["stdout, stderr, exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
