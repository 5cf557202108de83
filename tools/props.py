"""Table of the properties: source of properties.jsonl and MANIFEST.json (see mkmeta.py)."""
NOTES = ('All checks share one engine (lsa/): the library is compiled by clang to IR together with drivers that instantiate its '
         'templates (drivers/), the IR is turned into facts and each property is decided on these facts by dataflow / typestate / '
         'effect analysis. Nothing of the library is executed. A vanished anchor or an instance count under its floor exits 2.')
SRC = 'src/lightspeed/'
PROPS = []


def P(**k):
    PROPS.append(k)


P(id='L01', title='Locks are released on every path, including exceptions',
  statement='Every lock an operation of the library acquires is released exactly once before the operation returns, whether it '
            'returns normally or by an exception, and no operation releases a lock it does not hold. Guard objects and explicit '
            'lock or unlock operations are the only ones that end with a different set of held locks.',
  over=['schedules', 'fault_sequences', 'inputs'],
  q='for every function of the library, every control-flow path through it and every call that may throw',
  why='a leaked lock needs an exception at one particular call between lock and unlock; the tests exercise only successful paths',
  files=[SRC + 'mt/fastlock.h', SRC + 'base/sync/synchronize.h', SRC + 'mt/linux/llmutex.h', SRC + 'base/actions/promise.tcc',
         SRC + 'mt/dispatcher.cpp', SRC + 'base/actions/parallelExecutor.cpp', SRC + 'base/memory/refCntPtr.h',
         SRC + 'base/debug/stdlogoutput.cpp'],
  mech=[('guard classes (Synchronized, TrySynchronized, ...)', SRC + 'base/sync/synchronize.h'),
        ('explicit lock/unlock pairs', SRC + 'base/actions/parallelExecutor.cpp')],
  tech='lock-balance typestate over all paths and exception edges (abstract interpretation of clang IR)',
  note='every function that can reach a lock primitive; lock identity by access path; calls of unknown targets are assumed balanced')

P(id='F02', title='Descriptors opened by the library do not leak into child programs',
  statement='Every file, socket, pipe or event descriptor the library creates is marked close-on-exec by the very call that creates '
            'it, so that a program started at any moment by any thread never inherits it. Only the code which runs in an already '
            'forked child, right before the new program replaces it, may make descriptors inheritable.',
  over=['schedules', 'configurations'],
  q='every descriptor-creating call of the library, on every path and for every combination of opening flags, at every moment another thread may fork',
  why='the leak shows only when another thread starts a process in the window, or when the child is inspected; tests start no processes concurrently',
  files=[SRC + 'base/linux/fileio.cpp', SRC + 'base/linux/netStreamSource.cpp', SRC + 'base/linux/netDgramSource.cpp',
         SRC + 'base/linux/epollSelect.cpp', SRC + 'base/linux/linuxFdSelect.cpp', SRC + 'base/linux/proginstance.cpp', SRC + 'mt/linux/process.cpp'],
  mech=[('creation flags', SRC + 'base/linux/'), ('inheritance in the child', SRC + 'mt/linux/process.cpp')],
  tech='enumeration of creating calls + interprocedural must-set-bits value analysis of their flags',
  note='all descriptor-creating system calls in the compiled program; flags are followed through variables, branches and callers')

P(id='F03', title='A failed operating-system call is never silently ignored',
  statement='When a system call made by the library fails, the failure is noticed before the operation ends: the operation throws, '
            'reports the failure by its result, retries, or takes an explicit fallback. A failure result is never used as if it were a valid byte count, '
            'descriptor or pointer. Calls whose failure carries no information (closing, advisory and probing calls) and one-byte wake-up writes are exempt, as is code '
            'that runs only while an object is being destroyed.',
  over=['fault_sequences'],
  q='every system call site of the library, with every possible failure of that call, on every path',
  why='the kernel practically never fails these calls in a test environment',
  files=[SRC + 'base/linux/fileio.cpp', SRC + 'base/linux/netStream.cpp', SRC + 'base/linux/netStreamSource.cpp', SRC + 'base/linux/proginstance.cpp',
         SRC + 'base/linux/linuxhttp.cpp', SRC + 'mt/linux/process.cpp', SRC + 'base/linux/pollSelect.cpp'],
  mech=[('checks of results', SRC + 'base/linux/fileio.cpp'), ('error conversion', SRC + 'base/exceptions/errorMessageException.h')],
  tech='fault-outcome typestate: each call site is split into success/failed/interrupted and the failed outcome is tracked on all paths',
  note='a comparison that separates the failure from every success value counts as noticing it')

P(id='F04', title='The reported error code belongs to the call that failed',
  statement='Whenever the library reports a system error code (inside an exception or otherwise), the code was set by a system call '
            'that has failed on that very path, and no other call that may change the error code happened in between.',
  over=['fault_sequences', 'inputs'],
  q='every place where the thread error code is consumed, on every path leading there',
  why='a clobbered code still yields an exception of the right type; tests never compare the code after cleanup calls',
  files=[SRC + 'base/linux/fileio.cpp', SRC + 'base/linux/netStreamSource.cpp', SRC + 'base/linux/netAddress.cpp', SRC + 'base/linux/proginstance.cpp'],
  mech=[('reading of errno', SRC + 'base/linux/')],
  tech='value provenance of errno: forward dataflow with the defining system call as abstract value',
  note='allocation and deallocation are assumed to preserve errno; calls inside the library are classified by what they can reach')

P(id='F05', title='A signal never makes an operation fail',
  statement='When a signal interrupts a system call of the library, the operation does not fail because of it: transfers of data, accepting of '
            'connections and waiting for a process are restarted, waits for readiness continue or end as if they timed out. The only exception are '
            'the waits documented to throw the dedicated interruption exception.',
  over=['schedules', 'fault_sequences'],
  q='every interruptible system call site, interrupted at any moment, any number of times',
  why='needs a signal in the window of a blocking call; the tests send no signals',
  files=[SRC + 'base/linux/fileio.cpp', SRC + 'base/linux/netStream.cpp', SRC + 'base/linux/netStreamSource.cpp', SRC + 'base/linux/netDgramSource.cpp',
         SRC + 'base/linux/pollSelect.cpp', SRC + 'base/linux/epollSelect.cpp', SRC + 'base/linux/proginstance.cpp'],
  mech=[('restart loops', SRC + 'base/linux/')],
  tech='fault-outcome typestate with the outcome EINTR tracked on all paths',
  note='one-byte wake-up writes and code running only inside destructors are exempt')

P(id='F01', title='Operating-system resources are never lost nor released twice',
  statement='Every file descriptor, directory stream, address list, memory mapping or similar system resource the library obtains is released '
            'exactly once: it is closed, or stored in an object which closes it, also when a later system call fails or an exception passes through. '
            'Nothing closes a descriptor which a living object still holds.',
  over=['fault_sequences', 'inputs'],
  q='every resource-creating call, every failure of the calls which follow it, every exception, on every path',
  why='the leak shows only if a later call fails, and even then no single operation misbehaves',
  files=[SRC + 'base/linux/fileio.cpp', SRC + 'base/linux/netStreamSource.cpp', SRC + 'base/linux/netDgramSource.cpp', SRC + 'base/linux/netAddress.cpp',
         SRC + 'base/linux/proginstance.cpp', SRC + 'base/linux/epollSelect.cpp', SRC + 'base/linux/linuxhttp.cpp', SRC + 'mt/linux/process.cpp'],
  mech=[('descriptor owners', SRC + 'base/linux/fileio.cpp'), ('sockets', SRC + 'base/linux/netStreamSource.cpp')],
  tech='ownership typestate of each created resource over all paths, failed outcomes and exception edges',
  note='resources kept in containers (a socket taken out of a list and lost) are not tracked; memory is not a resource here')

P(id='P01', title='The child process does nothing dangerous before exec',
  statement='Between fork and the start of the new program, the child process calls only async-signal-safe functions: it does not allocate memory, take locks, '
            'use buffered output or throw. When the program cannot be started, the child ends immediately by _exit and control never returns '
            'into the code of the parent.',
  over=['schedules', 'fault_sequences'],
  q='every path in the child from the fork to exec or _exit, with every failure of the calls made there',
  why='a deadlock needs another thread to hold the allocator lock at the moment of the fork; the failure path of exec is not exercised',
  files=[SRC + 'mt/linux/process.cpp', SRC + 'base/linux/fileio.cpp'],
  mech=[('child branch of fork', SRC + 'mt/linux/process.cpp')],
  tech='effect analysis of the child branch against a whitelist of functions, over all paths',
  note='forks whose child does not exec (daemon) are outside; writes to memory after vfork other than local variables are reported')

P(id='E01', title='Exceptions keep their identity when stored and thrown again',
  statement='Every exception class of the library re-throws itself (throwAgain) as exactly its own class and clones itself as exactly its own class, '
            'so an exception that travels through a promise, a thread or a stored pointer can be caught by the same handler as the original. '
            'No operation throws a sliced copy of a caught exception.',
  over=['inputs'],
  q='every concrete exception class in the program',
  why='tests throw a few classes directly and never transport them; a class which inherits the operation of its base compiles silently',
  files=[SRC + 'base/exceptions/exception.h', SRC + 'base/exceptions/', SRC + 'base/exceptions/fileExceptions.h', SRC + 'base/containers/', SRC + 'base/text/'],
  mech=[('LIGHTSPEED_EXCEPTIONFINAL', SRC + 'base/exceptions/exception.h'), ('cloning', SRC + 'base/memory/cloneable.h')],
  tech='vtable enumeration + effect analysis of the dispatched operations (which type is thrown / created)',
  note='abstract and never instantiated classes have no vtable and are outside')

P(id='N01', title='Failures of the environment never terminate the program',
  statement='An exception reporting a system error, an I/O, network or timeout failure never escapes from a destructor, from an operation declared as '
            'not throwing, or from the start function of a thread, and is never thrown by a destructor while another exception is propagating: it never '
            'ends in program termination. The bare re-throw statement is executed only while an exception is being handled.',
  over=['fault_sequences', 'inputs'],
  q='every throw of such an exception, through every chain of callers up to a handler or a boundary',
  why='needs a failure at the moment of destruction or unwinding, which tests do not produce',
  files=[SRC + 'base/streams/', SRC + 'base/linux/', SRC + 'base/actions/', SRC + 'mt/linux/', SRC + 'utils/', SRC + 'base/exceptions/'],
  mech=[('destructors of streams', SRC + 'base/linux/fileio.cpp'), ('executor threads', SRC + 'base/actions/parallelExecutor.cpp')],
  tech='typed exception propagation over the call graph with handler matching and unwinding contexts',
  note='callables supplied by the user and the thread scheduler primitives are assumed not to throw these')

P(id='W01', title='No wake-up is lost',
  statement='Every operation that changes what other threads may be waiting for (an action or message added, a stop or finish request, an opened gate, a released '
            'lock, semaphore or pooled resource, an action taken over, a thread started or finished, a child process event, a reply placed) wakes the threads '
            'waiting for it afterwards, on every path, also when an exception is on its way. A waiting thread registers itself first, with everything the waking '
            'thread takes from the registration, tests the condition last, and after it was woken tests it again before it reports success.',
  over=['schedules', 'fault_sequences'],
  q='every path of every function that makes such a change, and of every waiting function',
  why='a lost wake-up shows only when the other thread is at one particular point, and then as a test that hangs',
  files=[SRC + 'mt/', SRC + 'base/actions/', SRC + 'base/linux/proginstance.cpp', SRC + 'base/linux/networkEventListener.cpp', SRC + 'base/containers/resourcePool.cpp'],
  mech=[('waiting queue', SRC + 'mt/syncPt.cpp'), ('executors', SRC + 'base/actions/parallelExecutor.cpp'), ('thread start', SRC + 'mt/linux/thread.cpp')],
  tech='pending-obligation (typestate) analysis over all paths of the IR, driven by a table of changes and their wake-ups',
  note='changes not in the table, fairness and time-outs are outside; operations of the internal locks are assumed not to throw')

P(id='U01', title='Nothing is used before it has been given a value',
  statement='Every scalar member of an object which an operation of its class reads is given a value by every constructor of the class on every path '
            '(members documented as valid only while another member says so are exempt). No local variable decides a branch, is dereferenced or '
            'returned on a path on which nothing has been assigned to it.',
  over=['inputs', 'histories'],
  q='every constructor and every member that is read; every path of every function to the use of a local variable',
  why='an unassigned member usually contains a harmless zero in a test process; whether it does depends on what the memory held before',
  files=[SRC + 'base/actions/', SRC + 'base/streams/', SRC + 'base/debug/', SRC + 'mt/', SRC + 'utils/', SRC + 'base/text/', SRC + 'base/linux/'],
  mech=[('constructors', SRC + 'base/actions/parallelExecutor.cpp'), ('converters', SRC + 'base/streams/utf.cpp')],
  tech='definite-assignment dataflow over constructors with callee summaries + undefined-value propagation over all paths',
  note='members of class type are covered by their own class; arrays and memory obtained from an allocator are outside')

P(id='L02', title='Shared state is touched only under the lock that guards it',
  statement='The queue, counters and finish flag of the queue executor, the worker list of the parallel executor, the queue of the dispatcher, the observers and '
            'the result of a promise, the waiting queues of sync points and level locks, the listeners and write position of the event log, the connections and '
            'ports of the TCP server and the index allocator of thread local storage are read and modified only while the lock of the same object is held. '
            'Constructors, destructors and queries that return a snapshot of one word are exempt; the result of a promise may be read without the lock once it has been published.',
  over=['schedules', 'histories'],
  q='every access to these members from every public operation, on all paths including exception edges and temporary release of the lock',
  why='a missing lock shows only when two threads hit the same few instructions; the tests run almost everything from one thread',
  files=[SRC + 'base/actions/queueExecutor.cpp', SRC + 'base/actions/parallelExecutor.cpp', SRC + 'base/actions/promise.tcc', SRC + 'mt/dispatcher.cpp', SRC + 'mt/syncPt.cpp',
         SRC + 'mt/rwlock.h', SRC + 'utils/eventdb.cpp', SRC + 'base/framework/TCPServer.cpp', SRC + 'mt/linux/thread.cpp'],
  mech=[('temporary release of the lock', SRC + 'base/actions/queueExecutor.cpp'), ('resolution of a promise', SRC + 'base/actions/promise.tcc')],
  tech='lockset analysis: guarded-by table, typestate of held locks at every access, over all paths with helpers inlined',
  note='locks are matched by the object they belong to; data reachable only through pointers stored in the members is not followed')

P(id='L03', title='Internal locks never deadlock and user code never runs under one',
  statement='The internal locks are always acquired in one global order, and no thread acquires a non-recursive internal lock which it already holds. '
            'User code (actions, messages, observers of a promise) is never executed or rejected while a non-recursive internal lock is held.',
  over=['schedules', 'histories'],
  q='every pair of nested acquisitions on every path, every call of user code from every path of the library',
  why='a deadlock needs two threads in the middle of two operations, or a user action which calls back into the object; tests use actions that do not',
  files=[SRC + 'base/actions/queueExecutor.cpp', SRC + 'base/actions/parallelExecutor.cpp', SRC + 'base/actions/promise.tcc', SRC + 'mt/dispatcher.cpp', SRC + 'mt/syncPt.cpp',
         SRC + 'base/linux/networkEventListener.cpp', SRC + 'base/framework/TCPServer.cpp'],
  mech=[('execution outside of the lock', SRC + 'base/actions/queueExecutor.cpp'), ('dispatching', SRC + 'mt/dispatcher.cpp')],
  tech='lock-order graph over held-lock typestate with call-graph closure; self-deadlock by same-object summaries; callback-under-lock rule',
  note='notifications that an action was queued, and copying or destroying objects of the user, are not restricted; virtual calls are not followed for the order')

P(id='C01', title='Reading a value never modifies it',
  statement='Operations declared constant on strings, arrays, lists, trees, maps, JSON values, file paths, dates and exceptions, and operations that receive such a value '
            'as a constant source (copying, comparing, searching, serializing), leave the object itself unchanged, so any number of threads may read one value at once. '
            'Reference counts, links of shared resources, atomically published cached texts and positions of iterators, streams and converters are not part of the value.',
  over=['schedules', 'inputs'],
  q='every constant operation and every constant parameter of the value classes, with everything they call',
  why='a hidden cache or a source changed by a copy shows only when two threads read the same value at the same moment',
  files=[SRC + 'base/containers/', SRC + 'base/exceptions/', SRC + 'utils/json/', SRC + 'utils/FilePath.h', SRC + 'base/memory/'],
  mech=[('lazily created text', SRC + 'utils/json/json.cpp'), ('cached message', SRC + 'base/exceptions/exception.cpp')],
  tech='interprocedural modification-effect analysis (bottom-up summaries over the whole call graph, field-sensitive origins)',
  note='nodes and buffers reached through pointers are covered by the classes which own their fields; custom comparators are assumed not to modify their arguments')

P(id='H01', title='A waiter is not touched after it was released',
  statement='The record of a waiting thread (slot, notifier, notification message, observer, start-up record), which usually lives on its stack, is not read, written or passed '
            'on by the waking thread after it was signaled. A waiting operation does not return while its record is still registered, '
            'and no function leaves the address of a local variable behind in an object that outlives it.',
  over=['schedules', 'histories'],
  q='every path of every function that signals, registers or stores such a record',
  why='the waiter must return between two instructions of the waking thread; a slot left behind is harmless until its stack frame is reused',
  files=[SRC + 'mt/syncPt.cpp', SRC + 'mt/fastlock.h', SRC + 'mt/notifier.h', SRC + 'mt/gate.h', SRC + 'mt/rwlock.h', SRC + 'mt/semaphore.h', SRC + 'mt/mutex.cpp',
         SRC + 'base/actions/promise.tcc', SRC + 'base/actions/parallelExecutor.cpp', SRC + 'mt/linux/thread.cpp'],
  mech=[('released slots', SRC + 'mt/syncPt.cpp'), ('hand-over of the lock', SRC + 'mt/fastlock.h'), ('publication of an action', SRC + 'base/actions/parallelExecutor.cpp')],
  tech='typestate over all paths: records released, registered or published; uses after release, registrations and stack addresses alive at an exit',
  note='the object that signals (gate, executor) may itself be destroyed by the released thread: not covered; sleeping objects of threads are assumed to outlive a wake-up')

P(id='T01', title='Every accepted task is executed or rejected exactly once',
  statement='An action, message or observer taken out of a queue is executed or rejected exactly once and then released, and one handed over is stored, executed, or released '
            'before an exception leaves, on every path. An observer or dispatched action which settles a promise does so exactly once, whether it is resolved, rejected or fails. '
            'Queues are drained by rejecting what is left before they are flushed, finished or destroyed.',
  over=['schedules', 'histories', 'inputs'],
  q='every path of every function which takes, receives or completes a task',
  why='a task lost or completed twice needs a stop, a cancel, an exception or another thread at one moment between taking it and executing it',
  files=[SRC + 'mt/dispatcher.cpp', SRC + 'base/actions/queueExecutor.cpp', SRC + 'base/actions/parallelExecutor.cpp', SRC + 'base/actions/msgQueue.cpp',
         SRC + 'base/actions/promise.tcc', SRC + 'base/actions/idispatcher.tcc', SRC + 'mt/linux/thread.cpp'],
  mech=[('dispatching', SRC + 'mt/dispatcher.cpp'), ('message pump', SRC + 'base/actions/msgQueue.cpp'), ('workers', SRC + 'base/actions/parallelExecutor.cpp'),
        ('observers', SRC + 'base/actions/promise.tcc')],
  tech='typestate of the task in hand over all paths, exceptional ones included; sibling rule for the methods which complete a promise',
  note='order of the tasks and the links inside the queues are not decided; an executor stopped by finish() may discard what is queued; fairness is not covered')

P(id='A01', title='Concurrent updates of shared words are not lost',
  statement='A word shared between threads (reference counter, limit, state, head of a lock-free queue, pointer set up on demand) is changed by one indivisible operation, never by reading it and '
            'writing it back separately. A compare-and-swap installs a value derived from (or linked to) the one it replaces, its success is judged by the expected value only, and a retry '
            'uses a fresh one. Decisions and results use the value which the atomic operation returned, not another read of the word.',
  over=['schedules', 'inputs'],
  q='every path of every function which performs an atomic operation or writes a word that is changed atomically elsewhere',
  why='a lost update needs another thread between two adjacent instructions; single-threaded tests never see it',
  files=[SRC + 'mt/linux/atomic.h', SRC + 'mt/slist.h', SRC + 'mt/fastlock.h', SRC + 'mt/microlock.h', SRC + 'base/memory/refCntPtr.h', SRC + 'base/memory/weakref.h', SRC + 'base/memory/poolalloc.h',
         SRC + 'base/actions/msgQueue.cpp', SRC + 'base/actions/parallelExecutor.cpp', SRC + 'base/actions/promise.tcc', SRC + 'base/containers/resourcePool.cpp', SRC + 'base/framework/TCPServer.cpp',
         SRC + 'utils/json/json.cpp', SRC + 'utils/eventdb.cpp', SRC + 'mt/linux/thread.cpp'],
  mech=[('atomic primitives', SRC + 'mt/linux/atomic.h'), ('lock-free stacks', SRC + 'mt/slist.h'), ('reference counts', SRC + 'base/memory/refCntPtr.h'), ('message queue', SRC + 'base/actions/msgQueue.cpp')],
  tech='abstract interpretation of all paths with unstable shared words (every read yields a new value); outcome, derivation and freshness of each compare-and-swap',
  note='which words are shared comes from their volatile declarations and from the atomic operations on them; recursion counters and owners of locks belong to the holder of the lock; ABA and progress are not decided')

P(id='R01', title='Reference counts match the references that exist',
  statement='Every operation of a counting handle (RefCntPtr, Promise, WeakRefPtr: construction, copy, move, assignment, conversion, attach, detach, destruction) changes the count of each object by exactly '
            'the number of references the handle gains or gives up, also when a handle is assigned to itself or is a part of the object it releases. The object is destroyed when, and only when, its last '
            'reference is released; a shared object (SharedPtr, SharedResource) only by the last member of its ring, whose links stay consistent. Objects which are not on the heap are pinned '
            '(setStaticObj) before a counted reference to them is made.',
  over=['inputs', 'histories'],
  q='every path of every function of every instantiated handle class, the same handle on both sides included; the counters; rings of up to three members in every arrangement; every counted reference made to a member, local or global object',
  why='a miscount shows only later, as a leak or a destroyed object in use, after a particular sequence of copies and releases which tests do not go through',
  files=[SRC + 'base/memory/refCntPtr.h', SRC + 'base/memory/allocPointer.h', SRC + 'base/memory/weakref.h', SRC + 'base/memory/sharedPtr.h', SRC + 'base/memory/sharedResource.h', SRC + 'base/memory/poolalloc.h',
         SRC + 'base/actions/promise.h', SRC + 'base/actions/promise.tcc', SRC + 'utils/json/json.cpp', SRC + 'base/streams/netio.h', SRC + 'base/streams/standardIO.h', SRC + 'utils/sendmail.cpp'],
  mech=[('reference counted pointer', SRC + 'base/memory/refCntPtr.h'), ('promises', SRC + 'base/actions/promise.tcc'), ('weak references', SRC + 'base/memory/weakref.h'), ('sharing rings', SRC + 'base/memory/sharedResource.h')],
  tech='path-sensitive abstract interpretation of each handle function: change of each count against the change of the pointer cells of the handles; typestate of the released object',
  note='functions which work with the count by contract (manualAddRef, manualRelease) are judged by the change they promise; cycles of references and misuse of raw pointers by callers are not decided')

P(id='K01', title='Copies, swaps and assignments carry the whole value; self-assignment is safe',
  statement='Each user-written copy or move constructor, assignment operator and swap of a value class (containers, strings, paths, optional values, handles, records) takes every data member from the same member of '
            'the other object, on every path; swap does so in both directions and a move leaves no owned pointer behind in its source. An assignment does not destroy its own content before its last use of the other '
            'object unless it has found that the two are different objects, so an object assigned to itself keeps its value. Locks, queues, executors and allocators start anew when copied, caches are not copied.',
  over=['inputs', 'histories'],
  q='every path of every emitted copy and move constructor, assignment operator and swap, every data member of the class and of its bases',
  why='a member which is not carried over shows only when the copy is used in a particular way later, a destroyed source only when both operands happen to be one object',
  files=[SRC + 'base/containers/avltree.h', SRC + 'base/containers/btree.h', SRC + 'base/containers/linkedList.h', SRC + 'base/containers/deque.tcc', SRC + 'base/containers/map.h', SRC + 'base/containers/optional.h',
         SRC + 'base/containers/autoArray.tcc', SRC + 'base/memory/stdAlloc.h', SRC + 'utils/configParser.cpp', SRC + 'utils/FilePath.h', SRC + 'base/actions/job.cpp', SRC + 'base/streams/netio.h', SRC + 'base/exceptions/exception.cpp'],
  mech=[('containers', SRC + 'base/containers/avltree.h'), ('optional values', SRC + 'base/containers/optional.h'), ('configuration sections', SRC + 'utils/configParser.cpp')],
  tech='path-sensitive abstract interpretation of each copying function: which members of both objects are read, written, exchanged; order of destruction and use',
  note='what is inside of a member object is judged by the copying function of its own class; order of items in copied containers is not decided')

P(id='D01', title='Operations with a time limit end in time',
  statement='An operation given a time limit measures it once, from its start: every wait it performs, however often it is repeated (after a signal, a spurious wake-up, for another thread or after partial '
            'progress), is limited by what remains of that limit and is never restarted in full nor unlimited. Once the limit has passed with nothing happened, the operation returns instead of waiting again.',
  over=['schedules', 'histories'],
  q='every path of every function of the library which takes a time limit and waits, through the helpers it calls; signals, wake-ups and partial progress at every wait',
  why='a limit which is exceeded shows only after a signal, a lost race or with several participants, and only as a delay; tests neither produce these nor measure it',
  files=[SRC + 'mt/syncPt.cpp', SRC + 'mt/notifier.cpp', SRC + 'mt/mutex.cpp', SRC + 'mt/semaphore.h', SRC + 'mt/linux/process.cpp', SRC + 'mt/linux/thread.cpp', SRC + 'mt/linux/threadSleeper.cpp', SRC + 'mt/linux/IOSleep.cpp',
         SRC + 'base/linux/linuxFdSelect.cpp', SRC + 'base/linux/epollSelect.cpp', SRC + 'base/linux/pollSelect.cpp', SRC + 'base/linux/proginstance.cpp', SRC + 'base/linux/fileio.cpp',
         SRC + 'base/actions/promise.tcc', SRC + 'base/actions/parallelExecutor.cpp', SRC + 'base/actions/InfParallelExecutor.cpp', SRC + 'base/containers/resourcePool.cpp'],
  mech=[('waiting points', SRC + 'mt/syncPt.cpp'), ('descriptor waits', SRC + 'base/linux/linuxFdSelect.cpp'), ('stopping executors', SRC + 'base/actions/parallelExecutor.cpp'), ('resource pool', SRC + 'base/containers/resourcePool.cpp')],
  tech='path-sensitive abstract interpretation: origin of the limit of every wait (argument, point in time, remaining time) and typestate of the limit (not asked, passed, not passed)',
  note='the conversion of times and the accuracy of clocks are not decided, neither is the time spent in locks held briefly; MsgQueue::stopAll (documented as waiting for the messages), waiting for a promise whose '
       'result is just being delivered, and the executor once it has taken over its action are exempt')

# ---- properties which static analysis does not decide here ----

P(id='X01', title='Encoding followed by decoding gives the original data',
  statement='For every sequence of bytes or characters, decoding what the matching encoder produced (base16, base32, base64, base85, URL encoding, UTF-8, compact numbers, LZW) gives the original sequence, and the encoded form follows '
            'the published format.',
  over=['inputs'], q='every input sequence of every length, in every split between calls',
  why='the tests encode a handful of short texts; alignment, dictionary overflow and rare characters are not among them',
  files=[SRC + 'utils/base64.tcc', SRC + 'utils/base32.cpp', SRC + 'utils/base85.cpp', SRC + 'utils/base16.cpp', SRC + 'utils/urlencode.cpp', SRC + 'utils/lzw.tcc', SRC + 'base/streams/utf.tcc', SRC + 'base/streams/compressNumb.h'],
  mech=[('codecs', SRC + 'utils/'), ('UTF-8', SRC + 'base/streams/utf.tcc')],
  na='equality of a composed encoder and decoder over all sequences is an arithmetic fact about accumulated bits and, for LZW, about a growing dictionary; abstract domains in reach lose it. The safety half (ill-formed UTF-8 is refused, '
     'nothing is read or consumed twice) is decided by U01.')

P(id='X02', title='Documents survive writing and parsing',
  statement='Parsing the text written from any JSON value, configuration or XML document gives an equal value, and parsing a text accepted by the published grammar gives the value the grammar assigns to it.',
  over=['inputs'], q='every document, every nesting, every string and number',
  why='tests parse one or two documents',
  files=[SRC + 'utils/json/jsonparser.tcc', SRC + 'utils/json/jsonserializer.tcc', SRC + 'utils/configParser.tcc', SRC + 'utils/xmlparser.cpp'],
  mech=[('JSON', SRC + 'utils/json/'), ('configuration', SRC + 'utils/configParser.tcc')],
  na='value equality over unbounded recursive documents is a functional fact; the source would have to be compared with a grammar semantically. What is decidable statically, escaping and refusal of text that cannot be carried, is C01; '
     'bounded recursion and error handling are E01 and P01.')

P(id='X03', title='Containers behave as the collections they stand for',
  statement='After any history of operations, a map finds exactly the keys inserted and not erased, iterates them in order and stays balanced; queues, heaps, lists and arrays give out the items in the order they promise.',
  over=['histories'], q='every sequence of insertions, removals and lookups, for every comparison function',
  why='tests insert a fixed sequence and compare the result',
  files=[SRC + 'base/containers/avltree.tcc', SRC + 'base/containers/btree.h', SRC + 'base/containers/map.tcc', SRC + 'base/containers/priorityQueue.tcc', SRC + 'base/containers/deque.tcc', SRC + 'base/containers/linkedList.h', SRC + 'base/containers/autoArray.tcc'],
  mech=[('trees', SRC + 'base/containers/avltree.tcc'), ('heap', SRC + 'base/containers/priorityQueue.h')],
  na='sortedness and balance are inductive invariants over heap shapes and an arbitrary comparison; a shape domain able to carry them through AVL rotations and B-tree splits is out of reach here. Ownership of the items '
     '(constructed once, destroyed once, copied completely) is decided by A-, K- and R-checks.')

P(id='X04', title='Checksums and digests agree with their definitions',
  statement='MD5, CRC-32 and the other checksums give the published value for every input, independently of how the input is cut into parts.',
  over=['inputs'], q='every input and every division of it',
  why='tests check a few published vectors',
  files=[SRC + 'utils/crc32.cpp', SRC + 'utils/md5iter.h'], mech=[('checksums', SRC + 'utils/')],
  na='the definition is an arithmetic function of all input bits; agreement is a question of functional equivalence (a solver or a proof), not of dataflow.')

P(id='X05', title='Waiting threads are served eventually and in order',
  statement='Every thread waiting for a lock, a semaphore, a gate or a resource which is given back again and again gets it after finitely many rounds; waiters of a first-come object are served in the order they came.',
  over=['schedules'], q='every schedule, every number of threads',
  why='starvation needs a persistent adverse schedule, which a test run does not produce',
  files=[SRC + 'mt/fastlock.h', SRC + 'mt/syncPt.cpp', SRC + 'mt/rwlock.h', SRC + 'mt/semaphore.h', SRC + 'base/containers/resourcePool.cpp'],
  mech=[('waiting queue', SRC + 'mt/syncPt.cpp'), ('fast lock queue', SRC + 'mt/fastlock.h')],
  na='fairness is a liveness property over infinite schedules, to be decided by a model of the algorithm and not from the source text. The safety conditions a lost wake-up breaks are decided by W01, N01 and H01.')

P(id='X06', title='Numbers and times are converted exactly',
  statement='Formatting a number and parsing the text gives the same number; conversions between points in time, calendar dates and time units neither lose carries nor overflow in the documented range.',
  over=['inputs'], q='every number, date and time in range',
  why='tests convert a few values',
  files=[SRC + 'base/text/toString.tcc', SRC + 'base/text/strtodouble.cpp', SRC + 'base/datetime.cpp', SRC + 'base/timestamp.cpp', SRC + 'mt/linux/systime.h'],
  mech=[('formatting', SRC + 'base/text/toString.tcc'), ('dates', SRC + 'base/datetime.cpp')],
  na='these are arithmetic identities over the full range of the inputs (division, rounding of doubles); interval and dataflow analysis cannot establish equality of results.')
