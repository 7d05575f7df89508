def P(id, title, statement, over, text, why, files, mech, note=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if na:
        d['na'] = na
    else:
        d['note'] = note
    return d


TP = 'src/common/maf/threading/threadpool/'
TQ = 'include/maf/threading/ThreadSafeQueue.h'
SZD = 'include/maf/utils/serialization/'
SZ = SZD + 'Serializer.h'
CS = 'src/common/maf/messaging/client-server/'
UX = 'src/platforms/unix/maf/messaging/client-server/ipc/'
HCS = 'include/maf/messaging/client-server/'
SIG = 'include/maf/utils/SignalSlots.h'
MS = 'src/common/maf/messaging/'
PROPS = [
    P('Q01', 'A queue delivers every accepted element exactly once and in order',
      'Every element accepted by a thread-safe queue is handed unaltered to exactly one consumer, whatever the interleaving of '
      'producers, consumers, clear, close and reopen: the consumer of a FIFO queue gets the oldest element, of a priority queue a '
      'greatest one. An open queue never drops a pushed element, and a consumer returns empty-handed only from an empty or closed '
      'queue. Size, emptiness, closedness and clear (its callback seeing each discarded element once, in order) act on one '
      'consistent state.',
      ['schedules', 'histories', 'inputs'], 'all interleavings of any number of producers and consumers, all contents and lengths',
      'needs every interleaving of critical sections and every content; the tests use a few elements and no contention',
      [TQ, 'include/maf/threading/Lockable.h', 'include/maf/threading/Queue.h'],
      [('ThreadSafeQueue', TQ), ('Lockable', 'include/maf/threading/Lockable.h'), ('PriorityQueue', 'include/maf/threading/Queue.h')],
      note='all obligations discharged for all schedules (lock-invariant reasoning), contents and lengths; std containers, mutex and condition variable by contract'),
    P('Q02', 'No consumer of a queue sleeps through an element or a close',
      'A consumer blocks only while the queue is empty and open, and every insertion and every close wakes the consumers it '
      'concerns, also when it happens just as a consumer goes to sleep. After a close no element is delivered until the queue is '
      'reopened, and timed waits return by their deadline.',
      ['schedules', 'histories'], 'all interleavings of push, wait, timed wait, close, reopen, clear',
      'a lost wake-up needs one particular preemption between the test and the sleep',
      [TQ], [('wait/close/push', TQ)],
      note='safety reduction of liveness: no block unless empty and open as seen under the lock; every growth/close is followed by a sufficient notify; flag written only under the lock'),
    P('Z01', 'Serialized values come back equal, and exactly their bytes are consumed',
      'Decoding the bytes that encoding produced for a value - numbers, enums, strings, pairs, tuples, flat structs, classes that '
      'list their members, sequence and associative containers, raw and smart pointers, variants, nested in any way - succeeds, '
      'yields an equal value whatever the target held before, and leaves the stream exactly behind the bytes of that value, so '
      'that values written one after another, or several in one call, are read back the same way. The size announced for a value equals the number of '
      'bytes its encoding takes (variants excepted: they announce none).',
      ['inputs'], 'all values of all supported type shapes, any nesting, any previous content of the target',
      'the space of values, nestings and stale targets is unbounded; the tests sample a handful of fresh targets',
      [SZ, SZD + 'VariantSerializer.h', SZD + 'OByteStream.h', SZD + 'IByteStream.h', SZD + 'Tuplizable.h', 'include/maf/utils/cppextension/TupleManip.h', 'include/maf/utils/cppextension/Aggregate.h'],
      [('Serializer::serialize/deserialize/serializedSize', SZ), ('variant', SZD + 'VariantSerializer.h'), ('OByteStream::write', SZD + 'OByteStream.h'), ('IByteStream::read', SZD + 'IByteStream.h')],
      note='proved per type constructor with opaque element types (structural induction); record arities 1-10 and 20'),
    P('Z02', 'Truncated or unknown input is reported, never taken for a value',
      'Decoding from a stream that ends before the encoding of the value is complete reports failure, wherever it ends and however '
      'deep the missing part is nested; so does an unknown variant alternative. A failed decoding reads nothing outside the buffer '
      'and leaves no dangling pointer, and once a read has failed the stream stays failed and later reads deliver nothing.',
      ['inputs', 'crash_points'], 'every truncation point of every encoding, every alternative index',
      'needs every truncation point of every shape; the tests decode complete input only',
      [SZ, SZD + 'VariantSerializer.h', SZD + 'IByteStream.h'],
      [('Serializer::deserialize', SZ), ('BasicIByteStream::read', SZD + 'IByteStream.h'), ('variant', SZD + 'VariantSerializer.h')],
      note='proved per type constructor with opaque element types (structural induction); memory exhaustion excluded'),
    P('K01', 'Addresses and registration ids are proper keys',
      'Two addresses, and two registration ids, are equal exactly when all their parts are equal; their order is a strict total '
      'order consistent with that equality, so ordered containers keyed by them keep every distinct key and find each again. '
      'Construction and copying keep the parts, a moved-from or cleared registration id is invalid, and an address is valid unless '
      'it is the default one.',
      ['inputs'], 'all pairs and triples of addresses and registration ids',
      'order laws range over all triples of keys; tests hold one or two',
      [CS + 'Address.cpp', HCS + 'Address.h', HCS + 'RegID.h'],
      [('Address::operator<', CS + 'Address.cpp'), ('RegID operators', HCS + 'RegID.h')],
      note='lemmas over the real operators, discharged for all arguments; string order by contract'),
    P('K02', 'Ids handed out concurrently are valid and never repeat',
      'Whatever the number of threads asking and their interleaving, an id generator hands out only valid ids and hands none out '
      'twice until its range is exhausted.',
      ['schedules', 'histories'], 'all interleavings of any number of callers, all counter values before wrap-around',
      'needs every interleaving and every counter value, including the invalid one',
      ['include/maf/utils/IDManager.h'], [('IDManager::allocateNewID', 'include/maf/utils/IDManager.h')],
      note='rely-guarantee contract on the shared counter, 64/32/16-bit'),
    P('F01', 'Local sending reports success only for whole messages handed over',
      'Sending bytes to a named local receiver connects to the receiver of exactly that name and hands over the length followed by '
      'the bytes, in order, however the operating system splits the transfer; success is reported exactly when everything was '
      'handed over, and a receiver that is missing or vanishes yields a failure, never a crash. A receiver is called available '
      'exactly when a connection to its name succeeds. No descriptor is left open.',
      ['inputs', 'crash_points'], 'all payloads and names, any partial transfer, any failure at any system call',
      'needs every split and failure point of the transfer; the tests run whole transfers between live peers',
      [UX + 'LocalIPCBufferSenderImpl.cpp', UX + 'SocketShared.h'],
      [('LocalIPCBufferSenderImpl::send/checkReceiverStatus', UX + 'LocalIPCBufferSenderImpl.cpp'), ('AutoCloseFD, connectToSocket', UX + 'SocketShared.h')],
      note='system calls by contract (short counts and errors at any call)'),
    P('F02', 'Local receiving delivers whole messages only, each once',
      'However the bytes of a connection are split or cut off, the receiver delivers a message exactly once if all announced bytes '
      'arrived, with exactly those bytes, and not at all otherwise; it never touches memory outside the message, and every accepted '
      'connection is kept until it is read. The receiver runs only after it was set up and is really listening, and a stop '
      'requested at any later moment ends it and its listening.',
      ['inputs', 'schedules', 'crash_points'], 'any splitting or truncation, any announced length, stop at any moment',
      'needs every split and truncation point and every moment of a stop request',
      [UX + 'LocalIPCBufferReceiverImpl.cpp', UX + 'SocketShared.h'],
      [('waitAndProcessConnections', UX + 'LocalIPCBufferReceiverImpl.cpp'), ('init/start/stop', UX + 'LocalIPCBufferReceiverImpl.cpp')],
      note='system calls by contract; the length field is assumed to arrive in one piece; fd_set contents abstracted'),
    P('S01', 'A signal calls every connected slot once, in order, on every emission',
      'An emission calls each slot that is connected throughout it exactly once, in connection order, with the emitted value, and '
      'never one disconnected before its turn, whatever the slots do meanwhile: connect, disconnect themselves or others, clear the '
      'signal, or throw. A slot stays alive while it runs, and afterwards the signal is usable as before with exactly the remaining '
      'connections counted. Every operation acts on one consistent list under the signal\'s lock; a single-connection signal never '
      'holds more than one.',
      ['inputs', 'histories', 'schedules'], 'any list of slots, any re-entrant behaviour of slots, any thread interleaving of operations',
      'needs every combination of re-entrant changes during an emission and every list length',
      [SIG, 'include/maf/threading/AtomicObject.h'],
      [('MultiSlotKeeper', SIG), ('SingleSlotKeeper', SIG), ('BasicSignal_', SIG), ('MyKeeper_', SIG)],
      note='slots are arbitrary code acting through the signal\'s operations; cyclic emission excluded'),
    P('S02', 'A connection controls exactly its slot, and adapters keep their promise',
      'A connection reports connected exactly while its slot is, disconnecting and reconnecting affect that slot of that signal only, '
      'and it is safe after the signal is gone; moving transfers it, and a scoped connection ends exactly when its holder does or is '
      'given another. A function connected with an executor runs once per emission, on the executor, with its own copy of the emitted '
      'value; one connected with a tracked object is never called after that object died and is then disconnected; one that gets its '
      'own connection can end it.',
      ['inputs', 'histories'], 'any state of connection, slot and signal, and any value',
      'needs every combination of expired signal, slot, moved-from and reconnected states',
      [SIG], [('Connection', SIG), ('ScopedConnection', SIG), ('connect', SIG), ('combineSlotWithExecutor', SIG)],
      note='weak references may expire at any moment; instantiated for signals with one int argument'),
    P('O01', 'An observable announces every change of its state once, and nothing else',
      'Every change of an observable\'s state, by any setter, operator or editing session and by any thread, is announced exactly once to '
      'its slots, with the values stored at that moment, before another thread can change or read the state again; an operation that '
      'leaves the state as it was announces nothing, and silent changes never do. Reading returns one consistent state, and a newly '
      'connected slot is called once with the current state unless it asked not to be. An observable joined from others holds their '
      'values from its creation, follows each change of each of them, and lets go of them when destroyed.',
      ['inputs', 'schedules', 'histories'], 'any stored and assigned values, any thread interleaving',
      'needs every value and every interleaving of changes, reads and connections; the tests change a handful of values in one thread',
      ['include/maf/utils/Observable.h', 'include/maf/threading/AtomicObject.h'],
      [(n, 'include/maf/utils/Observable.h') for n in ('StateBasedSlotKeeper', 'ObservableBasic_', 'BasicObservable_', 'BasicCompoundObservable_')],
      note='proved for any thread interleaving (state havocked whenever the lock is free) and an arbitrary element type; '
           'instantiated with one and two components, joins with two sources'),
    P('L01', 'An object guarded by a lock is reachable only while its lock is held',
      'A session on a guarded object takes exactly that object\'s mutex when it starts and releases it exactly once when it ends; moving a '
      'session hands the lock over, assigning to one releases what it held, and moving one onto itself changes nothing. While it lives it '
      'gives access to the guarded object itself and not to a copy, and assigning to a guarded object happens entirely under its lock. '
      'Trying to lock reports exactly whether the lock was taken.',
      ['histories', 'schedules'], 'any sequence of creating, moving, assigning and ending sessions; any interleaving',
      'a lock released early, twice or not at all shows only in rare interleavings, and the moved-from and self-assigned cases are not tested',
      ['include/maf/threading/AtomicObject.h', 'include/maf/threading/Lockable.h', 'include/maf/threading/MutexRef.h', 'include/maf/threading/Locker.h'],
      [('AtomicObject', 'include/maf/threading/AtomicObject.h'), ('Lockable', 'include/maf/threading/Lockable.h'), ('Locker', 'include/maf/threading/Locker.h')],
      note='every function of the session classes under contract'),
    P('M01', 'A message arrives at another process or thread as it was sent',
      'A message turned into bytes and back has the same service, operation, operation code, request number and source address, for every '
      'value of these, and the same error or contents, decodable any number of times to a value equal to what was sent; contents passed between '
      'threads arrive as the very object. Bytes that are not a message are refused, and a payload that does not hold the expected value is '
      'reported as such. Comparing, copying and modifying messages, errors and payloads acts on the whole value, and different kinds of payload are never equal.',
      ['inputs', 'configurations'], 'every header value, every contents of every serializable type, arbitrary received bytes',
      'the header has several variable-length fields and four payload kinds; a test sends a few fixed messages',
      [CS + 'ipc/LocalIPCMessage.cpp', CS + 'CSMessage.cpp', CS + 'CSError.cpp', HCS + 'ipc/local/ParamTrait.h', HCS + 'itc/ParamTrait.h'],
      [('LocalIPCMessage', CS + 'ipc/LocalIPCMessage.cpp'), ('ParamTrait', HCS + 'ipc/local/ParamTrait.h'), ('IncomingPayload', HCS + 'ipc/local/IncomingPayload.h')],
      note='encoding and decoding of contents by the contract proved for Z01; shared_ptr, string and tuple by library code or model'),
    P('C01', 'A service tells exactly its registered parties about statuses and signals',
      'A status set to a new value, a status removed with notice and a broadcast signal are announced exactly once, with the operation and value '
      'given, to each client registered for that operation and each local listener, and to nobody else; setting the value a status already has announces '
      'nothing. A busy client is tried once more, one that cannot be reached loses its registrations and no other does, and success is reported exactly when '
      'nobody is registered or somebody was reached. Registering, unregistering and leaving change the registrations of that client and operation alone, '
      'a newly registered client and a status query get the current value or nothing, and the start and stop of serving are announced.',
      ['inputs', 'histories', 'schedules'], 'any registrations of any number of clients, any values, any delivery failures, any interleaving of other calls',
      'the outcome depends on who is registered for what and which deliveries fail; no test of the project runs a service with failing clients',
      [CS + 'ServiceProvider.cpp', 'include/maf/messaging/client-server/Address.h'],
      [('ServiceProvider', CS + 'ServiceProvider.cpp')],
      note='every function about statuses, signals and registrations under contract, tracking an arbitrary client and operation; transport and contents are stand-ins with contracts'),
    P('C02', 'A request is handled once and answered at most once, to the client that sent it',
      'A request is given exactly once, with its contents, to the handler registered for its operation, and is answered with an error when there is none; '
      'handlers are never replaced by another one while they are registered. A handler can send updates, and exactly one answer, which go to the client and the request they belong to; '
      'after the answer, an abort by that client or the end of the service the request is over, nothing more is sent for it, and answering again is refused. An abort and the end of the service '
      'run the abort callback of each pending request concerned exactly once, with no lock held, and leave all other requests alone.',
      ['histories', 'schedules', 'inputs'], 'any pending requests of any clients with equal or different numbers, any order of answers, updates and aborts',
      'needs many pending requests of several clients, and answers that race with aborts; the tests send one request at a time',
      [CS + 'ServiceProvider.cpp', CS + 'Request.cpp'],
      [('ServiceProvider', CS + 'ServiceProvider.cpp'), ('Request', CS + 'Request.cpp')],
      note='every function about requests under contract, tracking an arbitrary other request'),
    P('C03', 'A client gets each answer and notification meant for it, exactly once',
      'An answer ends the pending request of its operation and number and calls its callback exactly once (updates leave it pending); a notification calls each registered callback exactly once with contents of its own; '
      'what belongs to another service, request or operation changes nothing. Only the first registration and the end of the last one are announced to the service, a later registration gets the remembered status, '
      'what could not be sent leaves nothing pending and is reported, and nothing is sent to a service that is not there. A blocking call returns the answer, or nothing after the time it was given, when the service goes away '
      'or when it could not be sent, each reported as such; observers are told every change of availability exactly once, and no foreign code runs while a lock is held.',
      ['histories', 'schedules', 'inputs'], 'any pending requests and registrations, any order of messages, any sending failures, service loss at any moment',
      'needs many pending requests, failing transports and services that vanish while a call blocks; the tests have none of these',
      [CS + 'ServiceRequester.cpp'], [('ServiceRequester', CS + 'ServiceRequester.cpp')],
      note='every function of the client side of a service under contract, tracking an arbitrary request, registration or observer; promise and future by contract'),
    P('P01', 'A processor runs each job it accepts once, in order, on its own thread',
      'A processor that is not stopped accepts every job and runs accepted jobs one at a time, each exactly once and in the order they came, on the thread that runs it; a job executed from that thread runs at once. '
      'Stopping drops what is pending, ends the run, refuses new jobs and takes the processor out of routing; who waits for a job is told when it has run. '
      'The start and end functions surround all jobs, a thread belongs to the processor exactly while it runs it (also when something throws), and functions bound to a processor and its executors act on it every time, as long as it lives.',
      ['histories', 'schedules', 'programs'], 'any sequence and interleaving of submissions, runs, stops and nested runs; jobs are arbitrary code that may throw, submit, stop or run another processor',
      'tests post a few jobs in one order; throwing start functions, nested runs, repeated bound functions and processors that die meanwhile are never tried',
      [MS + 'Processor.cpp', 'include/maf/messaging/ProcessorEx.h'], [('Processor', MS + 'Processor.cpp'), ('AsyncProcessor', 'include/maf/messaging/ProcessorEx.h')],
      note='every job operation of a processor, of the current thread, of bound functions and executors, and of launched processors under contract; the job queue by the contract of Q01/Q02'),
    P('P02', 'A message posted to a processor reaches the handlers of its kind, once',
      'A message is accepted exactly when the processor runs and a handler for its kind is connected, and is then handed once and unchanged, on the thread of the processor and with no lock held, to the handlers connected when it is processed; '
      'who waits for it is told when it has been handled. Handlers can be connected, disconnected and reconnected one by one or by kind at any time, without touching the others; '
      'a typed handler gets the contents that were sent, and a connection handle controls exactly its own handler however it is moved.',
      ['histories', 'schedules', 'inputs'], 'any table of handlers, any order of connecting, disconnecting and posting, other threads changing the table meanwhile',
      'tests connect one handler per kind and post from one place',
      [MS + 'Processor.cpp', 'include/maf/messaging/Processor.h'], [('Processor::post', MS + 'Processor.cpp'), ('MsgConnection', MS + 'Processor.cpp')],
      note='message operations, the table of handlers, connections and the typed layer under contract; signals by the contract of S01/S02'),
    P('R01', 'Routing knows each named processor once and delivers to the right ones',
      'Of processors created with one name exactly one exists at a time; it can be found and sent to under that name until it stops, and stopping takes out only that very processor. '
      'A message to a name goes to that processor and nobody else, a message to all goes exactly once to every routed processor with a handler for it, the result says whether anybody took it, and waiting for it ends when all of them have handled it. '
      'Every processor that asks for it is told exactly once of each one that comes or goes, and no handler runs while the lock of the table is held.',
      ['histories', 'schedules', 'configurations'], 'any set of routed processors with any handlers, any concurrent creating, stopping and sending',
      'needs many processors that come and go on several threads; tests use two or three that stay',
      [MS + 'Router.cpp', MS + 'Routing.cpp', MS + 'Router.h'], [('Router', MS + 'Router.cpp'), ('routing', MS + 'Routing.cpp')],
      note='every function of the router and of the routing interface, creation of processors and the order of the table under contract, tracking an arbitrary processor through the loops'),
    P('B01', 'Servers and clients hand each message to the one party of its service',
      'A server has at most one provider and a client at most one requester per service, made ready on first request and handed out each time, also when several threads ask at once. '
      'A message that comes in goes exactly once, unchanged, to the party of its service, and the result says whether it was taken; what is sent goes once to the other side with its sender, between processes or within one, and the result is reported. '
      'Between processes a start listens on one thread until a stop, which waits for it; bytes are decoded and handled one message each on the job thread, and nothing of a server or client is used after it is gone; at the end each party is told once and none is left.',
      ['histories', 'schedules', 'inputs', 'configurations'], 'any services, messages and bytes, any concurrent lookups, any end of servers and clients while bytes and jobs are pending',
      'needs concurrent lookups and servers or clients that go while bytes are pending; no test runs a server or a client',
      [CS + x for x in ('ServerBase.cpp', 'ClientBase.cpp', 'ipc/LocalIPCServer.cpp', 'ipc/LocalIPCClient.cpp', 'itc/Client.cpp', 'itc/Server.cpp')],
      [('ServerBase', CS + 'ServerBase.cpp'), ('ClientBase', CS + 'ClientBase.cpp'), ('LocalIPCServer', CS + 'ipc/LocalIPCServer.cpp'), ('LocalIPCClient', CS + 'ipc/LocalIPCClient.cpp')],
      note='every function of servers and clients about parties, messages and their life under contract, for any service; sockets, the job thread and parties by contract'),
    P('B02', 'A client knows which services of its server are available',
      'A change of the availability of a service is announced once to every registered client, and to nobody else; a client that registers is told once of each available service; a client that cannot be reached any more is forgotten, and only that one. '
      'A client asks a server for its services whenever it appears, again until that works, remembers the last status of each service until the server goes, and tells the requester of the service once per change, a new requester at its creation, and all requesters once when the server goes. '
      'No code of the user runs while a lock is held, and no change is missed by a requester that is made meanwhile.',
      ['histories', 'schedules', 'fault_sequences'], 'any sets of services and clients, any sequence of changes, registrations and failing sends, servers that come and go at any moment',
      'needs several clients, failing sends and servers that come and go; no test runs a server or a client',
      [CS + x for x in ('ServerBase.cpp', 'ClientBase.cpp', 'ipc/LocalIPCServer.cpp', 'ipc/LocalIPCClient.cpp', 'itc/Server.cpp')],
      [('ServerBase::onServiceStatusChanged', CS + 'ServerBase.cpp'), ('ClientBase', CS + 'ClientBase.cpp'), ('LocalIPCServer', CS + 'ipc/LocalIPCServer.cpp'), ('LocalIPCClient', CS + 'ipc/LocalIPCClient.cpp')],
      note='every function about availability under contract, tracking an arbitrary service and an arbitrary client through the loops'),
    P('B03', 'One client and one server per connection type and address, until shutdown',
      'While nothing is shut down, everyone in the process who asks for a service at the same connection type and address gets it from the same client or server, made, initialised for that address and started once, whichever threads ask at the same time. '
      'A type that does not exist, and a client or server that cannot be initialised, give nothing and leave nothing behind. '
      'Shutting down stops each one in use and then ends it, once, and none of them is handed out again.',
      ['histories', 'schedules', 'fault_sequences'], 'any connection types and addresses, any sequence and interleaving of requests and shutdowns, any failing initialisation',
      'needs failing initialisations, threads that ask at the same time and use after shutdown; no test covers the factories',
      [CS + x for x in ('ClientFactory.cpp', 'ServerFactory.cpp', 'CSMgmt.cpp')] + ['include/maf/utils/containers/Map2D.h'],
      [('ClientFactoryImpl', CS + 'ClientFactory.cpp'), ('ServerFactoryImpl', CS + 'ServerFactory.cpp'), ('csmgmt', CS + 'CSMgmt.cpp'), ('util::find', 'include/maf/utils/containers/Map2D.h')],
      note='every function of the factories and of csmgmt under contract, for an arbitrary entry of the table; clients and servers by contract'),
    P('T01', 'Thread pools run each task once and end cleanly',
      'A pool runs every task that it accepts exactly once, in one of at most its allowed number of threads and (in the priority pool) those of higher priority first, unless the shutdown comes before. '
      'The shutdown stops every task that runs, starts none after that, and returns when all threads of the pool have ended; tasks that still wait or come later are not run. '
      'A task that the pool owns is disposed of exactly once, after it ran or when it is dropped, and never stopped after that; one that it does not own is left alone.',
      ['schedules', 'histories', 'configurations'], 'any sequence and interleaving of submissions, ends of tasks, changes of the limit and shutdowns, any number of threads, any failing launch of a thread',
      'no test covers the pools; the hand-over between taking a task and listing it, and launches beside a shutdown, need particular interleavings',
      ['include/maf/threading/ThreadPoolImplBase.h', 'include/maf/threading/Runnable.h', TP + 'DynamicCountThreadPool.cpp', TP + 'StableThreadPool.cpp', TP + 'PriorityThreadPool.cpp', TP + 'ThreadPoolFactory.cpp'],
      [('ThreadPoolImplBase', 'include/maf/threading/ThreadPoolImplBase.h'), ('run, stop, done', 'include/maf/threading/Runnable.h'), ('PrioritizableRunner', TP + 'PriorityThreadPool.cpp')],
      note='every function of the three pools under contract, from their constructors on; the queue by the contracts of Q01 and Q02'),
    P('D01', 'Typed proxies and stubs pass every call and value unchanged',
      'Every typed call reaches the service exactly once with the right operation, the given value and the given limits, its outcome is reported as it was, and a call that cannot work is refused visibly. '
      'Whatever arrives makes one job of the executor, which calls the given function once with the value, the error or the absence that arrived; unreadable bytes never become a value. '
      'A request handed to a handler is answered at most once, and exactly once if its handler drops, loses or overwrites it without an answer or cannot be run.',
      ['inputs', 'histories', 'programs', 'fault_sequences'], 'any payload that may come (none, error, value, any bytes), any status of a call, any handler behaviour, executors that refuse, both transports',
      'the tests of stubs and proxies take the good path through a running server; what a refused job, a lost request or a bad payload leads to needs states that they do not set up',
      ['include/maf/messaging/client-server/' + x for x in ('BasicProxy.h', 'BasicStub.h', 'RequestT.h', 'ResponseT.h', 'ParamTraitBase.h', 'itc/ParamTrait.h', 'itc/Payload.h', 'ipc/local/ParamTrait.h', 'ipc/local/OutgoingPayload.h', 'ServiceStatusObserverDelegater.h', 'AsyncServiceStatusObserver.h')],
      [('createResponseMsgHandlerCallback, convert', 'include/maf/messaging/client-server/BasicProxy.h'), ('registerRequestHandler', 'include/maf/messaging/client-server/BasicStub.h'), ('RequestT', 'include/maf/messaging/client-server/RequestT.h'), ('ParamTrait::translate', 'include/maf/messaging/client-server/ipc/local/ParamTrait.h')],
      note='every member of proxies, stubs, requests and responses under contract for both transports; wrapped callbacks and their jobs run as real closures'),
    P('W01', 'Waiting for a service status ends when, and only when, it should',
      'A wait reports the awaited status only if the last status told is that one and waiting was not stopped, an interruption only after a stop, and a timeout only once the full limit has passed without either. '
      'Every change of status and every stop wakes all the waiters, whatever they wait for, and no thread blocks while its reason to go on is already there. '
      'A signal made for a proxy is registered with it once, and its current status is always the one told last.',
      ['schedules', 'inputs', 'histories'], 'any statuses told and stops by other threads at any point of a wait, any awaited status, any time limit',
      'a lost wake-up needs a change in the instant between the test and the wait, and a false result needs one between the wake-up and the answer',
      ['include/maf/messaging/client-server/ServiceStatusSignal.h'],
      [('waitIfNot', 'include/maf/messaging/client-server/ServiceStatusSignal.h'), ('stop, onServiceStatusChanged', 'include/maf/messaging/client-server/ServiceStatusSignal.h'), ('serviceStatusSignal', 'include/maf/messaging/client-server/ServiceStatusSignal.h')],
      note='every member under contract; time limits for three units and plain milliseconds'),
    P('Y01', 'A blocking timer calls back when its time is up, and not after a stop',
      'A started timer calls its callback (itself, or by the executor given) once after its full time, or once per period if it is cyclic, until it is stopped or started again, and never afterwards. '
      'Stopping it or starting it again, from any thread or from its callback, ends the earlier run at once without disturbing the new one. '
      'Whether it runs is told truthfully, and a timer without a callback does not run.',
      ['schedules', 'histories', 'inputs'], 'any stops, starts and changes between cyclic and one-shot by other threads at any point of a run and by the callback; any period; executors that run at once or later',
      'the tests do not start this timer at all; a run that is replaced or stopped while it wakes up needs an exact schedule',
      ['src/common/maf/messaging/SyncTimer.cpp', 'include/maf/messaging/SyncTimer.h'],
      [('SyncTimer::start', 'src/common/maf/messaging/SyncTimer.cpp'), ('SyncTimer::stop, setCyclic, running', 'src/common/maf/messaging/SyncTimer.cpp')],
      note='every function of the timer under contract; rely: others change its state only under its lock, which each function guarantees'),
    P('E01', 'A declared record is exactly the tuple of its members, whatever its size',
      'A record or service-contract parameter made with the declaration macros, of any size that they allow, keeps each value given to it in the member it was given for, and the declared default in every other. '
      'Reading and setting members, comparing, ordering, viewing as a tuple, finding differences and loading from JSON act on all members, in their order, each by its own name and none on another; a plain aggregate is compared and viewed field by field likewise. '
      'Every part of one operation of a service carries one identifier, which no other operation of that service has, not even one of another kind with the same name.',
      ['programs', 'inputs'], 'every number of members that the macros allow, any member values, any JSON document with any of the members present or absent',
      'the tests declare a handful of records of a few members; the macros and the templates have one case per size, and a wrong one shows only in a record of that size',
      ['include/maf/utils/serialization/Internal/SerializableObjectImpl.mc.h', 'include/maf/messaging/client-server/CSContractDefinesBegin.mc.h'] + ['include/maf/utils/cppextension/' + x for x in ('Aggregate.h', 'AggregateCompare.h', 'TupleDiff.h', 'TupleManip.h', 'Macros.h')],
      [('record macros', 'include/maf/utils/serialization/Internal/SerializableObjectImpl.mc.h'), ('contract macros', 'include/maf/messaging/client-server/CSContractDefinesBegin.mc.h'), ('flaten and the operators', 'include/maf/utils/cppextension/AggregateCompare.h'), ('tuple_view, for_each_field', 'include/maf/utils/cppextension/Aggregate.h')],
      note='what the macros and templates expand to is under contract, at every size; the JSON library is a stand-in with unknown results'),
    P('G01', 'A log message is written whole, to its sink, exactly when its level is enabled',
      'A message logged at an enabled level is given exactly once, as all its pieces in their order after the name of its level, to the sink of that level (ordinary, or error), and one at a level not enabled is given to none. '
      'Enabling and disabling change exactly the levels named, whichever were enabled and whatever other threads enable or disable meanwhile; stopping disables all. '
      'Initialising replaces the sinks that are given and keeps the ordinary one otherwise; without an error sink errors go to the ordinary one.',
      ['inputs', 'histories', 'schedules'], 'any set of enabled levels before, any levels asked for, any texts and sinks, other threads changing the levels at any moment of a change',
      'the tests use logging only to print; no test looks at what is enabled or written',
      ['src/common/maf/logging/Logger.cpp', 'include/maf/logging/Logger.h'],
      [('enable, disable, changeLogLevels, allowed, init, logImpl', 'src/common/maf/logging/Logger.cpp'), ('log, debug, info, warn, error, fatal, verbose and their macros', 'include/maf/logging/Logger.h')],
      note='every function under contract; machine words are lists of bits, so that bitwise operations are exact; streams are the chain of the pieces written'),
]
