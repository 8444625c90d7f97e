#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one source for the text of the properties).
import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
S="src/mg/sch/"; B="src/mg/box/"; A="src/mg/aio/"; N="src/mg/net/"; O="src/mg/sio/"
TS=[S+"TaskScheduler.cpp",S+"TaskScheduler.h",S+"Task.cpp",S+"Task.h"]
p("C01","Every posted task runs exactly once per post and never overlaps itself",
 "Each time a task is posted to the task scheduler, its callback is invoked exactly once by exactly one worker thread, with no limit on how many tasks, posters, workers or how small the internal batches are; a task that re-posts itself is invoked again, a task that does not is never touched by the scheduler after its callback took it back (it may be deleted or reused at once). A task's callback never runs on two threads at the same time. While runnable tasks exist, the scheduler never goes idle.",
 ["schedules","configurations","programs"],"All interleavings of posting threads and workers, all thread counts and internal queue sizes (including the smallest), all programs that post, re-post, delete or reuse tasks from inside and outside callbacks.",
 "The tests run a few hundred wall-clock schedules with large batches; a lost task or a lost idle-wakeup needs one particular preemption inside the scheduler, and tests with tiny batch sizes and a single worker are absent.",
 TS+[B+"MultiConsumerQueueBase.cpp",B+"MultiProducerQueueIntrusive.h",B+"InterruptibleMutex.cpp",B+"Signal.cpp"],
 [("scheduling role elected by an interruptible try-lock, hand-over of the role","TaskScheduler::PrivSchedule"),("front queue signalled only on empty to non-empty","TaskScheduler::Post"),("ready queue flush and ready-signal chain","TaskScheduler::PrivSignalReady / PrivWaitReady")],
 ["task callback invocation and return","Post* call and return","memory of a task after its callback released it","idle point of all threads"])
p("C02","A delayed task runs no earlier than its deadline unless woken, and runs when due",
 "A task posted with a delay or a deadline (or waiting forever) is not executed before that moment unless it was explicitly woken up or signalled, and it is executed once the moment has come without any further event being needed, however many other tasks wait with earlier, later or equal deadlines. When it runs, the task can tell truthfully whether the deadline was due. An infinite wait never expires by itself.",
 ["schedules","inputs","histories"],"All sets of deadlines (past, equal, increasing, decreasing, infinite, at the numeric extremes), all interleavings of posts, wakeups and time progress.",
 "Tests use a handful of real-time sleeps with tolerant lower bounds; a task stuck behind another deadline, an early expiry or an oversleep until an unrelated event needs particular deadline orders and particular arrival moments.",
 TS+[B+"BinaryHeap.h",B+"Signal.cpp",B+"ConditionVariable.cpp"],
 [("waiting heap ordered by deadline, scheduler sleeps until its top","TaskScheduler::PrivSchedule"),("deadline reset on execution","Task::PrivExecute"),("deadline setters","Task::SetDeadline/SetDelay/SetWait/AdjustDeadline/AdjustDelay")],
 ["task callback invocation with the (virtual) clock","IsExpired","virtual clock jumps while everything sleeps"])
p("C03","A wakeup of a task is never lost",
 "If a task is woken up while it is posted (queued, waiting for a deadline, waiting forever) or while its callback is running and it is then re-posted, the task is executed again without waiting for its deadline. One or several wakeups before an execution cause no more than the executions they guarantee: they never duplicate the task in the scheduler, and waking a task that is already due changes nothing.",
 ["schedules","histories"],"All interleavings of wakeups from any number of threads with posting, scheduling, expiry and execution of the task.",
 "The window between a waiting task being taken by the scheduler and the waker pushing it back is a few instructions; stress tests hit it rarely and cannot tell a delayed wakeup from a prompt one.",
 TS,[("atomic task status: pending/waiting/ready/signaled","Task::PrivTouch*, TaskScheduler::PostWakeup via Task::PostWakeup"),("failed status change means the waker re-pushes the task","TaskScheduler::PrivSchedule waiting-queue branch")],
 ["PostWakeup call and return","task callback invocation","idle point of all threads"])
p("C04","A signal sent to a task is atomic, sticky until received, and never missed",
 "After a signal was sent to a task, every execution of the task that starts later can receive it exactly once; until it is received the task keeps being re-executed at once regardless of deadlines. Signals do not stack: receiving returns true exactly when at least one signal was sent since the last successful receive (or since the task was created). A sender does not touch the task after the receiver has successfully received the signal, so the receiver may delete the task.",
 ["schedules","histories"],"All interleavings of senders with posting, waiting, execution and receive; tasks deleted right after a receive.",
 "Missing a signal or touching a freed task needs a preemption inside the send or the receive; tests only sample it.",
 TS,[("signaled task status exchanged atomically","Task::PostSignal / Task::ReceiveSignal"),("signaled tasks are never put to wait","TaskScheduler::PrivSchedule")],
 ["PostSignal call/return","ReceiveSignal results","task callback invocation","task memory after deletion"])
p("C05","Tasks without different deadlines start in the order they were posted",
 "With one worker thread, tasks posted for immediate execution start in exactly the order in which they were posted (tasks posted by different threads: whenever one post finished before the other began), including tasks re-posted from callbacks. With several workers, a task is taken for execution only after every task posted earlier was taken, up to the tasks that workers currently hold. Re-posting tasks cannot starve others.",
 ["schedules","programs"],"All interleavings of posters and worker, all batch sizes, all re-posting programs.",
 "Tests check the order only for a single batch posted before start; reordering happens at batch borders, at queue-block borders and on races with an idle worker.",
 TS+[B+"MultiConsumerQueueBase.cpp",B+"MultiProducerQueueIntrusive.h"],
 [("FIFO front queue reversed on pop","MultiProducerQueueIntrusive::PopAll"),("pending list keeps the rest of a batch in order","TaskScheduler::PrivSchedule"),("FIFO ready queue","MultiConsumerQueueBase")],
 ["Post* call and return","start of task callbacks"])
p("C06","Draining, stopping and restarting a scheduler lose nothing and end everything",
 "Waiting for an empty scheduler returns once no task is queued, delayed with a finite deadline or executing, and not before; it does return when that is the case. Stopping returns with no callback running and starts no callback afterwards; all tasks posted before a normal drain were executed. After a stop the scheduler can be started again and executes what is posted to it.",
 ["schedules","histories"],"All interleavings of draining/stopping with executing, re-posting and delayed tasks, and repeated start/stop cycles.",
 "Tests stop idle schedulers; stopping while workers are between states needs particular schedules.",
 TS,[("worker states inspected under the scheduler lock","TaskScheduler::IsEmpty"),("stop signals and joins under the scheduling lock","TaskScheduler::Stop"),("polling drain","TaskScheduler::WaitEmpty")],
 ["WaitEmpty/IsEmpty/Stop/Start call and return","task callbacks"])
p("C07","A coroutine task resumes where it yielded, once per execution, and ends as told",
 "A task whose body is a coroutine continues after each suspension exactly once, in order, on one worker at a time, with the value (signal received or not) that was true when it was resumed; nested coroutines return to their callers in LIFO order. The exit operations (delete the task, run a final callback, send a signal) take effect exactly once, after the coroutine was destroyed, and no statement after them executes. Destroying a suspended coroutine destroys every nested frame exactly once.",
 ["schedules","programs","histories"],"All interleavings of wakeups/signals/deadlines with suspension and resumption, all nesting depths and exit kinds.",
 "Tests run a few fixed coroutine bodies on an idle scheduler.",
 TS+[B+"Coro.cpp",B+"Coro.h"],[("call stack of coroutine handles per task","CoroRef / Coro promise"),("awaitables that re-post the task or hand it over after suspension","Task::AsyncYield / AsyncReceiveSignal / AsyncExit*")],
 ["statements executed in coroutine bodies","coroutine frame destruction","exit callbacks and signals"])
p("C08","The multi-consumer queue delivers each item once, in order, only when flushed",
 "With one producer and any number of consumers, every item pushed is popped exactly once by exactly one consumer, items are popped in the order in which they were pushed, and an empty result is returned only if all visible items were taken. Items pushed as pending stay invisible until flushed, unless the queue has to publish a full block; pushing reports a transition from empty exactly when the readable count was zero, and the reported count never exceeds what was pushed and not popped. Memory of consumed blocks is recycled without ever being handed to the producer while a consumer can still read it.",
 ["schedules","configurations","histories"],"All interleavings of one producer and several consumers that attach, detach, pop, and of push/pending/flush/reserve, for all block sizes from 1.",
 "Block recycling races need a consumer stalled at a block border while the producer wraps; stress tests use big blocks and check sums only.",
 [B+"MultiConsumerQueueBase.cpp",B+"MultiConsumerQueueBase.h",B+"MultiConsumerQueue.h"],
 [("list of bounded sub-queues with atomic read and write indexes","MultiConsumerQueueBase"),("garbage collection of fully read unreferenced sub-queues","MultiConsumerQueueBase GC on push/reserve"),("pending write position published on flush","FlushPending")],
 ["Push/PushPending/FlushPending/Reserve results","consumer Pop results","Count/SubQueueCount"])
p("C09","The multi-producer queue loses nothing, keeps order and reports the first push",
 "Items pushed by any number of producers are popped by the consumer exactly once; items of one producer come out in their push order (and a batch stays contiguous and ordered). A push reports that the queue was empty exactly if it was the first since the last pop-all, so exactly one producer is told to notify the consumer. The fast reversed forms give the same items in exactly reversed order.",
 ["schedules","histories"],"All interleavings of producers pushing single items, lists and reversed lists with a popping consumer.",
 "Tests check counts and per-producer order under stress; the first-push report and batch contiguity under contention are sampled only.",
 [B+"MultiProducerQueueIntrusive.h"],[("compare-exchange push on a stack head","Push / PushManyFastReversed"),("exchange with null and reversal","PopAll")],
 ["Push* results","PopAll* results"])
p("C10","A signal wakes its receiver once per sending and may then be destroyed",
 "A send that happens before or during a receive makes the receive return; each receive consumes the signal, so a following receive waits for a new send, and several sends before a receive count as one. A timed receive returns true if a signal was available, and returns false only after its time has passed (or, as documented, after a wakeup in vain: a spurious one or a signal taken by another receiver); an infinite one waits. After a receive returned true, the receiver may destroy the object even if the sender's call has not returned yet.",
 ["schedules"],"All interleavings of senders, one receiver, timeouts and destruction.",
 "Tests ping-pong between two threads in real time; destruction racing a sender and time-out racing a send are not reached on purpose.",
 [B+"Signal.cpp",B+"Signal.h",B+"ConditionVariable.cpp"],[("three-state atomic plus mutex and condition variable","Signal::Send / Signal::ReceiveBlocking / ReceiveTimed"),("destructor passes through the mutex","Signal::~Signal")],
 ["Send/Receive/ReceiveBlocking/ReceiveTimed call and return","memory of the object after destruction"])
p("C11","The interruptible mutex excludes, hands over in order, and interrupts its holder",
 "At most one thread holds the interruptible mutex, every blocking lock is eventually granted once the holder releases, and waiting threads get it in the order they started to wait, ahead of any later try-lock. When somebody starts waiting for a taken mutex, the wakeup action is invoked so that the holder can give it up; a try-lock never blocks and fails when the mutex is taken or promised to a waiter.",
 ["schedules"],"All interleavings of lockers, try-lockers and unlockers.",
 "Tests run threads in a loop with a counter; hand-over order and a waiter missed by an unlock need specific interleavings.",
 [B+"InterruptibleMutex.cpp",B+"InterruptibleMutex.h"],[("taken/has-waiters bits plus waiter list with per-waiter signal","InterruptibleMutex::Lock/TryLock/Unlock")],
 ["Lock/TryLock/Unlock call and return","wakeup callback"])
p("C12","Mutex, condition variable and thread wrappers keep their contracts",
 "The mutex is recursive for its owner and exclusive between threads, and knows its owner. A condition-variable wait releases the mutex and returns owning it, is woken by a signal or broadcast sent after it started to wait, and a timed wait reports a timeout only after the full time (never, if the time is infinite). A started thread object runs its body once; a blocking stop returns only after the body has ended, from however many threads it is requested, and the object may then be deleted.",
 ["schedules","inputs"],"All interleavings of lockers, waiters, notifiers and stoppers; all timeout values including the infinite one.",
 "Few tests, real-time sleeps; no concurrent stops and no extreme timeouts.",
 [B+"Mutex.cpp",B+"Mutex.h",B+"ConditionVariable.cpp",B+"Thread.cpp",B+"Thread_Unix.cpp",B+"Time.h"],
 [("owner id and recursion count","Mutex"),("owner saved across the wait","ConditionVariable::Wait/TimedWait"),("running flag and join under the lock","Thread::BlockingStop / PrivTrampoline")],
 ["call and return of the API","thread body start and end"])
p("C13","The thread-local pool never hands out memory that is still in use",
 "Any object obtained from the pool is distinct from and does not overlap every other live object, whatever threads allocate and free it, and its contents are not altered by the pool while it is live. Freed objects are reused: the amount of memory held does not grow while the number of live objects stays bounded. Objects freed by one thread become available to others.",
 ["schedules","histories","configurations"],"All allocation/free histories over several threads, all batch sizes, threads starting and ending.",
 "Tests count allocations in a few fixed patterns.",
 [B+"ThreadLocalPool.h"],[("per-thread and global chains of free blocks","ThreadLocalPool")],["New/Delete results (addresses)","object contents","number of blocks taken from the heap"])
p("C14","Shared objects live exactly as long as references to them exist",
 "An object managed by the intrusive shared pointer is destroyed exactly once, when its last reference goes away, and never earlier, under any sequence of copying, moving, assigning (including self-assignment and assignment between related types), wrapping, unwrapping and clearing, and when references are dropped concurrently. A moved-from pointer is empty, and comparisons and emptiness tests reflect the object held.",
 ["schedules","programs"],"All operation sequences over several pointers and objects; concurrent drops of the last references.",
 "Tests enumerate single operations, not histories such as aliasing chains through the pointed-to object.",
 [B+"SharedPtr.h",B+"RefCount.h"],[("intrusive counter, last decrement deletes","RefCount::Dec / SharedPtrIntrusive")],["object destruction events","pointer values","reference counts"])
p("C15","The binary heap always yields the least element and tracks positions",
 "After any history of push, update, remove and pop, the top of the heap is a minimal (maximal) element of exactly the elements pushed and not removed, and popping them all gives them in order. For the intrusive form each element always knows its own position while in the heap and is marked absent otherwise, so removing or updating an element by itself never affects another one.",
 ["histories","inputs"],"All histories of push, push-update, remove-by-element, remove-top, pop, reserve, over all key orders and equal keys.",
 "Tests use permutations of a few elements and selected operations; a wrong sift direction after removing from the middle needs particular shapes.",
 [B+"BinaryHeap.h"],[("sift up or down after replacement","BinaryHeap*::PrivUpdate*")],["GetTop/Count/RemoveTop/Remove/UpdateTop/Update/Pop results","element index"])
p("C16","The intrusive lists are exact sequences under every operation",
 "Forward and doubly linked lists contain exactly the elements put in and not taken out, in the order the operations define (append, prepend, insert after/before, remove, pop, splice of a chain or of a whole other list, reversal), with first, last, emptiness and iteration in agreement. Moving or splicing a list, empty or not, transfers exactly its elements and leaves the source empty and usable, and the target usable.",
 ["histories"],"All operation histories over several lists and elements, including empty operands and single elements.",
 "Tests exercise each operation in isolation; defects appear in the operation after the one that corrupted the tail.",
 [B+"ForwardList.h",B+"DoublyList.h"],[("tail link pointer maintenance","ForwardList"),("first/last maintenance","DoublyList")],["iteration, GetFirst, GetLast, IsEmpty after each operation"])
BF=[N+"Buffer.h",N+"Buffer.cpp"]
p("C17","A buffer stream is a byte FIFO",
 "Bytes come out of a buffer stream exactly once and in the order they were written, whichever mix of copying, referencing, reserving-and-propagating, peeking, skipping, reading and popping is used and wherever buffer borders fall. The readable and writable sizes are exact, reserving never loses or exposes data, and data popped out of the stream is never altered by later writes.",
 ["histories","inputs"],"All histories of stream operations with all chunk sizes, including zero, full and partially filled buffers.",
 "Tests check fixed shapes; stream corruption depends on the combination of a partially filled tail, reserved empty buffers and the next operation.",
 BF,[("read end / write position / tail bookkeeping","BufferStream"),("propagation over buffer chains","BuffersPropagateOnRead/OnWrite")],["bytes returned by ReadData/PeekData/PopData","GetReadSize/GetWriteSize","IsEmpty"])
p("C18","Buffer chains carry exactly their bytes and never alter shared buffers",
 "The bytes described by a list of buffer chains, starting from a byte offset, are exactly what is produced for sending, piece by piece, however many bytes each send consumes and however many vectors one send may take; consumed prefixes disappear, empty buffers are harmless, and copying yields equal bytes. Several lists may share the same buffers: consuming one of them never changes what another one, or a direct owner of the buffers, sees.",
 ["histories","inputs"],"All chain shapes with empty and partial buffers, all consumption patterns, all sharing patterns.",
 "Tests never share one chain between two lists that are consumed differently, and use few shapes.",
 BF+[B+"IOVec.cpp",B+"IOVec.h"],[("position by link head plus byte offset","BufferLinkList::SkipData / SkipEmptyPrefix"),("vector building","BuffersToIOVecsForWrite")],["IO vectors produced","bytes of shared chains after consumption"])
p("C19","An encrypted stream delivers application bytes unchanged under any chunking",
 "Application bytes fed into one side of a stream pair come out on the other side exactly once and in order, before encryption was enabled in clear and afterwards encrypted, for every chunking and delay of the network bytes in each direction. Data given before the handshake finished is delivered after it, nothing is delivered after a shutdown was processed, and corrupted network data yields an error and never wrong application bytes.",
 ["histories","inputs","fault_sequences"],"All interleavings of feeding, popping, connecting and shutting down on both sides, all chunkings, all protocol versions supported, any byte corrupted.",
 "Tests use fixed ping-pong patterns.",
 [N+"SSLStreamOpenSSL.cpp",N+"SSLStreamOpenSSL.h",N+"SSLBioMem.cpp",N+"SSLContextOpenSSL.cpp"],[("memory BIO over buffer streams","SSLBioMem"),("state machine new/connecting/connected/closing/closed","SSLStreamOpenSSL")],["PopAppOutput, PopNetOutput bytes","IsConnected/IsClosed/HasError"])
p("C20","A domain resolution request is answered exactly once",
 "Every asynchronous resolution request results in exactly one invocation of its callback, with addresses, an error, a timeout or a cancellation, carrying the requested name. A timeout is reported only after the time limit has passed; a cancellation only if the request was cancelled; a pending request whose time limit passed before it was started is reported as timed out and not resolved. Requests may be cancelled or dropped at any moment without affecting other requests.",
 ["schedules","histories"],"All interleavings of requests, cancellations and dropped handles with the resolver thread, all time limits.",
 "Tests use one or two requests with a debug latency.",
 [N+"DomainToIP.cpp",N+"DomainToIP.h"],[("front queues under a mutex, main list plus deadline heap in the worker","DomainToIPWorker"),("reference counted request context","DomainToIPContext")],["callback invocations and their results","request/cancel call and return"])
IO=[A+"IOCore.cpp",A+"IOCore.h",A+"IOTask.cpp",A+"IOTask.h",A+"IOCore_epoll.cpp",A+"IOTask_epoll.cpp",A+"IOCore_iouring.cpp",A+"IOTask_iouring.cpp"]
p("C21","Wakeups, deadlines, events and closing always reach an IO task",
 "A task in the IO core is invoked by one worker at a time, is invoked again after every wakeup, due deadline (reported truthfully as expired), reschedule request or kernel event, and not otherwise stuck or invoked after it was closed. A close request, repeated or concurrent with anything else, results in exactly one last invocation in which the task sees itself closed and its descriptor released; after that it may be deleted or reused. The core reports itself empty exactly when no tasks are attached. Stopping it does not wait for anything but the running invocations, and tasks in a stopped core go on after the next start.",
 ["schedules","histories"],"All interleavings of wakeups, closes, deadlines and kernel events from several threads with one or more workers, on both kernel interfaces.",
 "The races between a wakeup, a kernel event and a close are a few instructions wide; tests only stress them.",
 IO,[("atomic task status pending/waiting/ready/closing/closed","IOTask::PostWakeup / PostClose / IOCore::PrivScheduleDo"),("kernel events polled before the front queue is taken","IOCore::PrivScheduleDo"),("close guard","IOTask::PrivCloseStart")],
 ["task callback invocations","PostWakeup/PostClose/SetDeadline/Reschedule","descriptor state","idle point of all threads"])
TC=[A+"TCPSocketIFace.cpp",A+"TCPSocketIFace.h",A+"TCPSocket.cpp",A+"TCPSocketCtl.cpp",A+"TCPSocketSubscription.cpp"]
p("C22","A TCP connection carries bytes completely, once and in order",
 "Bytes given to the send calls of an asynchronous TCP socket, from any thread and before or after the connection is up, arrive at the peer exactly once and in the order of the calls (calls from outside of the socket's callbacks are ordered among themselves, and so are the calls made inside of the callbacks), whatever partial writes, would-block results and buffer sharing occur; nothing is sent after the socket was closed or reopened. Sent-bytes notifications add up to what was accepted for sending. As long as the user keeps requesting reception, all bytes that arrived are delivered (a request made while data is being received may be merged with it), and reception is never reported when it was not requested.",
 ["schedules","fault_sequences","inputs"],"All interleavings of senders and the IO workers, all partial-IO and error sequences of the kernel, all chunk sizes and buffer shapes.",
 "Tests send known messages over loopback where partial writes and unlucky interleavings are rare and cannot be chosen.",
 TC+IO+[N+"Buffer.cpp",O+"Socket_Unix.cpp"],[("front queue merged into the private queue under a mutex","TCPSocketIFace::ProtOnEvent"),("byte offset into the first link after partial sends","TCPSocket::PrivSend"),("receive size latch","TCPSocket::PrivRecv")],
 ["OnSend/OnRecv callbacks and received bytes","Send*/PostSend* calls"])
p("C23","A TCP socket's notifications follow its life cycle",
 "For every opened socket that is given something to do, the subscriber gets at most one connected notification or connect error, no data notification before it, errors at most once per operation kind and only before closing, and exactly one closed notification after which nothing more is reported until the socket is reopened. A close request from any thread at any moment, and any failure, always leads to that closed notification, and so does a shutdown request once the socket has a connection (being made) and the peer ends its side; connect delays, socket options and operations posted before connecting are honoured. After being closed the socket can be reopened and behaves as new; of the operations requested by then, only those made inside of the last callback before the reopening are dropped.",
 ["schedules","fault_sequences","histories"],"All interleavings of open, connect, wrap, close, shutdown, sends and receives from several threads with IO events, all failures of connect/send/recv/resolve, repeated reopening.",
 "Tests walk scripted scenarios; a close racing a connect, a wakeup or an error needs particular schedules and injected failures.",
 TC+IO,[("state machine empty/connecting/handshake/connected/closing/closed","TCPSocketIFace"),("control message object merged under the mutex","TCPSocketCtl")],
 ["OnConnect/OnConnectError/OnRecv/OnSend/On*Error/OnError/OnClose callbacks"])
p("C24","A TCP server accepts every connection once and closes once",
 "Each connection established to a listening asynchronous server is handed to its subscriber exactly once, with a usable socket and the peer's address, also when several arrive together and after transient accept failures. Closing the server, any number of times, from any thread, results in exactly one closed notification, no accept notification after it, and a free port.",
 ["schedules","fault_sequences"],"All interleavings of connects and closes; all accept failures classified as transient or fatal.",
 "Tests close once and never inject accept failures.",
 [A+"TCPServer.cpp",A+"TCPServer.h"]+IO+[N+"Socket_Unix.cpp"],[("accept loop with re-arming event","TCPServer::PrivAccept / IOTask::Accept"),("server state","TCPServer::PostClose")],
 ["OnAccept/OnClose callbacks","port reuse"])
p("C25","An SSL socket gives the same guarantees as a TCP one, over TLS",
 "Bytes sent over an asynchronous SSL socket arrive at the peer exactly once and in order, both those sent in clear before encryption is switched on and those after it; the connected notification comes only after the handshake, and sent-bytes notifications count application bytes. A failed handshake or corrupted record closes the connection with an error. The host name given by a client is known to the server. Any amount requested for reception, any event order and any partial IO is tolerated.",
 ["schedules","fault_sequences","inputs"],"All interleavings of both ends, all partial IO, all receive sizes and message sizes, switching encryption on at any message border.",
 "Tests run the TCP scenarios with fixed sizes; leftovers in the encrypted queues depend on sizes.",
 [A+"SSLSocket.cpp",A+"SSLSocket.h",N+"SSLStreamOpenSSL.cpp"]+TC[:2],[("pair of encrypted queues around the stream","SSLSocket::PrivCipherPopulate/PrivCipherFetch/PrivRecvCommit"),("handshake step in the connect sequence","SSLSocket::PrivHandshake")],
 ["subscription callbacks and received bytes"])
p("C26","Synchronous sockets transfer everything and report their state truthfully",
 "A synchronous socket driven by its update call becomes connected or reports the failure, sends all accepted bytes in order across partial and would-block writes, returns received bytes in order, and distinguishes nothing-yet, end-of-stream and error; after an error or end-of-stream it is closed and can be connected again with nothing left from before. The synchronous server accepts each connection once and survives transient accept failures.",
 ["fault_sequences","histories","inputs"],"All sequences of calls and of kernel results (partial, would-block, error, end of stream), all buffer shapes including empty buffers.",
 "Tests use real loopback where failures and partial writes do not occur on demand.",
 [O+"TCPSocket.cpp",O+"TCPServer.cpp",O+"Socket.cpp",O+"Socket_Unix.cpp"],[("output list with byte offset","TCPSocket::PrivUpdateSend"),("connect progress by polling","SocketConnectUpdate")],
 ["Update/Recv/Connect/Accept results, Is* predicates"])
p("C27","Time limits convert without wrap-around",
 "Converting between durations, points in time and limits keeps infinite infinite and zero immediate, never wraps around near the numeric limits, and preserves order: a later limit never becomes an earlier one.",
 ["inputs"],"All 64-bit values of durations and points.",
 "Tests check a few values.",
 [B+"Time.h"],[("saturating conversion","TimeLimit::ToPointFromNow / ToDurationFromNow")],["conversion results"])
p("C28","Hosts parse to what was written and print back",
 "Every valid textual host (IPv4, IPv6, with a port or without) is parsed to exactly the address and port it denotes, everything else is rejected and leaves the host object unchanged, printing a host and parsing it again gives an equal host, and hosts are equal exactly when their addresses and ports are.",
 ["inputs","histories"],"All strings, all addresses and ports, all histories of a host object.",
 "Tests list examples.",
 [N+"Host.cpp",B+"StringFunctions.cpp"],[("hand-written parser around inet_pton","Host::Set")],["parse results, ToString, comparison, sockaddr contents"])
p("C29","URLs split into the parts they denote",
 "A URL is split into its protocol, host, port and target exactly as they are written in it, for names and numeric addresses (IPv4 and IPv6) alike; a missing or malformed part is empty or zero and never changes the other parts.",
 ["inputs"],"All strings.",
 "Tests list examples.",
 [N+"URL.cpp",B+"StringFunctions.cpp"],[("hand-written splitter","URLParse")],["fields of the parsed URL"])
p("C30","Numbers and strings convert exactly",
 "A string is converted to a number if and only if it is an unsigned decimal number (possibly after spaces) in the range of the result, and then to exactly its value; a failed conversion to a narrower number changes nothing. Trimming removes exactly the spaces at both ends, the case-insensitive search finds the first occurrence, and formatting yields the whole text of any length.",
 ["inputs"],"All strings, all numbers.",
 "Tests list examples.",
 [B+"StringFunctions.cpp"],[("range checks over strtoull","StringToNumber"),("two-pass formatting","StringVFormat")],["results of the functions"])
p("C31","An encrypted connection is made only as both contexts allow",
 "Two streams of SSL contexts become connected exactly when the contexts agree: they have a common protocol version, of which the highest is taken; a common cipher for it, of which the first in the order of the client is taken; the server has a certificate; and each side which verifies its peer trusts the certificate shown. Strict trust (the default) takes only certificates which are in time and issued by an authority given to the context; relaxed also those whose self-signed authority is shown by the peer; no level but bypass takes a certificate which is not in time or none at all; bypass takes everything. Otherwise no application byte passes in any direction, and a side which does not trust its peer never becomes connected. Version borders, ciphers, authorities and local certificates may be set in any order: the last border wins and never leaves an empty range, a cipher counts once, a certificate with a foreign key, a wrong password, damaged data or a forbidden kind of key is refused. Contexts compare equal only if configured the same. Streams keep their context alive.",
 ["inputs","history"],"All sequences of configuration calls on both contexts, all orders, all certificates.",
 "Tests try a dozen of fixed pairs of contexts; combinations of trust, certificates, versions and ciphers are thousands.",
 [N+"SSLContextOpenSSL.cpp",N+"SSLContextOpenSSL.h",N+"SSLContext.h",N+"SSLOpenSSL.cpp",N+"SSLStreamOpenSSL.cpp"],[("verification callbacks by trust level","OpenSSLVerifyCert*, SSLContextOpenSSL::SetTrust"),("version borders correct each other","SetMinVersion/SetMaxVersion"),("cipher list split by version","AddCipher")],["results of the configuration calls","IsConnected/HasError/GetVersion/GetCipher of both streams","application bytes delivered"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
