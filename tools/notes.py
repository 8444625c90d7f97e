T = 'TLA+ specification checked with TLC; traces of the real code under a controlled scheduler validated against it'
S = ('TLC enumerates the specification within the constants of its cfg; the code is bound to it by validating recorded '
     'executions (seeded schedules at atomic-operation granularity, virtual time). ')
NOTES = {
 'C01': (T, S + 'Exactly-once execution, no overlap, no lost task at any moment when time moves or everything blocks.'),
 'C02': (T, S + 'Deadlines against virtual time: never early, never past due when time moves, truthful expiration flag.'),
 'C03': (T, S + 'Wakeups: a woken task is never left waiting when everything blocks.'),
 'C04': (T, S + 'Signals: received exactly when sent since the last receive; no use of the task after a receive.'),
 'C05': (T, S + 'Start order of immediate posts.'),
 'C06': (T, S + 'Empty, drain, stop, restart.'),
}
NOTES.update({
 'C07': (T, S + 'Coroutine stacks over the task model: resume point, value, LIFO, exits; the frame links are enumerated too.'),
 'C08': (T, S + 'Linearizability of the multi-consumer queue with two-step pushes and pops, and a bound on its blocks.'),
 'C09': (T, S + 'Linearizability of the multi-producer stack, order of batches, the first-push report.'),
 'C10': (T, S + 'Linearizability of Signal, virtual-time limits, freed memory watched.'),
 'C11': (T, S + 'Exclusion, order of waiting threads, wakeup before anybody is stuck.'),
 'C12': (T, S + 'Mutex, condition variable, thread object; virtual time; lost signals when everything is blocked.'),
 'C13': (T, S + 'No overlap, contents intact, memory bound proved on the algorithm model.'),
 'C14': (T, S + 'Destruction exactly by the call dropping the last reference.'),
})
NOTES.update({
 'C15': (T, S + 'Every push/update/remove/pop history, with positions; the array algorithm itself is enumerated too.'),
 'C16': (T, S + 'Lists as sequences; the link manipulation algorithms are enumerated too.'),
 'C17': (T, S + 'Byte FIFO with exact sizes; the block algorithm is enumerated too.'),
 'C18': (T, S + 'Chains as byte sequences shared by several lists.'),
 'C27': (T, S + 'Saturating arithmetic, order; a small-word instance is enumerated.'),
})
NOTES.update({
 'C19': (T, S + 'Stream pairs over a wire with any chunking, damage and shutdowns; the record-level state machine is enumerated too.'),
 'C20': (T, S + 'Every request answered once, in time, truthfully; the worker algorithm is enumerated (refinement and liveness).'),
})
NOTES.update({
 'C21': (T, S + 'IO tasks: exclusion, wakeups, closing, deadlines, kernel readiness, stop; epoll and a simulated io_uring; '
        'the status machine with the scheduler election is enumerated too.'),
})
NOTES.update({
 'C22': (T, S + 'TCP sockets over a simulated network (epoll and io_uring): every byte the remote ends got is explained by the '
        'send calls, every requested byte is delivered, totals of the notifications.'),
 'C23': (T, S + 'TCP sockets over a simulated network (epoll and io_uring): order and number of notifications in every life, '
        'closing, reopening, delays, failures.'),
})
NOTES.update({
 'C24': (T, S + 'TCP servers over a simulated network (epoll and io_uring): every connection accepted once, failures of accept, '
        'closing at any moment, ports and descriptors.'),
 'C25': (T, S + 'SSL sockets over a simulated network against a real TLS peer, the same specification as of TCP plus the start of '
        'encryption, damaged and truncated records.'),
 'C26': (T, S + 'Every call of synchronous sockets and servers against what the simulated kernel knew before and after it.'),
 'C28': (T, S + 'The grammar of hosts is defined in TLA+; histories of host objects are judged by it.'),
 'C29': (T, S + 'The grammar of URLs is defined in TLA+.'),
 'C31': (T, S + 'Configuration of two contexts as a state machine (the lists and borders the code keeps refine their meaning; '
    'connections are safe, the levels ordered), and the outcome of every connection as a function of the two.'),
 'C30': (T, S + 'Numbers as sequences of digits, so that the borders of all the types are exact.'),
})
NOT_APPLICABLE = {}
