"""What every check consists of."""
CHECKS = {}
LEVEL = 'model_checking'


def check(prop, steps, assumptions):
    CHECKS[prop] = (LEVEL, assumptions, steps)


A_VRT = ['atomic operations are sequentially consistent (x86 with one thread running at a time); '
         'weaker memory orders are not explored',
         'schedules are sampled (random walk, PCT, stalls), not enumerated, on the code; the specification itself is '
         'enumerated exhaustively over the constants of its cfg']


def q(ctx, quick, thorough):
    return quick if ctx.quick else thorough


# ---------------------------------------------------------------- task scheduler
def sch_traces(ctx):
    ctx.traces('sch', ['box', 'sch', 'stub'], 'sch/SchedTrace', ms=q(ctx, 6000, 120000), limit=q(ctx, 9000, 160000))


def sch_tiny(ctx):
    ctx.traces('sch', ['box', 'sch', 'stub'], 'sch/SchedTrace', ms=q(ctx, 3000, 60000), limit=q(ctx, 3000, 60000), args=['tiny'])




# ---------------------------------------------------------------- coroutines
def coro_traces(*args, ms=3500, limit=5000):
    def f(ctx):
        ctx.traces('coro', ['box', 'sch', 'stub'], 'coro/CorTrace', ms=q(ctx, ms, 90000), limit=q(ctx, limit, 60000), args=list(args))
    return f


# ---------------------------------------------------------------- thread-safe objects
def model(spec, *suffixes):
    """Exhaustive TLC run. Suffixes: more configurations; those with _T are for the thorough check."""
    def f(ctx):
        import os, vlib
        for x in suffixes or ('',):
            big = f'{spec}{x}_T.cfg'
            cfg = spec + x + ('_T.cfg' if not ctx.quick and os.path.exists(f'{vlib.VERIF}/spec/{big}') else '.cfg')
            ctx.model(spec, cfg.split('/')[-1])
    return f


def sched(quick, thorough):
    """The algorithm of the scheduler: A wakeups and signals, B draining, C stopping, D order, E deadlines, L and M liveness."""
    return lambda ctx: model('sch/SchedImplMC', *(quick if ctx.quick else thorough))(ctx)


for p_, q_, t_ in (('C01', 'CD', 'ACDEM'), ('C02', 'E', 'AEL'), ('C03', 'A', 'ACL'), ('C04', 'A', 'AEL'), ('C05', 'D', 'DE'), ('C06', 'BC', 'BCM')):
    check(p_, [sched(q_, t_), sch_traces, sch_tiny], A_VRT)


def conc(mode, spec, limit=12000, ms=2500):
    def f(ctx):
        ctx.traces('conc', ['box', 'stub'], spec, ms=q(ctx, ms, 90000), limit=q(ctx, limit, 40 * limit), args=[mode])
    return f


check('C07', [model('coro/CorImpl'), coro_traces('raw', ms=600, limit=6000), coro_traces()], A_VRT)
check('C08', [model('box/McqMC'), conc('mcq', 'box/McqTrace', 9000)], A_VRT)
check('C09', [model('box/MpqMC'), conc('mpq', 'box/MpqTrace')], A_VRT)
check('C10', [model('box/SigMC'), conc('sig', 'box/SigTrace')], A_VRT)
check('C11', [model('box/ImxMC'), conc('imx', 'box/ImxTrace')], A_VRT)
check('C12', [model('box/MtxMC'), conc('mtx', 'box/MtxTrace')], A_VRT)
check('C13', [model('box/PoolMC'), conc('pool', 'box/PoolTrace')], A_VRT)
check('C14', [model('box/PtrMC'), conc('ptr', 'box/PtrTrace')], A_VRT)


# ---------------------------------------------------------------- sequential objects
A_SEQ = ['operation histories are random samples (sizes around the borders of the buffers are preferred); '
         'the algorithm specifications are enumerated exhaustively over the constants of their cfg']


def seq(mode, spec, limit=16000, ms=1200):
    def f(ctx):
        ctx.traces('seq', ['box', 'net', 'stub'], spec, ms=q(ctx, ms, 30000), limit=q(ctx, limit, 20 * limit), args=[mode])
    return f


check('C15', [model('seq/HeapImpl'), seq('heap', 'seq/HeapTrace')], A_SEQ)
check('C16', [model('seq/FwdImpl'), model('seq/DblImpl'), seq('list', 'seq/ListTrace')], A_SEQ)
check('C17', [model('seq/StrmImpl'), seq('stream', 'seq/StrmTrace')], A_SEQ)
check('C18', [seq('chain', 'seq/ChnTrace')], A_SEQ)
check('C27', [model('seq/TimMC'), seq('time', 'seq/TimTrace')], A_SEQ)


# ---------------------------------------------------------------- network
def ssl_traces(ctx):
    # One thread: nothing to instrument except for the events.
    ctx.traces('sslstm', ['box', 'net', 'stub'], 'net/StmTrace', ms=q(ctx, 9000, 200000), limit=q(ctx, 3000, 60000), plain=False)


A_SSL = ['OpenSSL itself is not modelled below the level of records; it is exercised as it is, with deterministic '
         'random numbers', 'Shutdown() is not called on a closed stream, and nothing is sent in clear to a side which '
         'already decrypts (both are preconditions of the class)']
check('C19', [model('net/StmImpl', '', 'B', 'C', 'D'), ssl_traces], A_SEQ + A_SSL)


def tls_traces(ctx):
    ctx.traces('tls', ['box', 'net', 'stub'], 'net/TlsTrace', ms=q(ctx, 12000, 200000), limit=q(ctx, 9000, 150000), plain=False)


check('C31', [lambda ctx: [ctx.model('net/TlsMC', f'TlsMC{x}.cfg') for x in (['', 'B'] if ctx.quick else ['', 'B', '_T', 'B_T'])], tls_traces],
      A_SEQ + ['OpenSSL verifies certificates and negotiates as it does; its own settings of the machine are not read',
               'chains of certificates are one authority and one leaf; revocation lists are not used'])


def dns_traces(ctx):
    ctx.traces('dns', ['box', 'net', 'stub'], 'net/DnsTrace', ms=q(ctx, 2500, 120000), limit=q(ctx, 9000, 200000))


check('C20', [lambda ctx: model('net/DnsImpl', *([''] if ctx.quick else ['', 'B']))(ctx), dns_traces], A_VRT + [
    'getaddrinfo is replaced by a stand-in which is slow, fails or returns any addresses',
    'time moves only in the resolver or when everything is blocked'])


# ---------------------------------------------------------------- IO core
A_IO = ['the kernel is real (sockets, epoll) except that io_uring is a stand-in which executes the operations in any '
        'order and cuts the transfers; kqueue and IOCP are not covered',
        'time is virtual: it moves only when everything is blocked, or by small steps in the runs with ticks']
AIO = ['box', 'net', 'aio', 'stub']


def aio(drv, spec, ms=3500, limit=14000, epoll_args=((),), uring_args=((),), drivers=()):
    def f(ctx):
        for a in epoll_args:
            ctx.traces(drv, AIO, spec, driver=[drv, *drivers], ms=q(ctx, ms, 120000), limit=q(ctx, limit, 20 * limit), args=list(a))
        for a in uring_args:
            ctx.traces(drv + '-uring', AIO, spec, driver=[drv, *drivers, 'uringsim'], io='iouring', ms=q(ctx, ms, 120000),
                       limit=q(ctx, limit, 20 * limit), args=list(a))
    return f


check('C21', [lambda ctx: [ctx.model('aio/IocMC', f'IocMC{x}.cfg') for x in (['B', 'C'] if ctx.quick else ['', 'B', 'C', 'D', 'E', 'F'])],
              aio('ioc', 'aio/IocTrace')], A_VRT + A_IO)

A_NET = ['the network is a stand-in for the system calls on sockets: connections, buffers, partial and refused transfers, '
         'errors and resets are chosen by the schedule; the resolver of names is a stand-in too',
         'io_uring is a stand-in too; kqueue and IOCP are not covered',
         'calls made inside of a callback and calls of other threads are ordered only among themselves']
TCP = aio('tcp', 'aio/TcpTrace', ms=8000, limit=4500, drivers=['netsim'])


def tcp(quick):
    """The algorithm of TCP sockets: A sends, B receives, C two lives, D shutdown, E closing and failures."""
    return lambda ctx: model('aio/TcpImplMC', *(quick if ctx.quick else 'ABCDE'))(ctx)


check('C22', [tcp('AB'), TCP], A_VRT + A_NET)
check('C23', [tcp('CDE'), TCP, aio('tcp', 'aio/TcpTrace', ms=2500, limit=1500, drivers=['netsim'], epoll_args=(('dns',),), uring_args=())], A_VRT + A_NET)

check('C24', [aio('srv', 'aio/SrvTrace', ms=4000, limit=4500, drivers=['netsim'])], A_VRT + A_NET + [
    'errors of accept() which are not known as transient stop the process by design, they are not given to the asynchronous server'])
check('C25', [aio('ssl', 'aio/TcpTrace', ms=8000, limit=2600, drivers=['netsim']),
              aio('ssl', 'aio/TcpTrace', ms=2000, limit=700, drivers=['netsim'], epoll_args=(('dns',),), uring_args=())], A_VRT + A_NET + A_SSL + [
    'after the start of encryption the user keeps a receive request, without which the handshake is not read'])


# ---------------------------------------------------------------- synchronous sockets
def sio_traces(ctx):
    ctx.traces('sio', ['box', 'net', 'sio', 'stub'], 'sio/SioTrace', driver=['sio', 'netsim'], ms=q(ctx, 5000, 90000), limit=q(ctx, 4000, 80000))


check('C26', [sio_traces], A_SEQ + A_NET[:1] + ['SendCopy() and Recv() are called on connected sockets only, Recv() with room for data (preconditions of the class)'])


# ---------------------------------------------------------------- texts
A_TEXT = ['texts are random samples of the grammars and of their damaged variants, not all texts; they have no zero bytes',
          'whether a number can have an explicit plus is not specified, both are accepted']


def text(mode, limit=16000, ms=2000):
    def f(ctx):
        ctx.traces('text', ['box', 'net', 'stub'], 'text/TextTrace', ms=q(ctx, ms, 30000), limit=q(ctx, limit, 20 * limit), args=[mode])
    return f


check('C28', [text('host')], A_TEXT)
check('C29', [text('url')], A_TEXT)
check('C30', [text('str')], A_TEXT)
