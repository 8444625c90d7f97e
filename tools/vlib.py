"""Build the drivers from /repo's working tree, run them, and validate their traces with TLC."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '_build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 8


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b'\0')
    return m.hexdigest()[:20]


def module_sources(mods, io='epoll'):
    res = []
    for m in mods:
        for f in sorted(glob.glob(f'{REPO}/src/mg/{m}/*.cpp')):
            b = os.path.basename(f)
            if re.search(r'_(Win|Apple|IOCP|kqueue)\.cpp$', b):
                continue
            if b.endswith('_iouring.cpp') and io != 'iouring':
                continue
            if b.endswith('_epoll.cpp') and io != 'epoll':
                continue
            res.append(f)
    return res


def header_hash():
    m = hashlib.sha256()
    for root in (f'{REPO}/src', f'{VERIF}/vrt', f'{VERIF}/drv'):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith('.h'):
                    m.update(f.encode())
                    m.update(open(os.path.join(d, f), 'rb').read())
    return m.hexdigest()


TSAN = ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0']
NOPLAIN = ['-mllvm', '-tsan-instrument-memory-accesses=0', '-mllvm', '-tsan-instrument-memintrinsics=0']
BASE = ['clang++', '-std=c++20', '-O1', '-g0', '-fPIC', '-w', f'-I{VERIF}/vrt', f'-I{VERIF}/drv']


def build(name, driver, mods, io='epoll', plain=True, defs=(), vrt=True, libs=()):
    """Compile a driver and the needed modules, return the path of the executable."""
    objdir = f'{BUILD}/obj'
    os.makedirs(objdir, exist_ok=True)
    hh = header_hash()
    cxx = BASE + [f'-I{REPO}/src'] + [f'-D{d}' for d in defs]
    if io == 'iouring':
        cxx = cxx + ['-DMG_IO_URING_ENABLED=1', '-DMG_IOCORE_USE_IOURING=1']
    inst = TSAN + ([] if plain else NOPLAIN) if vrt else []
    jobs = []
    objs = []

    def add(src, flags):
        key = h(hh, src, open(src, 'rb').read(), ' '.join(flags))
        o = f'{objdir}/{os.path.basename(src)}.{key}.o'
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((src, flags, o))

    for s in module_sources(mods, io):
        add(s, cxx + inst)
    drvs = [driver] if isinstance(driver, str) else driver
    for d in drvs:
        add(f'{VERIF}/drv/{d}.cpp', cxx + inst)
    if vrt:
        add(f'{VERIF}/vrt/vrt.cpp', BASE + ['-O2'])

    def comp(j):
        src, flags, o = j
        tmp = f'{o}.{os.getpid()}.tmp'
        r = sh(flags + ['-c', src, '-o', tmp])
        if r.returncode != 0:
            raise CheckError(f'compilation of {src} failed:\n{r.stdout[-3000:]}')
        os.rename(tmp, o)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(comp, jobs))
    exe = f'{BUILD}/bin/{name}-{h(*objs)}'
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    if not os.path.exists(exe):
        tmp = f'{exe}.{os.getpid()}.tmp'
        r = sh(['clang++', '-rdynamic', '-o', tmp] + objs + list(libs) + (['-lssl', '-lcrypto'] if 'net' in mods else []) + ['-lpthread', '-ldl'])
        if r.returncode != 0:
            raise CheckError(f'link of {name} failed:\n{r.stdout[-1000:]}')
        os.rename(tmp, exe)
    return exe


_cpus = sorted(os.sched_getaffinity(0))


def pin(p):
    # Switching threads is much cheaper when they share a CPU.
    return ['taskset', '-c', str(_cpus[p % len(_cpus)])] if shutil.which('taskset') else []


def run_driver(exe, outdir, seed, ms, args=(), procs=NCPU, unique=None, n=None, span=10**9):
    """Run the driver in several processes with disjoint seed ranges for about ms milliseconds
    each. Returns (files, stats)."""
    os.makedirs(outdir, exist_ok=True)
    t0 = time.time()

    def one(p):
        files = []
        st = {'runs': 0, 'unique': 0, 'steps': 0, 'switches': 0, 'fatal': 0}
        cur = seed * span * 16 + p * span + 1
        end = time.time() + ms / 1000.0
        part = 0
        while True:
            left = int((end - time.time()) * 1000)
            if part > 0 and (left < 50 or part > 40):
                break
            f = f'{outdir}/t{p}_{part}.ndjson'
            cmd = [exe, '--seed', str(cur), '--ms', str(max(left, 50)), '--out', f]
            if unique:
                cmd += ['--unique', str(max(1, unique - st['unique']))]
            if n:
                cmd += ['--n', str(n)]
            cmd += list(args)
            try:
                r = subprocess.run(pin(p) + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   timeout=ms / 1000.0 + 60)
            except subprocess.TimeoutExpired:
                raise CheckError(f'driver does not end: {" ".join(cmd)}')
            if r.returncode not in (0, 42) or not os.path.exists(f + '.stat'):
                raise CheckError(f'driver failed ({r.returncode}): {" ".join(cmd)}\n' +
                                 r.stderr.decode(errors='replace')[-2000:])
            s = json.load(open(f + '.stat'))
            for k in ('runs', 'unique', 'steps', 'switches'):
                st[k] += s[k]
            if os.path.getsize(f):
                files.append(f)
            cur = s['next']
            part += 1
            if r.returncode == 0:
                break
            st['fatal'] += 1
            if n:
                break
            if unique and st['unique'] >= unique:
                break
        return files, st
    with cf.ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(one, range(procs)))
    files = [f for r in res for f in r[0]]
    tot = {}
    for _, s in res:
        for k, v in s.items():
            tot[k] = tot.get(k, 0) + v
    tot['wall'] = round(time.time() - t0, 2)
    return files, tot


def tlc(spec, cfg, env=None, workers=1, mem='1500m', timeout=600, extra=(), dfs=False, meta=None):
    """Run TLC on /verif/spec/<spec>.tla with cfg; returns (rc, output)."""
    d = os.path.dirname(f'{VERIF}/spec/{spec}')
    mod = os.path.basename(spec)
    m = meta or tempfile.mkdtemp(prefix='tlc', dir=tmpdir())
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', f'-Xmx{mem}', '-Xss16m', '-XX:TieredStopAtLevel=1' if workers == 1 else '-XX:+TieredCompilation',
           f'-DTLA-Library={VERIF}/spec/lib:{VERIF}/spec/sch']
    if dfs:
        cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
    cmd += ['-cp', JARS, 'tlc2.TLC', '-metadir', m, '-workers', str(workers), '-noGenerateSpecTE',
            '-config', cfg, '-fp', '1'] + list(extra) + [mod]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = -1, (x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or '')) + '\nTIMEOUT'
    finally:
        shutil.rmtree(m, ignore_errors=True)
    return rc, out


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        os.makedirs(f'{BUILD}/tmp', exist_ok=True)
        _tmp = tempfile.mkdtemp(prefix='run', dir=f'{BUILD}/tmp')
    return _tmp


def cleanup():
    if _tmp and os.path.isdir(_tmp):
        shutil.rmtree(_tmp, ignore_errors=True)


def stats_of(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    g, d = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return g, d


def split(files, parts, outdir, limit=None):
    """Merge trace files, drop duplicates (ignoring the seed), spread over `parts` files."""
    seen = set()
    lines = []
    for f in files:
        with open(f) as fh:
            for line in fh:
                line = line.rstrip('\n')
                if not line:
                    continue
                key = hashlib.md5(line.split(',', 1)[1].encode()).digest()
                if key in seen:
                    continue
                seen.add(key)
                lines.append(line)
    total = len(lines)
    # Shorter first: they are cheaper, so more of them fit under the limit; but keep a share
    # of the long ones.
    if limit and len(lines) > limit:
        fat = [x for x in lines if '"e":"fatal"' in x or '"e":"uaf"' in x]
        step = len(lines) / limit
        pick = [lines[int(i * step)] for i in range(limit)]
        lines = list(dict.fromkeys(fat[:50] + pick))
    lines.sort(key=len)
    res = []
    os.makedirs(outdir, exist_ok=True)
    for i in range(parts):
        part = lines[i::parts]
        if not part:
            continue
        p = f'{outdir}/part{i}.ndjson'
        with open(p, 'w') as fh:
            fh.write('\n'.join(part) + '\n')
        res.append((p, part))
    return res, total, len(lines)


def validate(spec, cfg, parts, aspect, timeout=600, mem='3g', dfs=False):
    """Run the trace specification over the trace files. Returns (rejected lines with position, stats)."""
    def one(x):
        p, lines = x
        rc, out = tlc(spec, cfg, env={'TRACE': p, 'ASPECT': aspect}, timeout=timeout, mem=mem, dfs=dfs)
        return p, lines, rc, out
    rej, gen, dist = [], 0, 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for p, lines, rc, out in ex.map(one, parts):
            m = re.search(r'<<"REJECTED", (.*?)>>\s*\n', out, re.S)
            g, d = stats_of(out)
            gen += g
            dist += d
            if 'TIMEOUT' in out and rc == -1:
                raise CheckError(f'TLC timeout on {p} ({spec})')
            mm = re.findall(r'"REJ", (\d+), (\d+)', out)
            done = re.search(r'"VALIDATED", (\d+)', out)
            if not done or int(done.group(1)) != len(lines):
                raise CheckError(f'TLC failed ({rc}) on {p} ({spec}, {aspect}):\n{errors(out)}')
            for t, l in mm:
                rej.append((lines[int(t) - 1], int(l)))
    return rej, {'gen': gen, 'dist': dist}


def show(line, pos, width=6):
    """A readable form of a trace around a position."""
    t = json.loads(line)
    ev = t['ev']
    res = []
    for i, e in enumerate(ev, 1):
        mark = '>>' if i == pos else '  '
        res.append(f'{mark}{i:4d} ' + json.dumps(e))
    return '\n'.join(res)


def errors(out):
    i = out.find('Error:')
    return out[max(0, i - 200):i + 1500] + '\n...\n' + out[-1500:] if i >= 0 else out[-4000:]
