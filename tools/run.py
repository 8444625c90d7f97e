#!/usr/bin/env python3
"""check <property> : decides one property of properties.jsonl. See DESIGN.md."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import VERIF, CheckError
import components

def load_known():
    """known_findings.txt: 'known: property=<id> match=<json substring> <text>' lines suppress,
    'fixed: ...' lines are history."""
    res = []
    p = f'{VERIF}/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                d = dict(x.split('=', 1) for x in line[7:].split(' ')[:2])
                res.append((d['property'], d['match'], line.split(' ', 3)[3]))
    return res


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != 'thorough'
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'executions': 0,
                    'models': [], 'conformance': [], 'samples': []}
        self.violations = []
        self.work = vlib.tmpdir()

    def model(self, spec, cfg, workers=None, timeout=None, extra=(), expect=True, mem='6g'):
        """Exhaustive TLC run of a specification."""
        t0 = time.time()
        rc, out = vlib.tlc(spec, cfg, workers=workers or vlib.NCPU, mem=mem,
                           timeout=timeout or (300 if self.quick else 840), extra=extra)
        g, d = vlib.stats_of(out)
        if rc != 0 or 'No error has been found' not in out:
            raise CheckError(f'model {spec} {cfg}: rc {rc}\n' + vlib.errors(out))
        self.cov['states'] += d
        self.cov['transitions'] += g
        self.cov['models'].append(
            {'spec': spec, 'cfg': cfg, 'states': d, 'transitions': g, 'wall_s': round(time.time() - t0, 1)})

    def traces(self, name, mods, spec, cfg=None, driver=None, io='epoll', args=(), ms=4000, limit=4000,
               libs=(), defs=(), plain=True, aspect=None, deterministic=True, dfs=False, n=None, vrt=True, procs=None):
        """Run a driver on the code, validate the traces against a trace specification."""
        aspect = aspect or self.prop
        exe = vlib.build(name, driver or name, mods, io=io, plain=plain, defs=defs, libs=libs, vrt=vrt)
        cfg = cfg or spec.split('/')[-1] + '.cfg'
        d = f'{self.work}/{name}-{len(self.cov["conformance"])}-{vlib.h(args)[:6]}'
        files, st = vlib.run_driver(exe, d, self.seed, ms, args, n=n, procs=procs or vlib.NCPU)
        parts, total, used = vlib.split(files, vlib.NCPU, d + '/p', limit)
        if used == 0:
            raise CheckError(f'no traces from {name}')
        self.cov['executions'] += st['runs']
        rej, s = vlib.validate(spec, cfg, parts, aspect, dfs=dfs)
        self.cov['states'] += s['dist']
        self.cov['transitions'] += s['gen']
        self.cov['traces_validated_against_impl'] += used
        self.cov['samples'].append({'driver': name, 'trace': json.loads(parts[0][1][len(parts[0][1]) // 2])})
        self.cov['conformance'].append({'driver': name, 'args': list(args), 'spec': spec, 'runs': st['runs'],
                                    'distinct_traces': total, 'validated': used, 'rejected': len(rej),
                                    'atomic_steps': st['steps'], 'thread_switches': st['switches']})
        if not rej:
            return
        # Repeat: the rejected traces are validated again, and the executions are repeated.
        rej.sort(key=lambda x: len(x[0]))
        rej = rej[:40]
        p = f'{d}/rej.ndjson'
        open(p, 'w').write('\n'.join(x for x, _ in rej) + '\n')
        rej2, _ = vlib.validate(spec, cfg, [(p, [x for x, _ in rej])], aspect, dfs=dfs)
        confirmed = []
        for line, pos in rej2:
            t = json.loads(line)
            again = self.repeat(exe, d, t, spec, cfg, aspect, args, deterministic, dfs)
            if again:
                confirmed.append((line, pos))
            if len(confirmed) >= 5:
                break
        if not confirmed:
            raise CheckError(f'{len(rej)} rejections by {spec} did not repeat: ' + rej[0][0][:2000])
        for line, pos in confirmed:
            t = json.loads(line)
            self.violations.append({
                'driver': name, 'args': list(args), 'seed': t['seed'], 'spec': spec, 'aspect': aspect,
                'event_no': pos, 'event': t['ev'][pos - 1] if pos <= len(t['ev']) else 'END',
                'trace': t, 'text': vlib.show(line, pos)})

    def repeat(self, exe, d, t, spec, cfg, aspect, args, deterministic, dfs):
        if not vlib_seed(t['seed']):
            return True
        seed, avg = vlib_seed(t['seed'])
        for i in range(2 if deterministic else 6):
            f = f'{d}/again.ndjson'
            vlib.subprocess.run(vlib.pin(0) + [exe, '--seed', seed, '--avg', avg, '--n', '1', '--out', f] +
                                (['--warm'] if i % 2 else []) + list(args),
                                stdout=vlib.subprocess.PIPE, stderr=vlib.subprocess.PIPE, timeout=120)
            lines = [x for x in open(f).read().split('\n') if x]
            if not lines:
                continue
            r, _ = vlib.validate(spec, cfg, [(f, lines)], aspect, dfs=dfs)
            if r:
                return True
        # Not deterministic executions (the kernel took part): the recorded trace, rejected
        # twice, is the evidence.
        return not deterministic


def vlib_seed(s):
    if isinstance(s, str) and ':' in s:
        return s.split(':')
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    rc = 0
    try:
        level, assumptions, fn = components.CHECKS[prop]
        err = None
        for step in fn:
            try:
                step(ctx)
            except CheckError as e:
                # A violation found by another step matters more than a failed step.
                err = e
            if ctx.violations:
                err = None
                break
        if err:
            raise err
        known = [k for k in load_known() if k[0] == prop]
        new = []
        for v in ctx.violations:
            s = json.dumps(v['trace'] if 'trace' in v else v)
            m = [k for k in known if k[1] in s]
            if m:
                print(f'KNOWN-FINDING: property={prop} {m[0][2]}')
            else:
                new.append(v)
        if new:
            os.makedirs(f'{VERIF}/_build/replay', exist_ok=True)
            path = f'{VERIF}/_build/replay/{prop}.json'
            json.dump(new[0], open(path, 'w'), indent=1)
            print(new[0].get('text', '')[-6000:])
            print(f'VIOLATION property={prop} replay={path}')
            rc = 1
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': ctx.cov,
                   'assumptions': assumptions, 'wall_s': round(time.time() - t0, 1),
                   'violations': len(new)}, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
        print(f'{prop} {tier}: {"VIOLATED" if rc else "ok"}, {ctx.cov["traces_validated_against_impl"]} traces, '
              f'{ctx.cov["states"]} states, {time.time() - t0:.1f} s')
    except CheckError as e:
        print(f'ERROR: {e}', file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        vlib.cleanup()
    sys.exit(rc)


if __name__ == '__main__':
    main()
