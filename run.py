"""Decides one property on /repo's current tree:  run.py Cxx [--thorough]

1. The contracts behind the property are verified: every obligation generated from the current source is put to
   the solvers, function by function.
2. At the same time the real code is run against an independent reference on generated cases: this replays what a
   failed obligation claims, and cross-checks contracts and trusted models.
Exit 0: everything discharged and no case failed.  Exit 1: VIOLATION line."""
import hashlib
import json
import os
import random
import re
import resource
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, SITE, HERE]
sys.setrecursionlimit(20000)

import plan                                                       # noqa: E402

CORES = 8
TRUSTED = [
    'pyvc: the verification condition generator in /verif/pyvc, its value model and its abstraction of z3 queries',
    'solvers: z3 (python module) and cvc5',
    'CPython runs the functions as the language reference says; pyvc reads the ASTs of the files in /repo',
]


# ------------------------------------------------------------------ processes
class Job:
    """A forked child that sends one pickled-by-repr result."""
    def __init__(self, name, fn, limit, mem=6 << 30):
        self.name, self.limit, self.t0, self.result, self.failed = name, limit, time.time(), None, None
        self.buf = []
        r, w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                import pickle
                try:
                    data = pickle.dumps(('ok', fn()))
                except BaseException:
                    data = pickle.dumps(('err', traceback.format_exc()[-1500:]))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        self.fd = r

    def kill(self):
        for f in (lambda: os.killpg(self.pid, signal.SIGKILL), lambda: os.kill(self.pid, signal.SIGKILL)):
            try:
                f()
            except OSError:
                pass

    def finish(self, why=None):
        if why:
            self.kill()
        os.close(self.fd)
        os.waitpid(self.pid, 0)
        import pickle
        if why:
            self.failed = why
            return
        try:
            k, v = pickle.loads(b''.join(self.buf))
        except Exception:
            self.failed = 'died'
            return
        if k == 'ok':
            self.result = v
        else:
            self.failed = v


class Pool:
    def __init__(self, width):
        self.width, self.todo, self.running = width, [], []

    def add(self, name, fn, limit, front=False):
        self.todo.insert(0, (name, fn, limit)) if front else self.todo.append((name, fn, limit))

    def step(self, timeout=.5):
        """Finished jobs."""
        while self.todo and len(self.running) < self.width:
            self.running.append(Job(*self.todo.pop(0)))
        out = []
        if not self.running:
            return out
        ready = select.select([j.fd for j in self.running], [], [], timeout)[0]
        now = time.time()
        for j in list(self.running):
            if j.fd in ready:
                b = os.read(j.fd, 1 << 20)
                if b:
                    j.buf.append(b)
                    continue
                j.finish()
            elif now - j.t0 > j.limit:
                j.finish('time limit of %d s' % j.limit)
            else:
                continue
            self.running.remove(j)
            out.append(j)
        return out

    def busy(self):
        return bool(self.todo or self.running)

    def stop(self):
        self.todo = []
        for j in self.running:
            j.finish('stopped')
        self.running = []


# ------------------------------------------------------------------- contracts
def load_specs():
    from pyvc import contracts as C
    import importlib
    import webauthn_rp.errors as er
    C.LIBERR.append(er.WebAuthnRPError)
    for m in plan.SPECS:
        importlib.import_module('specs.' + m)
    return C


def wanted(P, regs):
    """Obligations of a contract that matter to P: its own, and those it rests on."""
    rx = [re.compile(r) for r in regs]

    def want(ob):
        tail = ob.name.split('/', 1)[1]
        return P in ob.props or any(r.match(tail) for r in rx)
    return want


def prove_all(jobs, budget, z3_ms, cvc5_s):
    return lambda: [prove(n, want, budget, z3_ms, cvc5_s)() for n, want in jobs]


def no_report(name, problem, wall):
    return {'name': name, 'obs': [], 'problem': problem, 'bounded': 0, 'paths': 0, 'returns': 0, 'wall': wall,
            'callees': [], 'visited': [], 'trusted': []}


def prove(name, want, budget, z3_ms, cvc5_s):
    def go():
        from pyvc import contracts as C
        from pyvc.source import Source
        from pyvc.interp import Interp
        rep = C.verify(name, Source(), Interp, budget=budget, want=want, z3_ms=z3_ms, cvc5_s=cvc5_s)
        d = {k: getattr(rep, k) for k in ('name', 'obs', 'problem', 'bounded', 'paths', 'returns', 'wall', 'callees',
                                          'visited')}
        d['trusted'] = sorted(getattr(rep, 'trusted', ()))
        d['pruned'] = getattr(rep, 'pruned', 0)
        d['total'] = getattr(rep, 'total', len(rep.obs))
        return d
    return go


# ------------------------------------------------------------------- concrete
def explore(P, seed, secs, extra=(), stop=3):
    def go():
        import warnings
        warnings.simplefilter('ignore')
        from oracle import gen, plans, kinds
        gen.load_pool(extra)
        r = random.Random('%s/%s' % (P, seed))
        st = {'n': 0, 'skipped': 0, 'kinds': {}, 'bad': [], 'distinct': 0, 'sample': None}
        seen = set()
        t = time.time()
        first = None
        while time.time() - t < secs and not (first and (len(st['bad']) >= stop or time.time() - first > 3)):
            try:
                cases = list(plans.PLANS[P](r))
            except Exception:
                st['skipped'] += 1
                continue
            for k, d in cases:
                st['n'] += 1
                st['kinds'][k] = st['kinds'].get(k, 0) + 1
                h = hash(lit(d))
                if h not in seen and len(seen) < 300000:
                    seen.add(h)
                try:
                    bad = [m for ps, m in kinds.judge(k, d) if P in ps]
                except Exception as e:  # the case cannot even be set up with this code
                    st['skipped'] += 1
                    if P != 'C10':
                        continue
                    bad = ['an honest ceremony cannot be set up: %s' % e]
                if bad:
                    first = first or time.time()
                    st['bad'].append((k, d, bad))
                elif st['sample'] is None and st['n'] > 5:
                    st['sample'] = lit([k, d])[:600]
        st['distinct'] = len(seen)
        return st
    return go


def lit(x):
    n = sys.get_int_max_str_digits()
    sys.set_int_max_str_digits(0)
    try:
        return repr(x)
    finally:
        sys.set_int_max_str_digits(n)


def write_replay(P, body, tag=''):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s%s.txt' % (P, tag))
    with open(p, 'w', encoding='utf-8', errors='backslashreplace') as f:
        f.write(body)
    return os.path.relpath(p, HERE)


def known():
    """Findings that are reported without being violations: {(property, case digest): text}."""
    out = {}
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt'), encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) case=(\S+) (.*)', l)
            if m:
                out[m.group(1), m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def digest(k, d):
    return hashlib.sha256(lit([k, d]).encode('utf-8', 'backslashreplace')).hexdigest()[:16]


# ------------------------------------------------------------------------ main
def main():
    P = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    secs = (240 if thorough else 24)
    if os.environ.get('VERIF_SECS'):
        secs = float(os.environ['VERIF_SECS'])
    C = load_specs()
    items = plan.items(P, C.REG)
    z3_ms, cvc5_s, budget = (20000, 30, 300) if thorough else (6000, 8, 150)
    pool = Pool(CORES)
    nexp = 4 if thorough else 3
    from oracle import plans
    concrete = P in plans.PLANS
    if not concrete:
        nexp = 0
    groups = {}
    for n in items:
        g = C.REG[n].group
        groups.setdefault(n if g is None else '*' + g, []).append(n)
    for g in sorted(groups, key=lambda g: -plan.COST.get(g, len(groups[g]))):
        pool.add(g, prove_all([(n, wanted(P, items[n])) for n in groups[g]], budget, z3_ms, cvc5_s), budget * 2 + 60)
    for i in range(nexp):
        pool.add('explore:%d' % i, explore(P, '%d.%d' % (seed, i), secs), secs + 120, front=True)
    reps, stats, bad = {}, [], []

    def collect(done):
        for j in done:
            if j.name.startswith('explore:'):
                if j.failed:
                    stats.append({'n': 0, 'failed': j.failed})
                    continue
                stats.append(j.result)
                bad.extend(j.result['bad'])
            else:
                for n in groups.get(j.name, [j.name]):
                    reps[n] = no_report(n, j.failed, time.time() - j.t0)
                for r in j.result or []:
                    reps[r['name']] = r
    while pool.busy() and not (bad and time.time() - t0 > 90):
        collect(pool.step())
        if bad and not any(j.name.startswith('explore:') for j in pool.running) and time.time() - t0 > 40:
            break
    pool.stop()

    def failing():
        return [(n, o) for n, r in reps.items() for o in r['obs'] if o[2] != 'proved' and not r['bounded'] and
                not r['problem'] and o[3] != 'time']
    # undecided obligations get more time
    fails = failing()
    kf = known()
    new = [(k, d, m) for k, d, m in bad if (P, digest(k, d)) not in kf]
    if fails and not new:
        again = {n for n, o in fails if o[2] == 'unknown'}
        names = {o[0] for _, o in fails}
        for n in again:
            pool.add(n, prove_all([(n, lambda ob: ob.name in names)], 200, 45000, 40), 300)
        # and their counter-models seed a longer search for a failing input
        extra = []
        for _, o in fails:
            if isinstance(o[5], dict):
                extra += [v for v in o[5].values() if type(v) in (str, int)]
                extra += [v.encode('latin-1', 'replace') for v in o[5].values() if type(v) is str]
        s2 = 300 if thorough else 100
        for i in range(CORES if concrete else 0):
            pool.add('explore:x%d' % i, explore(P, '%d.x%d' % (seed, i), s2, extra[:200], 1), s2 + 120, front=True)
        first = dict(reps)
        while pool.busy() and not bad:
            collect(pool.step())
        pool.stop()
        for n in again:                 # keep the other obligations of the first run
            a, b = first[n], reps[n]
            if b is not a:
                if b['problem']:
                    reps[n] = a
                else:
                    got = {}
                    for o in b['obs']:
                        got.setdefault(o[0], []).append(o)
                    obs = []
                    for o in a['obs']:
                        obs.append(got[o[0]].pop(0) if got.get(o[0]) else o)
                    reps[n] = dict(a, obs=obs)
        fails = failing()
        new = [(k, d, m) for k, d, m in bad if (P, digest(k, d)) not in kf]
    for k, d, m in bad:
        h = digest(k, d)
        if (P, h) in kf:
            print('KNOWN-FINDING: property=%s %s' % (P, kf[P, h]))
    status = 0
    line = None
    if new:
        k, d, m = min(new, key=lambda x: len(lit(x[1])))
        body = '# property %s, case of kind %s: %s\n' % (P, k, ' | '.join(m).replace('\n', ' '))
        if fails:
            body += '# failed obligations: %s\n' % ', '.join(sorted({o[0] for _, o in fails}))
        body += lit([P, k, d]) + '\n'
        path = write_replay(P, body)
        print('%s: %s' % (k, m[0]))
        line = 'VIOLATION property=%s replay=%s' % (P, path)
    elif fails:
        body = '# property %s: obligations that the solvers do not accept on the current tree\n' % P
        for n, o in fails:
            body += json.dumps({'contract': n, 'obligation': o[0], 'status': o[2], 'backend': o[3], 'seconds': o[4],
                                'counter-model': o[5], 'detail': o[6]}, default=str) + '\n'
        path = write_replay(P, body)
        for n, o in fails[:5]:
            print('failed obligation %s (%s, %s)%s' % (o[0], o[2], o[3], ' ' + o[6] if o[6] else ''))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (P, path)
    if line:
        status = 1
    evidence(P, 'thorough' if thorough else 'quick', seed, t0, items, reps, stats, fails, new, status)
    if line:
        print(line)
    else:
        n = sum(len(r['obs']) for r in reps.values())
        print('%s: %d obligations of %d contracts discharged%s; %d cases run, none failing (%.0f s)' % (
            P, n - len([1 for r in reps.values() for o in r['obs'] if o[2] != 'proved']), len(reps),
            '' if all(not r['problem'] and not r['bounded'] for r in reps.values()) else
            ', OUT OF REACH: ' + ', '.join(n for n, r in reps.items() if r['problem'] or r['bounded']),
            sum(s['n'] for s in stats), time.time() - t0))
    sys.exit(status)


def evidence(P, tier, seed, t0, items, reps, stats, fails, new, status):
    per = []
    total = done = 0
    backends = {}
    solver = 0.0
    trusted = set()
    for n in sorted(reps):
        r = reps[n]
        p = [o for o in r['obs'] if o[2] == 'proved']
        if not r['problem'] and not r['bounded']:
            total += len(r['obs'])
            done += len(p)
            for o in p:
                backends[o[3]] = backends.get(o[3], 0) + 1
        solver += sum(o[4] for o in r['obs'])
        trusted |= {re.sub(r'<[\w.]*AsnType object[^>]*>', 'asn1 value', re.sub(r'<[\w.]*Decoder object[^>]*>', 'decode', t))
                    for t in r['trusted']}
        per.append({'function': n, 'obligations': len(r['obs']), 'discharged': len(p), 'paths': r['paths'],
                    'returning_paths': r['returns'], 'seconds': round(r['wall'], 2),
                    'against_contracts_of': r['callees'], 'inlined': [v for v in r['visited']],
                    'status': 'out of reach, concrete stand-in: ' + r['problem'] if r['problem'] else
                    'bounded (%d iterations), not counted' % r['bounded'] if r['bounded'] else
                    'proved' if len(p) == len(r['obs']) else 'failed'})
    ev = {'property': P, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': {
        'obligations': total, 'discharged': done, 'checker_cmd': 'sh check.sh %s' % P,
        'trusted_base': TRUSTED + ['contract of ' + t for t in sorted(trusted)],
        'branches_proved_infeasible': sum(r.get('pruned', 0) for r in reps.values()),
        'functions_under_contract': per, 'discharged_by': backends, 'solver_seconds': round(solver, 2),
        'not_proved': [x['function'] + ': ' + x['status'] for x in per if x['status'] not in ('proved', 'failed')],
        'failed_obligations': sorted({o[0] for _, o in fails}),
        'evaluations': sum(s['n'] for s in stats), 'distinct_nontrivial': sum(s.get('distinct', 0) for s in stats),
        'rule': 'cases generated from honest inputs with injected deviations and from malformed values; run on the '
                'real code and compared with an independent reference; distinct by content',
        'cases_by_kind': {k: sum(s.get('kinds', {}).get(k, 0) for s in stats)
                          for k in sorted({k for s in stats for k in s.get('kinds', {})})},
        'samples': [s['sample'] for s in stats if s.get('sample')][:2],
        'explorer_problems': [s['failed'] for s in stats if s.get('failed')],
    }, 'assumptions': plan.ASSUMPTIONS.get(P, []) + plan.COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2), 'violations': status}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, P + '.json'), 'w', encoding='utf-8', errors='backslashreplace') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    main()
