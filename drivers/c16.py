"""Drives a pool through call histories; every scenario runs in a process group of its own, ended when it does not finish."""
import json
import select
import signal
import time
from drivers.vdrv import *
from MTfit.probability import LnPDF
from MTfit.utilities import multiprocessing_helper as mh

LIMIT = 45
scen, outp = sys.argv[1:3]
shard, shards = int(sys.argv[3]), int(sys.argv[4])
rng = seed('c16', shard)
out = Out(outp)


class Odd(Exception):
    """cannot be rebuilt from its args"""
    def __init__(self, a, b):
        super(Odd, self).__init__('odd %s' % a)
        self.f = lambda: b


class Task(object):
    def __init__(self, ident, kind, wait):
        self.ident, self.kind, self.wait = ident, kind, wait

    def __call__(self):
        if self.wait:
            time.sleep(self.wait)
        return outcome(self.ident, self.kind)


def lnpdf(ident, form):
    r = np.random.RandomState(ident)
    x = r.uniform(-700, 3, size=[(1, 7), (3, 4), (1, 1), (2, 50)][form % 4])
    if form % 3 == 0:
        x[0, 0] = -np.inf
    return LnPDF(np.matrix(x), dV=float(r.uniform(1e-3, 10)) if form % 2 else 1.0)


def outcome(ident, kind):
    k, _, f = kind.partition(':')
    f = int(f or 0)
    if k == 'value':
        return [1000 + ident, {'id': ident, 'x': [1.5, None]}, 'task %d' % ident, (ident, float(ident)), [ident], np.array([ident, 10.0])][f % 6]
    if k == 'code':
        return mh.RETURN_CODES[f % len(mh.RETURN_CODES)]
    if k == 'none':
        return None
    if k == 'big':
        return {'id': ident, 'x': np.random.RandomState(ident).normal(size=f)}
    if k == 'raise':
        raise [ValueError, KeyError, TypeError, ZeroDivisionError, OSError][f % 5](1000 + ident)
    if k == 'exit':
        raise SystemExit(1000 + ident)
    if k == 'odd':
        if f % 2:
            raise Odd(1000 + ident, 2)
        raise ValueError(1000 + ident, lambda: 1)
    if k == 'lnpdf':
        p = lnpdf(ident, f)
        return [{'id': ident, 'ln_pdf': p, 'n': 3}, {'id': ident, 'a': {'ln_pdf': p}}, [{'id': ident, 'ln_pdf': p}, p], {'id': ident, 'ln_pdf': p, 'other': lnpdf(ident + 500, f), 'x': {'y': 1}}][f % 4]
    raise RuntimeError(kind)


def same(a, b):
    if isinstance(b, LnPDF):
        return isinstance(a, LnPDF) and same(np.asarray(a._ln_pdf), np.asarray(b._ln_pdf)) and same(a.dV, b.dV)
    if isinstance(b, BaseException):
        return type(a) is type(b) and same(a.args, b.args)
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def identify(r, kinds):
    """(task or 0, identical)"""
    for ident in range(1, len(kinds) + 1):
        k = kinds[ident - 1]
        if k.startswith('code') or k == 'none':
            continue
        if k.startswith('odd'):  # what cannot be sent is described
            if isinstance(r, Exception) and str(1000 + ident) in str(r):
                return ident, True
            continue
        try:
            e = outcome(ident, k)
        except BaseException as x:
            e = x
        if same(r, e):
            return ident, True
        # recognisable but altered
        for key in ('id',):
            if isinstance(r, dict) and isinstance(e, dict) and r.get(key) == ident:
                return ident, False
        if isinstance(r, BaseException) and isinstance(e, BaseException) and r.args and str(1000 + ident) == str(r.args[0]):
            return ident, False
    return 0, False


def kinds_of(s):
    n = s['n']
    f = lambda: str(int(rng.randint(12)))
    mix = s['mix']

    def one(j):
        p = rng.rand()
        if mix == 'values':
            return 'value:' + f()
        if mix in ('raise', 'exit', 'odd'):
            return (mix if p < .4 else 'value') + ':' + f()
        if mix == 'allraise':
            return 'raise:' + f()
        if mix == 'codes':
            return ('code' if p < .5 else 'value') + ':' + f()
        if mix == 'allcodes':
            return 'code:' + f()
        if mix == 'lnpdf':
            return ('lnpdf' if p < .8 else 'raise') + ':' + f()
        if mix == 'big':
            return 'big:%d' % int(10 ** rng.uniform(2, 4.7)) if p < .7 else 'value:' + f()
        if mix == 'nothing':
            return 'none' if p < .4 else ('code:' if p < .6 else 'value:') + f()
        return ['value:', 'value:', 'raise:', 'code:', 'lnpdf:', 'exit:'][int(p * 6)] + f()
    ks = [one(j) for j in range(n)]
    if s['plan'] == 'trailing':
        for j in range(n - n // 3, n):
            ks[j] = 'code:' + f()
    return ks


def program(s):
    n, plan = s['n'], s['plan']
    sub = [('submit', t) for t in range(1, n + 1)]
    if plan == 'batch' or plan == 'trailing':
        return sub + [('all', 0), ('all', 0), ('close', 0)]
    if plan == 'each':
        return [x for t in range(1, n + 1) for x in (('submit', t), ('result', 0))] + [('all', 0), ('close', 0)]
    if plan == 'close':
        k = int(rng.randint(n + 1))
        return sub[:k] + ([('result', 0)] if k and rng.rand() < .5 else []) + sub[k:] + [('close', 0), ('all', 0)]
    if plan == 'collectclose':
        return sub + [('result', 0)] * (n // 2) + [('close', 0)] + [('result', 0)] * (n // 4) + [('all', 0)]
    if plan == 'reuse':
        k = n // 2
        return sub[:k] + [('all', 0)] + sub[k:] + [('result', 0)] * min(2, n - k) + [('all', 0), ('close', 0)]
    ops, t, o = [], 1, 0
    while t <= n or o > 0:
        if t <= n and (o == 0 or rng.rand() < .55):
            ops.append(sub[t - 1])
            t, o = t + 1, o + 1
        elif rng.rand() < .08:
            ops.append(('all', 0))
            o = 0
        else:
            ops.append(('result', 0))
            o -= 1
    return ops + [('all', 0), ('close', 0)]


def child(s, kinds, waits, ops, w):
    """runs the calls and reports each when it begins and when it ends"""
    os.setsid()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    r = random.Random()
    # garbage collections take time in real runs: they are where the schedules are perturbed
    gc.collect = lambda *a, **k: time.sleep(r.choice([0, 0, 0, .001, .004])) or 0

    def say(x):
        os.write(w, (json.dumps(x) + '\n').encode())
    pool = None
    try:
        say({'begin': 1})
        pool = mh.JobPool(s['workers'], task=Task)
        say({'begun': 1})
        left = 0
        for call, t in ops:
            o = dict(call=call, id=t, got=[], nones=0, unknown=0, same=True, error=False, jobs=0, alive=0)
            say({'start': o})
            try:
                res = []
                if call == 'submit':
                    if t % 2:
                        pool.task(t, kinds[t - 1], waits[t - 1])
                    else:
                        pool.custom_task(Task, t, kinds[t - 1], waits[t - 1])
                elif call == 'result':
                    if pool.number_jobs == 0:
                        continue  # nothing left to wait for: not called
                    res = [pool.result()]
                elif call == 'all':
                    res = pool.all_results()
                else:
                    pool.close()
                for x in res:
                    if x is None:
                        o['nones'] += 1
                        continue
                    ident, eq = identify(x, kinds)
                    if ident:
                        o['got'].append(ident)
                        o['same'] = o['same'] and eq
                    else:
                        o['unknown'] += 1
            except BaseException as e:
                o['error'] = True
                o['what'] = repr(e)
            o['jobs'] = pool.number_jobs
            o['alive'] = sum(1 for p in pool.workers if p.is_alive())
            say({'end': o})
        say({'done': 1})
    finally:
        os._exit(0)


def drive(s):
    kinds = kinds_of(s)
    dur = {'none': lambda: 0.0, 'short': lambda: float(rng.choice([0, .002])), 'random': lambda: float(rng.uniform(0, .02))}[s['dur']]
    waits = [dur() for _ in kinds]
    ops = program(s)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(s, kinds, waits, ops, w)
    os.close(w)
    done, pending, buf = [], None, b''
    end = time.time() + LIMIT
    finished = False
    while True:
        rest = end - time.time()
        ready = select.select([r], [], [], max(0, rest))[0] if rest > 0 else []
        if not ready:
            break
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
        while b'\n' in buf:
            line, buf = buf.split(b'\n', 1)
            m = json.loads(line.decode())
            if 'start' in m:
                pending = m['start']
            elif 'end' in m:
                done.append(dict(m['end'], hung=False))
                pending = None
            elif 'done' in m:
                finished = True
        if finished:
            break
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    os.close(r)
    if not finished:
        done.append(dict(pending or dict(call='create', id=0, got=[], nones=0, unknown=0, same=True, error=False, jobs=0, alive=0), hung=True))
    for o in done:
        o.setdefault('what', '')
    out.emit(op='pool', scen=s, workers=s['workers'], kinds=[k.split(':')[0] for k in kinds], ops=done)
    return finished


ss = scenarios(scen)
ss = [ss[k] for k in np.random.RandomState(SEED).permutation(len(ss))][shard::shards]
budget = {'quick': 35, 'thorough': 500}[TIER]
N = {'quick': 60, 'thorough': 900}[TIER]
t0, hung = time.time(), 0
for s in ss[:N]:
    hung += not drive(s)
    if hung >= 2 or time.time() - t0 > budget:
        break
out.close()
