import sys
import warnings
from drivers.vdrv import *
warnings.simplefilter('ignore')
from MTfit.plot.plot_classes import MTData
from MTfit.plot.spherical_projection import equal_area, equal_angle
from MTfit.utilities.file_io import unique_columns
from MTfit import convert as cv

scen, outp = sys.argv[1:3]
shard, shards = int(sys.argv[3]), int(sys.argv[4])
rng = seed('c19', shard)
out = Out(outp)
pi = np.pi
r2 = np.sqrt(2)
CACHED = ['T', 'N', 'P', 'E', 'u', 'v', 'tau', 'k', 'gamma', 'delta', 'kappa', 'h', 'sigma', 'strike', 'strike2', 'dip', 'dip2', 'rake', 'rake2', 'N1', 'N2',
          'clustered_N1', 'clustered_N2', 'clustered_rake1', 'clustered_rake2']
SOME = ['gamma', 'E', 'u', 'tau', 'strike1', 'rake2', 'kappa', 'N1', 'clustered_N1', 'mean_strike', 'max_probability', 'mean', 'covariance', 'T', 'sigma']


def count(n):
    return int(rng.randint(4, 10)) if n == 'few' else int(n)


def dc(st, d, r):
    n = np.array([-np.sin(st) * np.sin(d), np.cos(st) * np.sin(d), -np.cos(d)])
    s = np.array([np.cos(st) * np.cos(r) + np.sin(st) * np.cos(d) * np.sin(r), np.sin(st) * np.cos(r) - np.cos(st) * np.cos(d) * np.sin(r), -np.sin(d) * np.sin(r)])
    m = np.outer(n, s) + np.outer(s, n)
    return np.array([m[0, 0], m[1, 1], m[2, 2], r2 * m[0, 1], r2 * m[0, 2], r2 * m[1, 2]])


def tensor(kind):
    if kind == 'mixed':
        kind = ['generic', 'dc', 'special', 'integer'][rng.randint(4)]
    if kind == 'dc':
        return dc(rng.uniform(0, 2 * pi), rng.uniform(0.05, 1.5), rng.uniform(-pi, pi)) / r2
    if kind == 'special':
        m = [np.array([1., 1, 1, 0, 0, 0]), -np.array([1., 1, 1, 0, 0, 0]), np.array([2., -1, -1, 0, 0, 0]), np.array([1, 1, -2., 0, 0, 0]), np.array([1., 0, -1, 0, 0, 0]),
             np.array([0., 0, 0, 1, 0, 0]), np.array([0., 0, 0, 0, 1, 0]), dc(rng.uniform(0, 2 * pi), pi / 2, 0.), dc(rng.uniform(0, 2 * pi), pi / 4, pi / 2)][rng.randint(9)]
        return m / np.sqrt(np.sum(m * m))
    if kind == 'integer':
        m = rng.randint(-2, 3, 6).astype(float)
        return m if np.any(m) else tensor(kind)
    m = rng.normal(size=6)
    return m / np.sqrt(np.sum(m * m))


def tensors(n, kind, dup=False):
    c = [tensor(kind) for _ in range(n)]
    if dup:
        k = max(1, n // 2)
        c = [c[rng.randint(k)] for _ in range(n)]
        if rng.rand() < .4:   # runs, as in a chain
            c.sort(key=lambda x: tuple(x))
    m = np.array(c).T.reshape(6, n)
    if dup and rng.rand() < .2:
        m[:, rng.randint(n)] *= -1
    return m + 0.


def probs(kind, n):
    p = {'none': lambda: [], 'list': lambda: rng.uniform(.01, 5, n), 'ties': lambda: rng.choice([.25, .5, 1.], n), 'zeros': lambda: rng.uniform(0, 1, n) * (rng.rand(n) < .6),
         'wide': lambda: 10 ** rng.uniform(-12, 12, n), 'equal': lambda: np.ones(n) * .3}[kind]()
    p = np.array(p, dtype=float)
    if len(p) and p.max() == 0:
        p[rng.randint(n)] = .5
    return p


def per(x, n):
    """n lists of numbers from a stored parameter, samples along the last axis"""
    x = np.asarray(x, dtype=float)
    if n == 0 and x.size == 0:
        return []
    if x.ndim == 0 or x.shape[-1] != n:
        return [[float(y)] for y in x.flatten()]
    return x.reshape(-1, n).T.tolist()


def state(d):
    n = len(d)
    conv = [dict(name=k, v=per(d.__dict__[k], n)) for k in CACHED if k in d.__dict__]
    return dict(mt=np.asarray(d.MTs, dtype=float).T.tolist(), prob=np.asarray(d.probability, dtype=float).tolist(), conv=conv)


def alone(m):
    T, N, P, E = cv.MT6_TNPE(m.reshape(6, 1).copy())
    g, d = cv.E_GD(E)
    t, k = cv.E_tk(E)
    u, v = cv.tk_uv(t, k)
    one = lambda x: float(np.asarray(x, dtype=float).flatten()[0])
    return dict(E=np.asarray(E, dtype=float).flatten(), gamma=one(g), delta=one(d), tau=one(t), k=one(k), u=one(u), v=one(v))


def derive(d):
    n = len(d)
    names = dict(st1='strike1', d1='dip1', r1='rake1', st2='strike2', d2='dip2', r2='rake2', cN1='clustered_N1', cN2='clustered_N2', cr1='clustered_rake1', cr2='clustered_rake2')
    names.update({k: k for k in ('E', 'T', 'N', 'P', 'gamma', 'delta', 'tau', 'k', 'u', 'v', 'kappa', 'h', 'sigma', 'N1', 'N2')})
    keys = sorted(names)
    ev = {}
    for j in rng.permutation(len(keys)):
        x = np.asarray(getattr(d, names[keys[j]]), dtype=float)
        ev[keys[j]] = x.reshape(3, -1).T.tolist() if keys[j] in ('E', 'T', 'N', 'P', 'N1', 'N2', 'cN1', 'cN2') else x.flatten().tolist()
    ev['mt'] = np.asarray(d.MTs, dtype=float).T.tolist()
    ev['alone'] = [alone(np.asarray(d.MTs, dtype=float)[:, j]) for j in range(n)]
    return ev


def judge(d, s):
    """the statistics and derived parameters of a container"""
    if len(d):
        if not len(d.probability) or np.sum(d.probability) > 0:
            mean, err = attempt(lambda: np.asarray(d.mean, dtype=float).flatten())
            out.emit(op='mean', scen=s, err=err, was=state(d), mean=mean if mean is not None else [])
        ev, err = attempt(derive, d)
        out.emit(op='derive', scen=s, err=err, **(ev or {}))


def make(s):
    n = count(s['n'])
    m = tensors(n, s['kind'])
    p = probs(s['prob'], n)
    form = s['form']
    six = [np.asarray(cv.MT6_MT33(m[:, k]), dtype=float) for k in range(n)]

    def run():
        if form == 'array':
            return MTData(m.copy(), p)
        if form == 'list':
            return MTData(m.tolist(), p.tolist())
        if form == 'matrix':
            return MTData(np.matrix(m), np.matrix(p) if len(p) and rng.rand() < 0 else p)
        if form == 'rows':
            return MTData(m.T.copy(), p)
        if form == 'stack':
            return MTData(np.array(six), p)
        if form == 'stacklist':
            return MTData(six, p)
        if form == 'vector':
            return MTData(m[:, 0].copy(), p)
        if form == 'int':
            return MTData(m.astype(int), p)
        oc = cv.output_convert(m.copy())
        if form == 'output':
            o = dict(oc, moment_tensor_space=m.copy(), probability=p, total_number_samples=10 * n)
            if rng.rand() < .3:
                o = dict(moment_tensor_space=m.copy(), probability=p)
            return MTData(o)
        if form == 'oldoutput':
            return MTData(dict(MTSpace=m.copy(), Probability=p, NSamples=10 * n, g=oc['g'], d=oc['d']))
        return MTData(m.copy(), p, gamma=np.asarray(oc['g']), delta=np.asarray(oc['d']), strike=np.asarray(oc['S1']), dip=np.asarray(oc['D1']), rake=np.asarray(oc['R1']))
    r, err = attempt(lambda: (lambda d: (d, state(d)))(run()))
    if form in ('stack', 'stacklist'):
        # through the 3 x 3 form and back
        m = np.array([np.asarray(cv.MT33_MT6(np.matrix(a)), dtype=float).flatten() for a in six]).T
    out.emit(op='make', scen=s, err=err, mt=m.T, prob=p, got=r[1] if r else {})
    if r:
        judge(r[0], s)


def selection(o, n):
    """an index and the positions it selects, found independently of numpy where it matters"""
    k = int(rng.randint(n))
    if o == 'single':
        x = [k, np.int64(k), k - n][rng.randint(3)]
        return x, [k]
    if o == 'last':
        return -1, [n - 1]
    if o == 'slice':
        a, b = sorted([int(rng.randint(n)), int(rng.randint(n))])
        return slice(a, b + 1), list(range(a, b + 1))
    if o == 'step':
        a, st = int(rng.randint(n)), int(rng.randint(1, 4))
        return slice(a, None, st), list(range(a, n, st))
    if o == 'reverse':
        return slice(None, None, -1), list(range(n - 1, -1, -1))
    if o == 'mask':
        m = rng.rand(n) < .5
        m[k] = True
        return m, [j for j in range(n) if m[j]]
    if o == 'list':
        x = [int(j) for j in rng.permutation(n)[:rng.randint(1, n + 1)]]
        return (x if rng.rand() < .5 else np.array(x)), x
    if o == 'repeat':
        x = [int(j) for j in rng.randint(0, n, rng.randint(1, 2 * n + 1))]
        return np.array(x), x
    if o == 'all':
        return slice(None), list(range(n))
    return slice(k, k), []


def weightless(d, a):
    """statistics which need probabilities that are not all zero"""
    if a == 'max_probability':
        return not len(d.probability)
    return a in ('mean', 'covariance', 'mean_strike') and len(d.probability) > 0 and np.sum(d.probability) == 0


def step(d, o, s):
    """one operation on the container; the container the history goes on with"""
    n = len(d)
    was = state(d)
    if o == 'touch':
        for j in rng.permutation(len(SOME)):
            if weightless(d, SOME[j]):
                continue
            _, err = attempt(getattr, d, SOME[j])
            if err:
                out.emit(op='touch ' + SOME[j], scen=s, err=err)
        return d
    if o in ('put', 'putslice', 'putmask'):
        idx, sel = selection({'put': 'single', 'putslice': 'slice', 'putmask': 'mask'}[o], n)
        v = tensors(len(sel), 'generic')
        _, err = attempt(d.__setitem__, (slice(None), idx), v[:, 0] if o == 'put' else v)
        out.emit(op='put', scen=s, err=err, was=was, sel=[j + 1 for j in sel], value=v.T, got=state(d))
        return d
    if o == 'unique':
        r, err = attempt(d.get_unique_McMC)
        u, uerr = attempt(unique_columns, d.MTs, True, True)
        out.emit(op='unique', scen=s, err=err or uerr, was=was, got=state(r) if r is not None else {}, columns=np.asarray(u[0]).T if u else [], counts=u[1] if u else [],
                 at=[int(j) + 1 for j in u[2]] if u else [])
        return r if r is not None else d
    if o in ('max', 'maxsingle'):
        single = o == 'maxsingle'
        r, err = attempt(lambda: d.get_max_probability(single) if single or rng.rand() < .5 else d.max_probability)
        out.emit(op='max', scen=s, err=err, was=was, sel=[], single=single, got=state(r) if r is not None else {})
        return r if r is not None else d
    idx, sel = selection(o, n)
    r, err = attempt(lambda: d[:, idx])
    g, err2 = attempt(state, r) if r is not None else (None, '')
    out.emit(op='select', scen=s, err=err or err2, was=was, sel=[j + 1 for j in sel], got=g or {}, after=np.asarray(d.MTs, dtype=float).T)
    return r if g else d


def hist(s):
    n = count(s['n'])
    d = MTData(tensors(n, 'mixed', s['dup']), probs(s['prob'], n))
    want = {'none': [], 'axes': ['T'], 'some': [SOME[j] for j in rng.permutation(len(SOME))[:3]], 'all': SOME}[s['derived']]
    for a in want:
        if not weightless(d, a):
            _, err = attempt(getattr, d, a)
            if err:
                out.emit(op='touch ' + a, scen=s, err=err)
    for o in (s['first'], s['second'], s['third']):
        if o == 'none' or not len(d):
            continue
        if o.startswith('put') and len(d.probability):
            continue
        if o.startswith('max') and not len(d.probability):
            continue
        e = d
        d = step(d, o, s)
        if rng.rand() < .15 and len(e):
            judge(e, s)
    judge(d, s)


def points(kind, k):
    v = rng.normal(size=(3, k))
    if kind == 'poles':
        v = np.array([[0, 0, 1.], [0, 0, -1.], [1.2246467991473532e-16, 0, -1], [0, 1.2246467991473532e-16, 1]]).T[:, rng.permutation(4)]
    elif kind == 'axes':
        v = np.concatenate([np.eye(3), -np.eye(3)], 1)[:, rng.permutation(6)]
    elif kind == 'equator':
        v[2] = rng.choice([0., -0.], k)
    elif kind == 'nearpole':
        v[:2] *= 10 ** rng.uniform(-12, -3, k)
    elif kind == 'nearequator':
        v[2] *= 10 ** rng.uniform(-12, -3, k)
    elif kind == 'mixed':
        v = np.concatenate([v, np.array([[0, 0, 1.], [0, 0, -1.], [1, 0, 0], [.6, 0, -.8], [1.2246467991473532e-16, 0, -1.]]).T], 1)
        v = v[:, rng.permutation(v.shape[1])]
    return v / np.sqrt(np.sum(v * v, axis=0))


def proj(s):
    f = dict(area=equal_area, angle=equal_angle)[s['fn']]
    v = points(s['points'], 8)
    if s['form'] == 'grid':
        v = v[:, :v.shape[1] // 2 * 2]
    ax = {'none': None, 'down': [0., 0., 1.], 'up': [0., 0., -1.], 'north': [1., 0., 0.], 'random': unit(rng.normal(size=3)).tolist(), 'nearup': unit(np.array([1e-5, -2e-5, -1.])).tolist(),
          'long': (rng.normal(size=3) * 40).tolist()}[s['axis']]
    if ax is not None and rng.rand() < .4:
        ax = np.array(ax)
    form = {'array': lambda x: x.copy(), 'list': lambda x: x.tolist(), 'grid': lambda x: x.reshape(2, -1).copy(), 'matrix': np.matrix, 'strided': lambda x: np.repeat(x, 2)[::2]}.get(s['form'])
    opts = dict(lower=s['lower'], full_sphere=s['full'], back_project=s['back'])
    if ax is not None:
        opts['projection_axis'] = ax

    def run():
        if form is None:
            one = (lambda x: np.float64(x)) if s['form'] == 'npscalar' else float
            r = [f(one(v[0, k]), one(v[1, k]), one(v[2, k]), **opts) for k in range(v.shape[1])]
            return [float(np.asarray(x[0]).flatten()[0]) for x in r], [float(np.asarray(x[1]).flatten()[0]) for x in r]
        X, Y = f(form(v[0]), form(v[1]), form(v[2]), **opts)
        return np.asarray(X, dtype=float).flatten().tolist(), np.asarray(Y, dtype=float).flatten().tolist()
    r, err = attempt(run)
    X, Y = r or ([], [])
    out.emit(op='proj', scen=s, err=err, fn=s['fn'], lower=s['lower'], full=s['full'], back=s['back'], axis=[] if ax is None else ax, v=v.T, X=X, Y=Y)


ss = scenarios(scen)
ss = [ss[k] for k in np.random.RandomState(SEED).permutation(len(ss))][shard::shards]
N = {'quick': dict(make=60, hist=350, proj=500), 'thorough': dict(make=300, hist=3500, proj=1000)}[TIER]
F = dict(make=make, hist=hist, proj=proj)
for op in F:
    mine = [s for s in ss if s['op'] == op]
    for j in rng.permutation(len(mine))[:N[op]]:
        F[op](mine[j])
out.close()
