import sys
from drivers.vdrv import *
from MTfit import convert as cv

scen, outp = sys.argv[1:3]
rng = seed('c12')
out = Out(outp)
pi = np.pi
r2 = np.sqrt(2)


def tens(E, Q):
    m = Q.dot(np.diag(E)).dot(Q.T)
    return np.array([m[0, 0], m[1, 1], m[2, 2], r2 * m[0, 1], r2 * m[0, 2], r2 * m[1, 2]])


def rot():
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    return q


def dc(st, d, r):
    n = np.array([-np.sin(st) * np.sin(d), np.cos(st) * np.sin(d), -np.cos(d)])
    s = np.array([np.cos(st) * np.cos(r) + np.sin(st) * np.cos(d) * np.sin(r), np.sin(st) * np.cos(r) - np.cos(st) * np.cos(d) * np.sin(r), -np.sin(d) * np.sin(r)])
    m = np.outer(n, s) + np.outer(s, n)
    return np.array([m[0, 0], m[1, 1], m[2, 2], r2 * m[0, 1], r2 * m[0, 2], r2 * m[1, 2]])


def plane(E, st, d, r):
    """a tensor with eigenvalues E whose nodal-plane geometry is (st, d, r)"""
    n = np.array([-np.sin(st) * np.sin(d), np.cos(st) * np.sin(d), -np.cos(d)])
    s = np.array([np.cos(st) * np.cos(r) + np.sin(st) * np.cos(d) * np.sin(r), np.sin(st) * np.cos(r) - np.cos(st) * np.cos(d) * np.sin(r), -np.sin(d) * np.sin(r)])
    t, p = (n + s) / r2, (n - s) / r2
    return tens(E, np.array([t, np.cross(p, t), p]).T)


def ra():
    return rng.uniform(0, 2 * pi), np.arccos(rng.uniform(0, 1)), rng.uniform(-pi, pi)


def pick(*a):
    return a[rng.randint(len(a))]


KIND = {
    'generic': lambda: rng.normal(size=6),
    'dc': lambda: dc(*ra()),
    'dcvertical': lambda: dc(pick(0., pi / 2, rng.uniform(0, 2 * pi)), pi / 2, rng.uniform(-pi, pi)),
    'dchorizontal': lambda: dc(pick(0., pi / 2, rng.uniform(0, 2 * pi)), 0., rng.uniform(-pi, pi)),
    'dcstrikeslip': lambda: dc(pick(0., pi / 4, pi / 2, rng.uniform(0, 2 * pi)), pick(pi / 2, pi / 3), pick(0., pi, -pi)),
    'dcdipslip': lambda: dc(pick(0., pi / 4, pi / 2, rng.uniform(0, 2 * pi)), pick(pi / 2, pi / 3, pi / 4, 0.), pick(pi / 2, -pi / 2)),
    'dc45': lambda: dc(rng.uniform(0, 2 * pi), pi / 4, pick(pi / 2, -pi / 2, rng.uniform(-pi, pi))),
    'clvdplus': lambda: tens([2, -1, -1], pick(rot(), np.eye(3), np.eye(3)[[2, 0, 1]])),
    'clvdminus': lambda: tens([1, 1, -2], pick(rot(), np.eye(3), np.eye(3)[[2, 0, 1]])),
    'isoplus': lambda: np.array([1., 1, 1, 0, 0, 0]),
    'isominus': lambda: -np.array([1., 1, 1, 0, 0, 0]),
    'neariso': lambda: np.array([1., 1, 1, 0, 0, 0]) + rng.normal(size=6) * 10 ** rng.uniform(-16, -4),
    'nearisominus': lambda: -np.array([1., 1, 1, 0, 0, 0]) + rng.normal(size=6) * 10 ** rng.uniform(-16, -4),
    'repeatedtop': lambda: tens([1, 1, rng.uniform(-2, 1)], rot()),
    'repeatedbottom': lambda: tens([rng.uniform(-1, 2), -1, -1], rot()),
    'zeromiddle': lambda: tens([rng.uniform(0, 1), 0, -rng.uniform(0, 1)], rot()),
    'axisaligned': lambda: tens(rng.normal(size=3), np.eye(3)[rng.permutation(3)]),
    'vertical': lambda: plane(np.sort(rng.normal(size=3))[::-1], rng.uniform(0, 2 * pi), pi / 2, pick(0., pi / 2, rng.uniform(-pi, pi))),
    'horizontal': lambda: plane(np.sort(rng.normal(size=3))[::-1], rng.uniform(0, 2 * pi), 0., rng.uniform(-pi, pi)),
    'tinyoffset': lambda: dc(rng.uniform(0, 2 * pi), pick(0., pi / 2) + 10 ** rng.uniform(-14, -5), pick(0., pi / 2, -pi / 2, pi) + 10 ** rng.uniform(-14, -5)),
    'integers': lambda: (rng.randint(-2, 3, 6) + np.array([0, 0, 0, 0, 0, .0])) if rng.rand() < 2 else None,
}


def tensor(kind):
    while True:
        m = KIND[kind]()
        n = np.sqrt(np.sum(m * m))
        if n > 0:
            return m / n


def five(t):
    return [np.atleast_1d(np.squeeze(np.asarray(x, dtype=float))).tolist() for x in t]


def rows(m):
    return np.asarray(m, dtype=float).reshape(6, -1).T.tolist()


def derive_mt(mts, form):
    n = mts.shape[1]
    x = {'array1d': lambda: mts[:, 0].copy(), 'array61': lambda: mts.copy(), 'matrix61': lambda: np.matrix(mts), 'batch': lambda: mts.copy(),
         'batchmatrix': lambda: np.matrix(mts), 'batchstrided': lambda: np.repeat(mts, 2, 1)[:, ::2]}[form]()
    tape = cv.MT6_Tape(x)
    ev = dict(tape=five(tape))
    ev['rebuilt'] = rows(cv.Tape_MT6(*[np.asarray(t).flatten() for t in tape]))
    oc = cv.output_convert(x if x.ndim == 2 else mts)
    ev['oc'] = five([oc[k] for k in 'gdkhs'])
    ev['m33'], ev['back6'] = [], []
    for k in range(n):
        col = x if x.ndim == 1 else x[:, k]
        m = cv.MT6_MT33(col)
        ev['m33'].append(np.asarray(m, dtype=float).tolist())
        ev['back6'].append(np.asarray(cv.MT33_MT6(m), dtype=float).flatten().tolist())
    return ev


def derive_par(args):
    mts = cv.Tape_MT6(*args)
    ev = dict(mts=rows(mts), m33=[], T=[], N=[], P=[], E=[])
    cols = np.array([np.atleast_1d(np.asarray(a, dtype=float)) for a in args])
    for k in range(cols.shape[1]):
        p = [float(v) for v in cols[:, k]]
        ev['m33'].append(np.asarray(cv.Tape_MT33(*p), dtype=float).tolist())
        T, N, P, E = cv.Tape_TNPE(*p)
        for nm, v in zip('TNPE', (T, N, P, E)):
            ev[nm].append(np.asarray(v, dtype=float).flatten().tolist())
    ev['back'] = five(cv.MT6_Tape(np.asarray(mts)))
    return ev


G = {'min': lambda: -pi / 6, 'zero': lambda: 0., 'max': lambda: pi / 6, 'random': lambda: rng.uniform(-pi / 6, pi / 6), 'tiny': lambda: pick(-1, 1) * 10 ** rng.uniform(-15, -6)}
D = {'min': lambda: -pi / 2, 'nearmin': lambda: pick(-1, 1) * (pi / 2 - 10 ** rng.uniform(-10, -3)), 'zero': lambda: 0., 'random': lambda: rng.uniform(-pi / 2, pi / 2), 'max': lambda: pi / 2}
K = {'zero': lambda: 0., 'quarter': lambda: pick(pi / 2, pi, 1.5 * pi), 'random': lambda: rng.uniform(0, 2 * pi), 'below2pi': lambda: 2 * pi - 10 ** rng.uniform(-12, -3)}
H = {'zero': lambda: 0., 'tiny': lambda: 10 ** rng.uniform(-15, -4), 'random': lambda: rng.uniform(0, 1), 'nearone': lambda: 1 - 10 ** rng.uniform(-15, -4), 'one': lambda: 1.}
S = {'min': lambda: -pi / 2, 'nearmin': lambda: pick(-1, 1) * (pi / 2 - 10 ** rng.uniform(-12, -4)), 'zero': lambda: 0., 'random': lambda: rng.uniform(-pi / 2, pi / 2), 'max': lambda: pi / 2}


def randpar():
    return [G['random'](), D['random'](), K['random'](), H['random'](), S['random']()]


for s in scenarios(scen):
    if s['op'] == 'mt':
        cols, at = [tensor(s['kind'])], 0
        if s['form'].startswith('batch'):
            for _ in range(pick(1, 2, 5, 6)):
                p = rng.randint(len(cols) + 1)
                cols.insert(p, tensor('generic'))
                at += p <= at
        mts = np.array(cols).T.copy()
        ev, err = attempt(derive_mt, mts, s['form'])
        out.emit(op='mt', site=s['form'], kind=s['kind'], mt=mts.T, at=at + 1, dc=s['kind'].startswith('dc'), err=err, **(ev or {}))
    else:
        for _ in range(1 if TIER == 'quick' else 4):
            if s['op'] == 'par':
                rows_ = [[G[s['g']](), D[s['d']](), K[s['k']](), H[s['h']](), S[s['s']]()]]
                form = 'array1'
            else:
                form = s['form']
                rows_ = [randpar() for _ in range({'batch': 4, 'batchstrided': 5, 'batch6': 6, 'batch3': 3, 'list': 2}.get(form, 1))]
            a = np.array(rows_).T.copy()
            args = {'scalar': lambda: [float(v) for v in a[:, 0]], 'list': lambda: a.tolist(),
                    'batchstrided': lambda: [np.repeat(v, 2)[::2] for v in a]}.get(form, lambda: [v.copy() for v in a])()
            ev, err = attempt(derive_par, args)
            out.emit(op='par', site=form, par=a, err=err, **(ev or {}))
out.close()
