import itertools
import sys
from drivers.vdrv import *
from MTfit import convert as cv

scen, outp = sys.argv[1:3]
rng = seed('c14')
out = Out(outp)
pi = np.pi
r2 = np.sqrt(2)


def pick(*a):
    return a[rng.randint(len(a))]


def sixv(m):
    return np.array([m[0, 0], m[1, 1], m[2, 2], r2 * m[0, 1], r2 * m[0, 2], r2 * m[1, 2]])


SPEC = {'generic': lambda: rng.normal(size=3), 'repeatedtop': lambda: np.array([1, 1, rng.uniform(-3, 1)]), 'repeatedbottom': lambda: np.array([rng.uniform(-1, 3), -1, -1]),
        'isoplus': lambda: np.ones(3), 'isominus': lambda: -np.ones(3), 'dc': lambda: np.array([1., 0, -1]), 'clvdplus': lambda: np.array([2., -1, -1]),
        'clvdminus': lambda: np.array([1., 1, -2]), 'onezero': lambda: np.array([rng.uniform(-1, 1), 0, rng.uniform(-1, 1)]),
        'twozero': lambda: np.array([pick(-1, 1) * rng.uniform(0.1, 1), 0, 0]), 'neardegenerate': lambda: np.array([1, 1 - 10 ** rng.uniform(-16, -6), rng.uniform(-2, 0)]) * pick(1, -1),
        'neariso': lambda: pick(1, -1) * (1 + rng.normal(size=3) * 10 ** rng.uniform(-16, -4)), 'iso+dc': lambda: rng.uniform(-1, 1) + np.array([1., 0, -1])}
SCALE = {'unit': lambda: 1.0, 'tiny': lambda: 10 ** rng.uniform(-12, -6), 'huge': lambda: 10 ** rng.uniform(6, 18), 'random': lambda: 10 ** rng.uniform(-2, 2)}


def axes(kind):
    if kind == 'aligned':
        return np.eye(3)
    if kind == 'permuted':
        return np.eye(3)[rng.permutation(3)]
    if kind == 'rotatedz':
        t = rng.uniform(0, 2 * pi)
        return np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1.]])
    return np.linalg.qr(rng.normal(size=(3, 3)))[0]


def mt33(E, Q):
    m = Q.dot(np.diag(E)).dot(Q.T)
    return (m + m.T) / 2


def enc(x):
    x = np.asarray(x)
    if np.iscomplexobj(x):
        return ['complex'] if np.any(x.imag != 0) else x.real.tolist()
    return x.tolist()


def eig(s):
    E = SPEC[s['spectrum']]() * SCALE[s['scale']]()
    ms = [mt33(E, axes(s['axes']))]
    if s['form'] == 'mt6batch' or s['form'] == 'mt6matrix':
        for _ in range(pick(1, 2, 5, 6)):
            ms.insert(rng.randint(len(ms) + 1), mt33(rng.normal(size=3), axes('random')))
    six = np.array([sixv(m) for m in ms]).T
    if s['form'].startswith('mt33'):
        r, err = attempt(cv.MT33_TNPE, np.matrix(ms[0]) if s['form'] == 'mt33' else ms[0].copy())
    elif s['form'] == 'mt6single':
        r, err = attempt(cv.MT6_TNPE, six.copy())
    else:
        r, err = attempt(cv.MT6_TNPE, np.matrix(six) if s['form'] == 'mt6matrix' else six.copy())
    ev = {}
    if not err:
        for nm, x in zip('TNPE', r):
            x = np.asarray(x)
            ev[nm] = enc(x.reshape(3, -1).T)
    out.emit(op='eig', site=s['form'], spectrum=s['spectrum'], mt=six.T, err=err, **ev)


def flat(x, n):
    x = np.asarray(x, dtype=float).flatten()
    return x.tolist() if len(x) == n else (x.tolist() * n if len(x) == 1 else ['badsize'])


def types(s):
    E0 = SPEC[s['spectrum']]()
    sc = SCALE[s['scale']]()
    order = list(itertools.permutations(range(3)))[s['order'] - 1]
    Es = [E0]
    if s['form'] == 'batch':
        for _ in range(pick(1, 3, 4)):
            Es.insert(rng.randint(len(Es) + 1), SPEC[pick(*sorted(SPEC))]())
    at = [k for k, x in enumerate(Es) if x is E0][0]
    base = np.array([np.sort(x)[::-1] for x in Es]).T.copy()          # 3 x n, decreasing
    arr = (base * sc)[list(order)].copy()
    n = arr.shape[1]

    def call(a):
        if s['form'] == 'single':
            return a[:, 0].copy()
        if s['form'] == 'list':
            return a[:, 0].tolist()
        return a.copy()

    def both(a):
        x = call(a)
        tk = cv.E_tk(x)
        g, d = cv.E_GD(np.array(x) if s['form'] == 'list' else x)
        uv = cv.tk_uv(*tk)
        return tk, (g, d), uv, cv.E_uv(x)

    def run():
        tk, gd, uv, uv2 = both(arr)
        _, gd0, uv0, _ = both(base)
        ev = dict(tau=flat(tk[0], n), kk=flat(tk[1], n), g=flat(gd[0], n), d=flat(gd[1], n), u=flat(uv[0], n), v=flat(uv[1], n), uv2=[flat(uv2[0], n), flat(uv2[1], n)],
                  g0=flat(gd0[0], n), d0=flat(gd0[1], n), u0=flat(uv0[0], n), v0=flat(uv0[1], n))
        ev['GE'] = np.asarray(cv.GD_E(np.array(ev['g']), np.array(ev['d']))).T.tolist()
        one = [cv.E_GD(arr[:, k].copy()) for k in range(n)]
        ev['g1'], ev['d1'] = [flat(o[0], 1)[0] for o in one], [flat(o[1], 1)[0] for o in one]
        m = [mt33(arr[:, k], axes('random')) for k in range(n)]
        gd33 = [cv.MT33_GD(np.matrix(x)) for x in m]
        ev['g33'], ev['d33'] = [flat(o[0], 1)[0] for o in gd33], [flat(o[1], 1)[0] for o in gd33]
        oc = cv.output_convert(np.array([sixv(x) / np.linalg.norm(sixv(x)) for x in m]).T.copy())
        for k in 'gduv':
            ev['o' + k] = flat(oc[k], n)
        return ev
    ev, err = attempt(run)
    out.emit(op='type', site=s['form'], spectrum=s['spectrum'], Es=arr.T, at=at + 1, err=err, **(ev or {}))


A = {'zero': lambda: 0.0, 'tiny': lambda: 10 ** rng.uniform(-8, -3), 'random': lambda: rng.uniform(0, pi / 2), 'near': lambda: pi / 2 - 10 ** rng.uniform(-6, -2), 'half': lambda: pi / 2}
NU = {'nearminus1': lambda: -1 + 10 ** rng.uniform(-6, -2), 'negative': lambda: rng.uniform(-1, 0), 'zero': lambda: 0.0, 'quarter': lambda: 0.25, 'positive': lambda: rng.uniform(0, 0.5),
      'nearhalf': lambda: 0.5 - 10 ** rng.uniform(-9, -2)}


def cdc(s):
    n = 1 if s['form'] == 'scalar' else 3
    a = np.array([A[s['a']]()] + [rng.uniform(0, pi / 2) for _ in range(n - 1)])
    nu = np.array([NU[s['nu']]()] + [rng.uniform(-1, 0.5) for _ in range(n - 1)])

    def run():
        g, d = cv.basic_cdc_GD(*((float(a[0]), float(nu[0])) if n == 1 else (a.copy(), nu.copy())))
        ab, nub = cv.GD_basic_cdc(g, d)
        return dict(g=flat(g, n), d=flat(d, n), ab=flat(ab, n), nub=flat(nub, n))
    ev, err = attempt(run)
    out.emit(op='cdc', site=s['form'], a=a, nu=nu, err=err, **(ev or {}))


UP = [(i, j) for i in range(6) for j in range(i, 6)]
SW = [0, 1, 2, 5, 4, 3]


def kelvin(c):
    K = np.zeros((6, 6))
    for q, (i, j) in enumerate(UP):
        K[i, j] = K[j, i] = c[q] * (2 if i > 2 else r2 if j > 2 else 1)
    return K


def unkelvin(K):
    return [float(K[i, j] / (2 if i > 2 else r2 if j > 2 else 1)) for i, j in UP]


def isoc(l, m):
    c = [0.0] * 21
    for q, (i, j) in enumerate(UP):
        c[q] = (l + 2 * m) if i == j and i < 3 else m if i == j else l if j < 3 else 0.0
    return c


def stiffness(kind, k):
    l, m = rng.uniform(0.1, 3), rng.uniform(0.3, 2)
    if kind == 'isotropic':
        return isoc(l, m)
    if kind == 'nearisotropic':
        K = kelvin(isoc(l, m))
        P = rng.normal(size=(6, 6)) * 0.02
        return unkelvin(K + P.dot(P.T) + 0.01 * (P + P.T))
    if kind == 'oneoff':
        c = isoc(l, m)
        c[k - 1] += pick(-1, 1) * m * 10 ** rng.uniform(-4, -1)
        return c
    if kind == 'vti':
        c = isoc(l, m)
        c[11] *= rng.uniform(0.6, 0.9)
        c[15] = c[18] = c[15] * rng.uniform(0.6, 0.9)
        return c
    if kind == 'stiffbulk':
        return isoc(rng.uniform(50, 1000), m)
    B = rng.normal(size=(6, 6))
    return unkelvin(B.dot(B.T) + rng.uniform(0.1, 2) * np.eye(6))


def stiff(s):
    c = stiffness(s['c'], s['k'])
    K = kelvin(c)
    if min(np.linalg.eigvalsh(K)) <= 0:
        return
    t = s['t']
    mt = rng.normal(size=6)
    if t == 'dc':
        mt = sixv(mt33([1, 0, -1], axes('random')))
    elif t == 'iso':
        mt = pick(-1, 1) * np.array([1., 1, 1, 0, 0, 0])
    elif t == 'unitvector':
        mt = np.eye(6)[rng.randint(6)]
    d0 = rng.normal(size=6)
    Cd = (K.dot(d0[SW]))[SW]
    l, m = float(rng.uniform(-0.5, 3)), float(rng.uniform(0.3, 2))

    def shape(x):
        return x.copy() if s['form'] == 'flat' else x.reshape(6, 1).copy()

    def run():
        ev = dict(pot=np.asarray(cv.MT6c_D6(shape(mt), c)).flatten(), pot2=np.asarray(cv.MT6c_D6(shape(Cd), c)).flatten(), kelvin=np.asarray(cv.c21_cvoigt(c)),
                  cnorm=float(cv.c_norm(c)), avg=list(cv.isotropic_c(c=c)), iso=list(cv.isotropic_c(l, m)), isiso=bool(cv.is_isotropic_c(c)),
                  isiso2=bool(cv.is_isotropic_c(list(cv.isotropic_c(l, m)))))
        return ev
    ev, err = attempt(run)
    out.emit(op='stiff', site=s['form'], c=c, mt=mt, d0=d0, l=l, m=m, cond=float(np.linalg.cond(K)), expectiso=s['c'] in ('isotropic', 'stiffbulk'), err=err, **(ev or {}))


for s in scenarios(scen):
    for _ in range(1 if TIER == 'quick' else 6):
        {'eig': eig, 'type': types, 'cdc': cdc, 'stiff': stiff}[s['op']](s)
out.close()
