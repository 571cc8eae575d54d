import sys
from drivers.vdrv import *
from MTfit.probability import LnPDF, ln_marginalise, ln_normalise

scen, outp = sys.argv[1:3]
rng = seed('c04')
out = Out(outp)


def values(mag, shape):
    u = rng.normal(size=shape)
    return {'order1': -3 + 2 * u, 'neg1e3': -1200 + 20 * u, 'neg1e5': -9e4 + 3 * u, 'pos1e3': 800 + 20 * u, 'pos1e4': 9.9e3 + 5 * u,
            'wide': rng.uniform(-1e5, 1e4, size=shape), 'straddle': 600 * u, 'equal': np.full(shape, -745.3), 'zeros': np.zeros(shape)}[mag]


def infs(x, kind):
    x = np.atleast_2d(x)
    n = x.size
    f = x.reshape(-1)
    if kind == 'one':
        f[rng.randint(n)] = -np.inf
    elif kind == 'half':
        f[rng.uniform(size=n) < 0.5] = -np.inf
    elif kind == 'column':
        x[:, rng.randint(x.shape[1])] = -np.inf
    elif kind == 'row':
        x[rng.randint(x.shape[0]), :] = -np.inf
    elif kind == 'allbutone':
        k = rng.randint(n)
        v = f[k]
        f[:] = -np.inf
        f[k] = v
    elif kind == 'all':
        f[:] = -np.inf
    return x


def box(x, kind, dim, dV):
    x = x[0] if dim == 1 else x
    if kind == 'array':
        return x.copy()
    if kind == 'matrix':
        return np.matrix(x)
    if kind == 'fortran':
        return np.asfortranarray(x)
    if kind == 'view':
        big = np.full(tuple(2 * d for d in x.shape), np.nan)
        big[tuple(slice(None, None, 2) for _ in x.shape)] = x
        return big[tuple(slice(None, None, 2) for _ in x.shape)]
    return LnPDF(x.copy(), dV=dV)


def raw(b):
    return np.array(b._ln_pdf if isinstance(b, LnPDF) else b, dtype=float)


def call(s, x, dim, dV):
    b = box(x, s['box'], dim, dV)
    before = raw(b)
    if s['op'] == 'marg':
        r, err = attempt(lambda: b.marginalise(axis=s['axis']) if s['box'] == 'method' else ln_marginalise(b, axis=s['axis'], dV=dV))
    elif s['box'] == 'output':
        r, err = attempt(lambda: b.output(normalise=True))
    else:
        r, err = attempt(lambda: b.normalise() if s['box'] == 'method' else ln_normalise(b, dV))
    same = bool(np.array_equal(before, raw(b), equal_nan=True))
    return (raw(r).reshape(-1) if r is not None else np.array([])), err, same


for s in scenarios(scen):
    for rep in range(1 if TIER == 'quick' else 4):
        dim = len(s['shape'])
        x = infs(values(s['mag'], tuple(s['shape'])), s['inf'])
        dV = float(s['dV'])
        c = float(rng.choice([1.0, -700.0, 650.0, 3e3, -2e4]))
        y, err, same = call(s, x, dim, dV)
        ys, err2, same2 = call(s, x + c, dim, dV)
        out.emit(op=s['op'], box=s['box'], dim=dim, axis=s['axis'], vol=dV, x=x, y=y, ys=ys, c=c, err=err + err2, unchanged=same and same2)
out.close()
