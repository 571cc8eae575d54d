"""Routines with a compiled form which no other driver calls directly, and whole searches with c_generate."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

from drivers.vdrv import *
from MTfit import convert as cv
from MTfit import probability as pr
from MTfit.algorithms import markov_chain_monte_carlo as mcmc
from MTfit.inversion import Inversion
from MTfit.probability import probability as prob

scen, outp = sys.argv[1:3]
part, parts = int(sys.argv[3]), int(sys.argv[4])
out = Out(outp)
TMP = tempfile.mkdtemp(prefix='c20', dir=os.path.dirname(os.path.abspath(outp)))
os.chdir(TMP)


def arr(x):
    """anything numeric -> list of flat lists"""
    if isinstance(x, (tuple, list)):
        return [r for y in x for r in arr(y)]
    x = getattr(x, '_ln_pdf', x)
    x = np.asarray(x)
    return [['unencodable']] if x.dtype == object else [x.astype(float).flatten().tolist(), list(x.shape)] if x.ndim else [[float(x)]]


def layout(x, form):
    if form == 'fortran':
        return np.asfortranarray(x)
    if form == 'strided':
        big = np.full(tuple(2 * d for d in x.shape), np.nan)
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    return x.copy()


def lnpdf(rng, mag, n):
    u = rng.normal(size=n)
    x = {'order1': -3 + 2 * u, 'neg': -1200 + 20 * u, 'pos': 800 + 20 * u, 'wide': rng.uniform(-1e4, 100, n), 'equal': np.full(n, -7.5)}[mag]
    return x


def relative(s, rng):
    S, K, M = s['S'], s['K'], s['M']
    a1, a2 = rng.normal(size=(S, K, 6)), rng.normal(size=(S, K, 6))
    m1, m2 = unit(rng.normal(size=(6, M))), unit(rng.normal(size=(6, M)))
    if s['zero'] == 'station':
        a1[rng.randint(S)] = 0.
    elif s['zero'] == 'tensor':
        m1[:, rng.randint(M)] = 0.
    x1 = np.abs(rng.normal(size=S)) * 10 ** rng.uniform(-4, 4)
    x2 = x1 * np.exp(rng.normal(size=S) * .5)
    p1, p2 = rng.uniform(.02, .6, S), rng.uniform(.02, .6, S)
    args = [x1, x2, layout(m1, s['form']), layout(m2, s['form']), a1, a2, p1, p2]
    return (lambda: arr(prob.relative_amplitude_ratio_ln_pdf(*args))), args


def dkl(s, rng):
    n = {'one': 1, 'two': 2, 'many': 40}[s['n']]
    p, q = lnpdf(rng, s['mag'], n), lnpdf(rng, s['mag'], n)
    if s['inf'] == 'p':
        p[rng.randint(n)] = -np.inf
    elif s['inf'] == 'q':  # impossible under q: of no weight in p, or of some
        k = rng.randint(n)
        q[k] = -np.inf
        if rng.rand() < .5:
            p[k] = p.max() - 900
    elif s['inf'] == 'both':
        k = rng.randint(n)
        p[k] = q[k] = -np.inf
    dV = float(s['dV'])
    if s['op'] == 'dkl':
        return (lambda: arr(prob.dkl(p.copy(), q.copy(), dV))), [p, q, dV]
    if s['op'] == 'uniform':
        V = n * dV * float(rng.choice([1., 3.]))
        return (lambda: arr(prob.dkl_estimate(p.copy(), V, n * 2))), [p, V]
    return (lambda: arr(pr.LnPDF(p.reshape(1, -1).copy(), dV=dV).exp())), [p, dV]


def product(s, rng):
    """many stations and location samples at once, through the accumulating forms"""
    S, K, M = s['S'], s['K'], s['M']
    a = rng.normal(size=(S, K, 6))
    mt = unit(rng.normal(size=(6, M)))
    w = {'none': 0.0, 'scalar': 0.2, 'each': rng.uniform(0, 1, S)}[s['wrong']]
    if s['op'] == 'polarity':
        sig = rng.uniform(.05, .6, S)
        if s['hard']:
            sig[rng.randint(S)] = 0.
        args = [a, layout(mt, s['form']), sig, w]
        return (lambda: arr(prob.polarity_ln_pdf(*args))), args
    p = rng.uniform(0, 1, S)
    if s['hard']:
        p[rng.randint(S)] = 0.
        p[rng.randint(S)] = 1.
    args = [a, layout(mt, s['form']), p, 1 - p, w]
    return (lambda: arr(prob.polarity_probability_ln_pdf(*args))), args


def sample(s, rng):
    """the tensor of a state of the chain"""
    dc = s['state'] == 'dc'
    x = dict(gamma=0. if dc else rng.uniform(-np.pi / 6, np.pi / 6), delta=0. if dc else rng.uniform(-np.pi / 2, np.pi / 2), kappa=rng.uniform(0, 2 * np.pi),
             h=rng.uniform(0, 1), sigma=rng.uniform(-np.pi / 2, np.pi / 2))
    if s['state'] == 'edge':
        for k, v in (('gamma', [-np.pi / 6, np.pi / 6, 0.]), ('delta', [-np.pi / 2, np.pi / 2, 0.]), ('kappa', [0., 2 * np.pi]), ('h', [0., 1.]), ('sigma', [-np.pi / 2, np.pi / 2, 0.])):
            x[k] = float(v[rng.randint(len(v))])
    a = mcmc.IterativeMetropolisHastingsGaussianTape(learning_length=5, chain_length=5, acceptance_rate_window=5)
    return (lambda: [np.asarray(a.convert_sample(dict(x)), dtype=float).flatten().tolist()]), [x[k] for k in sorted(x)]


EDGES = np.round(np.linspace(-0.9, 0.9, 13), 3)
LEVELS = [-20., -10., -6., -4., -3., -2., -1.5, -1., -.5, -.2]


def front(s, rng):
    n = 7
    az, to = rng.uniform(0, 360, n), rng.uniform(10, 170, n)
    base = unit(rng.normal(size=6))
    g = np.array([np.cos(np.radians(az)) * np.sin(np.radians(to)), np.sin(np.radians(az)) * np.sin(np.radians(to)), np.cos(np.radians(to))])
    c = np.array([g[0] ** 2, g[1] ** 2, g[2] ** 2, 2 ** .5 * g[0] * g[1], 2 ** .5 * g[0] * g[2], 2 ** .5 * g[1] * g[2]])
    u = base.dot(c)
    st = {'Name': ['S%d' % k for k in range(n)], 'Azimuth': np.matrix(az).T, 'TakeOffAngle': np.matrix(to).T}
    if s['data'] == 'prob':
        data = {'UID': 'e', 'PPolarityProbability': {'Stations': st, 'Measured': np.matrix([[.9, .1] if x > 0 else [.2, .8] for x in u]), 'Error': np.matrix(np.zeros((n, 1)))}}
    elif s['data'] == 'hard':
        data = {'UID': 'e', 'PPolarity': {'Stations': {k: v[:3] for k, v in st.items()}, 'Measured': np.matrix(np.sign(u[:3])).T, 'Error': np.matrix(np.zeros((3, 1)))}}
    else:
        data = {'UID': 'e', 'PPolarity': {'Stations': st, 'Measured': np.matrix(np.sign(u)).T, 'Error': np.matrix(np.full((n, 1), .3))}}
        if s['data'] == 'both':
            data['P/SHAmplitudeRatio'] = {'Stations': {k: v[:3] for k, v in st.items()}, 'Measured': np.matrix([[1., .5], [.7, 1.], [.4, .6]]), 'Error': np.matrix([[.4, .2], [.3, .5], [.2, .3]])}
    total = 30000 if TIER == 'quick' else 200000
    kw = dict(algorithm='iterate', parallel=False, max_samples=total, convert=False, c_generate=s['generate'], dc=s['dc'], phy_mem=0.001)

    def run():
        i = Inversion(data, **kw)
        i.output = lambda *x, **y: None
        i.forward()
        p = i.algorithm.pdf_sample
        x = np.asarray(p.ln_pdf._ln_pdf, dtype=float).flatten()
        m = np.asarray(p.moment_tensors, dtype=float)[:, :len(x)]
        return dict(kept=len(x), tried=int(p.n), proj=[[int(np.sum(r <= e)) for e in EDGES] for r in m], levels=[int(np.sum(x <= e)) for e in LEVELS])
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return limited(200, run)


FN = dict(relative=relative, dkl=dkl, uniform=dkl, exp=dkl, polarity=product, probability=product, sample=sample)
for k, s in enumerate(scenarios(scen)):
    if k % parts != part:
        continue
    rng = seed('c20', *[str(s[q]) for q in sorted(s)])
    if s['op'] == 'front':
        r, err = front(s, rng)
        out.emit(op='front', scen=s, err=err, **(r or {}))
        continue
    f, args = FN[s['op']](s, rng)
    r, err = attempt(f)
    out.emit(op=s['op'], scen=s, args=args, err=err, vals=r or [], tol=1e-9 if s['op'] != 'relative' else 1e-8)
out.close()
shutil.rmtree(TMP)
