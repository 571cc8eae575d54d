"""Replay of C06Gen: proposals (populations and adversarial draws), chain starts, and the adaptation of the proposal widths."""
import sys

import numpy as np

import vdrv
from vdrv import Out, attempt, limited, scenarios, seed
from MTfit.algorithms import markov_chain_monte_carlo as mcmc
from MTfit.probability import LnPDF

CLASSES = {'mh': mcmc.IterativeMetropolisHastingsGaussianTape, 'transd': mcmc.IterativeTransDMetropolisHastingsGaussianTape,
           'mtry': mcmc.IterativeMultipleTryMetropolisHastingsGaussianTape,
           'mtrytransd': mcmc.IterativeMultipleTryTransDMetropolisHastingsGaussianTape}
KEYS = ['gamma', 'delta', 'kappa', 'h', 'sigma']
SHORT = dict(gamma='g', delta='d', kappa='k', h='h', sigma='s')
LO = dict(gamma=-np.pi / 6, delta=-np.pi / 2, kappa=0., h=0., sigma=-np.pi / 2)
HI = dict(gamma=np.pi / 6, delta=np.pi / 2, kappa=2 * np.pi, h=1., sigma=np.pi / 2)
BALW = dict(small=(0.04, 0.06), default=(0.2, 0.2), wide=(0.9, 1.7), flat=(0.2, 0.2))
N = 3000 if vdrv.VARIANT == 'c' else 1000
BELOW = float(np.nextafter(2 * np.pi, 0))


def current(rng, frm, model):
    x = {}
    for q in KEYS:
        lo, hi = LO[q], HI[q]
        e = (hi - lo) * 10. ** rng.uniform(-16, -3)
        v = {'random': rng.uniform(lo, hi), 'lower': lo, 'upper': hi, 'nearlower': lo + e, 'nearupper': hi - e, 'axis': rng.choice([0., 0.5 * (lo + hi)]),
             'mixed': rng.choice([lo, hi, rng.uniform(lo, hi)])}[frm]
        x[q] = float(min(max(v, lo), hi if q != 'kappa' else BELOW))
    if model == 'dc':
        x['gamma'] = x['delta'] = 0.
    elif x['gamma'] == 0 and x['delta'] == 0:
        x['gamma'], x['delta'] = 0.05, -0.3
    return x


def make(api, n, dc, jump=0., balw='default', extra=None):
    kw = dict(learning_length=10 ** 9, chain_length=10 ** 9, acceptance_rate_window=10 ** 9, dc=dc)
    if n > 1:
        kw['number_events'] = n
    if 'transd' in api:
        b = BALW[balw]
        kw.update(dimension_jump_prob=jump, dc_sigma_g=b[0], dc_sigma_d=b[1], gaussian_jump_params=balw != 'flat')
    if 'mtry' in api:
        kw.update(number_samples=200, min_acceptance_rate=0.005)
    kw.update(extra or {})
    alg = CLASSES[api](**kw)
    if n > 1:
        alg.alpha = [dict(a) for a in alg.alpha]
    return alg


def setw(alg, n, rng, width):
    for i in range(n):
        a = alg.alpha[i] if n > 1 else alg.alpha
        for q in KEYS:
            m = alg.max_alpha[q]
            a[q] = {'tiny': m * 1e-3, 'default': m * 0.4, 'max': m}[width] * (1 if n == 1 else rng.uniform(0.6, 1))


def place(alg, n, xs, dcs):
    alg.xi = [dict(x) for x in xs] if n > 1 else dict(xs[0])
    alg.dc = list(dcs) if n > 1 else dcs[0]


def num(v):
    return float(np.ravel(np.asarray(v, dtype=float))[0])


def propose(alg, n, xs, dcs, total):
    """proposals of each event as dictionaries, and their moment tensors (6 x N)"""
    props, mts = [[] for _ in range(n)], [[] for _ in range(n)]
    while len(props[0]) < total:
        place(alg, n, xs, dcs)
        m = alg.new_sample()
        ms = m if n > 1 else [m]
        ps = alg.xi_1 if n > 1 else [alg.xi_1]
        for i in range(n):
            props[i].extend(ps[i] if isinstance(ps[i], list) else [ps[i]])
            mts[i].append(np.asarray(ms[i], dtype=float).reshape(6, -1))
    return [p[:total] for p in props], [np.concatenate(m, axis=1)[:, :total] for m in mts]


def table(props):
    return {q: np.array([num(p[q]) for p in props]) for q in KEYS}


def det(m):
    a = np.array([[m[0], m[3] / np.sqrt(2), m[4] / np.sqrt(2)], [m[3] / np.sqrt(2), m[1], m[5] / np.sqrt(2)], [m[4] / np.sqrt(2), m[5] / np.sqrt(2), m[2]]])
    return np.linalg.det(a)


def short(x):
    return {SHORT[q]: float(x[q]) for q in KEYS}


def common(t, m):
    finite = bool(np.all(np.isfinite(m)) and all(np.all(np.isfinite(t[q])) for q in KEYS))
    return dict(lo={SHORT[q]: float(t[q].min()) for q in KEYS}, hi={SHORT[q]: float(t[q].max()) for q in KEYS}, finite=finite,
                maxnorm=float(np.max(np.abs(np.sum(m * m, axis=0) - 1))),
                some=[dict(short({q: t[q][k] for q in KEYS}), m=[float(v) for v in m[:, k]]) for k in range(0, m.shape[1], max(1, m.shape[1] // 6))],
                dcparam=int(np.sum((t['gamma'] == 0) & (t['delta'] == 0))),
                dcpattern=float(max(np.max(np.abs(m[0] + m[1] + m[2])), max(abs(det(m[:, k])) for k in range(0, m.shape[1], max(1, m.shape[1] // 200))))))


def edges(q, x, w):
    e = [LO[q] + f * (HI[q] - LO[q]) for f in (0.05, 0.25, 0.5, 0.75, 0.95)] + [x + c * w for c in (-1.2, -0.4, 0.3, 1.)]
    return [float(v) for v in e if LO[q] < v < HI[q]]


def population(t, x, w, keys):
    out, med = {}, {}
    for q in keys:
        es = edges(q, x[q], w[q])
        out[SHORT[q]] = [[e, int(np.sum(t[q] <= e))] for e in es]
        c = x[q] + 0.3 * w[q]
        med[q] = c if LO[q] < c < HI[q] else x[q] - 0.3 * w[q]
    joint = []
    for a in range(len(keys)):
        for b in range(a):
            joint.append([SHORT[keys[a]], float(med[keys[a]]), SHORT[keys[b]], float(med[keys[b]]), int(np.sum((t[keys[a]] <= med[keys[a]]) & (t[keys[b]] <= med[keys[b]])))])
    return out, joint


def do_draws(s, rng, out):
    n = s['events']
    dc = s['model'] == 'dc'
    trans = 'transd' in s['api']
    p = {'none': 0., 'some': 0.3, 'always': 1.}[s['jump']]
    alg = make(s['api'], n, dc if not trans else False, p)
    setw(alg, n, rng, s['width'])
    models = [(dc if i == 0 or not trans else not dc) for i in range(n)]
    xs = [current(rng, s['from'], 'dc' if m else 'mt') for m in models]
    r, err = limited(300, propose, alg, n, xs, models, N)
    if err:
        out.emit(**dict(s, error=err))
        return
    for i in range(n):
        t, m = table(r[0][i]), r[1][i]
        w = alg.alpha[i] if n > 1 else alg.alpha
        kept = (t['kappa'] == xs[i]['kappa']) & (t['h'] == xs[i]['h']) & (t['sigma'] == xs[i]['sigma'])
        moved = (t['kappa'] != xs[i]['kappa']) & (t['h'] != xs[i]['h']) & (t['sigma'] != xs[i]['sigma'])
        jumped = ((t['gamma'] == 0) & (t['delta'] == 0)) != models[i]
        keys = ['kappa', 'h', 'sigma'] + ([] if models[i] else ['gamma', 'delta'])
        sub = {q: t[q][~jumped] for q in KEYS}
        cnt, joint = population(sub, xs[i], w, keys)
        out.emit(**dict(s, error='', event=i, isdc=models[i], total=len(kept), jumps=int(np.sum(jumped)), jumpskeep=int(np.sum(jumped & kept)), halfmoved=int(np.sum(~jumped & ~moved)),
                        shifts=int(np.sum(~jumped)), p=p, x=short(xs[i]), w={SHORT[q]: float(w[q]) for q in KEYS}, counts=cnt, joint=joint,
                        balg=[[e, int(np.sum(t['gamma'][jumped] <= e))] for e in (-0.25, -0.05, 0.1, 0.3)] if models[i] else [],
                        bald=[[e, int(np.sum(t['delta'][jumped] <= e))] for e in (-0.7, -0.1, 0.15, 0.6)] if models[i] else [],
                        gdc=float(w.get('gamma_dc', 1.)), ddc=float(w.get('delta_dc', 1.)), **common(t, m)))


def do_adversarial(s, rng, out):
    """NumPy's normal draws come from a short list of awkward values"""
    dc = s['model'] == 'dc'
    alg = make(s['api'], 1, dc if 'transd' not in s['api'] else False, 0.2)
    setw(alg, 1, rng, s['width'])
    x = current(rng, s['from'], s['model'])
    vals = [0., 0.4, -0.4, 1e-17, -1e-17, -1e-300, 60., -60.]
    for q in KEYS:
        w = alg.alpha[q]
        for b in (LO[q], HI[q]):
            vals += [(b - x[q]) / w, np.nextafter((b - x[q]) / w, 10), np.nextafter((b - x[q]) / w, -10)]
    vals += [(-x['kappa'] - 1e-16) / alg.alpha['kappa'], (2 * np.pi - x['kappa'] + 1e-15) / alg.alpha['kappa']]
    vals = np.array(vals)
    pick = np.random.RandomState(rng.randint(2 ** 31))

    def randn(*shape):
        v = pick.choice(vals, size=shape if shape else None)
        return float(v) if not shape else v

    def normal(loc=0., scale=1., size=None):
        v = randn() if size is None else randn(*(size if isinstance(size, tuple) else (size,)))
        return loc + scale * v
    old = {q: getattr(np.random, q) for q in ('randn', 'normal', 'standard_normal')}
    np.random.randn, np.random.normal = randn, normal
    np.random.standard_normal = lambda size=None: normal(size=size)
    try:
        r, err = limited(120, propose, alg, 1, [x], [dc], 400)
    finally:
        for q, f in old.items():
            setattr(np.random, q, f)
    if err:
        out.emit(**dict(s, error=err))
        return
    t, m = table(r[0][0]), r[1][0]
    jumped = ((t['gamma'] == 0) & (t['delta'] == 0)) != dc
    kept = (t['kappa'] == x['kappa']) & (t['h'] == x['h']) & (t['sigma'] == x['sigma'])
    out.emit(**dict(s, error='', isdc=dc, total=len(kept), jumps=int(np.sum(jumped)), jumpskeep=int(np.sum(jumped & kept)), x=short(x), **common(t, m)))


def do_jumpdraws(s, rng, out):
    n = s['events']
    alg = make(s['api'], n, False, 1., s['balw'])
    xs = [current(rng, 'random', 'dc') for _ in range(n)]
    r, err = limited(300, propose, alg, n, xs, [True] * n, N)
    if err:
        out.emit(**dict(s, error=err))
        return
    for i in range(n):
        t, m = table(r[0][i]), r[1][i]
        a = alg.alpha[i] if n > 1 else alg.alpha
        kept = (t['kappa'] == xs[i]['kappa']) & (t['h'] == xs[i]['h']) & (t['sigma'] == xs[i]['sigma'])
        ge = [f * np.pi / 6 for f in (-0.9, -0.5, -0.1, 0.05, 0.4, 0.8)]
        de = [f * np.pi / 2 for f in (-0.9, -0.5, -0.1, 0.05, 0.4, 0.8)]
        joint = [[g, d, int(np.sum((t['gamma'] <= g) & (t['delta'] <= d)))] for g in ge[1:5:2] for d in de[1:5:2]]
        # the pairs also as drawn by jump_params()
        one = alg.alpha
        alg.alpha = a
        pairs, err = attempt(lambda: [alg.jump_params() for _ in range(500)])
        alg.alpha = one
        pg, pd = (np.array([num(p[0]) for p in pairs]), np.array([num(p[1]) for p in pairs])) if not err else (np.zeros(1), np.zeros(1))
        out.emit(**dict(s, error=err, event=i, total=len(kept), jumpskeep=int(np.sum(kept)), x=short(xs[i]), gdc=float(a['gamma_dc']), ddc=float(a['delta_dc']),
                        balg=[[e, int(np.sum(t['gamma'] <= e))] for e in ge], bald=[[e, int(np.sum(t['delta'] <= e))] for e in de], baljoint=joint,
                        pairs=len(pg), pairg=[[e, int(np.sum(pg <= e))] for e in ge], paird=[[e, int(np.sum(pd <= e))] for e in de],
                        pairlo=[float(pg.min()), float(pd.min())], pairhi=[float(pg.max()), float(pd.max())], **common(t, m)))


def do_start(s, rng, out):
    n = s['events']
    kw = {}
    if s['init'] == 'given':
        g = rng.normal(size=(6 * n, 1))
        for i in range(n):
            g[6 * i:6 * i + 6] /= np.sqrt(np.sum(g[6 * i:6 * i + 6] ** 2))
    alg = make(s['api'], n, s['dc'], 0.2)
    if s['init'] == 'given':
        alg.x0 = g
    r, err = attempt(alg.initialise)
    ev = dict(s, error=err)
    if not err:
        xs = alg.xi if n > 1 else [alg.xi]
        ms = r[0] if n > 1 else [r[0]]
        ev['some'] = [dict(short({q: num(x[q]) for q in KEYS}), m=[float(v) for v in np.ravel(np.asarray(m, dtype=float))]) for x, m in zip(xs, ms)]
    out.emit(**ev)


RATE = dict(none=0., verylow=0.01, low=0.2, ok=0.4, high=0.7, all=1.)
TARGET = dict(default=(0.3, 0.5), narrow=(0.23, 0.24), wide=(0.05, 0.95))


def snapshot(alg, n, hist, first, present):
    al = alg.alpha if n > 1 else [alg.alpha]
    for i in range(len(first)):
        for q in first[i]:
            key = '%s%d' % (q, i + 1)
            if q not in al[i]:
                present.append(key)
                continue
            v = num(al[i][q])
            if hist[key][-1] != v and not (np.isnan(v) and np.isnan(hist[key][-1])):
                hist[key].append(v)


def do_adapt(s, rng, out):
    n = s['events']
    lo, hi = TARGET[s['target']]
    long_run = s['op'] == 'long'
    window = 100 if s['route'] == 'windows' else 4
    alg = make(s['api'], n, False, 0.1, 'default', dict(min_acceptance_rate=lo, max_acceptance_rate=hi, acceptance_rate_window=window if s['route'] == 'iterate' else 10 ** 9,
                                                       number_samples=3))
    if long_run:
        length = 600 if s['route'] == 'windows' else 150
        names = sorted(RATE)
        hist = {'random': [names[rng.randint(6)] for _ in range(length)], 'alternate': [('all', 'none', 'low', 'high')[k % 4] for k in range(length)],
                'sweep': [names[(k // 40) % 6] for k in range(length)]}.get(s['pattern'], [s['pattern']] * length)
    else:
        hist = s['hist']
    first = [dict(a) for a in (alg.alpha if n > 1 else [alg.alpha])]
    rec = {'%s%d' % (q, i + 1): [num(f[q])] for i, f in enumerate(first) for q in f}
    maxes = {'%s%d' % (q, i + 1): num(alg.max_alpha[q]) for i, f in enumerate(first) for q in f if q in alg.max_alpha}
    missing = []

    def windows():
        for r in hist:
            k = int(round(RATE[r] * window))
            a = [1] * k + [0] * (window - k)
            rng.shuffle(a)
            alg._learning_accepted = a
            alg._modify_acceptance_rate()
            snapshot(alg, n, rec, first, missing)

    def iterations():
        mts, end = alg.initialise()
        alg.xi_1 = alg.xi
        lnl = 0.
        alg.iterate({'ln_pdf': LnPDF(np.array([[lnl]])), 'moment_tensors': mts, 'n': 1})
        for r in hist:
            k = int(round(RATE[r] * window))
            a = [1] * k + [0] * (window - k)
            rng.shuffle(a)
            for acc in a:
                p = alg.xi_1[0] if n > 1 else alg.xi_1
                size = len(p) if isinstance(p, list) else 1
                if acc:
                    lnl += 1e4
                alg.iterate({'ln_pdf': LnPDF(np.array([[lnl if acc else -np.inf] * size])), 'moment_tensors': np.zeros((6, size)), 'n': size})
                snapshot(alg, n, rec, first, missing)
    _, err = limited(300, windows if s['route'] == 'windows' else iterations)
    # proposals can still be drawn with the adapted widths
    xs = [current(rng, 'random', 'mt') for _ in range(n)]
    _, err2 = limited(60, propose, alg, n, xs, [False] * n, 3) if not err else (None, '')
    pn = []
    if err or err2:
        out.emit(**dict(s, error=err or err2))
        return
    for i, f in enumerate(first):
        a = alg.alpha[i] if n > 1 else alg.alpha
        if 'proposal_normalisation' in a and 'gamma_dc' in a and 'delta_dc' in a:
            pn.append([num(a['gamma_dc']), num(a['delta_dc']), num(a['proposal_normalisation'])])
    out.emit(**dict(s, error=err or err2, windows=len(hist), widths=[rec[q] for q in sorted(rec)], names=sorted(rec), maxes=[maxes.get(q, float('inf')) for q in sorted(rec)],
                    missing=sorted(set(missing)), norm=pn))


def main():
    out = Out(sys.argv[2])
    part, parts = int(sys.argv[3]), int(sys.argv[4])
    f = dict(draws=do_draws, adversarial=do_adversarial, jumpdraws=do_jumpdraws, start=do_start, adapt=do_adapt, long=do_adapt)
    for k, s in enumerate(scenarios(sys.argv[1])):
        if k % parts != part:
            continue
        rng = seed('c06', *[str(s[q]) for q in sorted(s)])
        f[s['op']](s, rng, out)
    out.close()


main()
