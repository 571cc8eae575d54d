import sys
from drivers.vdrv import *
from MTfit.probability import LnPDF, dkl_estimate, model_probabilities
from MTfit.probability.probability import dkl
from MTfit.sampling import Sample, ln_bayesian_evidence

scen, outp = sys.argv[1:3]
rng = seed('c10')
out = Out(outp)
nan = float('nan')


def values(mag, n):
    u = rng.normal(size=n)
    return {'order1': -3 + 2 * u, 'neg1e3': -1200 + 20 * u, 'neg1e5': -9e4 + 3 * u, 'pos1e3': 800 + 20 * u, 'wide': rng.uniform(-1e5, 1e3, size=n),
            'equal': np.full(n, -745.3), 'spread': -30 * np.abs(u)}[mag]


def infs(x, kind):
    x = x.copy()
    n = len(x)
    if kind == 'one' and n > 1:
        x[rng.randint(n)] = -np.inf
    elif kind == 'half':
        m = rng.uniform(size=n) < 0.5
        m[rng.randint(n)] = False
        x[m] = -np.inf
    elif kind == 'allbutone':
        k = rng.randint(n)
        m = np.arange(n) != k
        x[m] = -np.inf
    elif kind == 'all':
        x[:] = -np.inf
    return x


def box(x, kind):
    return {'lnpdf': lambda: LnPDF(x.copy()), 'array': lambda: x.copy().reshape(1, -1), 'matrix': lambda: np.matrix(x), 'flat': lambda: x.copy()}[kind]()


def raw(b):
    return np.array(b._ln_pdf if isinstance(b, LnPDF) else b, dtype=float).reshape(-1)


def total(kind, x):
    k = int(np.sum(x > -np.inf))
    return {'exact': max(k, len(x)), 'more': max(k, len(x)) + int(rng.randint(1, 50)), 'many': 10 ** int(rng.randint(4, 9))}[kind]


def fl(v):
    return float(np.asarray(v).reshape(-1)[0]) if v is not None and np.size(v) == 1 else nan


for s in scenarios(scen):
    for rep in range(1 if TIER == 'quick' else 3):
        if s['op'] == 'model':
            n = s['n']
            x = {'order1': rng.normal(size=n), 'wide3': rng.uniform(-1e3, 1e3, size=n), 'equal': np.full(n, rng.uniform(-1e3, 1e3)),
                 'tie-top': np.append(rng.uniform(-1e3, 900, size=n - 2), [950.0, 950.0])}[s['mag']]
            rng.shuffle(x)
            c = float(rng.choice([-1000.0, 10.0, 700.0, 1e3]))
            t = float if s['type'] == 'float' else np.float64
            y, err = attempt(model_probabilities, *[t(v) for v in x])
            ys, e2 = attempt(model_probabilities, *[t(v + c) for v in x])
            out.emit(op='model', x=x, c=c, y=y or [], ys=ys or [], err=err + e2)
            continue
        n = s['n']
        x = infs(values(s['mag'], n), s['inf'])
        if s['op'] == 'evid':
            N = total(s['N'], x)
            c = float(rng.choice([1.0, -700.0, 650.0, 3e3, -2e4]))
            perm = rng.permutation(n)
            p = np.ones(n)
            ws = []
            prior = None
            if s['prior'] == 'weights':
                # one prior weight per sample and event, looked up through the source-type parameters
                ws = [rng.uniform(0.1, 3, size=n) for _ in range(s['events'])]
                p = np.prod(ws, axis=0)

            def evid(v, order):
                o = {'ln_pdf': box(v[order], s['box'])}
                g = [(w[order] if len(ws) else np.zeros(n)) for w in (ws or [None] * s['events'])]
                if s['events'] == 1:
                    o['g'], o['d'] = g[0], np.zeros(n)
                else:
                    for k in range(s['events']):
                        o['g_%d' % (k + 1)], o['d_%d' % (k + 1)] = g[k], np.zeros(n)
                if ws:
                    return fl(ln_bayesian_evidence(o, N, prior=lambda gg, dd: gg))
                return fl(ln_bayesian_evidence(o, N))
            idn = np.arange(n)
            y, err = attempt(evid, x, idn)
            ys, e2 = attempt(evid, x + c, idn)
            yp, e3 = attempt(evid, x, perm)
            out.emit(op='evid', box=s['box'], events=s['events'], x=x, p=p, N=N, c=c, y=nan if y is None else y, ys=nan if ys is None else ys,
                     yp=nan if yp is None else yp, err=err + e2 + e3)
        elif s['op'] == 'store':
            N = total(s['N'], x)
            ev = s['events']
            mts = [unit(rng.normal(size=(6, n))) for _ in range(ev)]
            if s['dc']:
                from MTfit.algorithms.monte_carlo import IterationSample
                alg = IterationSample(number_samples=n, dc=True)
                mts = [np.asarray(alg.random_dc()) for _ in range(ev)]

            def run():
                st = Sample(initial_sample_size=5, number_events=ev)
                cut = int(rng.randint(0, n + 1))
                for lo, hi in ((0, cut), (cut, n)):
                    if hi > lo:
                        st.append(np.matrix(np.vstack([m[:, lo:hi] for m in mts])), LnPDF(x[lo:hi].copy()), hi - lo)
                return st.output(convert=s['convert'], n_samples=N, discard=s['discard'])[0]
            o, err = attempt(run)
            o = o or {}
            if not err and 'ln_bayesian_evidence' not in o:
                err = 'no evidence reported'
            out.emit(op='store', x=x, N=N, events=ev, convert=s['convert'], discard=s['discard'], y=fl(o.get('ln_bayesian_evidence')), dkl=fl(o.get('dkl')), err=err)
        elif s['op'] == 'dkle':
            N = total(s['N'], x)
            b = box(x, s['box'])
            y, err = attempt(dkl_estimate, b, float(s['V']), N)
            out.emit(op='dkle', box=s['box'], x=x, N=N, V=s['V'], y=fl(y), err=err, unchanged=bool(np.array_equal(raw(b), x)))
        else:
            q = x.copy() if s['mag2'] == 'same' else values(s['mag2'], n)
            if s['inf2'] == 'same':
                q[x == -np.inf] = -np.inf
            elif s['inf2'] == 'half':
                q = infs(q, 'half')
            if not np.any(q > -np.inf):
                q[rng.randint(n)] = -3.0
            bp, bq = box(x, s['box']), box(q, s['box'])
            y, err = attempt(dkl, bp, bq, float(s['V']))
            z, e2 = attempt(dkl, box(x, s['box']), box(x, s['box']), float(s['V']))
            out.emit(op='dkl', box=s['box'], x=x, q=q, y=fl(y), same=fl(z), err=err + e2,
                     unchanged=bool(np.array_equal(raw(bp), x) and np.array_equal(raw(bq), q)))
out.close()
