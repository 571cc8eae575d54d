import sys
from drivers.vdrv import *
from MTfit.probability import polarity_ln_pdf, polarity_probability_ln_pdf

scen, outp = sys.argv[1:3]
rng = seed('c02')
out = Out(outp)
AMP = {'zero': lambda: 0.0, 'tiny': lambda: 10 ** rng.uniform(-9, -5), 'small': lambda: 10 ** rng.uniform(-4, -1),
       'unit': lambda: rng.uniform(0.1, 1.5), 'large': lambda: 10 ** rng.uniform(1, 6), 'huge': lambda: 10 ** rng.uniform(200, 300)}
SIG = {'zero': lambda: 0.0, 'e300': lambda: 10 ** rng.uniform(-300, -290), 'small': lambda: 10 ** rng.uniform(-10, -3),
       'typical': lambda: rng.uniform(0.01, 0.5), 'wide': lambda: rng.uniform(1, 10), 'huge': lambda: 10 ** rng.uniform(3, 12)}
W = {'none': lambda: 0.0, 'tiny': lambda: 10 ** rng.uniform(-12, -3), 'quarter': lambda: 0.25, 'half': lambda: 0.5,
     'threequarter': lambda: 0.75, 'one': lambda: 1.0, 'random': lambda: rng.uniform(0, 1)}
P = {'zero': lambda: 0.0, 'one': lambda: 1.0, 'half': lambda: 0.5, 'random': lambda: rng.uniform(0, 1)}


def wrong(s, S):
    if s['form'] == 'scalar':
        w = W[s['wrong']]()
        return float(w), [float(w)]
    w = np.array([W[s['wrong']]() for _ in range(S)])
    return w, w.tolist()


def run(kind, a, mt, sig, pp, pn, w):
    if kind == 'pol':
        return attempt(polarity_ln_pdf, a.copy(), mt.copy(), sig.copy(), w if isinstance(w, float) else w.copy())
    return attempt(polarity_probability_ln_pdf, a.copy(), mt.copy(), pp.copy(), pn.copy(), w if isinstance(w, float) else w.copy())


def two(x):
    x = np.asarray(x)
    return x.tolist() if x.ndim == 2 else [[float('nan')]] if x.ndim == 0 else [x.tolist()]


def emit(kind, site, a, mt, sig, pp, pn, w, wl, **kw):
    r, err = run(kind, a, mt, sig, pp, pn, w)
    ev = dict(kind=kind, site=site, a=a, mt=mt, w=wl, err=err, lnp=two(r) if r is not None else [], exact=False)
    if kind == 'pol':
        ev['sigma'] = sig
    else:
        ev['pp'], ev['pn'] = pp, pn
        ev['exact'] = True
    ev.update(kw)
    if 'opp' in ev:
        ev['opp'] = two(ev['opp'])
    out.emit(**ev)


for s in scenarios(scen):
    reps = 1 if TIER == 'quick' else 6
    for _ in range(reps):
        if s['op'] in ('pol', 'prob'):
            a = np.zeros((1, 1, 6))
            a[0, 0, 0] = s['sign'] * AMP[s['amp']]()
            mt = np.zeros((6, 1))
            mt[0, 0] = 1.0
            w, wl = wrong(s, 1)
            sig = pp = pn = None
            if s['op'] == 'pol':
                sig = np.array([SIG[s['sigma']]()])
            else:
                pp, pn = np.array([P[s['pp']]()]), np.array([P[s['pn']]()])
            opp, err = run(s['op'], -a, mt, sig, pp, pn, w)
            kw = {}
            if not err:
                kw['opp'] = opp
                kw['total'] = 1.0 if s['op'] == 'pol' else float(pp[0] + pn[0])
            emit(s['op'], 'single', a, mt, sig, pp, pn, w, wl, **kw)
        elif s['op'] == 'mono':
            sig = np.array([SIG[s['sigma']]()])
            x = np.sort(np.concatenate([np.array([0.0]), rng.normal(0, 1, 12), rng.normal(0, 1, 8) * min(max(sig[0], 1e-12), 1e3) * 2]))
            a = np.zeros((1, 1, 6))
            a[0, 0, 2] = 1.0
            mt = np.zeros((6, len(x)))
            mt[2, :] = x
            w, wl = wrong(s, 1)
            emit('pol', 'mono', a, mt, sig, None, None, w, wl, mono=True)
            p, n = np.sort(rng.uniform(0, 1, 2))[::-1]
            emit('prob', 'mono', a, mt, None, np.array([p]), np.array([n]), w, wl, mono=True)
        else:
            S, K, M = s['S'], s['K'], s['M']
            a = rng.normal(size=(S, K, 6))
            mt = unit(rng.normal(size=(6, M)))
            w, wl = wrong(s, S)
            sig = rng.uniform(0.05, 0.6, S)
            if s['op'] == 'probshape' and s['hard'] != 'none':
                continue
            # stations on a nodal plane (amplitude exactly zero) and stations without uncertainty, also the same one
            j = rng.randint(S)
            if s['node'] != 'none':
                a[j if s['node'] == 'one' else slice(None), :, :] = 0.0
            if s['hard'] != 'none':
                sig[j if s['hard'] == 'one' else slice(None)] = 0.0
            pp = rng.uniform(0, 1, S)
            pn = 1 - pp if rng.rand() < 0.5 else rng.uniform(0, 1, S)
            emit('pol' if s['op'] == 'polshape' else 'prob', 'shape', a, mt, sig, pp, pn, w, wl)
            # non-contiguous tensor input (a column selection, as the sampler makes)
            big = unit(rng.normal(size=(6, 2 * M)))
            emit('pol' if s['op'] == 'polshape' else 'prob', 'shape-strided', a, big[:, ::2], sig, pp, pn, w, wl)
out.close()
