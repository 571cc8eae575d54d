"""Replay of C05Gen: acceptance of state pairs, batches of tries, and the priors, through the McMC classes."""
import copy
import sys

import numpy as np

import vdrv
from vdrv import Out, attempt, scenarios, seed
from MTfit.algorithms import markov_chain_monte_carlo as mcmc
from MTfit.probability import LnPDF

CLASSES = {'mh': mcmc.IterativeMetropolisHastingsGaussianTape, 'transd': mcmc.IterativeTransDMetropolisHastingsGaussianTape,
           'mtry': mcmc.IterativeMultipleTryMetropolisHastingsGaussianTape,
           'mtrytransd': mcmc.IterativeMultipleTryTransDMetropolisHastingsGaussianTape}
KEYS = ['gamma', 'delta', 'kappa', 'h', 'sigma']
LO = dict(gamma=-np.pi / 6, delta=-np.pi / 2, kappa=0., h=0., sigma=-np.pi / 2)
HI = dict(gamma=np.pi / 6, delta=np.pi / 2, kappa=2 * np.pi, h=1., sigma=np.pi / 2)
PDC = dict(low=0.05, half=0.5, high=0.9)


def model_prior(s, n):
    """the model prior: one number, or one for each event of a joint chain"""
    if 'transd' not in s['api']:
        return None, [0.5] * n
    if s.get('pdc') == 'events':
        v = [0.07, 0.6, 0.85, 0.3][:n]
        return np.array(v), v
    v = PDC[s.get('pdc', 'half')]
    return v, [v] * n


BALW = dict(small=(0.04, 0.06), default=(0.2, 0.2), wide=(0.9, 1.7))
U = [0.5]


def const(*a, **k):
    """stand-in for NumPy's uniform draws: always the scripted number"""
    lo, hi, size = 0., 1., None
    if len(a) == 2 or 'low' in k or 'high' in k:
        lo, hi = k.get('low', a[0] if a else 0.), k.get('high', a[1] if len(a) > 1 else 1.)
    elif a and isinstance(a[0], (int, tuple)):
        size = a
    size = k.get('size', size)
    v = lo + (hi - lo) * U[0]
    return v if size is None else np.full(size if not isinstance(size, tuple) or not isinstance(size[0], tuple) else size[0], v)


class Scripted(object):
    """the uniform draws are scripted inside the block"""
    names = ('rand', 'random', 'random_sample', 'ranf', 'sample', 'uniform')

    def __enter__(self):
        self.old = {n: getattr(np.random, n) for n in self.names if hasattr(np.random, n)}
        for n in self.old:
            setattr(np.random, n, const)

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(np.random, n, f)


def widths(rng, kind, top):
    w = {}
    for key in ('gamma', 'delta', 'kappa', 'h', 'sigma'):
        m = top[key]
        w[key] = {'tiny': m * 0.05, 'default': m * 0.4, 'max': m, 'mixed': m * rng.uniform(0.02, 1)}[kind]
    return w


def inside(rng, stratum):
    x = {}
    for key in KEYS:
        lo, hi = LO[key], HI[key]
        if stratum == 'random':
            v = rng.uniform(lo, hi)
        elif stratum == 'bounds':
            v = [lo, hi, rng.uniform(lo, hi)][rng.randint(3)]
        elif stratum == 'nearbound':
            e = (hi - lo) * 10. ** rng.uniform(-9, -2)
            v = lo + e if rng.rand() < 0.5 else hi - e
        elif stratum == 'axis':
            v = [0., (lo + hi) / 2, rng.uniform(lo, hi)][rng.randint(3)]
        else:
            v = lo if rng.rand() < 0.5 else hi
        if key == 'kappa' and v >= 2 * np.pi:
            v = 0.
        x[key] = float(min(max(v, lo), hi))
    return x


def full(x, rng):
    """a full tensor is not on the double-couple point"""
    if x['gamma'] == 0 and x['delta'] == 0:
        x['delta'] = float(rng.choice([-0.3, 0.2]))
    return x


def couple(x):
    x['gamma'] = 0.
    x['delta'] = 0.
    return x


def near(x, w, rng, stratum):
    """a target within reach of the proposal, or from a stratum"""
    y = inside(rng, stratum)
    if stratum == 'random':
        for key in KEYS:
            v = x[key] + w[key] * rng.uniform(-3, 3)
            if key == 'kappa':
                v = v % (2 * np.pi)
            y[key] = float(min(max(v, LO[key]), HI[key]))
    elif w['h'] < 0.1:
        # narrow proposals: keep the density representable
        for key in KEYS:
            if key != 'kappa' and abs(y[key] - x[key]) > 15 * w[key]:
                y[key] = float(x[key] + np.sign(y[key] - x[key]) * 15 * w[key])
    return y


def pair(rng, move, s, w):
    x = inside(rng, s['from'])
    if move in ('dc', 'up'):
        couple(x)
    else:
        full(x, rng)
    if move in ('dc', 'mt'):
        y = near(x, w, rng, s['to'])
        y = couple(y) if move == 'dc' else full(y, rng)
        if all(x[q] == y[q] for q in ('kappa', 'h', 'sigma')):
            y['kappa'] += 0.25      # a shift which keeps the orientation has probability zero
    else:
        y = dict(x)
        if move == 'up':
            z = full(inside(rng, s['to']), rng)
            y['gamma'], y['delta'] = z['gamma'], z['delta']
        else:
            y['gamma'] = y['delta'] = 0.
    return x, y


def make(s, n, dc, w, extra=None):
    kw = dict(learning_length=10 ** 9, chain_length=10 ** 9, acceptance_rate_window=10 ** 9, sampling_prior=s['prior'] + '_prior', dc=dc)
    if n > 1:
        kw['number_events'] = n
    if 'transd' in s['api']:
        b = BALW[s.get('balw', 'default')]
        kw.update(dc_prior=model_prior(s, n)[0], dc_sigma_g=b[0], dc_sigma_d=b[1], gaussian_jump_params=s.get('jump', 'gauss') == 'gauss')
    if 'mtry' in s['api']:
        kw['number_samples'] = 3
    kw.update(extra or {})
    alg = CLASSES[s['api']](**kw)
    for i in range(n):
        target = alg.alpha[i] if n > 1 else alg.alpha
        if n > 1:
            target = alg.alpha[i] = dict(target)
        target.update(w[i])
    return alg


def state(x, wrapped):
    return {k: (np.array([v]) if wrapped and k in ('h', 'sigma', 'kappa') else v) for k, v in x.items()}


def proposal(move, x, y, wrapped):
    p = state(y, wrapped)
    if move == 'down':
        p['g0'] = x['gamma']
        p['d0'] = x['delta']
    return p


def result(lnl):
    return {'ln_pdf': LnPDF(np.array([lnl], dtype=float)), 'moment_tensors': np.zeros((6, len(lnl))), 'n': len(lnl)}


def place(alg, s, moves, xs, lx, wrapped):
    """put the chain in a state"""
    n = len(xs)
    cur = [state(x, wrapped) for x in xs]
    dcs = [bool(m in ('dc', 'up')) for m in moves]
    alg.xi = cur if n > 1 else cur[0]
    alg.dc = dcs if n > 1 else dcs[0]
    alg.ln_likelihood_xi = lx
    alg._tried = 0
    alg.jump = any(m in ('up', 'down') for m in moves)


def iterate(alg, s, moves, xs, tries, lx, lnl, u, wrapped):
    """which of the tries (one source per event each) is accepted with uniform draws u: its number, or 0"""
    n = len(xs)
    place(alg, s, moves, xs, lx, wrapped)
    multi = 'mtry' in s['api'] and vdrv.COMPILED('MTfit.algorithms.cmarkov_chain_monte_carlo')      # the pure-Python classes propose one try at a time
    tagged = [[dict(t) for t in tr] for tr in tries]
    if multi:
        alg.xi_1 = [[tr[i] for tr in tagged] for i in range(n)] if n > 1 else [tr[0] for tr in tagged]
    else:
        alg.xi_1 = tagged[0] if n > 1 else tagged[0][0]
    U[0] = u
    with Scripted():
        alg.iterate(result(lnl))
    cur = alg.xi if n > 1 else [alg.xi]
    for k, tr in enumerate(tagged):
        if num(alg.ln_likelihood_xi) == lnl[k] and all(all(np.array_equal(np.ravel(c[q]), np.ravel(t[q])) for q in KEYS) for c, t in zip(cur, tr)):
            return k + 1
    return 0


def observe(alg, s, moves, xs, ys, lx, ly, wrapped):
    """acceptance probability of the move, and the outcomes of iterate just below and above it"""
    prop = [[proposal(m, x, y, wrapped) for m, x, y in zip(moves, xs, ys)]]
    if 'mtry' not in s['api']:
        place(alg, s, moves, xs, lx, wrapped)
        a = alg.acceptance(prop[0] if len(xs) > 1 else prop[0][0], ly)
        a = float(np.ravel(np.asarray(a, dtype=float))[0])
        probes = []
        for u in (a * (1 - 1e-6), min(a * (1 + 1e-6) + 1e-300, 1 - 2. ** -53)):
            if 0 <= u < 1:
                probes.append([u, iterate(alg, s, moves, xs, prop, lx, [ly], u, wrapped)])
        return a, probes
    top = 1 - 2. ** -53
    if iterate(alg, s, moves, xs, prop, lx, [ly], top, wrapped):
        return 1., []
    if not iterate(alg, s, moves, xs, prop, lx, [ly], 0., wrapped):
        return 0., []
    lo, hi = 0., top
    # first by powers, so that small probabilities are resolved as well
    while hi > 1e-300 and not iterate(alg, s, moves, xs, prop, lx, [ly], hi * 1e-4, wrapped):
        hi = hi * 1e-4
    lo = hi * 1e-4
    for _ in range(48):
        mid = 0.5 * (lo + hi)
        if mid == lo or mid == hi:
            break
        if iterate(alg, s, moves, xs, prop, lx, [ly], mid, wrapped):
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi), []


INVERSE = dict(dc='dc', mt='mt', up='down', down='up')


def num(x):
    return float(np.ravel(np.asarray(x, dtype=float))[0])


def rec(x):
    return dict(g=num(x['gamma']), d=num(x['delta']), k=num(x['kappa']), h=num(x['h']), s=num(x['sigma']))


def one_alpha(alg, i, n):
    return alg.alpha[i] if n > 1 else alg.alpha


def single(alg, i, n, f):
    """evaluate f with the widths of event i in place"""
    old, oldn = alg.alpha, alg.number_events
    alg.alpha = one_alpha(alg, i, n)
    try:
        return f()
    finally:
        alg.alpha = old


def do_pair(s, rng):
    moves = s['moves']
    n = len(moves)
    top = mcmc.MarginalisedMetropolisHastingsGaussianTape().max_alpha
    w = [widths(rng, s['width'], top) for _ in range(n)]
    ps = [pair(rng, m, s, w[i]) for i, m in enumerate(moves)]
    xs, ys = [p[0] for p in ps], [p[1] for p in ps]
    lx = {'near': rng.uniform(-30, 5), 'far': rng.uniform(-2000, 50), 'fromzero': -np.inf, 'tozero': -3.5, 'bothzero': -np.inf, 'equal': -7.25}[s['lik']]
    ly = {'near': lx + rng.uniform(-3, 3), 'far': lx + rng.uniform(-60, 20), 'fromzero': rng.uniform(-400, 3), 'tozero': -np.inf, 'bothzero': -np.inf,
          'equal': -7.25}[s['lik']]
    wrapped = bool(rng.randint(2)) and vdrv.VARIANT == 'py' and not vdrv.JOIN
    alg = make(s, n, all(m in ('dc', 'up') for m in moves) if 'transd' not in s['api'] else False, w)
    ev = dict(s)
    ev.update(x=[rec(x) for x in xs], y=[rec(y) for y in ys], lx=lx, ly=ly, error='')
    al = [one_alpha(alg, i, n) for i in range(n)]
    ev['w'] = [dict(g=a['gamma'], d=a['delta'], h=a['h'], s=a['sigma'], gdc=a.get('gamma_dc', 1.), ddc=a.get('delta_dc', 1.)) for a in al]
    ev['dcprior'] = model_prior(s, n)[1]
    for key in ('px', 'py', 'txy', 'tyx', 'bal'):
        ev[key] = []
    for i, m in enumerate(moves):
        dcx, dcy = m in ('dc', 'up'), m in ('dc', 'down')
        ev['px'].append(num(alg.prior(dict(xs[i]), dcx)))
        ev['py'].append(num(alg.prior(dict(ys[i]), dcy)))
        ev['txy'].append(num(single(alg, i, n, lambda: alg.transition_pdf(ys[i], xs[i], dcx))) if m in ('dc', 'mt') else 0.)
        ev['tyx'].append(num(single(alg, i, n, lambda: alg.transition_pdf(xs[i], ys[i], dcx))) if m in ('dc', 'mt') else 0.)
        z = ys[i] if m == 'up' else xs[i]
        ev['bal'].append(num(single(alg, i, n, lambda: alg.jump_params(z))) if m in ('up', 'down') else 0.)
    fw, err = attempt(observe, alg, s, moves, xs, ys, lx, ly, wrapped)
    ev['error'] = err
    ev['a'], ev['probes'] = fw if not err else (0., [])
    bw, err = attempt(observe, alg, s, [INVERSE[m] for m in moves], ys, xs, ly, lx, wrapped)
    ev['error'] = ev['error'] or err
    ev['b'], ev['bprobes'] = bw if not err else (0., [])
    return ev


def do_batch(s, rng):
    n = s['events']
    s = dict(s, balw='default', pdc='events' if n > 1 else 'low', jump='gauss')
    s['from'], s['to'] = 'random', 'random'
    top = mcmc.MarginalisedMetropolisHastingsGaussianTape().max_alpha
    w = [widths(rng, 'default', top) for _ in range(n)]
    here = ['dc' if s['dc'] else 'mt' for _ in range(n)]
    xs = [couple(inside(rng, 'random')) if s['dc'] else full(inside(rng, 'random'), rng) for _ in range(n)]
    lx = -4. if s['start'] == 'finite' else -np.inf
    tries, lnl, moves = [], [], []
    for k in range(s['n']):
        mv, tr = [], []
        for i in range(n):
            m = here[i]
            if 'transd' in s['api'] and rng.rand() < 0.4:
                m = 'up' if s['dc'] else 'down'
            if m in ('dc', 'mt'):
                y = near(xs[i], w[i], rng, 'random')
                y = couple(y) if m == 'dc' else full(y, rng)
            else:
                y = dict(xs[i])
                if m == 'up':
                    z = full(inside(rng, 'random'), rng)
                    y['gamma'], y['delta'] = z['gamma'] * 0.7, z['delta'] * 0.3
                else:
                    y['gamma'] = y['delta'] = 0.
            mv.append(m)
            tr.append(y)
        moves.append(mv)
        tries.append(tr)
        base = {'rising': -9. + 2 * k, 'falling': -2. - 2 * k}.get(s['pattern'], rng.uniform(-9, -2))
        if s['pattern'] == 'zeros' and rng.rand() < 0.5 or s['pattern'] == 'allzero':
            base = -np.inf
        lnl.append(float(base))
    alg = make(s, n, s['dc'] if 'transd' not in s['api'] else False, w)
    ev = dict(s)
    al = [one_alpha(alg, i, n) for i in range(n)]
    ev['w'] = [dict(g=a['gamma'], d=a['delta'], h=a['h'], s=a['sigma'], gdc=a.get('gamma_dc', 1.), ddc=a.get('delta_dc', 1.)) for a in al]
    ev.update(x=[rec(x) for x in xs], lx=lx, ly=lnl, moves=moves, y=[[rec(y) for y in tr] for tr in tries], dcprior=model_prior(s, n)[1],
              outcomes=[], error='')
    ev['px'] = [num(alg.prior(dict(x), bool(s['dc']))) for x in xs]
    ev['py'] = [[num(alg.prior(dict(y), m in ('dc', 'down'))) for y, m in zip(tr, mv)] for tr, mv in zip(tries, moves)]
    props = [[proposal(m, x, y, False) for m, x, y in zip(mv, xs, tr)] for mv, tr in zip(moves, tries)]
    for u in (0., 0.01, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 1 - 2. ** -53):
        r, err = attempt(iterate, alg, s, moves[0], xs, props, lx, lnl, u, False)
        ev['error'] = ev['error'] or err
        ev['outcomes'].append([u, -1 if err else r])
    return ev


def do_prior(s):
    alg = make(s, 1, False, [{}])
    g, d = (s['g'] - 6) * np.pi / 36, (s['d'] - 6) * np.pi / 12
    g, d = min(max(g, -np.pi / 6), np.pi / 6), min(max(d, -np.pi / 2), np.pi / 2)
    rng = seed('c05p', s['g'], s['d'])
    x = dict(gamma=g, delta=d, kappa=rng.uniform(0, 6), h=rng.uniform(0, 1), sigma=rng.uniform(-1.5, 1.5))
    dcx = dict(x, gamma=0., delta=0.)
    ev = dict(s)
    mt = g != 0 or d != 0
    ev.update(x=rec(x), p=num(alg.prior(dict(x), False)), pdc=num(alg.prior(dcx, True)), pauto=num(alg.prior(dict(x))), mt=mt, p0=num(alg.prior(dict(x, gamma=0., delta=0.), False)),
              area=(np.pi / 3 / 60) * (np.pi / 90))
    # integral over the lune (midpoint rule, smooth integrand)
    if s['g'] == 0 and s['d'] == 0:
        gs = (np.arange(60) + 0.5) / 60 * np.pi / 3 - np.pi / 6
        ds = (np.arange(90) + 0.5) / 90 * np.pi - np.pi / 2
        ev['cells'] = [[num(alg.prior(dict(x, gamma=a, delta=b), False)) for b in ds] for a in gs]
    else:
        ev['cells'] = []
    return ev


def main():
    out = Out(sys.argv[2])
    part, parts = int(sys.argv[3]), int(sys.argv[4])
    for k, s in enumerate(scenarios(sys.argv[1])):
        if k % parts != part:
            continue
        if s['op'] == 'batch' and (vdrv.VARIANT == 'py' or vdrv.JOIN) and s['n'] > 1:
            continue
        salt = [s[q] for q in sorted(s)]
        if s['op'] == 'pair' and (vdrv.VARIANT == 'py' or vdrv.JOIN) and 'mtry' in s['api'] and k // parts % 4:
            continue        # without the compiled module these classes run the code of the single-try ones
        rng = seed('c05', *[str(v) for v in salt])
        if s['op'] == 'pair':
            out.emit(**do_pair(s, rng))
        elif s['op'] == 'batch':
            out.emit(**do_batch(s, rng))
        else:
            out.emit(**do_prior(s))
    out.close()


main()
