"""Replay of C07Gen: scripted histories of accepted and rejected tries, complete runs on polarity data (as a task and through the front end),
and long chains next to prior random sampling."""
import contextlib
import glob
import io
import itertools
import os
import pickle
import shutil
import sys
import tempfile

import numpy as np

import vdrv
from vdrv import Out, attempt, limited, scenarios, seed, unit
from MTfit import inversion as inv
from MTfit.algorithms import markov_chain_monte_carlo as mcmc
from MTfit.inversion import ForwardTask, Inversion, McMCForwardTask
from MTfit.convert import MT6_Tape
from MTfit.probability import LnPDF

CLASSES = {'mh': mcmc.IterativeMetropolisHastingsGaussianTape, 'transd': mcmc.IterativeTransDMetropolisHastingsGaussianTape,
           'mtry': mcmc.IterativeMultipleTryMetropolisHastingsGaussianTape,
           'mtrytransd': mcmc.IterativeMultipleTryTransDMetropolisHastingsGaussianTape}
scen, outp = sys.argv[1:3]
shard, shards = int(sys.argv[3]), int(sys.argv[4])
rng = seed('c07', shard)
out = Out(outp)
TMP = tempfile.mkdtemp(prefix='c07', dir=os.path.dirname(os.path.abspath(outp)))
os.chdir(TMP)
COMPILED = vdrv.VARIANT == 'c'


def quiet():
    s = contextlib.ExitStack()
    s.enter_context(contextlib.redirect_stdout(io.StringIO()))
    s.enter_context(contextlib.redirect_stderr(io.StringIO()))
    return s


def cols(x):
    return np.asarray(x, dtype=float).reshape(6, -1)


def det(m):
    r = 2 ** -.5
    a = np.array([[m[0], r * m[3], r * m[4]], [r * m[3], m[1], r * m[5]], [r * m[4], r * m[5], m[2]]])
    return float(np.linalg.det(a))


def isdc(m):
    return bool(abs(m[0] + m[1] + m[2]) < 1e-9 and abs(det(m)) < 1e-9)


def spaces(o, n, key='moment_tensor_space'):
    sep = '_' if key == 'moment_tensor_space' else ''
    return [cols(o[key])] if n == 1 else [cols(o['%s%s%d' % (key, sep, k + 1)]) for k in range(n)]


def num(v):
    return [float(x) for x in np.ravel(np.asarray(getattr(v, '_ln_pdf', v), dtype=float))]


# ---- histories -----------------------------------------------------------------------------------------
def hist(s):
    n = s['events']
    seq = s['seq'] or [int(x) * rng.randint(1, 4) for x in rng.rand(150) < s['rate'] / 10.]
    kw = dict(learning_length=s['L'], chain_length=s['M'], acceptance_rate_window=s['window'], dc=s['dc'])
    if n > 1:
        kw['number_events'] = n
    if 'transd' in s['api']:
        kw.update(dimension_jump_prob=0.5)
    if 'mtry' in s['api']:
        kw.update(number_samples=3, min_acceptance_rate=0.005)
    ids, mts, lnl, steps, state = 0, [], [], [], dict(end=False)

    def run():
        alg = CLASSES[s['api']](**kw)
        task, end = alg.initialise()
        cur = -np.inf
        # identity 0: the start, whatever its likelihood
        mts.append([c[:, 0] for c in map(cols, task if n > 1 else [task])])
        lnl.append(-np.inf)
        for o in seq:
            ms = [cols(x) for x in (task if n > 1 else [task])]
            N = ms[0].shape[1]
            if len(set(m.shape[1] for m in ms)) > 1:
                raise ValueError('events disagree about the number of proposals')
            k = min(o, N)
            ln = np.full(N, -np.inf)
            for j in range(N):
                if j + 1 == k:
                    ln[j] = (cur if np.isfinite(cur) else 0.) + 200. + j
                elif j + 1 > k > 0:  # after the accepted one: never tried
                    ln[j] = 5000. + len(lnl) + j
                elif s['low'] and np.isfinite(cur):
                    ln[j] = cur - 2000. - j
            first = len(lnl)
            for j in range(N):
                mts.append([m[:, j] for m in ms])
                lnl.append(float(ln[j]))
            steps.append(dict(ids=list(range(first, first + N)), k=k))
            if k:
                cur = ln[k - 1]
            task, state['end'] = alg.iterate({'ln_pdf': LnPDF(np.matrix(ln)), 'moment_tensors': task, 'n': N})
            if state['end']:
                break
        return alg.output(True, False, 0)[0]
    with quiet():
        o, err = limited(30, run)
    ev = dict(op='hist', scen=s, error=err, steps=steps, ended=bool(state['end']), lnl=lnl, dcs=[[isdc(m[e]) for m in mts] for e in range(n)], entries=[], prob=[], total=-1, accepted=-1, rate=-1., pdc=[])
    if not err:
        if len(num(o.get('ln_pdf', []))):
            sp, ln = spaces(o, n), num(o['ln_pdf'])
            key = {}
            for i, x in enumerate(lnl):
                key.setdefault(x, []).append(i)
            for e in range(len(ln)):
                ev['entries'].append([i for i in key.get(ln[e], []) if all(sp[q].shape[1] == len(ln) and np.max(np.abs(sp[q][:, e] - mts[i][q])) < 1e-11 for q in range(n))])
            ev['prob'] = num(o['probability'])
        ev.update(total=int(o['total_number_samples']), accepted=int(o['accepted']), rate=float(o['acceptance_rate']), pdc=num(o['pDC']) if 'pDC' in o else [])
    out.emit(**ev)


# ---- data ----------------------------------------------------------------------------------------------
def coef(az, t):
    g = np.array([np.cos(az) * np.sin(t), np.sin(az) * np.sin(t), np.cos(t)])
    return np.array([g[0] * g[0], g[1] * g[1], g[2] * g[2], 2 ** .5 * g[0] * g[1], 2 ** .5 * g[0] * g[2], 2 ** .5 * g[1] * g[2]])


def randomdc(N):
    """random double couples: uniformly random orthonormal slip and normal"""
    a = unit(rng.randn(3, N))
    b = rng.randn(3, N)
    b = unit(b - a * np.sum(a * b, axis=0))
    return np.array([2 * a[0] * b[0], 2 * a[1] * b[1], 2 * a[2] * b[2]] + [2 ** .5 * (a[i] * b[j] + a[j] * b[i]) for i, j in ((0, 1), (0, 2), (1, 2))]) / 2 ** .5


def tape(ms):
    """strike, cosine of dip and slip of every source"""
    x = MT6_Tape(ms)
    return [np.ravel(np.asarray(v, dtype=float)) for v in x[2:]]


def box(ms, centre):
    """the sources near a central one inside the bounds of the Tape parameters, where a chain moves freely"""
    k, h, s = tape(ms)
    dk = np.abs((k - centre[0] + np.pi) % (2 * np.pi) - np.pi)
    return (dk < 1.) & (np.abs(h - centre[1]) < .35) & (np.abs(s - centre[2]) < .8)


def problem(kind, K=0, uid='ev', inner=False):
    """polarity data of a random double couple: dictionary, location records, weights, observations"""
    n = {'broad': 5, 'peaked': 14, 'hard': 8, 'locations': 7}[kind]
    sd = {'broad': 0.5, 'peaked': 0.12, 'hard': 0., 'locations': 0.25}[kind]
    if inner:
        many = randomdc(300)
        k, h, s = tape(many)
        many = many[:, (np.abs(h - .5) < .12) & (np.abs(s) < .7)]
        k, h, s = tape(many[:, :1])
        centre, src = (k[0], h[0], s[0]), many[:, 0]
    else:
        src = randomdc(1)[:, 0]
    names = ['S%02d' % k for k in range(n)]
    az, to = rng.uniform(0, 360, n), rng.uniform(15, 165, n)
    amp = np.array([coef(np.radians(a), np.radians(t)) @ src for a, t in zip(az, to)])
    meas = [int(x) for x in np.where(amp + (0.1 * rng.randn(n) if sd else 0) > 0, 1, -1)]
    err = [sd] * n
    data = {'UID': uid, 'PPolarity': {'Stations': {'Name': names, 'Azimuth': np.matrix(az).T, 'TakeOffAngle': np.matrix(to).T},
                                      'Measured': np.matrix(meas).T, 'Error': np.matrix(err).T}}
    recs, w = False, False
    if K:
        recs = [{'Name': list(names), 'Azimuth': np.matrix(az + rng.uniform(-20, 20, n)).T, 'TakeOffAngle': np.matrix(np.clip(to + rng.uniform(-15, 15, n), 0, 180)).T} for _ in range(K)]
        w = [round(float(x), 4) for x in rng.uniform(0.2, 3, K)]
    obs = [dict(key='PPolarity', fn='pol', phases=['p'], name=names[k], az=[float(az[k])] if not K else [float(r['Azimuth'][k, 0]) for r in recs],
                toa=[float(to[k])] if not K else [float(r['TakeOffAngle'][k, 0]) for r in recs], meas=[meas[k]], err=[err[k]], ipp=0.) for k in range(n)]
    return (data, recs, w, obs, centre) if inner else (data, recs, w, obs)


def matrices(data, recs):
    a, e, ipp = inv.polarity_matrix(data, recs)
    return (a, e, False, False, False, False, False, False, False), ipp


def reference(data, recs, w, mts):
    m, ipp = matrices(data, recs)
    r = ForwardTask(np.ascontiguousarray(mts), *m, location_sample_multipliers=w, incorrect_polarity_prob=ipp, return_zero=True)()
    return np.asarray(getattr(r['ln_pdf'], '_ln_pdf', r['ln_pdf']), dtype=float).ravel()


def same(a, b):
    """largest difference of two lists of logarithms"""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or np.any(np.isnan(a)) or np.any(np.isneginf(a) != np.isneginf(b)):
        return 1e300
    f = np.isfinite(a)
    return float(np.max(np.abs(a[f] - b[f]) / np.maximum(1, np.abs(b[f])))) if f.any() else 0.


def chain(kind, s, M, L, sp, ln, prob, total, accepted, rate, pdc, probs, constrained, err='', **more):
    """what a finished run returned"""
    n = len(probs)
    ev = dict(op=kind, scen=s, M=M, L=L, error=err, entries=len(ln), lens=[], total=total, accepted=accepted, rate=rate, pdc=pdc, constrained=constrained, changes=0, held=False, finite=True,
              dcs=[], lndev=0., probdev=0., maxnorm=0., some=[], obs=[p[3] for p in probs], w=[p[2] or [1.0] for p in probs])
    ev.update(more)
    if not err:
        ev['lens'] = [x.shape[1] for x in sp]
        if all(x.shape[1] == len(ln) for x in sp) and len(ln) > 1:
            diff = np.any([np.any(x[:, 1:] != x[:, :-1], axis=0) for x in sp], axis=0)
            ev['changes'], ev['held'] = int(np.sum(diff)), bool(not diff[0] and ln[0] == ln[1])
            ev['dcs'] = [sum(isdc(x[:, k]) for k in range(x.shape[1])) for x in sp]
            ev['maxnorm'] = float(max(np.max(np.abs(np.sum(x * x, axis=0) - 1)) for x in sp))
            with quiet():
                ev['lndev'] = same(np.asarray(ln), sum(reference(*(p[:3] + (x,))) for p, x in zip(probs, sp)))
            lm = np.max(ln)
            if np.isfinite(lm):
                ev['probdev'] = float(np.max(np.abs(np.asarray(prob) - np.max(prob) * np.exp(np.asarray(ln) - lm)) / np.max(prob))) if len(prob) == len(ln) and np.max(prob) > 0 else 1e300
            pick = sorted(set([0, len(ln) - 1] + [int(k) for k in rng.randint(0, len(ln), 2)]))
            ev['some'] = [dict(m=[[float(v) for v in x[:, k]] for x in sp], ln=float(ln[k])) for k in pick]
    out.emit(**ev)


def run(s):
    data, recs, w, obs = p = problem(s['data'], s['locations'])
    m, ipp = matrices(data, recs)
    kw = dict(learning_length=s['L'], chain_length=s['M'], acceptance_rate_window=7, dc=s['model'] == 'dc', min_acceptance_rate=0.02, initial_sample='random', trans_dimensional='transd' in s['api'])
    kw['number_samples'] = 50 if 'mtry' in s['api'] else 0
    if 'transd' in s['api']:
        kw.update(dimension_jump_prob=0.3)
    if s['start'] == 'grid':
        kw.update(initial_sample='grid', min_number_initialisation_samples=1000 if s['data'] != 'hard' else 3000)
    t = dict()

    def go():
        t['task'] = McMCForwardTask(kw, *m, incorrect_polarity_prob=ipp, fid='x', event_data=data, location_samples=recs, location_sample_multipliers=w, convert=s['convert'])
        r = t['task']()
        return r['algorithm_output_data']
    with quiet():
        o, err = limited(100, go)
    got = None
    if not err:
        got, err = attempt(lambda: (spaces(o, 1), num(o['ln_pdf']), num(o['probability']), int(o['total_number_samples']), int(o['accepted']), float(o['acceptance_rate']), num(o['pDC']) if 'pDC' in o else []))
    chain('run', s, s['M'], s['L'], *((got or ([], [], [], 0, 0, 0., [])) + ([p], s['model'] == 'dc' and 'transd' not in s['api'], err)))


def front(s):
    for f in glob.glob('*'):
        os.remove(f)
    probs = [problem('broad' if k else 'peaked', uid='E%d' % k) for k in range(s['events'])]
    kw = dict(algorithm=s['algorithm'], parallel=s['parallel'], n=2, phy_mem=1, dc=s['dc'], learning_length=s['L'], chain_length=s['M'], acceptance_rate_window=9, output_format='pickle',
              inversion_options=['PPolarity'], min_number_initialisation_samples=1000, number_samples=[0, 40][s['number']], convert=False)
    if s['joint']:
        kw['multiple_events'] = True
    shown = ['E%d' % k for k in range(s['events'])] if not s['joint'] else ['']

    def go():
        Inversion([p[0] for p in probs] if s['events'] > 1 else probs[0][0], **kw).forward()
        fs = sorted(f for f in os.listdir('.') if f.endswith('.out'))
        if len(fs) != len(shown) or not all(u in f for u, f in zip(shown, fs)):
            raise ValueError('files ' + ' '.join(fs))
        return [pickle.load(open(f, 'rb'))['Events'] for f in fs]
    with quiet():
        o, err = limited(120, go)
    for k, u in enumerate(shown):
        ps = probs if s['joint'] else [probs[k]]
        if err:
            chain('front', s, s['M'], s['L'], [], [], [], 0, 0, 0., [], ps, False, err)
        else:
            e = o[k]
            got, er = attempt(lambda: (spaces(e, len(ps), 'MTSpace'), num(e['ln_pdf']), num(e['Probability']), int(e['NSamples']), int(e['accepted']), float(e['acceptance_rate']), num(e['pDC']) if 'pDC' in e else []))
            chain('front', s, s['M'], s['L'], *((got or ([], [], [], 0, 0, 0., [])) + (ps, s['dc'] and s['algorithm'] == 'mcmc', er)))


# ---- the posterior -------------------------------------------------------------------------------------
def post(s):
    data, recs, w, obs, centre = problem(s['data'], 3 if s['data'] == 'locations' else 0, inner=True)
    m, ipp = matrices(data, recs)
    multi = 'mtry' in s['api'] and COMPILED
    M = (45000 if multi else 8000 if COMPILED else 4000) * (8 if vdrv.TIER == 'thorough' else 1)
    td = 'transd' in s['api']
    kw = dict(trans_dimensional=td, initial_sample='random', learning_length=400 if not multi else 3000, chain_length=M, acceptance_rate_window=100 if not multi else 500,
              dc=s['model'] == 'dc', number_samples=100 if multi else 0)
    if td:
        kw.update(dimension_jump_prob=0.25, gaussian_jump_params=True, dc_sigma_g=0.15, dc_sigma_d=0.4)

    def sample(model, N):
        ms, ln = [], []
        for _ in range(N // 20000):
            x = unit(rng.randn(6, 20000)) if model == 'mt' else randomdc(20000)
            ms.append(x)
            ln.append(reference(data, recs, w, x))
        return np.concatenate(ms, axis=1), np.concatenate(ln)

    def go():
        r = McMCForwardTask(kw, *m, incorrect_polarity_prob=ipp, fid='x', event_data=data, location_samples=recs, location_sample_multipliers=w)()['algorithm_output_data']
        sp, ln = spaces(r, 1)[0], num(r['ln_pdf'])
        return sp, ln, num(r['pDC']) if td else []
    ev = dict(op='post', scen=s, error='', M=M, funcs=[], pdc=[], entries=0, ess=0., inside=0.)
    with quiet():
        ref, rln = sample('dc' if s['model'] == 'dc' else 'mt', 400000)
        rdc, dln = sample('dc', 100000) if td else (None, np.zeros(1))
        # peaked data: a chain may take for ever from one end of the parameter ranges to the other, so only what is around the source is compared
        peaked = s['data'] != 'broad'
        whole = lambda x: np.ones(x.shape[1], dtype=bool)
        within = (lambda x: box(x, centre)) if peaked else whole
        for _ in range(4):
            got, ev['error'] = limited(400, go)
            if ev['error']:
                break
            here = within(got[0])
            if np.mean(here) > .1:
                break
    if not ev['error']:
        sp, ln, pdc = got
        lm = max(rln.max(), dln.max())
        wt = np.exp(rln - lm) * within(ref)
        wd = np.exp(dln - lm) * within(rdc) if td else None
        ev['ess'], ev['entries'], ev['inside'] = float(np.sum(wt) ** 2 / np.sum(wt ** 2)), sp.shape[1], float(np.mean(here))
        dc = np.array([isdc(sp[:, k]) for k in range(sp.shape[1])]) if td else ~whole(sp)
        use = here & ~dc
        nb = 25

        def batches(f, u):
            """ratio of the means of f*u and u, with the deviation from batches"""
            f, u = f.astype(float), u.astype(float)
            B = len(f) // nb
            fb = np.array([np.sum((f * u)[k * B:(k + 1) * B]) for k in range(nb)])
            ub = np.array([np.sum(u[k * B:(k + 1) * B]) for k in range(nb)])
            r = np.sum(fb) / np.sum(ub)
            return float(r), float(np.sqrt(np.sum((fb - r * ub) ** 2) / (nb - 1) * nb) / np.sum(ub))
        for q in range(14 if np.sum(use) > 300 else 0):
            d = np.eye(6)[q] if q < 6 else unit(rng.randn(6))
            if q >= 12:  # the volume
                a, b = np.abs(sp[0] + sp[1] + sp[2]), np.abs(ref[0] + ref[1] + ref[2])
            else:
                a, b = d @ sp, d @ ref
            order = np.argsort(b)
            c = b[order][np.searchsorted(np.cumsum(wt[order]) / np.sum(wt), [0.25, 0.5, 0.75][q % 3])]
            fa, fb = a <= c, b <= c
            ra = batches(fa, use)
            rb = np.sum(wt * fb) / np.sum(wt)
            ev['funcs'].append(dict(chain=ra[0], sec=ra[1], prior=float(rb), sep=float(np.sqrt(np.sum((wt * (fb - rb)) ** 2)) / np.sum(wt))))
            if s['model'] == 'dc' and q == 11:
                break
        if td:
            r = batches(dc, here)
            ev['pdc'] = [dict(share=r[0], sec=r[1], all=float(np.mean(dc)), got=pdc[0], zm=float(np.mean(wt)), zd=float(np.mean(wd)), szm=float(np.std(wt) / len(wt) ** .5),
                              szd=float(np.std(wd) / len(wd) ** .5))]
    out.emit(**ev)


RUN = dict(hist=hist, run=run, front=front, post=post)
# the longest first, dealt out one by one
ss = scenarios(scen)
for op in ('post', 'front', 'run', 'hist'):
    mine = [s for s in ss if s['op'] == op]
    mine = [mine[j] for j in np.random.RandomState(vdrv.SEED).permutation(len(mine))]
    if vdrv.TIER == 'quick':
        if not COMPILED and op in ('post', 'hist'):     # without the compiled module the multiple-try classes run the code of the single-try ones
            mine = [s for k, s in enumerate(mine) if 'mtry' not in s['api'] or op == 'hist' and k % 4 == 0]
        if op == 'run':
            mine = mine[:200]
        if op == 'hist':
            mine = mine[::2]
    if os.environ.get('VP_TIMES'):
        import time
        t0 = time.time()
    for s in mine[shard::shards]:
        RUN[op](s)
    if os.environ.get('VP_TIMES'):
        sys.stderr.write('%s %d %.1f\n' % (op, len(mine), time.time() - t0))
out.close()
os.chdir('/')
shutil.rmtree(TMP)
