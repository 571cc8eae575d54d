import contextlib
import io
import os
import pickle
import shutil
import sys
import tempfile
from drivers.vdrv import *
from MTfit import inversion as inv
from MTfit.inversion import MultipleEventsForwardTask, Inversion
from MTfit.probability import relative_amplitude_ratio_ln_pdf

scen, outp = sys.argv[1:3]
shard, shards = int(sys.argv[3]), int(sys.argv[4])
rng = seed('c15', shard)
out = Out(outp)
TMP = tempfile.mkdtemp(prefix='c15', dir=os.path.dirname(os.path.abspath(outp)))
os.chdir(TMP)
PH = {'PPolarity': ['p'], 'PPolarityProbability': ['p'], 'P/SHAmplitudeRatio': ['p', 'sh']}
FN = {'PPolarity': 'pol', 'PPolarityProbability': 'prob', 'P/SHAmplitudeRatio': 'ratio'}


def coef(ph, az, t):
    g = np.array([np.cos(az) * np.sin(t), np.sin(az) * np.sin(t), np.cos(t)])
    m = {'p': g, 'sh': np.array([-np.sin(az), np.cos(az), 0]), 'sv': np.array([np.cos(az) * np.cos(t), np.sin(az) * np.cos(t), -np.sin(t)])}[ph]
    return np.array([m[0] * g[0], m[1] * g[1], m[2] * g[2], (m[0] * g[1] + m[1] * g[0]) / 2 ** .5, (m[0] * g[2] + m[2] * g[0]) / 2 ** .5, (m[1] * g[2] + m[2] * g[1]) / 2 ** .5])


def stations(names, ang):
    return {'Name': list(names), 'Azimuth': np.matrix([ang[n][0] for n in names]).T, 'TakeOffAngle': np.matrix([ang[n][1] for n in names]).T}


def samples(ang, names, K):
    """K location records, with all the stations, in one order"""
    if K == 0:
        return None, None
    r = []
    for k in range(K):
        r.append({n: (ang[n][0] + rng.uniform(-10, 10), min(180., max(0., ang[n][1] + rng.uniform(-10, 10)))) for n in names})
    return r, [stations(names, a) for a in r]


def perm(x):
    return [x[k] for k in rng.permutation(len(x))]


def own(kind, base, names, ang, locs, amps_from=None):
    """one event's own data and the observations it stands for"""
    keys = {'pol': ['PPolarity'], 'hard': ['PPolarity'], 'ratio': ['P/SHAmplitudeRatio'], 'prob': ['PPolarityProbability'], 'all': ['PPolarity', 'P/SHAmplitudeRatio']}[kind]
    data, obs = {}, []
    for key in keys:
        mine = perm(names)[:rng.randint(1, 4)]
        n = len(mine)
        at = locs[0] if locs else ang
        amps = [[float(coef(p, np.radians(at[x][0]), np.radians(at[x][1])).dot(base)) for p in PH[key]] for x in mine]
        if key == 'PPolarity':
            meas = np.array([[1. if a[0] > 0 else -1.] for a in amps])
            if rng.rand() < 0.3:
                meas[0] *= -1
            err = np.zeros((n, 1)) if kind == 'hard' else rng.uniform(0.05, 0.5, (n, 1))
        elif key == 'PPolarityProbability':
            meas = rng.uniform(0, 1, (n, 2))
            meas = meas / np.maximum(1, meas.sum(1))[:, None]
            err = None
        else:
            f = rng.uniform(0.05, 0.6, (n, 2))
            meas = np.array([[abs(a) + .01 for a in x] for x in amps]) * (1 + f * rng.normal(0, .3, (n, 2)))
            err = np.abs(meas) * f
        d = {'Stations': stations(mine, ang), 'Measured': np.matrix(meas)}
        if err is not None:
            d['Error'] = np.matrix(err)
        data[key] = d
        for k, x in enumerate(mine):
            obs.append(dict(key=key, fn=FN[key], phases=PH[key], name=x, az=[l[x][0] for l in (locs or [ang])], toa=[l[x][1] for l in (locs or [ang])],
                            meas=meas[k], err=[] if err is None else err[k], ipp=0.0))
    return data, obs


def relative(base, M0, names, ang, locs, phases, exact=False):
    data, amps = {}, []
    for ph in ['p', 'sh'][:phases]:
        mine = perm(names) if ph == 'sh' and rng.rand() < 0.5 else list(names)
        if ph == 'sh' and rng.rand() < 0.3:
            mine = mine[:max(1, len(mine) - 1)]
        n = len(mine)
        at = locs[0] if locs else ang
        a = np.array([abs(float(coef(ph, np.radians(at[x][0]), np.radians(at[x][1])).dot(base))) + .02 for x in mine])
        f = rng.uniform(0.03, 0.5, n)
        if exact:
            f = np.exp(rng.uniform(np.log(5e-4), np.log(5e-3), n))
            a = np.array([abs(float(coef(ph, np.radians(at[x][0]), np.radians(at[x][1])).dot(base))) for x in mine]) * M0 * (1 + .3 * f * rng.normal(0, 1, n))
        else:
            a = np.abs(a * M0 * (1 + f * rng.normal(0, .5, n))) + 1e-3
        key = {'p': 'PAmplitude', 'sh': 'SHRMSAmplitude' if rng.rand() < 0.5 else 'SHAmplitude'}[ph]
        data[key] = {'Stations': stations(mine, ang), 'Measured': np.matrix(a * rng.choice([1, -1] if rng.rand() < .3 else [1], n)).T, 'Error': np.matrix(a * f).T}
        for k, x in enumerate(mine):
            amps.append(dict(name=x, phase=ph, az=[l[x][0] for l in (locs or [ang])], toa=[l[x][1] for l in (locs or [ang])], amp=a[k], frac=f[k]))
    return data, amps


def events(s):
    E = s['E']
    pool = ['S%d' % k for k in range(12)]
    ang0 = {n: (rng.uniform(0, 360), rng.uniform(5, 175)) for n in pool}
    K = {'none': 0, 'events': 3, 'shared': int(rng.randint(2, 4))}[s['loc']]
    locs, recs = samples(ang0, perm(pool), K)
    w = None if K == 0 or rng.rand() < .4 else [round(float(x), 4) for x in rng.uniform(.1, 4, K)]
    base = unit(rng.randn(6))
    res = []
    kinds = [s['own'] if s['own'] != 'mixed' else ['pol', 'hard', 'ratio', 'prob', 'all'][rng.randint(5)] for _ in range(E)]
    if s['own'] == 'mixed':  # the entry points take polarities and polarity probabilities of all the events as lists
        kinds = ['hard' if rng.rand() < .5 else k for k in kinds]
    for e in range(E):
        # without location samples every event has its own angles
        ang = ang0 if K else {n: (ang0[n][0] + rng.uniform(-8, 8), min(180., max(0., ang0[n][1] + rng.uniform(-8, 8)))) for n in pool}
        b = unit(base + .3 * rng.randn(6))
        d, obs = own(kinds[e], b, pool[:6], ang, locs)
        if s['over'] in ('full', 'order'):
            mine = pool[:4]
        elif s['over'] == 'none':
            mine = pool[3 * e:3 * e + 3]
        elif s['over'] == 'one':
            mine = [pool[0]] + pool[1 + 2 * e:3 + 2 * e]
        elif s['over'] == 'subset':
            mine = pool[:2 + e]
        else:
            mine = [n for n in pool[:6] if rng.rand() < .7] or [pool[0]]
        if s['over'] != 'full':
            mine = perm(mine)
        amps = []
        if s['rel']:
            dr, amps = relative(b, 10 ** rng.uniform(-1.5, 1.5), mine, ang, locs, s['phases'], s['op'] == 'rule')
            d.update(dr)
        d['UID'] = 'ev%d' % e
        res.append((d, obs, amps, b))
    return res, recs, w, K


def matrices(evs, recs, rel):
    L = [[] for _ in range(14)]
    for d, _, _, _ in evs:
        a, err, ipp = inv.polarity_matrix(d, recs or False)
        a1, a2, r, e1, e2 = inv.amplitude_ratio_matrix(d, recs or False)
        ap, pp, ipp2 = inv.polarity_probability_matrix(d, recs or False)
        x = [a, err, a1, a2, r, e1, e2, ap, pp]
        x += list(inv.relative_amplitude_ratio_matrix(d, recs or False)) if rel else [False] * 4
        x += [ipp2 if isinstance(a, bool) else ipp]
        for l, v in zip(L, x):
            l.append(v)
    return L


def tuples(evs, n):
    """n candidate tuples: near the sources, and anywhere"""
    ms = []
    for _, _, _, b in evs:
        m = unit(rng.randn(6, n))
        near = rng.rand(n) < .6
        m[:, near] = unit(b[:, None] + .2 * rng.randn(6, int(near.sum())))
        ms.append(np.ascontiguousarray(m))
    return ms


def match(ms, got):
    if got is None or not len(got) or np.asarray(got[0]).size == 0:
        return []
    if len(got) != len(ms) or len({np.asarray(x).shape for x in got}) != 1:
        return [0]
    key = {b''.join(m[:, k].tobytes() for m in ms): k + 1 for k in range(ms[0].shape[1])}
    g = [np.asarray(x, dtype=float) for x in got]
    return [key.get(b''.join(np.ascontiguousarray(x[:, c]).tobytes() for x in g), 0) for c in range(g[0].shape[1])]


def single(o, p, k, ma, mb):
    """the estimate of one station"""
    ph = o['phase']
    a = coef(ph, np.radians(o['az'][k]), np.radians(o['toa'][k])).reshape(1, 1, 6)
    b = coef(ph, np.radians(p['az'][k]), np.radians(p['toa'][k])).reshape(1, 1, 6)
    with contextlib.redirect_stdout(io.StringIO()):
        r = relative_amplitude_ratio_ln_pdf(np.array([o['amp']]), np.array([p['amp']]), np.ascontiguousarray(ma.reshape(6, 1)), np.ascontiguousarray(mb.reshape(6, 1)),
                                            a, b, np.array([o['frac']]), np.array([p['frac']]))
    return [float(np.ravel(r[1])[0]), float(np.ravel(r[2])[0])]


def estimates(evs, ms, K):
    """per candidate, pair, location sample, station (in the station order of the later event)"""
    res = []
    for c in range(ms[0].shape[1]):
        pairs = []
        for i in range(len(evs)):
            for j in range(i):
                there = {(p['name'], p['phase']): p for p in evs[j][2]}
                pairs.append([[single(o, there[(o['name'], o['phase'])], k, ms[i][:, c], ms[j][:, c]) for o in evs[i][2] if (o['name'], o['phase']) in there] for k in range(max(K, 1))])
        res.append(pairs)
    return res


def scales(sf, cols, K, E):
    if isinstance(sf, bool) or sf is None or not len(cols):
        return [], []
    mu, sg = [], []
    for x in sf:
        for l, key in ((mu, 'mu'), (sg, 'sigma')):
            l.append(np.asarray(x[key], dtype=float).reshape((max(K, 1), E, E)))
    return mu, sg


def report(s, evs, w, K, ms, results, tried, op, complete, extra):
    """emit one event per call of the task"""
    for (r, err), m in zip(results, ms):
        ev = dict(op=op, scen=s, error=err, own=[e[1] for e in evs], amps=[e[2] for e in evs], w=w or [1.0] * max(K, 1), rel=s['rel'], min=s['min'], mode='shared' if s['loc'] == 'shared' else 'events',
                  keep=s.get('keep', False), complete=complete, mts=[[x[:, c] for x in m] for c in range(m[0].shape[1])], cols=[], lnp=[], scale=[], sigma=[], n=0, tried=tried, est=[])
        ev.update(extra)
        if not err:
            ev['cols'] = match(m, r['moment_tensors'])
            x = np.asarray(getattr(r['ln_pdf'], '_ln_pdf', r['ln_pdf']), dtype=float)
            ev['lnp'] = (x.tolist() if x.ndim == 2 else [x.tolist()]) if len(ev['cols']) else []
            ev['n'] = int(r['n'])
            if s['rel']:
                ev['est'] = estimates(evs, m, K)
                (sc, se) = attempt(scales, r.get('scale_factor'), ev['cols'], K, len(evs))
                if sc:
                    ev['scale'], ev['sigma'] = sc
        out.emit(**ev)


def task(s):
    evs, recs, w, K = events(s)
    M = matrices(evs, recs, s['rel'])
    n = 1 if rng.rand() < .1 else 3 if s['E'] == 4 and s['rel'] else 5
    calls = [tuples(evs, n) for _ in range(3 if s['reuse'] else 1)]
    if s['reuse'] and rng.rand() < .7:  # a first call with nothing possible for one of the events
        for m in calls[0]:
            m *= -1
    kw = dict(incorrect_polarity_prob=M[13], minimum_number_intersections=s['min'], return_zero=s['keep'], reuse=s['reuse'], relative=s['rel'], location_sample_size=max(K, 1),
              marginalise_relative=s['loc'] != 'shared', location_sample_multipliers=w or False)
    results = []
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        t = None
        for m in calls:
            def run():
                nonlocal t
                mm = [x.copy() for x in m]
                if t is None:
                    t = MultipleEventsForwardTask(mm, *M[:13], **kw)
                else:
                    t.mts = mm
                return t()
            results.append(limited(30, run))
    report(s, evs, w, K, calls, results, n, 'task', True, {})


def rule(s):
    evs, recs, w, K = events(s)
    M = matrices(evs, recs, s['rel'])
    n = 6
    ms = tuples(evs, n)
    last = int(rng.randint(1, s['E']))
    for c in perm(list(range(n)))[:4]:  # columns which satisfy the pairs of the first events, all of them or none
        for e, ev in enumerate(evs):
            if c % 2 or e <= last:
                ms[e][:, c] = unit(ev[3] + 1e-5 * rng.randn(6)) * (1 if rng.rand() < .8 else -1)

    def run():
        return MultipleEventsForwardTask([x.copy() for x in ms], *M[:13], incorrect_polarity_prob=M[13], minimum_number_intersections=s['min'], return_zero=s['keep'], relative=True,
                                         location_sample_size=max(K, 1), marginalise_relative=s['loc'] != 'shared', location_sample_multipliers=w or False)()
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        r = limited(30, run)
    report(s, evs, w, K, [ms], [r], n, 'rule', True, {})


def loop(s):
    """the optional mode which combines the possible samples of each event"""
    evs, recs, w, K = events(s)
    M = matrices(evs, recs, s['rel'])
    ms = tuples(evs, 5)

    def run():
        r = MultipleEventsForwardTask([x.copy() for x in ms], *M[:13], incorrect_polarity_prob=M[13], minimum_number_intersections=s['min'], relative=s['rel'], marginalise_relative=True, combine=False)()
        r['moment_tensors'] = [np.asarray(x, dtype=float) for x in r['moment_tensors']]
        return r
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        r, err = limited(30, run)
    report(s, evs, w, K, [r['moment_tensors'] if not err else ms], [(r, err)], 5, 'loop', False, {})


def pair(s):
    n, K, C = s['n'], s['K'], 3
    lo, hi = {'typical': (.05, .5), 'small': (1e-4, 1e-2), 'large': (.3, 3), 'uneven': (1e-3, 1)}[s['f']]
    base = unit(rng.randn(6))
    A, B = [], []
    for k in range(n):
        az, to = rng.uniform(0, 360, K), rng.uniform(5, 175, K)
        az2, to2 = az + rng.uniform(-5, 5, K), np.clip(to + rng.uniform(-5, 5, K), 0, 180)
        ph = ['p', 'sh', 'sv'][rng.randint(3)]
        f = np.exp(rng.uniform(np.log(lo), np.log(hi), 2))
        x = abs(coef(ph, np.radians(az[0]), np.radians(to[0])).dot(base)) + 1e-2
        y = abs(coef(ph, np.radians(az2[0]), np.radians(to2[0])).dot(base)) + 1e-2
        A.append(dict(name='S%d' % k, phase=ph, az=az, toa=to, amp=7 * x * np.exp(.3 * f[0] * rng.normal()), frac=f[0]))
        B.append(dict(name='S%d' % k, phase=ph, az=az2, toa=to2, amp=y * np.exp(.3 * f[1] * rng.normal()), frac=f[1]))
    ms = [np.ascontiguousarray(unit(base[:, None] + .2 * rng.randn(6, C))) for _ in range(2)]

    def run(order):
        o = [np.array([[coef(r['phase'], np.radians(r['az'][k]), np.radians(r['toa'][k])) for k in range(K)] for r in (l[j] for j in order)]) for l in (A, B)]
        v = [np.array([l[j][q] for j in order]) for q in ('amp', 'frac') for l in (A, B)]
        lnp, mu, sg = relative_amplitude_ratio_ln_pdf(v[0], v[1], ms[0], ms[1], o[0], o[1], v[2], v[3])
        return [np.asarray(q, dtype=float).reshape((K, C)) for q in (lnp, mu, sg)]
    with contextlib.redirect_stdout(io.StringIO()):
        r, e1 = attempt(run, list(range(n)))
        order = list(range(n))[::-1] if s['order'] == 'reverse' else list(rng.permutation(n))
        r2, e2 = attempt(run, order)
    ev = dict(op='pair', scen=s, error=e1 or e2, a=A, b=B, mts=[[ms[0][:, c], ms[1][:, c]] for c in range(C)], mu=[], s=[], lnp=[], mu2=[], s2=[], lnp2=[],
              est=[[[single(A[u], B[u], k, ms[0][:, c], ms[1][:, c]) for u in range(n)] for k in range(K)] for c in range(C)])
    if not ev['error']:
        ev['lnp'], ev['mu'], ev['s'] = r
        ev['lnp2'], ev['mu2'], ev['s2'] = r2
    out.emit(**ev)


def limit(s):
    n, eps, true = s['n'], float(s['eps']), float(s['scale'])
    C = 3
    ms = [np.ascontiguousarray(unit(rng.randn(6, C))) for _ in range(2)]
    mu, sg, lp, err = [], [], [], ''
    noise = eps if s['noise'] else 0.0
    for c in range(C):
        a, b = np.zeros((n, 1, 6)), np.zeros((n, 1, 6))
        for k in range(n):
            while True:
                az, to = rng.uniform(0, 2 * np.pi), rng.uniform(.1, 3)
                ph = ['p', 'sh', 'sv'][rng.randint(3)]
                a[k, 0] = coef(ph, az, to)
                b[k, 0] = coef(ph, az + rng.uniform(-.1, .1), to + rng.uniform(-.05, .05))
                if min(abs(a[k, 0].dot(ms[0][:, c])), abs(b[k, 0].dot(ms[1][:, c]))) > .02:
                    break
        x = true * np.abs(a[:, 0].dot(ms[0][:, c])) * (1 + noise * rng.uniform(-1, 1, n))
        y = np.abs(b[:, 0].dot(ms[1][:, c])) * (1 + noise * rng.uniform(-1, 1, n))
        with contextlib.redirect_stdout(io.StringIO()):
            r, e = attempt(relative_amplitude_ratio_ln_pdf, x, y, np.ascontiguousarray(ms[0][:, c:c + 1]), np.ascontiguousarray(ms[1][:, c:c + 1]), a, b,
                           eps * rng.uniform(.5, 1, n), eps * rng.uniform(.5, 1, n))
        err = err or e
        if not e:
            lp.append(float(np.ravel(r[0])[0]))
            mu.append(float(np.ravel(r[1])[0]))
            sg.append(float(np.ravel(r[2])[0]))
    # far below the rounding of the amplitudes the ratio-likelihood itself is a rounding matter
    out.emit(op='limit', scen=s, error=err, eps=eps, noise=2 * noise, true=true, mu=mu, s=sg, lnp=lp if eps >= 1e-6 else [])


def inversion(s):
    evs, recs, w, K = events(s)
    data = [e[0] for e in evs]
    total = int(rng.randint(4, 9))
    kw = dict(algorithm='iterate', parallel=False, multiple_events=True, relative_amplitude=s['rel'], max_samples=total, phy_mem=1e-3, convert=False, minimum_number_intersections=s['min'])

    def run():
        i = Inversion(data, **kw)
        i.output = lambda *a, **k: None
        i.algorithm_seen = None
        i.forward()
        p = i.algorithm.pdf_sample
        x = np.asarray(p.ln_pdf._ln_pdf, dtype=float)
        x = x.reshape((1, x.size)) if x.size else np.zeros((1, 0))
        m = [np.ascontiguousarray(np.asarray(q, dtype=float)[:, :x.shape[1]]) for q in p.moment_tensors] if isinstance(p.moment_tensors, (list, tuple)) else np.asarray(p.moment_tensors, dtype=float)[:, :x.shape[1]]
        if not isinstance(m, list):
            m = [np.ascontiguousarray(m[6 * e:6 * e + 6]) for e in range(len(evs))]
        return dict(moment_tensors=m, ln_pdf=x, n=int(p.n), scale_factor=getattr(p, 'scale_factor', None))
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        r, err = limited(60, run)
    m = r['moment_tensors'] if not err else [np.zeros((6, 0))] * len(evs)
    keep = min(6, m[0].shape[1])
    if not err:
        r['moment_tensors'] = m = [np.ascontiguousarray(x[:, :keep]) for x in m]
        r['ln_pdf'] = r['ln_pdf'][:, :keep]
        if s['rel'] and r['scale_factor'] is not None and not isinstance(r['scale_factor'], bool):
            r['scale_factor'] = list(r['scale_factor'])[:keep]
    report(s, evs, w, K, [m], [(r, err)], r['n'] if not err else total, 'inversion', False, dict(opts=str(kw)))


ss = scenarios(scen)
ss = [ss[k] for k in np.random.RandomState(SEED).permutation(len(ss))][shard::shards]
N = {'quick': dict(task=28, rule=10, pair=8, limit=16, inversion=8, loop=1), 'thorough': dict(task=1500, rule=200, pair=40, limit=60, inversion=300, loop=8)}[TIER]
for op in ('task', 'rule', 'pair', 'limit', 'inversion', 'loop'):
    mine = [s for s in ss if s['op'] == op]
    for j in rng.permutation(len(mine))[:N[op]]:
        globals()[op](mine[j])
out.close()
shutil.rmtree(TMP)
