import contextlib
import io
import os
import shutil
import sys
import tempfile
from drivers.vdrv import *
from MTfit import inversion as inv
from MTfit.inversion import ForwardTask, Inversion

scen, outp = sys.argv[1:3]
shard, shards = int(sys.argv[3]), int(sys.argv[4])
rng = seed('c01', shard)
out = Out(outp)
TMP = tempfile.mkdtemp(prefix='c01', dir=os.path.dirname(os.path.abspath(outp)))
os.chdir(TMP)
KEYS = {'pol': ['PPolarity', 'SHPolarity'], 'prob': ['PPolarityProbability', 'SVPolarityProbability'], 'ratio': ['P/SHAmplitudeRatio', 'P/SVAmplitudeRatio']}
PH = {'PPolarity': ['p'], 'SHPolarity': ['sh'], 'PPolarityProbability': ['p'], 'SVPolarityProbability': ['sv'], 'P/SHAmplitudeRatio': ['p', 'sh'], 'P/SVAmplitudeRatio': ['p', 'sv']}


def coef(ph, az, t):
    g = np.array([np.cos(az) * np.sin(t), np.sin(az) * np.sin(t), np.cos(t)])
    m = {'p': g, 'sh': np.array([-np.sin(az), np.cos(az), 0]), 'sv': np.array([np.cos(az) * np.cos(t), np.sin(az) * np.cos(t), -np.sin(t)])}[ph]
    return np.array([m[0] * g[0], m[1] * g[1], m[2] * g[2], (m[0] * g[1] + m[1] * g[0]) / 2 ** .5, (m[0] * g[2] + m[2] * g[0]) / 2 ** .5, (m[1] * g[2] + m[2] * g[1]) / 2 ** .5])


def tensors(kind):
    n = {'one': 1}.get(kind, 5)
    m = unit(rng.randn(6, n))
    if n > 1:  # a double couple and an explosion
        d = np.outer(*np.linalg.qr(rng.randn(3, 3))[0][:2])
        d = d + d.T
        m[:, 1] = unit(np.array([d[0, 0], d[1, 1], d[2, 2], 2 ** .5 * d[0, 1], 2 ** .5 * d[0, 2], 2 ** .5 * d[1, 2]]))
    return np.ascontiguousarray(m)


def problem(s, base, cands=None):
    """data dictionary, location records + weights, and the observations they stand for"""
    # small errors at many stations: log-likelihoods of the candidates further apart than doubles reach
    names = ['S%02d' % k for k in range(rng.randint(100, 150) if s['sigma'] == 'tiny' else rng.randint(2, 6))]
    loc = s['loc']
    recs = ang = w = None
    if loc['from'] == 'records':
        K = loc['K']
        centre = {n: (rng.uniform(0, 360), rng.uniform(5, 175)) for n in names + ['Z1']}
        full = names + (['Z1'] if rng.rand() < 0.5 else [])
        ang = []
        for k in range(K):
            if loc['order'] == 'dup' and k > 0 and (k == 1 or rng.rand() < 0.5):
                ang.append(ang[rng.randint(k)])
            else:
                ang.append({n: (round(centre[n][0] + rng.uniform(-15, 15), 3), round(min(180., max(0., centre[n][1] + rng.uniform(-15, 15))), 3)) for n in full})
        recs = []
        for k in range(K):
            o = [full[j] for j in rng.permutation(len(full))] if k == 0 or loc['order'] == 'vary' else list(recs[0]['Name'])
            recs.append({'Name': o, 'Azimuth': np.matrix([ang[k][n][0] for n in o]).T, 'TakeOffAngle': np.matrix([ang[k][n][1] for n in o]).T})
        w = {'none': lambda: None, 'ones': lambda: [1.0] * K, 'meanone': lambda: {2: [0.5, 1.5], 3: [0.25, 1.0, 1.75], 5: [0.5, 0.25, 1.0, 1.5, 1.75], 1: [1.0]}[K],
             'random': lambda: [round(float(x), 4) for x in rng.uniform(0.05, 4, K)], 'large': lambda: [float(int(10 ** rng.uniform(1, 5))) for _ in range(K)]}[loc['weights']]()
    data, obs = {'UID': 'ev'}, []
    kinds = []
    if s['pol'] != 'none':
        kinds += [(s['pol'][:-1], k) for k in KEYS[s['pol'][:-1]][:1 if s['sigma'] == 'tiny' else int(s['pol'][-1])]]
    if s['ratio'] != 'none':
        kinds += [('ratio', k) for k in KEYS['ratio'][:2 if s['ratio'] == 'two' else 1]]
    someless = rng.randint(2)
    for j, (fn, key) in enumerate(kinds):
        mine = [names[k] for k in rng.permutation(len(names))[:len(names) - 2 if s['sigma'] == 'tiny' and fn == 'pol' else rng.randint(1, min(len(names), 5) + 1)]]
        n = len(mine)
        az, to = rng.uniform(-20, 380, n), rng.uniform(2, 178, n)
        if ang is not None and rng.rand() < 0.7:
            az, to = np.array([ang[0][x][0] for x in mine]), np.array([ang[0][x][1] for x in mine])
        amps = [[float(coef(p, np.radians(az[k]), np.radians(to[k])).dot(base)) for p in PH[key]] for k in range(n)]
        err = None
        ipp = np.zeros(n)
        given = False
        if fn != 'ratio' and (s['ipp'] == 'all' or (s['ipp'] == 'some' and j != someless)):
            given = True
            ipp = rng.choice([0.0, 0.05, 0.3, 0.5, 0.9, 1.0], n) if rng.rand() < 0.5 else rng.uniform(0, 1, n)
        if fn == 'pol':
            meas = np.array([[1. if (a[0] > 0) == (rng.rand() < (0.98 if s['sigma'] == 'tiny' else 0.85) or s['cand'] == 'impossible') else -1.] for a in amps])
            err = rng.uniform(0.02, 0.5, (n, 1))
            if s['sigma'] == 'zero':
                err[:] = 0
            elif s['sigma'] == 'tiny':
                # just large enough that no single station excludes a candidate
                at = [[(az[k], to[k])] if ang is None else [r[mine[k]] for r in ang] for k in range(n)]
                top = [max(abs(float(coef(PH[key][0], np.radians(p[0]), np.radians(p[1])).dot(m))) for p in at[k] for m in (np.asarray(cands).T if cands is not None else [base])) for k in range(n)]
                err = np.array(top).reshape(-1, 1) / rng.uniform(4, 8, (n, 1))
            elif s['sigma'] == 'mixed':
                err[rng.randint(n)] = 0
        elif fn == 'prob':
            meas = rng.uniform(0, 1, (n, 2))
            if rng.rand() < 0.3:
                meas[rng.randint(n)] = [0., 1.]
            meas = meas / np.maximum(1, meas.sum(1))[:, None]
        else:
            f = rng.uniform(0.3, 0.6, (n, 2)) if s['sigma'] == 'tiny' else rng.uniform(0.02, 0.6, (n, 2)) if rng.rand() < 0.8 else 10 ** rng.uniform(-5, -1, (n, 2))
            meas = np.array([[a[0] if abs(a[0]) > 1e-3 else .01, a[1] if abs(a[1]) > 1e-3 else .01] for a in amps]) * (1 + f * rng.normal(0, .5, (n, 2)))
            meas *= rng.choice([-1., 1.], (n, 2)) * np.exp(rng.uniform(-5, 5))
            err = np.abs(meas) * f
        d = {'Stations': {'Name': list(mine), 'Azimuth': np.matrix(az).T, 'TakeOffAngle': np.matrix(to).T}, 'Measured': np.matrix(meas)}
        if err is not None:
            d['Error'] = np.matrix(err)
        if given:
            d['IncorrectPolarityProbability'] = np.matrix(ipp).T
        data[key] = d
        for k, nm in enumerate(mine):
            obs.append(dict(key=key, fn=fn, phases=PH[key], name=nm, az=[az[k]] if recs is None else [ang[r][nm][0] for r in range(len(recs))],
                            toa=[to[k]] if recs is None else [ang[r][nm][1] for r in range(len(recs))], meas=meas[k], err=[] if err is None else err[k], ipp=float(ipp[k])))
    return data, recs, w, obs


def match(cands, got):
    got = np.asarray(got, dtype=float)
    if got.size == 0:
        return []
    idx = {cands[:, k].tobytes(): k + 1 for k in range(cands.shape[1])}
    return [idx.get(np.ascontiguousarray(got[:, c]).tobytes(), 0) for c in range(got.shape[1])]


def matrices(data, recs):
    a, err, ipp = inv.polarity_matrix(data, recs)
    ap, pp, ipp2 = inv.polarity_probability_matrix(data, recs)
    a1, a2, r, e1, e2 = inv.amplitude_ratio_matrix(data, recs)
    return a, err, a1, a2, r, e1, e2, ap, pp, (ipp2 if isinstance(a, bool) else ipp)


def rows(lnp):
    x = np.asarray(getattr(lnp, '_ln_pdf', lnp), dtype=float)
    return x.tolist() if x.ndim == 2 else [x.tolist()]


def task(s):
    mts = tensors(s['cand'])
    data, recs, w, obs = problem(s, mts[:, 0], mts)
    gen = s['op'] == 'generate'
    dc = bool(rng.randint(2))
    kw = dict(generate_samples=int(rng.randint(2, 8)), cutoff=400, dc=dc) if gen else {}

    def run():
        m = matrices(data, recs or False)
        arg = False if gen else mts.copy()
        r = ForwardTask(arg, *m[:9], location_sample_multipliers=w or False, incorrect_polarity_prob=m[9], return_zero=s['keep'], marginalise=s['marg'], **kw)()
        return r['moment_tensors'], r['ln_pdf'], r['n']
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        r, err = attempt(run)
    K = len(obs[0]['az'])
    ev = dict(op=s['op'], scen=s, obs=obs, w=w or [1.0] * K, marg=s['marg'], keep=s['keep'], complete=not gen, error=err, cols=[], lnp=[], mts=mts.T, n=0, tried=mts.shape[1])
    if not err:
        if gen:
            g = np.ascontiguousarray(np.asarray(r[0], dtype=float))
            mts = g if g.size else mts[:, :0]
            ev['mts'], ev['tried'] = mts.T, int(r[2])
        ev['cols'], ev['n'] = match(mts, r[0]), r[2]
        ev['lnp'] = rows(r[1]) if len(ev['cols']) else []
    out.emit(**ev)


def scatfile(recs, w):
    with open('loc.scatangle', 'w') as f:
        for r, x in zip(recs, w):
            f.write('%r\n' % x)
            for k, n in enumerate(r['Name']):
                f.write('%s\t%r\t%r\n' % (n, float(r['Azimuth'][k, 0]), float(r['TakeOffAngle'][k, 0])))
            f.write('\n')
    return 'loc.scatangle'


def inversion(s):
    base = unit(rng.randn(6))
    data, recs, w, obs = problem(s, base)
    kw = dict(algorithm='iterate', parallel=False, max_samples=int(rng.randint(5, 20)), phy_mem=float(10 ** rng.uniform(-6, -2)), convert=False)
    keys = [k for k in data if k != 'UID']
    if s['cand'] == 'options':
        ratio = bool(rng.randint(2))
        kw['inversion_options'] = [k for k in keys if ('Ratio' in k) == ratio] or keys
    elif s['cand'] == 'subset':
        kw['inversion_options'] = [keys[j] for j in sorted(rng.permutation(len(keys))[:max(1, len(keys) - 1)])]
    elif rng.rand() < 0.3:
        kw['inversion_options'] = list(keys)
    if s['cand'] == 'dc':
        kw['dc'] = True
    if s['cand'] == 'cgen':
        kw['c_generate'] = True
        kw['max_samples'] = 40
    if 'inversion_options' in kw:
        obs = [o for o in obs if o['key'] in kw['inversion_options']]
    if recs:
        kw['location_pdf_file_path'] = scatfile(recs, w)

    def run():
        i = Inversion(data, **kw)
        i.output = lambda *a, **k: None
        i.forward()
        p = i.algorithm.pdf_sample
        x = np.asarray(p.ln_pdf._ln_pdf, dtype=float)
        x = x.reshape((1, x.size)) if x.size else np.zeros((1, 0))
        return np.ascontiguousarray(np.asarray(p.moment_tensors, dtype=float)[:, :x.shape[1]]), x, int(p.n)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        r, err = limited(60, run)
    K = len(obs[0]['az'])
    ev = dict(op='inversion', scen=s, opts=str(kw), obs=obs, w=w or [1.0] * K, marg=True, keep=False, complete=False, error=err, cols=[], lnp=[], mts=[], n=0, tried=kw['max_samples'])
    if not err:
        m = r[0]
        ev['mts'] = m.T
        ev['cols'] = list(range(1, m.shape[1] + 1))
        ev['lnp'] = r[1] if m.shape[1] else []
        ev['n'] = r[2]
        # a batch is never cut short: the count may exceed the limit by less than a batch
        ev['tried'] = r[2] if r[2] >= kw['max_samples'] else kw['max_samples']
    out.emit(**ev)


ss = scenarios(scen)[shard::shards]
N = {'quick': dict(task=70, tiny=6, generate=20, inversion=20), 'thorough': dict(task=1200, tiny=60, generate=300, inversion=250)}[TIER]
for op in ('task', 'tiny') if JOIN else ('task', 'tiny', 'generate', 'inversion'):
    mine = [s for s in ss if (s['op'] == op and s['sigma'] != 'tiny') or s['sigma'] == op]
    if op == 'generate' and VARIANT != 'c':
        continue
    for j in rng.permutation(len(mine))[:N[op]]:
        (inversion if op == 'inversion' else task)(mine[j])
out.close()
shutil.rmtree(TMP)
