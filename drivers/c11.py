import copy
import sys
from drivers.vdrv import *
from MTfit import inversion as inv

scen, outp = sys.argv[1:3]
shard, shards = int(sys.argv[3]), int(sys.argv[4])
rng = seed('c11', shard)
out = Out(outp)
AZ = {'zero': lambda: 0.0, 'quarter': lambda: 90.0 * rng.randint(1, 4), 'half': lambda: 180.0, 'interior': lambda: rng.uniform(0, 360), 'negative': lambda: -rng.uniform(0, 360),
      'beyond': lambda: rng.uniform(360, 1080), 'huge': lambda: rng.choice([-1, 1]) * 10 ** rng.uniform(3.1, 6), 'boundary': lambda: 360.0}
TO = {'down': lambda: 0.0, 'up': lambda: 180.0, 'horizontal': lambda: 90.0, 'interior': lambda: rng.uniform(0, 180),
      'near': lambda: rng.choice([0.0, 90.0, 180.0]) + 10 ** rng.uniform(-9, -2) * 1.0}


def phases(p):
    return [x.rstrip('q') for x in p.lower().split('/')]


def form(x, f):
    x = np.array(x, dtype=float)
    return {'column': lambda: np.matrix(x).T, 'row': lambda: np.matrix(x), 'list': lambda: x.copy(), 'one': lambda: np.matrix(x).T}[f]()


def rows(res, k):
    res = res if k > 1 else (res,)
    return [np.asarray(x, dtype=float).tolist() for x in res]


def angles(s):
    n = 1 if s['form'] == 'one' else rng.randint(2, 6)
    az = [AZ[s['az']]() for _ in range(n)]
    to = [min(180.0, TO[s['toa']]()) for _ in range(n)]
    if s['radians']:
        az, to = [float(x) for x in np.radians(az)], [float(x) for x in np.radians(to)]
    ph = phases(s['phase'])
    w = rng.uniform(-np.pi, np.pi)
    ms = unit(rng.randn(6, 3)).T.tolist()

    def run(a):
        st = {'Name': ['S%d' % k for k in range(n)], 'Azimuth': form(a, s['form']), 'TakeOffAngle': form(to, s['form'])}
        r = inv.station_angles(st, s['phase'], True) if s['radians'] else inv.station_angles(st, s['phase'])
        return rows(r, len(ph))
    r, err = attempt(run, az)
    ev = dict(op='angles', phases=ph, radians=s['radians'], az=az, toa=to, ms=ms, w=w, error=err, rows=r or [])
    if not err:
        ev['rot'] = run([x + (w if s['radians'] else np.degrees(w)) for x in az])
    out.emit(**ev)


KEYS = {'polarity': ['PPolarity', 'SHPolarity', 'SVPolarity'], 'polprob': ['PPolarityProbability', 'SHPolarityProbability', 'SVPolarityProb'],
        'ratio': ['P/SHAmplitudeRatio', 'P/SVRMSAmplitudeRatio', 'SH/SVQAmplitudeRatio'], 'relative': ['PAmplitude', 'SHRMSAmplitude', 'SVQAmplitude']}
SUFFIX = {'ratio': ['P/SHAmplitudeRatio', 'P/SHRMSAmplitudeRatio', 'P/SHQAmplitudeRatio', 'P/SVRMSQAmplitudeRatio', 'P/SVQRMSAmplitudeRatio', 'SV/PAmplitudeRatio', 'P/SH_Amplitude_Ratio',
                    'p/shamplituderatio', 'PQ/SHQAmplitudeRatio', 'SH/SVAmplitude_Ratio', 'P/SHAmplitudeRatio2', 'SV/SHRMSAmplitudeRatio'],
          'relative': ['PAmplitude', 'PRMSAmplitude', 'PQAmplitude', 'PRMSQAmplitude', 'PQRMSAmplitude', 'SHAmplitude', 'SHRMSAmplitude', 'SVQAmplitude', 'P_Amplitude', 'svrmsamplitude',
                       'SHRMSQAmplitude', 'PAmplitude2'],
          'polarity': ['PPolarity', 'SHPolarity', 'SVPolarity', 'PQPolarity', 'ppolarity', 'SHQPolarity', 'PPolarity2', 'PPOLARITY', 'SVpolarity', 'svQPolarity', 'PPolarity', 'SHPolarity']}
PH = {'PPolarity': ['p'], 'P': ['p']}


def key_phases(key):
    k = key.lower().replace('_', '')
    for stop in ('polarity', 'amplitude'):
        k = k.split(stop)[0]
    r = []
    for x in k.split('/'):
        r.append('sh' if x.startswith('sh') else 'sv' if x.startswith('sv') else 'p')
    return r


def build(fn, keys, lists, ipps, recnames, recangles):
    """data dictionary and the rows it stands for"""
    data, expect = {'UID': 'x'}, []
    for key, names, ipp in zip(keys, lists, ipps):
        n = len(names)
        az, to = rng.uniform(-20, 380, n), rng.uniform(0, 180, n)
        if fn == 'polarity':
            meas = rng.choice([-1., 1.], (n, 1))
            err = rng.uniform(0.01, 0.5, (n, 1))
        elif fn == 'polprob':
            meas = rng.uniform(0, 1, (n, 2))
            meas = meas / np.maximum(1, meas.sum(1))[:, None]
            err = None
        elif fn == 'ratio':
            meas = np.exp(rng.uniform(-3, 3, (n, 2))) * rng.choice([-1., 1.], (n, 2))
            err = np.abs(meas) * rng.uniform(0.01, 0.5, (n, 2))
        else:
            meas = np.exp(rng.uniform(-3, 3, (n, 1))) * rng.choice([-1., 1.], (n, 1))
            err = np.abs(meas) * rng.uniform(0.01, 0.5, (n, 1))
        d = {'Stations': {'Name': list(names), 'Azimuth': np.matrix(az).T, 'TakeOffAngle': np.matrix(to).T}, 'Measured': np.matrix(meas)}
        if err is not None:
            d['Error'] = np.matrix(err)
        iv = np.zeros(n)
        if ipp == 'given':
            iv = rng.uniform(0.01, 0.4, n)
        if ipp != 'none':
            d['IncorrectPolarityProbability'] = np.matrix(iv).T
        data[key] = d
        for k, nm in enumerate(names):
            if recnames is not None and not all(nm in r for r in recnames):
                continue
            if recnames is None:
                a, t = [az[k]], [to[k]]
            else:
                a = [recangles[r][nm][0] for r in range(len(recnames))]
                t = [recangles[r][nm][1] for r in range(len(recnames))]
            expect.append(dict(fn=fn, name=nm, phases=key_phases(key), az=a, toa=t, meas=meas[k], err=[] if err is None else err[k], ipp=iv[k]))
    return data, expect


def station(identity):
    """The station of a row, which may be named with the phase it was measured on."""
    return identity if isinstance(identity, str) else identity[0]


def location(recnames):
    angles = [{nm: (rng.uniform(0, 360), rng.uniform(0, 180)) for nm in r} for r in recnames]
    recs = [{'Name': list(r), 'Azimuth': np.matrix([angles[k][nm][0] for nm in r]).T, 'TakeOffAngle': np.matrix([angles[k][nm][1] for nm in r]).T} for k, r in enumerate(recnames)]
    return recs, angles


def freeze(x):
    return json.dumps(js(x), sort_keys=True)


def result(fn, data, recs):
    if fn == 'polarity':
        a, err, ipp = inv.polarity_matrix(data, recs)
        arrs, val, er = [a], [], [err]
    elif fn == 'polprob':
        a, (p, n), ipp = inv.polarity_probability_matrix(data, recs)
        arrs, val, er = [a], [p, n], []
    elif fn == 'ratio':
        a1, a2, r, e1, e2 = inv.amplitude_ratio_matrix(data, recs)
        arrs, val, er, ipp = [a1, a2], [r], [e1, e2], 0
    else:
        a, r, e, names = inv.relative_amplitude_ratio_matrix(data, recs)
        arrs, val, er, ipp = [a], [r], [e], 0
    arrs = [np.asarray(x, dtype=float) for x in arrs]
    n = arrs[0].shape[0]
    val, er = [np.asarray(x, dtype=float) for x in val], [np.asarray(x, dtype=float) for x in er]
    ip = np.asarray(ipp, dtype=float)
    if ip.ndim == 0 or ip.size == 1:
        ip = np.ones(n) * float(ip)
    ok = all(x.shape == (n,) for x in val + er + [ip]) and all(x.ndim == 3 and x.shape[0] == n for x in arrs)
    if fn == 'relative':
        ok = ok and len(names) == n
    rr = []
    if ok:
        for k in range(n):
            rr.append(dict(coef=[x[k] for x in arrs], val=[x[k] for x in val], err=[x[k] for x in er], ipp=ip[k], name=station(names[k]) if fn == 'relative' else ''))
    return rr, ok


def matrix(fn, keys, lists, ipps, recnames):
    recs, ang = location(recnames) if recnames else (False, None)
    data, expect = build(fn, keys, lists, ipps, recnames, ang)
    before = freeze([data, recs])
    r, err = attempt(result, fn, data, recs)
    ev = dict(op='matrix', fn=fn, keys=keys, lists=lists, recnames=recnames, ipps=ipps, error=err, expect=expect, rows=[], lengths=True, kept=True)
    if not err:
        ev['rows'], ev['lengths'] = r
        ev['kept'] = freeze([data, recs]) == before
    out.emit(**ev)


for s in scenarios(scen)[shard::shards]:
    if s['op'] == 'angles':
        angles(s)
    elif s['op'] == 'matrix':
        keys = [SUFFIX[s['fn']][s['suffix']]] if s['suffix'] else KEYS[s['fn']][:len(s['lists'])]
        if s['record']:
            rn = [list(s['record']) for _ in range(s['nrec'])]
            if s['vary']:
                rn = [rn[0]] + [[x[j] for j in rng.permutation(len(x))] for x in rn[1:]]
        else:
            rn = None
        matrix(s['fn'], keys, s['lists'], s['ipp'], rn)
    else:
        names = ['S%03d' % k for k in range(s['n'])]
        lists = [[names[j] for j in rng.permutation(s['n'])[:rng.randint(1, s['n'] + 1)]] for _ in range(s['types'])]
        full = names + ['X%d' % k for k in range(5)]
        one = [full[j] for j in rng.permutation(len(full))]
        rn = [list(one) for _ in range(s['records'])] if s['records'] else None
        if rn and s['k'] == 3:
            rn = [rn[0]] + [[x[j] for j in rng.permutation(len(x))] for x in rn[1:]]
        ipps = ['none'] * s['types'] if s['fn'] in ('ratio', 'relative') else [rng.choice(['none', 'given', 'zero']) for _ in range(s['types'])]
        matrix(s['fn'], KEYS[s['fn']][:s['types']], lists, ipps, rn)
out.close()
