import sys
from drivers.vdrv import *
from MTfit import convert as cv

scen, outp = sys.argv[1:3]
rng = seed('c13')
out = Out(outp)
pi = np.pi
ST = {'zero': lambda: 0.0, 'tiny': lambda: 10 ** rng.uniform(-12, -4), 'quarter': lambda: pi / 2, 'half': lambda: pi, 'threequarter': lambda: 1.5 * pi,
      'below2pi': lambda: 2 * pi - 10 ** rng.uniform(-9, -2), 'random': lambda: rng.uniform(0, 2 * pi)}
DI = {'zero': lambda: 0.0, 'tiny': lambda: 10 ** rng.uniform(-12, -5), 'small': lambda: 10 ** rng.uniform(-4, -1), 'random': lambda: rng.uniform(0.1, 1.5),
      'fortyfive': lambda: pi / 4, 'nearvertical': lambda: pi / 2 - 10 ** rng.uniform(-10, -2), 'vertical': lambda: pi / 2}
RA = {'zero': lambda: 0.0, 'tiny': lambda: rng.choice([-1, 1]) * 10 ** rng.uniform(-12, -4), 'pi': lambda: pi, 'minuspi': lambda: -pi, 'half': lambda: pi / 2,
      'minushalf': lambda: -pi / 2, 'nearhalf': lambda: rng.choice([-1, 1]) * (pi / 2 - 10 ** rng.uniform(-10, -2)),
      'overhalf': lambda: rng.choice([-1, 1]) * (pi / 2 + 10 ** rng.uniform(-10, -2)), 'positive': lambda: rng.uniform(0, pi), 'negative': lambda: rng.uniform(-pi, 0)}


def vec(m):
    """3 x n matrix/array -> n rows"""
    return np.asarray(m, dtype=float).reshape(3, -1).T.tolist()


def ang(a):
    return [np.atleast_1d(np.squeeze(np.asarray(x, dtype=float))).tolist() for x in a]


def close():
    """the normals of both nodal planes point up, so their strikes are at least 90 degrees apart unless one of them is (numerically) horizontal"""
    return rng.uniform(0, 2 * pi), rng.choice([0, 1e-300, 1e-17, 1e-9]), rng.choice([-1, 1]) * rng.uniform(pi / 2 - 1, pi / 2 + 1)


def one(s):
    return close() if s['op'] == 'close' else (ST[s['strike']](), DI[s['dip']](), RA[s['rake']]())


def derive(st, d, r):
    T, N, P = cv.SDR_TNP(st, d, r)
    fn, fs = cv.SDR_FP(st, d, r)
    ev = dict(T=vec(T), N=vec(N), P=vec(P), fn=vec(fn), fs=vec(fs))
    ev['b_tnp'] = ang(cv.TNP_SDR(T, N, P))
    ev['b_fp'] = ang(cv.FP_SDR(fn, fs))
    ev['b_pf'] = ang(cv.FP_SDR(fs, fn))
    aux = cv.SDR_SDR(st, d, r)
    ev['aux'] = ang(aux)
    ev['auxaux'] = ang(cv.SDR_SDR(*aux))
    sdsd = cv.SDR_SDSD(st, d, r)
    ev['sdsd'] = ang(sdsd)
    sn, ss = cv.SDSD_FP(*sdsd)
    ev['sn'], ev['ss'] = vec(sn), vec(ss)
    for j, (a, b) in ((2, (fn, fs)), (3, (fs, fn))):
        t, n, p = cv.FP_TNP(a, b)
        ev['T%d' % j], ev['N%d' % j], ev['P%d' % j] = vec(t), vec(n), vec(p)
    T, P = np.asarray(T), np.asarray(P)
    m33 = [np.matrix(np.outer(T[:, k], T[:, k]) - np.outer(P[:, k], P[:, k])) for k in range(T.shape[1])]
    sdr = [ang(cv.MT33_SDR(m)) for m in m33]
    ev['mt33'] = [[x[j][0] for x in sdr] for j in range(3)]
    mts = np.concatenate([np.asarray(cv.MT33_MT6(m)).reshape(6, 1) for m in m33], 1)
    oc = cv.output_convert(mts)
    ev['p1'] = ang([oc['S1'], oc['D1'], oc['R1']])
    ev['p2'] = ang([oc['S2'], oc['D2'], oc['R2']])
    return ev


for s in scenarios(scen):
    for _ in range(1 if TIER == 'quick' else 8):
        st, d, r = one(s)
        if s['form'] == 'scalar':
            args, lists = (st, d, r), ([st], [d], [r])
        else:
            rows = [(st, d, r)]
            if s['form'] == 'batch':
                for _ in range(rng.choice([2, 5, 6])):
                    rows.insert(rng.randint(len(rows) + 1), (rng.uniform(0, 2 * pi), np.arccos(rng.uniform(0, 1)), rng.uniform(-pi, pi)))
            a = np.array(rows).T.copy()
            args, lists = (a[0], a[1], a[2]), a.tolist()
        keep = [np.array(x, copy=True) for x in args]
        ev, err = attempt(derive, *args)
        if not err and not all(np.array_equal(x, y) for x, y in zip(keep, args)):
            err = 'inputs modified'
        ev = ev or {}
        out.emit(op=s['op'], site=s['form'], st=lists[0], d=lists[1], r=lists[2], err=err, **ev)
out.close()
