import sys
from drivers.vdrv import *
from MTfit.algorithms.base import BaseAlgorithm
from MTfit.algorithms.monte_carlo import IterationSample
try:
    from MTfit.probability import cprobability
except ImportError:
    cprobability = None

scen, outp = sys.argv[1:3]
rng = seed('c08')
out = Out(outp)
real_randn = np.random.randn
OPT = {'mt': {}, 'dc': {'dc': True}, 'clvd': {'sample_distribution': 'clvd'}}


class Parallel(object):
    """Stand-in for np.random.randn: a state of the generator in which the second draw repeats the (axis-aligned) direction of the first."""

    def __init__(self):
        self.last, self.n = None, 0

    def __call__(self, *shape):
        x = real_randn(*shape)
        if len(shape) == 2 and shape[0] == 3:
            self.n += 1
            if self.n == 1:
                x[1:, 0] = 0.0
            elif self.n == 2 and self.last.shape == x.shape:
                x[:, 0] = 2 * self.last[:, 0]
            self.last = x
        return x


def caller(s):
    kind, entry, n = s['kind'], s['entry'], s['n']
    if entry == 'accelerated':
        if cprobability is None:
            return None, 1
        f = {'mt': cprobability.random_mt, 'dc': cprobability.random_dc}[kind]
        return (lambda: [f(n)]), 1
    if entry == 'events':
        a = IterationSample(number_samples=n, number_events=3, **OPT[kind])
        return a.random_sample, 3
    a = BaseAlgorithm(number_samples=n, **OPT[kind])
    if entry == 'sample':
        return (lambda: [a.random_sample()]), 1
    f = {'mt': a.random_mt, 'dc': a.random_dc, 'clvd': a.random_clvd}[kind]
    return (lambda: [f()]), 1


def cols(x):
    return np.ascontiguousarray(np.asarray(x, dtype=float))


def call(f, s, k):
    if s['state'] == 'seeded':
        np.random.seed(rng.randint(2 ** 31))
    elif s['state'] == 'parallel':
        np.random.randn = Parallel()
    try:
        return [cols(x) for x in f()]
    finally:
        np.random.randn = real_randn


EDGES = np.round(np.linspace(-0.9, 0.9, 19), 3)
AED = np.round(np.linspace(0.05, 0.95, 19), 3)
U = [np.eye(6)[k] for k in range(6)]
for a in range(6):
    for b in range(a):
        U += [(np.eye(6)[a] + np.eye(6)[b]) / np.sqrt(2), (np.eye(6)[a] - np.eye(6)[b]) / np.sqrt(2)]
U = np.array(U + [np.ones(6) / np.sqrt(6)])
G = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, -1, 0], [1, 0, 1], [0, 1, 1], [1, 1, 1], [1, 1, -1], [1, 2, 3]], dtype=float)
G = (G.T / np.sqrt((G ** 2).sum(1))).T
GG = np.array([[g[0] ** 2, g[1] ** 2, g[2] ** 2, 2 ** .5 * g[0] * g[1], 2 ** .5 * g[0] * g[2], 2 ** .5 * g[1] * g[2]] for g in G])


def m33(m):
    r = np.empty((m.shape[1], 3, 3))
    r[:, 0, 0], r[:, 1, 1], r[:, 2, 2] = m[0], m[1], m[2]
    r[:, 0, 1] = r[:, 1, 0] = m[3] / np.sqrt(2)
    r[:, 0, 2] = r[:, 2, 0] = m[4] / np.sqrt(2)
    r[:, 1, 2] = r[:, 2, 1] = m[5] / np.sqrt(2)
    return r


def count(x, edges):
    return np.searchsorted(np.sort(x), edges, side='right').tolist()


def stats(s, f, per):
    n = s['n']
    ncall = max(2, min(s['reps'] // (n * per), 4000 if s['reps'] <= 200000 else 40000))
    ms, nlag, lag, signlag = [], 0, np.zeros((6, 6)), 0.0
    nacross, across, prev = 0, np.zeros((6, 6)), None
    for k in range(ncall):
        cur = call(f, s, k)
        for j, m in enumerate(cur):
            ms.append(m)
            if m.shape[1] > 1:
                lag += m[:, :-1].dot(m[:, 1:].T)
                nlag += m.shape[1] - 1
        flat = np.concatenate(cur, 1)
        if prev is not None and prev.shape == flat.shape:
            across += prev.dot(flat.T)
            nacross += flat.shape[1]
        prev = flat
        for j in range(1, len(cur)):
            if cur[j].shape == cur[j - 1].shape:
                across += cur[j - 1].dot(cur[j].T)
                nacross += cur[j].shape[1]
    asked = ncall * per * n
    widths = [m.shape[1] for m in ms]
    m = np.concatenate(ms, 1)
    fin = bool(np.isfinite(m).all())
    if not fin:
        m = np.nan_to_num(m)
    a = m33(m)
    tr = m[0] + m[1] + m[2]
    det = np.linalg.det(a)
    ev = dict(op='stats', kind=s['kind'], entry=s['entry'], state=s['state'], n=n, total=m.shape[1], asked=asked, finite=fin,
              maxnorm=np.abs((m ** 2).sum(0) - 1).max(), s1=m.sum(1), s2=m.dot(m.T), s4=(m ** 2).dot((m ** 2).T), lag=lag, nlag=nlag, across=across,
              nacross=nacross, rad=[[((g.dot(m)) ** p).sum() for p in (1, 2, 3, 4)] for g in GG])
    if s['kind'] == 'mt':
        ev.update(maxpattern=0.0, edges=EDGES, proj=[count(u.dot(m), EDGES) for u in U])
    else:
        target = 0 if s['kind'] == 'dc' else 1 / np.sqrt(54)
        ev['maxpattern'] = max(np.abs(tr).max(), np.abs(np.abs(det) - target).max())
        w, v = np.linalg.eigh(a)
        ax = [v[:, :, 0], v[:, :, 1], v[:, :, 2]]            # P, N, T
        if s['kind'] == 'clvd':
            # the odd axis is the one whose eigenvalue has the sign of the determinant; the other two are degenerate
            odd = np.where((det > 0)[:, None], ax[2], ax[0])
            use = [odd]
            sg = np.sign(det)
            ev['positive'] = int((sg > 0).sum())
            p, sl = 0, 0.0
            for q in widths:
                sl += (sg[p:p + q - 1] * sg[p + 1:p + q]).sum() if q > 1 else 0
                p += q
            ev['signlag'] = sl
            main, ref = odd, None
        else:
            use = [ax[2], ax[1], ax[0]]
            main, ref = ax[2], ax[1]
        ev['aedges'] = AED
        ev['axis'] = [count(np.abs(x[:, k]), AED) for x in use for k in range(3)]
        if ref is not None:
            z = np.array([0., 0., 1.])
            e1 = np.cross(main, z)
            e1 /= np.sqrt((e1 ** 2).sum(1))[:, None]
            e2 = np.cross(main, e1)
            tw = np.mod(np.arctan2((ref * e2).sum(1), (ref * e1).sum(1)) * np.sign(main[:, 2]), np.pi) / np.pi
        else:
            tw = np.mod(np.arctan2(main[:, 1], main[:, 0]), np.pi) / np.pi      # azimuth of the axis
        ev['twist'] = count(tw, AED)
        quarter = np.minimum(3, (np.abs(main[:, 2]) * 4).astype(int))
        ev['joint'] = [count(tw[quarter == q], AED) for q in range(4)]
    out.emit(**ev)


shard, shards = int(sys.argv[3]), int(sys.argv[4])
for s in scenarios(scen)[shard::shards]:
    f, per = caller(s)
    if f is None:
        continue
    if s['op'] == 'stats':
        stats(s, f, per)
        continue
    res, err = attempt(lambda: [call(f, s, k) for k in range(s['reps'])])
    ev = dict(op='batch', kind=s['kind'], entry=s['entry'], state=s['state'], n=s['n'], error=err, expect=s['reps'] * per)
    if not err:
        bs = [m for r in res for m in r]
        ev['distinct'] = len(set(c.tobytes() for m in bs for c in np.ascontiguousarray(m.T)))
        keep = 40
        ev['batches'] = [m.T.tolist() if m.shape[1] <= keep else m.T.tolist() for m in bs]
        if s['n'] > keep and all(m.shape == (6, s['n']) for m in bs):
            # the shapes are checked here; the first `keep' samples of each call go into the trace
            ev['n'] = keep
            ev['distinct'] -= (s['n'] - keep) * ev['expect']
            ev['batches'] = [m.T[:keep].tolist() for m in bs]
    out.emit(**ev)
out.close()
