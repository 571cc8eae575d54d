"""Whole histories of appended batches on Sample / FileSample, and sample-count-limited runs of the random sampling algorithm."""
import contextlib
import io
import os
import shutil
import sys
import tempfile
from drivers.vdrv import *
from MTfit.sampling import Sample, FileSample
from MTfit.probability import LnPDF
from MTfit.algorithms.monte_carlo import IterationSample
from MTfit.inversion import Inversion

scen, outp = sys.argv[1:3]
shard, shards = int(sys.argv[3]), int(sys.argv[4])
rng = seed('c09', shard)
out = Out(outp)
TMP = tempfile.mkdtemp(prefix='c09', dir=os.path.dirname(os.path.abspath(outp)))
os.chdir(TMP)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return limited(60, f, *a, **k)


def values(mag, shape):
    if mag == 'typical':
        return rng.uniform(-30, 0, shape)
    if mag == 'huge':
        return rng.choice([-5000., 5000., 0.]) + rng.uniform(-20, 20, shape)
    if mag == 'ties':
        return rng.choice([-1., -2.5, -40.], shape)
    return rng.uniform(-900, 50, shape)


class History(object):
    """a history of batches, every candidate with its own tensor(s)"""
    def __init__(self, events, rows, inc, mag, scaled):
        self.events, self.rows, self.inc, self.mag, self.scaled = events, rows, inc, mag, scaled
        self.ids, self.batches, self.next = {}, [], 1

    def batch(self, size, zero):
        k = {'0': 0, '1': 1, 'inc-1': self.inc - 1, 'inc': self.inc, 'inc+1': self.inc + 1, '3inc': 3 * self.inc}.get(size, size)
        m = rng.randn(6 * self.events, k)
        if k and rng.rand() < 0.3:
            m = np.round(m, 1)
            m[0] = self.next + np.arange(k)
        lnp = values(self.mag, (self.rows, k))
        if zero == 'all':
            lnp[:] = -np.inf
        elif zero == 'some':
            lnp[:, rng.rand(k) < 0.5] = -np.inf
            if self.rows > 1:
                lnp[rng.rand(*lnp.shape) < 0.3] = -np.inf
        cols = list(range(self.next, self.next + k))
        for j, c in enumerate(cols):
            self.ids[np.ascontiguousarray(m[:, j]).tobytes()] = c
        self.next += k
        # tried candidates may include ones already filtered out
        n = k + (int(rng.randint(0, 7)) if rng.rand() < 0.5 else 0)
        b = dict(cols=cols, lnp=lnp, n=n, sf=cols if self.scaled else [])
        self.batches.append(b)
        return m, lnp, n, cols

    def seen(self, o):
        """cols, prob, lnp, sf of an output dictionary"""
        p = np.asarray(o['probability'], dtype=float)
        if p.size == 0:
            keys = [k for k in o if k.startswith('moment_tensor_space') and np.asarray(o[k]).size]
            return dict(cols=[0] if keys else [], prob=[], lnp=[], sf=[])
        ms = [o['moment_tensor_space']] if self.events == 1 else [o['moment_tensor_space_%d' % (e + 1)] for e in range(self.events)]
        m = np.vstack([np.asarray(x, dtype=float) for x in ms])
        cols = [self.ids.get(np.ascontiguousarray(m[:, j]).tobytes(), 0) for j in range(m.shape[1])]
        return dict(cols=cols, prob=p.ravel(), lnp=np.asarray(o['ln_pdf'], dtype=float).ravel(),
                    sf=[int(x['mu'][0, 0] if np.ndim(x['mu']) else x['mu']) for x in o['scale_factors']] if 'scale_factors' in o else [])


def tensors(m, events, form):
    if events > 1 and form == 'list':
        return [np.array(m[6 * e:6 * e + 6]) for e in range(events)]
    return np.matrix(m) if form == 'matrix' else np.array(m)


def boxed(lnp, box):
    if box == 'float' and lnp.size == 1:
        return float(lnp[0, 0])
    if box == 'lnpdf':
        return LnPDF(np.matrix(lnp))
    return np.matrix(lnp) if rng.rand() < 0.5 else np.array(lnp)


def history(s, c):
    h = History(c['events'], c['rows'], c['inc'], c['mag'], c['scale'] == 'array')
    todo = [(b['size'], b['zero']) for b in s['batches']]
    if c['many']:
        todo += [(int(rng.randint(0, 2 * c['inc'] + 2)), str(rng.choice(['none', 'some', 'some', 'all']))) for _ in range(int(rng.randint(8, 14)))]
    kw = dict(initial_sample_size=c['inc'], number_events=c['events'])
    name = 'run%d' % rng.randint(2)

    def make():
        if c['store'] == 'memory':
            return Sample(**kw)
        return FileSample(fname=name, file_safe=c['store'] == 'safe', **kw)
    lens, outs = [], []

    def look(x, k):
        o, err = quiet(lambda: x.output(c['normalise'], False, int(len(x)), c['discard'])[0])
        if not err:
            v, err = attempt(h.seen, o)
        outs.append(dict(after=k, error=err, cols=[], prob=[], lnp=[], sf=[]) if err else dict(v, after=k, error=''))

    def run():
        x = make()
        for k, (size, zero) in enumerate(todo):
            m, lnp, n, cols = h.batch(size, zero)
            sf = np.array([{'mu': np.array([[float(j)]]), 'sigma': np.array([[1.]])} for j in cols] or [], dtype=object) if h.scaled else False
            mt = tensors(m, c['events'], rng.choice(['matrix', 'array', 'list']))
            x.append(mt, boxed(lnp, c['box']), n, *((sf,) if h.scaled else ()))
            lens.append(int(len(x)))
            if c['store'] == 'memory' and rng.rand() < 0.25:
                look(x, k + 1)
            if c['reopen'] and rng.rand() < 0.4:
                x = make()
        return x
    x, err = quiet(run)
    if not err:
        look(x, len(todo))
    for f in os.listdir('.'):
        # an output leaves no samples for a later run of the same name (the working copy may stay)
        if not f.endswith('~') or rng.rand() < 0.3:
            os.remove(f)
    out.emit(op='hist', scen=dict(s, **{k: v for k, v in c.items() if k != 'op'}), batches=h.batches, lens=lens, outs=outs, error=err, discard=c['discard'], normalise=c['normalise'], scaled=h.scaled and c['events'] > 1)


def maximum(kind, batch):
    return {'1': 1, 'batch': batch, 'batch+1': batch + 1, '3batch': 3 * batch, '3batch-1': max(1, 3 * batch - 1), 'big': 10 * batch}[kind]


def iterated(s):
    b, E = s['batch'], s['events']
    mx = maximum(s['max'], b)
    h = History(E, 1, b, 'typical', False)
    a = IterationSample(number_samples=b, max_samples=mx, number_events=E, file_sample=s['file'], file_safe=True, fid='limit')
    ns, ends, lens = [], [], []

    def run():
        task, end = a.initialise()
        while not end and len(ns) < 200:
            m = np.vstack([np.asarray(x) for x in task]) if E > 1 else np.asarray(task)
            k = m.shape[1]
            lnp = values('typical', (1, k))
            if s['zero'] == 'all':
                lnp[:] = -np.inf
            elif s['zero'] == 'some':
                lnp[:, rng.rand(k) < 0.6] = -np.inf
            keep = np.arange(k) if rng.rand() < 0.5 else np.nonzero(lnp[0] > -np.inf)[0]  # a task may filter the zeros itself
            cols = list(range(h.next, h.next + k))
            h.next += k
            for j in range(k):
                h.ids[np.ascontiguousarray(m[:, j]).tobytes()] = cols[j]
            h.batches.append(dict(cols=cols, lnp=lnp, n=k, sf=[]))
            mt = [np.asarray(x)[:, keep] for x in task] if E > 1 else task[:, keep]
            task, end = a.iterate({'moment_tensors': mt, 'ln_pdf': LnPDF(np.matrix(lnp[:, keep])), 'n': k})
            ns.append(k)
            ends.append(bool(end))
            lens.append(int(len(a.pdf_sample)))
        return a.output(True, False, s['discard'])[0]
    s = dict(s, discard=int(rng.choice([0, 2, 10000])))
    o, err = quiet(run)
    n0 = sum(int(np.sum(b_['lnp'] > -np.inf)) for b_ in h.batches)
    out.emit(op='limit', scen=s, ns=ns, ends=ends, max=mx, total=-1 if err else int(o['total_number_samples']), stored=n0, expected=n0, error=err)
    v, e2 = attempt(h.seen, o) if not err else (None, err)
    o2 = dict(after=len(ns), error=e2, cols=[], prob=[], lnp=[], sf=[]) if e2 else dict(v, after=len(ns), error='')
    out.emit(op='hist', scen=s, batches=h.batches, lens=lens, outs=[o2], error='', discard=s['discard'], normalise=True, scaled=False)
    for f in os.listdir('.'):
        os.remove(f)


def inverted(s):
    """a small inversion: the batches are chosen by MTfit, the results watched as they reach the algorithm"""
    n = 1 + rng.randint(3)
    az, to = rng.uniform(0, 360, n), rng.uniform(5, 175, n)
    pol = rng.choice([-1., 1.], n)
    err = np.full(n, {'none': 0.5, 'some': 0.0, 'all': 0.0}[s['zero']])
    names = ['S%d' % k for k in range(n)]
    if s['zero'] == 'all':  # two observations of one station which contradict each other
        az, to, names = np.append(az, az[0]), np.append(to, to[0]), names + ['S00']
        pol, err = np.append(pol, -pol[0]), np.append(err, 0.)
    data = {'UID': 'ev', 'PPolarity': {'Stations': {'Name': names, 'Azimuth': np.matrix(az).T, 'TakeOffAngle': np.matrix(to).T}, 'Measured': np.matrix(pol).T, 'Error': np.matrix(err).T}}
    mx = maximum(s['max'], s['batch'])
    seen = []
    orig = IterationSample.iterate

    def watch(me, result):
        x = np.asarray(getattr(result['ln_pdf'], '_ln_pdf', result['ln_pdf']), dtype=float)
        k = int(np.sum(np.any(x.reshape((-1, x.shape[-1])) > -np.inf, axis=0))) if x.size else 0
        r = orig(me, result)
        seen.append((int(result['n']), k, bool(r[1])))
        return r

    def run():
        i = Inversion(data, algorithm='iterate', parallel=False, max_samples=mx, phy_mem=float(10 ** rng.uniform(-6, -1)), convert=False, file_sample=s['file'], fid='inv')
        got = {}
        i.output = lambda event_data, fid, a=None, **k: None
        i.forward()
        return i.algorithm.output(False, False, 0)[0], len(i.algorithm.pdf_sample)
    IterationSample.iterate = watch
    try:
        r, e = quiet(run)
    finally:
        IterationSample.iterate = orig
    p = np.asarray(r[0]['probability']).size if not e else -1
    out.emit(op='limit', scen=s, ns=[x[0] for x in seen], ends=[x[2] for x in seen], max=mx, total=-1 if e else int(r[1]), stored=p, expected=sum(x[1] for x in seen), error=e)
    for f in os.listdir('.'):
        shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)


ss = scenarios(scen)
hists, confs, limits = ([s for s in ss if s['op'] == o][shard::shards] for o in ('hist', 'config', 'limit'))
N = {'quick': dict(mem=500, file=40, limit=60), 'thorough': dict(mem=8000, file=500, limit=500)}[TIER]
mem, fil = [c for c in confs if c['store'] == 'memory'], [c for c in confs if c['store'] != 'memory']
for pool, n in ((mem, N['mem']), (fil, N['file'])):
    for _ in range(n):
        history(hists[rng.randint(len(hists))], pool[rng.randint(len(pool))])
for j in rng.permutation(len(limits))[:N['limit']]:
    (iterated if limits[j]['algo'] == 'iterate' else inverted)(limits[j])
out.close()
os.chdir('/')
shutil.rmtree(TMP)
