import contextlib
import io
import os
import shutil
import sys
import tempfile
from drivers.vdrv import *
from MTfit.extensions import scatangle as sc
from MTfit.inversion import Inversion

scen, outp = sys.argv[1:3]
shard, shards = int(sys.argv[3]), int(sys.argv[4])
rng = seed('c18', shard)
out = Out(outp)
TMP = tempfile.mkdtemp(prefix='c18', dir=os.path.dirname(os.path.abspath(outp)))
os.chdir(TMP)
USE_C = VARIANT == 'c'


def count(x):
    return {'few': lambda: int(rng.randint(3, 12))}.get(x, lambda: int(x))()


def number(x, digits):
    return repr(float(x)) if digits == 17 else ('%.*f' % (digits, x)) if rng.rand() < .8 else '%.*g' % (digits + 3, x)


def weights(kind, n):
    if kind == 'one':
        return ['1.0'] * n
    if kind == 'int':
        return [str(int(x)) for x in rng.randint(1, 1000, n)]
    w = 10 ** rng.uniform(-8, 6, n) if kind == 'wide' else 10 ** rng.uniform(-200, 200, n)
    return [('%.6e' % x) if rng.rand() < .5 else repr(float(x)) for x in w]


def blocks(n, m, weight, order, spread='wide', digits=1, bin=1.0):
    """n samples of m stations: [weight, [(name, azimuth, take-off angle)]], as text"""
    names = [rng.choice(['S%04d', 'ST%d', '%d', 'Sta_%d-x', 'a%d.b']) % k for k in rng.permutation(m * 3)[:m]]
    base = np.array([[rng.uniform(0, 360), rng.uniform(0, 180)] for _ in names])
    if spread in ('grid', 'tight', 'one'):
        base = np.round(base * 8) / 8
    centres = [base + rng.uniform(-1, 1, base.shape) * 3 * bin for _ in range(4)]
    w = weights(weight, n)
    res = []
    prev = None
    for k in range(n):
        if spread == 'wide':
            a = np.array([[rng.uniform(0, 360), rng.uniform(0, 180)] for _ in names])
        elif spread == 'cluster':
            a = centres[rng.randint(4)] + rng.uniform(-.45, .45, base.shape) * bin
        elif spread == 'grid':    # differences of whole eighths, often exactly half a bin
            q = max(bin / 4, 0.125)
            a = base + np.floor(rng.uniform(-2, 3, base.shape)) * (np.floor(q * 8) / 8)
        elif spread == 'one':     # one angle of one station apart
            a = base.copy()
            a[rng.randint(m), rng.randint(2)] += rng.choice([-1, 1]) * np.floor(rng.choice([.25, .5, 1]) * bin * 8) / 8
        else:
            a = base + rng.randint(-1, 2, base.shape) / 8.
        if prev is not None and rng.rand() < .1:
            a = prev.copy()
        prev = a
        t = list(zip(names, a))
        if order != 'same' and rng.rand() < .6:
            t = [t[j] for j in rng.permutation(m)]
        if order == 'sets' and rng.rand() < .4:
            t = t[:max(1, m - 1)]
        if spread in ('grid', 'tight', 'one'):
            res.append((w[k], [(x, repr(float(y[0])), repr(float(y[1]))) for x, y in t]))
        else:
            res.append((w[k], [(x, number(y[0], digits), number(y[1], digits)) for x, y in t]))
    return res


def write(path, bs, nl='lf', ending='newline', sep='tab', blank='one', lead=False):
    lines = []
    sp = {'space': '  ', 'tab': '\t'}
    empty = [''] if blank == 'one' else ['   ', '\t'] if blank == 'spaces' else ['', '', '']
    if lead:
        lines += ['']
    for k, (w, st) in enumerate(bs):
        if k:
            lines += empty if blank == 'one' or rng.rand() < .7 else ['']
        lines.append(w)
        for x in st:
            j = sp.get(sep) or ['\t', ' ', '   '][rng.randint(3)]
            lines.append((' ' if sep == 'mixed' and rng.rand() < .3 else '') + j.join(x) + (' ' if sep == 'mixed' and rng.rand() < .3 else ''))
    lines += {'none': [], 'newline': [''], 'blank': ['', ''], 'blanks': ['', '', '', '']}[ending]
    n = '\n' if nl == 'lf' else '\r\n'
    with open(path, 'wb') as f:
        f.write(n.join(lines).encode())
    return [l.split() for l in lines]


def words(path):
    with open(path, 'rb') as f:
        return [l.split() for l in f.read().decode().replace('\r\n', '\n').split('\n')]


def recs(r):
    rec, w = r
    if len(rec) != len(w):
        raise ValueError('%d records, %d weights' % (len(rec), len(w)))
    res = []
    for a, b in zip(rec, w):
        az, toa = np.asarray(a['Azimuth'], dtype=float), np.asarray(a['TakeOffAngle'], dtype=float)
        if az.shape != (len(a['Name']), 1) or toa.shape != az.shape:
            raise ValueError('angles of shape %s for %d stations' % (az.shape, len(a['Name'])))
        res.append(dict(w=float(b), name=[str(x) for x in a['Name']], az=az.flatten(), toa=toa.flatten()))
    return res


def parse(path, k=0, bin=0):
    return recs(sc.parse_scatangle(path, k, bin, USE_C))


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return limited(60, f, *a)


def emit(s, r, err, **kw):
    out.emit(op=s['op'], scen=s, err=err, got=r if r is not None and not err else [], **kw)


def read(s):
    bs = blocks(count(s['n']), count(s['st']), s['weight'], s['order'], digits=int(rng.choice([1, 4, 17])))
    lines = write('x.scatangle', bs, s['nl'], s['ending'], s['sep'], s['blank'], s['lead'])

    def run():
        if s['entry'] == 'parse':
            return parse('x.scatangle')
        if s['entry'] == 'extension':
            return recs(sc.location_pdf_parser('x.scatangle'))
        return recs(Inversion({'UID': 'x'}, parallel=False, phy_mem=1e-3)._read_location('x.scatangle'))
    r, err = quiet(run)
    emit(s, r, err, lines=lines)


def round(s):
    bs = blocks(count(s['n']), count(s['st']), s['weight'], s['order'], digits=int(s['digits']))
    lines = write('y.scatangle', bs, s['nl'])

    def run():
        if s['entry'] == 'writer':
            a, w = sc.parse_scatangle('y.scatangle', 0, 0, USE_C)
            sc._output_scatangle('z.scatangle', a, w)
            f = 'z.scatangle'
        else:
            f = sc.bin_scatangle('y.scatangle', 0, 0)[1]
        return words(f), parse(f)
    r, err = quiet(run)
    emit(s, r[1] if r else [], err, lines=lines, written=r[0] if r else [])


def bins(s):
    b = float(s['bin'])
    exact = s['spread'] in ('grid', 'one', 'tight') and s['bin'] != '7.3'
    bs = blocks(count(s['n']), count(s['st']), s['weight'], s['order'], s['spread'], int(rng.choice([1, 4, 17])), b or 1.0)
    lines = write('b.scatangle', bs, ending=str(rng.choice(['none', 'newline', 'blank'])))
    return b, exact, lines


def bin(s):
    b, exact, lines = bins(s)

    def run():
        if s['entry'] == 'parse':
            return parse('b.scatangle', 0, b)
        old, new = sc.bin_scatangle('b.scatangle', 0, b)
        return parse(new)
    r, err = quiet(run)
    emit(s, r, err, lines=lines, bin=b, exact=exact)


def sub(s):
    n = count(s['n'])
    b = float(s['bin'])
    bs = blocks(n, count(s['st']), 'one', 'same', s['spread'], 1, b or 1.0)
    w = rng.permutation(n) + 1
    bs = [(str(w[k]), x[1]) for k, x in enumerate(bs)]
    lines = write('s.scatangle', bs)
    k = {'half': max(1, n // 2), 'all': n, 'more': n + 5}.get(s['k'], None)
    k = int(s['k']) if k is None else k

    def run():
        if s['entry'] == 'parse':
            return parse('s.scatangle', k, b)
        return parse(sc.bin_scatangle('s.scatangle', k, b)[1])
    r, err = quiet(run)
    emit(s, r, err, lines=lines, k=k, bin=b)


def files(s):
    b = float(s['bin'])
    d = tempfile.mkdtemp(dir=TMP)
    names, lines = [], []
    for k in range(s['count']):
        p = os.path.join(d, 'ev.%d_%s.scatangle' % (k, 'abcd'[k] * (k + 1)))
        names.append(p)
        lines.append(write(p, blocks(count(s['n']), count(s['st']), 'wide', 'same', s['spread'], 1, b or 1.0)))
    arg = list(names) if s['form'] == 'list' else names[0] if s['form'] == 'string' else os.path.join(d, 'ev*.scatangle')
    if s['form'] == 'list':
        o = rng.permutation(len(names))
        arg, names, lines = [names[j] for j in o], [names[j] for j in o], [lines[j] for j in o]

    def run():
        r = sc.bin_scatangle_files(arg, 0, b, parallel=s['parallel'])
        return list(r), [words(x) for x in r]
    r, err = quiet(run)
    expected = [os.path.splitext(x)[0] + '_bin_%s.scatangle' % b for x in names]
    got, written = r if r and not err else ([], [])
    if s['form'] == 'glob' and not err:  # in the order of the directory
        o = sorted(range(len(got)), key=lambda j: got[j])
        e = sorted(range(len(expected)), key=lambda j: expected[j])
        got, written = [got[j] for j in o], [written[j] for j in o]
        expected, lines = [expected[j] for j in e], [lines[j] for j in e]
    out.emit(op='files', scen=s, err=err, got=[], names=got, expected=expected, bin=b, files=[dict(lines=lines[k], written=written[k]) for k in range(min(len(written), len(lines)))])
    shutil.rmtree(d)


ss = scenarios(scen)
ss = [ss[k] for k in np.random.RandomState(SEED).permutation(len(ss))][shard::shards]
N = {'quick': dict(read=200, round=80, bin=500, sub=90, files=6), 'thorough': dict(read=2000, round=170, bin=5000, sub=140, files=20)}[TIER]
F = dict(read=read, round=round, bin=bin, sub=sub, files=files)
for op in F:
    mine = [s for s in ss if s['op'] == op]
    for j in rng.permutation(len(mine))[:N[op]]:
        F[op](mine[j])
out.close()
shutil.rmtree(TMP)
