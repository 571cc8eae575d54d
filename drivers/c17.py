"""Writes CSV files, hypocentre files and results, reads them with MTfit and records what was written and read."""
import contextlib
import io
import pickle
import shutil
import tempfile
from drivers.vdrv import *
from MTfit.utilities import file_io

scen, outp = sys.argv[1:3]
shard, shards = int(sys.argv[3]), int(sys.argv[4])
N = {'csv': 150, 'hyp': 60, 'bin': 80} if TIER == 'quick' else {'csv': 2500, 'hyp': 500, 'bin': 900}
out = Out(outp)
tmp = tempfile.mkdtemp(prefix='c17-')
os.chdir(tmp)
TYPES = ['PPolarity', 'SHPolarity', 'SVPolarity', 'PPolarityProbability', 'P/SHAmplitudeRatio', 'P/SHRMSAmplitudeRatio', 'P/SVQAmplitudeRatio', 'PAmplitude', 'SHRMSAmplitude']
NAMES = ['S%03d', '%03d', 'ST-%d', 'BH%d.X', 'e%d', 'Ünder%d', 'uid%d', 'name%d', 'P%dPolarity']
COLS = ['Name', 'Azimuth', 'TakeOffAngle', 'Measured', 'Error']


def num(x):
    try:
        return repr(float(x))
    except ValueError:
        return 'bad:' + x


def text(rng, form, lo, hi, sign=False):
    x = rng.uniform(lo, hi)
    if sign and rng.rand() < .5:
        x = -x
    if form == 'int':
        return str(int(round(x)))
    if form == 'sci':
        return '%.*e' % (int(rng.randint(1, 15)), x * 10.0 ** rng.randint(-3, 4))
    return repr(float(x)) if rng.rand() < .5 else '%.2f' % x


def field(t):
    t = t.strip()
    uid = t.split('UID', 1)[1].lstrip(':=').strip() if 'UID' in t else ''
    return {'raw': t, 'low': t.lower(), 'num': [num(x) for x in t.split()], 'uid': uid}


def csv_event(s, rng):
    types = []
    for t in rng.permutation(TYPES)[:rng.randint(1, 5)]:
        n = {'1': 1, '2': 2, 'few': int(rng.randint(1, 8)), '20': int(rng.randint(15, 21))}[s['rows']]
        w = {'one': 1, 'two': 2, 'bytype': 2 if rng.rand() < .5 else 1}[s['width']]
        we = w if s['width'] != 'bytype' else int(rng.randint(1, 3))
        pat = NAMES[rng.randint(len(NAMES))]
        rows = [{'name': pat % k, 'az': text(rng, s['num'], 0, 360), 'toa': text(rng, s['num'], 0, 180),
                 'meas': [text(rng, s['num'], 0, 50, True) for _ in range(w)], 'err': [text(rng, s['num'], 0, 5) for _ in range(we)]}
                for k in rng.permutation(40)[:n]]
        types.append({'type': str(t), 'rows': rows})
    return types


def csv_file(s, rng):
    events = [csv_event(s, rng) for _ in range(s['events'])]
    uids = [''] * s['events']
    if s['uid'] == 'twins':
        events = [events[0] if rng.rand() < .7 else e for e in events]
        events[-1] = events[0]
    elif s['uid'] != 'none':
        uids = ['%s%d' % (['', 'Event ', 'ev_', '2015-', 'GUID '][rng.randint(5)], rng.randint(1000)) if s['uid'] == 'all' or rng.rand() < .5 else '' for _ in events]
    lines = []
    width = 5
    for k, (types, uid) in enumerate(zip(events, uids)):
        if uid:
            uid_line = ['UID' + '=:'[rng.randint(2)] + uid]
        block = []
        for t in types:
            cols = list(COLS)
            if s['cols'] in ('permuted', 'case', 'extra'):
                cols = [str(c) for c in rng.permutation(cols)]
            if s['cols'] == 'extra':
                for x in ('Comment', 'Network', 'Quality')[:rng.randint(1, 4)]:
                    cols.insert(rng.randint(len(cols) + 1), x)
            if s['cols'] == 'leading':
                cols = ['Comment', 'Network'] + cols
            head = [c if c == 'Name' or s['cols'] != 'case' else [c.lower(), c.upper(), c][rng.randint(3)] for c in cols]
            block.append([t['type']])
            block.append(head)
            for r in t['rows']:
                p = (lambda x: [' ' + x, x + ' ', x][rng.randint(3)]) if s['pad'] else (lambda x: x)
                d = {'Name': r['name'], 'Azimuth': p(r['az']), 'TakeOffAngle': p(r['toa']), 'Measured': ' '.join(r['meas']), 'Error': ' '.join(r['err'])}
                block.append([d.get(c, '' if s['cols'] == 'leading' or rng.rand() < .5 else 'x%d' % rng.randint(9)) for c in cols])
        width = max([len(b) for b in block])
        if uid:
            block.insert(0, uid_line)
        lines += [b + [''] * (width - len(b)) if rng.rand() < .8 or len(b) > 1 else b for b in block]
        if k + 1 < len(events) or s['ending'] == 'blank':
            for _ in range(1 + int(rng.rand() < .2)):
                lines.append([''] * width if s['blank'] == 'commas' else [''])
    nl = '\r\n' if s['nl'] == 'crlf' else '\n'
    body = nl.join(','.join(l) for l in lines) + (nl if s['ending'] != 'none' else '')
    intended = [[{'type': t['type'], 'rows': [{'name': r['name'], 'az': [num(r['az'])], 'toa': [num(r['toa'])], 'meas': [num(x) for x in r['meas']], 'err': [num(x) for x in r['err']]} for r in t['rows']]}
                 for t in e] for e in events]
    return body, [[field(f) for f in l] for l in lines], intended


def events_of(data):
    """the parsed events, row for row"""
    ev = []
    for d in data:
        types = []
        for key in d:
            if key == 'UID':
                continue
            v = d[key]
            rows = []
            m = [np.asarray(v[k]) for k in ('Measured', 'Error')] + [np.asarray(v['Stations'][k]) for k in ('Azimuth', 'TakeOffAngle')]
            n = len(v['Stations']['Name'])
            if any(x.ndim != 2 or x.shape[0] != n for x in m):
                types.append({'type': key, 'rows': 'shapes %s' % [x.shape for x in m]})
                continue
            for k in range(n):
                r = [[repr(float(y)) for y in x[k]] for x in m]
                rows.append({'name': str(v['Stations']['Name'][k]), 'az': r[2], 'toa': r[3], 'meas': r[0], 'err': r[1]})
            types.append({'type': key, 'rows': rows})
        ev.append({'uid': d.get('UID', ''), 'types': types})
    return ev


def run_csv(s, rng):
    body, lines, intended = csv_file(s, rng)
    with open('a.csv', 'w', newline='', encoding='utf-8') as f:
        f.write(body)
    r, err = attempt(lambda: events_of(file_io.parse_csv('a.csv')))
    inv, err2 = attempt(lambda: file_io.csv2inv('a.csv'))
    if not err2:
        def load():
            with open('a.inv', 'rb') as f:
                return events_of(pickle.load(f))
        inv, err2 = attempt(load)
    out.emit(op='csv', scen=s, lines=lines, intended=intended, got=r, pickled=inv, err=err or err2)


FM = {'up': ['U', 'u', 'C', 'c', '+'], 'down': ['D', 'd', '-'], 'none': ['?', '.'], 'Sup': ['U', 'P', 'p', '+'], 'Sdown': ['D', 'N', 'n', '-']}
HEAD = 'PHASE ID Ins Cmp On Pha  FM Date     HrMn   Sec     Err  ErrMag    Coda      Amp       Per  >   TTpred    Res       Weight    StaLoc(X  Y         Z)        SDist    SAzim  RAz  RDip RQual    Tcorr '


def hyp_file(s, rng):
    lines = []
    for k in range(s['events']):
        lines += ['NLLOC "/loc/obs.%d.grid0" "LOCATED" "Location completed."' % k, 'SIGNATURE "   NLLoc:v6.00.0 03Feb2015 15h57m15"', 'GRID  100 100 100  -5 -5 -0  0.1 0.1 0.1 PROB_DENSITY',
                  'GEOGRAPHIC  OT 2015 01 %02d  22 23   %.4f  Lat 0.0399196 Long 0.0397218 Depth 3.32031' % (k + 1, rng.uniform(0, 60))]
        if s['blank']:
            lines.insert(rng.randint(len(lines) + 1), '')
        lines.append(HEAD)
        n = {'0': 0, '1': 1, 'few': int(rng.randint(2, 6)), 'many': int(rng.randint(20, 41))}[s['picks']]
        for j in range(n):
            pha = {'P': 'P', 'PS': 'PS'[rng.randint(2)], 'many': ['P', 'S', 'Pn', 'Pg', 'Sg'][rng.randint(5)]}[s['phases']]
            kind = ['up', 'down', 'none'][rng.randint(3)]
            f = FM[('S' if pha[0] == 'S' and kind != 'none' else '') + kind]
            w = ['S%04d' % rng.randint(9999), '?', '?', '?', pha, f[rng.randint(len(f))], '20150126', '2223', '%.2f' % rng.uniform(0, 60), 'GAU', '%.2f' % rng.uniform(.01, 1), '-1', '-1', '-1', '>',
                 '%.4f' % rng.uniform(0, 9), '%.4f' % rng.normal(), '%.4f' % rng.uniform(0, 2), '%.4f' % rng.normal(), '%.4f' % rng.normal(), '0.0000', '%.4f' % rng.uniform(0, 9), '%.2f' % rng.uniform(0, 360),
                 '%.1f' % rng.uniform(0, 360), '%.1f' % rng.uniform(0, 180), '%d' % rng.randint(10), '0.0000'][:s['words']]
            if s['short'] and rng.rand() < .2:
                w = w[:int(rng.choice([23, 24]))]
            lines.append('  '.join(w))
        lines.append('END_PHASE')
        lines.append('SCATTER Nsamples 3')
        lines.append('END_SCATTER')
        if not (s['last'] == 'none' and k + 1 == s['events']):
            lines.append('END_NLLOC')
            lines.append('')
    return lines


def run_hyp(s, rng):
    lines = hyp_file(s, rng)
    nl = '\r\n' if s['nl'] == 'crlf' else '\n'
    with open('a.hyp', 'w', newline='') as f:
        f.write(nl.join(lines) + nl)
    tok = []
    for l in lines:
        w = l.split()
        long = len(w) > 24 and w[0] != 'PHASE'
        tok.append({'w': w, 'fm': w[5].lower() if len(w) > 5 else '', 'az': num(w[23]) if long else '', 'toa': num(w[24]) if long else ''})

    def read():
        got = []
        for d in file_io.parse_hyp('a.hyp'):
            p = []
            for key in d:
                if key in ('UID', 'hyp_file'):
                    continue
                v = d[key]
                az, toa, m = [np.asarray(x) for x in (v['Stations']['Azimuth'], v['Stations']['TakeOffAngle'], v['Measured'])]
                n = len(v['Stations']['Name'])
                if az.shape != (n, 1) or toa.shape != (n, 1) or m.shape != (n, 1):
                    p.append('shapes')
                    continue
                p += [{'type': key, 'name': v['Stations']['Name'][k], 'az': repr(float(az[k, 0])), 'toa': repr(float(toa[k, 0])), 'pol': int(m[k, 0])} for k in range(n)]
            got.append(p)
        return got
    r, err = attempt(read)
    out.emit(op='hyp', scen=s, lines=tok, got=r, err=err)


KEYS = ['g', 'd', 'k', 'h', 's', 'u', 'v', 'S1', 'D1', 'R1', 'S2', 'D2', 'R2']


def flat(x):
    return [float(v) for v in np.ravel(np.asarray(x, dtype=float))]


def run_bin(s, rng):
    want, sf_want, blob, sfblob = [], [], b'', b''

    def build():
        n, ne = s['n'], s['events']
        if s['files'] > 1:
            n = int(rng.choice([0, 1, n, n + 1, 5]))
        scale = {'typical': 1, 'wide': 10.0 ** rng.uniform(-300, 2), 'zero': 1}[s['mag']]
        p = rng.uniform(size=n) * scale
        lnp = rng.normal(size=n) * (1 if s['mag'] == 'typical' else 300)
        if s['mag'] == 'zero' and n:
            z = rng.rand(n) < .5
            p[z] = 0
            lnp[z] = -np.inf
        conv = s['conv'] if s['files'] == 1 or rng.rand() < .5 else not s['conv']
        o = {'total_number_samples': int(rng.randint(n, 10 * n + 2)), 'dV': 1, 'probability': np.matrix(p) if s['shape'] == 'matrix' else p, 'ln_pdf': np.matrix(lnp) if s['shape'] == 'matrix' or rng.rand() < .5 else lnp}
        other = [float('nan'), float('nan')]
        if s['evidence'] == 'both':
            o['ln_bayesian_evidence'] = other[0] = float(rng.normal())
        if s['evidence'] != 'none':
            o['dkl'] = other[1] = float(rng.uniform(0, 5))
        for k in range(ne):
            end = '' if ne == 1 else '_%d' % (k + 1)
            m = rng.normal(size=(6, n))
            m /= np.sqrt((m * m).sum(0))
            if n and rng.rand() < .5:
                m[:, rng.randint(n)] = np.eye(6)[rng.randint(6)]
            o['moment_tensor_space' + end] = np.matrix(m)
            c = []
            if conv:
                for key in KEYS:
                    x = rng.uniform(-3, 360, size=n)
                    o[key + end] = x
                    c.append({'key': key, 'x': flat(x)})
            want.append({'p': flat(p), 'lnp': flat(lnp), 'total': o['total_number_samples'], 'mt': [flat(r) for r in m], 'conv': c, 'other': other})
        if s['scale']:
            mu = [rng.uniform(.1, 10, size=(ne, ne)) for _ in range(n)]
            sg = [rng.uniform(.1, 1, size=(ne, ne)) for _ in range(n)]
            o['scale_factors'] = [{'mu': a, 'sigma': b} for a, b in zip(mu, sg)]
            iu = np.triu_indices(ne, 1)
            for k in range(ne):
                sf_want.append({'mu': [flat(a[iu]) for a in mu], 'sigma': [flat(a[iu]) for a in sg]})
        ev = [{'UID': str(k), 'PPolarity': {'Stations': {'Name': ['A', 'B', 'C'], 'Azimuth': np.matrix([[10.], [100.], [200.]]), 'TakeOffAngle': np.matrix([[10.], [60.], [100.]])},
                                            'Measured': np.matrix([[1], [-1], [1]]), 'Error': np.matrix([[.1], [.1], [.1]])}} for k in range(ne)]
        return ev if ne > 1 else ev[0], o

    def write():
        b, f = b'', b''
        for k in range(s['files']):
            ev, o = build()
            d = file_io.hyp_output_dicts(ev, False, o, False, False, s['events'] > 1)
            for x in ('a.hyp', 'a.mt', 'a.sf'):
                if os.path.exists(x):
                    os.remove(x)
            file_io.hyp_output(list(d), fid='a.hyp')
            with open('a.mt', 'rb') as g:
                b += g.read()
            if os.path.exists('a.sf'):
                with open('a.sf', 'rb') as g:
                    f += g.read()
        with open('b.mt', 'wb') as g:
            g.write(b)
        with open('b.sf', 'wb') as g:
            g.write(f)

    def read():
        write()
        got = []
        for r in file_io.read_binary_output('b.mt'):
            m = np.asarray(r['moment_tensor_space'])
            got.append({'p': flat(r['probability']), 'lnp': flat(r['ln_pdf']), 'total': int(r['total_number_samples']), 'mt': [flat(x) for x in m],
                        'conv': [{'key': k, 'x': flat(r[k])} for k in KEYS if k in r], 'other': [float(r.get('ln_bayesian_evidence', 'nan')), float(r.get('dkl', 'nan'))]})
        sf = [{'mu': [flat(x) for x in np.asarray(r['scale_factors']).T], 'sigma': [flat(x) for x in np.asarray(r['sigma']).T]} for r in file_io.read_sf_output('b.sf')] if sf_want else []
        return got, sf
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        r, err = attempt(read)
    out.emit(op='bin', scen=s, want=want, got=r[0] if r else [], sf_want=sf_want, sf=r[1] if r else [], err=err)


try:
    sc = scenarios(scen)
    for op, f in (('csv', run_csv), ('hyp', run_hyp), ('bin', run_bin)):
        mine = sorted([s for s in sc if s['op'] == op], key=lambda s: json.dumps(s, sort_keys=True))
        np.random.RandomState(SEED).shuffle(mine)
        for k, s in enumerate(mine[shard::shards][:N[op]]):
            f(s, seed('c17', op, shard, k))
finally:
    os.chdir('/')
    shutil.rmtree(tmp)
out.close()
