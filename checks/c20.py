import json
import os
from vlib import core

EXT = {'probability': 'MTfit.probability.cprobability', 'chain': 'MTfit.algorithms.cmarkov_chain_monte_carlo', 'convert': 'MTfit.convert.cmoment_tensor_conversion',
       'scatangle': 'MTfit.extensions.cscatangle'}
# family: (scenarios, driver, shards the scenarios are cut into, shards performed in the quick tier)
FAM = {'c01': ('C01Gen', 8, 8), 'c02': ('C02Gen', 1, 1), 'c03': ('C03Gen', 1, 1), 'c04': ('C04Gen', 1, 1), 'c05': ('C05Gen', 8, 4), 'c12': ('C12Gen', 1, 1), 'c13': ('C13Gen', 1, 1),
       'c14': ('C14Gen', 1, 1), 'c18': ('C18Gen', 8, 3), 'c06': ('C06Gen', 32, 8), 'c08': ('C08Gen', 8, 4), 'c20': ('C20Gen', 8, 8)}
# families whose routines use more than one of the modules: also compared with each of them missing on its own
MIXED = {'c01': ('probability', 'convert'), 'c05': ('chain', 'probability'), 'c20': ('chain', 'convert', 'probability')}


def join(a, b, out, fam, ext):
    """the records of both runs, scenario by scenario"""
    x, y = open(a).read().splitlines(), open(b).read().splitlines()
    keep = (lambda e: True)
    if fam == 'c06':
        keep = lambda e: e['op'] in ('draws', 'jumpdraws')
    elif fam == 'c08':
        keep = lambda e: e['op'] == 'stats' and e['entry'] != 'accelerated'
    x, y = [e for e in map(json.loads, x) if keep(e)], [e for e in map(json.loads, y) if keep(e)]
    if len(x) != len(y):
        raise core.MachineryError('%s and %s do not record the same scenarios (%d, %d)' % (a, b, len(x), len(y)))
    with open(out, 'w') as f:
        for p, q in zip(x, y):
            f.write(json.dumps({'fam': fam, 'ext': ext, 'a': p, 'b': q}) + '\n')


def body(c):
    c.rule = ('the choice between a compiled routine and its replacement as a state machine (which modules are there, whether the compiled call gives up half way), with the ways it can show; '
              'every routine with a compiled form, driven through the scenarios of its own property and those of spec/C20Gen.tla, once with the extension modules and once without, '
              'and with single modules missing; an event is one scenario with both answers')
    c.model('Dispatch')
    for b, inv in (('Damaged', 'SameAnswer'), ('Twice', 'SameAnswer'), ('Refuses', 'Answered'), ('Partly', 'SameAnswer')):
        r = c.model('Dispatch', 'Dispatch' + b, must=False)
        c.require('Invariant %s is violated' % inv in r.out, 'Dispatch' + b + ' must break the model')
    root = core.scratch_root()
    paths = {f: c.generate(m, 'Gen')[1] for f, (m, _, _) in sorted(FAM.items())}
    jobs, pairs = [], []
    for f, (_, n, q) in sorted(FAM.items()):
        for k in range(n if c.thorough else q):
            ref = '%s/c20-%s-py-%d.nd' % (root, f, k)
            args = (lambda o: (paths[f], o, k, n))
            jobs.append((f + '.py', 'py', args(ref), {'VP_JOIN': '1'}))
            runs = [('all', None)]
            if f in MIXED and (c.thorough or k == 0):
                runs += [('without-' + m, EXT[m]) for m in MIXED[f]]
            for name, absent in runs:
                o = '%s/c20-%s-%s-%d.nd' % (root, f, name, k)
                jobs.append((f + '.py', 'c', args(o), {'VP_JOIN': '1', 'VP_ABSENT': absent or ''}))
                pairs.append((o, ref, '%s/c20-%s-%s-%d.j' % (root, f, name, k), f, name))
    # the long ones first
    jobs.sort(key=lambda j: {'c06.py': 0, 'c20.py': 1, 'c05.py': 2, 'c18.py': 3, 'c08.py': 4}.get(j[0], 9))
    c.drive_many(jobs, timeout=800)
    if c.violations:
        return
    for p in pairs:
        join(*p)
    done = {}
    for o, ref, j, f, name in pairs:
        done.setdefault(f, []).append(j)
    work = []
    for f, js in done.items():
        t = '%s/c20-%s.j' % (root, f)
        with open(t, 'w') as g:
            for j in js:
                g.write(open(j).read())
        if os.path.getsize(t):
            work.append(('C20Trace', t, 'both'))
    c.validate_many(work)
    c.assumptions = ['rounding: 1e-9 where the routine is well conditioned, the conditioning of the ratio density in its fractional uncertainties, what 1 + erf leaves of small probabilities',
                     'nodal planes of horizontal or vertical planes and of pure dip slip, axes of equal eigenvalues and the poles of the lune are compared through the tensor they stand for',
                     'random generators are compared as two samples with bands of 8 standard deviations (+12); NumPy generators are trusted',
                     'coefficient binning (bin_angle_coefficient_samples) is an opt-in approximation outside the other properties and not compared']


core.main('C20', 'exploration', body)
