from vlib import core


def body(c):
    c.rule = ('line-by-line reader and greedy binning model checked on every small file / sample set (with broken readers and merging rules); forms of scatter files, sample sets, bin sizes, '
              'sub-sampling and entry points (spec/C18Gen.tla) written, read, binned and written again by MTfit and judged against Scatter.tla / the invariants of ScatterBin.tla')
    c.model('ScatterRead')
    for b in ('NeedsBlank', 'KeepsStations', 'FirstWeight', 'NewestFirst'):
        r = c.model('ScatterRead', 'ScatterRead' + b, must=False)
        c.require('Faithful is violated' in r.out, 'ScatterRead' + b + ' must break the model')
    c.model('ScatterBin')
    for b, inv in (('AnyStation', 'OnlyNear'), ('Boundary', 'OnlyNear'), ('Positional', 'OnlyNear'), ('Signed', 'OnlyNear'), ('FirstStation', 'OnlyNear'), ('Chained', 'OnlyNear'),
                   ('WeightsKept', 'Bounds'), ('Skip', 'OnePerBin')):
        r = c.model('ScatterBin', 'ScatterBin' + b, must=False)
        c.require('%s is violated' % inv in r.out, 'ScatterBin' + b + ' must break the model')
    scen, path = c.generate('C18Gen', 'Gen')
    jobs = [('c18.py', v, (path, core.scratch_root() + '/c18-%s-%d.nd' % (v, k), k, 8)) for v, ks in (('c', (0, 1, 2, 3)), ('py', (4, 5, 6, 7))) for k in ks]
    c.drive_many(jobs)
    c.validate_many([('C18Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['every block has a positive weight and at least one station; angles are compared as numbers, without wrapping azimuths at 360 degrees',
                     'which retained sample takes in a sample near several of them is not judged (each bin weighs at least what only it can hold and at most all it could hold)',
                     'differences within 1e-9 of half a bin are not judged unless the angles are whole eighths of a degree']


core.main('C18', 'exploration', body)
