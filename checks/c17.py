from vlib import core


def body(c):
    c.rule = ('line-by-line reader of the CSV file and cell-by-cell reader of the binary file model checked against the writer on every small file; forms of CSV, hypocentre and result files '
              '(spec/C17Gen.tla) written, read by MTfit and compared with what the specified reader gives on the same lines')
    for m, bad in (('CsvModel', ('FirstEqual', 'DropsType', 'StickyHeader', 'LastLost')), ('Record', ('Total', 'FirstConverted', 'VersionOnce'))):
        c.model(m)
        for b in bad:
            r = c.model(m, m + b, must=False)
            c.require('RoundTrip is violated' in r.out, m + b + ' must break the model')
    scen, path = c.generate('C17Gen', 'Gen')
    jobs = [('c17.py', v, (path, core.scratch_root() + '/c17-%s-%d.nd' % (v, k), k, 8)) for v, ks in (('c', (0, 1, 2, 3)), ('py', (4, 5, 6, 7))) for k in ks]
    c.drive_many(jobs)
    c.validate_many([('C17Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['fields are separated by commas without quoting, the Name column is called Name, every data type has a line naming it and a header',
                     'tensors come back within 1e-14 (their off-diagonal elements are scaled by sqrt 2 on the way)', 'first motions other than those of NonLinLoc compression, dilatation and unreadable are not used']


core.main('C17', 'exploration', body)
