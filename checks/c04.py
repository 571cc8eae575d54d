from vlib import core


def body(c):
    c.rule = ('operation x container x shape x axis x magnitude x -inf pattern x volume strata enumerated by spec/C04Gen.tla; an event is a '
              'marginalisation or normalisation of a table and of the same table shifted by a constant')
    scen, path = c.generate('C04Gen', 'Gen')
    jobs = [('c04.py', v, (path, core.scratch_root() + '/c04-%s.nd' % v)) for v in ('c', 'py')]
    c.drive_many(jobs)
    c.validate_many([('C04Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['tolerance 1e-12 + 1.8e-15*max|ln p| (a few ulps of the largest log-value)',
                     'a 1-D log-PDF counts as already marginalised over axis 0 (code convention); a length-1 axis may or may not apply dV']


core.main('C04', 'exploration', body)
