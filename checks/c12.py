from vlib import core


def body(c):
    c.rule = ('tensor families x call forms, and the product of boundary/interior strata of the five Tape parameters, enumerated by spec/C12Gen.tla; '
              'an event is one call with everything converted from it and back')
    scen, path = c.generate('C12Gen', 'Gen')
    jobs = [('c12.py', v, (path, core.scratch_root() + '/c12-%s.nd' % v)) for v in ('c', 'py')]
    c.drive_many(jobs)
    c.validate_many([('C12Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['tolerance 1e-11, widened to at most 6e-8 where the lune latitude (arc cosine) or dip (from cos(dip)) is ill-conditioned',
                     'parameters are compared one by one only where the tensor determines them (distinct eigenvalues, no horizontal/vertical plane)']


core.main('C12', 'exploration', body)
