from vlib import core


def body(c):
    c.rule = ('azimuth x take-off x phase x unit x container strata; data dictionaries of 1-3 types with every station order over three names (and up to 30 '
              'stations), location records as permutations/supersets/subsets of them, same or different order per record: enumerated by spec/C11Gen.tla')
    c.model('AlignModel')
    r = c.model('AlignModel', 'AlignModelBroken', must=False)
    c.require('Aligned is violated' in r.out, 'reading every record in the order of the first must break the model')
    scen, path = c.generate('C11Gen', 'Gen')
    jobs = [('c11.py', v, (path, core.scratch_root() + '/c11-%s-%d.nd' % (v, k), k, 4)) for v in ('c', 'py') for k in range(4)]
    c.drive_many(jobs)
    c.validate_many([('C11Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['tolerance 2e-14 + 4e-16*|azimuth| on coefficients, 1e-12 relative on table entries', 'row order of the tables is not judged, only the pairing',
                     'measurements are column matrices, station names a list (as documented)']


core.main('C11', 'exploration', body)
