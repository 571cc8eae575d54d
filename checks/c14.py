from vlib import core


def body(c):
    c.rule = ('spectrum x axes x scale x call form (eigen-decomposition), spectrum x eigenvalue order x scale x form (lune, Hudson), opening angle x Poisson '
              'ratio, stiffness class x tensor, enumerated by spec/C14Gen.tla')
    scen, path = c.generate('C14Gen', 'Gen')
    jobs = [('c14.py', v, (path, core.scratch_root() + '/c14-%s.nd' % v)) for v in ('c', 'py')]
    c.drive_many(jobs)
    c.validate_many([('C14Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['the zero tensor has no source type and is not generated',
                     'the Poisson ratio is not determined for opening angle pi/2 (every ratio maps to the double couple), so only the angle is compared there',
                     'lune latitude is an arc cosine: up to 6e-8 near the isotropic points']


core.main('C14', 'exploration', body)
