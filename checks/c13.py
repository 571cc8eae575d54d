from vlib import core


def body(c):
    c.rule = ('strike x dip x rake boundary/interior strata x call form enumerated by spec/C13Gen.tla, plus planes whose two strikes lie within one '
              'radian; an event is every conversion derived from the angles of one call')
    scen, path = c.generate('C13Gen', 'Gen')
    jobs = [('c13.py', v, (path, core.scratch_root() + '/c13-%s.nd' % v)) for v in ('c', 'py')]
    c.drive_many(jobs)
    c.validate_many([('C13Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['tolerance 1e-10 (1e-15/sin(dip), at most 4e-8, where the compiled code works from cos(dip))',
                     'axes alone cannot tell the two nodal planes apart, so TNP_SDR/MT33_SDR may return either plane',
                     'strike 2 pi counts as 0 (floating-point modulus)']


core.main('C13', 'exploration', body)
