from vlib import core


def body(c):
    c.rule = ('strata of (modelled amplitudes, fractional errors, position of the observed ratio) enumerated by spec/C03Gen.tla; an event is '
              'one density evaluation, one normalisation integral over TLC-supplied nodes, or one shaped call')
    r = c.model('QuadTest', workers=1)
    c.require('<<"SELFTEST", {}>>' in r.out, 'lemmas about the specified density fail: ' + r.out[-1500:])
    scen, path = c.generate('C03Gen', 'Gen')
    jobs = [('c03.py', v, (path, core.scratch_root() + '/c03-%s.nd' % v)) for v in ('c', 'py')]
    c.drive_many(jobs)
    c.validate_many([('C03Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['relative tolerance 1e-9 + 2e-14/min(f)^2: rounding of the documented closed form',
                     'densities below 1e-280 are only required to be tiny and NaN-free']


core.main('C03', 'exploration', body)
