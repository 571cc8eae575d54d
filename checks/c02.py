from vlib import core


def body(c):
    c.rule = ('scenarios = all combinations of the strata in spec/C02Gen.tla (TLC-enumerated), concretised at random within a '
              'stratum; an event is one call of polarity_ln_pdf / polarity_probability_ln_pdf; distinct by full content')
    scen, path = c.generate('C02Gen', 'Gen')
    jobs = [('c02.py', v, (path, core.scratch_root() + '/c02-%s.nd' % v)) for v in ('c', 'py')]
    c.drive_many(jobs)
    for _, v, a in jobs:
        c.validate('C02Trace', a[1], v)
    c.assumptions = ['IEEE doubles; a single-station probability is compared up to 4e-16 absolute (the documented formula 1+erf saturates)',
                     'zero uncertainty is exercised with |A| in {0} or >= 1e-9 (replaced by 1e-24 in the code)']


core.main('C02', 'exploration', body)
