from vlib import core


def body(c):
    c.rule = ('operation x container x size x magnitude x -inf pattern x tried-count strata enumerated by spec/C10Gen.tla; an event is one '
              'evidence / model-probability / divergence evaluation together with its shifted and permuted companions')
    scen, path = c.generate('C10Gen', 'Gen')
    jobs = [('c10.py', v, (path, core.scratch_root() + '/c10-%s.nd' % v)) for v in ('c', 'py')]
    c.drive_many(jobs)
    c.validate_many([('C10Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['tolerance 1e-10 + 1e-14*max|ln p|', 'with discarding, evidence may differ by the documented 1/discard']


core.main('C10', 'exploration', body)
