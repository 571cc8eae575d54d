from vlib import core


def body(c):
    c.rule = ('entry point x move (shift in either model, jump up or down; 1..3 events) x stratum of both states x likelihood pair x widths x prior x '
              'balancing draw x model prior, and batches of tries, enumerated by spec/C05Gen.tla; an event is the pair of acceptance probabilities')
    c.model('MetropolisModel')
    for bug in ('Inverted', 'Symmetric', 'NoBalancing', 'NoPrior'):
        r = c.model('MetropolisModel', 'MetropolisModel' + bug, must=False)
        c.require('Invariant Balance is violated' in r.out, 'the balance invariant does not notice the rule "%s"' % bug)
    scen, path = c.generate('C05Gen', 'Gen')
    jobs = [('c05.py', v, (path, core.scratch_root() + '/c05-%s-%d.nd' % (v, k), k, 8)) for v in ('py', 'c') for k in range(8)]
    c.drive_many(jobs)
    c.validate_many([('C05Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['the model prior is what prior() returns (its shape and normalisation are judged separately)',
                     'densities below 1e-290 and priors below 1e-9 (rounding noise at the end of the lune) are not judged',
                     'the strike density is symmetric on the circle and cancels', 'reflected proposals (reflect_*) and the CDC model are not covered']


core.main('C05', 'exploration', body)
