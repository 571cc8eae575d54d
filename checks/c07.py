from vlib import core


def body(c):
    c.rule = ('chain class x number of events x learning length x chain length x window x every history of accepted/rejected tries up to a fixed length (batches with every first accepted position for the multiple-try '
              'classes) and longer random ones; complete runs on polarity data as a task and through the inversion front end; long chains next to prior random sampling; enumerated by spec/C07Gen.tla')
    c.model('ChainModel')
    c.model('ChainModel', 'ChainModelDirect')
    for bug in ('Learning', 'Once', 'Overrun', 'Single'):
        r = c.model('ChainModel', 'ChainModel' + bug, must=False)
        c.require('Invariant SameRecord is violated' in r.out, 'the chain model does not notice the counting mistake "%s"' % bug)
    scen, path = c.generate('C07Gen', 'Gen')
    jobs = [('c07.py', v, (path, core.scratch_root() + '/c07-%s-%d.nd' % (v, k), k, 8)) for v in ('py', 'c') for k in range(8)]
    c.drive_many(jobs)
    c.validate_many([('C07Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['expectations of long chains are compared within 6-8 standard errors (batch means) + 0.012', 'states of zero likelihood at the start of a chain without a learning period are left out of the stored chain',
                     'the prior mass of full tensors is 1.10452 (known finding of C05), the share of double-couples is judged for masses of 1 to 1.105',
                     'in the pure-Python build the multiple-try classes propose one source at a time']


core.main('C07', 'exploration', body)
