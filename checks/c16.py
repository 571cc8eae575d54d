from vlib import core


def body(c):
    c.rule = ('state machine of the pool (workers, queue, pipe of limited capacity, collection, closing) model checked for safety and liveness; call histories (workers x tasks x outcomes x '
              'order of submission and collection x durations, spec/C16Gen.tla) run on the real pool with perturbed schedules, every recorded history replayed on the specification (spec/C16Trace.tla)')
    c.model('Pool')
    for m, what, text in (('PoolDies', 'a worker which ends after an exception', 'Deadlock reached'), ('PoolWaitCode', 'waiting for another result after a status code', 'Deadlock reached'),
                          ('PoolNoDrain', 'closing without reading the uncollected results', 'Deadlock reached'), ('PoolLoses', 'dropping an exception', 'ExactlyOnce is violated')):
        r = c.model('Pool', m, must=False)
        c.require(text in r.out, what + ' must break the model')
    scen, path = c.generate('C16Gen', 'Gen')
    jobs = [('c16.py', v, (path, core.scratch_root() + '/c16-%s-%d.nd' % (v, k), k, 6)) for v, ks in (('c', (0, 1, 2)), ('py', (3, 4, 5))) for k in ks]
    c.drive_many(jobs)
    c.validate_many([('C16Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['multi-life workers, default start method of the platform', 'a status code is counted but not delivered; a call which finds only status codes gives None (one result) or nothing (all results)',
                     'an exception which cannot be pickled may be replaced by one naming it', 'a call which has not returned after 45 s never does']


core.main('C16', 'model_checking', body)
