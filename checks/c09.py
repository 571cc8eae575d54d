from vlib import core


def body(c):
    c.rule = ('histories of up to three batches (size class relative to the storage increment x zero pattern, enumerated by spec/C09Gen.tla; longer ones drawn) x store (memory, file safe/in place, re-opened) x events x rows x '
              'increment x scale factors x discard x normalise x magnitude x form of the batch; sample-count-limited runs by iterate and by inversion')
    c.model('StoreModel')
    for m, inv in (('StoreModelReplace', 'Refines'), ('StoreModelOnce', 'Refines'), ('StoreModelTried', 'CountsAll'), ('StoreModelUnfiltered', 'Refines')):
        r = c.model('StoreModel', m, must=False)
        c.require(inv + ' is violated' in r.out, m + ' must break the model')
    c.model('FileStoreModel')
    for m in ('FileStoreModelInplace', 'FileStoreModelAlphabet', 'FileStoreModelStale'):
        r = c.model('FileStoreModel', m, must=False)
        c.require('is violated' in r.out, m + ' must break the model')
    scen, path = c.generate('C09Gen', 'Gen')
    jobs = [('c09.py', v, (path, core.scratch_root() + '/c09-%s-%d.nd' % (v, k), k, 4)) for v in ('c', 'py') for k in range(4)]
    c.drive_many(jobs)
    c.validate_many([('C09Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['logarithm tolerance as in LogDomain; the discard threshold is judged outside a band of that width',
                     'probabilities are normalised over all stored values, before the discard', 'file stores are interrupted only between batches']


core.main('C09', 'exploration', body)
