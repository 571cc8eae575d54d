from vlib import core


def body(c):
    c.rule = ('the container of the result samples as a state machine, checked on every set of up to 3 samples and history of 3 operations (with broken containers); containers made in every '
              'supported form, histories of selections, replacements, reductions and derivations (spec/C19Gen.tla) performed on MTData and judged step by step, derived parameters against '
              'Tensor.tla and the stand-alone conversions; projections of points in every stratum with every option against the radius law')
    c.model('Container')
    for b, inv in (('LosesSingle', 'Probability'), ('Stale', 'Converted'), ('RunLength', 'Probability'), ('OtherIndex', 'Tensor'), ('OneMaximum', 'Tensor'), ('FirstValues', 'Converted')):
        r = c.model('Container', 'Container' + b, must=False)
        c.require('%s is violated' % inv in r.out, 'Container' + b + ' must break the model')
    scen, path = c.generate('C19Gen', 'Gen')
    jobs = [('c19.py', v, (path, core.scratch_root() + '/c19-%s-%d.nd' % (v, k), k, 8)) for v, ks in (('c', (0, 1, 2, 3)), ('py', (4, 5, 6, 7))) for k in ks]
    c.drive_many(jobs)
    c.validate_many([('C19Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['tensors are not all zero and hold no NaN; probabilities are not negative and not all zero',
                     'samples are selected by the second index (columns)',
                     'the pole opposite to the centre of a full-sphere projection is not judged, points within 1e-12 of the equator may be shown or hidden',
                     'a projection axis determines azimuths up to a rotation about it']


core.main('C19', 'exploration', body)
