from vlib import core


def body(c):
    c.rule = ('events x own data x overlap and order of the shared stations x minimum number of intersections x relative data x filter x location samples (own / shared) x reused task x entry point '
              '(joint task, reused task, Inversion.forward), direct pair terms in different station orders, and zero-error limits: enumerated by spec/C15Gen.tla, a seeded sample driven, '
              'values from spec/Joint.tla')
    c.model('JointModel')
    for m, inv, what in (('JointModelPositional', 'Additive', 'pairing the shared stations by position'), ('JointModelStale', 'Additive', 'using the sources from before the filter of a pair'),
                         ('JointModelAnyRow', 'FilterExact', 'filtering tuples impossible at one location sample'), ('JointModelMinimum', 'Additive', 'counting the minimum exclusively')):
        r = c.model('JointModel', m, must=False)
        c.require('Invariant %s is violated' % inv in r.out, what + ' must break the model')
    scen, path = c.generate('C15Gen', 'Gen')
    jobs = [('c15.py', v, (path, core.scratch_root() + '/c15-%s-%d.nd' % (v, k), k, 8)) for v in ('c', 'py') for k in range(8)]
    c.drive_many(jobs)
    c.validate_many([('C15Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['own log-probabilities as in C01, ratio densities as in C03; the per-station scale estimates are those the implementation gives for a single station, their combination and their limit are specified',
                     'relative amplitudes of a station are shared when name and phase agree; tuples with a nodal station (no finite estimate) are only judged for their filtering',
                     'with shared location samples the probability of a tuple is the weighted sum over the samples of the product over events and pairs']


core.main('C15', 'exploration', body)
