from vlib import core


def body(c):
    c.rule = ('data-type combination x polarity types with all/some mispick probabilities x location samples (K, weights, station order, duplicates) x marginalise x filter x entry point '
              '(forward task, generating task, Inversion.forward): enumerated by spec/C01Gen.tla, a seeded stratified sample of it driven, values from spec/Posterior.tla')
    c.model('PosteriorModel')
    for m, what in (('PosteriorModelShortcut', 'skipping weights of mean one'), ('PosteriorModelEarly', 'stopping after a zero candidate')):
        r = c.model('PosteriorModel', m, must=False)
        c.require('IsProduct is violated' in r.out, what + ' must break the model')
    scen, path = c.generate('C01Gen', 'Gen')
    jobs = [('c01.py', v, (path, core.scratch_root() + '/c01-%s-%d.nd' % (v, k), k, 4)) for v in ('c', 'py') for k in range(4)]
    c.drive_many(jobs)
    c.validate_many([('C01Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['interval arithmetic: each polarity factor +-5e-16 absolute and 2e-15 in the amplitude, ratio factors as in C03, sums 1e-11 + 1e-14 relative',
                     'polarities and polarity probabilities are alternatives (never both)', 'coefficient binning (an approximation by option) off']


core.main('C01', 'exploration', body)
