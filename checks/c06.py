from vlib import core


def body(c):
    c.rule = ('chain class x model x current state stratum (interior, bounds, near bounds, axes) x widths x jump probability x events: populations of proposals, '
              'awkward normal draws, jump draws, chain starts, and all histories of learning-window acceptance rates up to a fixed length plus long patterns, '
              'enumerated by spec/C06Gen.tla; an event is a population of proposals or a history of widths')
    c.model('WidthModel')
    for bug, inv in (('Unbounded', 'NotAboveMaximum'), ('Zero', 'Positive'), ('Dropped', 'Positive')):
        r = c.model('WidthModel', 'WidthModel' + bug, must=False)
        c.require('Invariant %s is violated' % inv in r.out, 'the width invariants do not notice the adaptation "%s"' % bug)
    scen, path = c.generate('C06Gen', 'Gen')
    jobs = [('c06.py', v, (path, core.scratch_root() + '/c06-%s-%d.nd' % (v, k), k, 8)) for v in ('py', 'c') for k in range(8)]
    c.drive_many(jobs)
    c.validate_many([('C06Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['population counts are judged against binomial bands of 8 standard deviations + 12', 'NumPy generators are trusted except in the awkward-draw scenarios, where they are replaced',
                     'reflected proposals (reflect_*) and the CDC model are not covered']


core.main('C06', 'exploration', body)
