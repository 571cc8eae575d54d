from vlib import core


def body(c):
    c.rule = ('distribution x entry point x samples per call x generator state enumerated by spec/C08Gen.tla; an event is a set of calls (every '
              'sample judged) or the sufficient statistics of a population of draws')
    c.model('TriadModel')
    scen, path = c.generate('C08Gen', 'Gen')
    jobs = [('c08.py', v, (path, core.scratch_root() + '/c08-%s-%d.nd' % (v, k), k, 4)) for v in ('c', 'py') for k in range(4)]
    c.drive_many(jobs)
    c.validate_many([('C08Trace', a[1], v) for _, v, a in jobs])
    c.assumptions = ['MTfit reseeds NumPy from the operating system, so populations differ from run to run; bands are 8 standard deviations (+12), '
                     'about 1e-15 per statistic', 'deviations from uniformity smaller than the band (about 0.5 % of the mass at 2e5 draws) are not seen']


core.main('C08', 'exploration', body)
