"""Shared machinery of the checks: scratch copies of MTfit (with and without compiled extensions), drivers, TLC,
verdicts, known findings, evidence.  Nothing here decides a property: the TLA+ modules in /verif/spec do."""
import atexit
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')


class MachineryError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr)
    sys.stderr.flush()


# ---------------------------------------------------------------- java override
def java_classes():
    src = os.path.join(VERIF, 'java', 'vp')
    files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith('.java'))
    h = hashlib.sha256()
    for f in files:
        h.update(open(f, 'rb').read())
    out = os.path.join(BUILD, 'java-' + h.hexdigest()[:16])
    if not os.path.exists(os.path.join(out, 'OK')):
        tmp = tempfile.mkdtemp(prefix='vpjava')
        r = subprocess.run(['javac', '-nowarn', '-cp', TLA + ':' + CM, '-d', tmp] + files, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise MachineryError('javac: ' + r.stdout)
        open(os.path.join(tmp, 'OK'), 'w').close()
        os.makedirs(BUILD, exist_ok=True)
        if not os.path.exists(out):
            try:
                shutil.move(tmp, out)
            except Exception:
                pass
        shutil.rmtree(tmp, ignore_errors=True)
    return out


# ---------------------------------------------------------------- scratch
_scratch = []
_lock = threading.Lock()


def scratch(prefix='vp'):
    d = tempfile.mkdtemp(prefix=prefix, dir='/tmp')
    _scratch.append(d)
    return d


def _cleanup():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)


atexit.register(_cleanup)
signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))


# ---------------------------------------------------------------- the code under test
def _ext_key():
    cmd = r"""cd %s && { git ls-files -co --exclude-standard -- 'src/*.pyx' 'src/*.pxd' 'src/*.pxi' | LC_ALL=C sort -u | while read -r f; do [ -f "$f" ] && sha256sum "$f"; done
         sha256sum setup.py setup.cfg versioneer.py src/MTfit/_version.py /opt/vp/lib/cc; } 2>&1 | sha256sum""" % REPO
    return subprocess.run(['bash', '-c', cmd], stdout=subprocess.PIPE, text=True).stdout.strip()


def _so_files(root):
    r = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.so'):
                r.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(r)


def drv_env(extra=None):
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME')}
    env.update(PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LANG='C.UTF-8',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONUNBUFFERED='1', MPLBACKEND='Agg',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONWARNINGS='ignore')
    mc = '/opt/vp/mplconfig'
    if os.path.isdir(mc):
        env['MPLCONFIGDIR'] = os.path.join(scratch_root(), 'mpl')
        with _lock:
            if not os.path.isdir(env['MPLCONFIGDIR']):
                shutil.copytree(mc, env['MPLCONFIGDIR'])
    if extra:
        env.update({k: str(v) for k, v in extra.items()})
    return env


_root = None


def scratch_root():
    global _root
    if _root is None:
        _root = scratch('vpchk')
    return _root


_variants = {}


def variants(which=('c', 'py')):
    """{'c': dir, 'py': dir}: directories to put on PYTHONPATH, copies of /repo/src with and without the extensions,
    built from /repo's working tree as it is now."""
    for v in which:
        if v in _variants:
            continue
        d = os.path.join(scratch_root(), 'mtfit_' + v)
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(d, 'src'),
                        ignore=shutil.ignore_patterns('__pycache__', '*.c', '*.so', '*.egg-info'))
        if v == 'c':
            _install_ext(d)
        _variants[v] = os.path.join(d, 'src')
    return {v: _variants[v] for v in which}


def _install_ext(d):
    key = _ext_key()
    stamp = os.path.join(REPO, 'build', 'vp.stamp')
    pyx = []
    for dd, _, fs in os.walk(os.path.join(d, 'src')):
        pyx += [os.path.relpath(os.path.join(dd, f), os.path.join(d, 'src')) for f in fs if f.endswith('.pyx')]
    setup = open(os.path.join(REPO, 'setup.py')).read()
    need = sorted(p[:-4] for p in pyx if 'src/' + p in setup)

    def complete(root):
        sos = _so_files(root)
        return all(any(s.startswith(n + '.') for s in sos) for n in need)
    if os.path.exists(stamp) and open(stamp).read().strip() == key and complete(os.path.join(REPO, 'src')):
        src = os.path.join(REPO, 'src')
    else:
        src = os.path.join(BUILD, 'ext-' + hashlib.sha256(key.encode()).hexdigest()[:16])
        if not complete(src) if os.path.isdir(src) else True:
            log('extensions of /repo are stale: building in scratch')
            b = scratch('vpext')
            shutil.copytree(os.path.join(d, 'src'), os.path.join(b, 'src'))
            for f in ('setup.py', 'setup.cfg', 'versioneer.py', 'README.md', 'README.rst', 'MANIFEST.in'):
                if os.path.exists(os.path.join(REPO, f)):
                    shutil.copy(os.path.join(REPO, f), b)
            env = drv_env({'CC': '/opt/vp/lib/cc', 'CCACHE_DIR': os.path.join(BUILD, 'ccache'), 'CCACHE_COMPILERCHECK': 'content',
                           'HOME': b})
            r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force', '-j', '4'], cwd=b, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if not complete(os.path.join(b, 'src')):
                raise MachineryError('extension build failed:\n' + r.stdout[-3000:])
            os.makedirs(src, exist_ok=True)
            for s in _so_files(os.path.join(b, 'src')):
                os.makedirs(os.path.dirname(os.path.join(src, s)), exist_ok=True)
                shutil.copy(os.path.join(b, 'src', s), os.path.join(src, s))
            shutil.rmtree(b, ignore_errors=True)
    for s in _so_files(src):
        if any(s.startswith(n + '.') for n in need):
            shutil.copy(os.path.join(src, s), os.path.join(d, 'src', s))


def run_driver(script, variant, args=(), timeout=600, env=None, ok=(0,)):
    """Run /verif/drivers/<script> against one variant; returns (returncode, stdout+stderr)."""
    src = variants((variant,))[variant]
    cwd = tempfile.mkdtemp(prefix='cwd', dir=scratch_root())
    e = drv_env({'PYTHONPATH': src + ':' + VERIF, 'VP_VARIANT': variant, 'VP_SRC': src, 'TMPDIR': cwd})
    if env:
        e.update({k: str(v) for k, v in env.items()})
    p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(VERIF, 'drivers', script)] + [str(a) for a in args], cwd=cwd, env=e,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        raise DriverDied(script, variant, 'timeout', out[-2000:])
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
    if p.returncode not in ok:
        if p.returncode < 0:
            raise DriverDied(script, variant, 'signal %d' % -p.returncode, out[-2000:])
        raise MachineryError('driver %s (%s) failed: rc=%s\n%s' % (script, variant, p.returncode, out[-4000:]))
    return p.returncode, out


class DriverDied(Exception):
    """The implementation killed the interpreter or never came back."""


# ---------------------------------------------------------------- TLC
class TLCResult(object):
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        self.states = self.distinct = 0
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if m:
            self.states, self.distinct = [int(x.replace(',', '')) for x in m[-1]]
        else:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            if m:
                self.states = self.distinct = int(m[-1].replace(',', ''))

    @property
    def ok(self):
        return self.rc == 0


def tlc(module, cfg=None, env=None, workers=1, timeout=800, extra=(), constants=None, heap=None, must=True):
    """Run TLC on spec/<module>.tla with spec/<cfg or module>.cfg (or the text of constants appended to it)."""
    cls = java_classes()
    md = tempfile.mkdtemp(prefix='tlc', dir=scratch_root())
    cfgp = os.path.join(SPEC, (cfg or module) + '.cfg')
    if constants:
        text = open(cfgp).read() + '\n' + constants
        cfgp = os.path.join(md, 'run.cfg')
        open(cfgp, 'w').write(text)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss32m'] + (['-Xmx' + heap] if heap else ['-Xmx6g']) + [
        '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vp.Overrides', '-Djava.io.tmpdir=' + md,
        '-cp', cls + ':' + TLA + ':' + CM, 'tlc2.TLC', '-metadir', os.path.join(md, 'states'), '-workers', str(workers), '-noGenerateSpecTE',
        '-config', cfgp] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out on ' + module)
    finally:
        pass
    res = TLCResult(r.returncode, r.stdout, time.time() - t)
    shutil.rmtree(md, ignore_errors=True)
    if must and not res.ok:
        raise MachineryError('TLC failed on %s (rc %d):\n%s' % (module, res.rc, res.out[-6000:]))
    return res


def parse_prints(out):
    """PrintT tuples, one per top-level <<...>> starting a line; TLC wraps long ones over several lines."""
    recs, cur, depth = [], None, 0
    for line in out.splitlines():
        if cur is None:
            if re.match(r'<<\s*"VP', line):
                cur = line
            else:
                continue
        else:
            cur += ' ' + line.strip()
        q = re.sub(r'"(?:\\.|[^"\\])*"', '""', cur)
        if q.count('<<') == q.count('>>') and q.count('{') == q.count('}'):
            recs.append(re.sub(r'(<<|\{)\s+', r'\1', re.sub(r'\s+(>>|\})', r'\1', cur)))
            cur = None
    return recs


# ---------------------------------------------------------------- a check
class Check(object):
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.cov = {}
        self.violations = []      # (clause, event, variant, where)
        self.known_hit = {}
        self.states = self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.clause_counts = {}
        self.assumptions = []
        self.samples = []
        self.keys = set()
        self.rule = ''
        kf = os.path.join(VERIF, 'known_findings.json')
        self.known = [k for k in (json.load(open(kf))['findings'] if os.path.exists(kf) else []) if k['property'] == pid]

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- design-level model
    def model(self, module, cfg=None, workers=8, must=True, **kw):
        r = tlc(module, cfg, workers=workers, must=must, **kw)
        self.states += r.distinct
        self.transitions += r.states
        self.cov.setdefault('models', []).append({'module': module, 'cfg': cfg or module, 'distinct_states': r.distinct,
                                                  'states_generated': r.states, 'wall_s': round(r.wall, 1)})
        log('[%s] TLC %s/%s: %d distinct states, %.1fs' % (self.pid, module, cfg or module, r.distinct, r.wall))
        return r

    # -- scenario generation by TLC: the module appends JSON lines to VP_OUT
    def generate(self, module, cfg=None, workers=1, env=None, **kw):
        out = os.path.join(scratch_root(), 'gen-%s-%d.ndjson' % (cfg or module, len(os.listdir(scratch_root()))))
        e = {'VP_OUT': out, 'VP_SEED': self.seed, 'VP_TIER': self.tier}
        e.update(env or {})
        r = self.model(module, cfg, workers=workers, env=e, **kw)
        recs = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
        if not recs:
            raise MachineryError('generator %s produced nothing' % module)
        log('[%s] %s generated %d scenarios' % (self.pid, module, len(recs)))
        self.cov['scenarios_generated'] = self.cov.get('scenarios_generated', 0) + len(recs)
        return recs, out

    def drive(self, script, variant, args=(), timeout=600, env=None):
        e = {'VERIF_SEED': self.seed, 'VERIF_TIER': self.tier}
        e.update(env or {})
        try:
            return run_driver(script, variant, args, timeout, e)[1]
        except DriverDied as d:
            self.violations.append(('interpreter-died', {'driver': d.args[0], 'how': d.args[2], 'output': d.args[3]}, d.args[1], d.args[0]))
            return None

    def drive_many(self, jobs, timeout=600):
        """jobs: list of (script, variant, args, env); run in parallel."""
        from concurrent.futures import ThreadPoolExecutor
        for v in sorted(set(j[1] for j in jobs)):
            variants((v,))
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda j: self.drive(j[0], j[1], j[2], timeout, j[3] if len(j) > 3 else None), jobs))

    def validate_many(self, jobs, shards=4, **kw):
        """jobs: (module, trace, variant); each trace is cut into shards validated by concurrent TLC processes."""
        from concurrent.futures import ThreadPoolExecutor
        work = []
        for m, t, v in jobs:
            if not os.path.exists(t):
                if self.violations:
                    continue
                raise MachineryError('no trace ' + t)
            lines = open(t).read().splitlines(True)
            n = max(1, min(shards, len(lines) // 200))
            for k in range(n):
                f = '%s.%d' % (t, k)
                open(f, 'w').write(''.join(lines[k::n]))
                work.append((m, f, v))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda w: self.validate(w[0], w[1], w[2], heap='3g', **kw), work))

    # -- trace validation: TLC evaluates every recorded event
    def validate(self, module, trace, variant, cfg=None, env=None, timeout=800, nontrivial=None, key=None, where=None, workers=1, heap=None):
        if not os.path.exists(trace):
            if self.violations:
                return
            raise MachineryError('no trace ' + trace)
        events = [json.loads(l) for l in open(trace)]
        if not events:
            raise MachineryError('empty trace ' + trace)
        e = {'VP_TRACE': trace, 'VP_VARIANT': variant, 'VP_TIER': self.tier}
        e.update(env or {})
        r = tlc(module, cfg or 'Trace', workers=workers, env=e, timeout=timeout, must=False, heap=heap)
        done = None
        fails = []
        reported = 0
        for rec in parse_prints(r.out):
            m = re.match(r'<<"VPFAIL",\s*(\d+),\s*\{(.*)\}>>$', rec)
            if m:
                reported += 1
                for c in re.findall(r'"((?:\\.|[^"\\])*)"', m.group(2)):
                    fails.append((int(m.group(1)), c))
                continue
            m = re.match(r'<<"VPDONE",\s*(\d+),\s*"(.*)"\s*>>$', rec)
            if m:
                done = int(m.group(1))
                cc = json.loads(m.group(2).replace('\\"', '"'))
                with _lock:
                    for k, v in cc.items():
                        self.clause_counts[k] = self.clause_counts.get(k, 0) + v
        # every verdict printed was read, and TLC itself ended well
        if r.out.count('"VPFAIL"') != reported or r.rc != 0:
            raise MachineryError('trace specification %s: %d verdicts of %d read, rc %d:\n%s' % (module, reported, r.out.count('"VPFAIL"'), r.rc, r.out[-5000:]))
        if done != len(events):
            raise MachineryError('trace specification %s did not consume the trace (%s of %d):\n%s' % (module, done, len(events), r.out[-5000:]))
        with _lock:
            self.states += r.distinct
            self.transitions += r.states
            self.traces += 1
            self.evaluations += len(events)
        for ev in events:
            k = key(ev) if key else json.dumps(ev, sort_keys=True)
            if k is not None:
                self.keys.add(hashlib.md5(str(k).encode()).digest())
        if len(self.samples) < 6:
            for ev in (events[0], events[len(events) // 2]):
                s = json.dumps(ev)
                self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000])
        log('[%s] trace %s (%s): %d events, %d rejected clauses, %.1fs' % (self.pid, module, variant, len(events), len(fails), r.wall))
        for idx, clause in fails:
            self.fail(clause, events[idx - 1], variant, module)
        return fails

    def fail(self, clause, event, variant, where):
        base = clause.split(' (')[0]
        for k in self.known:
            if k.get('clause') not in (None, base):
                continue
            if k.get('variant') not in (None, variant):
                continue
            if all(event.get(f) == v for f, v in k.get('match', {}).items()):
                self.known_hit.setdefault(k['id'], [k, 0])[1] += 1
                return
        self.violations.append((clause, event, variant, where))

    def require(self, cond, msg):
        if not cond:
            raise MachineryError(msg)

    # -- end
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        rep = None
        if self.violations:
            rd = os.path.join(EVID, 'replay')
            os.makedirs(rd, exist_ok=True)
            rep = os.path.join(rd, '%s-%s-%d.json' % (self.pid, self.tier, self.seed))
            byc = {}
            for c, ev, v, w in self.violations:
                byc.setdefault((c.split(' (')[0], v, w), []).append((c, ev))
            json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier,
                       'command': 'cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check %s' % (self.seed, self.tier, self.pid),
                       'violations': [{'clause': k[0], 'variant': k[1], 'module': k[2], 'count': len(x),
                                       'examples': [{'clause': c, 'event': e} for c, e in x[:3]]} for k, x in sorted(byc.items(), key=str)]},
                      open(rep, 'w'), indent=1)
        cov = dict(self.cov)
        cov.update(evaluations=self.evaluations, distinct_nontrivial=len(self.keys), rule=self.rule or 'one recorded call per event; distinct by full event content',
                   samples=self.samples or ['none'], states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, clause_evaluations=self.clause_counts)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        json.dump(ev, open(os.path.join(EVID, self.pid + '.json'), 'w'), indent=1)
        for k, n in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s (%d events)' % (self.pid, n[0]['what'], n[1]))
        if self.violations:
            seen = {}
            for c, evn, v, w in self.violations:
                seen[(c, v, w)] = seen.get((c, v, w), 0) + 1
            for (c, v, w), n in sorted(seen.items(), key=str)[:40]:
                print('  rejected: clause %s variant=%s module=%s events=%d' % (c, v, w, n))
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            sys.stdout.flush()
            return 1
        print('%s held: %d events validated, %d distinct, %d TLC states, %.0fs' % (self.pid, self.evaluations, len(self.keys), self.states, time.time() - self.t0))
        return 0


def main(pid, level, body):
    c = Check(pid, level)
    try:
        body(c)
        rc = c.finish()
    except MachineryError as e:
        log('CHECK ERROR', e)
        if c.violations:
            rc = c.finish()
        else:
            rc = 2
    sys.stdout.flush()
    sys.exit(rc)
