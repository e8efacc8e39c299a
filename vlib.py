"""Machinery shared by all checks: extension build, TLC runs, drivers, verdicts."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')  # Another path is for development only.
CACHE = os.path.join(ROOT, '.cache')
SPEC = os.path.join(ROOT, 'spec')
PY = '/opt/venv/bin/python'
TLA_JAR = '/opt/veriftools/tla/tla2tools.jar'


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------- build
EXT_SUFFIXES = ('.c', '.h', '.pyx', '.pxd', '.in')


def _hash_files(files):
    h = hashlib.sha256()
    for fn in sorted(files):
        h.update(os.path.relpath(fn, REPO).encode() + b'\0')
        with open(fn, 'rb') as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()


def _ext_state():
    src, so = [], []
    for d, dirs, names in os.walk(os.path.join(REPO, 'sfepy')):
        for n in names:
            fn = os.path.join(d, n)
            if n.endswith('.so'):
                so.append(fn)
            elif n.endswith(EXT_SUFFIXES) or n == 'CMakeLists.txt':
                if n == 'version.h':
                    continue # Generated.
                src.append(fn)
    src += [os.path.join(REPO, n) for n in ('CMakeLists.txt',)]
    src = [fn for fn in src if not _is_generated_c(fn)]
    return _hash_files(src), _hash_files(so), len(so)


def _is_generated_c(fn):
    return fn.endswith('.c') and os.path.exists(fn[:-2] + '.pyx')


def ensure_build(log=None):
    """Bring the extensions in /repo (git-ignored *.so) in step with its
    working tree."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'build.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src, so, nso = _ext_state()
        known = set()
        for fn in (os.path.join(ROOT, 'build_baseline.txt'),
                   os.path.join(CACHE, 'build.stamp')):
            if os.path.exists(fn):
                known.update(open(fn).read().split('\n'))
        if nso and ('%s %s' % (src, so)) in known:
            return 'up to date'
        env = base_env()
        env.update(PIP_NO_INDEX='1', CMAKE_C_COMPILER_LAUNCHER='ccache',
                   CCACHE_DIR='/opt/vp/ccache', CCACHE_NOHASHDIR='1',
                   CCACHE_READONLY='1', CCACHE_NOSTATS='1')
        home = tempfile.mkdtemp(prefix='verif_build')
        env['HOME'] = home
        try:
            for d, dirs, names in os.walk(os.path.join(REPO, 'sfepy')):
                for n in names:
                    if n.endswith('.so'):
                        os.remove(os.path.join(d, n))
            r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace'],
                               cwd=REPO, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               timeout=600)
        finally:
            shutil.rmtree(home, ignore_errors=True)
        if r.returncode:
            raise MachineryError('extension build failed:\n' + r.stdout[-3000:])
        src2, so, nso = _ext_state()
        if not nso:
            raise MachineryError('no extensions were built')
        with open(os.path.join(CACHE, 'build.stamp'), 'w') as fd:
            fd.write('%s %s\n' % (src2, so))
        return 'built'


def base_env():
    env = {k: v for k, v in os.environ.items()
           if k in ('LANG', 'LC_ALL', 'TMPDIR', 'VERIF_SEED', 'VERIF_TIER',
                    'USER', 'LOGNAME')}
    env.update(PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin'
                    ':/usr/bin:/sbin:/bin',
               PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', NUMEXPR_NUM_THREADS='1')
    return env


# ---------------------------------------------------------------- JSON for TLC
def check_tlc_json(x, path='$'):
    """TLC integers are 32 bit; null, floats and empty objects are refused."""
    if isinstance(x, bool) or isinstance(x, str):
        return
    if isinstance(x, int):
        if not -2**31 < x < 2**31:
            raise MachineryError('integer too big for TLC at %s: %d' % (path, x))
        return
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            check_tlc_json(y, '%s[%d]' % (path, i))
        return
    if isinstance(x, dict):
        if not x:
            raise MachineryError('empty object at %s' % path)
        for k, y in x.items():
            check_tlc_json(y, path + '.' + k)
        return
    raise MachineryError('unsupported value at %s: %r' % (path, x))


# ---------------------------------------------------------------- TLC
class TLCResult(object):
    pass


_re_states = re.compile(r'(\d+) states generated, (\d+) distinct states found')
_re_sim = re.compile(r'The number of states generated: (\d+)')


def parse_tlc_value(text):
    """Parse the subset of TLA+ values TLC prints: tuples, sets, strings, ints,
    booleans, records."""
    pos = 0

    def skip():
        nonlocal pos
        while pos < len(text) and text[pos] in ' \n\t\r':
            pos += 1

    def value():
        nonlocal pos
        skip()
        if text.startswith('<<', pos):
            pos += 2
            return seq('>>')
        if text[pos] == '{':
            pos += 1
            return seq('}')
        if text[pos] == '[':
            pos += 1
            out = {}
            skip()
            while text[pos] != ']':
                m = re.compile(r'\s*(\w+)\s*\|->').match(text, pos)
                pos = m.end()
                out[m.group(1)] = value()
                skip()
                if text[pos] == ',':
                    pos += 1
                skip()
            pos += 1
            return out
        if text[pos] == '"':
            m = re.compile(r'"((?:[^"\\]|\\.)*)"').match(text, pos)
            pos = m.end()
            return m.group(1).replace('\\"', '"').replace('\\\\', '\\')
        m = re.compile(r'-?\d+|TRUE|FALSE|\w+').match(text, pos)
        pos = m.end()
        t = m.group(0)
        if t in ('TRUE', 'FALSE'):
            return t == 'TRUE'
        try:
            return int(t)
        except ValueError:
            return t

    def seq(end):
        nonlocal pos
        out = []
        skip()
        while not text.startswith(end, pos):
            out.append(value())
            skip()
            if text[pos] == ',':
                pos += 1
            skip()
        pos += len(end)
        return out

    return value()


def run_tlc(module, cfg, env=None, workers=8, timeout=600, simulate=None,
            depth=None, seed=None, coverage=False, heap='6g', extra=()):
    """Run TLC on spec/<module>.tla with spec/<cfg>."""
    meta = tempfile.mkdtemp(prefix='verif_tlc')
    e = base_env()
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-cp', TLA_CP, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta,
           '-workers', str(workers), '-config', cfg]
    if simulate is not None:
        cmd += ['-simulate', 'num=%d' % simulate]
    if depth is not None:
        cmd += ['-depth', str(depth)]
    if seed is not None:
        cmd += ['-seed', str(seed)]
    if coverage:
        cmd += ['-coverage', '1']
    cmd += list(extra) + [module + '.tla']
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as exc:
        raise MachineryError('TLC timed out on %s after %d s' % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult()
    r.out, r.rc, r.wall = out, rc, time.time() - t0
    r.states = r.transitions = 0
    m = _re_states.findall(out)
    if m:
        r.transitions, r.states = int(m[-1][0]), int(m[-1][1])
    m = _re_sim.findall(out)
    if m:
        r.transitions = r.states = int(m[-1])
    r.prints = _collect_prints(out)
    r.error = None
    if rc != 0 or 'Error:' in out:
        i = out.find('Error:')
        r.error = out[i:i + 4000] if i >= 0 else out[-3000:]
    return r


TLA_CP = TLA_JAR + ':' + ':'.join(
    os.path.join('/opt/veriftools/tla', n)
    for n in (os.listdir('/opt/veriftools/tla')
              if os.path.isdir('/opt/veriftools/tla') else [])
    if n.endswith('.jar') and n != 'tla2tools.jar')


def _collect_prints(out):
    """Values printed with PrintT(<<"@tag", ...>>), possibly over many lines."""
    prints = []
    for m in re.finditer(r'^<<\s*"@', out, re.M):
        try:
            prints.append(parse_tlc_value(out[m.start():]))
        except Exception:
            raise MachineryError('cannot parse TLC print: '
                                 + out[m.start():m.start() + 300])
    return prints


# ---------------------------------------------------------------- check context
class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.info = [], [], {}
        self.assumptions = []
        self.replay_dir = os.path.join(ROOT, 'evidence', 'replay', pid)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        self.work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        self.known = load_known(pid)
        self.known_hit = {}
        self.nrep = 0

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *args):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *args,
              flush=True)

    # -- design model
    def model(self, module, cfg=None, expect_actions=(), **kw):
        """Exhaustive (or simulated) model checking of the design."""
        cfg = cfg or module + '.cfg'
        if os.environ.get('VERIF_NOMODEL'): return  # Development only.
        r = run_tlc(module, cfg, **kw)
        self.states += r.states
        self.transitions += r.transitions
        self.log('TLC %s/%s: %d states, %d transitions, %.1f s'
                 % (module, cfg, r.states, r.transitions, r.wall))
        if r.error:
            raise MachineryError('TLC rejects the design model %s/%s:\n%s'
                                 % (module, cfg, r.error))
        self.info.setdefault('models', []).append(
            dict(module=module, cfg=cfg, states=r.states,
                 transitions=r.transitions, wall_s=round(r.wall, 1)))
        return r

    def behaviours(self, module, cfg, num, depth, tag='@beh', seed=None, **kw):
        """Random behaviours of the specification, printed as JSON by it."""
        r = run_tlc(module, cfg, simulate=num, depth=depth, workers=1,
                    seed=self.seed if seed is None else seed, **kw)
        if r.error:
            raise MachineryError('TLC simulation failed %s/%s:\n%s'
                                 % (module, cfg, r.error))
        self.transitions += r.transitions
        out, seen = [], set()
        for p in r.prints:
            if p[0] == tag:
                if p[1] not in seen:
                    seen.add(p[1])
                    out.append(json.loads(p[1]))
        self.log('TLC simulate %s: %d behaviours, %d steps, %.1f s'
                 % (module, len(out), r.transitions, r.wall))
        self.info['behaviours_generated'] = (
            self.info.get('behaviours_generated', 0) + len(out))
        if not out:
            raise MachineryError('no behaviours generated by ' + module)
        return out

    # -- drivers
    def drive(self, driver, scenarios, nproc=6, timeout=600, chunk=None):
        """Run harness/<driver>.py on the scenarios (list of JSON values) in
        nproc processes; return the list of traces, in scenario order.

        Each trace is a JSON object. A crash of the implementation is a
        violation."""
        n = len(scenarios)
        if not n:
            raise MachineryError('no scenarios for ' + driver)
        nproc = max(1, min(nproc, n))
        # Round robin keeps the chunks balanced.
        parts = [list(range(i, n, nproc)) for i in range(nproc)]
        traces = [None] * n
        ncrash = [0]

        def work(ip):
            idx = parts[ip]
            todo = list(idx)
            while todo:
                if ncrash[0] > 15: # Enough of them reported.
                    for i in todo:
                        traces[i] = dict(crash=None)
                    break
                fin = os.path.join(self.work, '%s_%d_in.json' % (driver, ip))
                fout = os.path.join(self.work, '%s_%d_out.json' % (driver, ip))
                with open(fin, 'w') as fd:
                    for i in todo:
                        fd.write(json.dumps(scenarios[i]) + '\n')
                open(fout, 'w').close()
                rc, err = run_driver(driver, fin, fout, self.work, timeout)
                lines = [ln for ln in open(fout).read().split('\n') if ln]
                if rc == 0 and len(lines) != len(todo):
                    raise MachineryError('driver %s: %d traces for %d scenarios'
                                         % (driver, len(lines), len(todo)))
                for i, ln in zip(todo, lines):
                    traces[i] = json.loads(ln)
                todo = todo[len(lines):]
                if rc == 0:
                    break
                if rc == 3 or (rc == 1 and 'Timeout (' in err): # Implementation raised or hung.
                    traces[todo[0]] = dict(crash=err[-3000:])
                elif rc < 0 and rc != -signal.SIGKILL:
                    traces[todo[0]] = dict(crash='signal %d\n%s'
                                           % (-rc, err[-2000:]))
                else:
                    raise MachineryError('driver %s failed (rc %s) on scenario '
                                         '%s:\n%s' % (driver, rc,
                                         json.dumps(scenarios[todo[0]])[:500] if todo else '-',
                                                      err[-4000:]))
                todo = todo[1:]
                ncrash[0] += 1

        with ThreadPoolExecutor(nproc) as ex:
            list(ex.map(work, range(nproc)))
        out = []
        for i, tr in enumerate(traces):
            if 'crash' in tr and tr['crash'] is not None:
                self.violation('implementation crashed', scenarios[i],
                               detail=tr['crash'], driver=driver)
            out.append(tr)
        self.log('driver %s: %d scenarios' % (driver, n))
        return out

    # -- trace validation
    def validate(self, module, traces, scenarios=None, cfg=None, driver=None,
                 workers=8, timeout=600, events_key='ev', heap='8g', max_report=5,
                 batch=None, env=None):
        """Validate recorded traces with spec/<module>.tla.

        The module reads $TRACE (one JSON object per line, key `ev` is the
        list of events) and prints <<"@fail", t, i, {clauses}>> for each
        failing event, visiting exactly sum(len(ev) + 1) states."""
        idx = [i for i, tr in enumerate(traces) if 'crash' not in tr]
        good = [traces[i] for i in idx]
        if not good:
            return
        for tr in good:
            check_tlc_json(tr)
        fails = {}
        batch = batch or len(good)
        cfg = cfg or 'Trace.cfg'
        for ib in range(0, len(good), batch):
            part = good[ib:ib + batch]
            fn = os.path.join(self.work, '%s_%d.ndjson' % (module, ib))
            with open(fn, 'w') as fd:
                for tr in part:
                    fd.write(json.dumps(tr) + '\n')
            e = {'TRACE': fn}
            e.update(env or {})
            r = run_tlc(module, cfg, env=e, workers=workers,
                        timeout=timeout, heap=heap)
            expected = sum(len(tr[events_key]) + 1 for tr in part)
            self.states += r.states
            self.transitions += r.transitions
            nev = sum(len(tr[events_key]) for tr in part)
            self.log('TLC %s: %d traces, %d events, %d states, %.1f s'
                     % (module, len(part), nev, r.states, r.wall))
            if r.error:
                if re.search(r'(Parsing|Semantic|parse) |OutOfMemory|'
                             r'StackOverflow|Could not', r.error):
                    raise MachineryError('TLC failed on %s:\n%s'
                                         % (module, r.error))
                t = _locate(r.error)
                if t is None:
                    raise MachineryError('TLC failed on %s:\n%s'
                                         % (module, r.error))
                fails.setdefault(ib + t - 1, []).append(
                    (0, ['specification cannot be evaluated: '
                         + ' '.join(r.error.split())[:600]]))
            elif r.states != expected:
                raise MachineryError('%s: %d states, expected %d\n%s'
                                     % (module, r.states, expected, r.out[-1500:]))
            for p in r.prints:
                if p[0] == '@fail':
                    fails.setdefault(ib + p[1] - 1, []).append((p[2], p[3]))
            self.traces += len(part)
            self.events += nev
        if len(self.samples) < 3:
            for tr in good[:2]:
                s = json.dumps(tr)
                self.samples.append(s if len(s) < 1500 else s[:1500] + '...')
        for k in sorted(fails):
            i = idx[k]
            ev, clauses = sorted(fails[k])[0]
            allc = sorted(set(str(c) for _, cs in fails[k] for c in cs))
            event = traces[i][events_key][ev - 1] if ev > 0 else None
            self.violation(', '.join(allc),
                           scenarios[i] if scenarios is not None else None,
                           detail=json.dumps(dict(
                               module=module, event_index=ev,
                               event=event, clauses=sorted(map(str, clauses)),
                               trace=traces[i]))[:200000],
                           driver=driver, module=module)

    def violation(self, what, scenario=None, detail='', driver=None,
                  module=None, key=None):
        """key: a stable text identifying the failing input for the known
        findings; default: what + canonical scenario."""
        text = key or (what + ' ' + json.dumps(scenario, sort_keys=True))
        for kf in self.known:
            if kf['match'](what, scenario, text):
                self.known_hit[kf['id']] = self.known_hit.get(kf['id'], 0) + 1
                return
        self.nrep += 1
        os.makedirs(self.replay_dir, exist_ok=True)
        fn = os.path.join(self.replay_dir, '%03d.json' % self.nrep)
        if self.nrep <= 20:
            with open(fn, 'w') as fd:
                json.dump(dict(property=self.pid, what=what, driver=driver,
                               module=module, scenario=scenario,
                               detail=detail, seed=self.seed), fd, indent=1)
        self.violations.append((what, fn))

    # -- end
    def finish(self):
        for kf in self.known:
            if kf['id'] in self.known_hit:
                print('KNOWN-FINDING: property=%s %s (%d cases)'
                      % (self.pid, kf['what'], self.known_hit[kf['id']]))
        for what, fn in self.violations[:20]:
            print('VIOLATION property=%s replay=%s' % (self.pid, fn))
            print('  ', what[:400])
        if len(self.violations) > 20:
            print('  ... %d violations in total' % len(self.violations))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   trace_events=self.events, samples=self.samples or ['none'])
        cov.update(self.info)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level='model_checking', coverage=cov,
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as fd:
            json.dump(ev, fd, indent=1)
        self.cleanup()
        self.log('states %d, transitions %d, traces %d, events %d, violations %d'
                 % (self.states, self.transitions, self.traces, self.events,
                    len(self.violations)))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def _locate(err):
    m = re.findall(r'/\\ t = (\d+)', err)
    return int(m[-1]) if m else None


def run_driver(driver, fin, fout, work, timeout):
    env = base_env()
    home = tempfile.mkdtemp(prefix='home', dir=work)
    cwd = tempfile.mkdtemp(prefix='cwd', dir=work)
    env.update(HOME=home, PYTHONPATH=REPO + ':' + os.path.join(ROOT, 'harness'),
               TMPDIR=cwd, VERIF_REPO=REPO)
    p = subprocess.Popen([PY, '-W', 'ignore', '-X', 'faulthandler',
                          os.path.join(ROOT, 'harness', 'drv.py'), driver,
                          fin, fout], cwd=cwd, env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors='replace', start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return 99, 'driver timed out\n' + out[-2000:]
    return p.returncode, out


# ---------------------------------------------------------------- findings
def load_known(pid):
    fn = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    out = []
    for kf in json.load(open(fn))['findings']:
        if kf['property'] != pid:
            continue

        def match(what, scenario, text, kf=kf):
            return (re.fullmatch(kf['clauses'], what) is not None
                    and re.search(kf['scenario'],
                                  json.dumps(scenario, sort_keys=True))
                    is not None)
        out.append(dict(id=kf['id'], what=kf['what'], match=match))
    return out
