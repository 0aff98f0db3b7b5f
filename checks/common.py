"""Shared machinery of the checks: building from /repo, running drivers and whole
simulations in parallel, known findings, replay files, evidence."""
import fcntl, fnmatch, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CM = os.path.join(BUILD, 'cm')
NCPU = min(8, os.cpu_count() or 1)
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
THOROUGH = TIER == 'thorough'

ENV = dict(os.environ)
ENV.update({
    'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
    'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'OMPI_CC': 'gcc', 'OMPI_CXX': 'g++',
    'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
    'OMPI_MCA_plm': 'isolated', 'OMPI_MCA_ess_singleton_isolated': '1', 'OMPI_MCA_pml': 'ob1', 'OMPI_MCA_btl': 'self,vader',
    'OMPI_MCA_btl_vader_single_copy_mechanism': 'none', 'OMPI_MCA_rmaps_base_oversubscribe': '1',
    'OMPI_MCA_hwloc_base_binding_policy': 'none', 'OMPI_MCA_mpi_yield_when_idle': '1',
    'OMPI_MCA_orte_base_help_aggregate': '0', 'OMPI_MCA_opal_signal': '',
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'})
ENV.setdefault('HOME', '/root')


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building
def build(*targets):
    """Mirror /repo/src by content and build the targets from the mirror."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        mirror = os.path.join(BUILD, 'mirror', 'src')
        os.makedirs(mirror, exist_ok=True)
        r = subprocess.run(['rsync', '-rlc', '--delete', '--exclude=unit_test', REPO + '/src/', mirror + '/'],
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError('mirror failed: ' + r.stderr)
        cm = ['cmake', '-S', os.path.join(VERIF, 'harness'), '-B', CM, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Release',
              '-DCMAKE_CXX_COMPILER=mpicxx', '-DCMAKE_C_COMPILER=mpicc', '-DPD_SRC=' + mirror]
        cache = os.path.join(CM, 'CMakeCache.txt')
        if os.path.exists(cache) and ('CMAKE_HOME_DIRECTORY:INTERNAL=' + os.path.join(VERIF, 'harness')) not in open(cache).read():
            shutil.rmtree(CM)
        r = subprocess.run(cm, env=ENV, capture_output=True, text=True)
        if r.returncode:
            raise CheckError('configure failed:\n' + r.stdout[-3000:] + r.stderr[-3000:])
        r = subprocess.run(['ninja', '-C', CM] + list(targets), env=ENV, capture_output=True, text=True)
        if r.returncode:
            raise CheckError('build failed:\n' + r.stdout[-6000:] + r.stderr[-2000:])
        log('built %s in %.1f s' % (' '.join(targets), time.time() - t0))


def exe(name):
    return os.path.join(CM, name)


# ---------------------------------------------------------------- scratch
class Scratch:
    """A scratch directory of this run, removed at the end."""
    def __init__(self):
        base = os.path.join(BUILD, 'scratch')
        os.makedirs(base, exist_ok=True)
        self.path = tempfile.mkdtemp(prefix='run', dir=base)

    def sub(self, name):
        p = os.path.join(self.path, name)
        os.makedirs(p, exist_ok=True)
        return p

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def kill_session(sid):
    """End every process of a session started by run()."""
    for _ in range(2):
        for f in glob.glob('/proc/[0-9]*/stat'):
            try:
                if int(open(f).read().rsplit(')', 1)[1].split()[3]) == sid:
                    os.kill(int(f.split('/')[2]), signal.SIGKILL)
            except (OSError, ValueError, IndexError):
                pass


def run(cmd, cwd=None, timeout=120, env=None):
    """Run a command in its own process group; returns (status, output). status None = timed out.
    Programs using MPI get a session directory of their own; a failure to set that up is retried."""
    par = cmd[0] == 'mpirun'
    for attempt in range(4):
        e = dict(ENV)
        if env:
            e.update(env)
        tmp = None
        if par or 'exodump' not in cmd[0]:
            tmp = tempfile.mkdtemp(prefix='v', dir='/tmp')
            e['TMPDIR'] = tmp
            e['OMPI_MCA_orte_tmpdir_base'] = tmp
        try:
            p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                 start_new_session=True, stdin=subprocess.DEVNULL)
            try:
                o, _ = p.communicate(timeout=timeout)
                st = p.returncode
            except subprocess.TimeoutExpired:
                kill_session(p.pid)
                o, _ = p.communicate()
                st = None
        finally:
            if tmp:
                shutil.rmtree(tmp, ignore_errors=True)
        o = o.decode('utf-8', 'replace')
        if st not in (0, None) and ('orte_init' in o or 'orte_session_dir' in o or 'opal_init' in o or 'ORTE_ERROR_LOG' in o):
            time.sleep(0.2 * (attempt + 1))
            continue
        break
    return st, o


def mpi(np_, cmd):
    if np_ == 1:
        return list(cmd)
    return ['mpirun', '-np', str(np_), '--oversubscribe'] + list(cmd)


def pmap(fn, items, workers=NCPU):
    items = list(items)
    res = [None] * len(items)
    with ThreadPoolExecutor(workers) as ex:
        fs = {ex.submit(fn, it): i for i, it in enumerate(items)}
        for f in as_completed(fs):
            res[fs[f]] = f.result()
    return res


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    """Lines 'finding: property=<id> case=<glob> | <text>' of KNOWN_FINDINGS.txt."""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) case=(\S+) \| (.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, checks=0, traces_validated_against_impl=0, skipped=0)
        self.counters = {}
        self.outcomes = set()
        self.samples = []
        self.fails = []          # (case, message, replay dict)
        self.assumptions = []
        self.exhaustive = True
        self.bounds = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def fail(self, case, msg, replay=None):
        self.fails.append((case, msg, replay or {}))

    def finish(self):
        known = known_findings(self.prop)
        unlisted, seen = [], {}
        for case, msg, rp in self.fails:
            for pat, text in known:
                if fnmatch.fnmatchcase(case, pat):
                    seen.setdefault((pat, text), [0, case])[0] += 1
                    break
            else:
                unlisted.append((case, msg, rp))
        for (pat, text), (n, case) in seen.items():
            log('KNOWN-FINDING: property=%s %s (%d cases, e.g. %s)' % (self.prop, text, n, case))
        cov = dict(self.cov)
        cov['distinct_outcomes'] = len(self.outcomes)
        cov['counters'] = self.counters
        cov['samples'] = self.samples[:40]
        cov['exhaustive'] = self.exhaustive
        cov['bounds'] = self.bounds
        cov['known_findings_hit'] = sum(v[0] for v in seen.values())
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(unlisted))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        log('%s: states=%d transitions=%d checks=%d outcomes=%d fails=%d wall=%.1fs' % (
            self.prop, self.cov['states'], self.cov['transitions'], self.cov['checks'], len(self.outcomes),
            len(self.fails), time.time() - self.t0))
        if unlisted:
            d = os.path.join(VERIF, 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + '.json')
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, tier=TIER, failures=[dict(case=c, message=m, replay=r) for c, m, r in unlisted[:50]]), f, indent=1)
            for c, m, r in unlisted[:15]:
                log('  %s: %s' % (c, m[:400]))
            log('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(path, VERIF)))
            return 1
        if self.cov['states'] == 0 or self.cov['checks'] == 0:
            raise CheckError('nothing was explored')
        return 0

    # ------------------------------------------------------------ drivers
    def driver(self, name, args=(), np_=1, shards=NCPU, timeout=420, label=''):
        """Explore with an in-process driver, split over shards; crashed or hung cases are replayed alone."""
        jobs = []
        with Scratch() as sc:
            def one(i):
                wd = sc.sub('s%d' % i)
                extra = ['--thorough'] if THOROUGH else []
                prog, resf = os.path.join(wd, 'progress'), os.path.join(wd, 'result')
                cmd = mpi(np_, [exe(name), '--shard', '%d/%d' % (i, shards), '--progress', prog, 'result=' + resf] + extra + list(args))
                st, out = run(cmd, cwd=wd, timeout=timeout)
                return i, wd, st, out, prog, resf
            for i, wd, st, out, prog, resf in pmap(one, range(shards), max(1, NCPU // np_)):
                txt = ''
                for f in sorted(glob.glob(resf + '*')):
                    txt += open(f, errors='replace').read()
                nres = self._collect(name, args, np_, txt, label)
                if nres < np_:
                    case = open(prog).read().strip() if os.path.exists(prog) else ''
                    if not case:
                        raise CheckError('driver %s gave no result (status %s): %s' % (name, st, out[-2000:]))
                    st2, out2, txt2 = self.replay_driver(name, args, np_, case, sc)
                    if txt2.count('RESULT\t') >= np_ and 'FAIL\t' not in txt2:
                        raise CheckError('driver %s stopped at %s (status %s) but the case alone passes: %s' % (name, case, st, out[-1500:]))
                    what = 'hangs' if st2 is None else 'crashes (status %s)' % st2
                    self.fail(label + case, 'evaluation %s: %s' % (what, out2[-600:]), dict(driver=name, args=list(args), np=np_, case=case))
        return self

    def replay_driver(self, name, args, np_, case, sc):
        wd = sc.sub('replay')
        resf = os.path.join(wd, 'result')
        for f in glob.glob(resf + '*'):
            os.remove(f)
        extra = ['--thorough'] if THOROUGH else []
        st, out = run(mpi(np_, [exe(name), '--case', case, 'result=' + resf] + extra + list(args)), cwd=wd, timeout=300)
        txt = ''.join(open(f, errors='replace').read() for f in sorted(glob.glob(resf + '*')))
        return st, out, txt

    def _collect(self, name, args, np_, txt, label):
        n = 0
        for l in txt.splitlines():
            if l.startswith('FAIL\t'):
                _, case, msg = (l.split('\t', 2) + [''])[:3]
                self.fail(label + case, msg, dict(driver=name, args=list(args), np=np_, case=case))
            elif l.startswith('RESULT\t'):
                n += 1
                d = json.loads(l[7:])
                if d['rank'] == 0:
                    self.cov['states'] += d['states']
                    self.cov['traces_validated_against_impl'] += d['states']
                    for s in d['samples'][:6]:
                        if len(self.samples) < 60:
                            self.samples.append(label + s)
                    for k, v in d['counters'].items():
                        self.count(k, v)
                self.cov['transitions'] += d['transitions']
                self.cov['checks'] += d['checks']
                self.cov['skipped'] += d['skipped']
                self.outcomes.update(d['outcomes'])
        return n


def main(fn):
    try:
        sys.exit(fn())
    except CheckError as e:
        log('CHECK-ERROR: %s' % e)
        sys.exit(2)
