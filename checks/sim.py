"""Whole simulations: writing input decks and meshes, running them, reading what they wrote."""
import math, os, shutil
from common import *


def yaml(d, ind=0):
    """A nested dictionary as the YAML the program reads."""
    o = []
    for k, v in d.items():
        pad = ' ' * ind
        if isinstance(v, dict):
            o.append('%s%s:' % (pad, k))
            o.append(yaml(v, ind + 2))
        else:
            o.append('%s%s: %s' % (pad, k, scalar(v)))
    return '\n'.join(o) + ('' if ind else '\n')


def scalar(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, float):
        s = repr(v)
        if 'e' in s and '.' not in s:
            s = s.replace('e', '.0e')
        return s
    if isinstance(v, int):
        return str(v)
    return '"%s"' % v


def xml(d, name='ParameterList', ind=0):
    """The same dictionary as the XML the program reads."""
    pad = ' ' * ind
    o = ['%s<ParameterList%s>' % (pad, '' if ind == 0 else ' name="%s"' % name)]
    for k, v in d.items():
        if isinstance(v, dict):
            o.append(xml(v, k, ind + 2))
        else:
            t = 'bool' if isinstance(v, bool) else 'double' if isinstance(v, float) else 'int' if isinstance(v, int) else 'string'
            s = scalar(v).strip('"') if t != 'string' else v.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
            o.append('%s  <Parameter name="%s" type="%s" value="%s"/>' % (pad, k, t, s))
    o.append('%s</ParameterList>' % pad)
    return '\n'.join(o) + ('' if ind else '\n')


def copy(d):
    return {k: copy(v) if isinstance(v, dict) else v for k, v in d.items()}


def merge(d, e):
    """d with the entries of e added or replaced; None removes."""
    r = copy(d)
    for k, v in e.items():
        if v is None:
            r.pop(k, None)
        elif isinstance(v, dict) and isinstance(r.get(k), dict):
            r[k] = merge(r[k], v)
        else:
            r[k] = copy(v) if isinstance(v, dict) else v
    return r


def jit(i, k):
    t = math.sin(12.9898 * (i + 1) + 78.233 * (k + 1)) * 43758.5453
    return 2 * (t - math.floor(t)) - 1


def mesh(points):
    """points: (x, y, z, block, volume)."""
    return '# x y z block volume\n' + ''.join('%.17g %.17g %.17g %d %.17g\n' % tuple(p) for p in points)


def lattice(a, b, c, h=1.0, jitter=0.0, blocks=1, vols=False, origin=(0, 0, 0)):
    """An a x b x c lattice; with two blocks the far half along x belongs to block 2."""
    r = []
    for k in range(c):
        for j in range(b):
            for i in range(a):
                n = len(r)
                p = [origin[0] + i * h, origin[1] + j * h, origin[2] + k * h]
                p = [p[q] + jitter * jit(n, q) for q in range(3)]
                r.append((p[0], p[1], p[2], 1 + (i * blocks) // a, h ** 3 * (1 + (0.3 * jit(n, 3) if vols else 0))))
    return r


class Result:
    """What a run wrote: node variables N[name][step][gid], element variables E[name][step][gid],
    globals G[name][step], times, blocks[gid], coordinates x[gid]; point numbers start at 1."""
    def __init__(self, status, out):
        self.status, self.out = status, out
        self.N, self.E, self.G, self.T = {}, {}, {}, []
        self.x, self.block, self.bname, self.sets, self.dup = {}, {}, {}, {}, []
        self.files = 0

    @property
    def ok(self):
        return self.status == 0

    def v(self, name, s, g):
        """A vector value."""
        return tuple(self.N[name + c][s][g] for c in 'XYZ')

    def vec(self, name, s):
        return {g: self.v(name, s, g) for g in self.x}

    def __str__(self):
        told = [q for q in self.out.split('\n') if '****' in q or 'rror' in q or 'what()' in q]
        return 'status %s: %s' % (self.status, ' '.join(' '.join(told[:5] or [self.out[-500:]]).split())[:500])


def parse(txt, r):
    order, elems, tm = [], {}, {}
    for l in txt.splitlines():
        f = l.split()
        if not f:
            continue
        k = f[0]
        if k == 'FILE':
            order, elems = [], {}
            r.files += 1
        elif k == 'NODE':
            g = int(f[1])
            order.append(g)
            if g in r.x:
                r.dup.append(g)
            r.x[g] = (float(f[2]), float(f[3]), float(f[4]))
        elif k == 'BLOCK':
            r.bname[int(f[1])] = f[3] if len(f) > 3 else ''
        elif k == 'ELEM':
            elems.setdefault(int(f[1]), []).append(int(f[3]))
            r.block[int(f[3])] = int(f[1])
            if f[2] != f[3]:
                r.dup.append(('element', f[2], f[3]))
        elif k == 'NSET':
            r.sets.setdefault(f[2] if f[2] != ':' else f[1], set()).update(int(q) for q in f[f.index(':') + 1:])
        elif k == 'G':
            s = int(f[1]) - 1
            L = r.G.setdefault(f[2], [])
            while len(L) <= s:
                L.append(None)
            L[s] = float(f[3])
        elif k == 'N' or k == 'E':
            s = int(f[1]) - 1
            L = (r.N if k == 'N' else r.E).setdefault(f[2], [])
            while len(L) <= s:
                L.append({})
            if k == 'N':
                for g, v in zip(order, f[3:]):
                    L[s][g] = float(v)
            else:
                for g, v in zip(elems.get(int(f[3]), []), f[4:]):
                    L[s][g] = float(v)
        elif k == 'T':
            tm[int(f[1]) - 1] = float(f[2])
    r.T = [tm[i] for i in sorted(tm)]
    return r


def files_of(wd, name, np_):
    if np_ == 1:
        f = [os.path.join(wd, name + '.e')]
    else:
        w = len(str(np_))
        f = [os.path.join(wd, '%s.e.%d.%0*d' % (name, np_, w, i)) for i in range(np_)]
    f = [q for q in f if os.path.exists(q)]
    # a file with global data only has a name of its own
    h = os.path.join(wd, name + '.h')
    return f + ([h] if os.path.exists(h) else [])


def read(wd, name, np_, r):
    fs = files_of(wd, name, np_)
    if fs:
        st, txt = run([exe('exodump')] + fs, timeout=60)
        if st != 0 or not txt.rstrip().endswith('END'):
            raise CheckError('cannot read output: %s' % txt[-500:])
        parse(txt, r)
    return r


def simulate(wd, deck, points=None, np_=1, files=None, name='out', deckname='in.yaml', timeout=60, keep=False, text=None, expect_fail=False):
    """Run a deck in the fresh directory wd. deck: dictionary below 'Peridigm'."""
    os.makedirs(wd, exist_ok=True)
    if points is not None:
        with open(os.path.join(wd, 'm.txt'), 'w') as f:
            f.write(mesh(points))
    for k, v in (files or {}).items():
        with open(os.path.join(wd, k), 'w') as f:
            f.write(v)
    if text is None:
        text = xml(deck) if deckname.endswith('.xml') else yaml({'Peridigm': deck})
    with open(os.path.join(wd, deckname), 'w') as f:
        f.write(text)
    before = set(os.listdir(wd))
    st, out = run(mpi(np_, [exe('Peridigm'), deckname]), cwd=wd, timeout=timeout)
    if st is None or (np_ > 1 and st != 0 and not expect_fail):
        # once more, in case the launcher was at fault
        for f in set(os.listdir(wd)) - before:
            p = os.path.join(wd, f)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        st, out = run(mpi(np_, [exe('Peridigm'), deckname]), cwd=wd, timeout=timeout)
    r = Result(st, out)
    for n in (name if isinstance(name, (list, tuple)) else [name]):
        q = r if isinstance(name, str) else Result(st, out)
        read(wd, n, np_, q)
        if not isinstance(name, str):
            r.__dict__.setdefault('more', {})[n] = q
    if not keep:
        shutil.rmtree(wd, ignore_errors=True)
    return r


def base(**kw):
    """A minimal explicit deck; keyword arguments are merged in."""
    d = {
        'Verbose': False,
        'Discretization': {'Type': 'Text File', 'Input Mesh File': 'm.txt'},
        'Materials': {'M': {'Material Model': 'Elastic', 'Density': 2.0, 'Bulk Modulus': 10.0, 'Shear Modulus': 6.0}},
        'Blocks': {'B': {'Block Names': 'block_1', 'Material': 'M', 'Horizon': 1.6}},
        'Solver': {'Verbose': False, 'Initial Time': 0.0, 'Final Time': 0.4, 'Verlet': {'Fixed dt': 0.1}},
        'Output': {'Output File Type': 'ExodusII', 'Output Filename': 'out', 'Output Frequency': 1,
                   'Output Variables': {'Displacement': True, 'Velocity': True, 'Force': True}},
    }
    return merge(d, kw)


def outputs(*names):
    return {'Output': {'Output Variables': {n: True for n in names}}}


def differ(a, b, tol, scale=0.0):
    """First disagreement between two runs of the same problem, or None."""
    if (a.status, len(a.T)) != (b.status, len(b.T)):
        return 'status %s with %d output times against status %s with %d' % (a.status, len(a.T), b.status, len(b.T))
    for s, (p, q) in enumerate(zip(a.T, b.T)):
        if abs(p - q) > 1e-12 * (1 + abs(q)):
            return 'output %d at time %.15g against %.15g' % (s, p, q)
    if set(a.x) != set(b.x):
        return 'points %s against %s' % (sorted(a.x), sorted(b.x))
    if a.block != b.block:
        return 'points are in different blocks'
    for kind in ('N', 'E'):
        A, B = getattr(a, kind), getattr(b, kind)
        if set(A) != set(B):
            return 'variables %s against %s' % (sorted(A), sorted(B))
        for n in A:
            if len(A[n]) != len(B[n]):
                return '%s on %d steps against %d' % (n, len(A[n]), len(B[n]))
            for s in range(len(A[n])):
                P, Q = A[n][s], B[n][s]
                if set(P) != set(Q):
                    return '%s step %d: on points %s against %s' % (n, s, sorted(P), sorted(Q))
                m = max([abs(x) for x in Q.values()] + [scale, 1e-3])
                for g in P:
                    if not (abs(P[g] - Q[g]) <= tol * m):
                        return '%s step %d point %d: %.15g against %.15g' % (n, s, g, P[g], Q[g])
    if set(a.G) != set(b.G):
        return 'globals %s against %s' % (sorted(a.G), sorted(b.G))
    for n in a.G:
        for s, (p, q) in enumerate(zip(a.G[n], b.G[n])):
            if not (abs(p - q) <= tol * max(abs(q), scale, 1e-3)):
                return 'global %s step %d: %.15g against %.15g' % (n, s, p, q)
    return None


_CASES = []
_SC = None


def _one(i):
    key, fn = _CASES[i]
    wd = os.path.join(_SC, 'c%d' % i)
    os.makedirs(wd)
    try:
        r = fn(wd)
        bad, trans, outcome = r if isinstance(r, tuple) else (r, 1, '')
        return key, list(bad)[:5], trans, outcome, None
    except CheckError as e:
        return key, [], 0, '', str(e)
    except (KeyError, IndexError, ValueError, TypeError, ZeroDivisionError, AttributeError):
        import traceback
        return key, ['output lacks what was asked for: ' + ' | '.join(traceback.format_exc().strip().split('\n')[-3:])], 0, '', None
    finally:
        shutil.rmtree(wd, ignore_errors=True)


class Sweep:
    """Runs an enumerated family of cases on all cores; a case is (key, function) where the
    function gets a scratch directory and returns a list of complaints (empty = held), or
    (complaints, transitions, outcome)."""
    def __init__(self, check):
        self.c, self.cases, self.keys = check, [], set()

    def add(self, key, fn):
        if key in self.keys:
            raise CheckError('case %s twice' % key)
        self.keys.add(key)
        self.cases.append((key, fn))

    def go(self, workers=NCPU + NCPU // 2):
        import multiprocessing
        global _CASES, _SC
        c = self.c
        only = os.environ.get('VERIF_CASE')
        _CASES = [k for k in self.cases if not only or fnmatch.fnmatchcase(k[0], only)]
        with Scratch() as sc:
            _SC = sc.path
            with multiprocessing.get_context('fork').Pool(workers) as pool:
                res, nbad = [], 0
                for t in pool.imap_unordered(_one, range(len(_CASES)), chunksize=max(1, min(4, len(_CASES) // (4 * workers)))):
                    res.append(t)
                    nbad += 1 if t[1] else 0
                    if nbad > 200 or (nbad and time.time() - c.t0 > 420):
                        c.exhaustive = False
                        pool.terminate()
                        break
        for key, bad, trans, outcome, err in sorted(res, key=lambda t: t[0]):
            if err:
                raise CheckError(err)
            c.cov['states'] += 1
            c.cov['traces_validated_against_impl'] += 1
            c.cov['transitions'] += trans
            c.cov['checks'] += max(1, trans)
            c.outcomes.add(outcome or key)
            if len(c.samples) < 40 and (c.cov['states'] & (c.cov['states'] - 1)) == 0:
                c.samples.append(key)
            for b in bad:
                c.fail(key, b, dict(case=key, how="VERIF_CASE='%s' python3 checks/%s.py" % (key, c.prop)))
        self.cases = []
        return self
