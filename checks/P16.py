import itertools
from sim import *
from models import MATERIALS, DAMAGE
import P03

TOL = 1e-10


def window(d, a, b):
    """The deck d with its solver running from a to b."""
    s = {k: v for k, v in d['Solver'].items()}
    s.update({'Initial Time': a, 'Final Time': b})
    return dict(d, Solver=s)


def last(r):
    """Everything written after the first output, without the first output (which shows the state found on entry)."""
    q = Result(r.status, r.out)
    q.T = r.T[1:]
    q.x, q.block = r.x, r.block
    for kind in ('N', 'E', 'G'):
        setattr(q, kind, {n: L[1:] for n, L in getattr(r, kind).items()})
    return q


def cut(r, t):
    """What the uninterrupted run wrote after time t."""
    k = len([x for x in r.T if x <= t + 1e-9])
    q = Result(r.status, r.out)
    q.T = r.T[k:]
    q.x, q.block = r.x, r.block
    for kind in ('N', 'E', 'G'):
        setattr(q, kind, {n: L[k:] for n, L in getattr(r, kind).items()})
    return q


def joined(make, np_, stops, steps=None, ignore=(), tol=TOL, end=None):
    """stops: time marks 0 = first < ... < last. Runs over every piece in one directory against one run over all."""
    def fn(wd):
        d, pts = make()
        adapt = steps or (lambda d, a, b: d)
        t0, t1 = stops[0], stops[-1]
        R = simulate(os.path.join(wd, 'whole'), adapt(window(d, t0, t1), t0, t1), pts, np_)
        if not R.ok:
            return ['the uninterrupted run failed: %s' % R], 1, ''
        bad, n = [], len(R.T)
        sub = os.path.join(wd, 'parts')
        for i, (a, b) in enumerate(zip(stops, stops[1:])):
            e = adapt(window(d, a, b), a, b)
            e['Restart'] = True
            e['Output'] = dict(e['Output'], **{'Output Filename': 'o%d' % i})
            r = simulate(sub, e, pts, np_, name='o%d' % i, keep=True)
            if not r.ok:
                bad.append('the run from %.9g to %.9g failed: %s' % (a, b, r))
                break
            if not os.path.isdir(os.path.join(sub, 'restart-%06d' % (i + 1))):
                bad.append('no restart data are written by part %d' % (i + 1))
                break
            P, Q = last(r), cut(R, a)
            Q.T = Q.T[:len(P.T)]
            for kind in ('N', 'E', 'G'):
                setattr(Q, kind, {v: L[:len(P.T)] for v, L in getattr(Q, kind).items() if v not in ignore})
                setattr(P, kind, {v: L for v, L in getattr(P, kind).items() if v not in ignore})
            if not P.T or abs(P.T[-1] - b) > 1e-9:
                bad.append('the run from %.9g to %.9g ends with outputs at %s' % (a, b, P.T[-2:]))
                break
            q = differ(P, Q, tol)
            if q:
                bad.append('part %d, from time %.9g: %s' % (i + 1, a, q))
                break
            n += len(P.T)
        moved = max([abs(x) for c in 'XYZ' for x in R.N.get('Displacement' + c, [{0: 0}])[-1].values()] + [0])
        return bad, n, '%.6g' % moved
    return fn


def marks(n, dt, inner):
    return [round(k * dt, 12) for k in (0,) + tuple(inner) + (n,)]


def loadsteps(name, dt):
    def f(d, a, b):
        n = int(round((b - a) / dt))
        s = {k: (dict(v, **{'Number of Load Steps': n}) if k == name else v) for k, v in d['Solver'].items()}
        return dict(d, Solver=s)
    return f


def refused(np_, dt, k, initial):
    """Going on from another time than that of the restart data."""
    def fn(wd):
        d, pts = P03.setup('cube', 'mixed', 'elastic')
        d['Restart'] = True
        r = simulate(wd, window(d, 0.0, k * dt), pts, np_, keep=True)
        if not r.ok:
            return ['the first run failed: %s' % r], 1, ''
        r = simulate(wd, window(d, initial, initial + 2 * dt), pts, np_, keep=True, expect_fail=True, timeout=20)
        if r.status is None:
            return ['the run that asks for time %.9g of restart data of time %.9g hangs' % (initial, k * dt)], 2, 'hangs'
        if r.ok:
            return ['restart data of time %.9g are taken as those of time %.9g' % (k * dt, initial)], 2, 'taken'
        return [], 2, 'refused'
    return fn


FAULTS = ('missing', 'empty', 'half', 'line')


def damaged(np_, fault, part, parts):
    """Every file of the restart data in turn is missing or cut short: the run that resumes must not use them."""
    def fn(wd):
        d, pts = P03.setup('cube', 'mixed', 'plastic', 'stretch', amp=1.0)
        d['Restart'] = True
        r = simulate(wd, window(d, 0.0, 3 * P03.DT), pts, np_, keep=True)
        if not r.ok:
            return ['the first run failed: %s' % r], 1, ''
        src = os.path.join(wd, 'restart-000001')
        d = window(d, 3 * P03.DT, 5 * P03.DT)
        d['Output'] = dict(d['Output'], **{'Output Filename': 'o'})
        bad = []
        fs = sorted(os.listdir(src))[part::parts]
        for i, f in enumerate(fs):
            sub = os.path.join(wd, 'f%d' % i)
            shutil.copytree(src, os.path.join(sub, 'restart-000001'))
            q = os.path.join(sub, 'restart-000001', f)
            txt = open(q).read()
            if fault == 'missing':
                os.remove(q)
            else:
                open(q, 'w').write({'empty': '', 'half': txt[:len(txt) // 2], 'line': ''.join(txt.splitlines(True)[:-1])}[fault])
            r = simulate(sub, d, pts, np_, name='o', expect_fail=True, timeout=20)
            if r.status is None:
                bad.append('%s %s on %d processes: the run hangs' % (f, fault, np_))
            elif r.ok and len(r.T) > 1:
                bad.append('%s %s on %d processes: the run goes on' % (f, fault, np_))
        return bad, len(fs), fault
    return fn


def check():
    c = Check('P16')
    build('Peridigm', 'exodump')
    sw = Sweep(c)
    procs = (1, 2, 3, 4)
    N = 5
    DT = P03.DT
    for mat, (_, _, dam, full) in MATERIALS.items():
        if mat == 'fluid':
            continue  # refused by the program
        for k in range(1, N):
            for np_ in procs:
                for shape, layout in (('full' if full else 'brick', 'one'), ('full' if full else 'slab', 'mixed'), ('full' if full else 'cube', 'sparse')):
                    if THOROUGH or np_ == 1 or np_ == 3 and layout == 'mixed' or np_ == (2, 4)[k % 2] and layout != 'one':
                        sw.add('material/%s/%s/stop%d/np%d' % (mat, layout, k, np_), joined(lambda a=(shape, layout, mat): P03.setup(*a), np_, marks(N, DT, (k,))))
        if dam:
            for dm in DAMAGE:
                for k in range(1, N):
                    for np_ in procs:
                        if THOROUGH or np_ in (1, 3):
                            sw.add('damage/%s/%s/stop%d/np%d' % (mat, dm, k, np_), joined(lambda a=('brick', 'mixed', mat, dm): P03.setup(*a, amp=1.0), np_, marks(N, DT, (k,))))
    for mat, dm in (('elastic', 'stretch'), ('plastic', 'stretch'), ('viscoelastic', None), ('corr-hardening', None)):
        for r in range(2, N):
            for inner in itertools.combinations(range(1, N), r):
                for np_ in (1, 2):
                    sw.add('chain/%s/%s/np%d' % (mat, '-'.join(map(str, inner)), np_), joined(lambda a=('full' if mat.startswith('corr') else 'brick', 'sides', mat, dm): P03.setup(*a, amp=1.0), np_, marks(N, DT, inner)))
    for shape in ('brick', 'slab', 'line5'):
        for layout in ('one', 'mixed', 'sides'):
            for fr in (0.0, 0.3):
                for freq in (1, 3):
                    for k in (range(1, 8) if THOROUGH else (2, 5)):
                        for np_ in (1, 3):
                            sw.add('contact/%s/%s/friction%g/every%d/stop%d/np%d' % (shape, layout, fr, freq, k, np_), joined(lambda a=(shape, layout, fr, freq): P03.contact(*a), np_, marks(8, DT, (k,))))
    V = ('VelocityX', 'VelocityY', 'VelocityZ')
    for shape in ('cube', 'brick', 'full'):
        for layout in ('one', 'mixed', 'sides', 'single'):
            for s, dt, f, tol in (('Verlet', 0.1, None, TOL), ('Implicit', 0.2, None, 1e-8), ('QuasiStatic', 0.2, loadsteps('QuasiStatic', 0.2), 1e-6), ('NOX', 0.2, loadsteps('NOXQuasiStatic', 0.2), 1e-6)):
                n = int(round(1 / dt))
                for k in range(1, n):
                    for np_ in procs:
                        if THOROUGH or np_ == (1, 3)[k % 2] and (s != 'Verlet' or k in (1, 4, 9)):
                            sw.add('solver/%s/%s/%s/stop%d/np%d' % (s, shape, layout, k, np_), joined(lambda a=(shape, layout, s): P03.forced(*a), np_, marks(n, dt, (k,)), f, ignore=() if s == 'Verlet' else V, tol=tol))
    for mat in ('plastic', 'hardening', 'viscoelastic'):
        for shape in ('cube', 'brick', 'full'):
            for k in range(1, 5):
                sw.add('history/%s/%s/stop%d' % (mat, shape, k), joined(lambda a=(shape, 'mixed', 'QuasiStatic', mat): P03.forced(*a), 2, marks(5, 0.2, (k,)), loadsteps('QuasiStatic', 0.2), ignore=V, tol=1e-6))
    for dt in (0.04, 0.031234567, 1 / 30.0, 1e-3, 0.1):
        for k in range(1, N):
            def timed(dt=dt):
                d, pts = P03.setup('cube', 'one', 'elastic', amp=0.04 / dt * 0.5)
                d['Solver']['Verlet'] = {'Fixed dt': dt}
                return d, pts
            for off in (0.0, 2.0, 0.123456789):
                sw.add('times/dt%.9g/start%.9g/stop%d' % (dt, off, k), joined(timed, 1, [off + q * dt for q in (0, k, N)]))
    for np_ in (1, 2):
        for k in (1, 2, 3):
            for j in range(0, 6):
                if j != k:
                    sw.add('elsewhen/written%d/asked%d/np%d' % (k, j, np_), refused(np_, DT, k, j * DT))
        for f in FAULTS:
            for part in range(8):
                sw.add('damaged/%s/part%d/np%d' % (f, part, np_), damaged(np_, f, part, 8))
    sw.go()
    c.bounds = {'materials': len(MATERIALS) - 1, 'damage models': len(DAMAGE), 'stops': 'every step of runs of %d steps, every set of stops in the chains' % N, 'processes': '1 to 4', 'solvers': 4}
    c.assumptions = ['the run is resumed on the same number of processes']
    return c.finish()


if __name__ == '__main__':
    main(check)
