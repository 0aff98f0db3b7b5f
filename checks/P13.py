from sim import *
import math
import ref

MAT = {1: (10.0, 6.0, 2.0, 2.3), 2: (9.0, 7.0, 3.0, 2.1)}
ALPHA = {1: 0.00006, 2: 0.0001}
T0, T1 = 0.5, 1.7


# bodies

def bodies(name):
    L = {'small': (2, 2, 2), 'bar': (4, 2, 2), 'plate': (3, 3, 2), 'two': (3, 2, 2), 'halves': (4, 2, 2)}[name]
    r = []
    P = lattice(*L, jitter=0.1, vols=True)
    for i, p in enumerate(P):
        b = {'two': 1 + i % 2, 'halves': 1 + (p[0] > 1.5)}.get(name, 1)
        r.append((p[0], p[1], p[2], b, p[4]))
    return r


def sides(pts):
    lo, hi = min(p[0] for p in pts), max(p[0] for p in pts)
    return [i for i, p in enumerate(pts) if p[0] < lo + 0.4], [i for i, p in enumerate(pts) if p[0] > hi - 0.4]


class Load:
    """fixed[(i, k)] = function of time (expression in t); force[(i, k)] = expression; start[(i, k)] = value; temp = expression or None."""
    def __init__(self, pts, name):
        n = len(pts)
        L, R = sides(pts)
        self.fixed, self.force, self.start, self.temp = {}, {}, {}, None
        hold = {(i, k): '0' for i in L for k in range(3)}
        if name in ('pull', 'pull+start', 'pull+temp'):
            self.fixed = {**hold, **{(i, 0): '0.11*t' for i in R}}
        if name == 'push':
            self.fixed = {**hold, **{(i, 0): '-0.012*t*t' for i in R}}
        if name == 'shear':
            self.fixed = {**hold, **{(i, 1): '0.12*t' for i in R}, **{(i, 0): '0' for i in R}}
        if name == 'swing':
            self.fixed = {**hold, **{(i, 2): '0.07*sin(4*t)' for i in R}}
        if name in ('body', 'body+start'):
            self.fixed = hold
            for i in range(n):
                for k in range(3):
                    self.force[(i, k)] = '%.15g*t' % (0.12 * jit(i, 20 + k))
        if name == 'step':
            # a load that sets in during the simulation and is removed again
            self.fixed = hold
            for i in R:
                self.force[(i, 0)] = '0.08*t*(1.9-t)'
                self.force[(i, 2)] = '-0.05*t*t'
        if name == 'rollers':
            a, b, c = self.corner(pts)
            self.fixed = {(a, 0): '0', (a, 1): '0', (a, 2): '0', (b, 1): '0', (b, 2): '0', (c, 2): '0'}
            f = [[0.05 * jit(i, 30 + k) for k in range(3)] for i in range(n)]
            for i in range(n):
                for k in range(3):
                    self.force[(i, k)] = '%.15g*t' % f[i][k]
        if name == 'all':
            self.fixed = {(i, k): '%.15g*t' % (0.05 * jit(i, 40 + k)) for i in range(n) for k in range(3)}
        if name == 'temp':
            self.fixed = hold
            self.temp = (4.0, 2.0, -1.0, 1.0)
        if name == 'pull+temp':
            self.temp = (4.0, -1.0, 2.0, 1.0)
        if name.endswith('+start'):
            for i in range(n):
                for k in range(3):
                    if i not in L:
                        self.start[(i, k)] = 0.02 * jit(i, 50 + k)

    @staticmethod
    def corner(pts):
        """Three points that fix the body against rigid motion."""
        a = 0
        b = max(range(len(pts)), key=lambda i: pts[i][0] - pts[a][0] - abs(pts[i][1] - pts[a][1]) - abs(pts[i][2] - pts[a][2]))
        c = max(range(len(pts)), key=lambda i: pts[i][1] - pts[a][1] - abs(pts[i][0] - pts[a][0]) - abs(pts[i][2] - pts[a][2]))
        return a, b, c

    def bc(self, n):
        d = {}
        for i in range(n):
            d['Node Set %d' % (i + 1)] = '%d' % (i + 1)
        for (kind, what) in (('Prescribed Displacement', self.fixed), ('Body Force', self.force), ('Initial Displacement', self.start)):
            for (i, k), e in what.items():
                d['%s %d %d' % (kind[:2], i, k)] = {'Type': kind, 'Node Set': 'Node Set %d' % (i + 1), 'Coordinate': 'xyz'[k], 'Value': e if isinstance(e, str) else '%.17g' % e}
        if self.temp:
            d['Node Set all'] = ' '.join(str(i + 1) for i in range(n))
            d['Temp'] = {'Type': 'Prescribed Temperature', 'Node Set': 'Node Set all', 'Value': '%.15g*t*(%.15g + %.15g*x + %.15g*y)' % (self.temp[0], 3.0, self.temp[1], self.temp[2])}
        return d

    def temperature(self, pts, t):
        if not self.temp:
            return None
        return [self.temp[0] * t * (3.0 + self.temp[1] * p[0] + self.temp[2] * p[1]) for p in pts]


def val(e, t):
    return float(e) if not isinstance(e, str) else eval(e, {'t': t, 'sin': math.sin})


def mats(pts):
    return {b: MAT[b] for b in {p[3] for p in pts}}


def deck(pts, load, solver):
    d = base()
    d['Materials'] = {}
    d['Blocks'] = {}
    for b in sorted({p[3] for p in pts}):
        K, G, rho, h = MAT[b]
        d['Materials']['M%d' % b] = {'Material Model': 'Elastic', 'Density': rho, 'Bulk Modulus': K, 'Shear Modulus': G}
        if load.temp:
            d['Materials']['M%d' % b]['Thermal Expansion Coefficient'] = ALPHA[b]
        d['Blocks']['B%d' % b] = {'Block Names': 'block_%d' % b, 'Material': 'M%d' % b, 'Horizon': h}
    d['Boundary Conditions'] = load.bc(len(pts))
    del d['Solver']
    if isinstance(solver, dict):
        d['Solver'] = solver
    else:
        for i, s in enumerate(solver):
            d['Solver%d' % (i + 1)] = s
    d['Output']['Output Variables'] = {v: True for v in ('Displacement', 'Velocity', 'Coordinates', 'Force_Density', 'External_Force_Density')}
    return d


# what is asked of every completed step

TOL = 1e-7


def vec(r, nm, s, n):
    X = [r.N[nm + c][s] for c in 'XYZ']
    return [[X[k][i + 1] for k in range(3)] for i in range(n)]


def close(a, b, tol, what, t):
    m = max([abs(x) for q in b for x in q] + [1e-2])
    for i, (p, q) in enumerate(zip(a, b)):
        for k in range(3):
            if not abs(p[k] - q[k]) <= tol * m:
                return ['%s of point %d, direction %s, at time %.9g: %.12g instead of %.12g' % (what, i + 1, 'xyz'[k], t, p[k], q[k])]
    return []


def norm(v):
    return math.sqrt(sum(x * x for x in v))


def start_values(load, n):
    return [[load.start.get((i, k), 0.0) for k in range(3)] for i in range(n)]


def displacement_at(load, i, k, t, t0):
    """Prescribed displacement: the function of time, or, on top of an initial displacement, its change since the start."""
    e = load.fixed[(i, k)]
    if 't' not in e:
        return val(e, t)
    return load.start.get((i, k), 0.0) + val(e, t) - val(e, t0)


def common(r, pts, load, times, bad):
    n = len(pts)
    if not r.ok:
        return ['run failed: %s' % r]
    if len(r.T) != len(times) or any(abs(a - b) > 1e-12 for a, b in zip(r.T, times)):
        return ['steps end at %s instead of %s' % (r.T, times)]
    if r.dup or sorted(r.x) != list(range(1, n + 1)):
        return ['points %s' % sorted(r.x)]
    return []


def forces(pts, load, body, u, t):
    T = load.temperature(pts, t)
    if T is None:
        return body.force(u)
    return body.force(u, [ALPHA[p[3]] * q for p, q in zip(pts, T)])


def judge_static(r, pts, load, times, absolute=None, relative=None, slack=1.0, restart_at=()):
    n = len(pts)
    bad = common(r, pts, load, times, [])
    if bad:
        return bad
    body = ref.Body(pts, mats(pts))
    t0 = times[0]
    bad += close(vec(r, 'Displacement', 0, n), start_values(load, n), 1e-13, 'initial displacement', t0)
    for s in range(1, len(times)):
        t = times[s]
        if t == times[s - 1]:
            continue
        u, up = vec(r, 'Displacement', s, n), vec(r, 'Displacement', s - 1, n)
        for (i, k) in load.fixed:
            e = displacement_at(load, i, k, t, t0)
            if not abs(u[i][k] - e) <= 1e-12:
                bad.append('point %d is moved by %.12g in %s at time %.9g, prescribed is %.12g' % (i + 1, u[i][k], 'xyz'[k], t, e))
        f = forces(pts, load, body, u, t)
        e = [[val(load.force.get((i, k), 0.0), t) for k in range(3)] for i in range(n)]
        bad += close(vec(r, 'External_Force_Density', s, n), e, 1e-12, 'external force density', t)
        bad += close(vec(r, 'Force_Density', s, n), f, 1e-8, 'force density', t)
        bad += close(vec(r, 'Coordinates', s, n), [[a + b for a, b in zip(p, q)] for p, q in zip(pts, u)], 1e-10, 'position', t)
        v = vec(r, 'Velocity', s, n)
        bad += close(v, [[(a - b) / (t - times[s - 1]) for a, b in zip(p, q)] for p, q in zip(u, up)], 1e-9, 'velocity', t)
        res = [(f[i][k] + e[i][k]) * pts[i][4] for i in range(n) for k in range(3) if (i, k) not in load.fixed]
        if absolute is not None:
            lim = absolute
        else:
            # relative to the reactions in the state the load step starts from: the prescribed displacements
            # moved on, everything else where the previous step left it
            w = [list(q) for q in up]
            for (i, k) in load.fixed:
                w[i][k] = displacement_at(load, i, k, t, t0)
            g = forces(pts, load, body, w, t)
            lim = relative * norm([g[i][k] * pts[i][4] for (i, k) in load.fixed])
        if not norm(res) <= lim * slack + 1e-13:
            bad.append('unbalanced force %.6g at time %.9g, more than %.6g' % (norm(res), t, lim))
        if len(bad) > 3:
            break
    return bad[:4]


def judge_newmark(r, pts, load, times, beta, gamma, tol, v0=None):
    n = len(pts)
    bad = common(r, pts, load, times, [])
    if bad:
        return bad
    body = ref.Body(pts, mats(pts))
    u, v, a = start_values(load, n), [list(q) for q in (v0 or ref.zeros(n))], ref.zeros(n)
    bad += close(vec(r, 'Displacement', 0, n), u, 1e-13, 'initial displacement', times[0])
    bad += close(vec(r, 'Velocity', 0, n), v, 1e-13, 'initial velocity', times[0])
    for s in range(1, len(times)):
        t = times[s]
        dt = t - times[s - 1]
        U, V = vec(r, 'Displacement', s, n), vec(r, 'Velocity', s, n)
        f = forces(pts, load, body, U, t)
        e = [[val(load.force.get((i, k), 0.0), t) for k in range(3)] for i in range(n)]
        bad += close(vec(r, 'External_Force_Density', s, n), e, 1e-12, 'external force density', t)
        bad += close(vec(r, 'Force_Density', s, n), f, 1e-8, 'force density', t)
        bad += close(vec(r, 'Coordinates', s, n), [[x + y for x, y in zip(p, q)] for p, q in zip(pts, U)], 1e-10, 'position', t)
        A = [[((U[i][k] - u[i][k] - dt * v[i][k]) / (dt * dt) - (0.5 - beta) * a[i][k]) / beta for k in range(3)] for i in range(n)]
        Y = [[v[i][k] + dt * ((1 - gamma) * a[i][k] + gamma * A[i][k]) for k in range(3)] for i in range(n)]
        for (i, k) in load.fixed:
            Y[i][k] = V[i][k]
        bad += close(V, Y, 1e-9, 'velocity', t)
        for (i, k) in load.fixed:
            w = displacement_at(load, i, k, t, times[0])
            if not abs(U[i][k] - w) <= 1e-12:
                bad.append('point %d is moved by %.12g in %s at time %.9g, prescribed is %.12g' % (i + 1, U[i][k], 'xyz'[k], t, w))
        res = [beta * dt * dt * (body.rho[i] * A[i][k] - f[i][k] - e[i][k]) for i in range(n) for k in range(3) if (i, k) not in load.fixed]
        if not norm(res) <= tol * 1.0001 + 1e-15:
            bad.append('unbalanced momentum %.6g at time %.9g, more than %.6g' % (norm(res), t, tol))
        u, v, a = U, V, A
        if len(bad) > 3:
            break
    return bad[:4]


# solvers

def qs(steps, tol=('abs', TOL), t0=T0, t1=T1, iters=40, **kw):
    q = {'Maximum Solver Iterations': iters, '%s Tolerance' % {'abs': 'Absolute', 'rel': 'Relative'}[tol[0]]: tol[1]}
    s = {'Verbose': False}
    for k, v in kw.items():
        k = k.replace('_', ' ')
        (s if k in ('Disable Heuristics', 'Initialize Predictor From Previous Solver', 'Verbose') else q)[k] = v
    if isinstance(steps, int):
        s.update({'Initial Time': t0, 'Final Time': t1})
        q['Number of Load Steps'] = steps
        times = [t0 + (t1 - t0) * i / steps for i in range(steps + 1)]
    else:
        q['Time Steps'] = ' '.join('%.15g' % t for t in steps)
        times = list(steps)
    s['QuasiStatic'] = q
    return s, times


NOXS = {
    'newton': ({'Method': 'Newton', 'Newton': {'Linear Solver': {'Jacobian Operator': 'Analytic', 'Preconditioner': 'None', 'Tolerance': 1e-8}}}, 'Full Step', None),
    'newton-prec': ({'Method': 'Newton', 'Newton': {'Linear Solver': {'Preconditioner': 'AztecOO', 'Tolerance': 1e-8}}}, 'Polynomial', None),
    'free': ({'Method': 'Newton', 'Newton': {'Linear Solver': {'Jacobian Operator': 'Matrix-Free', 'Preconditioner': 'None', 'Tolerance': 1e-6}}}, 'Polynomial', 'None'),
    'free-full': ({'Method': 'Newton', 'Newton': {'Linear Solver': {'Jacobian Operator': 'Matrix-Free', 'Preconditioner': 'AztecOO', 'Tolerance': 1e-6}}}, 'Polynomial', 'Full Tangent'),
    'free-block': ({'Method': 'Newton', 'Newton': {'Linear Solver': {'Jacobian Operator': 'Matrix-Free', 'Preconditioner': 'User Defined', 'Tolerance': 1e-6}}}, 'Polynomial', 'Block 3x3'),
    'cg': ({'Method': 'NonlinearCG', 'Nonlinear CG': {'Precondition': 'On', 'Orthogonalize': 'Polak-Ribiere', 'Restart Frequency': 10,
                                                     'Linear Solver': {'Preconditioner': 'AztecOO', 'Aztec Preconditioner': 'Jacobi', 'Preconditioner Reuse Policy': 'Recompute'}}}, 'NonlinearCG', None),
}


def nox(kind, steps, tol=('abs', TOL), t0=T0, t1=T1):
    direction, line, prec = NOXS[kind]
    s, times = qs(steps, tol, t0, t1)
    q = s.pop('QuasiStatic')
    q['Max Solver Iterations'] = 300
    del q['Maximum Solver Iterations']
    q['Nonlinear Solver'] = 'Line Search Based'
    q['Direction'] = direction
    q['Line Search'] = {'Method': line}
    if prec:
        s['Peridigm Preconditioner'] = prec
    s['NOXQuasiStatic'] = q
    return s, times


def static(body, load, np_, made, absolute=None, relative=None, slack=1.0):
    def fn(wd):
        pts = bodies(body)
        L = Load(pts, load)
        s, times = made
        r = simulate(wd, deck(pts, L, s), pts, np_)
        return judge_static(r, pts, L, times, absolute, relative, slack), len(times) - 1, ''
    return fn


def implicit(body, load, np_, dt, n, beta, gamma, tol, iters=20):
    def fn(wd):
        pts = bodies(body)
        L = Load(pts, load)
        s = {'Verbose': False, 'Initial Time': T0, 'Final Time': T0 + n * dt, 'Implicit': {'Fixed dt': dt, 'Beta': beta, 'Gamma': gamma, 'Absolute Tolerance': tol, 'Maximum Solver Iterations': iters}}
        d = deck(pts, L, s)
        v0 = [[0.0 if (i, k) in L.fixed else 0.1 * jit(i, 90 + k) for k in range(3)] for i in range(len(pts))]
        for i in range(len(pts)):
            for k in range(3):
                if v0[i][k]:
                    d['Boundary Conditions']['V %d %d' % (i, k)] = {'Type': 'Initial Velocity', 'Node Set': 'Node Set %d' % (i + 1), 'Coordinate': 'xyz'[k], 'Value': '%.17g' % v0[i][k]}
        r = simulate(wd, d, pts, np_)
        times = [T0 + i * dt for i in range(n + 1)]
        if iters < 20:
            # out of iterations: what is written is still close to balance, and nothing claims to have completed the step
            if not r.ok:
                return ['run failed: %s' % r], 1, ''
            if len(r.T) < len(times) and 'Aborting analysis' not in r.out:
                return ['steps end at %s without a message' % r.T], 1, ''
            if len(r.T) < 1:
                return ['no step at all'], 1, ''
            return judge_newmark(r, pts, L, times[:len(r.T)], beta, gamma, 100 * tol, v0), len(r.T) - 1, '%d steps' % (len(r.T) - 1)
        return judge_newmark(r, pts, L, times, beta, gamma, tol, v0), n, ''
    return fn


def chain(body, load, np_, parts, absolute):
    """Several static solvers one after the other."""
    def fn(wd):
        pts = bodies(body)
        L = Load(pts, load)
        r = simulate(wd, deck(pts, L, [s for s, _ in parts]), pts, np_)
        times = [t for _, q in parts for t in q]
        return judge_static(r, pts, L, times, absolute), len(times) - 1, ''
    return fn


def adaptive(body, load, np_, steps, iters, cuts, rest):
    """A solver short of iterations cuts its load steps: whatever it completes is in balance, the load step ends
    asked for are all there (unless the rest is cut as well) and the last one is the final time."""
    def fn(wd):
        pts = bodies(body)
        L = Load(pts, load)
        s, times = qs(steps, iters=iters)
        q = s['QuasiStatic']
        q['Adaptive Load-Stepping'] = {'Maximum load step reductions in one step': cuts, 'Maximum total load step reductions': 10 * cuts, 'Reduce all remaining load steps': rest}
        r = simulate(wd, deck(pts, L, s), pts, np_)
        if not r.ok:
            return ['run failed: %s' % r], 1, ''
        T = r.T
        bad = []
        if any(b <= a for a, b in zip(T, T[1:])):
            bad.append('steps end at %s' % T)
        gave_up = abs(T[-1] - times[-1]) > 1e-12
        if gave_up and 'Aborting analysis' not in r.out:
            bad.append('the last step ends at %.12g instead of %.12g' % (T[-1], times[-1]))
        if not rest:
            for t in times:
                if t < T[-1] and min(abs(t - q) for q in T) > 1e-12:
                    bad.append('no step ends at %.12g, but at %s' % (t, T))
        if not bad:
            bad = judge_static(r, pts, L, T, 100 * TOL)
        return bad, len(T) - 1, 'gave up' if gave_up else 'cut' if len(T) > len(times) else 'no cut'
    return fn


def giving_up(body, load, np_, kind):
    """Out of iterations: what is written is still in balance, and nothing claims to have completed the step."""
    def fn(wd):
        pts = bodies(body)
        L = Load(pts, load)
        s, times = qs([T0, 0.6, T1], iters=2) if kind == 'qs' else nox('newton', [T0, 0.6, T1])
        if kind == 'nox':
            s['NOXQuasiStatic']['Max Solver Iterations'] = 1
        r = simulate(wd, deck(pts, L, s), pts, np_)
        if kind == 'nox' and not r.ok:
            return [], 1, 'refused'
        if not r.ok:
            return ['run failed: %s' % r], 1, ''
        T = r.T
        if len(T) > len(times) or any(abs(a - b) > 1e-12 for a, b in zip(T, times)):
            return ['steps end at %s' % T], 1, ''
        if len(T) < len(times) and 'Aborting analysis' not in r.out:
            return ['steps end at %s without a message' % T], 1, ''
        return judge_static(r, pts, L, T, 100 * TOL), len(T) - 1, '%d steps' % (len(T) - 1)
    return fn


def diffusion(body, np_, steps, tol, linear, horizon, iters=None):
    """Temperatures for which the flow of heat balances at every point without a prescribed temperature."""
    def fn(wd):
        pts = bodies(body)
        n = len(pts)
        lo, hi = sides(pts)
        s, times = qs(steps, tol)
        q = s.pop('QuasiStatic')
        q['Belos Linear Solver'] = linear
        if iters is not None:
            q['Maximum Solver Iterations'], q['Belos Relative Tolerance'], q['Belos Maximum Iterations'] = iters
        s['ImplicitDiffusion'] = q
        s.update({'Solve For Displacement': False, 'Solve For Temperature': True, 'Solve For Pressure': False})
        co = {1: 1.3, 2: 0.6}
        d = base()
        bl = sorted({p[3] for p in pts})
        d['Materials'] = {'M%d' % b: {'Material Model': 'Diffusion', 'Coefficient': co[b], 'Density': 1.0} for b in bl}
        d['Blocks'] = {'B%d' % b: {'Block Names': 'block_%d' % b, 'Material': 'M%d' % b, 'Horizon': horizon} for b in bl}
        fx = {i: '7+t' for i in lo}
        fx.update({i: '%.15g*t*t' % (2 + jit(i, 33)) for i in hi if i not in fx})
        bc = {'Node Set all': ' '.join(str(i + 1) for i in range(n)), 'I': {'Type': 'Initial Temperature', 'Node Set': 'Node Set all', 'Value': '3'}}
        for i, e in fx.items():
            bc['Node Set %d' % (i + 1)] = '%d' % (i + 1)
            bc['P%d' % i] = {'Type': 'Prescribed Temperature', 'Node Set': 'Node Set %d' % (i + 1), 'Value': e}
        d['Boundary Conditions'] = bc
        d['Solver'] = s
        d['Output']['Output Variables'] = {'Temperature': True, 'Volume': True, 'Flux_Divergence': True}
        r = simulate(wd, d, pts, np_)
        if not r.ok:
            return ['run failed: %s' % r], 1, ''
        if iters is not None and 'Aborting analysis' in r.out:
            times = times[:len(r.T)]
        if len(r.T) != len(times) or any(abs(a - b) > 1e-12 for a, b in zip(r.T, times)):
            return ['steps end at %s instead of %s' % (r.T, times)], 1, ''
        bad = []

        def flow(T):
            g = [0.0] * n
            for i in range(n):
                for j in range(n):
                    R = math.dist(pts[i][:3], pts[j][:3])
                    if i != j and R < horizon:
                        g[i] += co[pts[i][3]] * 6 / (math.pi * horizon ** 4 * R) * (T[j] - T[i]) * pts[j][4]
            return g
        for s in range(1, len(times)):
            t = times[s]
            T = [r.N['Temperature'][s][i + 1] for i in range(n)]
            for i, e in fx.items():
                if not abs(T[i] - val(e, t)) <= 1e-12 * 10:
                    bad.append('temperature of point %d at time %.9g is %.12g, prescribed is %.12g' % (i + 1, t, T[i], val(e, t)))
            g = flow(T)
            if tol[0] == 'abs':
                lim = tol[1]
            else:
                w = [r.N['Temperature'][s - 1][i + 1] for i in range(n)]
                for i, e in fx.items():
                    w[i] = val(e, t)
                h = flow(w)
                lim = tol[1] * norm([h[i] * pts[i][4] for i in fx])
            q = norm([g[i] * pts[i][4] for i in range(n) if i not in fx])
            if not q <= (1 if iters is None else 100) * lim + 1e-12:
                bad.append('unbalanced flow of heat %.6g at time %.9g, more than %.6g' % (q, t, lim))
            for i in range(n):
                if not abs(r.N['Flux_Divergence'][s][i + 1] - g[i]) <= 1e-9 * max(1.0, max(map(abs, g))):
                    bad.append('flux divergence of point %d at time %.9g: %.12g instead of %.12g' % (i + 1, t, r.N['Flux_Divergence'][s][i + 1], g[i]))
            if len(bad) > 3:
                break
        return bad[:4], len(times) - 1, '' if iters is None else '%d steps' % (len(times) - 1)
    return fn


def check():
    c = Check('P13')
    build('Peridigm', 'exodump')
    sw = Sweep(c)
    procs = (1, 2, 3, 4)
    B = ('small', 'bar', 'plate', 'two', 'halves')
    LOADS = ('pull', 'push', 'shear', 'swing', 'body', 'step', 'rollers', 'all', 'temp', 'pull+temp', 'pull+start', 'body+start')
    uneven = [T0, 0.6, 1.1, 1.2, T1]
    S = {'steps1': qs(1), 'steps2': qs(2), 'steps5': qs(5), 'uneven': qs(uneven), 'gmres': qs(2, Belos_Linear_Solver='BlockGMRES'),
         'plain': qs(3, Disable_Heuristics=True), 'verbose': qs(2, Verbose=True), 'tight': qs(2, Belos_Relative_Tolerance=1e-9)}
    for b in B:
        for l in LOADS:
            for np_ in procs:
                for nm, made in S.items():
                    if THOROUGH or np_ == 1 or nm in ('steps2', 'uneven') or (nm == 'gmres' and np_ == 2):
                        sw.add('static/%s/%s/%s/np%d' % (b, l, nm, np_), static(b, l, np_, made, absolute=TOL))
                for k in NOXS:
                    if THOROUGH or (np_ == 1 and k != 'cg') or (np_ == 3 and k == 'newton'):
                        sw.add('nox/%s/%s/%s/np%d' % (b, l, k, np_), static(b, l, np_, nox(k, 2), absolute=TOL))
                if (THOROUGH or np_ in (1, 3)) and l in ('pull', 'push', 'shear', 'swing', 'pull+temp'):
                    # a tolerance relative to reactions asks for the impossible where there are none to begin with
                    sw.add('relative/%s/%s/np%d' % (b, l, np_), static(b, l, np_, qs(3, ('rel', 1e-5)), relative=1e-5))
                    sw.add('relative-nox/%s/%s/np%d' % (b, l, np_), static(b, l, np_, nox('newton', 3, ('rel', 1e-5)), relative=1e-5))
                for be, ga in ((0.25, 0.5), (0.3, 0.6), (1 / 6., 0.5)):
                    for dt in (0.05, 0.2):
                        if THOROUGH or np_ in (1, 3) and dt == 0.2 or be == 0.25:
                            sw.add('implicit/%s/%s/beta%.3g/dt%g/np%d' % (b, l, be, dt, np_), implicit(b, l, np_, dt, 4, be, ga, 1e-9))
                for iters in (2, 3, 4):
                    for cuts in (1, 4):
                        for rest in (False, True):
                            for w, st in (('even', 2), ('uneven', [T0, 1.3, T1])):
                                if THOROUGH or (np_ == 1 + iters % 2 and b in ('small', 'two')):
                                    sw.add('adaptive/%s/%s/iterations%d/cuts%d/%s/%s/np%d' % (b, l, iters, cuts, 'all' if rest else 'one', w, np_), adaptive(b, l, np_, st, iters, cuts, rest))
                for kind in ('qs', 'nox'):
                    sw.add('short/%s/%s/%s/np%d' % (b, l, kind, np_), giving_up(b, l, np_, kind))
                for iters in (0, 1, 2):
                    for tol in (1e-4, 1e-6, 1e-9):
                        if THOROUGH or np_ == 1 + iters and b in ('small', 'two', 'plate'):
                            sw.add('short/%s/%s/implicit%d/%g/np%d' % (b, l, iters, tol, np_), implicit(b, l, np_, 0.2, 3, 0.25, 0.5, tol, iters))
                if not load_starts(l):
                    a, m, z = T0, 1.0, T1
                    for nm, parts in (('qs-qs', [qs(2, t0=a, t1=m), qs(2, t0=m, t1=z)]), ('qs-predicted', [qs(2, t0=a, t1=m), qs(2, t0=m, t1=z, Initialize_Predictor_From_Previous_Solver=True)]),
                                      ('qs-nox', [qs(2, t0=a, t1=m), nox('newton', 2, t0=m, t1=z)]), ('nox-qs', [nox('newton', 2, t0=a, t1=m), qs(2, t0=m, t1=z)])):
                        if THOROUGH or np_ in (1, 2):
                            sw.add('chain/%s/%s/%s/np%d' % (b, l, nm, np_), chain(b, l, np_, parts, TOL))
        for np_ in procs:
            for tol in (('abs', 1e-8), ('rel', 1e-6)):
                for lin in ('BlockCG', 'BlockGMRES'):
                    for w, st in (('1', 1), ('3', 3), ('uneven', uneven)):
                        sw.add('heat/%s/%s/%s/%s/np%d' % (b, tol[0], lin, w, np_), diffusion(b, np_, st, tol, lin, 1.7))
            for its in ((1, 1e-1, 50), (2, 1e-2, 50), (1, 1e-6, 3), (2, 1e-1, 2)):
                for tol in (1e-2, 1e-5, 1e-8):
                    for lin in ('BlockCG', 'BlockGMRES'):
                        if THOROUGH or np_ in (1, 3):
                            sw.add('heat-short/%s/%d-%g-%d/%g/%s/np%d' % ((b,) + its + (tol, lin, np_)), diffusion(b, np_, 2, ('abs', tol), lin, 1.7, its))
    sw.go()
    c.bounds = {'bodies': len(B), 'loads': len(LOADS), 'quasi-static options': len(S), 'NOX options': len(NOXS), 'Newmark parameters': 3, 'time step sizes': 2, 'processes': '1 to 4', 'load steps': 'up to 5, even and uneven'}
    c.assumptions = ['small bodies of linear peridynamic solids, optionally with thermal expansion, and of heat conductors']
    return c.finish()


def load_starts(l):
    return l.endswith('+start')


if __name__ == '__main__':
    main(check)
