from sim import *
import ref

MAT = {1: (10.0, 6.0, 2.0, 1.6)}
PTS = lattice(3, 2, 2, jitter=0.06, vols=True)
N = len(PTS)
X = [p[:3] for p in PTS]
TI, TF, DT = 0.5, 0.9, 0.1
C = {'x': 0, 'y': 1, 'z': 2}

# functions: text in the input, value(x, y, z, t)
FUN = {
    'const': ('0.0375', lambda p, t: 0.0375),
    'number': (0.012345678901, lambda p, t: 0.012345678901),
    'position': ('0.02*x-0.01*y*z+0.005', lambda p, t: 0.02 * p[0] - 0.01 * p[1] * p[2] + 0.005),
    'ramp': ('0.1*(t-0.5)', lambda p, t: 0.1 * (t - 0.5)),
    'both': ('value = (0.05*x+0.02)*sin(2.0*(t-0.5));', lambda p, t: (0.05 * p[0] + 0.02) * math.sin(2.0 * (t - 0.5))),
    'creep': ('4.0e-9*(t-0.5)', lambda p, t: 4.0e-9 * (t - 0.5)),
    'pulse': ('if(t<0.65){value=0.05+0.01*x;}', lambda p, t: 0.05 + 0.01 * p[0] if t < 0.65 else 0.0),
    'hold': ('if(t<0.65){value=0.2*(t-0.5);}else{value=0.03;}', lambda p, t: 0.2 * (t - 0.5) if t < 0.65 else 0.03),
}
SETS = {'one': [5], 'row': [1, 4, 7, 10], 'all': list(range(1, N + 1)), 'mixed': [12, 1, 6, 3]}


def form(kind, ids):
    """A node set in the input or in a file: (value of the parameter, files)."""
    if kind == 'inline':
        return ' '.join(map(str, ids)), {}
    if kind == 'column':
        return 'set.txt', {'set.txt': ''.join('%d\n' % i for i in ids)}
    if kind == 'table':
        return 'set.txt', {'set.txt': '# a comment\n\n' + '  '.join(map(str, ids[:2])) + '\n// another\n* and one more\n' + ' '.join(map(str, ids[2:])) + '\n'}
    if kind == 'spaces':
        return '   ' + '   '.join(map(str, ids)) + '  ', {}


def expect(conds):
    """Initial displacement and velocity, prescribed degrees of freedom and body force of a list of
    conditions (type, ids, coordinate, function)."""
    u0, v0 = ref.zeros(N), ref.zeros(N)
    fixed, force = {}, {}
    for ty, ids, co, fun in conds:
        f = FUN[fun][1]
        for g in ids:
            i, k = g - 1, C[co]
            if ty == 'Initial Displacement':
                u0[i][k] = f(X[i], 0.0)
            elif ty == 'Initial Velocity':
                v0[i][k] = f(X[i], 0.0)
            elif ty == 'Prescribed Displacement':
                fixed[(i, k)] = (lambda q, h: (lambda t: h(q, t)))(X[i], f)
            elif ty == 'Body Force':
                force[(i, k)] = (lambda q, h: (lambda t: h(q, t)))(X[i], f)
    ext = lambda i, k, t: force[(i, k)](t) if (i, k) in force else 0.0
    return u0, v0, fixed, ext


def deck(conds, kind):
    bc, files = {}, {}
    for q, (ty, ids, co, fun) in enumerate(conds):
        v, f = form(kind if q == 0 else 'inline', ids)
        bc['Node Set %d' % (q + 1)] = v
        files.update(f)
    for q, (ty, ids, co, fun) in enumerate(conds):
        bc['Condition %d' % (q + 1)] = {'Type': ty, 'Node Set': 'Node Set %d' % (q + 1), 'Coordinate': co, 'Value': FUN[fun][0]}
    return bc, files


def explicit(conds, kind, np_, xmlform=False):
    def fn(wd):
        bc, files = deck(conds, kind)
        d = merge(base(Solver={'Initial Time': TI, 'Final Time': TF, 'Verlet': {'Fixed dt': DT}}), outputs('Force_Density', 'External_Force_Density'))
        d['Boundary Conditions'] = bc
        u0, v0, fixed, ext = expect(conds)
        R = ref.verlet(ref.Body(PTS, MAT), TI, TF, DT, u0, v0, ext, fixed)
        r = simulate(wd, d, PTS, np_, files, deckname='in.xml' if xmlform else 'in.yaml')
        bad = ref.against(r, R, skipv=fixed)
        return bad, len(R), '%s' % [['%.5g' % c for c in q] for q in R[-1][1]]
    return fn


HOLD = [('Prescribed Displacement', [1, 4, 7, 10], c, 'zero') for c in 'xyz']
FUN['zero'] = ('0.0', lambda p, t: 0.0)


def static(solver, conds, kind, np_):
    """Quasi-static: prescribed values at every load step, balance everywhere else."""
    def fn(wd):
        bc, files = deck(conds, kind)
        if solver == 'NOX':
            sol = {'NOXQuasiStatic': {'Nonlinear Solver': 'Line Search Based', 'Number of Load Steps': 4, 'Max Solver Iterations': 50, 'Absolute Tolerance': 1e-9,
                                      'Direction': {'Method': 'Newton', 'Newton': {'Linear Solver': {'Jacobian Operator': 'Analytic', 'Preconditioner': 'None', 'Tolerance': 1e-10, 'Max Iterations': 200}}},
                                      'Line Search': {'Method': 'Full Step'}}}
        else:
            sol = {'QuasiStatic': {'Number of Load Steps': 4, 'Absolute Tolerance': 1e-9, 'Maximum Solver Iterations': 40, 'Belos Relative Tolerance': 1e-10}}
        d = base(Solver={'Initial Time': TI, 'Final Time': TF, 'Verlet': None})
        d['Solver'].update(sol)
        d['Boundary Conditions'] = bc
        d = merge(d, outputs('External_Force_Density'))
        u0, v0, fixed, ext = expect(conds)
        r = simulate(wd, d, PTS, np_, files)
        if not r.ok:
            return ['run failed: %s' % r]
        if len(r.T) != 5:
            return ['%d output times instead of 5: %s' % (len(r.T), r.out[-300:])]
        bad = []
        b = ref.Body(PTS, MAT)
        for s in range(5):
            t = TI + s * DT
            if abs(r.T[s] - t) > 1e-12:
                bad.append('output %d at time %.15g' % (s, r.T[s]))
            u = [r.v('Displacement', s, i + 1) for i in range(N)]
            for (i, k), f in fixed.items():
                # the initial output precedes the first load step
                w = f(t) if s else u0[i][k]
                if abs(u[i][k] - w) > 1e-12:
                    bad.append('displacement %s of point %d at time %.6g: %.12g instead of %.12g' % ('xyz'[k], i + 1, t, u[i][k], w))
            F = b.force(u)
            for i in range(N):
                for k in range(3):
                    e = r.N['External_Force_Density' + 'XYZ'[k]][s][i + 1]
                    if abs(e - ext(i, k, t)) > 1e-12:
                        bad.append('body force %s of point %d at time %.6g: %.12g instead of %.12g' % ('xyz'[k], i + 1, t, e, ext(i, k, t)))
                    if s and (i, k) not in fixed and abs((F[i][k] + ext(i, k, t)) * PTS[i][4]) > 1e-6:
                        bad.append('direction %s of point %d at time %.6g is not in balance: %.6g' % ('xyz'[k], i + 1, t, F[i][k] + ext(i, k, t)))
        return bad, 5, '%s' % [['%.5g' % c for c in q] for q in u]
    return fn


TFUN = {'const': FUN['const'], 'position': FUN['position'], 'number': FUN['number'],
        'ramp': ('3.0*t+0.5*x', lambda p, t: 3.0 * t + 0.5 * p[0]), 'hold': ('if(t<0.25){value=8.0*t;}else{value=2.0;}', lambda p, t: 8.0 * t if t < 0.25 else 2.0)}


def temperature(ty, ids, fun, kind, np_):
    """Temperatures of an explicit run that starts at time zero."""
    def fn(wd):
        v, files = form(kind, ids)
        f = TFUN[fun]
        d = merge(base(Materials={'M': {'Thermal Expansion Coefficient': 1e-3}}), outputs('Temperature', 'Temperature_Change'))
        d['Boundary Conditions'] = {'Node Set 1': v, 'T': {'Type': ty, 'Node Set': 'Node Set 1', 'Value': f[0]}}
        r = simulate(wd, d, PTS, np_, files)
        if not r.ok:
            return ['run failed: %s' % r]
        bad = []
        if len(r.T) != 5:
            return ['%d output times' % len(r.T)]
        for s in range(5):
            t = 0.1 * s
            for i in range(N):
                T, D = r.N['Temperature'][s][i + 1], r.N['Temperature_Change'][s][i + 1]
                inside = i + 1 in ids
                w = (f[1](X[i], t) if ty.startswith('Prescribed') else f[1](X[i], 0.0)) if inside else 0.0
                c = (f[1](X[i], t) - f[1](X[i], 0.0)) if inside and ty.startswith('Prescribed') else 0.0
                if abs(T - w) > 1e-12:
                    bad.append('temperature of point %d at time %.6g: %.12g instead of %.12g' % (i + 1, t, T, w))
                if abs(D - c) > 1e-12:
                    bad.append('temperature change of point %d at time %.6g: %.12g instead of %.12g' % (i + 1, t, D, c))
        return bad, 5, ''
    return fn


def check():
    c = Check('P11')
    build('Peridigm', 'exodump')
    sw = Sweep(c)
    types = ('Initial Displacement', 'Initial Velocity', 'Prescribed Displacement', 'Body Force')
    for ty in types:
        for co in 'xyz':
            for fun in ('const', 'number', 'position', 'ramp', 'both', 'hold', 'pulse', 'creep'):
                if ty.startswith('Initial') and fun in ('ramp', 'both', 'hold', 'pulse', 'creep'):
                    continue
                for sn, ids in SETS.items():
                    for q, kind in enumerate(('inline', 'column', 'table', 'spaces')):
                        if kind == 'spaces' and sn == 'one':
                            continue
                        for np_ in (1, 2, 3) if THOROUGH else ((1, 3) if kind == 'inline' else (1 + (q + len(fun)) % 3,)):
                            sw.add('explicit/%s/%s/%s/%s/%s/np%d' % (ty, co, fun, sn, kind, np_), explicit([(ty, ids, co, fun)], kind, np_))
    # two conditions at once on overlapping node sets
    for t1 in types:
        for t2 in types:
            for c1 in 'xyz':
                for c2 in 'xyz':
                    if t1 == t2 and c1 == c2:
                        continue
                    if {t1, t2} == {'Initial Displacement', 'Prescribed Displacement'} and c1 == c2:
                        continue
                    sw.add('explicit/pair/%s-%s/%s-%s' % (t1, c1, t2, c2), explicit([(t1, SETS['row'], c1, 'position' if t1.startswith('I') else 'both'),
                                                                                   (t2, SETS['mixed'], c2, 'const' if t2.startswith('I') else 'ramp')], 'inline', 1 + len(t1 + c1) % 3, c1 != c2))
    # initial displacement that agrees with the prescribed one
    for co in 'xyz':
        FUN['start'] = ('0.03', lambda p, t: 0.03)
        FUN['go'] = ('0.03+0.2*(t-0.5)', lambda p, t: 0.03 + 0.2 * (t - 0.5))
        for np_ in (1, 2, 3):
            sw.add('explicit/agree/%s/np%d' % (co, np_), explicit([('Initial Displacement', SETS['row'], co, 'start'), ('Prescribed Displacement', SETS['row'], co, 'go')], 'inline', np_))
    for solver in ('QuasiStatic', 'NOX'):
        for co in 'xyz':
            for fun in ('const', 'number', 'position', 'ramp', 'both', 'hold'):
                for np_ in (1, 2, 3):
                    sw.add('static/%s/move/%s/%s/np%d' % (solver, co, fun, np_), static(solver, HOLD + [('Prescribed Displacement', [3, 6, 9, 12], co, fun)], 'inline', np_))
                    sw.add('static/%s/push/%s/%s/np%d' % (solver, co, fun, np_), static(solver, HOLD + [('Body Force', [3, 8], co, fun)], 'table', np_))
    for ty in ('Initial Temperature', 'Prescribed Temperature'):
        for fun in TFUN:
            if ty.startswith('Initial') and fun in ('ramp', 'hold'):
                continue
            for sn, ids in SETS.items():
                for np_ in (1, 2, 3):
                    sw.add('temperature/%s/%s/%s/np%d' % (ty, fun, sn, np_), temperature(ty, ids, fun, 'inline' if np_ < 3 else 'table', np_))
    sw.go()
    c.bounds = {'conditions': '4 mechanical types x 3 directions x 7 functions x 4 node sets x 4 notations, all pairs of types and directions on overlapping sets, temperatures, two static solvers', 'processes': '1 to 3'}
    c.assumptions = ['a prescribed displacement agrees with the initial displacement at the initial time or is constant over the first step',
                     'two conditions never name the same quantity of the same point in the same direction',
                     'velocities of prescribed degrees of freedom are not judged']
    return c.finish()

if __name__ == '__main__':
    main(check)
