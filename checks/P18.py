from sim import *
import ref

BODIES = {
    'pair': lambda: [(0, 0, 0, 1.2), (0.9, 0.3, -0.2, 0.7)],
    'regular': lambda: [(p[0], p[1], p[2], p[4]) for p in lattice(3, 2, 2)],
    'uneven': lambda: [(p[0], p[1], p[2], p[4]) for p in lattice(3, 3, 2, jitter=0.15, vols=True, origin=(-0.7, 2.0, 0.4))],
    'lonely': lambda: [(p[0], p[1], p[2], p[4]) for p in lattice(2, 2, 1, jitter=0.1, vols=True)] + [(7.0, 0.3, 0.2, 0.4)],
}
LAYOUTS = {
    'one': lambda i, n: 1,
    'halves': lambda i, n: 1 if 2 * i < n else 2,
    'alternate': lambda i, n: 1 + i % 2,
    'backwards': lambda i, n: (2 if 3 * i < n else 1) if 3 * i < 2 * n else 7,
    'single': lambda i, n: 1 if i < n - 1 else 2,
}
STATES = ['rest', 'motion', 'loaded', 'damage', 'contact', 'warm']
HOR = {1: 1.6, 2: 1.8, 7: 1.5}
LOCAL = ['Acceleration', 'Angular_Momentum', 'Linear_Momentum', 'Kinetic_Energy', 'Force', 'Contact_Force', 'Radius', 'Number_Of_Neighbors', 'Neighborhood_Volume',
         'Stored_Elastic_Energy', 'Stored_Elastic_Energy_Density', 'Deformation_Gradient']
GLOBAL = ['Global_Kinetic_Energy', 'Global_Linear_Momentum', 'Global_Angular_Momentum']
BASE = ['Displacement', 'Velocity', 'Force_Density', 'Volume']
SAMPLED = [('Volume', 'E', 1), ('Radius', 'E', 1), ('Kinetic_Energy', 'E', 1), ('Displacement', 'N', 3), ('Velocity', 'N', 3), ('Force', 'N', 3), ('Number_Of_Neighbors', 'E', 1)]


def setup(body, layout, state):
    P = BODIES[body]()
    n = len(P)
    pts = [(x, y, z, LAYOUTS[layout](i, n), v) for i, (x, y, z, v) in enumerate(P)]
    mat = {b: (10.0 + b, 6.0 + 0.5 * b, 2.0 + 0.7 * b, HOR[b]) for b in {p[3] for p in pts}}
    d = base(Solver={'Final Time': 0.09, 'Verlet': {'Fixed dt': 0.03}})
    d['Materials'] = {'M%d' % b: {'Material Model': 'Elastic', 'Density': m[2], 'Bulk Modulus': m[0], 'Shear Modulus': m[1]} for b, m in mat.items()}
    d['Blocks'] = {'B%d' % b: {'Block Names': 'block_%d' % b, 'Material': 'M%d' % b, 'Horizon': m[3]} for b, m in mat.items()}
    bc = {}
    for i in range(n):
        bc['Node Set %d' % (i + 1)] = '%d' % (i + 1)
        if state != 'rest':
            for k in range(3):
                N = 'Node Set %d' % (i + 1)
                bc['V%d%d' % (i, k)] = {'Type': 'Initial Velocity', 'Node Set': N, 'Coordinate': 'xyz'[k], 'Value': '%.17g' % (0.5 * jit(i, 20 + k) - 0.2 * k)}
                bc['U%d%d' % (i, k)] = {'Type': 'Initial Displacement', 'Node Set': N, 'Coordinate': 'xyz'[k], 'Value': '%.17g' % (0.08 * jit(i, 30 + k) + 0.05)}
                if state == 'loaded':
                    bc['F%d%d' % (i, k)] = {'Type': 'Body Force', 'Node Set': N, 'Coordinate': 'xyz'[k], 'Value': '%.17g*(1+t)' % (2.0 * jit(i, 40 + k))}
    if state == 'damage':
        d['Damage Models'] = {'D%d' % b: {'Damage Model': 'Critical Stretch', 'Critical Stretch': 0.05 + 0.003 * b} for b in mat}
        for b in mat:
            d['Blocks']['B%d' % b]['Damage Model'] = 'D%d' % b
    if state == 'contact':
        d['Contact'] = {'Search Radius': 12.0, 'Search Frequency': 1, 'Models': {'C': {'Contact Model': 'Short Range Force', 'Contact Radius': 2.4, 'Spring Constant': 30.0}},
                        'Interactions': {'General Contact': {'Contact Model': 'C'}, 'Self Contact': {'Contact Model': 'C'}}}
    if state == 'warm':
        for b in mat:
            d['Materials']['M%d' % b]['Thermal Expansion Coefficient'] = 0.01 * b
        bc['T'] = {'Type': 'Prescribed Temperature', 'Node Set': 'Node Set all', 'Value': '3.0*t*(1+x)'}
        bc['Node Set all'] = ' '.join(str(i + 1) for i in range(n))
    d['Boundary Conditions'] = bc
    return pts, mat, d


def names(v, comps):
    return [v] if comps == 1 else [v + c for c in 'XYZ']


def get(r, v, kind, comps, s, g):
    D = r.N if kind == 'N' else r.E
    return tuple(D[q][s][g] for q in names(v, comps))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def inv3(m):
    d = sum(m[0][k] * cross(m[1], m[2])[k] for k in range(3))
    c = [cross(m[1], m[2]), cross(m[2], m[0]), cross(m[0], m[1])]
    return d, (None if d == 0 else [[c[j][i] / d for j in range(3)] for i in range(3)])


def judge(r, pts, mat, state, want, samples, vtk=None):
    if not r.ok:
        return ['run failed: %s' % r], 0
    n = len(pts)
    if len(r.T) != 4 or sorted(r.x) != list(range(1, n + 1)):
        return ['%d output times, points %s' % (len(r.T), sorted(r.x))], 0
    bad, count = [], [0]
    body = ref.Body(pts, mat)
    if body.close:
        raise CheckError('bond length at the horizon')

    def same(what, got, exp, scale=0.0, tol=1e-10):
        got, exp = (got, exp) if isinstance(exp, tuple) else ((got,), (exp,))
        count[0] += 1
        m = max([abs(q) for q in exp] + [scale, 1e-6])
        if any(not abs(a - b) <= tol * m for a, b in zip(got, exp)):
            bad.append('%s is %s instead of %s' % (what, ', '.join('%.12g' % a for a in got), ', '.join('%.12g' % a for a in exp)))
    warm = {b: 0.01 * b if state == 'warm' else 0.0 for b in mat}
    for s in range(4):
        t = r.T[s]
        U = [r.v('Displacement', s, i + 1) for i in range(n)]
        V = [r.v('Velocity', s, i + 1) for i in range(n)]
        F = [r.v('Force_Density', s, i + 1) for i in range(n)]
        Y = [tuple(a + b for a, b in zip(pts[i][:3], U[i])) for i in range(n)]
        vol = [p[4] for p in pts]
        mass = [body.rho[i] * vol[i] for i in range(n)]
        if state == 'damage':
            if s == 1:
                body.dmg = {}
            body.stretch_step(U, {b: 0.05 + 0.003 * b for b in mat})
        fs = max(abs(q) for f in F for q in f)
        for i in range(n):
            g = i + 1
            w = 'at output %d point %d: ' % (s, g)
            same(w + 'volume', r.E['Volume'][s][g], vol[i])
            for q in want:
                if q == 'Acceleration':
                    same(w + q, r.v(q, s, g), tuple(c / body.rho[i] for c in F[i]), 1e-3 * fs)
                elif q == 'Force':
                    same(w + q, r.v(q, s, g), tuple(c * vol[i] for c in F[i]), 1e-3 * fs)
                elif q == 'Linear_Momentum':
                    same(w + q, r.v(q, s, g), tuple(mass[i] * c for c in V[i]))
                elif q == 'Angular_Momentum':
                    same(w + q, r.v(q, s, g), tuple(mass[i] * c for c in cross(V[i], Y[i])), 0.1)
                elif q == 'Kinetic_Energy':
                    same(w + q, r.E[q][s][g], 0.5 * mass[i] * sum(c * c for c in V[i]))
                elif q == 'Radius':
                    same(w + q, r.E[q][s][g], (0.75 * vol[i] / math.pi) ** (1 / 3))
                elif q == 'Number_Of_Neighbors':
                    same(w + q, r.E[q][s][g], float(len(body.nbr[i])))
                elif q == 'Neighborhood_Volume':
                    same(w + q, r.E[q][s][g], vol[i] + sum(vol[j] for j, _ in body.nbr[i]))
                elif q == 'Contact_Force':
                    same(w + q, r.v(q, s, g), tuple(c * vol[i] for c in r.v('Contact_Force_Density', s, g)), 1e-3)
                elif q.startswith('Stored'):
                    b = pts[i][3]
                    dT = 3.0 * t * (1 + pts[i][0]) if state == 'warm' else 0.0
                    th = e2 = 0.0
                    for j, L in body.nbr[i]:
                        th += 3 / body.m[i] * (1 - body.dmg.get((i, j), 0)) * L * (math.dist(Y[i], Y[j]) - L - warm[b] * dT * L) * vol[j]
                    for j, L in body.nbr[i]:
                        e2 += (1 - body.dmg.get((i, j), 0)) * (math.dist(Y[i], Y[j]) - L - warm[b] * dT * L - th * L / 3) ** 2 * vol[j]
                    W = 0.5 * mat[b][0] * th * th + (7.5 * mat[b][1] / body.m[i] * e2 if body.m[i] else 0.0)
                    same(w + q, r.E[q][s][g], W * (1 if q.endswith('Density') else vol[i]), 1e-4, 1e-9)
                elif q == 'Deformation_Gradient':
                    K = [[0.0] * 3 for _ in range(3)]
                    B = [[0.0] * 3 for _ in range(3)]
                    for j, L in body.nbr[i]:
                        X = [b - a for a, b in zip(pts[i][:3], pts[j][:3])]
                        Z = [b - a for a, b in zip(Y[i], Y[j])]
                        for a in range(3):
                            for c in range(3):
                                K[a][c] += vol[j] * X[a] * X[c]
                                B[a][c] += vol[j] * Z[a] * X[c]
                    det, inv = inv3(K)
                    if det < 1e-3:
                        continue
                    for a in range(3):
                        for c in range(3):
                            same(w + q + 'XYZ'[a] + 'XYZ'[c], r.E[q + 'XYZ'[a] + 'XYZ'[c]][s][g], sum(B[a][k] * inv[k][c] for k in range(3)), 1.0, 1e-9)
        w = 'at output %d: ' % s
        for q in want:
            if q == 'Global_Kinetic_Energy':
                same(w + q, r.G[q][s], sum(0.5 * mass[i] * sum(c * c for c in V[i]) for i in range(n)))
            elif q == 'Global_Linear_Momentum':
                same(w + q, r.G[q][s], math.sqrt(sum(sum(mass[i] * V[i][k] for i in range(n)) ** 2 for k in range(3))), 0.1)
            elif q == 'Global_Angular_Momentum':
                same(w + q, r.G[q][s], math.sqrt(sum(sum(mass[i] * cross(V[i], Y[i])[k] for i in range(n)) ** 2 for k in range(3))), 0.1)
        for lab, (what, v, kind, comps, op) in samples.items():
            got = tuple(r.G[q][s] for q in names(lab, comps))
            if op == 'near':
                exp = get(r, v, kind, comps, s, what)
            else:
                val = [get(r, v, kind, comps, s, i + 1) for i in range(n) if pts[i][3] == what]
                f = {'Minimum': min, 'Maximum': max, 'Sum': sum}[op]
                exp = tuple(f(q[k] for q in val) for k in range(comps))
            same(w + '%s of %s for %s' % (op, v, what), got, exp, 1e-4)
        if len(bad) > 4:
            break
    return bad, count[0]


def full(body, layout, state, np_, alone=None):
    def fn(wd):
        pts, mat, d = setup(body, layout, state)
        n = len(pts)
        want = [alone] if alone else LOCAL + GLOBAL
        want = [q for q in want if q != 'Contact_Force' or state == 'contact']
        d = merge(d, outputs(*(BASE + want + (['Contact_Force_Density'] if state == 'contact' else []))))
        r = simulate(wd, d, pts, np_)
        bad, k = judge(r, pts, mat, state, want, {})
        return bad, k, ''
    return fn


def sample(body, layout, state, np_, which):
    def fn(wd):
        pts, mat, d = setup(body, layout, state)
        n = len(pts)
        S, C = {}, {}
        if which == 'blocks':
            for b in mat:
                for v, kind, comps in SAMPLED:
                    for op in ('Minimum', 'Maximum', 'Sum'):
                        lab = 'Q%d' % len(S)
                        S[lab] = (b, v, kind, comps, op)
                        C['c%d' % len(S)] = {'Compute Class': 'Block_Data', 'Calculation Type': op, 'Block': 'block_%d' % b, 'Variable': v, 'Output Label': lab}
        else:
            Q = []
            for p in pts:
                Q += [p[:3], tuple(c + 0.2 * jit(int(10 * p[0]), 50 + k) for k, c in enumerate(p[:3]))]
            lo = [min(p[k] for p in pts) for k in range(3)]
            hi = [max(p[k] for p in pts) for k in range(3)]
            mid = tuple(0.5 * (a + b) for a, b in zip(lo, hi))
            Q += [mid, (mid[0], lo[1] - 50.0, mid[2]), (-99.0, mid[1], mid[2]), (0.5, 0.5, 0.5), (0.5, 0.0, 0.0)]
            for x in Q:
                D = [sum((a - b) * (a - b) for a, b in zip(x, p[:3])) for p in pts]
                m = min(D)
                tied = [i for i in range(n) if D[i] <= m * (1 + 1e-12) + 1e-15]
                if len({D[i] for i in tied}) > 1 or (len(tied) > 1 and body != 'regular'):
                    continue
                for v, kind, comps in (SAMPLED[2], SAMPLED[3]):
                    lab = 'Q%d' % len(S)
                    S[lab] = (tied[0] + 1, v, kind, comps, 'near')
                    C['c%d' % len(S)] = {'Compute Class': 'Nearest_Point_Data', 'X': float(x[0]), 'Y': float(x[1]), 'Z': float(x[2]), 'Variable': v, 'Output Label': lab, 'Verbose': False}
        d['Compute Class Parameters'] = C
        d = merge(d, outputs(*(BASE + [v for v, _, _ in SAMPLED] + list(S))))
        r = simulate(wd, d, pts, np_)
        bad, k = judge(r, pts, mat, state, ['Kinetic_Energy', 'Force', 'Radius', 'Number_Of_Neighbors'], S)
        return bad, k, ''
    return fn


def check():
    c = Check('P18')
    build('Peridigm', 'exodump')
    sw = Sweep(c)
    procs = (1, 2, 3, 4)
    for body in BODIES:
        for layout in LAYOUTS:
            if body == 'pair' and layout in ('backwards', 'halves', 'single'):
                continue
            for np_ in procs:
                if np_ > len(BODIES[body]()):
                    continue
                for state in STATES:
                    if state in ('rest', 'loaded', 'warm', 'contact') and not THOROUGH and np_ in (1, 4):
                        continue
                    sw.add('all/%s/%s/%s/np%d' % (body, layout, state, np_), full(body, layout, state, np_))
                for which in ('blocks', 'near'):
                    for state in STATES if THOROUGH else ('motion',):
                        sw.add('%s/%s/%s/%s/np%d' % (which, body, layout, state, np_), sample(body, layout, state, np_, which))
    for q in LOCAL + GLOBAL:
        for layout in ('one', 'alternate'):
            for state in ('motion', 'contact', 'damage'):
                for np_ in (1, 3):
                    sw.add('alone/%s/%s/%s/np%d' % (q, layout, state, np_), full('uneven', layout, state, np_, q))
    sw.go()
    c.bounds = {'bodies': 'four bodies of 2 to 18 points', 'block layouts': '5 (one to three blocks)', 'states': '6', 'processes': '1 to 4', 'steps': 3,
                'derived quantities': '15 together and each alone, minimum/maximum/sum over each block and nearest-point samples of scalars and vectors'}
    c.assumptions = ['energies and deformation gradients are judged for the linear elastic solid with the default influence function', 'node sets read from Exodus meshes are not available in this build']
    return c.finish()


if __name__ == '__main__':
    main(check)
