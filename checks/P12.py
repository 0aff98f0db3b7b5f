from sim import *
import ref

BLOCKS2 = {'B1': {'Block Names': 'block_1', 'Material': 'M1', 'Horizon': 1.6}, 'B2': {'Block Names': 'block_2', 'Material': 'M2', 'Horizon': 1.6}}
MATS = {'M1': {'Material Model': 'Elastic', 'Density': 2.0, 'Bulk Modulus': 10.0, 'Shear Modulus': 6.0},
        'M2': {'Material Model': 'Elastic', 'Density': 5.5, 'Bulk Modulus': 4.0, 'Shear Modulus': 9.0}}
MAT = {1: (10.0, 6.0, 2.0, 1.6), 2: (4.0, 9.0, 5.5, 1.6)}

def bodies():
    a = lattice(3, 2, 2, jitter=0.06, vols=True)
    yield 'one', a, {'B': {'Block Names': 'block_1', 'Material': 'M1', 'Horizon': 1.6}}, {1: MAT[1]}
    yield 'two', lattice(3, 2, 2, jitter=0.06, vols=True, blocks=2), BLOCKS2, MAT
    # alternating membership, second block first in the file
    alt = [(p[0], p[1], p[2], 2 - i % 2, p[4]) for i, p in enumerate(lattice(3, 2, 2, jitter=0.05))]
    yield 'alternating', alt, BLOCKS2, MAT
    # two far apart pieces and a lone point
    far = lattice(2, 2, 1, jitter=0.05) + [(p[0], p[1], p[2], 2, p[4]) for p in lattice(2, 2, 1, jitter=0.05, origin=(9, 0, 0))] + [(4.0, 0.0, 0.0, 2, 0.8)]
    yield 'apart', far, BLOCKS2, MAT
    # three blocks under one default definition with sparse numbers
    sp = [(p[0], p[1], p[2], (3, 7, 20)[i % 3], p[4]) for i, p in enumerate(lattice(3, 2, 2, jitter=0.05))]
    yield 'default', sp, {'D': {'Block Names': 'Default', 'Material': 'M2', 'Horizon': 1.6}}, {3: MAT[2], 7: MAT[2], 20: MAT[2]}

TIMES = [(0.0, 0.4, 0.1, None), (0.0, 0.3, 0.1, None), (0.5, 1.0, 0.125, None), (0.0, 0.35, 0.1, None), (0.0, 0.05, 0.1, None),
         (0.0, 0.3, 0.1, 0.5), (-0.2, 0.2, 0.08, None), (1e3, 1e3 + 0.7, 0.1, None), (0.0, 0.6, 0.2, 0.75)]

def loads(n):
    """name, conditions, initial displacement, initial velocity, body force"""
    S = {'Node Set A': ' '.join(str(i) for i in range(1, n + 1, 2)), 'Node Set B': ' '.join(str(i) for i in range(1, n + 1, 3))}
    A, B = set(range(0, n, 2)), set(range(0, n, 3))
    bc = lambda t, s, c, v: {'Type': t, 'Node Set': 'Node Set ' + s, 'Coordinate': c, 'Value': v}
    iv = {'V1': bc('Initial Velocity', 'A', 'x', '0.3*y+0.2'), 'V2': bc('Initial Velocity', 'B', 'z', '-0.4')}
    V = lambda P: [[(0.3 * P[i][1] + 0.2) if i in A else 0.0, 0.0, -0.4 if i in B else 0.0] for i in range(n)]
    idp = {'U1': bc('Initial Displacement', 'B', 'y', '0.05*x-0.1')}
    U = lambda P: [[0.0, 0.05 * P[i][0] - 0.1 if i in B else 0.0, 0.0] for i in range(n)]
    bf = {'F1': bc('Body Force', 'A', 'y', '2.0*t+x'), 'F2': bc('Body Force', 'B', 'z', '-1.5')}
    F = lambda P: (lambda i, k, t: (2 * t + P[i][0] if k == 1 and i in A else -1.5 if k == 2 and i in B else 0.0))
    none = lambda P: None
    yield 'velocity', dict(S, **iv), none, V, none
    yield 'displacement', dict(S, **idp), U, none, none
    yield 'force', dict(S, **bf), none, none, F
    yield 'all', dict(S, **dict(iv, **dict(idp, **bf))), U, V, F
    yield 'rest', {}, none, none, none

def case(pts, blocks, mat, bc, u0, v0, f, tm, np_):
    def fn(wd):
        ti, tf, dt, sf = tm
        P = [p[:3] for p in pts]
        d = base(Blocks=None, Materials=MATS, Solver={'Initial Time': ti, 'Final Time': tf, 'Verlet': {'Fixed dt': dt}})
        d['Blocks'] = blocks
        if sf is not None:
            d['Solver']['Verlet']['Safety Factor'] = sf
            dt = dt * sf
        if bc:
            d['Boundary Conditions'] = bc
        d = merge(d, outputs('Force_Density', 'External_Force_Density', 'Coordinates'))
        body = ref.Body(pts, mat)
        R = ref.verlet(body, ti, tf, dt, u0(P), v0(P), f(P))
        r = simulate(wd, d, pts, np_)
        bad = ref.against(r, R)
        if not bad:
            for s in range(len(R)):
                for i in range(len(pts)):
                    y = r.v('Coordinates', s, i + 1)
                    u = r.v('Displacement', s, i + 1)
                    if any(abs(y[k] - P[i][k] - u[k]) > 1e-12 * 100 for k in range(3)):
                        bad.append('point %d step %d: coordinates %s are not %s displaced by %s' % (i + 1, s, y, P[i], u))
                    if any(abs(r.x[i + 1][k] - P[i][k]) > 1e-14 * 10 for k in range(3)):
                        bad.append('point %d is at %s in the output instead of %s' % (i + 1, r.x[i + 1], P[i]))
        return bad, len(R), '%s' % [['%.6g' % c for c in q] for q in R[-1][1]]
    return fn

def contact_case(np_, tm):
    """Recurrence with contact forces, judged from the reported forces."""
    def fn(wd):
        ti, tf, dt, sf = tm
        a = lattice(2, 2, 2)
        b = [(p[0], p[1], p[2], 2, p[4]) for p in lattice(2, 2, 2, origin=(1.7, 0.13, 0.21))]
        pts = a + b
        d = base(Blocks=None, Materials=MATS, Solver={'Initial Time': ti, 'Final Time': tf, 'Verlet': {'Fixed dt': dt}},
                 Contact={'Search Radius': 3.0, 'Search Frequency': 1, 'Models': {'C': {'Contact Model': 'Short Range Force', 'Contact Radius': 0.9, 'Spring Constant': 40.0}},
                          'Interactions': {'I': {'First Block': 'block_1', 'Second Block': 'block_2', 'Contact Model': 'C'}}})
        d['Blocks'] = {'B1': {'Block Names': 'block_1', 'Material': 'M1', 'Horizon': 1.6}, 'B2': {'Block Names': 'block_2', 'Material': 'M2', 'Horizon': 1.6}}
        d['Boundary Conditions'] = {'Node Set A': ' '.join(str(i) for i in range(1, 9)), 'V': {'Type': 'Initial Velocity', 'Node Set': 'Node Set A', 'Coordinate': 'x', 'Value': '1.5'}}
        d = merge(d, outputs('Force_Density', 'External_Force_Density', 'Contact_Force_Density'))
        if sf is not None:
            d['Solver']['Verlet']['Safety Factor'] = sf
            dt *= sf
        r = simulate(wd, d, pts, np_)
        if not r.ok:
            return ['run failed: %s' % r]
        n = ref.nsteps(ti, tf, dt)
        if len(r.T) != n + 1:
            return ['%d output times instead of %d' % (len(r.T), n + 1)]
        bad, touched = [], False
        for s in range(n):
            for i in range(1, 17):
                rho = MAT[1 if i < 9 else 2][2]
                u0, v0, u1, v1 = (r.v(q, t, i) for q, t in (('Displacement', s), ('Velocity', s), ('Displacement', s + 1), ('Velocity', s + 1)))
                a0, a1 = ([(p + q) / rho for p, q in zip(r.v('Force_Density', t, i), r.v('External_Force_Density', t, i))] for t in (s, s + 1))
                touched |= any(abs(q) > 1e-9 for q in r.v('Contact_Force_Density', s, i))
                for k in range(3):
                    vh = v0[k] + dt / 2 * a0[k]
                    if abs(u0[k] + dt * vh - u1[k]) > 1e-10 or abs(vh + dt / 2 * a1[k] - v1[k]) > 1e-10:
                        bad.append('point %d step %d direction %d does not follow the recurrence' % (i, s + 1, k))
        return bad, n, 'contact %d %s' % (n, touched)
    return fn

def check():
    c = Check('P12')
    build('Peridigm', 'exodump')
    sw = Sweep(c)
    for bn, pts, blocks, mat in bodies():
        for ln, bc, u0, v0, f in loads(len(pts)):
            for ti, tm in enumerate(TIMES):
                for np_ in (1, 2, 3, 4):
                    sw.add('%s/%s/t%d/np%d' % (bn, ln, ti, np_), case(pts, blocks, mat, bc, u0, v0, f, tm, np_))
    for ti, tm in enumerate(((0.0, 1.0, 0.05, None), (0.0, 1.0, 0.1, 0.5), (0.5, 1.5, 0.06, None))):
        for np_ in (1, 2, 3):
            sw.add('contact/t%d/np%d' % (ti, np_), contact_case(np_, tm))
    sw.go()
    c.bounds = {'bodies': 5, 'loads': 5, 'time intervals': len(TIMES), 'processes': '1 to 4'}
    c.assumptions = ['every step of every run is compared with an independent reference simulation of the same bodies',
                     'the linear elastic model stands for the materials; material laws themselves are decided by other checks']
    return c.finish()

if __name__ == '__main__':
    main(check)
