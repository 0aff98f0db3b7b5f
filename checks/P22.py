import itertools
from sim import *
import P03

# density, bulk modulus, shear modulus, horizon
KINDS = {'a': (2.0, 10.0, 6.0, 1.9), 'heavy': (9.0, 10.0, 6.0, 1.9), 'stiff': (2.0, 55.0, 20.0, 1.9), 'wide': (2.0, 10.0, 6.0, 2.6), 'narrow': (2.0, 10.0, 6.0, 1.15), 'loose': (1e-3, 10.0, 6.0, 0.3), 'soft': (3.0, 0.2, 0.1, 2.2)}


def estimate(pts, kind, horizon=None, cut=None):
    """kind[i] = (density, bulk modulus, -, horizon) of point i."""
    best = 1e50
    for i, p in enumerate(pts):
        d = kind[i][3] if horizon is None else horizon(*p[:3])
        c = 18 * kind[i][1] / (math.pi * d ** 4)
        s = 0.0
        for j, q in enumerate(pts):
            r = math.dist(p[:3], q[:3])
            if abs(r - d) < 1e-9 * d:
                raise CheckError('pair of points at the horizon')
            if j != i and r < d and not (cut and cut(p, q)):
                s += q[4] * c / r
        if s > 0:
            best = min(best, math.sqrt(2 * kind[i][0] / s))
    return best


def judge(r, dt, t0, n):
    if not r.ok:
        return ['run failed: %s' % r]
    if len(r.T) != n + 1:
        return ['%d time steps instead of %d of %.9g (output times %s)' % (len(r.T) - 1, n, dt, r.T[:3])]
    for i, t in enumerate(r.T):
        if not abs(t - (t0 + i * dt)) <= 1e-10 * (abs(t0) + n * dt):
            return ['step %d ends at %.12g instead of %.12g, estimate of the time step %.12g' % (i, t, t0 + i * dt, dt)]
    return []


def case(shape, layout, kinds, np_, safety=None, fixed=None, t0=0.0, n=3, horizon=None, filters=None, cut=None, pts=None, mat=None, infl=None):
    def fn(wd):
        P = P03.blocks(P03.body(shape), layout) if pts is None else pts
        bl = sorted({p[3] for p in P})
        K = {b: KINDS[kinds[q % len(kinds)]] for q, b in enumerate(bl)}
        d = base()
        d['Materials'], d['Blocks'] = {}, {}
        for b in bl:
            d['Materials']['M%d' % b] = mat(K[b]) if mat else {'Material Model': 'Elastic', 'Density': K[b][0], 'Bulk Modulus': K[b][1], 'Shear Modulus': K[b][2]}
            d['Blocks']['B%d' % b] = {'Block Names': 'block_%d' % b, 'Material': 'M%d' % b, 'Horizon': K[b][3] if horizon is None else horizon[0]}
        if filters:
            d['Discretization']['Bond Filters'] = filters
        dt = estimate(P, [K[p[3]] for p in P], horizon and horizon[1], cut)
        if fixed:
            dt = fixed
        v = {}
        if fixed:
            v['Fixed dt'] = fixed
        if safety:
            v['Safety Factor'] = safety
            dt *= safety
        end = n + 0.5
        d['Solver'] = {'Verbose': False, 'Initial Time': t0, 'Final Time': t0 + end * dt if dt < 1e40 else t0 + 1.0, 'Verlet': v}
        d['Output']['Output Variables'] = {'Displacement': True}
        r = simulate(wd, d, P, np_)
        return judge(r, dt, t0, n if dt < 1e40 else 0), n, '%.6g' % dt
    return fn


PLANE = {'f': {'Type': 'Rectangular_Plane', 'Normal_X': 1.0, 'Normal_Y': 0.0, 'Normal_Z': 0.0, 'Lower_Left_Corner_X': 0.5, 'Lower_Left_Corner_Y': -20.0, 'Lower_Left_Corner_Z': 20.0,
               'Bottom_Unit_Vector_X': 0.0, 'Bottom_Unit_Vector_Y': 1.0, 'Bottom_Unit_Vector_Z': 0.0, 'Bottom_Length': 40.0, 'Side_Length': 40.0}}
FUNC = {'linear': ('1.7 + 0.15*x', lambda x, y, z: 1.7 + 0.15 * x), 'mixed': ('2.3 - 0.12*x + 0.1*y*z', lambda x, y, z: 2.3 - 0.12 * x + 0.1 * y * z)}
WAYS = {
    'young-poisson': lambda k: {'Material Model': 'Elastic', 'Density': k[0], "Young's Modulus": 9 * k[1] * k[2] / (3 * k[1] + k[2]), "Poisson's Ratio": (3 * k[1] - 2 * k[2]) / (2 * (3 * k[1] + k[2]))},
    'bulk-poisson': lambda k: {'Material Model': 'Elastic', 'Density': k[0], 'Bulk Modulus': k[1], "Poisson's Ratio": (3 * k[1] - 2 * k[2]) / (2 * (3 * k[1] + k[2]))},
    'shear-young': lambda k: {'Material Model': 'Elastic', 'Density': k[0], "Young's Modulus": 9 * k[1] * k[2] / (3 * k[1] + k[2]), 'Shear Modulus': k[2]},
    'bond-based': lambda k: {'Material Model': 'Elastic Bond Based', 'Density': k[0], 'Bulk Modulus': k[1]},
    'plastic': lambda k: {'Material Model': 'Elastic Plastic', 'Density': k[0], 'Bulk Modulus': k[1], 'Shear Modulus': k[2], 'Yield Stress': 1.0},
    'viscoelastic': lambda k: {'Material Model': 'Viscoelastic', 'Density': k[0], 'Bulk Modulus': k[1], 'Shear Modulus': k[2], 'lambda_i': 0.6, 'tau b': 2.0},
    'correspondence': lambda k: {'Material Model': 'Elastic Correspondence', 'Density': k[0], 'Bulk Modulus': k[1], 'Shear Modulus': k[2], 'Hourglass Coefficient': 0.1},
}


def grid(n, np_, h, safety):
    def fn(wd):
        d = base()
        L = (1.0 * n[0], 1.2 * n[1], 0.9 * n[2])
        d['Discretization'] = {'Type': 'PdQuickGrid', 'NeighborhoodType': 'Spherical', 'TensorProduct3DMeshGenerator': {'Type': 'PdQuickGrid', 'X Origin': -0.3, 'Y Origin': 0.2, 'Z Origin': 0.0, 'X Length': L[0], 'Y Length': L[1], 'Z Length': L[2],
                                                                                                                       'Number Points X': n[0], 'Number Points Y': n[1], 'Number Points Z': n[2]}}
        d['Blocks']['B']['Horizon'] = h
        P = [(1.0 * i, 1.2 * j, 0.9 * k, 1, 1.08) for i in range(n[0]) for j in range(n[1]) for k in range(n[2])]
        dt = estimate(P, [(2.0, 10.0, 6.0, h)] * len(P)) * safety
        d['Solver'] = {'Verbose': False, 'Initial Time': 0.0, 'Final Time': 3.5 * dt, 'Verlet': {'Safety Factor': safety}}
        return judge(simulate(wd, d, None, np_), dt, 0.0, 3), 3, '%.6g' % dt
    return fn


def check():
    c = Check('P22')
    build('Peridigm', 'exodump')
    sw = Sweep(c)
    pairs = list(itertools.permutations(KINDS, 2))
    for np_ in (1, 2, 3, 4):
        for layout in ('mixed', 'sides', 'single', 'sparse'):
            for a, b in pairs:
                for shape in ('brick', 'slab', 'cube'):
                    if THOROUGH or shape == 'brick' and (np_ != 2 or layout == 'sides') or np_ == 3 and layout == 'single':
                        sw.add('blocks/%s/%s/%s-%s/np%d' % (shape, layout, a, b, np_), case(shape, layout, (a, b), np_))
        for k in KINDS:
            for shape in ('line5', 'cube', 'brick', 'slab', 'full'):
                for s in (None, 1.0, 0.7, 0.25):
                    sw.add('one/%s/%s/safety%s/np%d' % (shape, k, s, np_), case(shape, 'one', (k,), np_, s))
        for trio in itertools.permutations(('a', 'stiff', 'narrow', 'loose'), 3):
            for layout in ('three',):
                for s in (None, 0.6):
                    sw.add('three/%s/safety%s/np%d' % ('-'.join(trio), s, np_), case('brick', layout, trio, np_, s))
        for f in (0.003, 0.5, 7.0):
            for s in (None, 0.5, 1.0, 2.0):
                for t0 in (0.0, 1.3):
                    sw.add('fixed/%g/safety%s/start%g/np%d' % (f, s, t0, np_), case('cube', 'mixed', ('a', 'stiff'), np_, s, fixed=f, t0=t0))
        for name, h in FUNC.items():
            for layout in ('one', 'mixed', 'sides'):
                for ks in (('a',), ('stiff', 'heavy')):
                    sw.add('function/%s/%s/%s/np%d' % (name, layout, ks[0], np_), case('full', layout, ks, np_, horizon=h, mat=WAYS['correspondence'], n=2))
        for shape in ('brick', 'slab', 'line5'):
            for layout in ('one', 'sides'):
                for ks in (('a',), ('wide', 'narrow')):
                    sw.add('filter/%s/%s/%s/np%d' % (shape, layout, ks[0], np_), case(shape, layout, ks, np_, filters=PLANE, cut=lambda p, q: (p[0] - 0.5) * (q[0] - 0.5) < 0))
        for w, m in WAYS.items():
            for ks in (('a', 'stiff'), ('soft', 'heavy')):
                sw.add('given/%s/%s/np%d' % (w, ks[0], np_), case('full', 'sides', ks, np_, 0.5, mat=m, n=2))
        for size in (0.01, 30.0):
            P = [(p[0] * size, p[1] * size, p[2] * size, p[3], p[4] * size ** 3) for p in P03.blocks(P03.body('brick'), 'one')]
            def scaled(wd, P=P, size=size, np_=np_):
                k = (2.0, 10.0, 6.0, 1.9 * size)
                dt = estimate(P, [k] * len(P))
                d = base()
                d['Blocks']['B']['Horizon'] = 1.9 * size
                d['Solver'] = {'Verbose': False, 'Initial Time': 0.0, 'Final Time': 3.5 * dt, 'Verlet': {}}
                return judge(simulate(wd, d, P, np_), dt, 0.0, 3), 3, '%.6g' % dt
            sw.add('scaled/%g/np%d' % (size, np_), scaled)
        for n in ((2, 2, 2), (3, 2, 1), (4, 3, 2), (5, 1, 1)):
            for h in (1.3, 2.05):
                for s in (1.0, 0.4):
                    sw.add('grid/%dx%dx%d/horizon%g/safety%g/np%d' % (*n, h, s, np_), grid(n, np_, h, s))
    sw.go()
    c.bounds = {'materials per block': len(KINDS), 'bodies': 'up to 27 points', 'block layouts': 6, 'processes': '1 to 4', 'safety factors': '0.25 to 2 or none'}
    c.assumptions = ['the time step is read off the output times']
    return c.finish()


if __name__ == '__main__':
    main(check)
