from sim import *
from models import MATERIALS, DAMAGE

PRIMARY = ['Displacement', 'Velocity', 'Force', 'Force_Density', 'Volume', 'Number_Of_Neighbors', 'Kinetic_Energy', 'Global_Kinetic_Energy', 'Global_Linear_Momentum', 'Global_Angular_Momentum', 'Element_Id']
DT = 0.04


def body(name):
    """Points of small bodies; the order in the file is not the order in space."""
    r = []
    if name.startswith('line'):
        r = [(1.0 * i + 0.05 * jit(i, 1), 0.1 * jit(i, 2), 0.1 * jit(i, 3), 1, 1 + 0.2 * jit(i, 4)) for i in range(int(name[4:]))]
    else:
        L = {'cube': (2, 2, 2), 'brick': (3, 2, 2), 'slab': (4, 3, 1), 'full': (3, 3, 3)}[name]
        r = [(p[0], p[1], p[2], 1, p[4]) for p in lattice(*L, jitter=0.1, vols=True)]
    n = len(r)
    k = next(k for k in (7, 5, 11, 13, 3, 2, 1) if __import__('math').gcd(k, n) == 1)
    return [r[(i * k) % n] for i in range(n)]


def blocks(pts, layout):
    n = len(pts)
    X = sorted(p[0] for p in pts)
    f = {'one': lambda i, p: 1, 'mixed': lambda i, p: 1 + i % 2, 'sides': lambda i, p: 1 + (p[0] > 0.5 * (X[0] + X[-1])), 'single': lambda i, p: 2 if i == n // 2 else 1,
         'three': lambda i, p: 1 + i % 3, 'sparse': lambda i, p: 7 if i % 4 == 1 else 3}[layout]
    return [(p[0], p[1], p[2], f(i, p), p[4]) for i, p in enumerate(pts)]


def bcs(n, amp=0.5, extra=None):
    d = {}
    for i in range(n):
        d['Node Set %d' % (i + 1)] = '%d' % (i + 1)
        for k in range(3):
            d['V%d%d' % (i, k)] = {'Type': 'Initial Velocity', 'Node Set': 'Node Set %d' % (i + 1), 'Coordinate': 'xyz'[k], 'Value': '%.17g' % (amp * jit(i, 60 + k))}
    d['Node Set all'] = ' '.join(str(i + 1) for i in range(n))
    d.update(extra or {})
    return d


def setup(shape, layout, mat, dmg=None, steps=5, amp=0.5, horizon=1.9, influence=None):
    pts = blocks(body(shape), layout)
    par, state, _, _ = MATERIALS[mat]
    d = base()
    name = 'Multiphysics M' if mat == 'fluid' else 'M'
    d['Materials'] = {name: dict(par)}
    d['Blocks'] = {}
    bl = sorted({p[3] for p in pts})
    for q, b in enumerate(bl):
        h = horizon + (0.2 * q if mat not in ('hypo', 'hypo-plastic') else 0.0)
        d['Blocks']['B%d' % b] = {'Block Names': 'block_%d' % b, 'Material': name, 'Horizon': h}
        if dmg:
            d['Blocks']['B%d' % b]['Damage Model'] = 'D'
    if dmg:
        d['Damage Models'] = {'D': DAMAGE[dmg]}
    d['Boundary Conditions'] = bcs(len(pts), amp)
    if dmg == 'interface':
        d['Boundary Conditions']['Create Node Set For Rank Deficient Nodes'] = True
    d['Solver'] = {'Verbose': False, 'Initial Time': 0.0, 'Final Time': steps * DT, 'Verlet': {'Fixed dt': DT}}
    d['Output']['Output Variables'] = {v: True for v in PRIMARY + state + (['Damage'] if dmg else [])}
    if mat == 'thermal':
        d['Boundary Conditions']['T'] = {'Type': 'Prescribed Temperature', 'Node Set': 'Node Set all', 'Value': '20*t*(1+x-y)'}
    if mat == 'fluid':
        d['Multiphysics'] = 1
        d['Output']['Output Variables']['Fluid_Pressure_U'] = True
        for i in range(len(pts)):
            d['Boundary Conditions']['P%d' % i] = {'Type': 'Initial Fluid_Pressure_U', 'Node Set': 'Node Set %d' % (i + 1), 'Value': '%.15g' % (1 + jit(i, 44))}
    return d, pts


def same(make, counts, tol=1e-9, ignore=()):
    def fn(wd):
        d, pts = make()
        R = simulate(os.path.join(wd, 'np1'), d, pts, 1)
        if not R.ok:
            return ['run on one process failed: %s' % R], 1, ''
        bad = []
        moved = max([abs(x) for c in 'XYZ' for x in R.N.get('Displacement' + c, [{0: 0}])[-1].values()] + [0])
        for np_ in counts:
            r = simulate(os.path.join(wd, 'np%d' % np_), d, pts, np_)
            if not r.ok:
                bad.append('run on %d processes failed: %s' % (np_, str(r)[-300:]))
                continue
            for kind in ('N', 'E', 'G'):
                for v in ignore:
                    getattr(r, kind).pop(v, None)
                    getattr(R, kind).pop(v, None)
            q = differ(r, R, tol)
            if q:
                bad.append('%d processes against one: %s' % (np_, q))
            if r.dup:
                bad.append('%d processes: points %s are written twice' % (np_, r.dup))
        return bad, len(counts) * len(R.T), '%.3g' % moved
    return fn


def contact(shape, layout, friction, freq):
    d, pts = setup(shape, layout, 'elastic', 'stretch', steps=8, amp=2.0)
    d['Contact'] = {'Search Radius': 1.5, 'Search Frequency': freq, 'Models': {'C': {'Contact Model': 'Short Range Force', 'Contact Radius': 0.9, 'Spring Constant': 20.0, 'Friction Coefficient': friction}},
                    'Interactions': {'I': {'First Block': 'block_1', 'Second Block': 'block_1', 'Contact Model': 'C'}}}
    d['Output']['Output Variables'].update({'Contact_Force_Density': True})
    return d, pts


def samples(shape, layout):
    """Everything that is computed for output."""
    d, pts = setup(shape, layout, 'elastic', 'stretch')
    for v in ('Deformation_Gradient', 'Global_Kinetic_Energy', 'Global_Angular_Momentum', 'Global_Linear_Momentum', 'Stored_Elastic_Energy', 'Stored_Elastic_Energy_Density', 'Radius', 'Neighborhood_Volume',
              'Acceleration', 'Linear_Momentum', 'Angular_Momentum', 'Coordinates', 'Model_Coordinates', 'External_Force_Density', 'Maxi', 'Mini', 'Tot', 'Near', 'Count'):
        d['Output']['Output Variables'][v] = True
    b = 'block_%d' % pts[0][3]
    d['Compute Class Parameters'] = {
        'a': {'Compute Class': 'Block_Data', 'Calculation Type': 'Maximum', 'Block': b, 'Variable': 'Velocity', 'Output Label': 'Maxi'},
        'b': {'Compute Class': 'Block_Data', 'Calculation Type': 'Minimum', 'Block': b, 'Variable': 'Dilatation', 'Output Label': 'Mini'},
        'c': {'Compute Class': 'Block_Data', 'Calculation Type': 'Sum', 'Block': b, 'Variable': 'Force_Density', 'Output Label': 'Tot'},
        'd': {'Compute Class': 'Nearest_Point_Data', 'X': 0.4, 'Y': 0.7, 'Z': 0.2, 'Variable': 'Displacement', 'Output Label': 'Near', 'Verbose': False},
        'e': {'Compute Class': 'Nearest_Point_Data', 'X': 1.4, 'Y': 0.1, 'Z': 0.9, 'Variable': 'Volume', 'Output Label': 'Count', 'Verbose': False}}
    return d, pts


def forced(shape, layout, solver, mat='elastic', dmg=None):
    d, pts = setup(shape, layout, mat, dmg, amp=0.0)
    lo = min(p[0] for p in pts)
    hi = max(p[0] for p in pts)
    bc = {'Node Set L': ' '.join(str(i + 1) for i, p in enumerate(pts) if p[0] < lo + 0.4), 'Node Set R': ' '.join(str(i + 1) for i, p in enumerate(pts) if p[0] > hi - 0.4), 'Node Set all': ' '.join(str(i + 1) for i in range(len(pts)))}
    for k in 'xyz':
        bc['hold' + k] = {'Type': 'Prescribed Displacement', 'Node Set': 'Node Set L', 'Coordinate': k, 'Value': '0.0'}
    bc['pull'] = {'Type': 'Prescribed Displacement', 'Node Set': 'Node Set R', 'Coordinate': 'x', 'Value': '0.1*t'}
    bc['load'] = {'Type': 'Body Force', 'Node Set': 'Node Set R', 'Coordinate': 'y', 'Value': '0.05*t*(1+z)'}
    if dmg == 'interface':
        bc['Create Node Set For Rank Deficient Nodes'] = True
    d['Boundary Conditions'] = bc
    d['Solver'] = {'Verbose': False, 'Initial Time': 0.0, 'Final Time': 1.0}
    d['Solver'].update({
        'Verlet': {'Verlet': {'Fixed dt': 0.1}},
        'Verlet-auto': {'Verlet': {'Safety Factor': 0.7}},
        'QuasiStatic': {'QuasiStatic': {'Number of Load Steps': 3, 'Absolute Tolerance': 1e-11, 'Maximum Solver Iterations': 40, 'Belos Relative Tolerance': 1e-9}},
        'NOX': {'NOXQuasiStatic': {'Nonlinear Solver': 'Line Search Based', 'Number of Load Steps': 3, 'Absolute Tolerance': 1e-11, 'Max Solver Iterations': 40, 'Direction': {'Method': 'Newton', 'Newton': {'Linear Solver': {'Jacobian Operator': 'Analytic', 'Preconditioner': 'None', 'Tolerance': 1e-10}}}, 'Line Search': {'Method': 'Full Step'}}},
        'Implicit': {'Implicit': {'Fixed dt': 0.2, 'Absolute Tolerance': 1e-12, 'Maximum Solver Iterations': 20}},
    }[solver])
    return d, pts


def grid(n, kind):
    d = base()
    if kind == 'box':
        g = {'Type': 'PdQuickGrid', 'NeighborhoodType': 'Spherical', 'TensorProduct3DMeshGenerator': {'Type': 'PdQuickGrid', 'X Origin': -0.3, 'Y Origin': 0.2, 'Z Origin': 0.0, 'X Length': 1.0 * n[0], 'Y Length': 1.0 * n[1], 'Z Length': 1.1 * n[2], 'Number Points X': n[0], 'Number Points Y': n[1], 'Number Points Z': n[2]}}
    d['Discretization'] = g
    d['Blocks']['B']['Horizon'] = 1.7
    N = n[0] * n[1] * n[2]
    d['Boundary Conditions'] = bcs(N)
    d['Output']['Output Variables'] = {v: True for v in PRIMARY}
    return d, None


def check():
    c = Check('P03')
    build('Peridigm', 'exodump')
    sw = Sweep(c)
    wide = (2, 3, 4, 6, 8) if THOROUGH else (2, 3, 4)
    for mat, (_, _, dam, full) in MATERIALS.items():
        for shape in ('cube', 'brick', 'full') if full else ('cube', 'brick', 'slab'):
            for layout in ('one', 'mixed', 'sides', 'single', 'sparse') if shape != 'full' or THOROUGH else ('one', 'mixed'):
                sw.add('material/%s/%s/%s' % (mat, shape, layout), same(lambda a=(shape, layout, mat): setup(*a), wide))
        if dam:
            for dm in DAMAGE:
                for shape in ('brick', 'slab'):
                    for layout in ('one', 'mixed', 'sides', 'three'):
                        if THOROUGH or shape == 'brick' or layout in ('one', 'three'):
                            sw.add('damage/%s/%s/%s/%s' % (mat, dm, shape, layout), same(lambda a=(shape, layout, mat, dm): setup(*a, amp=1.0), wide))
    for n in range(2, 9):
        for layout in ('one', 'mixed', 'single'):
            sw.add('few/%d/%s' % (n, layout), same(lambda a=('line%d' % n, layout, 'elastic', 'stretch'): setup(*a), range(2, n + 1)))
    for shape in ('brick', 'slab', 'line5'):
        for layout in ('one', 'mixed', 'sides', 'single'):
            for fr in (0.0, 0.3):
                for freq in (1, 3):
                    sw.add('contact/%s/%s/friction%g/every%d' % (shape, layout, fr, freq), same(lambda a=(shape, layout, fr, freq): contact(*a), wide))
    for shape in ('cube', 'brick', 'slab', 'full', 'line3'):
        for layout in ('one', 'mixed', 'sides', 'single', 'three', 'sparse'):
            sw.add('derived/%s/%s' % (shape, layout), same(lambda a=(shape, layout): samples(*a), [w for w in wide if w <= len(body(shape))]))
    for shape in ('cube', 'brick', 'full'):
        for layout in ('one', 'mixed', 'sides', 'single'):
            for s in ('Verlet', 'Verlet-auto', 'QuasiStatic', 'NOX', 'Implicit'):
                sw.add('solver/%s/%s/%s' % (s, shape, layout), same(lambda a=(shape, layout, s): forced(*a), wide, 1e-9 if s.startswith('Verlet') else 1e-6, ignore=('VelocityX', 'VelocityY', 'VelocityZ')))
                if s == 'QuasiStatic':
                    for dm in DAMAGE:
                        sw.add('broken/%s/%s/%s' % (dm, shape, layout), same(lambda a=(shape, layout, s, 'elastic', dm): forced(*a), wide, 1e-6, ignore=('VelocityX', 'VelocityY', 'VelocityZ')))
    for a in (1, 2, 3, 4):
        for b in (1, 2, 3):
            for q in (1, 2):
                if a * b * q > 1:
                    sw.add('grid/%dx%dx%d' % (a, b, q), same(lambda n=(a, b, q): grid(n, 'box'), [w for w in (2, 3, 4) if w <= a * b * q]))
    sw.go()
    c.bounds = {'materials': len(MATERIALS), 'damage models': len(DAMAGE), 'bodies': 'up to 27 points', 'block layouts': 6, 'processes': '1 to %d, never more than points' % (8 if THOROUGH else 4), 'solvers': 5}
    c.assumptions = ['the partition is the one the load balancer makes for the process count']
    return c.finish()


if __name__ == '__main__':
    main(check)
