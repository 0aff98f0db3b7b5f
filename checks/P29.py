from sim import *
import re
import P03
from models import MATERIALS, DAMAGE

# dimensions as powers of (length, time, mass)
LEN, TIME, NONE = (1, 0, 0), (0, 1, 0), (0, 0, 0)
STRESS, DENSITY = (-1, -2, 1), (-3, 0, 1)
VELOCITY, ACCELERATION, FORCE, FORCE_DENSITY = (1, -1, 0), (1, -2, 0), (1, -2, 1), (-2, -2, 1)

PARAMETER = {
    'Density': DENSITY, 'Bulk Modulus': STRESS, 'Shear Modulus': STRESS, "Young's Modulus": STRESS, 'Yield Stress': STRESS, 'Hourglass Coefficient': (-1, 0, 0), 'tau b': TIME,
    'Reference Strain Rate': (0, -1, 0), 'Actual Horizon': LEN, 'Horizon': LEN, 'Thickness': LEN,
    'Permeability': (2, 0, 0), 'Max permeability': (2, 0, 0), 'Fluid density': DENSITY, 'Fluid compressibility': (1, 2, -1), 'Fluid dynamic viscosity': (-1, -1, 1),
    'Initial Time': TIME, 'Final Time': TIME, 'Fixed dt': TIME,
    'Search Radius': LEN, 'Contact Radius': LEN, 'Spring Constant': STRESS,
    'Lower_Left_Corner_X': LEN, 'Lower_Left_Corner_Y': LEN, 'Lower_Left_Corner_Z': LEN, 'Bottom_Length': LEN, 'Side_Length': LEN, 'Center_X': LEN, 'Center_Y': LEN, 'Center_Z': LEN, 'Radius': LEN,
    'X': LEN, 'Y': LEN, 'Z': LEN, 'X Origin': LEN, 'Y Origin': LEN, 'Z Origin': LEN, 'X Length': LEN, 'Y Length': LEN, 'Z Length': LEN,
}
CONDITION = {'Initial Velocity': VELOCITY, 'Initial Displacement': LEN, 'Prescribed Displacement': LEN, 'Body Force': FORCE_DENSITY, 'Prescribed Temperature': NONE, 'Initial Temperature': NONE, 'Initial Fluid_Pressure_U': STRESS}
TOLERANCE = {'QuasiStatic': FORCE, 'NOXQuasiStatic': FORCE, 'Implicit': (-2, 0, 1)}
VARIABLE = {
    'Displacement': LEN, 'Coordinates': LEN, 'Model_Coordinates': LEN, 'Velocity': VELOCITY, 'Acceleration': ACCELERATION, 'Force': FORCE, 'Force_Density': FORCE_DENSITY, 'Contact_Force_Density': FORCE_DENSITY,
    'Contact_Force': FORCE, 'External_Force_Density': FORCE_DENSITY, 'Volume': (3, 0, 0), 'Number_Of_Neighbors': NONE, 'Neighborhood_Volume': (3, 0, 0), 'Radius': LEN, 'Element_Id': NONE,
    'Kinetic_Energy': (2, -2, 1), 'Global_Kinetic_Energy': (2, -2, 1), 'Linear_Momentum': (1, -1, 1), 'Global_Linear_Momentum': (1, -1, 1), 'Angular_Momentum': (2, -1, 1), 'Global_Angular_Momentum': (2, -1, 1),
    'Stored_Elastic_Energy': (2, -2, 1), 'Stored_Elastic_Energy_Density': STRESS, 'Deformation_Gradient': NONE, 'Dilatation': NONE, 'Weighted_Volume': (5, 0, 0), 'Damage': NONE, 'Temperature': NONE,
    'Partial_Stress': STRESS, 'Cauchy_Stress': STRESS, 'Von_Mises_Stress': STRESS, 'Equivalent_Plastic_Strain': NONE, 'Left_Stretch_Tensor': NONE, 'Rotation_Tensor': NONE, 'Lambda': None, 'Fluid_Pressure_U': STRESS,
    'Maxi': VELOCITY, 'Mini': NONE, 'Tot': FORCE_DENSITY, 'Near': LEN, 'Count': (3, 0, 0),
}
DEFGRAD = ['Deformation_Gradient' + a + b for a in 'XYZ' for b in 'XYZ']


def size(dim, U):
    r = 1.0
    for d, u in zip(dim, U):
        r *= u ** d
    return r


def function(e, dim, U):
    """A function of position and time, in the new units."""
    m = re.match(r'^\s*value\s*=(.*)$', str(e))
    e = m.group(1) if m else str(e)
    e = re.sub(r'\b([xyz])\b', lambda q: '(%s*%r)' % (q.group(1), 1 / U[0]), e)
    e = re.sub(r'\bt\b', '(t*%r)' % (1 / U[1]), e)
    return ('value = ' if m else '') + '%r*(%s)' % (size(dim, U), e)


def convert(d, U, path=()):
    r = {}
    for k, v in d.items():
        if isinstance(v, dict):
            if 'Type' in v and v['Type'] in CONDITION:
                r[k] = dict(v, Value=function(v['Value'], CONDITION[v['Type']], U))
            else:
                r[k] = convert(v, U, path + (k,))
        elif k == 'Absolute Tolerance':
            r[k] = v * size(TOLERANCE[path[-1]], U)
        elif k == 'Time Dependent Critical Stretch':
            r[k] = function(v, NONE, U)
        elif k == 'Horizon' and isinstance(v, str):
            r[k] = function(v, LEN, U)
        elif k == 'Hardening Modulus':
            r[k] = v * size(STRESS if 'Correspondence' in d['Material Model'] else (-13, -6, 3), U)
        elif k in PARAMETER and not isinstance(v, (str, bool)):
            r[k] = v * size(PARAMETER[k], U)
        else:
            r[k] = v
    return r


def dimension(name):
    if name in VARIABLE:
        return VARIABLE[name]
    for tail in ('XX', 'XY', 'XZ', 'YX', 'YY', 'YZ', 'ZX', 'ZY', 'ZZ', 'X', 'Y', 'Z'):
        if name.endswith(tail) and name[:-len(tail)].rstrip('_') in VARIABLE:
            return VARIABLE[name[:-len(tail)].rstrip('_')]
    raise CheckError('dimension of %s' % name)


def against(a, b, U, tol):
    """a in units U against b."""
    if (a.status, len(a.T)) != (b.status, len(b.T)):
        return 'status %s with %d output times against status %s with %d' % (a.status, len(a.T), b.status, len(b.T))
    for p, q in zip(a.T, b.T):
        if abs(p / U[1] - q) > 1e-9 * (1 + abs(q)):
            return 'output at time %.15g against %.15g' % (p / U[1], q)
    for kind in 'NE':
        A, B = getattr(a, kind), getattr(b, kind)
        if set(A) != set(B):
            return 'variables %s against %s' % (sorted(A), sorted(B))
        for n in A:
            dim = dimension(n)
            if dim is None:
                continue
            f = size(dim, U)
            for s in range(len(B[n])):
                P, Q = A[n][s], B[n][s]
                if set(P) != set(Q):
                    return '%s step %d: points %s against %s' % (n, s, sorted(P), sorted(Q))
                m = max([abs(x) for t in range(len(B[n])) for x in B[n][t].values()] + [1e-6])
                for g in P:
                    if not abs(P[g] / f - Q[g]) <= tol * m:
                        return '%s step %d point %d: %.15g against %.15g' % (n, s, g, P[g] / f, Q[g])
    if set(a.G) != set(b.G):
        return 'globals %s against %s' % (sorted(a.G), sorted(b.G))
    for n in a.G:
        f = size(dimension(n), U)
        for s, (p, q) in enumerate(zip(a.G[n], b.G[n])):
            if not abs(p / f - q) <= tol * max(abs(q), 1e-3):
                return 'global %s step %d: %.15g against %.15g' % (n, s, p / f, q)
    return None


TWO = [(2.0 ** a, 2.0 ** b, 2.0 ** e) for a in (-10, 0, 9) for b in (-20, 0, 7) for e in (-30, 0, 25) if (a, b, e) != (0, 0, 0)]
TEN = [(1e-3, 1.0, 1.0), (1e-3, 1e-3, 1e-6), (1e-6, 1e-6, 1e-15), (100.0, 1.0, 1000.0), (1.0, 1e-3, 1e6)]


def units(make, systems, tol=1e-7, np_=1, ignore=(), plain=()):
    def fn(wd):
        d, pts = make()
        r = simulate(os.path.join(wd, 'base'), d, pts, np_)
        if not r.ok:
            return ['run failed: %s' % r], 1, ''
        bad = []
        for k, U in enumerate(systems):
            e = convert(d, U)
            for m in d['Materials']:
                for v in plain:
                    e['Materials'][m][v] = d['Materials'][m][v]
            q = None if pts is None else [(p[0] * U[0], p[1] * U[0], p[2] * U[0], p[3], p[4] * U[0] ** 3) for p in pts]
            a = simulate(os.path.join(wd, 'u%d' % k), e, q, np_)
            for kind in ('N', 'E', 'G'):
                for v in ignore:
                    getattr(a, kind).pop(v, None)
                    getattr(r, kind).pop(v, None)
            if not a.ok:
                bad.append('length x %g, time x %g, mass x %g: run failed: %s' % (U + (a,)))
                continue
            m = against(a, r, U, tol)
            if m:
                bad.append('length x %g, time x %g, mass x %g: %s' % (U + (m,)))
        return bad, len(systems) * len(r.T), ''
    return fn


PLANE = {'Type': 'Rectangular_Plane', 'Normal_X': 1.0, 'Normal_Y': 0.0, 'Normal_Z': 0.0, 'Lower_Left_Corner_X': 0.55, 'Lower_Left_Corner_Y': -0.5, 'Lower_Left_Corner_Z': -0.5, 'Bottom_Unit_Vector_X': 0.0, 'Bottom_Unit_Vector_Y': 1.0,
         'Bottom_Unit_Vector_Z': 0.0, 'Bottom_Length': 1.1, 'Side_Length': 9.0}
DISK = {'Type': 'Disk', 'Center_X': 0.5, 'Center_Y': 0.3, 'Center_Z': 0.4, 'Normal_X': 0.6, 'Normal_Y': 0.8, 'Normal_Z': 0.0, 'Radius': 0.7}


def cut(shape, layout, filters):
    d, pts = P03.setup(shape, layout, 'elastic')
    d['Discretization'] = dict(d['Discretization'], **{'Bond Filters': filters})
    return d, pts


def horizons(shape, layout, e):
    d, pts = P03.setup(shape, layout, 'corr')
    for k, b in enumerate(d['Blocks'].values()):
        b['Horizon'] = e if k == 0 else '0.2+' + e
    return d, pts


def heat(shape, layout, linear):
    pts = P03.blocks(P03.body(shape), layout)
    d = base()
    bl = sorted({p[3] for p in pts})
    d['Materials'] = {'M%d' % b: {'Material Model': 'Diffusion', 'Coefficient': 0.7 + 0.3 * k, 'Density': 1.0} for k, b in enumerate(bl)}
    d['Blocks'] = {'B%d' % b: {'Block Names': 'block_%d' % b, 'Material': 'M%d' % b, 'Horizon': 1.9} for b in bl}
    bc = {'Node Set all': ' '.join(str(i + 1) for i in range(len(pts))), 'Node Set a': '1', 'Node Set b': '%d' % len(pts)}
    bc['I'] = {'Type': 'Initial Temperature', 'Node Set': 'Node Set all', 'Value': '3+x'}
    bc['A'] = {'Type': 'Prescribed Temperature', 'Node Set': 'Node Set a', 'Value': '7+t'}
    bc['B'] = {'Type': 'Prescribed Temperature', 'Node Set': 'Node Set b', 'Value': '(2+y)*t*t'}
    d['Boundary Conditions'] = bc
    d['Solver'] = {'Verbose': False, 'Initial Time': 0.0, 'Final Time': 1.0, 'Solve For Displacement': False, 'Solve For Temperature': True, 'Solve For Pressure': False,
                   'ImplicitDiffusion': {'Number of Load Steps': 3, 'Relative Tolerance': 1e-10, 'Maximum Solver Iterations': 20, 'Belos Linear Solver': linear, 'Belos Relative Tolerance': 1e-11}}
    d['Output']['Output Variables'] = {'Temperature': True, 'Volume': True}
    return d, pts


def check():
    c = Check('P29')
    build('Peridigm', 'exodump')
    sw = Sweep(c)
    S = TWO + TEN

    def some(k):
        return S if THOROUGH else [u for i, u in enumerate(S) if i % 2 == k % 2]
    k = 0
    for mat, (_, _, dam, full) in MATERIALS.items():
        for shape in ('cube', 'brick') if full else ('cube', 'brick', 'slab', 'line4'):
            for layout in ('one', 'mixed'):
                k += 1
                us = some(k)
                if mat == 'pals':
                    sw.add('length/pals/%s/%s' % (shape, layout), units(lambda a=(shape, layout, mat): P03.setup(*a), [u for u in us if u[0] != 1]))
                    us = [u for u in S if u[0] == 1]
                sw.add('material/%s/%s/%s' % (mat, shape, layout), units(lambda a=(shape, layout, mat): P03.setup(*a), us))
                if mat.startswith('corr'):
                    sw.add('length/hourglass/%s/%s/%s' % (mat, shape, layout), units(lambda a=(shape, layout, mat): P03.setup(*a), [(2.0 ** -10, 1.0, 1.0), (512.0, 1.0, 1.0)], plain=('Hourglass Coefficient',)))
        if dam:
            for dm in DAMAGE:
                k += 1
                sw.add('damage/%s/%s' % (mat, dm), units(lambda a=('brick', 'mixed', mat, dm): P03.setup(*a, amp=1.0), some(k)))
    for shape in ('brick', 'slab', 'line5'):
        for fr in (0.0, 0.3):
            k += 1
            sw.add('contact/%s/friction%g' % (shape, fr), units(lambda a=(shape, 'one', fr, 1): P03.contact(*a), some(k)))
    for shape in ('cube', 'brick', 'slab', 'line3'):
        for layout in ('one', 'three'):
            k += 1
            sw.add('derived/%s/%s' % (shape, layout), units(lambda a=(shape, layout): P03.samples(*a), some(k), ignore=DEFGRAD if shape == 'line3' else ()))
    for shape in ('cube', 'brick'):
        for s in ('Verlet', 'Verlet-auto', 'QuasiStatic', 'NOX', 'Implicit'):
            for layout in ('one', 'mixed'):
                k += 1
                sw.add('solver/%s/%s/%s' % (s, shape, layout), units(lambda a=(shape, layout, s): P03.forced(*a), some(k), 1e-7 if s.startswith('Verlet') else 1e-5))
    for n in ((2, 2, 1), (3, 2, 2), (4, 1, 1)):
        k += 1
        sw.add('grid/%dx%dx%d' % n, units(lambda n=n: P03.grid(n, 'box'), some(k)))
    for shape in ('cube', 'brick', 'slab'):
        for layout in ('one', 'mixed'):
            for f, fl in (('plane', {'a': PLANE}), ('disk', {'a': DISK}), ('both', {'a': PLANE, 'b': DISK})):
                k += 1
                sw.add('filter/%s/%s/%s' % (f, shape, layout), units(lambda a=(shape, layout, fl): cut(*a), some(k)))
            for h, e in (('linear', '1.6 + 0.4*x'), ('square', '1.7+0.2*x*x+0.1*y')) if shape != 'slab' else ():
                k += 1
                sw.add('horizon/%s/%s/%s' % (h, shape, layout), units(lambda a=(shape, layout, e): horizons(*a), some(k)))
            for linear in ('BlockCG', 'BlockGMRES'):
                k += 1
                sw.add('heat/%s/%s/%s' % (linear, shape, layout), units(lambda a=(shape, layout, linear): heat(*a), some(k), 1e-6))
    for mat in ('elastic', 'plastic', 'corr', 'fluid', 'ba'):
        k += 1
        sw.add('parallel/%s' % mat, units(lambda a=('brick', 'mixed', mat): P03.setup(*a), some(k), np_=2))
    sw.go()
    c.bounds = {'unit systems': 'length x 2^-10, 1, 2^9; time x 2^-20, 1, 2^7; mass x 2^-30, 1, 2^25 (all combinations) and five decimal systems; in the quick tier every second one for each problem, alternating',
                'problems': 'every material on bodies of 2 to 12 points with one or several blocks, every damage model, contact with and without friction, every derived quantity, explicit (fixed and automatic step), static (both solvers), implicit and diffusion solvers, generated grids, pre-cracks, horizons given as functions, two processes'}
    c.assumptions = ['outside the cases length/hourglass the hourglass coefficient is converted like an inverse length, so that the known unit dependence of the hourglass force does not hide others', 'temperature is not rescaled', 'quantities that have no value in exact arithmetic (deformation gradient of points whose neighbors lie on a line) are left out',
                     'differences count from 1e-7 of the largest value (1e-5 for iterative solvers)']
    return c.finish()


if __name__ == '__main__':
    main(check)
