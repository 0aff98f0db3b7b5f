from sim import *

NODE3 = ['Displacement', 'Velocity', 'Coordinates', 'Model_Coordinates', 'Force_Density', 'External_Force_Density', 'Force', 'Acceleration', 'Linear_Momentum']
NODE1 = ['Temperature_Change']
ELEM1 = ['Volume', 'Horizon', 'Element_Id', 'Proc_Num', 'Damage', 'Weighted_Volume', 'Dilatation', 'Number_Of_Neighbors', 'Radius', 'Kinetic_Energy']
ELEM9 = ['Deformation_Gradient', 'Cauchy_Stress', 'Left_Stretch_Tensor']
GLOB1 = ['Global_Kinetic_Energy', 'Total']
GLOB3 = ['Largest']
ALL = NODE3 + NODE1 + ELEM1 + ELEM9 + GLOB1 + GLOB3
ONLY = {'Weighted_Volume': [1], 'Dilatation': [1], 'Cauchy_Stress': [3], 'Left_Stretch_Tensor': [3], 'Damage': [1]}
HOR = {1: 1.7, 3: 1.9}
N = 12
DT = 0.02


def points(layout='mixed'):
    r = []
    for i, p in enumerate(lattice(3, 2, 2, jitter=0.12, vols=True)):
        b = {'mixed': 3 if i % 3 == 1 else 1, 'halves': 1 if i < N // 2 else 3, 'last': 1 if i < N - 1 else 3, 'swapped': 3 if i < N // 2 else 1, 'one': 1}[layout]
        r.append((p[0], p[1], p[2], b, p[4]))
    return r


def U0(i, k):
    return 0.03 * jit(i, 60 + k)


def V0(i, k):
    return 0.2 * jit(i, 70 + k)


SOLVERS = {
    'Verlet': lambda n: {'Final Time': 1.0 + n * DT, 'Verlet': {'Fixed dt': DT}},
    'QuasiStatic': lambda n: {'Final Time': 1.0 + n * DT, 'QuasiStatic': {'Number of Load Steps': n, 'Absolute Tolerance': 1e-9, 'Maximum Solver Iterations': 20}},
    'Implicit': lambda n: {'Final Time': 1.0 + n * DT, 'Implicit': {'Fixed dt': DT, 'Absolute Tolerance': 1e-9, 'Maximum Solver Iterations': 20, 'Beta': 0.25, 'Gamma': 0.5}},
}


def deck(solver='Verlet', n=7, layout='mixed'):
    pts = points(layout)
    d = base()
    d['Solver'] = dict({'Verbose': False, 'Initial Time': 1.0}, **SOLVERS[solver](n))
    d['Materials'] = {'M': {'Material Model': 'Elastic', 'Density': 2.0, 'Bulk Modulus': 10.0, 'Shear Modulus': 6.0, 'Thermal Expansion Coefficient': 0.001},
                      'C': {'Material Model': 'Elastic Correspondence', 'Density': 3.0, 'Bulk Modulus': 9.0, 'Shear Modulus': 5.0, 'Hourglass Coefficient': 0.02, 'Thermal Expansion Coefficient': 0.002}}
    d['Damage Models'] = {'D': {'Damage Model': 'Critical Stretch', 'Critical Stretch': 0.06}}
    d['Blocks'] = {'A': {'Block Names': 'block_1', 'Material': 'M', 'Horizon': HOR[1], 'Damage Model': 'D'}}
    if layout != 'one':
        d['Blocks']['B'] = {'Block Names': 'block_3', 'Material': 'C', 'Horizon': HOR[3]}
    else:
        del d['Materials']['C']
    if solver != 'Verlet':
        # static and implicit solutions are followed with a plain elastic body
        d['Materials'] = {'M': {'Material Model': 'Elastic', 'Density': 2.0, 'Bulk Modulus': 10.0, 'Shear Modulus': 6.0}}
        del d['Damage Models'], d['Blocks']['A']['Damage Model']
        if 'B' in d['Blocks']:
            d['Blocks']['B']['Material'] = 'M'
    bc = {}
    for i in range(N):
        s = 'Node Set %d' % (i + 1)
        bc[s] = '%d' % (i + 1)
        for k in range(3):
            if solver == 'Verlet':
                bc['U%d%d' % (i, k)] = {'Type': 'Initial Displacement', 'Node Set': s, 'Coordinate': 'xyz'[k], 'Value': '%.17g' % U0(i, k)}
            if solver != 'QuasiStatic':
                bc['V%d%d' % (i, k)] = {'Type': 'Initial Velocity', 'Node Set': s, 'Coordinate': 'xyz'[k], 'Value': '%.17g' % V0(i, k)}
            elif i % 3 != 1:
                bc['P%d%d' % (i, k)] = {'Type': 'Prescribed Displacement', 'Node Set': s, 'Coordinate': 'xyz'[k], 'Value': '%.17g*(t-1)' % (2 * V0(i, k))}
        if solver == 'Verlet':
            bc['F%d' % i] = {'Type': 'Body Force', 'Node Set': s, 'Coordinate': 'xyz'[i % 3], 'Value': '%.17g*t' % jit(i, 80)}
    if solver == 'Verlet':
        bc['Node Set all'] = ' '.join(str(i + 1) for i in range(N))
        bc['T'] = {'Type': 'Prescribed Temperature', 'Node Set': 'Node Set all', 'Value': '5*t*(1+x+2*y)'}
    d['Boundary Conditions'] = bc
    return d, pts


SAMPLES = {'tot': {'Compute Class': 'Block_Data', 'Calculation Type': 'Sum', 'Block': 'block_1', 'Variable': 'Kinetic_Energy', 'Output Label': 'Total'},
           'lar': {'Compute Class': 'Block_Data', 'Calculation Type': 'Maximum', 'Block': 'block_1', 'Variable': 'Velocity', 'Output Label': 'Largest'}}


def needed(vs):
    """Sampled variables and the compute classes behind them."""
    r = {}
    if 'Total' in vs:
        r['tot'] = SAMPLES['tot']
    if 'Largest' in vs:
        r['lar'] = SAMPLES['lar']
    return r


def subset(vs):
    """What can be asked for: sampling a derived quantity needs that quantity to be requested as well, and the
    horizon is kept for every block only if something else that is asked for needs it."""
    vs = list(vs)
    if 'Horizon' in vs and 'Deformation_Gradient' not in vs:
        vs.append('Deformation_Gradient')
    if 'Total' in vs and 'Kinetic_Energy' not in vs:
        vs.insert(0, 'Kinetic_Energy')
    return vs


def comps(v):
    if v in NODE3 or v in GLOB3:
        return [v + c for c in 'XYZ']
    if v in ELEM9:
        return [v + a + b for a in 'XYZ' for b in 'XYZ']
    return [v]


def out(vs, freq=1, first=None, last=None, name='out'):
    o = {'Output File Type': 'ExodusII', 'Output Filename': name, 'Output Frequency': freq, 'Output Variables': {v: True for v in vs}}
    if first is not None:
        o['Initial Output Step'] = first
    if last is not None:
        o['Final Output Step'] = last
    return o


REF = {}


def truth(solver, layout='mixed'):
    return REF[(solver, layout)]


def build_refs():
    with Scratch() as sc:
        for solver in SOLVERS:
            for layout in ('mixed', 'halves', 'last', 'swapped', 'one') if solver == 'Verlet' else ('mixed',):
                d, pts = deck(solver, layout=layout)
                vs = have(solver, layout)
                d['Output'] = out(vs)
                if needed(vs):
                    d['Compute Class Parameters'] = needed(vs)
                REF[(solver, layout)] = simulate(os.path.join(sc.path, solver + layout), d, pts)


def have(solver, layout):
    vs = list(ALL)
    if layout == 'one' or solver != 'Verlet':
        vs = [v for v in vs if v not in ('Cauchy_Stress', 'Left_Stretch_Tensor')]
    if solver != 'Verlet':
        vs = [v for v in vs if v not in ('Temperature_Change', 'Damage')]
    return vs


def compare(r, R, vs, steps, pts, np_, tol=1e-10, have_nodes=True):
    """The run r holds exactly the variables vs at the given steps of the full run R."""
    bad = []
    if not r.ok:
        return ['run failed: %s' % r]
    if not R.ok:
        return ['reference run failed: %s' % R]
    if len(r.T) != len(steps) or any(abs(a - R.T[s]) > 1e-12 for a, s in zip(r.T, steps)):
        return ['written at times %s instead of %s' % (r.T, [R.T[s] for s in steps])]
    wantN = {c for v in vs if v in NODE3 + NODE1 for c in comps(v)}
    wantE = {c for v in vs if v in ELEM1 + ELEM9 for c in comps(v)}
    wantG = {c for v in vs if v in GLOB1 + GLOB3 for c in comps(v)}
    if steps:
        if set(r.N) != wantN or set(r.E) != wantE or set(r.G) != wantG:
            return ['variables %s %s %s instead of %s %s %s' % (sorted(r.N), sorted(r.E), sorted(r.G), sorted(wantN), sorted(wantE), sorted(wantG))]
        if not wantN and not wantE:
            have_nodes = False
    if have_nodes and steps:
        if r.dup or sorted(r.x) != list(range(1, N + 1)):
            return ['points %s, repeated %s' % (sorted(r.x), r.dup)]
        for i, p in enumerate(pts):
            if r.block.get(i + 1) != p[3]:
                bad.append('point %d is written in block %s instead of %d' % (i + 1, r.block.get(i + 1), p[3]))
            if max(abs(a - b) for a, b in zip(r.x[i + 1], p[:3])) > 1e-12:
                bad.append('point %d is written at %s instead of %s' % (i + 1, r.x[i + 1], p[:3]))
    for kind, want in (('N', wantN), ('E', wantE)):
        A, B = getattr(r, kind), getattr(R, kind)
        for v in want:
            for q, s in enumerate(steps):
                if v == 'Proc_Num':
                    if set(A[v][q]) != set(range(1, N + 1)) or any(x not in range(np_) for x in A[v][q].values()):
                        bad.append('process numbers %s' % A[v][q])
                    continue
                if set(A[v][q]) != set(B[v][s]):
                    bad.append('%s is written for points %s instead of %s' % (v, sorted(A[v][q]), sorted(B[v][s])))
                    continue
                m = max([abs(x) for x in B[v][s].values()] + [1e-3])
                for g in B[v][s]:
                    if not abs(A[v][q][g] - B[v][s][g]) <= tol * m:
                        bad.append('%s of point %d at output %d: %.12g instead of %.12g' % (v, g, q, A[v][q][g], B[v][s][g]))
                        break
    for v in wantG:
        for q, s in enumerate(steps):
            if not abs(r.G[v][q] - R.G[v][s]) <= tol * max(abs(R.G[v][s]), 1e-3):
                bad.append('global %s at output %d: %.12g instead of %.12g' % (v, q, r.G[v][q], R.G[v][s]))
    return bad[:5]


def steps_of(n, freq, first, last):
    """The initial state is step 0 and the first output; the first output wanted counts from 1, the last step from 0."""
    return [s for s in range(n + 1) if s % freq == 0 and s + 1 >= (first or 1) and (last is None or s <= last)] if freq > 0 else []


def plain(solver, layout, np_):
    """Everything at every step, judged from what is known independently of the output."""
    def fn(wd):
        d, pts = deck(solver, layout=layout)
        vs = have(solver, layout)
        d['Output'] = out(vs)
        d['Compute Class Parameters'] = needed(vs)
        r = simulate(wd, d, pts, np_)
        bad = compare(r, truth(solver, layout), vs, list(range(8)), pts, np_)
        if bad:
            return bad, 8, ''
        for s in range(8):
            if abs(r.T[s] - (1.0 + s * DT)) > 1e-12:
                bad.append('output %d is at time %.15g' % (s, r.T[s]))
            for i, p in enumerate(pts):
                g = i + 1
                f = lambda what, got, exp: bad.append('%s of point %d at output %d: %.12g instead of %.12g' % (what, g, s, got, exp)) if not abs(got - exp) <= 1e-12 * max(1.0, abs(exp)) else None
                f('Volume', r.E['Volume'][s][g], p[4])
                f('Element_Id', r.E['Element_Id'][s][g], float(g))
                f('Horizon', r.E['Horizon'][s][g], HOR[p[3]])
                for k, c in enumerate('XYZ'):
                    f('Model_Coordinates' + c, r.N['Model_Coordinates' + c][s][g], p[k])
                    f('Coordinates' + c, r.N['Coordinates' + c][s][g], p[k] + r.N['Displacement' + c][s][g])
                    if s == 0:
                        if solver == 'Verlet':
                            f('Displacement' + c, r.N['Displacement' + c][0][g], U0(i, k))
                        if solver != 'QuasiStatic':
                            f('Velocity' + c, r.N['Velocity' + c][0][g], V0(i, k))
                    if solver == 'Verlet':
                        f('External_Force_Density' + c, r.N['External_Force_Density' + c][s][g], jit(i, 80) * r.T[s] if k == i % 3 else 0.0)
                if solver == 'Verlet' and s > 0:
                    f('Temperature_Change', r.N['Temperature_Change'][s][g], 5 * r.T[s] * (1 + p[0] + 2 * p[1]))
            if solver == 'Verlet' and layout != 'one':
                for v, bl in ONLY.items():
                    for q in comps(v):
                        exp = {i + 1 for i, p in enumerate(pts) if p[3] in bl}
                        if set(r.E[q][s]) != exp:
                            bad.append('%s written for points %s instead of %s' % (q, sorted(r.E[q][s]), sorted(exp)))
        return bad[:5], 8, ''
    return fn


def schedule(solver, np_, freq, first, last, n=7):
    def fn(wd):
        d, pts = deck(solver)
        vs = ['Displacement', 'Volume', 'Kinetic_Energy', 'Global_Kinetic_Energy']
        d['Output'] = out(vs, freq, first, last)
        r = simulate(wd, d, pts, np_)
        return compare(r, truth(solver), vs, steps_of(n, freq, first, last), pts, np_), n, ''
    return fn


def select(vs, np_, layout='mixed'):
    def fn(wd):
        d, pts = deck('Verlet', layout=layout)
        w = subset(vs)
        d['Output'] = out(w, 3)
        if needed(w):
            d['Compute Class Parameters'] = needed(w)
        r = simulate(wd, d, pts, np_)
        return compare(r, truth('Verlet', layout), w, [0, 3, 6], pts, np_), 3, ''
    return fn


def named(name, expect, np_):
    """Periods and blanks in a file name become underscores."""
    def fn(wd):
        d, pts = deck('Verlet')
        vs = ['Displacement', 'Volume']
        d['Output'] = out(vs, 3, name=name)
        r = simulate(wd, d, pts, np_, name=expect)
        return compare(r, truth('Verlet'), vs, [0, 3, 6], pts, np_), 3, ''
    return fn


def two(np_, a, b):
    """Two output files with different schedules and variables."""
    def fn(wd):
        d, pts = deck('Verlet')
        va = ['Displacement', 'Volume', 'Force']
        vb = ['Kinetic_Energy', 'Velocity', 'Global_Kinetic_Energy', 'Damage']
        del d['Output']
        d['Output1'] = out(va, *a, name='one')
        d['Output2'] = out(vb, *b, name='other')
        r = simulate(wd, d, pts, np_, name=['one', 'other'])
        bad = ['first file: ' + q for q in compare(r.more['one'], truth('Verlet'), va, steps_of(7, *a), pts, np_)]
        bad += ['second file: ' + q for q in compare(r.more['other'], truth('Verlet'), vb, steps_of(7, *b), pts, np_)]
        return bad, 7, ''
    return fn


def check():
    c = Check('P17')
    build('Peridigm', 'exodump')
    build_refs()
    sw = Sweep(c)
    procs = (1, 2, 3, 4)
    for solver, layout in REF:
        for np_ in procs:
            sw.add('plain/%s/%s/np%d' % (solver, layout, np_), plain(solver, layout, np_))
    F, A, Z = (-1, 0, 1, 2, 3, 5, 7, 8), (None, 1, 2, 3, 4, 8, 9), (None, 0, 1, 2, 3, 6, 7, 9)
    for freq in F:
        for a in A:
            for z in Z:
                for solver in SOLVERS:
                    for np_ in procs if THOROUGH else (1, 3) if solver == 'Verlet' else (1,):
                        if np_ != 1 and not THOROUGH and (freq in (-1, 0, 5, 7) or a in (1, 8, 9) or z in (0, 6, 9)):
                            continue
                        if solver != 'Verlet' and not THOROUGH and (freq in (-1, 0, 5, 8) or a in (1, 3, 8) or z in (1, 3, 6)):
                            continue
                        sw.add('schedule/%s/every%d/from%s/to%s/np%d' % (solver, freq, a, z, np_), schedule(solver, np_, freq, a, z))
    for i, v in enumerate(ALL):
        for np_ in procs:
            sw.add('select/%s/np%d' % (v, np_), select([v], np_))
        for w in ALL[:i]:
            for np_ in procs if THOROUGH else (1 + i % 3,):
                sw.add('select/%s+%s/np%d' % (w, v, np_), select([w, v], np_))
        for np_ in (1, 3):
            sw.add('select/without-%s/np%d' % (v, np_), select([w for w in ALL if w != v and not (v == 'Kinetic_Energy' and w == 'Total')], np_))
        sw.add('select/rotated-%s/np2' % v, select(ALL[i:] + ALL[:i], 2))
    for i, (nm, ex) in enumerate([('a', 'a'), ('a.b', 'a_b'), ('a b', 'a_b'), ('x.y z.w', 'x_y_z_w'), ('Long_Name-with-dashes_0123456789', 'Long_Name-with-dashes_0123456789')]):
        for np_ in procs:
            sw.add('name/%d/np%d' % (i, np_), named(nm, ex, np_))
    S = [(1, None, None), (2, None, None), (3, 2, None), (1, None, 3), (2, 4, 6), (-1, None, None)]
    for a in S:
        for b in S:
            for np_ in (1, 2) if not THOROUGH else procs:
                sw.add('two/%s/%s/np%d' % ('-'.join(map(str, a)), '-'.join(map(str, b)), np_), two(np_, a, b))
    sw.go()
    c.bounds = {'steps': 7, 'frequencies': len(F), 'first output': len(A), 'last step': len(Z), 'solvers': 3, 'processes': '1 to 4',
                'variables': '%d: each alone, all pairs, all but one, all in every rotated order' % len(ALL), 'block layouts': 5, 'output files': 'one, and two with all pairs of 6 schedules'}
    c.assumptions = ['output in ExodusII files, the only kind offered']
    return c.finish()


if __name__ == '__main__':
    main(check)
