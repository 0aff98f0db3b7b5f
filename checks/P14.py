from sim import *
import ref

PI = math.pi


def rot(p, q):
    """A fixed turn about an oblique axis, so that nothing is aligned with the coordinate axes."""
    if not q:
        return tuple(p)
    a, b = 0.37 * q, 0.61 * q
    x, y, z = p
    x, y = x * math.cos(a) - y * math.sin(a), x * math.sin(a) + y * math.cos(a)
    y, z = y * math.cos(b) - z * math.sin(b), y * math.sin(b) + z * math.cos(b)
    return (x, y, z)


# scenario: points (position, body, volume), velocities per point, displacement per point, contact radius
def scenario(name, turn):
    P, V, U = [], [], []

    def add(x, body, vol, v=(0, 0, 0), u=(0, 0, 0)):
        P.append((rot(x, turn), body, vol))
        V.append(rot(v, turn))
        U.append(rot(u, turn))
    R = 0.9
    if name == 'approach':
        for i in range(8):
            add((i % 2, (i // 2) % 2, i // 4), 0, 1 + 0.2 * jit(i, 3), (1.0, 0.1, 0))
        for i in range(4):
            add((2.6, 0.2 + (i % 2), 0.1 + i // 2), 1, 0.8 + 0.2 * jit(i, 5), (-1.2, 0.3, 0.05))
    elif name == 'slide':
        for i in range(3):
            add((i, 0, 0), 0, 1 + 0.3 * jit(i, 3), (0, 0, 0.02 * i))
        for i in range(3):
            add((i + 0.3, 1.5, 0.1), 1, 1 + 0.3 * jit(i, 7), (1.5, -1.9, 0.3))
        R = 1.1
    elif name == 'self':
        for i in range(12):
            add(tuple((i % 3, (i // 3) % 2, i // 6)[k] + 0.05 * jit(i, k) for k in range(3)), 0, 1 + 0.2 * jit(i, 3), (0.3 * jit(i, 11), 0.2 * jit(i, 12), 0.3 * jit(i, 13)))
        R = 1.55
    elif name == 'fold':
        for i, (x, y) in enumerate([(0, 0), (1, 0), (2, 0), (2.4, 0.9), (2, 1.8), (1, 1.6), (0, 1.4)]):
            add((x, y, 0.03 * i), 0, 1 + 0.2 * jit(i, 3), (0, 1.0 if y == 0 else -1.0, 0.1 * i))
        R = 1.3
    elif name == 'swarm':
        for i in range(6):
            d = (1.7 * (1 if i == 0 else -1 if i == 1 else 0.05), 1.7 * (1 if i == 2 else -1 if i == 3 else 0.03), 1.7 * (1 if i == 4 else -1 if i == 5 else 0.04))
            add(d, i % 2, 0.7 + 0.1 * i, tuple(-1.6 * c + 0.3 * jit(i, k) for k, c in enumerate(d)))
        R = 1.0
    elif name == 'crowd':
        # every inner point touches more than a dozen others
        for i in range(27):
            add(tuple(1.3 * (i // 3 ** k % 3) + 0.03 * jit(i, k) for k in range(3)), i % 2, 1 + 0.2 * jit(i, 3), (0.3 * jit(i, 11), 0.2 * jit(i, 12), 0.3 * jit(i, 13)))
        R = 1.95
    elif name == 'slow':
        for i in range(3):
            add((i, 0, 0), 0, 1 + 0.3 * jit(i, 3), (0, 0, 2e-5 * i))
        for i in range(3):
            add((i + 0.3, 1.25, 0.1), 1, 1 + 0.3 * jit(i, 7), (1.5e-4, -1.9e-4, 3e-5))
        R = 1.34
    elif name == 'placed':
        # far apart in the mesh, brought together by an initial displacement
        for i in range(4):
            add((i % 2, i // 2, 0), 0, 1 + 0.2 * jit(i, 3))
        for i in range(2):
            add((5.0, 0.1 + i, 0), 1, 1.1, (-0.3, 0.2, 0.1), (-3.3, 0.0, 0.2))
        R = 1.0
    return P, V, U, R


def blocks(P, layout):
    """Block number of every point and horizon of every block."""
    if layout == 'one':
        return [1] * len(P), {1: 1.2}
    if layout == 'body':
        return [1 + p[1] for p in P], {1: 1.2, 2: 1.2}
    if layout == 'horizons':
        return [3 if p[1] else 1 for p in P], {1: 1.2, 3: 1.35}
    return [1 + (i % 2) for i in range(len(P))], {1: 1.2, 2: 1.2}    # 'mixed'


FRICTION = {'none': (None, lambda t: 0.0), 'zero': (0.0, lambda t: 0.0), 'constant': (0.3, lambda t: 0.3), 'time': ('0.2+0.5*t', lambda t: 0.2 + 0.5 * t)}
SPRING = 30.0


def case(name, turn, layout, fric, freq, np_):
    def fn(wd):
        P, V, U, R = scenario(name, turn)
        blk, hor = blocks(P, layout)
        hor = {b: h for b, h in hor.items() if b in blk}
        pts = [(p[0][0], p[0][1], p[0][2], b, p[2]) for p, b in zip(P, blk)]
        mat = {b: (10.0, 6.0, 2.0 + 0.5 * b, h) for b, h in hor.items()}
        n = len(pts)
        body = ref.Body(pts, mat)
        bonded = {(i, j) for i in range(n) for j, r in body.nbr[i]}
        if any((j, i) not in bonded for i, j in bonded):
            raise CheckError('one-sided bond in %s/%s' % (name, layout))
        close = [9.0]

        def contact(u, v, t):
            mu = FRICTION[fric][1](t)
            y = [tuple(a + b for a, b in zip(pts[i][:3], u[i])) for i in range(n)]
            f = ref.zeros(n)
            for i in range(n):
                for j in range(i + 1, n):
                    if (i, j) in bonded:
                        continue
                    d = math.dist(y[i], y[j])
                    close[0] = min(close[0], abs(d - R))
                    if d >= R:
                        continue
                    s = sum(9 * SPRING / (PI * hor[blk[q]] ** 5) for q in (i, j)) * (R - d)
                    e = [(y[j][k] - y[i][k]) / d for k in range(3)]
                    w = [v[j][k] - v[i][k] for k in range(3)]
                    wn = sum(a * b for a, b in zip(w, e))
                    w = [a - wn * b for a, b in zip(w, e)]
                    wl = math.sqrt(sum(a * a for a in w))
                    for k in range(3):
                        q = -s * e[k] + (mu * s * w[k] / wl if wl > 0 else 0.0)
                        f[i][k] += q * pts[j][4]
                        f[j][k] -= q * pts[i][4]
            return f
        fs = []
        dt, tf = 0.05, 0.6
        clock = [0.0]

        def extra(u, v):
            f = contact(u, v, clock[0])
            fs.append(f)
            clock[0] += dt
            return f
        REF = ref.verlet(body, 0.0, tf, dt, U, V, None, None, None, extra)
        d = base(Solver={'Final Time': tf, 'Verlet': {'Fixed dt': dt}})
        d['Materials'] = {'M%d' % b: {'Material Model': 'Elastic', 'Density': m[2], 'Bulk Modulus': m[0], 'Shear Modulus': m[1]} for b, m in mat.items()}
        d['Blocks'] = {'B%d' % b: {'Block Names': 'block_%d' % b, 'Material': 'M%d' % b, 'Horizon': m[3]} for b, m in mat.items()}
        model = {'Contact Model': 'Time Dependent Short Range Force' if fric == 'time' else 'Short Range Force', 'Contact Radius': R, 'Spring Constant': SPRING}
        if FRICTION[fric][0] is not None:
            model['Friction Coefficient'] = FRICTION[fric][0]
        d['Contact'] = {'Search Radius': 4.0 if freq > 1 else R + 0.3, 'Search Frequency': freq, 'Models': {'C': model},
                        'Interactions': {'General Contact': {'Contact Model': 'C'}, 'Self Contact': {'Contact Model': 'C'}}}
        bc = {}
        for i in range(n):
            bc['Node Set %d' % (i + 1)] = '%d' % (i + 1)
            for k in range(3):
                if V[i][k]:
                    bc['V%d%d' % (i, k)] = {'Type': 'Initial Velocity', 'Node Set': 'Node Set %d' % (i + 1), 'Coordinate': 'xyz'[k], 'Value': '%.17g' % V[i][k]}
                if U[i][k]:
                    bc['U%d%d' % (i, k)] = {'Type': 'Initial Displacement', 'Node Set': 'Node Set %d' % (i + 1), 'Coordinate': 'xyz'[k], 'Value': '%.17g' % U[i][k]}
        d['Boundary Conditions'] = bc
        d = merge(d, outputs('Contact_Force_Density', 'Force_Density'))
        r = simulate(wd, d, pts, np_)
        bad = ref.against(r, REF, tol=1e-7)
        touched = sum(1 for f in fs if any(c for q in f for c in q))
        if not touched:
            raise CheckError('%s never comes into contact' % name)
        if not bad:
            for s in range(len(REF)):
                for k in range(3):
                    D = r.N['Contact_Force_Density' + 'XYZ'[k]][s]
                    m = max([abs(c) for q in fs[s] for c in q] + [1e-3])
                    for i in range(n):
                        if not abs(D[i + 1] - fs[s][i][k]) <= 1e-7 * m:
                            bad.append('contact force %s of point %d at step %d: %.12g instead of %.12g' % ('xyz'[k], i + 1, s, D[i + 1], fs[s][i][k]))
                    net = sum(D[i + 1] * pts[i][4] for i in range(n))
                    if abs(net) > 1e-9 * max(1.0, m):
                        bad.append('net contact force %.3g' % net)
        return bad, len(REF), '%s %s %s %d' % (name, layout, fric, touched)
    return fn


def check():
    c = Check('P14')
    build('Peridigm', 'exodump')
    sw = Sweep(c)
    for name in ('approach', 'slide', 'self', 'fold', 'swarm', 'placed', 'crowd', 'slow'):
        for turn in (0, 1, 2) if THOROUGH else (1,):
            for layout in ('one', 'body', 'horizons', 'mixed'):
                if name in ('self', 'fold') and layout in ('body', 'horizons') or name in ('crowd', 'slow') and layout == 'horizons':
                    continue
                for fric in FRICTION:
                    for freq in (1, 2, 3, 7):
                        for np_ in (1, 2, 3, 4):
                            if not THOROUGH and fric == 'zero' and np_ != 2:
                                continue
                            sw.add('%s/%d/%s/%s/every%d/np%d' % (name, turn, layout, fric, freq, np_), case(name, turn, layout, fric, freq, np_))
    sw.go()
    c.bounds = {'motions': 6, 'block layouts': 4, 'friction': 4, 'search frequencies': '1, 2, 3, 7', 'processes': '1 to 4', 'steps': 12}
    c.assumptions = ['the search radius covers the contact radius and the motion between two searches', 'bonds are mutual', 'contact between all blocks is requested', 'points never coincide']
    return c.finish()


if __name__ == '__main__':
    main(check)
