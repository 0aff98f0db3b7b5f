"""Independent reference simulation of linear peridynamic solids on small bodies."""
import math


class Body:
    """points: (x, y, z, block, volume); mat[block] = (bulk modulus, shear modulus, density, horizon)."""
    def __init__(self, points, mat, broken=()):
        self.n = len(points)
        self.x = [p[:3] for p in points]
        self.vol = [p[4] for p in points]
        self.block = [p[3] for p in points]
        self.mat = mat
        self.rho = [mat[b][2] for b in self.block]
        self.nbr = []
        self.close = False
        for i in range(self.n):
            d = mat[self.block[i]][3]
            L = []
            for j in range(self.n):
                if j != i:
                    r = math.dist(self.x[i], self.x[j])
                    if abs(r - d) < 1e-9 * d:
                        self.close = True
                    if r < d:
                        L.append((j, r))
            self.nbr.append(L)
        self.m = [sum(r * r * self.vol[j] for j, r in L) for L in self.nbr]
        self.dmg = {}

    def dilatation(self, y, grow=None):
        th = []
        for i in range(self.n):
            s = 0.0
            for j, r in self.nbr[i]:
                e = math.dist(y[i], y[j]) - r
                if grow:
                    e -= grow[i] * r
                s += (1 - self.dmg.get((i, j), 0.0)) * r * e * self.vol[j]
            th.append(3 * s / self.m[i] if self.m[i] > 0 else 0.0)
        return th

    def force(self, u, grow=None):
        """Internal force density for displacements u (list of triples); grow[i] = thermal strain of point i."""
        y = [tuple(a + b for a, b in zip(self.x[i], u[i])) for i in range(self.n)]
        th = self.dilatation(y, grow)
        f = [[0.0, 0.0, 0.0] for _ in range(self.n)]
        for i in range(self.n):
            K, G = self.mat[self.block[i]][:2]
            if not self.nbr[i]:
                continue
            al = 15 * G / self.m[i]
            for j, r in self.nbr[i]:
                d = self.dmg.get((i, j), 0.0)
                if d == 1.0:
                    continue
                l = math.dist(y[i], y[j])
                e = l - r - (grow[i] * r if grow else 0.0)
                t = (3 * K * th[i] * r / self.m[i] + al * (e - th[i] * r / 3))
                for k in range(3):
                    e = t * (y[j][k] - y[i][k]) / l
                    f[i][k] += e * self.vol[j]
                    f[j][k] -= e * self.vol[i]
        return f

    def stretch_step(self, u, sc):
        """Break the bonds stretched past the critical stretch of the block of their owner; None = no damage."""
        y = [tuple(a + b for a, b in zip(self.x[i], u[i])) for i in range(self.n)]
        near = False
        for i in range(self.n):
            c = sc[self.block[i]] if isinstance(sc, dict) else sc
            if c is None:
                continue
            for j, r in self.nbr[i]:
                s = math.dist(y[i], y[j]) / r - 1
                if abs(s - c) < 1e-9:
                    near = True
                if s > c:
                    self.dmg[(i, j)] = 1.0
        return near

    def damage(self):
        return [sum(self.dmg.get((i, j), 0.0) for j, r in L) / len(L) if L else 0.0 for i, L in enumerate(self.nbr)]


def zeros(n):
    return [[0.0, 0.0, 0.0] for _ in range(n)]


def nsteps(ti, tf, dt):
    return int(math.floor((tf - ti) / dt * (1 + 1e-12)))


def verlet(body, ti, tf, dt, u0=None, v0=None, ext=None, fixed=None, sc=None, extra=None, order=1):
    """Velocity Verlet. ext(i, k, t) -> body force density; fixed: {(i, k): function of t};
    extra(u, v) -> additional force density. Returns a list of (t, u, v, f, ext)."""
    n = body.n
    u = [list(q) for q in (u0 or zeros(n))]
    v = [list(q) for q in (v0 or zeros(n))]
    fixed = fixed or {}

    def forces(t, first=False):
        if sc is not None:
            if first:
                keep = dict(body.dmg)
                body.stretch_step(u, sc(t) if callable(sc) else sc)
            else:
                body.stretch_step(u, sc(t) if callable(sc) else sc)
        f = body.force(u)
        if first and sc is not None:
            body.dmg = keep
        if extra:
            g = extra(u, v)
            f = [[a + b for a, b in zip(p, q)] for p, q in zip(f, g)]
        e = [[ext(i, k, t) if ext else 0.0 for k in range(3)] for i in range(n)]
        return f, e
    f, e = forces(ti, True)
    out = [(ti, [list(q) for q in u], [list(q) for q in v], f, e, body.damage())]
    tp = ti
    for s in range(1, nsteps(ti, tf, dt) + 1):
        t = ti + s * dt
        for i in range(n):
            for k in range(3):
                v[i][k] += 0.5 * dt * (f[i][k] + e[i][k]) / body.rho[i]
                if (i, k) in fixed:
                    v[i][k] = (fixed[(i, k)](t) - u[i][k]) / dt
                u[i][k] += dt * v[i][k]
        f, e = forces(t)
        for i in range(n):
            for k in range(3):
                v[i][k] += 0.5 * dt * (f[i][k] + e[i][k]) / body.rho[i]
        out.append((t, [list(q) for q in u], [list(q) for q in v], f, e, body.damage()))
        tp = t
    return out


def against(r, ref, tol=1e-9, skipv=(), ids=None, names=None):
    """Compare a run with the reference; returns complaints. skipv: (i, k) whose velocity is not judged."""
    bad = []
    if not r.ok:
        return ['run failed: %s' % r]
    if len(r.T) != len(ref):
        return ['%d output times instead of %d (%s)' % (len(r.T), len(ref), r.T[-3:])]
    n = len(ref[0][1])
    if sorted(r.x) != list(range(1, n + 1)):
        return ['points in the output: %s' % sorted(r.x)]
    if 'DisplacementX' not in r.N:
        return ['no displacements in the output']
    names = names or {'Displacement': 1, 'Velocity': 2, 'Force_Density': 3, 'External_Force_Density': 4}
    for s, R in enumerate(ref):
        if abs(r.T[s] - R[0]) > 1e-12 * max(1.0, abs(R[0])):
            bad.append('output %d is at time %.15g instead of %.15g' % (s, r.T[s], R[0]))
            return bad
        for nm, q in names.items():
            if nm + 'X' not in r.N:
                continue
            m = max([abs(c) for p in R[q] for c in p] + [1e-3])
            for k, c in enumerate('XYZ'):
                D = r.N[nm + c][s]
                for i in range(n):
                    if nm == 'Velocity' and (i, k) in skipv:
                        continue
                    if not abs(D[i + 1] - R[q][i][k]) <= tol * m:
                        bad.append('%s%s of point %d at time %.6g: %.12g instead of %.12g' % (nm, c, i + 1, R[0], D[i + 1], R[q][i][k]))
                        if len(bad) > 3:
                            return bad
        if 'Damage' in r.E:
            for i in range(n):
                if not abs(r.E['Damage'][s][i + 1] - R[5][i]) <= 1e-12:
                    bad.append('damage of point %d at time %.6g: %.12g instead of %.12g' % (i + 1, R[0], r.E['Damage'][s][i + 1], R[5][i]))
                    if len(bad) > 3:
                        return bad
    return bad
