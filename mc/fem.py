"""Independent dense finite-element reference for the documented torsion/warping/shear formulation
(quadratic straight-sided triangles), evaluated on a given mesh with exact quadrature
(and, where the integrand exceeds the library rule's degree, with its degree-3 rule as well)."""
import math
import numpy as np

# collapsed Gauss-Legendre 4x4: exact to degree 6
_g, _w = np.polynomial.legendre.leggauss(4)
_g = 0.5 * (_g + 1); _w = 0.5 * _w
EXACT = [(2 * wi * wj * (1 - a), a, b * (1 - a)) for a, wi in zip(_g, _w) for b, wj in zip(_g, _w)]
DEG3 = [(-27 / 48, 1 / 3, 1 / 3), (25 / 48, 0.6, 0.2), (25 / 48, 0.2, 0.6), (25 / 48, 0.2, 0.2)]


def shapes(L1, L2):
    L3 = 1 - L1 - L2
    N = np.array([L1 * (2 * L1 - 1), L2 * (2 * L2 - 1), L3 * (2 * L3 - 1), 4 * L1 * L2, 4 * L2 * L3, 4 * L3 * L1])
    dN = np.array([[4 * L1 - 1, 0, 0], [0, 4 * L2 - 1, 0], [0, 0, 4 * L3 - 1],
                   [4 * L2, 4 * L1, 0], [0, 4 * L3, 4 * L2], [4 * L3, 0, 4 * L1]])
    return N, dN


class Fem:
    def __init__(self, nodes, els, E, nu, fy=None, composite=True):
        """E, nu: per element arrays. Not composite: geometric-only (nu = 0)."""
        self.nodes = np.asarray(nodes, float); self.els = els = np.asarray(els)
        self.E = E = np.asarray(E, float)
        P = self.nodes[els]
        x, y = P[:, :3, 0], P[:, :3, 1]
        self.A = A = 0.5 * ((x[:, 1] - x[:, 0]) * (y[:, 2] - y[:, 0]) - (x[:, 2] - x[:, 0]) * (y[:, 1] - y[:, 0]))
        j = [1, 2, 0]; k = [2, 0, 1]
        self.gL = np.stack([(y[:, j] - y[:, k]) / (2 * A[:, None]), (x[:, k] - x[:, j]) / (2 * A[:, None])], axis=1)  # ne,2,3
        self.area = A.sum(); self.ea = (E * A).sum()
        self.ga = (A * E / (2 * (1 + np.asarray(nu)))).sum()
        self.nu = self.ea / (2 * self.ga) - 1 if composite else 0.0
        cx = cy = 0.0
        for w, a, b in EXACT:
            N, _ = shapes(a, b)
            wt = w * A * E
            cx += (wt * (P[:, :, 0] @ N)).sum(); cy += (wt * (P[:, :, 1] @ N)).sum()
        self.cx, self.cy = cx / self.ea, cy / self.ea
        self.X = P - np.array([self.cx, self.cy])
        self.ixx = self.iyy = self.ixy = 0.0
        for w, x_, y_, N, B, wt in self.quad(EXACT):
            self.ixx += (wt * y_ * y_).sum(); self.iyy += (wt * x_ * x_).sum(); self.ixy += (wt * x_ * y_).sum()
        d = math.hypot((self.ixx - self.iyy) / 2, self.ixy)
        self.delta = d
        self.i11 = (self.ixx + self.iyy) / 2 + d; self.i22 = (self.ixx + self.iyy) / 2 - d
        num = self.ixx - self.i11
        self.phi = 0.0 if abs(num) < 1e-12 * self.i11 else math.degrees(math.atan2(num, self.ixy))

    def quad(self, rule):
        for w, a, b in rule:
            N, dN = shapes(a, b)
            B = self.gL @ dN.T  # ne,2,6
            yield w, self.X[:, :, 0] @ N, self.X[:, :, 1] @ N, N, B, w * self.A * self.E

    def dh(self, x, y):
        r = x * x - y * y; q = 2 * x * y
        ixx, iyy, ixy = self.ixx, self.iyy, self.ixy
        return (np.stack([ixx * r - ixy * q, ixy * r + ixx * q], 1), np.stack([-ixy * r + iyy * q, -iyy * r - ixy * q], 1))

    def solve(self):
        n = len(self.nodes); ne = len(self.els); nu = self.nu
        K = np.zeros((ne, 6, 6)); ft = np.zeros((ne, 6)); c = np.zeros((ne, 6)); fp = np.zeros((ne, 6)); fh = np.zeros((ne, 6))
        for w, x, y, N, B, wt in self.quad(EXACT):
            K += wt[:, None, None] * np.einsum("eai,eaj->eij", B, B)
            ft += wt[:, None] * (B[:, 0, :] * y[:, None] - B[:, 1, :] * x[:, None])
            c += wt[:, None] * N
            d, h = self.dh(x, y)
            fp += wt[:, None] * (nu / 2 * np.einsum("eai,ea->ei", B, d) + 2 * (1 + nu) * N[None, :] * (self.ixx * x - self.ixy * y)[:, None])
            fh += wt[:, None] * (nu / 2 * np.einsum("eai,ea->ei", B, h) + 2 * (1 + nu) * N[None, :] * (self.iyy * y - self.ixy * x)[:, None])
        G = np.zeros((n + 1, n + 1)); F = np.zeros((n + 1, 3))
        for i in range(6):
            np.add.at(F[:, 0], self.els[:, i], ft[:, i]); np.add.at(F[:, 1], self.els[:, i], fp[:, i]); np.add.at(F[:, 2], self.els[:, i], fh[:, i])
            np.add.at(G[n], self.els[:, i], c[:, i])
            for k in range(6):
                np.add.at(G, (self.els[:, i], self.els[:, k]), K[:, i, k])
        G[:, n] = G[n]
        if n > 700:
            import scipy.sparse as sps, scipy.sparse.linalg as spl
            U = spl.splu(sps.csc_matrix(G)).solve(F)
        else:
            U = np.linalg.solve(G, F)
        self.omega, self.psi, self.phis = U[:n, 0], U[:n, 1], U[:n, 2]
        self.f_t = F[:n, 0]
        om, ps, ph = self.omega, self.psi, self.phis
        ixx, iyy, ixy = self.ixx, self.iyy, self.ixy
        det = ixx * iyy - ixy ** 2
        r = {"j": ixx + iyy - om @ self.f_t}
        self.delta_s = 2 * (1 + nu) * det
        S = dict.fromkeys(("xint", "yint", "qo", "ixo", "iyo", "mx", "my", "m1", "m2"), 0.0)
        cph, sph = math.cos(math.radians(self.phi)), math.sin(math.radians(self.phi))
        for w, x, y, N, B, wt in self.quad(EXACT):
            no = om[self.els] @ N
            S["xint"] += (wt * (iyy * x + ixy * y) * (x * x + y * y)).sum()
            S["yint"] += (wt * (ixx * y + ixy * x) * (x * x + y * y)).sum()
            S["qo"] += (wt * no).sum(); S["ixo"] += (wt * x * no).sum(); S["iyo"] += (wt * y * no).sum()
            S["mx"] += (wt * y * (x * x + y * y)).sum(); S["my"] += (wt * x * (x * x + y * y)).sum()
            u = x * cph + y * sph; v = y * cph - x * sph
            S["m1"] += (wt * v * (u * u + v * v)).sum(); S["m2"] += (wt * u * (u * u + v * v)).sum()
        xs = (nu / 2 * S["xint"] - self.f_t @ ph) / self.delta_s
        ys = (nu / 2 * S["yint"] + self.f_t @ ps) / self.delta_s
        r["x_se"], r["y_se"] = xs + self.cx, ys + self.cy
        r["x11_se"], r["y22_se"] = xs * cph + ys * sph, ys * cph - xs * sph
        r["x_st"] = (ixy * S["ixo"] - iyy * S["iyo"]) / det + self.cx
        r["y_st"] = (ixx * S["ixo"] - ixy * S["iyo"]) / det + self.cy
        r["bx+"] = -S["mx"] / ixx + 2 * ys; r["by+"] = -S["my"] / iyy + 2 * xs
        r["b11+"] = -S["m1"] / self.i11 + 2 * r["y22_se"]; r["b22+"] = -S["m2"] / self.i22 + 2 * r["x11_se"]
        for k in ("bx", "by", "b11", "b22"):
            r[k + "-"] = -r[k + "+"]
        alt = []
        for rule in (EXACT, DEG3):
            io = kx = ky = kxy = 0.0
            for w, x, y, N, B, wt in self.quad(rule):
                io += (wt * (om[self.els] @ N) ** 2).sum()
                d, h = self.dh(x, y)
                a = np.einsum("eai,ei->ea", B, ps[self.els]) - nu / 2 * d
                b = np.einsum("eai,ei->ea", B, ph[self.els]) - nu / 2 * h
                kx += (wt * (a * a).sum(1)).sum(); ky += (wt * (b * b).sum(1)).sum(); kxy += (wt * (a * b).sum(1)).sum()
            g = io - S["qo"] ** 2 / self.ea - ys * S["ixo"] + xs * S["iyo"]
            k11 = kx * cph ** 2 + 2 * kxy * sph * cph + ky * sph ** 2
            k22 = kx * sph ** 2 - 2 * kxy * sph * cph + ky * cph ** 2
            ds2 = self.delta_s ** 2
            alt.append({"gamma": g, "i_omega": io, "asx": ds2 / kx, "asy": ds2 / ky, "as11": ds2 / k11, "as22": ds2 / k22})
        self.alt = alt
        r.update(alt[0])
        self.r = r
        return r


def from_section(sec, composite=None):
    comp = sec.is_composite() if composite is None else composite
    E = [el.material.elastic_modulus for el in sec.elements]
    nu = [el.material.poissons_ratio for el in sec.elements]
    return Fem(sec.mesh_nodes, sec.mesh_elements, E, nu, composite=comp)


NODES6 = [(1, 0), (0, 1), (0, 0), (0.5, 0.5), (0, 0.5), (0.5, 0)]
ACTIONS = ("n", "mxx", "myy", "m11", "m22", "mzz", "vx", "vy")


def unit_fields(f, shear=True):
    """Stress per unit action at the six nodes of every element: {action: (szz, szx, szy)}, each (ne, 6)."""
    ne = len(f.els)
    E = f.E[:, None]
    x, y = f.X[:, :, 0], f.X[:, :, 1]
    c, s = math.cos(math.radians(f.phi)), math.sin(math.radians(f.phi))
    det = f.ixx * f.iyy - f.ixy ** 2
    z = np.zeros((ne, 6))
    o = {"n": (z + E / f.ea, z, z), "mxx": (E * (-f.ixy * x + f.iyy * y) / det, z, z), "myy": (E * (-f.ixx * x + f.ixy * y) / det, z, z),
         "m11": (E * (y * c - x * s) / f.i11, z, z), "m22": (-E * (x * c + y * s) / f.i22, z, z)}
    if shear:
        J = f.r["j"]
        t = {k: (np.zeros((ne, 6)), np.zeros((ne, 6))) for k in ("mzz", "vx", "vy")}
        for i, (a, b) in enumerate(NODES6):
            N, dN = shapes(a, b)
            B = f.gL @ dN.T
            xi, yi = x[:, i], y[:, i]
            d, h = f.dh(xi, yi)
            g = np.einsum("eai,ei->ae", B, f.omega[f.els])
            t["mzz"][0][:, i] = f.E / J * (g[0] - yi); t["mzz"][1][:, i] = f.E / J * (g[1] + xi)
            g = np.einsum("eai,ei->ae", B, f.psi[f.els])
            t["vx"][0][:, i] = f.E / f.delta_s * (g[0] - f.nu / 2 * d[:, 0]); t["vx"][1][:, i] = f.E / f.delta_s * (g[1] - f.nu / 2 * d[:, 1])
            g = np.einsum("eai,ei->ae", B, f.phis[f.els])
            t["vy"][0][:, i] = f.E / f.delta_s * (g[0] - f.nu / 2 * h[:, 0]); t["vy"][1][:, i] = f.E / f.delta_s * (g[1] - f.nu / 2 * h[:, 1])
        for k in t:
            o[k] = (z,) + t[k]
    return o


def resultants(f, field):
    """(N, Mxx, Myy, Vx, Vy, Mzz) of an element-wise field (szz, szx, szy) given at six nodes (quadratic in each element)."""
    r = np.zeros(6)
    for w, a, b in EXACT:
        N, _ = shapes(a, b)
        x, y = f.X[:, :, 0] @ N, f.X[:, :, 1] @ N
        wt = w * f.A
        s, tx, ty = (q @ N for q in field)
        r += [(wt * s).sum(), (wt * s * y).sum(), -(wt * s * x).sum(), (wt * tx).sum(), (wt * ty).sum(), (wt * (ty * x - tx * y)).sum()]
    return r


def nodal(f, group, q):
    """Average over the elements of a group of element-wise nodal values; zero at nodes outside the group."""
    n = len(f.nodes)
    s = np.zeros(n); c = np.zeros(n)
    idx = f.els[group]
    np.add.at(s, idx, q[group]); np.add.at(c, idx, 1.0)
    return np.where(c > 0, s / np.maximum(c, 1), 0.0)


def point_field(f, e, pt, act):
    """Un-averaged stress (szz, szx, szy) of element e at a global point."""
    x, y = pt[0] - f.cx, pt[1] - f.cy
    P = f.X[e]
    d = np.array([x, y]) - P[2]
    L = np.linalg.solve(np.array([P[0] - P[2], P[1] - P[2]]).T, d)
    N, dN = shapes(L[0], L[1])
    B = f.gL[e] @ dN.T
    g = lambda k: act.get(k, 0.0)
    c, s = math.cos(math.radians(f.phi)), math.sin(math.radians(f.phi))
    det = f.ixx * f.iyy - f.ixy ** 2
    E = f.E[e]
    zz = E * (g("n") / f.ea + g("mxx") * (-f.ixy * x + f.iyy * y) / det + g("myy") * (-f.ixx * x + f.ixy * y) / det
              + g("m11") * (y * c - x * s) / f.i11 - g("m22") * (x * c + y * s) / f.i22)
    t = np.zeros(2)
    if g("mzz"):
        t = t + E * g("mzz") / f.r["j"] * (B @ f.omega[f.els[e]] - np.array([y, -x]))
    if g("vx") or g("vy"):
        dd, hh = f.dh(np.array([x]), np.array([y]))
        t = t + E * g("vx") / f.delta_s * (B @ f.psi[f.els[e]] - f.nu / 2 * dd[0]) + E * g("vy") / f.delta_s * (B @ f.phis[f.els[e]] - f.nu / 2 * hh[0])
    return np.array([zz, t[0], t[1]])
