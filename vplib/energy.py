"""Discrete MHD energy of a reported equilibrium as an analytic function of its
geometry coefficients (complex-step differentiable)."""
import numpy as np

from vplib.eq import MU0, arr, grid_sizes


class Energy:
    def __init__(self, w, ntheta, nzeta, gamma=0.0):
        self.ns, self.nfp = int(w.ns), int(w.nfp)
        self.mpol, self.ntor, self.lasym = int(w.mpol), int(w.ntor), bool(w.lasym)
        self.nt, self.nz = grid_sizes(self.mpol, self.ntor, ntheta, nzeta)
        T, Z = np.meshgrid(2 * np.pi * np.arange(self.nt) / self.nt,
                           2 * np.pi * np.arange(self.nz) / self.nz / self.nfp, indexing="ij")
        self.xm, self.xn = xm, xn = arr(w.xm), arr(w.xn)
        ang = (xm[:, None, None] * T - xn[:, None, None] * Z).reshape(len(xm), -1)
        self.C, self.S = np.cos(ang), np.sin(ang)
        self.odd = xm.astype(int) % 2 == 1
        s = np.linspace(0, 1, self.ns)
        self.s, self.sq, self.sh = s, np.sqrt(s), np.sqrt(.5 * (s[1:] + s[:-1]))
        self.ds = 1.0 / (self.ns - 1)
        self.sg = int(w.signgs)
        self.phipF = arr(w.phipf) * self.sg / (2 * np.pi)
        self.phipH = arr(w.phips)[1:]
        self.chipH = arr(w.iotas)[1:] * self.phipH
        self.gamma = gamma
        self.mass = MU0 * arr(w.mass)[1:]
        self.base = {"rc": self.prep(w.rmnc), "zs": self.prep(w.zmns), "ls": self.prep(w.lmns_full, True)}
        if self.lasym:
            self.base.update(rs=self.prep(w.rmns), zc=self.prep(w.zmnc), lc=self.prep(w.lmnc_full, True))

    def prep(self, t, lam=False):
        a = np.array(arr(t), copy=True)
        if lam:
            a = a * self.phipF[None, :]
        a[self.odd, 1:] = a[self.odd, 1:] / self.sq[None, 1:]
        return a

    def axis(self, a, lam=False):
        a = np.array(a, copy=True)
        a[self.xm == 1, 0] = a[self.xm == 1, 1]
        a[self.xm > 1, 0] = 0.0
        if lam:
            a[self.xm == 0, 0] = a[self.xm == 0, 1]
        return a

    def __call__(self, x):
        C, S, odd, xm, xn = self.C, self.S, self.odd, self.xm[:, None], self.xn[:, None]
        z0 = np.zeros_like(x["rc"])
        rc, zs, ls = self.axis(x["rc"]), self.axis(x["zs"]), self.axis(x["ls"], True)
        rs, zc, lc = (self.axis(x[k], k == "lc") if k in x else z0 for k in ("rs", "zc", "lc"))

        def two(c, s_):
            return [c[k].T @ C[k] + s_[k].T @ S[k] for k in (~odd, odd)]
        r, z = two(rc, rs), two(zc, zs)
        ru, zu = two(xm * rs, -xm * rc), two(xm * zs, -xm * zc)
        rv, zv = two(-xn * rs, xn * rc), two(-xn * zs, xn * zc)
        lu, lv = two(xm * ls, -xm * lc), two(xn * ls, -xn * lc)
        lu[0] = lu[0] + self.phipF[:, None]
        H, ds = self.sh[:, None], self.ds
        o, i = slice(1, None), slice(None, -1)

        def half(a):
            return .5 * (a[0][o] + a[0][i] + H * (a[1][o] + a[1][i]))

        def dh(a):
            return (a[0][o] - a[0][i] + H * (a[1][o] - a[1][i])) / ds
        tau = half(ru) * dh(z) - dh(r) * half(zu) + .25 * (
            ru[1][o] * z[1][o] + ru[1][i] * z[1][i] - zu[1][o] * r[1][o] - zu[1][i] * r[1][i]
            + (ru[0][o] * z[1][o] + ru[0][i] * z[1][i] - zu[0][o] * r[1][o] - zu[0][i] * r[1][i]) / H)
        g = tau * half(r)
        sF = self.s[:, None]

        def met(a, b):
            ee = a[0] * b[0] + sF * a[1] * b[1]
            eo = a[0] * b[1] + a[1] * b[0]
            return .5 * (ee[o] + ee[i]) + .5 * H * (eo[o] + eo[i])
        guu = met(ru, ru) + met(zu, zu)
        gvv = met(r, r) + met(rv, rv) + met(zv, zv)
        bv, bu = half(lu) / g, (half(lv) + self.chipH[:, None]) / g
        b2 = guu * bu * bu + gvv * bv * bv
        if self.ntor:
            b2 = b2 + 2 * (met(ru, rv) + met(zu, zv)) * bu * bv
        vp = self.sg * g.mean(axis=1)
        wb = ds * self.sg * (g * .5 * b2).mean(axis=1).sum()
        wp = ds * (self.mass * vp ** (1 - self.gamma)).sum() / (self.gamma - 1)
        return wb + wp

    def grad(self, key, vec):
        h = 1e-30
        x = dict(self.base)
        x[key] = x[key] + 1j * h * vec
        return float(np.imag(self(x)) / h)

    def curv(self, key, vec, eps):
        x1, x2 = dict(self.base), dict(self.base)
        x1[key] = x1[key] + eps * vec
        x2[key] = x2[key] - eps * vec
        return float((self(x1) - 2 * self(self.base) + self(x2)) / eps ** 2)
