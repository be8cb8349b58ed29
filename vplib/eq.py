"""Independent reconstruction of an equilibrium's fields from the reported
geometry (numpy only; no code of the system under test is used)."""
import numpy as np

MU0 = 4.0e-7 * np.pi


def arr(x):
    return np.asarray(x, dtype=float)


class W:
    """Uniform access to a wout-like object: tables as (mn, ns)."""

    def __init__(self, w):
        self.w = w

    def __getattr__(self, k):
        return getattr(self.w, k)


def grid_sizes(mpol, ntor, ntheta, nzeta):
    """Documented grid rules: ntheta >= 2*mpol+6 and even, nzeta >= 2*ntor+4."""
    if ntheta < 2 * mpol + 6:
        ntheta = 2 * mpol + 6
    if ntor == 0 and nzeta < 1:
        nzeta = 1
    if ntor > 0 and nzeta < 2 * ntor + 4:
        nzeta = 2 * ntor + 4
    return 2 * (ntheta // 2), nzeta


class Recon:
    def __init__(self, w, ntheta, nzeta, pdamp=0.05):
        self.w = w
        self.ns = ns = int(w.ns)
        self.nfp = int(w.nfp)
        self.mpol, self.ntor = int(w.mpol), int(w.ntor)
        self.nt, self.nz = grid_sizes(self.mpol, self.ntor, ntheta, nzeta)
        self.lasym = bool(w.lasym)
        th = 2 * np.pi * np.arange(self.nt) / self.nt
        ze = 2 * np.pi * np.arange(self.nz) / self.nz / self.nfp
        self.th, self.ze = th, ze
        T, Z = np.meshgrid(th, ze, indexing="ij")
        xm, xn = arr(w.xm), arr(w.xn)
        ang = xm[:, None, None] * T - xn[:, None, None] * Z
        C, S = np.cos(ang), np.sin(ang)
        self.C, self.S = C, S
        self.s = np.linspace(0, 1, ns)
        self.sh = 0.5 * (self.s[1:] + self.s[:-1])
        sq, sqh = np.sqrt(self.s), np.sqrt(self.sh)
        self.sq, self.sqh = sq, sqh
        self.ds = 1.0 / (ns - 1)
        odd = (xm.astype(int) % 2 == 1)
        signgs = int(w.signgs)
        self.signgs = signgs
        self.phipF = arr(w.phipf) * signgs / (2 * np.pi)   # internal phi'
        self.phipH = arr(w.phips)[1:]
        self.chipH = arr(w.iotas)[1:] * self.phipH

        def prep(tab, lam=False):
            a = np.array(arr(tab), copy=True)              # (mn, ns)
            if lam:
                a = a * self.phipF[None, :]
            a[odd, 1:] = a[odd, 1:] / sq[None, 1:]
            m1 = xm == 1
            a[m1, 0] = a[m1, 1]
            big = xm > 1
            a[big, 0] = 0.0
            if lam:
                a[xm == 0, 0] = a[xm == 0, 1]
            return a
        rc, zs_, ls = prep(w.rmnc), prep(w.zmns), prep(w.lmns_full, True)
        if self.lasym:
            rs_, zc, lc = prep(w.rmns), prep(w.zmnc), prep(w.lmnc_full, True)
        z0 = np.zeros_like(rc)
        if not self.lasym:
            rs_, zc, lc = z0, z0, z0

        def ev(c, s_, par):
            sel = odd if par else ~odd
            return np.einsum("mj,mtz->jtz", c[sel], C[sel]) + np.einsum("mj,mtz->jtz", s_[sel], S[sel])

        def evu(c, s_, par):
            sel = odd if par else ~odd
            m = xm[sel][:, None]
            return np.einsum("mj,mtz->jtz", -m * c[sel], S[sel]) + np.einsum("mj,mtz->jtz", m * s_[sel], C[sel])

        def evv(c, s_, par):
            sel = odd if par else ~odd
            n = xn[sel][:, None]
            return np.einsum("mj,mtz->jtz", n * c[sel], S[sel]) + np.einsum("mj,mtz->jtz", -n * s_[sel], C[sel])
        r = [ev(rc, rs_, p) for p in (0, 1)]
        z = [ev(zc, zs_, p) for p in (0, 1)]
        ru = [evu(rc, rs_, p) for p in (0, 1)]
        zu = [evu(zc, zs_, p) for p in (0, 1)]
        rv = [evv(rc, rs_, p) for p in (0, 1)]
        zv = [evv(zc, zs_, p) for p in (0, 1)]
        lu = [evu(lc, ls, p) for p in (0, 1)]
        lv = [-evv(lc, ls, p) for p in (0, 1)]             # stored as -dlambda/dzeta
        lu[0] = lu[0] + self.phipF[:, None, None]
        self.r, self.z, self.ru, self.zu, self.rv, self.zv, self.lu, self.lv = r, z, ru, zu, rv, zv, lu, lv
        H = sqh[:, None, None]
        self.H = H

        def half(x):
            return 0.5 * ((x[0][1:] + x[0][:-1]) + H * (x[1][1:] + x[1][:-1]))

        def dhalf(x):
            return ((x[0][1:] - x[0][:-1]) + H * (x[1][1:] - x[1][:-1])) / self.ds
        self.r12, self.ru12, self.zu12 = half(r), half(ru), half(zu)
        self.rv12, self.zv12 = half(rv), half(zv)
        self.rs, self.zs = dhalf(r), dhalf(z)
        o, i = slice(1, None), slice(None, -1)
        tau1 = self.ru12 * self.zs - self.rs * self.zu12
        tau2 = (ru[1][o] * z[1][o] + ru[1][i] * z[1][i] - zu[1][o] * r[1][o] - zu[1][i] * r[1][i]
                + (ru[0][o] * z[1][o] + ru[0][i] * z[1][i] - zu[0][o] * r[1][o] - zu[0][i] * r[1][i]) / H)
        self.tau = tau1 + 0.25 * tau2
        self.g = self.tau * self.r12
        sF = self.s[:, None, None]

        def met(a, b):
            """average over the two neighbouring surfaces of the product of two
            full functions, with the sqrt(s) cross terms on the half grid"""
            ee = a[0] * b[0] + sF * a[1] * b[1]
            eo = a[0] * b[1] + a[1] * b[0]
            return 0.5 * (ee[o] + ee[i]) + 0.5 * H * (eo[o] + eo[i])
        self.guu = met(ru, ru) + met(zu, zu)
        self.guv = met(ru, rv) + met(zu, zv)
        self.gvv = met(r, r) + met(rv, rv) + met(zv, zv)
        if self.ntor == 0:
            self.guv = 0 * self.guv
        self.bsupv = half(lu) / self.g
        self.bsupu = (half(lv) + self.chipH[:, None, None]) / self.g
        self.bsubu = self.guu * self.bsupu + self.guv * self.bsupv
        self.bsubv0 = self.guv * self.bsupu + self.gvv * self.bsupv
        self.bsq = self.bsupu * self.bsubu + self.bsupv * self.bsubv0
        self.modb = np.sqrt(np.abs(self.bsq))
        self.bvco0 = self.avg(self.bsubv0)
        self.buco0 = self.avg(self.bsubu)
        # alternative, blended interpolation of B_zeta used for the output
        gg = self.gvv / self.g
        ns1 = ns - 1
        full = np.zeros((ns,) + self.g.shape[1:])
        blend = (2 * pdamp * (1 - self.s))[:, None, None]
        for j in range(1, ns1):
            alt = 0.5 * (gg[j - 1] + gg[j]) * lu[0][j] + \
                0.5 * (gg[j - 1] * sqh[j - 1] + gg[j] * sqh[j]) * lu[1][j]
            if self.ntor > 0:
                alt = alt + 0.5 * (self.guv[j - 1] * self.bsupu[j - 1] + self.guv[j] * self.bsupu[j])
            av = 0.5 * (self.bsubv0[j - 1] + self.bsubv0[j])
            full[j] = av * (1 - blend[j]) + alt * blend[j]
        bv = np.array(self.bsubv0, copy=True)
        for jh in range(ns1 - 2, -1, -1):
            bv[jh] = 2.0 * full[jh + 1] - bv[jh + 1]
        bv -= (self.avg(bv) - self.bvco0)[:, None, None]
        self.bsubv = bv
        self.rs12 = self.rs + half([0 * r[0], r[1]]) / H / (2 * H)
        self.zs12 = self.zs + half([0 * z[0], z[1]]) / H / (2 * H)
        self.bsubs = self.bsupu * (self.rs12 * self.ru12 + self.zs12 * self.zu12) + \
            self.bsupv * (self.rs12 * self.rv12 + self.zs12 * self.zv12)
        # filtered covariant components
        self.fbsubu = self.lowpass(self.bsubu)
        self.fbsubv = self.lowpass(self.bsubv)

    def avg(self, f):
        return f.mean(axis=(1, 2))

    def lowpass(self, f):
        """keep m < mpol, |n| <= ntor"""
        F = np.fft.fft2(f, axes=(1, 2))
        m = np.abs(np.fft.fftfreq(self.nt, 1.0 / self.nt))
        n = np.abs(np.fft.fftfreq(self.nz, 1.0 / self.nz))
        keep = (m[:, None] < self.mpol - 0.5) & (n[None, :] <= self.ntor + 0.5)
        return np.real(np.fft.ifft2(F * keep[None], axes=(1, 2)))

    def nyq_tables(self, f, parity):
        """Fourier coefficients of f on the output's extended mode set, as
        (mn, ns-1): cos table and sin table.  Classic conventions at the edge of
        the spectrum: both |m|=ntheta/2 and |n|=floor(nzeta/2) cosines carry half
        weight."""
        w = self.w
        xm, xn = arr(w.xm_nyq), arr(w.xn_nyq) / self.nfp
        N = self.nt * self.nz
        cu = np.cos(np.outer(xm, self.th))
        su = np.sin(np.outer(xm, self.th))
        cv = np.cos(np.outer(xn, self.ze * self.nfp))
        sv = np.sin(np.outer(xn, self.ze * self.nfp))
        cu[xm == self.nt // 2] *= 0.5
        if self.nz // 2 != 0:
            cv[np.abs(xn) == self.nz // 2] *= 0.5

        def pr(a, b):
            return np.einsum("jtz,mt,mz->mj", f, a, b, optimize=True)
        norm = np.where((xm == 0) & (xn == 0), 1.0, 2.0)[:, None] / N
        c = norm * (pr(cu, cv) + pr(su, sv))
        s = norm * (pr(su, cv) - pr(cu, sv))
        return c, s

    def table(self, name):
        """Expected reported table (mn, ns) by name."""
        src = {"gmn": self.g, "bmn": self.modb, "bsubumn": self.fbsubu, "bsubvmn": self.fbsubv,
               "bsupumn": self.bsupu, "bsupvmn": self.bsupv, "bsubsmn": self.bsubs}
        c, s = self.nyq_tables(src[name[:-1]], None)
        t = c if name.endswith("c") else s
        out = np.zeros((t.shape[0], self.ns))
        out[:, 1:] = t
        if name.startswith("bsubs"):
            out[:, 0] = 2 * out[:, 1] - out[:, 2]
        return out


def currents(w, which, axis=True):
    """currumn*/currvmn* from the reported covariant tables (Ampere's law)."""
    ns = int(w.ns)
    s = np.linspace(0, 1, ns)
    sq = np.sqrt(s)
    sh = np.sqrt(0.5 * (s[1:] + s[:-1]))
    sh = np.concatenate([[0.0], sh])
    xm, xn = arr(w.xm_nyq), arr(w.xn_nyq)
    cosine = which == "c"
    bs = arr(w.bsubsmns if cosine else w.bsubsmnc)
    bu = arr(w.bsubumnc if cosine else w.bsubumns)
    bv = arr(w.bsubvmnc if cosine else w.bsubvmns)
    sg = -1.0 if cosine else 1.0
    cu = np.zeros_like(bu)
    cv = np.zeros_like(bu)
    odd = xm.astype(int) % 2 == 1
    for j in range(1, ns - 1):
        t1 = np.where(odd, 0.5 * (sh[j + 1] * bs[:, j + 1] + sh[j] * bs[:, j]) / sq[j],
                      0.5 * (bs[:, j + 1] + bs[:, j]))

        def dd(b):
            b0, b1 = b[:, j] / sh[j], b[:, j + 1] / sh[j + 1]
            return np.where(odd, (ns - 1) * (b1 - b0) * sq[j] + 0.25 * (b0 + b1) / sq[j],
                            (ns - 1) * (b[:, j + 1] - b[:, j]))
        cu[:, j] = sg * xn * t1 - dd(bv)
        cv[:, j] = sg * xm * t1 + dd(bu)
    if ns > 3:
        low = xm <= 1
        for c in (cu, cv):
            c[low, 0] = 2 * c[low, 1] - c[low, 2]
            c[:, -1] = 2 * c[:, -2] - c[:, -3]
    return cu / MU0, cv / MU0


def relerr(a, b, scale=None):
    a, b = arr(a), arr(b)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        if np.array_equal(np.isnan(a), np.isnan(b)) and np.array_equal(a[np.isfinite(a)], b[np.isfinite(b)]):
            return 0.0
        return np.inf
    sc = scale if scale is not None else max(np.max(np.abs(a)), np.max(np.abs(b)))
    if sc == 0:
        return float(np.max(np.abs(a - b)))
    return float(np.max(np.abs(a - b)) / sc)
