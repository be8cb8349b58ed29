"""C07: reported scalars and profiles match their definitions.

Monitor: for every returned output of the workload all reported global
quantities, profiles and point arrays are recomputed from the reported geometry
(independent numpy code) and compared; quantities reported in several places are
compared with each other."""
import numpy as np

from vplib import eq, work

MU0 = eq.MU0
PI = np.pi
TOL = 1e-8


class Cmp:
    def __init__(self, tag):
        self.viol, self.n, self.tag, self.worst = [], 0, tag, {}

    def __call__(self, name, got, exp, tol=TOL, scale=None):
        got, exp = np.asarray(got, float), np.asarray(exp, float)
        self.n += max(1, int(exp.size))
        if got.shape != exp.shape:
            self.viol.append({"key": f"{name}/{self.tag}", "msg": f"{name}: shape {got.shape}, expected {exp.shape}"})
            return
        e = eq.relerr(got, exp, scale)
        self.worst[name] = e
        if not e < tol:
            i = None
            if exp.ndim and exp.size:
                d = np.nan_to_num(np.abs(got - exp), nan=np.inf)
                i = np.unravel_index(int(np.argmax(d)), d.shape)
            self.viol.append({
                "key": f"{name}/{self.tag}",
                "msg": f"{name} differs from its definition by {e:.2e} (relative)",
                "detail": {"error": e, "index": None if i is None else [int(x) for x in i],
                           "got": float(got if i is None else got[i]), "expected": float(exp if i is None else exp[i])}})

    def same(self, name, a, b):
        a, b = np.asarray(a), np.asarray(b)
        self.n += max(1, int(a.size))
        ok = a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f")
        if not ok:
            self.viol.append({"key": f"{name}/{self.tag}", "msg": f"{name}: two reports of the same quantity differ",
                              "detail": {"a": a.ravel()[:8].tolist(), "b": b.ravel()[:8].tolist()}})


def h2f(x):
    """half grid (ns-1) -> interior full points"""
    return 0.5 * (x[1:] + x[:-1])


def lin(x):
    """fill both ends of a full-grid profile by linear extrapolation"""
    x = np.array(x, float)
    x[0] = 2 * x[1] - x[2]
    x[-1] = 2 * x[-2] - x[-3]
    return x


def check(o, d, tag):
    c = Cmp(tag)
    w = o.wout
    R = eq.Recon(w, d.get("ntheta", 0), d.get("nzeta", 0))
    ns, nt, nz, sg, ds = R.ns, R.nt, R.nz, R.signgs, R.ds
    lasym = R.lasym
    ntr = nt // 2 + 1                      # theta in [0, pi]
    nte = nt if lasym else ntr
    A = R.avg
    g, r12, bsupu, bsupv = R.g, R.r12, R.bsupu, R.bsupv
    bsubu, bsubv = R.fbsubu, R.fbsubv

    # ---------------- profiles ----------------
    vp = sg * A(g)
    c("vp", w.vp[1:], vp)
    pres = np.asarray(w.pres, float)[1:]   # Pa, half grid
    mp = MU0 * pres
    gamma = float(d.get("gamma", 0.0))
    c("mass", np.asarray(w.mass)[1:], pres * vp ** gamma)
    for n in ("vp", "pres", "mass", "iotas", "buco", "bvco", "phips", "over_r", "beta_vol"):
        if np.asarray(getattr(w, n))[0] != 0:
            c.viol.append({"key": f"axis-entry/{n}/{tag}", "msg": f"{n}[0] is not 0 (half-grid convention)"})
    presf = np.empty(ns)
    presf[1:-1] = h2f(pres)
    presf[0], presf[-1] = 1.5 * pres[0] - .5 * pres[1], 1.5 * pres[-1] - .5 * pres[-2]
    c("presf", w.presf, presf)
    iotas = np.asarray(w.iotas, float)[1:]
    iotaf = np.empty(ns)
    iotaf[1:-1] = h2f(iotas)
    iotaf[0], iotaf[-1] = 1.5 * iotas[0] - .5 * iotas[1], 1.5 * iotas[-1] - .5 * iotas[-2]
    c("iotaf", w.iotaf, iotaf)
    with np.errstate(divide="ignore"):
        c("q_factor", np.asarray(w.q_factor) * np.asarray(w.iotaf), np.ones(ns)
          if np.all(np.asarray(w.iotaf) != 0) else np.asarray(w.q_factor) * np.asarray(w.iotaf))
    phipH, chipH = R.phipH, R.chipH
    phi = np.concatenate([[0.0], np.cumsum(phipH)]) * ds * 2 * PI * sg
    c("phi", w.phi, phi)
    chi = np.concatenate([[0.0], np.cumsum(chipH)]) * ds * 2 * PI
    c("chi", w.chi, chi)
    chipf = np.asarray(w.chipf, float) * sg / (2 * PI)
    exp = chipf.copy()
    exp[1:-1] = h2f(chipH)
    exp[-1] = 2 * chipH[-1] - chipH[-2]
    c("chipf", chipf[1:], exp[1:])
    buco, bvco = A(bsubu), A(bsubv)
    c("buco", np.asarray(w.buco)[1:], buco, scale=max(np.max(np.abs(buco)), 1e-5 * np.max(np.abs(bvco))))
    c("bvco", np.asarray(w.bvco)[1:], bvco)
    jcurv, jcuru = np.zeros(ns), np.zeros(ns)
    jcurv[1:-1] = sg * np.diff(buco) / ds / MU0
    jcuru[1:-1] = -sg * np.diff(bvco) / ds / MU0
    jsc = np.max(np.abs(bvco)) / ds / MU0
    dpds, vpf = np.zeros(ns), np.zeros(ns)
    dpds[1:-1] = np.diff(mp) / ds
    vpf[1:-1] = h2f(vp)
    phipF = R.phipF
    num = chipf * jcurv * MU0 - phipF * jcuru * MU0 + dpds * vpf
    den = np.abs(chipf * jcurv * MU0) + np.abs(phipF * jcuru * MU0) + np.abs(dpds * vpf)
    equif = np.zeros(ns)
    with np.errstate(invalid="ignore", divide="ignore"):
        equif[1:-1] = num[1:-1] / den[1:-1]
    if ns > 3:
        jcurv, jcuru, dpds, vpf = lin(jcurv), lin(jcuru), lin(dpds), lin(vpf)
        c("jcurv", w.jcurv, jcurv, 1e-7, scale=max(np.max(np.abs(jcurv)), 1e-5 * jsc))
        c("jcuru", w.jcuru, jcuru, 1e-7, scale=max(np.max(np.abs(jcuru)), 1e-5 * jsc))
        # cancellation: resolution of equif is the round-off of its terms
        tol = 1e-13 * np.max(np.abs(phipF)) * np.max(np.abs(bvco)) / ds
        dmin = np.min(den[1:-1])
        if np.isfinite(equif).all() and tol < 1e-4 * dmin:
            c("equif", w.equif, lin(equif), tol / dmin * 100 + 1e-8, scale=1.0)
    Bp = A(g * 0.5 * R.bsq) * sg / vp      # <B^2/2>
    beta_vol = mp / Bp
    c("beta_vol", np.asarray(w.beta_vol)[1:], beta_vol)
    c("over_r", np.asarray(w.over_r)[1:], sg * A(g / r12) / vp)

    # ---------------- edge geometry ----------------
    rE, zE = R.r[0][-1] + R.r[1][-1], R.z[0][-1] + R.z[1][-1]
    ruE, zuE = R.ru[0][-1] + R.ru[1][-1], R.zu[0][-1] + R.zu[1][-1]
    rvE, zvE = R.rv[0][-1] + R.rv[1][-1], R.zv[0][-1] + R.zv[1][-1]
    area = 2 * PI * abs(np.mean(rE * zuE))
    vol = 2 * PI ** 2 * abs(np.mean(rE ** 2 * zuE))
    guuE = ruE ** 2 + zuE ** 2
    dS = np.sqrt(rE ** 2 * guuE + (rvE * zuE - zvE * ruE) ** 2)
    surf = 4 * PI ** 2 * np.mean(dS)
    circ = 2 * PI * np.mean(np.sqrt(guuE))
    rmaj, amin = vol / (2 * PI * area), np.sqrt(area / PI)
    gm = o.threed1_geometric_magnetic
    c("volume", w.volume, vol)
    c("volume vs dV/ds", 4 * PI ** 2 * ds * np.sum(vp), vol, 0.2)     # sanity, O(ds^2)
    c("Rmajor_p", w.Rmajor_p, rmaj)
    c("Aminor_p", w.Aminor_p, amin)
    c("aspect", w.aspect, rmaj / amin)
    c("cross_area_p", gm.cross_area_p, area)
    c("surf_area_p", gm.surf_area_p, surf)
    c("circum_p", gm.circum_p, circ)
    dk = surf * amin / (2 * vol)
    c("kappa_p", gm.kappa_p, 1 + PI ** 2 / 8 * (dk ** 2 + np.sqrt(abs(dk ** 4 - 1)) - 1), 1e-6)
    c("rmax_surf", w.rmax_surf, np.max(rE))
    c("rmin_surf", w.rmin_surf, np.min(rE))
    # (a stellarator-symmetric surface is sampled on [0, pi]; the other half has -Z)
    c("zmax_surf", w.zmax_surf, np.max(zE[:nte]) if w.lasym else np.max(np.abs(zE[:nte])))
    c("rcen", gm.rcen, 0.5 * (rE[0, 0] + rE[ntr - 1, 0]))
    r00 = R.r[0][0][0, 0]
    c("aminr1", gm.aminr1, np.sqrt(2 * vol / (4 * PI ** 2 * r00)))
    planes = [0] + ([nz // 2] if R.ntor > 0 else [])
    c("waist", gm.waist, [rE[0, k] - rE[ntr - 1, k] for k in planes])
    c("height", gm.height, [2 * max(0.0, np.max(zE[:nte, k])) for k in planes])

    # ---------------- fields and energies ----------------
    rbtor0, rbtor = 1.5 * bvco[0] - .5 * bvco[1], 1.5 * bvco[-1] - .5 * bvco[-2]
    c("rbtor0", w.rbtor0, rbtor0)
    c("rbtor", w.rbtor, rbtor)
    c("b0", w.b0, rbtor0 / r00)
    ctor = sg * 2 * PI * (1.5 * buco[-1] - .5 * buco[-2]) / MU0
    csc = 2 * PI * max(np.max(np.abs(buco)), 1e-5 * np.max(np.abs(bvco))) / MU0
    c("ctor", w.ctor, ctor, scale=csc)
    wb = ds * np.sum(np.abs(A(g * .5 * R.bsq)))
    wp = ds * np.sum(vp * mp)
    c("wb", w.wb, wb)
    c("wp", w.wp, wp)
    vn = 4 * PI ** 2 * ds
    sump = vn * np.sum(vp * mp)
    ag = sg * g
    tp = .5 * R.bsq + mp[:, None, None]
    sumbtot = 2 * (vn * np.sum(A(tp * ag)) - sump)
    sumbtor = vn * np.sum(A(ag * (r12 * bsupv) ** 2))
    sumbpol = sumbtot - sumbtor
    betatot, betapol, betator = 2 * sump / sumbtot, 2 * sump / sumbpol, 2 * sump / sumbtor
    c("betatotal", w.betatotal, betatot)
    c("betapol", w.betapol, betapol, 1e-6)
    c("betator", w.betator, betator)
    c("betaxis", w.betaxis, 1.5 * beta_vol[0] - .5 * beta_vol[1])
    vab = np.sqrt(abs(sumbtot / vol))
    c("volavgB", w.volavgB, vab)
    c("IonLarmor", w.IonLarmor, 3.2e-3 / vab)
    c("pavg", gm.pavg, sump / vol)
    c("factor", gm.factor, 2 * sump / vol)
    c("geomag.toroidal_flux", gm.toroidal_flux, 2 * PI * ds * np.sum(A(ag * bsupv)))
    v = o.threed1_volumetrics
    for nm, x in (("p", sump), ("bpol", .5 * sumbpol), ("btor", .5 * sumbtor), ("modb", .5 * sumbtot),
                  ("ekin", 1.5 * sump)):
        c("int_" + nm, getattr(v, "int_" + nm), x / MU0, 1e-6 if nm == "bpol" else TOL)
        c("avg_" + nm, getattr(v, "avg_" + nm), x / MU0 / vol, 1e-6 if nm == "bpol" else TOL)
    b = o.threed1_betas
    c("betstr", b.betstr, 2 * np.sqrt(vn * np.sum(mp ** 2 * vp) / vol) / (sumbtot / vol))
    modb = R.modb
    c("bmax", gm.bmax, modb[:, :ntr, :].max(axis=2))
    c("bmin", gm.bmin, modb[:, :ntr, :].min(axis=2))
    c("psi", gm.psi, sg * chi)

    # ---------------- current-density arrays ----------------
    j = o.jxbout

    def lay(f):
        """(.., theta, zeta) -> reported point order"""
        return np.transpose(f[:, :nte, :], (0, 2, 1)).reshape(f.shape[0], -1)
    bsfull = np.zeros((ns,) + g.shape[1:])
    bsfull[1:-1] = h2f(R.bsubs)

    def dang(f, axis):
        F = np.fft.fft2(f, axes=(1, 2))
        m = np.fft.fftfreq(nt, 1.0 / nt)
        n = np.fft.fftfreq(nz, 1.0 / nz)
        keep = (np.abs(m)[:, None] < R.mpol - .5) & (np.abs(n)[None, :] <= R.ntor + .5)
        k = (m[:, None] if axis == 0 else n[None, :] * R.nfp) * np.ones((nt, nz))
        k[(np.abs(m)[:, None] == nt / 2) | ((np.abs(n)[None, :] == nz / 2) & (nz > 1))] *= 0 if nz % 2 == 0 else 1
        return np.real(np.fft.ifft2(1j * k * F * keep[None], axes=(1, 2)))
    bsu, bsv = dang(bsfull, 0), dang(bsfull, 1)
    it, iz = np.zeros_like(bsfull), np.zeros_like(bsfull)
    it[1:-1] = (bsv[1:-1] - np.diff(bsubv, axis=0) / ds) / MU0
    iz[1:-1] = (-bsu[1:-1] + np.diff(bsubu, axis=0) / ds) / MU0
    sqrtg = h2f(g)
    bu3 = h2f(bsupu * g) / sqrtg
    bv3 = h2f(bsupv * g) / sqrtg
    buf, bvf = h2f(bsubu), h2f(bsubv)
    bdotk = np.zeros_like(bsfull)
    bdotk[1:-1] = it[1:-1] * buf + iz[1:-1] * bvf
    # round-off scale of the differences
    jscale = np.max(np.abs(bsubv)) / ds / MU0
    jt = dict(tol=1e-7)
    mask = slice(1, -1)
    jm = max(np.max(np.abs(it)), np.max(np.abs(iz)), 1e-5 * jscale)
    c("jxbout.itheta", j.itheta[mask], lay(it)[mask], 1e-6, scale=jm)
    if ns > 3:
        c("jxbout.izeta", j.izeta, lin(lay(iz)), 1e-6, scale=jm)
    c("jxbout.bdotk", j.bdotk[mask], lay(bdotk)[mask], 1e-6, scale=jm * np.max(np.abs(bsubv)))
    ovpF = 1.0 / (4 * PI ** 2 * h2f(vp))
    O = ovpF[:, None, None]
    pp = np.diff(pres) / ds
    jxb = O * (it[1:-1] * bv3 - iz[1:-1] * bu3)
    c("jxbout.bsupu3", j.bsupu3[mask], lay(bu3))
    c("jxbout.bsupv3", j.bsupv3[mask], lay(bv3))
    c("jxbout.sqrtg3", j.sqrtg3[mask], lay(sqrtg * O))
    c("jxbout.jsupu3", j.jsupu3[mask], lay(O * it[1:-1]), 1e-6, scale=jm * np.max(ovpF))
    c("jxbout.jsupv3", j.jsupv3[mask], lay(O * iz[1:-1]), 1e-6, scale=jm * np.max(ovpF))
    fsc = max(np.max(np.abs(jxb)), 1e-5 * np.max(ovpF) * jscale * np.max(np.abs(bv3)))
    c("jxbout.jcrossb", j.jcrossb[mask], lay(jxb), 1e-6, scale=fsc)
    c("jxbout.jxb_gradp", j.jxb_gradp[mask], lay(jxb - (pp * ovpF)[:, None, None]), 1e-6, scale=fsc)
    c("jxbout.jdotb_sqrtg", j.jdotb_sqrtg[mask], lay(O * bdotk[1:-1]), 1e-6,
      scale=jm * np.max(np.abs(bsubv)) * np.max(ovpF))
    c("jxbout.bsubs3", j.bsubs3[mask], lay(bsfull)[mask])
    ex = np.zeros_like(bsubu)
    ex[:-1] = bsubu[:-1]
    bsc = max(np.max(np.abs(bsubu)), 1e-6 * np.max(np.abs(bsubv)))
    c("jxbout.bsubu3", j.bsubu3, lay(ex), scale=bsc)
    ex = np.zeros_like(bsubv)
    ex[:-1] = bsubv[:-1]
    c("jxbout.bsubv3", j.bsubv3, lay(ex))
    js = np.zeros_like(bsubv)
    js[:-1] = ((dang(bsubu, 1) - dang(bsubv, 0)) / MU0 / (4 * PI ** 2 * vp)[:, None, None])[:-1]
    c("jxbout.jsups3", j.jsups3, lay(js), 1e-6,
      scale=max(np.max(np.abs(js)), 1e-6 * np.max(np.abs(bsubv)) / MU0 / np.min(np.abs(vp)) / 40))
    avf = A(jxb - (pp * ovpF)[:, None, None])
    c("jxbout.avforce", j.avforce[mask], avf, 1e-6, scale=fsc)
    F = (jxb - (pp * ovpF)[:, None, None])
    pn = 1.0 / (np.abs(pp * ovpF) + np.finfo(float).eps)
    hi = F.reshape(ns - 2, -1).max(1) * pn
    lo = F.reshape(ns - 2, -1).min(1) * pn
    relsc = fsc * pn * 1e-6
    for nm, x in (("amaxfor", 100 * np.minimum(hi, 9.999)), ("aminfor", 100 * np.maximum(lo, -9.999))):
        got = np.asarray(getattr(j, nm))[mask]
        if np.all(100 * relsc < 1.0):
            c("jxbout." + nm, got, x, 1e-6, scale=max(np.max(np.abs(x)), 100 * np.max(relsc) * 1e6 * 1e-3))
    # profiles of jxbout
    pprim = np.zeros(ns)
    pprim[1:-1] = pp * ovpF
    jdotb, bdotb, bdg, jpar2, jperp2 = (np.zeros(ns) for _ in range(5))
    tj = sg * ovpF * 4 * PI ** 2
    sqgb2 = (g * (.5 * R.bsq))[1:] + (g * (.5 * R.bsq))[:-1]
    jdotb[1:-1] = tj * A(bdotk[1:-1])
    bdotb[1:-1] = tj * A(sqgb2)
    bdg[1:-1] = tj * h2f(phipH)
    jpar2[1:-1] = tj * A(bdotk[1:-1] ** 2 / sqgb2)
    ku = bvf * pp[:, None, None] / sqgb2
    kv = -buf * pp[:, None, None] / sqgb2
    kp2 = ku ** 2 * h2f(R.guu) + 2 * ku * kv * h2f(R.guv) + kv ** 2 * h2f(R.gvv)
    jperp2[1:-1] = tj * A(kp2 * sqrtg)
    if ns > 3:
        pprim, jdotb, bdotb, bdg = lin(pprim), lin(jdotb), lin(bdotb), lin(bdg)
        c("jxbout.pprim", j.pprim, pprim, 1e-7, scale=max(np.max(np.abs(pprim)), 1e-300))
        c("jdotb", w.jdotb, jdotb, 1e-6, scale=max(np.max(np.abs(jdotb)), 1e-5 * jscale * np.max(np.abs(bsupv))))
        c("bdotb", w.bdotb, bdotb)
        c("bdotgradv", w.bdotgradv, bdg)
    c("jxbout.jpar2", j.jpar2, jpar2, 1e-5,
      scale=max(np.max(np.abs(jpar2)), (1e-5 * jscale) ** 2 * np.max(bsupv ** 2)))
    c("jxbout.jperp2", j.jperp2, jperp2, 1e-6, scale=max(np.max(np.abs(jperp2)), 1e-300))
    phin = phi / phi[-1]
    c("jxbout.phin", j.phin, phin)
    jps = np.zeros(ns)
    jps[1:-1] = jpar2[1:-1] - jdotb[1:-1] ** 2 / bdotb[1:-1]
    s2 = np.sum(jperp2[1:-1] * (vp[1:] + vp[:-1]))
    if s2 > 1e-6 * np.sum(jpar2) * np.mean(vp):
        t2 = vp[1:] + vp[:-1]
        c("jpar_perp", gm.jpar_perp, np.sum(jpar2[1:-1] * t2) / s2, 1e-5)
        c("jparPS_perp", gm.jparPS_perp, np.sum(jps[1:-1] * t2) / s2, 1e-4,
          scale=max(abs(np.sum(jpar2[1:-1] * t2) / s2), 1e-300))
        ok = jperp2[1:-1] > 1e-6 * np.max(jperp2)
        x = np.where(ok, np.asarray(gm.loc_jpar_perp)[1:-1], 0)
        y = np.where(ok, jpar2[1:-1] / np.where(ok, jperp2[1:-1], 1), 0)
        c("loc_jpar_perp", x, y, 1e-4)
        x = np.where(ok, np.asarray(gm.loc_jparPS_perp)[1:-1], 0)
        z = np.where(ok, jps[1:-1] / np.where(ok, jperp2[1:-1], 1), 0)
        c("loc_jparPS_perp", x, z, 1e-4, scale=max(np.max(np.abs(y)), 1e-300))

    mercier(c, o, R, d, mp, vp, bdotk, buco)
    first_table(c, o, R, phi, jcuru, jcurv, vpf, dpds, presf, buco, bvco)
    planes_table(c, gm, R, ntr)
    shafranov(c, o, d, R, rE, zE, ruE, zuE, dS, tp, rbtor, vol, surf, circ, area, sump, sumbpol, mp)
    copies(c, o, d)
    spectral(c, o, R)
    history(c, o, d)
    return c


def mercier(c, o, R, d, mp, vp, bdotk, buco):
    w, m, ns, sg, ds = o.wout, o.mercier, R.ns, R.signgs, R.ds
    A = R.avg
    phr = 2 * PI * R.phipH * sg
    vpr = sg * 4 * PI ** 2 * vp / phr
    tor = sg * 2 * PI * buco
    pf = h2f(phr)
    den = pf * ds
    iotas = np.asarray(w.iotas, float)[1:]
    shear, vpp, dp, dI = (np.diff(x) / den for x in (iotas, vpr, mp, tor))
    gf = h2f(R.g)
    bdj = bdotk[1:-1] * MU0 / gf
    gfp = gf / pf[:, None, None]
    sq = R.sq[1:-1, None, None]

    def full(x):
        return x[0][1:-1] + sq * x[1][1:-1]
    rt, zt, rz, zz, r1 = full(R.ru), full(R.zu), full(R.rv), full(R.zv), full(R.r)
    gpp = gfp ** 2 / ((rt ** 2 + zt ** 2) * r1 ** 2 + (rt * zz - rz * zt) ** 2)
    b2 = h2f(R.bsq)
    f4 = 4 * PI ** 2
    tpp, tbb = f4 * A(gfp / b2), f4 * A(b2 * gfp * gpp)
    tjb, tjj = f4 * A(bdj * gpp * gfp), f4 * A(bdj ** 2 * gpp * gfp / b2)
    vpf = h2f(vpr)
    S = slice(1, -1)
    c("mercier.s", m.s, np.linspace(0, 1, ns))
    c("mercier.iota", m.iota[S], h2f(iotas))
    c("mercier.toroidal_flux", m.toroidal_flux[S], np.cumsum(pf) * ds)

    def dsc(x, terms):
        # round-off floor of a radial difference
        return max(np.max(np.abs(x)), 1e-7 * terms)
    c("mercier.shear", m.shear[S], shear / vpf, 1e-7, scale=dsc(shear / vpf, np.max(np.abs(iotas)) / np.min(np.abs(den * vpf))))
    c("mercier.d_volume_d_s", m.d_volume_d_s[S], vpf)
    c("mercier.well", m.well[S], -vpp * sg, 1e-7, scale=dsc(vpp, np.max(np.abs(vpr)) / np.min(np.abs(den))))
    tsc = max(np.max(np.abs(tor)), 1e-5 * 2 * PI * abs(float(w.rbtor)))
    c("mercier.toroidal_current", m.toroidal_current[S], h2f(tor), scale=tsc)
    c("mercier.d_toroidal_current_d_s", m.d_toroidal_current_d_s[S], dI / vpf, 1e-6,
      scale=max(np.max(np.abs(dI / vpf)), tsc / np.min(np.abs(den * vpf))))
    c("mercier.pressure", m.pressure[S], h2f(mp))
    c("mercier.d_pressure_d_s", m.d_pressure_d_s[S], dp / vpf, 1e-7)
    Dsh, Dcu = shear ** 2 / 4, -shear * (tjb - dI * tbb)
    Dwe, Dge = dp * (vpp - dp * tpp) * tbb, tjb ** 2 - tbb * tjj
    tot = Dsh + Dcu + Dwe + Dge
    eps = 1e-10
    # point-wise round-off floors of each term
    scale = np.abs(shear) ** 2 / 4 + np.abs(shear * tjb) + np.abs(shear * dI * tbb) + np.abs(dp * vpp * tbb) \
        + np.abs(dp ** 2 * tpp * tbb) + tjb ** 2 + np.abs(tbb * tjj)
    B = np.max(np.abs(R.fbsubv)) / ds
    jfl = 1e-9 * B * np.max(np.abs(R.bsupv)) + np.sqrt(np.max(np.abs(tjj)) + 1e-300) * 0
    floor = np.max(tbb * f4 * A((jfl / gf) ** 2 * np.abs(gpp * gfp) / b2)) + \
        np.max(np.abs(shear)) * np.max(f4 * A(jfl / np.abs(gf) * np.abs(gpp * gfp)))
    sc = np.max(scale) + floor
    for nm, x in (("Dshear", Dsh), ("Dcurr", Dcu), ("Dwell", Dwe), ("Dgeod", Dge), ("DMerc", tot)):
        got = np.asarray(getattr(m, nm), float)[S]
        c("mercier." + nm, got, x, 1e-6, scale=max(np.max(np.abs(x)), 1e-4 * sc))
        # per-surface comparison with per-surface scale (profiles span decades)
        loc = np.maximum(np.maximum(np.abs(x), 1e-3 * scale), floor)
        c("mercier.local." + nm, got / loc, x / loc, 1e-4, scale=1.0)
    for a, b in (("DMerc", "DMerc"), ("DShear", "Dshear"), ("DWell", "Dwell"), ("DCurr", "Dcurr"), ("DGeod", "Dgeod")):
        c.same(f"wout.{a} = mercier.{b}", getattr(w, a), getattr(m, b))


def first_table(c, o, R, phi, jcuru, jcurv, vpf, dpds, presf, buco, bvco):
    t, w, ns, sg, ds = o.threed1_first_table, o.wout, R.ns, R.signgs, R.ds
    c("first_table.s", t.s, np.linspace(0, 1, ns))
    c.same("first_table.radial_force = wout.equif", t.radial_force, w.equif)
    c("first_table.toroidal_flux", t.toroidal_flux, phi)
    c.same("first_table.iota = wout.iotaf", t.iota, w.iotaf)
    c.same("first_table.spectral_width = wout.specw", t.spectral_width, w.specw)
    c.same("first_table.pressure = wout.presf", t.pressure, w.presf)
    c.same("first_table.j_dot_b = wout.jdotb", t.j_dot_b, w.jdotb)
    c.same("first_table.b_dot_b = wout.bdotb", t.b_dot_b, w.bdotb)
    bu, bv = np.zeros(ns), np.zeros(ns)
    bu[1:-1], bv[1:-1] = h2f(buco), h2f(bvco)
    bu[-1], bv[-1] = 1.5 * buco[-1] - .5 * buco[-2], 1.5 * bvco[-1] - .5 * bvco[-2]
    bv[0] = 1.5 * bvco[0] - .5 * bvco[1]
    c("first_table.bvco_full", t.bvco_full, bv)
    c("first_table.buco_full", t.buco_full, bu, scale=max(np.max(np.abs(bu)), 1e-5 * np.max(np.abs(bv))))
    if ns > 3:
        pl = np.empty(ns)
        pl[1:-1] = h2f(R.phipH)
        pl[0], pl[-1] = 1.5 * R.phipH[0] - .5 * R.phipH[1], 1.5 * R.phipH[-1] - .5 * R.phipH[-2]
        pl *= 2 * PI * sg
        c("first_table.d_volume_d_phi", t.d_volume_d_phi, 4 * PI ** 2 * sg * vpf / pl)
        c("first_table.d_pressure_d_phi", t.d_pressure_d_phi, dpds / pl / MU0, 1e-7)
        js = np.max(np.abs(bvco)) / ds / MU0 / np.min(np.abs(vpf)) * 1e-5
        c("first_table.avg_jsupu", t.avg_jsupu, jcuru / vpf, 1e-6, scale=max(np.max(np.abs(jcuru / vpf)), js))
        c("first_table.avg_jsupv", t.avg_jsupv, jcurv / vpf, 1e-6, scale=max(np.max(np.abs(jcurv / vpf)), js))


def planes_table(c, gm, R, ntr):
    """shape parameters in the symmetry planes"""
    ns, nz = R.ns, R.nz
    sq = R.sq[:, None, None]
    r, z = R.r[0] + sq * R.r[1], R.z[0] + sq * R.z[1]
    ex = {k: np.zeros(2 * ns) for k in ("ygeo", "yinden", "yellip", "ytrian", "yshift")}
    amb = {k: np.zeros(2 * ns, bool) for k in ex}
    for p in range(2 if nz > 1 else 1):
        k = 0 if p == 0 else nz // 2
        for j in range(1, ns):
            X = np.concatenate([r[j, :ntr, k], r[j, :ntr, (nz - k) % nz]])
            Z = np.concatenate([z[j, :ntr, k], -z[j, :ntr, (nz - k) % nz]])
            xa, xb = r[j, ntr - 1, k], r[j, 0, k]
            W = X.max() - X.min()
            rg = .5 * (xa + xb)
            i = p * ns + j
            ex["ygeo"][i] = .5 * (xb - xa)
            ex["yinden"][i] = (xa - X.min()) / W
            ex["yellip"][i] = (Z.max() - Z.min()) / W
            top = np.flatnonzero(Z > Z.max() - 1e-9 * W)
            ex["ytrian"][i] = (rg - X[top[-1]]) / W
            amb["ytrian"][i] = np.ptp(X[top]) > 1e-9 * W
            # the reported extrema scan treats the running maximum first; an
            # extremum at the very first sample cannot become a minimum
            if Z.max() <= 0 or Z.argmin() == 0 or np.all(np.diff(Z) >= 0):
                amb["yellip"][i] = amb["ytrian"][i] = True
            if X.argmin() == 0:
                for kk in ("yinden", "yellip", "ytrian", "yshift"):
                    amb[kk][i] = True
            ex["yshift"][i] = (R.r[0][0][0, k] - rg) / W
    for k in ex:
        got = np.asarray(getattr(gm, k), float)
        if got.shape != ex[k].shape:
            c(k, got, ex[k])
            continue
        c(k, np.where(amb[k], 0, got), np.where(amb[k], 0, ex[k]), 1e-6, scale=max(1e-6, np.max(np.abs(ex[k]))))


def shafranov(c, o, d, R, rE, zE, ruE, zuE, dS, tp, rbtor, vol, surf, circ, area, sump, sumbpol, mp):
    s, ns, ds = o.threed1_shafranov_integrals, R.ns, R.ds
    if d.get("lfreeb"):
        return          # uses the vacuum field on the surface, which is not reported
    sg = R.signgs
    vn = 4 * PI ** 2 * ds
    ag = sg * R.g
    bv = rbtor / R.r12
    b1 = R.r12 * R.bsupv
    db = b1 ** 2 - bv ** 2
    ph = (tp - .5 * bv ** 2 - db) * ag
    rsh = np.sum(ph) / np.sum(ph / R.r12)
    bsqE = 1.5 * tp[-1] - .5 * tp[-2]
    pE = bsqE - .5 * (rbtor / rE) ** 2
    bte = (1.5 * R.bsupv[-1] - .5 * R.bsupv[-2]) * rE
    bp2 = 2 * bsqE - bte ** 2
    am = vol / surf
    fac = 1.0 / (4 * PI ** 2 * am * np.mean(bp2 * dS))
    fn = fac * 4 * PI ** 2
    s0, s1 = fn * np.mean(rE * pE * zuE), fn * np.mean(rE ** 2 * pE * zuE)
    z1 = -fn * np.mean(rE * pE * ruE * zE)
    er = s1 + z1
    rc = o.threed1_geometric_magnetic.rcen
    rl = vol / (2 * PI * area)
    cur = MU0 * float(d.get("curtor", 0.0)) / circ
    big = max(abs(fn) * np.mean(np.abs(rE ** 2 * bsqE * zuE)), 1e-300)
    t = 1e-7
    c("shafranov.scaling_ratio", s.scaling_ratio, fac * cur ** 2 * vol, 1e-6)
    c("shafranov.r_lao", s.r_lao, rl)
    c("shafranov.f_lao", s.f_lao, rsh / rl, 1e-6)
    c("shafranov.f_geo", s.f_geo, rsh / rc, 1e-6)
    c("shafranov.smaleli", s.smaleli, fac * sumbpol, 1e-5)
    c("shafranov.betai", s.betai, 2 * fac * sump, 1e-5)
    c("shafranov.musubi", s.musubi, -vn * fac * np.sum(R.avg(db * ag)), 1e-6,
      scale=max(abs(fac) * vn * np.sum(R.avg(bv ** 2 * ag)) * 1e-3, 1e-300))
    c("shafranov.lambda", s.lambda_, .5 * fac * sumbpol + 2 * fac * sump, 1e-5)
    for nm, x in (("s11", er - rsh * s0), ("s12", er - rc * s0), ("s13", er - rl * s0), ("s2", s0 * rsh), ("s3", z1)):
        c("shafranov." + nm, getattr(s, nm), x, 1e-6, scale=max(abs(x), 1e-3 * big))
    c("shafranov.delta1", s.delta1, 0.0)
    c("shafranov.delta2", s.delta2, 1 - rsh / rc, 1e-6, scale=1.0)
    c("shafranov.delta3", s.delta3, 1 - rsh / rl, 1e-6, scale=1.0)


def copies(c, o, d):
    """the same quantity reported in several places, and input echoes"""
    w, gm, b, ax, j = (o.wout, o.threed1_geometric_magnetic, o.threed1_betas, o.threed1_axis, o.jxbout)
    for a, x in (("volume", gm.volume_p), ("Rmajor_p", gm.Rmajor_p), ("Aminor_p", gm.Aminor_p), ("aspect", gm.aspect),
                 ("b0", gm.b0), ("rmax_surf", gm.rmax_surf), ("rmin_surf", gm.rmin_surf), ("zmax_surf", gm.zmax_surf),
                 ("volavgB", gm.VolAvgB), ("IonLarmor", gm.IonLarmor), ("rbtor", gm.rbtor), ("rbtor0", gm.rbtor0),
                 ("ctor", gm.toroidal_current), ("betapol", gm.betapol), ("betatotal", gm.betatot), ("betator", gm.betator)):
        c.same(f"wout.{a} = geometric_magnetic", getattr(w, a), x)
    for a, x in (("betatotal", b.betatot), ("betapol", b.betapol), ("betator", b.betator), ("betaxis", b.betaxis),
                 ("rbtor", b.rbtor), ("jdotb", j.jdotb), ("bdotb", j.bdotb), ("bdotgradv", j.bdotgradv),
                 ("raxis_cc", ax.raxis_symm), ("zaxis_cs", ax.zaxis_symm)):
        c.same(f"wout.{a} = threed1/jxbout", getattr(w, a), x)
    xm, xn = np.asarray(w.xm), np.asarray(w.xn)
    m0 = (xm == 0)
    c("axis.raxis_cc", w.raxis_cc, np.asarray(w.rmnc)[m0, 0])
    c("axis.zaxis_cs", w.zaxis_cs, np.asarray(w.zmns)[m0, 0] if w.ntor else np.zeros(1))
    if w.lasym:
        c("axis.zaxis_cc", w.zaxis_cc, np.asarray(w.zmnc)[m0, 0])
        c("axis.raxis_cs", w.raxis_cs, np.asarray(w.rmns)[m0, 0])
        c.same("wout.raxis_cs = threed1_axis", w.raxis_cs, ax.raxis_asym)
        c.same("wout.zaxis_cc = threed1_axis", w.zaxis_cc, ax.zaxis_asym)
    for n in ("nfp", "mpol", "ntor", "lasym", "lfreeb", "gamma"):
        if n in d:
            c.same(f"wout.{n} = input", getattr(w, n), d[n])
    for n, size, pad in (("am", 21, 0.0), ("ac", 21, 0.0), ("ai", 21, 0.0), ("am_aux_s", 101, -1.0), ("am_aux_f", 101, 0.0),
                         ("ac_aux_s", 101, -1.0), ("ac_aux_f", 101, 0.0), ("ai_aux_s", 101, -1.0), ("ai_aux_f", 101, 0.0)):
        v = list(d.get(n, []))
        ex = np.full(max(size, len(v)), pad)
        ex[:len(v)] = v
        c.same(f"wout.{n} = input", np.asarray(getattr(w, n), float), ex)
    for n in ("pmass_type", "piota_type", "pcurr_type"):
        if n in d:
            c.same(f"wout.{n} = input", str(getattr(w, n)).strip(), d[n])
    c.same("wout.ftolv = input", w.ftolv, d["ftol_array"][-1])
    c.same("wout.ns = input", int(w.ns), int(d["ns_array"][-1]))
    c.same("wout.extcur = input", np.asarray(w.extcur, float), np.asarray(d.get("extcur", []), float))
    c.same("wout.nextcur = input", int(w.nextcur), len(d.get("extcur", [])))
    c.same("wout.ier_flag", int(w.ier_flag), 0)
    for n in ("jdotb", "bdotb"):
        c.same(f"jxbout.{n} = wout.{n}", getattr(j, n), getattr(w, n))


def spectral(c, o, R):
    w = o.wout
    xm, xn = np.asarray(w.xm), np.asarray(w.xn)
    got = np.asarray(w.specw, float)
    num, den = np.zeros(R.ns), np.zeros(R.ns)
    tabs = [np.asarray(w.rmnc, float), np.asarray(w.zmns, float)]
    if w.lasym:
        tabs += [np.asarray(w.rmns, float), np.asarray(w.zmnc, float)]
    for m in range(1, int(w.mpol)):
        for n in range(int(w.ntor) + 1):
            ip = np.flatnonzero((xm == m) & (xn == n * int(w.nfp)))[0]
            im = np.flatnonzero((xm == m) & (xn == -n * int(w.nfp)))[0]
            for t in tabs:
                if n == 0:
                    q = t[ip] ** 2
                else:      # product-basis amplitudes
                    q = (t[ip] + t[im]) ** 2 + (t[ip] - t[im]) ** 2
                num += q * m ** 5
                den += q * m ** 4
    ex = np.ones(R.ns)
    ex[1:] = num[1:] / den[1:]
    # the spectral width is that of the last stored iterate (reference
    # convention), so it trails the final state by a few iterations
    c("specw", got, ex, 2e-3)


def history(c, o, d):
    w = o.wout
    n = int(w.itfsq)
    hr, hz, hl = (np.asarray(getattr(w, k), float) for k in ("force_residual_r", "force_residual_z", "force_residual_lambda"))
    if not (hr.shape == hz.shape == hl.shape == (n,) and np.asarray(w.fsqt).shape == (n,) and np.asarray(w.wdot).shape == (n,)
            and np.asarray(w.restart_reason_timetrace).shape == (n,)):
        c.viol.append({"key": f"history/shape/{c.tag}", "msg": "residual histories have inconsistent lengths",
                       "detail": [n, hr.shape, hz.shape, hl.shape, np.asarray(w.fsqt).shape, np.asarray(w.wdot).shape]})
        return
    c.same("fsqt = sum of residual histories", np.asarray(w.fsqt, float), hr + hz + hl)
    # the converged evaluation itself is not appended to the history
    tol = float(w.ftolv)
    if n and max(hr[-1], hz[-1], hl[-1]) <= tol and int(d.get("lfreeb") or 0) == 0:
        c.viol.append({"key": f"history/late/{c.tag}",
                       "msg": "the history contains a converged evaluation although iterations went on"})
    if max(float(w.fsqr), float(w.fsqz), float(w.fsql)) > tol:
        c.viol.append({"key": f"history/ftol/{c.tag}", "msg": "a converged output reports residuals above ftolv",
                       "detail": [float(w.fsqr), float(w.fsqz), float(w.fsql), tol]})
    # the energy history: first entry is W, later ones relative changes; the
    # last energy must be that of the final state
    W = float(w.wdot[0])
    for x in np.asarray(w.wdot, float)[1:]:
        W = W / (1.0 - x)
    gam = float(d.get("gamma", 0.0))
    c("wdot accumulates to the final energy", W, float(w.wb) + float(w.wp) / (gam - 1.0), 1e-6)


def case(spec, threads=1):
    d, tag, must = work.spec_to_input(spec)
    try:
        o = work.solve(d, must, threads)
    except work.Skip as e:
        return {"skip": str(e), "evaluations": 0}
    c = check(o, d, tag)
    return {"viol": c.viol, "counters": {"equilibria": 1, "values compared": c.n,
                                         f"equilibria ({'free' if d.get('lfreeb') else 'fixed'} boundary)": 1},
            "evaluations": len(c.worst), "states": [work.describe(d)],
            "sample": {"input": work.describe(d), "quantities": len(c.worst),
                       "largest error": max(c.worst.items(), key=lambda kv: kv[1])}}


def main(ctx):
    ctx.package()
    sp = work.specs(ctx, 800 if ctx.thorough else 150, canon=work.CANONICAL + work.FREE)
    cases = [{"fn": "case", "tag": s.get("canon", "random"), "spec": s,
              "threads": 1 + (i % 3 == 2) * 2} for i, s in enumerate(sp)]
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    ctx.run_cases(cases)
    return ctx.finish(
        "exploration",
        "an equilibrium counts by its feature signature (symmetry, dimension, resolution, grids, constraint, options); "
        "every listed scalar, profile entry and point value is compared with an independent evaluation of its definition",
        ["discretised definitions (half/full radial mesh, extrapolation rules) are those of the reference code and "
         "the output documentation",
         "entries dominated by cancellation are compared relative to the round-off floor of their terms",
         "free-boundary Shafranov integrals use the unreported vacuum field and are not recomputed"],
        min_evaluations=2000, min_states=20)
