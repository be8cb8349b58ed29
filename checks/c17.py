"""C17: profile inputs are evaluated as their parameterisation defines.

Monitor: runs of the real solver (a few iterations are enough, the profiles are
constraints that hold at every iterate; converged runs too) over random
coefficients of every supported parameterisation and all scaling options; the
pressure/mass, iota, enclosed-current and flux profiles that the run reports are
compared with an independent evaluation of the parameterisation."""
import numpy as np

from vplib import eq, inputs as I, profiles as P, work

MU0 = eq.MU0


def torflux(aphi, x):
    return sum(a * x ** (i + 1) for i, a in enumerate(aphi))


def torfluxd(aphi, x):
    return sum((i + 1) * a * x ** i for i, a in enumerate(aphi))


def make(rng, pk, ik, ck):
    three = rng.random() < 0.25
    if three:
        d = work.li383_small()
        d["nzeta"], d["ntheta"] = 12, 16
    else:
        d = I.tokamak(rng)
    ns = [int(rng.choice([5, 8, 13, 21, 32]))]
    if rng.random() < 0.3:
        ns = [int(rng.choice([4, 5])), ns[0] + 3]
    d["ncurr"] = 0 if ck is None else 1
    c, x, y = P.draw(rng, "p", pk)
    d["pmass_type"], d["am"], d["am_aux_s"], d["am_aux_f"] = pk, c, x, y
    d["pres_scale"] = float(rng.uniform(10, 2000))
    c, x, y = P.draw(rng, "i", ik)
    d["piota_type"], d["ai"], d["ai_aux_s"], d["ai_aux_f"] = ik, c, x, y
    if ck is not None:
        c, x, y = P.draw(rng, "c", ck)
        d["pcurr_type"], d["ac"], d["ac_aux_s"], d["ac_aux_f"] = ck, c, x, y
        d["curtor"] = float(rng.choice([-1, 1]) * rng.uniform(1e3, 1e5))
    else:
        d["pcurr_type"], d["ac"], d["curtor"] = "power_series", [], 0.0
    if rng.random() < .3:
        a = float(rng.uniform(-.3, .5))
        d["aphi"] = [1 - a, a] if rng.random() < .5 else [0.6, .2, .2]
        if rng.random() < .3:        # the normalisation of aphi does not matter for the flux
            k = float(rng.choice([.5, .8]))
            d["aphi"] = [k * v for v in d["aphi"]]
    if rng.random() < .3:
        d["spres_ped"] = float(rng.uniform(.3, .95))
    if ck is not None and rng.random() < .35:
        d["bloat"] = float(rng.uniform(.6, 1.5))
    if rng.random() < .3:
        d["gamma"] = float(rng.choice([.5, 5. / 3., 2.0]))
        d["pres_scale"] *= 1e-2
    if rng.random() < .25:          # handedness: theta runs the other way, solver flips it
        for cc in d["zbs"]:
            cc["value"] *= -1
        d["zaxis_s"] = [-v for v in d["zaxis_s"]]
    return I.multi(d, ns, [1e-20] * len(ns), 2)


def expected(d, jac, ns):
    s = (np.arange(ns - 1) + .5) / (ns - 1)
    aphi = d.get("aphi") or [1.0]
    bloat = float(d.get("bloat", 1.0))
    norm = 1.0 / torflux(aphi, 1.0)
    phiedge = d["phiedge"]
    e = {}
    tf = np.minimum(torflux(aphi, s), 1.0)
    e["phipH"] = phiedge * norm * torfluxd(aphi, s)            # d(flux)/ds
    tfm = np.minimum(torflux(aphi, np.minimum(s, d.get("spres_ped", 1.0))), 1.0)
    ev = lambda f, kind, key, xs: np.array([f(kind, d.get(key) or [], d.get(key + "_aux_s") or [],
                                              d.get(key + "_aux_f") or [], float(x)) for x in xs])
    xb = lambda t: np.minimum(np.abs(t * bloat), 1.0)
    e["p"] = d["pres_scale"] * ev(P.pressure, d["pmass_type"], "am", xb(tfm))
    e["iota"] = ev(P.iota, d["piota_type"], "ai", tf)
    if d["ncurr"] == 1:
        I1 = ev(P.current, d["pcurr_type"], "ac", xb(np.array([1.0])))[0]
        e["I"] = ev(P.current, d["pcurr_type"], "ac", xb(tf)) / I1 * d["curtor"]
    return e


def compare(d, o, tag, flipped, ltol=None):
    w = o.wout
    ns = int(w.ns)
    e = expected(d, None, ns)
    viol, worst = [], {}

    def cmp(name, kind, got, exp, tol):
        got = np.asarray(got, float)
        sc = max(np.max(np.abs(exp)), 1e-300)
        err = float(np.max(np.abs(got - exp)) / sc) if np.all(np.isfinite(got)) else np.inf
        worst[name] = err
        if not err < tol:
            j = int(np.argmax(np.nan_to_num(np.abs(got - exp), nan=np.inf)))
            viol.append({"key": f"{name}/{kind}/{tag}",
                         "msg": f"{name} profile '{kind}' differs from its parameterisation by {err:.2e} (relative to its maximum)",
                         "detail": {"half-grid index": j, "got": got[j], "expected": exp[j]}})
    gam = float(d.get("gamma", 0.0))
    r00 = abs(I.coef(d, "rbc", 0, 0))
    phi = np.asarray(w.phi, float)
    cmp("flux", "aphi", np.diff(phi) * (ns - 1), e["phipH"], 1e-11)
    if abs(phi[-1] / d["phiedge"] - 1) > 1e-2 / 1 and (d.get("aphi") or [1.0]) == [1.0]:
        viol.append({"key": f"phiedge/{tag}", "msg": "edge flux is not phiedge"})
    mass = e["p"] * (np.abs(e["phipH"] / (2 * np.pi)) * r00) ** gam
    cmp("pressure", d["pmass_type"], np.asarray(w.mass)[1:], mass, 1e-9)
    if gam == 0.0:
        cmp("pressure (pres)", d["pmass_type"], np.asarray(w.pres)[1:], e["p"], 1e-9)
    if d["ncurr"] == 0:
        cmp("iota", d["piota_type"], np.asarray(w.iotas)[1:], (-1 if flipped else 1) * e["iota"], 1e-9)
    else:
        # enclosed current [A]: 2 pi <B_u> / mu0 (signed by the Jacobian)
        got = 2 * np.pi * np.asarray(w.buco, float)[1:] * int(w.signgs) / MU0
        quad = d["pcurr_type"] in ("gauss_trunc", "two_power", "two_power_gs")
        cmp("current", d["pcurr_type"], got, e["I"], (ltol or 2e-6) if quad else 1e-8)
    return viol, worst


def is_flipped(d):
    # the solver wants a left-handed (negative Jacobian) angle: R_10 Z_10 > 0
    return I.coef(d, "rbc", 1, 0) * I.coef(d, "zbs", 1, 0) < 0


def case(seed, i, pk, ik, ck):
    rng = np.random.default_rng([seed, i, 17])
    d = make(rng, pk, ik, ck)
    dd = dict(d, return_outputs_even_if_not_converged=True)
    try:
        o = work.solve(dd, False, 1 + int(rng.integers(0, 4)))
    except work.Skip as ex:
        return {"skip": str(ex), "evaluations": 0}
    tag = "ncurr%d" % d["ncurr"]
    viol, worst = compare(d, o, tag, is_flipped(d))
    feat = [k for k in ("aphi", "spres_ped", "bloat", "gamma") if d.get(k) not in (None, 0.0, 1.0, [1.0])]
    return {"viol": viol, "evaluations": len(worst), "counters": {
        f"pressure {pk}": 1, **({f"iota {ik}": 1} if ck is None else {f"current {ck}": 1})},
        "states": [f"{pk}|{ik if ck is None else ck}|{'+'.join(feat)}|{'flip' if is_flipped(d) else ''}"],
        "sample": {"profiles": [pk, ik, ck], "options": feat, "errors": worst}}


def callable_case(seed, i):
    """set_profile: exactly the function on all grid points of the run"""
    import vmecpp
    rng = np.random.default_rng([seed, i, 1717])
    d = make(rng, "power_series", "power_series", "power_series" if i % 3 == 2 else None)
    for k in ("bloat", "aphi", "spres_ped", "gamma"):
        d.pop(k, None)
    d["return_outputs_even_if_not_converged"] = True
    d["pres_scale"] = 1.0
    a, b, w = rng.uniform(.3, .6), rng.uniform(.2, .5), rng.uniform(2, 9)
    f = lambda s: a + b * np.sin(w * np.asarray(s)) ** 2
    which = ["pressure", "iota", "current"][i % 3]
    if which == "current":
        f = lambda s: np.asarray(s) * (a + b * np.sin(w * np.asarray(s)) ** 2)
    if which == "pressure":
        g = f
        f = lambda s: 1000 * g(s)
    stages = [int(d["ns_array"][-1])]
    if rng.integers(2):
        stages = sorted({int(rng.integers(3, 12)), int(rng.integers(5, 18)), stages[-1]})
        d = I.multi(d, stages, [1e-6] * len(stages), 60)
    vi = I.mk(d)
    before = vi.model_copy(deep=True)
    vj = vmecpp.set_profile(vi, which, f)
    viol = []
    if not same_model(vi, before):
        viol.append({"key": f"set_profile/modifies/{which}", "msg": "set_profile modified its argument"})
    states, skips = [], 0
    for k, n in enumerate([None, *stages[:-1]]):
        # the run itself, then every coarser stage of its schedule on its own
        vk = vj if n is None else vj.model_copy(deep=True, update={
            "ns_array": np.array([n]), "ftol_array": np.array([1e-6]), "niter_array": np.array([100])})
        try:
            o = vmecpp.run(vk, verbose=False, max_threads=1)
        except RuntimeError as ex:
            if n is None:
                return {"skip": str(ex)[:60], "evaluations": 0}
            skips += 1
            continue
        viol += on_grid(o.wout, which, f, d, "" if n is None else f"stage ns={n}: ")
        states.append(f"callable {which} ns{int(o.wout.ns)}{'' if n is None else ' stage'}")
    return {"viol": viol, "evaluations": 1 + len(states), "counters": {f"callable {which}": len(states)}, "states": states}


def on_grid(wo, which, f, d, where):
    viol = []
    ns = int(wo.ns)
    s = (np.arange(ns - 1) + .5) / (ns - 1)
    if which == "pressure":
        got, exp = np.asarray(wo.pres)[1:], f(s)
    elif which == "iota":
        got, exp = np.asarray(wo.iotas)[1:], f(s) * (-1 if is_flipped(d) else 1)
    else:
        got = 2 * np.pi * np.asarray(wo.buco)[1:] * int(wo.signgs) / MU0
        exp = f(s) / f(1.0) * d["curtor"]
    e = float(np.max(np.abs(got - exp)) / np.max(np.abs(exp)))
    if not e < (1e-8 if which == "current" else 1e-12):
        viol.append({"key": f"set_profile/{which}", "msg": f"{where}profile set from a callable is off by {e:.2e} on the run's grid"})
    return viol


def same_model(a, b):
    for k in type(a).model_fields:
        x, y = getattr(a, k), getattr(b, k)
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not np.array_equal(x, y):
                return False
        elif x != y:
            return False
    return True


def converged(spec):
    """full solves: the constraint still holds at the end"""
    d, tag, must = work.spec_to_input(spec)
    try:
        o = work.solve(d, must)
    except work.Skip as ex:
        return {"skip": str(ex), "evaluations": 0}
    flipped = is_flipped(d)
    if d.get("ncurr", 0) == 0 and d.get("lasym"):
        # handedness from the reported sign
        flipped = False if I.coef(d, "rbc", 1, 0) * I.coef(d, "zbs", 1, 0) > 0 else True
    d.setdefault("ncurr", 0)
    d.setdefault("pmass_type", "power_series")
    d.setdefault("piota_type", "power_series")
    d.setdefault("pcurr_type", "power_series")
    d.setdefault("pres_scale", 1.0)
    if d["ncurr"] == 1 and not d.get("curtor"):
        e = {"I": None}
        viol, worst = [], {}
        got = 2 * np.pi * np.asarray(o.wout.buco, float)[1:] / MU0
        sc = np.max(np.abs(o.wout.bvco)) * 2 * np.pi / MU0
        worst["zero current"] = float(np.max(np.abs(got)) / sc)
        if not worst["zero current"] < 1e-9:
            viol.append({"key": f"zero-current/{tag}", "msg": "a current-free input gives a net toroidal current"})
    else:
        viol, worst = compare(d, o, tag, flipped, 1e-5)
    return {"viol": viol, "evaluations": len(worst), "counters": {"converged runs": 1},
            "states": ["run " + work.describe(d)]}


def main(ctx):
    ctx.package()
    cases = []
    n = 60 if ctx.thorough else 16
    i = 0
    for rep in range(n):
        for k in range(max(len(P.P_KINDS), len(P.I_KINDS))):
            cases.append({"fn": "case", "tag": "iota", "seed": ctx.seed, "i": i, "pk": P.P_KINDS[(k + rep) % len(P.P_KINDS)],
                          "ik": P.I_KINDS[k % len(P.I_KINDS)], "ck": None})
            i += 1
        for k in range(len(P.C_KINDS)):
            cases.append({"fn": "case", "tag": "curr", "seed": ctx.seed, "i": i, "pk": P.P_KINDS[(k + rep) % len(P.P_KINDS)],
                          "ik": "power_series", "ck": P.C_KINDS[k]})
            i += 1
    for k in range(30 if ctx.thorough else 12):
        cases.append({"fn": "callable_case", "tag": "callable", "seed": ctx.seed, "i": k})
    sp = work.specs(ctx, 120 if ctx.thorough else 24, canon=work.CANONICAL + work.FREE)
    cases += [{"fn": "converged", "tag": s.get("canon", "random"), "spec": s} for s in sp]
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    ctx.run_cases(cases)
    return ctx.finish(
        "exploration",
        "a state is a combination of pressure and iota/current parameterisation with the scaling options in force; every "
        "half-grid value of the flux, pressure/mass, iota or enclosed-current profile is compared with an independent evaluation",
        ["parameterisations are those of the reference documentation in radial_profiles.cc (VMEC2000 conventions)",
         "integrated analytic profiles may use 10-point quadrature: tolerance 2e-6 on smooth coefficient choices",
         "profiles are constraints of the iteration, so two-iteration runs show them exactly; converged runs are checked as well"],
        min_evaluations=400, min_states=60)
