"""C19: the stepwise model API is a consistent function of its state.

Random sequences of model operations are executed against a small reference
machine (state, velocity, checkpoint, evaluation counter).  After every
operation the real state must equal the reference; at random points the model
is compared with a freshly created one that is given the same state (the value
may not depend on the history); curvature products are compared with finite
differences taken from outside, the preconditioner is checked for linearity
and for being what evaluate() applies, refinement for keeping shared surfaces,
and the raw force is compared with finite differences of the energy."""
import copy

import numpy as np

from vplib import inputs as I, work


def rel(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return np.inf
    if np.array_equal(a, b, equal_nan=True):
        return 0.0
    return float(np.max(np.abs(a - b)) / (np.max(np.abs(b)) + 1e-300))


def res(m):
    return np.array([m.fsqr, m.fsqz, m.fsql])


class Bench:
    def __init__(self, d, tag, seed, i):
        from vmecpp.cpp import _vmecpp
        self.M = _vmecpp.VmecModel
        self.S = _vmecpp.MultigridInterpolationScheme
        self.rng = np.random.default_rng([seed, i, 19])
        self.d, self.tag = d, tag
        for k in ("mpol_geometry", "ntor_geometry"):
            d.pop(k, None)  # with a truncated geometry evaluate() projects the state
        self.ind = I.mk(d)._to_cpp_vmecindata()
        self.viol, self.n, self.states = [], 0, set()
        self.cnt = {"operations": 0, "fresh comparisons": 0, "bad Jacobian states": 0, "finite differences": 0}

    def bad(self, key, msg):
        self.viol.append({"key": f"{key}/{self.tag}", "msg": msg})

    def eq(self, a, b, key, msg, tol=0.0):
        self.n += 1
        r = rel(a, b)
        if not r <= tol:
            self.bad(key, f"{msg} (relative {r:.1e})")

    def sample_states(self, ns):
        m = self.M.create(self.ind, ns)
        x0 = m.get_state().copy()
        m.solve()
        xc = m.get_state().copy()
        return x0, xc

    def noisy(self, x, ns):
        """a nearby state: interior surfaces change smoothly"""
        X = x.reshape(-1, ns, self.d["mpol"] * (self.d["ntor"] + 1)).copy()
        s = np.linspace(0, 1, ns)[None, :, None]
        X *= 1 + 3e-3 * self.rng.standard_normal((X.shape[0], 1, X.shape[2])) * s * (1 - s) * 4
        return X.ravel()


def machine(spec, seed, i, steps):
    d, tag, must = work.spec_to_input(spec)
    ns = int(np.random.default_rng([seed, i]).choice([5, 6, 7, 9]))
    I.single(d, ns, 1e-9, 600)
    b = Bench(d, tag, seed, i)
    rng = b.rng
    x0, xc = b.sample_states(ns)
    m = b.M.create(b.ind, ns)
    b.eq(m.get_state(), x0, "create", "two models created alike start from different states")
    for k, v in (("ns", ns), ("mpol", d["mpol"]), ("ntor", d["ntor"]), ("lasym", bool(d.get("lasym"))), ("ftolv", 1e-9), ("niterv", 600), ("lthreed", d["ntor"] > 0)):
        b.n += 1
        if getattr(m, k) != v:
            b.bad(f"attribute/{k}", f"{k} is {getattr(m, k)!r}, input says {v!r}")
    x, vel, back, count = x0.copy(), np.zeros_like(x0), x0.copy(), m.force_eval_count
    F, ok, pre_ok = None, False, False
    backed = False
    for step in range(steps):
        op = str(rng.choice(["set", "set", "eval", "eval", "raw", "step", "save", "restore", "zerov", "reset", "hvp", "prec", "fresh", "fresh", "count"]))
        b.cnt["operations"] += 1
        b.states.add(f"{op} {'3d' if d['ntor'] else '2d'} {'asym' if d.get('lasym') else 'sym'} ok={ok}")
        if op == "set":
            t = rng.uniform(0.3, 1.0)
            x = b.noisy(t * xc + (1 - t) * x0 if rng.random() < 0.7 else xc, ns)
            m.set_state(x)
            F = None
        elif op in ("eval", "raw"):
            it = int(rng.integers(2, 60))
            m.evaluate(it, it, precondition=op == "eval")
            count += 1
            ok = m.restart_reason != 2
            b.cnt["bad Jacobian states"] += not ok
            F = m.get_forces().copy() if ok else None
            pre_ok = op == "eval" and ok
            if ok:
                r1, e1 = res(m), m.mhd_energy
                m.evaluate(it, it, precondition=op == "eval")
                count += 1
                b.eq(m.get_forces(), F, f"repeat/{op}", "evaluating the same state twice gives different forces", 1e-11)
                b.eq(res(m), r1, f"repeat-res/{op}", "evaluating the same state twice gives different residuals", 1e-11)
                b.eq([m.mhd_energy], [e1], f"repeat-energy/{op}", "evaluating the same state twice gives different energies", 1e-13)
                if not (np.all(np.isfinite(F)) and np.all(res(m) >= 0) and np.isfinite(m.mhd_energy)):
                    b.bad(f"finite/{op}", "a state with a good Jacobian has non-finite forces or residuals")
        elif op == "step" and F is not None:
            vs, cj, dt = rng.uniform(0.2, 1), rng.uniform(0, 1), 1e-2 * rng.uniform(0.1, 1)
            if np.max(np.abs(F)) * dt * dt > 1e-3 * np.max(np.abs(x)):
                dt = float(np.sqrt(1e-3 * np.max(np.abs(x)) / np.max(np.abs(F))))
            m.perform_time_step(vs, cj, dt)
            vel = vs * (cj * vel + dt * F)
            xn = x + dt * vel
            y = m.get_state()
            b.eq(y - x, xn - x, "time-step", "a time step is not x += dt*velocity", 1e-9)
            x = y.copy()
            F = None
        elif op == "save":
            m.save_backup()
            back, backed = x.copy(), True
        elif op == "restore" and backed:
            m.restore_backup()
            x, vel, F = back.copy(), np.zeros_like(x), None
        elif op == "zerov":
            m.zero_velocity()
            vel = np.zeros_like(x)
        elif op == "reset":
            m.reset_to_initial_guess()
            x, F = x0.copy(), None
        elif op == "count":
            b.n += 1
            if m.force_eval_count != count:
                b.bad("count", f"force_eval_count {m.force_eval_count}, {count} evaluations were made")
            if rng.random() < 0.3:
                m.reset_force_eval_count()
                count = 0
        elif op == "hvp":
            m.evaluate(2, 2, precondition=False)
            count += 1
            if m.restart_reason != 2:
                v = rng.standard_normal(len(x)) * np.abs(xc)
                if not np.any(v):
                    continue
                h = m.hessian_vector_product(v)
                count += 2
                b.eq(m.get_state(), x, "hvp-state", "a curvature product disturbs the state")
                for far in (1e-2, 1.0, 1e6):       # so far away that there is no plasma any more
                    try:
                        m.hessian_vector_product(v, far)
                    except Exception:
                        pass
                    b.eq(m.get_state(), x, "hvp-state", "a curvature product with a large step disturbs the state")
                m.reset_force_eval_count()
                count = 0
                if np.any(m.hessian_vector_product(np.zeros_like(v))):
                    b.bad("hvp-zero", "curvature times zero is not zero")
                eps = 1e-7 * (1 + np.linalg.norm(x)) / np.linalg.norm(v)
                o = b.M.create(b.ind, ns)
                f, good = [], True
                for s in (1, -1):
                    o.set_state(x + s * eps * v)
                    o.evaluate(2, 2, precondition=False)
                    good &= o.restart_reason != 2
                    f.append(o.get_forces().copy())
                if good:
                    b.cnt["finite differences"] += 1
                    b.eq(h, (f[0] - f[1]) / (2 * eps), "hvp-fd", "curvature product differs from finite differences of the force", 1e-3)
                    h2 = m.hessian_vector_product(-2.5 * v)
                    count += 2
                    b.eq(h2, -2.5 * h, "hvp-linear", "curvature product is not homogeneous", 1e-3)
                    for sc in (1e-6, 1e6):
                        b.eq(m.hessian_vector_product(sc * v) / sc, h, "hvp-linear", f"curvature product is not homogeneous ({sc:g})", 1e-3)
                        count += 2
            ok, pre_ok, F = False, False, None
        elif op == "prec" and pre_ok:
            u, v, a = rng.standard_normal(len(x)), rng.standard_normal(len(x)), rng.uniform(-2, 2)
            pu, pv = m.apply_preconditioner(u).copy(), m.apply_preconditioner(v).copy()
            b.eq(m.apply_preconditioner(u + a * v), pu + a * pv, "prec-linear", "the preconditioner is not linear", 1e-9)
            b.eq(m.apply_preconditioner(u), pu, "prec-repeat", "the preconditioner changes between applications", 1e-13)
            if F is not None:
                b.eq(m.get_forces(), F, "prec-forces", "applying the preconditioner disturbs the forces")
        elif op == "fresh":
            it = int(rng.integers(1, 60))
            pre = bool(rng.random() < 0.5)
            o = b.M.create(b.ind, ns)
            o.set_state(x)
            m.evaluate(it, it, precondition=pre)
            o.evaluate(it, it, precondition=pre)
            count += 1
            b.cnt["fresh comparisons"] += 1
            b.n += 1
            if m.restart_reason != o.restart_reason:
                b.bad("history-reason", f"restart reason {m.restart_reason}, a fresh model with the same state gives {o.restart_reason}")
            ok = o.restart_reason != 2
            F, pre_ok = (m.get_forces().copy(), pre) if ok else (None, False)
            if ok:
                w = "preconditioned" if pre else "raw"
                b.eq(m.get_forces(), o.get_forces(), f"history-forces/{w}", "forces depend on the history of the model", 1e-10)
                b.eq(res(m), res(o), f"history-residuals/{w}", "residuals depend on the history of the model", 1e-9)
                b.eq([m.mhd_energy], [o.mhd_energy], "history-energy", "the energy depends on the history of the model", 1e-12)
                if pre:
                    b.eq([m.fsqr1, m.fsqz1, m.fsql1], [o.fsqr1, o.fsqz1, o.fsql1], "history-residuals1", "preconditioned residuals depend on the history", 1e-9)
                    raw = b.M.create(b.ind, ns)
                    raw.set_state(x)
                    raw.evaluate(it, it, precondition=False)
                    b.eq(m.apply_preconditioner(raw.get_forces()), F, "prec-evaluate", "the preconditioned force is not the preconditioner applied to the raw force", 1e-9)
                    R = raw.get_forces()
                    k = len(R) // 3
                    a, c = raw.fsqr / np.sum(R[:k] ** 2), raw.fsqz / np.sum(R[k:2 * k] ** 2)
                    if it != 1 and np.all(R[:k].reshape(-1, ns, d["mpol"] * (d["ntor"] + 1))[:, -1] == 0):
                        b.eq([a], [c], "residual-norm", "the R and Z residuals are not the same norm of the force", 1e-8)
        b.eq(m.get_state(), x, f"state-after/{op}", f"the state is not what it should be after {op}")
        if len(b.viol) > 5:
            break
    return {"viol": b.viol, "evaluations": b.n, "states": sorted(b.states), "counters": b.cnt, "sample": {"input": work.describe(d), **b.cnt}}


def linear(X, n2):
    """linear in s; odd m divided by sqrt(s) (the innermost surface's value on
    the axis), extrapolated to the axis, zero on the axis"""
    ns = X.shape[1]

    def scal(n):
        r = np.sqrt(np.arange(n) / (n - 1))
        return np.maximum(r, r[1])
    odd = np.arange(X.shape[2]) % 2 == 1
    Z = X.copy()
    Z[:, :, odd] /= scal(ns)[None, :, None, None]
    Z[:, 0, odd] = 2 * Z[:, 1, odd] - Z[:, 2, odd]
    Y = np.empty((X.shape[0], n2) + X.shape[2:])
    for j in range(n2):
        p = j * (ns - 1) / (n2 - 1)
        k = min(int(np.floor(p + 1e-9)), ns - 2)
        Y[:, j] = (1 - (p - k)) * Z[:, k] + (p - k) * Z[:, k + 1]
    Y[:, :, odd] *= scal(n2)[None, :, None, None]
    Y[:, 0, odd] = 0
    return Y


def refine(spec, seed, i):
    d, tag, must = work.spec_to_input(spec)
    rng = np.random.default_rng([seed, i, 191])
    ns = int(rng.choice([5, 6, 7]))
    f = int(rng.choice([2, 3]))
    n2 = f * (ns - 1) + 1
    I.single(d, ns, 1e-9, 600)
    d["ns_array"], d["ftol_array"], d["niter_array"] = [ns, n2], [1e-9, 1e-8], [600, 300]
    b = Bench(d, tag, seed, i)
    x0, xc = b.sample_states(ns)
    nm = (d["mpol"], d["ntor"] + 1)
    for how in (None, "LINEAR", "CUBIC", "CUBIC_RHO"):
        m = b.M.create(b.ind, ns)
        m.set_state(xc)
        m.refine_to(n2, interpolation=None if how is None else getattr(b.S, how))
        X, Y = xc.reshape(-1, ns, *nm), m.get_state().reshape(-1, n2, *nm)
        b.eq(Y[:, ::f][:, 1:], X[:, 1:], f"refine-shared/{how}", "refinement changes shared surfaces", 1e-12)
        b.eq(Y[:, 0, ::2], X[:, 0, ::2], f"refine-axis/{how}", "refinement changes the axis", 1e-12)
        if how is None:
            ylin = Y.copy()
            b.eq(Y, linear(X, n2), "refine-linear", "default refinement is not linear in s between surfaces", 1e-10)
        elif how == "LINEAR":
            b.eq(Y, ylin, "refine-default", "default refinement is not the linear one")
        b.n += 1
        if (m.ns, m.ftolv, m.niterv) != (n2, 1e-8, 300):
            b.bad("refine-budget", f"after refinement ns, ftol, niter are {(m.ns, m.ftolv, m.niterv)}")
        # a refined model is a function of its state, too
        m.evaluate(2, 2, precondition=bool(i % 2))
        o = b.M.create(b.ind, n2)
        o.set_state(Y.ravel())
        o.evaluate(2, 2, precondition=bool(i % 2))
        b.n += 1
        if m.restart_reason != o.restart_reason:
            b.bad("refine-reason", "a refined model judges a state differently from a fresh one")
        if o.restart_reason != 2:
            b.eq(m.get_forces(), o.get_forces(), f"refine-history/{how}", "forces after refinement differ from those of a fresh model", 1e-10)
            b.eq([m.mhd_energy], [o.mhd_energy], "refine-energy", "energy after refinement differs from that of a fresh model", 1e-12)
        for bad_ns in (n2, n2 - 1, 3):
            b.n += 1
            try:
                m.refine_to(bad_ns)
                b.bad("refine-coarser", f"refine_to({bad_ns}) accepted at ns={n2}")
            except RuntimeError:
                pass
    # reinitialize: fresh state from a better axis, evaluation unaffected
    m = b.M.create(b.ind, ns)
    m.evaluate(1, 1)
    m.reinitialize()
    y = m.get_state().copy()
    m.evaluate(2, 2)
    o = b.M.create(b.ind, ns)
    o.set_state(y)
    o.evaluate(2, 2)
    if o.restart_reason != 2:
        b.eq(m.get_forces(), o.get_forces(), "reinit-history", "forces after reinitialize differ from those of a fresh model", 1e-10)
    b.eq(y.reshape(-1, ns, *nm)[:, -1], x0.reshape(-1, ns, *nm)[:, -1], "reinit-boundary", "reinitialize changes the boundary", 1e-12)
    m.reset_to_initial_guess()
    b.eq(m.get_state(), y, "reinit-reset", "reset_to_initial_guess does not return to the re-guessed initial state")
    # solving after an evaluation is like solving at once
    a, c = b.M.create(b.ind, ns), b.M.create(b.ind, ns)
    a.evaluate(1, 1)
    a.evaluate(2, 2, precondition=False)
    ra = rc = None
    try:
        a.solve()
    except RuntimeError as e:
        ra = str(e)
    try:
        c.solve()
    except RuntimeError as e:
        rc = str(e)
    b.n += 1
    if (ra is None) != (rc is None):
        b.bad("solve-after-evaluate", f"solve() after evaluate(): {ra}; solve() at once: {rc}")
    elif ra is None and c.status == 0 or (ra is None and len(c.force_residual_r) == len(a.force_residual_r)):
        b.eq(a.get_state(), c.get_state(), "solve-after-evaluate", "solve() after evaluate() ends elsewhere", 1e-4)
    return {"viol": b.viol, "evaluations": b.n, "states": [f"refine {ns}->{n2} {work.describe(d)}"], "counters": b.cnt}


def gradient(spec, seed, i, directions):
    """with prescribed iota and without the constraint force the raw R and Z
    forces are the derivative of the energy (times ns-1)"""
    d, tag, must = work.spec_to_input(spec)
    rng = np.random.default_rng([seed, i, 192])
    ns = int(rng.choice([5, 7, 8, 11]))
    I.single(d, ns, 1e-8, 500)
    e = copy.deepcopy(d)
    if e.get("ncurr"):
        for k in ("ai_aux_s", "ai_aux_f"):
            e.pop(k, None)
        e.update(ncurr=0, bloat=1.0, piota_type="power_series", ai=[0.3, 0.15, 0.1])
    e["tcon0"], e["lforbal"] = 0.0, False
    b = Bench(e, tag, seed, i)
    try:
        x0, xc = b.sample_states(ns)
    except RuntimeError as x:
        return {"skip": str(x)[:80], "evaluations": 0}
    m = b.M.create(b.ind, ns)
    nm = (e["mpol"], e["ntor"] + 1)
    for k in range(directions):
        x = b.noisy(xc, ns)
        m.set_state(x)
        m.evaluate(2, 2, precondition=False)
        if m.restart_reason == 2:
            continue
        F = m.get_forces().copy()
        v = rng.standard_normal(len(x)).reshape(-1, ns, *nm)
        keep = np.zeros_like(v)
        keep[: 2 * v.shape[0] // 3, 1:-1] = 1
        # the poloidal angle constraint couples the m=1 components, and on the
        # innermost surface they also determine the axis
        keep[:, :, 1] = 0
        keep[[0, v.shape[0] // 3], 2:-1, 1] = 1
        if k % 3 == 1:
            mm = int(rng.integers(0, nm[0]))
            keep[:, :, np.arange(nm[0]) != mm] = 0
        if k % 3 == 2:
            j = int(rng.integers(1, ns - 1))
            keep[:, np.arange(ns) != j] = 0
        v = (v * keep).ravel() * (F != 0)
        if not np.any(v):
            continue
        v /= np.linalg.norm(v)
        eps = 2e-4 * np.max(np.abs(x[: len(x) // 3].reshape(-1, ns, *nm)[:, :, 1:]))
        # Richardson: fourth-order difference quotient
        W = {}
        for s in (2, 1, 0.5, -0.5, -1, -2):
            m.set_state(x + s * eps * v)
            m.evaluate(2, 2, precondition=False)
            W[s] = m.mhd_energy if m.restart_reason != 2 else np.nan
        far = (8 * (W[1] - W[-1]) - (W[2] - W[-2])) / (12 * eps)
        D = (8 * (W[0.5] - W[-0.5]) - (W[1] - W[-1])) / (6 * eps)
        if not np.isfinite(D):
            continue
        b.cnt["finite differences"] += 1
        b.n += 1
        want = float(F @ v) / (ns - 1)
        scale = np.linalg.norm(F * (v != 0)) / (ns - 1) + 1e-9 * abs(W[1]) / eps
        if not abs(far - D) <= 2e-4 * scale:
            b.cnt["step too large for a difference quotient"] = b.cnt.get("step too large for a difference quotient", 0) + 1
            continue
        if not abs(D - want) <= 1e-4 * scale:
            b.bad("gradient", f"energy derivative {D:.8e}, force component {want:.8e} (direction kind {k % 3}, relative {abs(D - want) / scale:.1e})")
    return {"viol": b.viol, "evaluations": b.n, "states": [f"gradient ns={ns} {work.describe(d)}"], "counters": b.cnt}


def restart(spec, seed, i):
    """a model created from a converged result starts at that result"""
    import vmecpp
    from vmecpp.cpp import _vmecpp
    d, tag, must = work.spec_to_input(spec)
    for k in ("mpol_geometry", "ntor_geometry"):
        d.pop(k, None)
    ns = d["ns_array"][-1]
    I.single(d, ns, 1e-10, 3000)
    try:
        o = work.solve(d, must)
    except work.Skip as e:
        return {"skip": str(e), "evaluations": 0}
    b = Bench(d, tag, seed, i)
    m = b.M.create(b.ind, ns, _vmecpp.HotRestartState(o.wout._to_cpp_wout(), b.ind))
    r = []
    for k in range(2):
        m.evaluate(1, 1, precondition=False, always_fix_m1_gauge=bool(k))
        r.append(np.max(res(m)))
    b.n += 1
    if not min(r) <= 2e-9:
        b.bad("restart", f"residual {min(r):.1e} after creating a model from a result converged to 1e-10")
    return {"viol": b.viol, "evaluations": b.n, "states": [f"restart {work.describe(d)}"]}


def main(ctx):
    ctx.package()
    T = ctx.thorough
    cases = []
    canon = [c for c in work.CANONICAL if c != "cma"]
    for k, s in enumerate(work.specs(ctx, 400 if T else 90, canon=canon)):
        t = s.get("canon", "random")
        cases.append({"fn": "machine", "tag": t, "spec": s, "seed": ctx.seed, "i": k, "steps": 400 if T else 150})
        cases.append({"fn": "refine", "tag": t, "spec": s, "seed": ctx.seed, "i": k})
        cases.append({"fn": "gradient", "tag": t, "spec": s, "seed": ctx.seed, "i": k, "directions": 60 if T else 24})
        if k % 3 == 0 or T:
            cases.append({"fn": "restart", "tag": t, "spec": s, "seed": ctx.seed, "i": k})
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    ctx.run_cases(cases, env=ctx.env(), on_timeout="inconclusive", timeout=300)
    return ctx.finish(
        "exploration",
        "a state is an operation together with the kind of input and whether the current geometry is valid, or an input signature of a refinement, gradient or restart case",
        ["states with a bad Jacobian have no forces: only the flag is compared there",
         "evaluations with iter1 == iter2 (the preconditioner is refreshed); others use a preconditioner of an earlier state by design",
         "the energy derivative is compared for prescribed iota, without constraint force, for interior R and Z components; lambda forces use a different discretisation by design"],
        min_evaluations=3000, min_states=40)
