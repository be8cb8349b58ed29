"""C13: the Python-driven iteration follows the native solver.

The same input (plain, with a bad initial axis, with a time step that forces
restarts, with a budget that is too small) is solved by vmecpp.run, by the
native single-stage loop of VmecModel.solve and by the Python drivers; the
residual and restart traces, the outcome and the final state are compared
entry by entry, and the records handed to the callback go through an online
checker of the sequence."""
import copy

import numpy as np

from vplib import inputs as I, work

STYLES = ("vmec_8_52", "parvmec")


def variant(d, var):
    e = copy.deepcopy(d)
    if var == "axis":
        e["raxis_c"] = [float(x) for x in e["raxis_c"]]
        e["raxis_c"][0] += 0.85 * abs(I.coef(e, "rbc", 1, 0))
    elif var.startswith("axis"):
        # some of these give huge forces rather than a bad Jacobian
        e["raxis_c"] = [float(x) for x in e["raxis_c"]]
        e["raxis_c"][0] += float(var[4:]) * abs(I.coef(e, "rbc", 1, 0))
    elif var.startswith("ell"):
        # shaped so that the forces stay huge after the axis has been guessed again
        a = float(var[3:]) * abs(I.coef(e, "rbc", 1, 0))
        I.set_coef(e, "rbc", 2, 0, I.coef(e, "rbc", 2, 0) + a)
        I.set_coef(e, "zbs", 2, 0, I.coef(e, "zbs", 2, 0) - a)
    elif var == "step":
        e["delt"] = 1.0
    elif var.startswith("step"):
        # up to the largest legal time step: dozens of restarts, the escalation
        # after 25 and 50 of them and giving up after 75
        e["delt"] = float(var[4:])
    elif var == "budget":
        e["niter_array"] = [37] * len(e["niter_array"])
    return e


class Recorder:
    """online checker of the callback records"""

    def __init__(self, niter, delt):
        self.n, self.bad, self.last, self.niter, self.delt = 0, [], None, niter, delt

    def __call__(self, s):
        L = self.last
        self.n += 1
        b = self.bad.append
        if L is not None and s.iteration <= L.iteration:
            L = None  # next multigrid stage
        if not s.iteration >= 1:
            b(f"iteration {s.iteration}")
        if s.iter1 > s.iter2:
            b(f"iter1 {s.iter1} > iter2 {s.iter2}")
        if s.iteration > self.niter + s.n_reguesses:
            b(f"iteration {s.iteration} beyond the budget {self.niter}")
        if abs(s.fsq_invariant - (s.fsqr + s.fsqz + s.fsql)) > 1e-12 * abs(s.fsq_invariant):
            b("fsq_invariant is not the sum of its parts")
        if abs(s.fsq_preconditioned - (s.fsqr1 + s.fsqz1 + s.fsql1)) > 1e-12 * abs(s.fsq_preconditioned):
            b("fsq_preconditioned is not the sum of its parts")
        if s.res0 > s.fsq_preconditioned * (1 + 1e-12):
            b("running minimum above the current residual")
        if s.restarted and s.saved_backup:
            b("restarted and saved_backup in one iteration")
        if L is not None:
            if s.iteration != L.iteration + 1 and s.n_reguesses == L.n_reguesses and s.ijacob == L.ijacob:
                b(f"iteration jumps {L.iteration} -> {s.iteration}")
            for k in ("ijacob", "n_restarts", "n_reguesses", "iter2", "iter1"):
                if getattr(s, k) < getattr(L, k):
                    b(f"{k} goes backwards")
            if s.restarted:
                if not s.delt < L.delt and s.ijacob not in (26, 27, 51, 52):
                    b("restart without a smaller time step")
                if s.n_restarts <= L.n_restarts:
                    b("restart not counted")
            elif s.n_restarts == L.n_restarts and s.delt != L.delt:
                b("time step changed without a restart")
        self.last = s


def trace_diff(nat, py, ftol, tag, what, end_n, end_p, viol, strict):
    """nat, py: (nstep, 3) traces"""
    k = min(len(nat), len(py))
    r = np.max(np.abs(nat[:k] - py[:k]) / (np.abs(nat[:k]) + 1e-6 * ftol), axis=1) if k else np.zeros(0)
    head = min(k, 150)
    if head and not np.max(r[:head]) <= strict:
        j = int(np.argmax(~(r[:head] <= strict)))
        viol.append({"key": f"trace/{what}/{tag}", "msg": f"residual at iteration {j + 1} differs by {r[j]:.1e} (native {nat[j]}, Python {py[j]})"})
        return 3 * k
    far = np.flatnonzero(~(r <= 1e-2))
    if len(far):
        # round-off grows gradually in runs that keep being restarted; a
        # difference in the control logic appears at once
        j = int(far[0])
        if not np.max(r[:max(j - 60, 1)]) >= 1e-7:
            viol.append({"key": f"trace-late/{what}/{tag}", "msg": f"residual at iteration {j + 1} suddenly differs by {r[j]:.1e}"})
    elif len(nat) != len(py) and not any(abs(v / ftol - 1) < 1e-2 for v in list(end_n) + list(end_p)):
        viol.append({"key": f"length/{what}/{tag}", "msg": f"native solver takes {len(nat)} iterations, Python {len(py)}"})
    return 3 * k + 1


def nat_trace(w):
    return np.array([np.asarray(w.force_residual_r), np.asarray(w.force_residual_z), np.asarray(w.force_residual_lambda)], float).T


def py_trace(r):
    return np.array([r.force_residual_r, r.force_residual_z, r.force_residual_lambda], float).T


def outcome(r, ftol, niter, viol, key):
    ok = r.fsqr <= ftol and r.fsqz <= ftol and r.fsql <= ftol
    if r.converged != ok:
        viol.append({"key": f"outcome/{key}", "msg": f"converged={r.converged} with residuals {r.fsqr:.2e} {r.fsqz:.2e} {r.fsql:.2e}, ftol {ftol:.1e}"})
    if r.converged and r.failed:
        viol.append({"key": f"outcome/{key}", "msg": "converged and failed"})
    if r.num_iterations != len(r.force_residual_r) or len(r.restart_reasons) != r.num_iterations:
        viol.append({"key": f"lengths/{key}", "msg": "num_iterations differs from the trace length"})
    # the evaluation that led to a new axis is recorded but not counted
    if r.num_iterations > niter + r.axis_reguesses:
        viol.append({"key": f"budget/{key}", "msg": f"{r.num_iterations} iterations with a budget of {niter}"})
    if not r.converged and not r.failed and r.num_iterations < niter:
        viol.append({"key": f"budget/{key}", "msg": f"stopped after {r.num_iterations} of {niter} iterations without a reason"})


def single(spec, seed, i, variants):
    import vmecpp
    from vmecpp import _iteration as it
    from vmecpp.cpp import _vmecpp
    d, tag, must = work.spec_to_input(spec)
    ns = d["ns_array"][-1]
    ftol = 1e-9
    viol, n, states, cnt = [], 0, [], {"restarts": 0, "reguesses": 0, "records": 0, "unconverged": 0, "failed": 0}
    for var in variants:
        ns = d["ns_array"][-1]
        if "@" in var:
            var, ns = var.split("@")
            ns = int(ns)
        I.single(d, ns, ftol, 1200)
        e = variant(d, var)
        niter = e["niter_array"][-1]
        for style in STYLES:
            e["iteration_style"] = style
            key = f"{var}/{style}/{tag}"
            vi = I.mk(e)
            try:
                o = vmecpp.run(vi.model_copy(update={"return_outputs_even_if_not_converged": True}), verbose=False, max_threads=1)
            except RuntimeError as x:
                o = None
                err = str(x)[:100]
            rec = Recorder(niter, e.get("delt", 1.0))
            model, r = it.iterate(vi, iteration_style=style if i % 2 else None, callback=rec)
            cnt["records"] += rec.n
            cnt["restarts"] += r.restarts
            cnt["reguesses"] += r.axis_reguesses
            cnt["unconverged"] += not r.converged
            cnt["failed"] += r.failed
            for b in rec.bad[:2]:
                viol.append({"key": f"record/{key}", "msg": b})
            outcome(r, ftol, niter, viol, key)
            if o is None:
                # the native run refused to hand out anything
                if r.converged:
                    viol.append({"key": f"native-fails/{key}", "msg": f"Python converges in {r.num_iterations} iterations, native run: {err}"})
                n += 1
                continue
            w = o.wout
            strict = 1e-5
            n += trace_diff(nat_trace(w), py_trace(r), ftol, key, "run", (w.fsqr, w.fsqz, w.fsql), (r.fsqr, r.fsqz, r.fsql), viol, strict)
            cnt["escalated (25 restarts)"] = cnt.get("escalated (25 restarts)", 0) + (r.restarts >= 25)
            states.append(f"{work.describe(d)} {var} {style} restarts {r.restarts if r.restarts < 4 else 10 * (r.restarts // 10)} reguess {r.axis_reguesses} conv {r.converged}")
            # the native single-stage loop on the same model class
            m2 = _vmecpp.VmecModel.create(vi._to_cpp_vmecindata(), ns)
            try:
                m2.solve()
            except RuntimeError as x:
                n += 1
                if r.converged:
                    viol.append({"key": f"solve-fails/{key}", "msg": f"Python converges in {r.num_iterations} iterations, native loop: {str(x)[:150]}"})
                continue
            t2 = np.array([m2.force_residual_r, m2.force_residual_z, m2.force_residual_lambda], float).T
            n += trace_diff(t2, py_trace(r), ftol, key, "solve", (m2.fsqr, m2.fsqz, m2.fsql), (r.fsqr, r.fsqz, r.fsql), viol, strict)
            rr2 = [int(x) for x in m2.restart_reasons]
            # up to where accumulated round-off (if any) has taken over
            pt = py_trace(r)
            k2 = min(len(t2), len(pt))
            off = np.flatnonzero(~(np.max(np.abs(t2[:k2] - pt[:k2]) / (np.abs(t2[:k2]) + 1e-6 * ftol), axis=1) <= 1e-3)) if k2 else []
            k2 = int(off[0]) if len(off) else k2
            if k2:
                n += 1
                if rr2[:k2] != [int(x) for x in r.restart_reasons][:k2]:
                    viol.append({"key": f"reasons/{key}", "msg": "restart reasons differ from the native loop"})
            if r.converged and len(t2) == r.num_iterations:
                a, b = np.asarray(m2.get_state()), np.asarray(model.get_state())
                n += 1
                if a.shape != b.shape or not np.max(np.abs(a - b)) <= 1e-5 * np.max(np.abs(a)):
                    viol.append({"key": f"state/{key}", "msg": "final state differs from the native loop"})
                if not abs(m2.mhd_energy - model.mhd_energy) <= 1e-7 * abs(model.mhd_energy):
                    viol.append({"key": f"energy/{key}", "msg": f"final energy {model.mhd_energy!r}, native {m2.mhd_energy!r}"})
                # and the wout geometry: outermost surface and axis from the run
                if not abs(m2.raxis_c[0] - model.raxis_c[0]) <= 1e-6 * abs(model.raxis_c[0]):
                    viol.append({"key": f"axis/{key}", "msg": "initial axis of the two models differs"})
            # watching must not change anything
            if var == "plain":
                model3, r3 = it.iterate(vi, iteration_style=style)
                n += 1
                if r3.force_residual_r != r.force_residual_r or not np.array_equal(np.asarray(model3.get_state()), np.asarray(model.get_state())):
                    viol.append({"key": f"callback/{key}", "msg": "passing a callback changes the iteration"})
    return {"viol": viol, "evaluations": n, "states": states, "counters": cnt, "sample": {"input": work.describe(d), "counters": cnt}}


def crossing(spec, seed):
    """tolerance and budget chosen from the trace so that exactly one residual is missing at the last allowed iteration"""
    from vmecpp import _iteration as it
    d, tag, must = work.spec_to_input(spec)
    rng = np.random.default_rng([seed, 513])
    ns = min(int(d["ns_array"][-1]), 15)
    viol, n, states = [], 0, []
    for style in STYLES + ("robust",):
        d["iteration_style"] = "parvmec" if style == "robust" else style
        I.single(d, ns, 1e-14, 600)
        _, r = it.iterate(I.mk(d), iteration_style=style)
        T = py_trace(r)
        if not len(T):
            continue
        for x, k, j, t in work.crossings(T, rng):
            key = f"{style}/{'RZL'[x]}/{tag}"
            states.append(f"crossing {key}")
            for nit, conv in ((k + 1, False), (j, False), (j + 1 + (200 if r.restarts or r.axis_reguesses else 0), True)):
                if nit < 1:
                    continue
                I.single(d, ns, t, nit)
                _, q = it.iterate(I.mk(d), iteration_style=style)
                n += 1
                if q.converged != conv or (conv and not abs(q.fsqr / T[j, 0] - 1) < 1e-6) or q.num_iterations > nit + q.axis_reguesses:
                    viol.append({"key": f"crossing/{key}", "msg": f"ftol {t:.3e}, budget {nit}, all residuals below it first at iteration {j + 1}: "
                                 f"converged={q.converged} after {q.num_iterations} with {q.fsqr:.2e} {q.fsqz:.2e} {q.fsql:.2e}"})
    return {"viol": viol, "evaluations": n, "states": states, "counters": {"crossings": n}}


def multigrid(spec, seed, i):
    import vmecpp
    from vmecpp import _iteration as it
    rng = np.random.default_rng([seed, i, 13])
    d, tag, must = work.spec_to_input(spec)
    k = int(rng.integers(2, 4))
    ns = sorted(int(x) for x in rng.choice(np.arange(4, 20), size=k, replace=False))
    d["ns_array"] = ns
    d["ftol_array"] = [float(10.0 ** -rng.integers(5, 8)) for _ in ns[:-1]] + [1e-9]
    d["niter_array"] = [int(rng.choice([25, 300])) for _ in ns[:-1]] + [1200]
    d["return_outputs_even_if_not_converged"] = True
    style = STYLES[i % 2]
    d["iteration_style"] = style
    vi = I.mk(d)
    viol, key = [], f"multi/{style}/{tag}"
    try:
        o = vmecpp.run(vi, verbose=False, max_threads=1)
    except RuntimeError as x:
        return {"skip": str(x)[:80], "evaluations": 0}
    rec = Recorder(1200, 1.0)
    model, rs = it.solve_multigrid(vi, callback=rec)
    for b in rec.bad[:2]:
        viol.append({"key": f"record/{key}", "msg": b})
    n = 1
    if len(rs) != len(ns):
        viol.append({"key": f"stages/{key}", "msg": f"{len(rs)} stages for {ns}"})
    else:
        for r, f, m in zip(rs, d["ftol_array"], d["niter_array"]):
            outcome(r, f, m, viol, key)
        r = rs[-1]
        nat, py = nat_trace(o.wout), np.concatenate([py_trace(r) for r in rs])
        # the native trace holds every stage
        if all(abs(v / f - 1) > 1e-2 for q, f in zip(rs, d["ftol_array"]) for v in (q.fsqr, q.fsqz, q.fsql)):
            n += trace_diff(nat, py, 1e-9, key, "run", (1.0,), (1.0,), viol, 1e-3)
        if model.ns != ns[-1]:
            viol.append({"key": f"ns/{key}", "msg": f"model holds ns={model.ns}, schedule {ns}"})
        if r.converged:
            ref = model.mhd_energy
            for how in ("linear", "cubic", "cubic_rho"):
                m2, r2 = it.solve_multigrid(vi, interpolation=how)
                n += 1
                if how == "linear":
                    if r2[-1].force_residual_r != r.force_residual_r:
                        viol.append({"key": f"linear/{key}", "msg": "interpolation='linear' differs from the default"})
                elif r2[-1].converged and not abs(m2.mhd_energy / ref - 1) <= 1e-5:
                    viol.append({"key": f"{how}/{key}", "msg": f"energy changes by {m2.mhd_energy / ref - 1:.1e} with interpolation {how}"})
                elif not r2[-1].converged:
                    viol.append({"key": f"{how}-conv/{key}", "msg": f"interpolation {how} does not converge"})
            m2, r2 = it.solve_multigrid(vi, iteration_style="robust")
            n += 1
            if r2[-1].converged and not abs(m2.mhd_energy / ref - 1) <= 1e-5:
                viol.append({"key": f"robust/{key}", "msg": f"robust style ends at another energy ({m2.mhd_energy / ref - 1:.1e})"})
            if r2[-1].converged != all(v <= 1e-9 for v in (r2[-1].fsqr, r2[-1].fsqz, r2[-1].fsql)):
                viol.append({"key": f"robust-outcome/{key}", "msg": "robust style reports a wrong outcome"})
    return {"viol": viol, "evaluations": n, "states": [f"multi {work.describe(d)} {ns} {style}"], "counters": {"stages": len(rs), "records": rec.n},
            "sample": {"schedule": ns, "iterations": [r.num_iterations for r in rs]}}


def main(ctx):
    ctx.package()
    T = ctx.thorough
    cases = []
    canon = [c for c in work.CANONICAL if c != "cma"]
    for j, s in enumerate(work.specs(ctx, 150 if T else 14, canon=canon)):
        rand = "canon" not in s
        vs = ["plain", "axis", "step", "budget", "step1.5", "step2", "step3", "step4", "step5", "step7", "step10",
              "axis-0.45", "axis0.45", "axis-0.55"]
        if not T and rand:
            vs = [["plain", "step", "step3", "axis-0.45"], ["axis", "budget", "step5", "axis0.5"]][j % 2]
        for v in ([vs] if rand else [[x] for x in vs]):
            cases.append({"fn": "single", "tag": s.get("canon", "random"), "spec": s, "seed": ctx.seed, "i": j, "variants": v})
    # converges after both escalations; huge forces twice in a row
    for c, v in (("li383", "step10@51"), ("li383_lasym", "step10@51"), ("solovev", "step9@51"), ("circular_tokamak", "ell0.5@5"),
                 ("circular_tokamak", "ell0.5@25"), ("circular_tokamak", "ell0.5@9"), ("circular_tokamak", "ell0.45@5")):
        cases.append({"fn": "single", "tag": c, "spec": {"canon": c}, "seed": ctx.seed, "i": 0, "variants": [v]})
    for j, s in enumerate(work.specs(ctx, 150 if T else 14, canon=canon)):
        cases.append({"fn": "multigrid", "tag": s.get("canon", "random"), "spec": s, "seed": ctx.seed, "i": j})
    for j, s in enumerate(work.specs(ctx, 60 if T else 6, canon=["solovev", "cth", "up_down_asym", "li383_lasym", "circular_tokamak", "li383_odd"])):
        cases.append({"fn": "crossing", "tag": s.get("canon", "random"), "spec": s, "seed": ctx.seed + j})
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    ctx.run_cases(cases, env=ctx.env(), on_timeout="inconclusive", timeout=300)
    return ctx.finish(
        "exploration",
        "a state is an input feature signature with the kind of disturbance, the style and what the iteration went through (restarts, re-guesses, outcome)",
        ["single-threaded fixed-boundary runs; every residual of the first 150 iterations agrees to 1e-5 (1e-3 after restarts), later ones within a factor 1.5 "
         "(long runs amplify round-off)", "iteration counts must agree unless a final residual lies within 1 % of the tolerance",
         "the robust style has no native counterpart: only its outcome and final energy are judged"],
        min_evaluations=5000, min_states=40)
