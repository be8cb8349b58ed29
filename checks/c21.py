"""C21: models with array fields validate and serialise without loss.

Random field annotations and values for the array-aware base model, and the
package's own models filled from real runs.  An independent deep comparison
(values bit for bit, shapes, element types, container types) watches every
dump and validation; deliberately wrong arrays must be refused with a
validation error."""
import copy
import datetime
import json
import typing

import numpy as np

from vplib import work

SPECIAL = [0.0, -0.0, np.nan, np.inf, -np.inf, 5e-324, 1.7976931348623157e308, 1 / 3, 0.1, -2.5, 1e22, 3.0]
INTS = [0, 1, -1, 2**62, -(2**63), 2**63 - 1, 2**53 + 1, 7]


# ---------------------------------------------------------------- oracle

def diff(a, b, path="x"):
    """first difference between two values, or None"""
    import pydantic
    if isinstance(a, pydantic.BaseModel):
        if type(a) is not type(b):
            return f"{path}: type {type(a).__name__} became {type(b).__name__}"
        for f in type(a).model_fields:
            r = diff(getattr(a, f), getattr(b, f), f"{path}.{f}")
            if r:
                return r
        return None
    if type(a) is not type(b):
        return f"{path}: type {type(a).__name__} became {type(b).__name__} ({str(a)[:40]} / {str(b)[:40]})"
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype:
            return f"{path}: element type {a.dtype} became {b.dtype}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} became {b.shape}"
        if a.dtype.kind == "f":
            # bit for bit apart from the payload of NaN
            x, y = a.copy(), b.copy()
            x[np.isnan(x)] = np.nan
            y[np.isnan(y)] = np.nan
            if x.tobytes() != y.tobytes():
                return f"{path}: values {a.ravel()[:4]} became {b.ravel()[:4]}"
        elif a.tobytes() != b.tobytes():
            return f"{path}: values {a.ravel()[:4]} became {b.ravel()[:4]}"
        return None
    if isinstance(a, dict):
        if list(a) != list(b) or [type(k) for k in a] != [type(k) for k in b]:
            return f"{path}: keys {list(a)[:4]} became {list(b)[:4]}"
        for k in a:
            r = diff(a[k], b[k], f"{path}[{k!r}]")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} became {len(b)}"
        for i, (u, v) in enumerate(zip(a, b)):
            r = diff(u, v, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, float):
        if a != a and b != b:
            return None
        return None if (a == b and np.signbit(a) == np.signbit(b)) else f"{path}: {a!r} became {b!r}"
    return None if a == b else f"{path}: {a!r} became {b!r}"


# ---------------------------------------------------------------- generator

def array_ann(rng, jt, lossless=True):
    """(annotation, function making a legal value, list of illegal values)"""
    kind = str(rng.choice(["Float", "Float", "Float", "Int", "Bool", "Num", "plain", "FloatInt"]))
    rank = int(rng.choice([1, 1, 1, 2, 2, 3]))
    dims = [str(rng.choice([f"d{i}", f"d{i}", "_", str(int(rng.integers(1, 4)))])) for i in range(rank)]
    spec = " ".join(dims)

    def shape(r):
        s = []
        for i, d in enumerate(dims):
            if d.isdigit():
                s.append(int(d))
            else:
                # an empty axis may only be the last one: see the known findings
                lo = 0 if i == rank - 1 else 1
                s.append(int(r.integers(lo, 5)))
        if kind in ("Num", "plain", "FloatInt") and s[-1] == 0:
            s[-1] = 1                          # element type not determined by an empty text
        return tuple(s)

    def fill(r, k, s):
        n = int(np.prod(s)) if s else 1
        if k == "f":
            v = np.array([float(r.choice(SPECIAL)) if r.random() < 0.4 else float(r.standard_normal() * 10.0 ** r.integers(-200, 200))
                          for _ in range(n)], dtype=np.float64)
        elif k == "i":
            v = np.array([int(r.choice(INTS)) if r.random() < 0.4 else int(r.integers(-2**40, 2**40))
                          for _ in range(n)], dtype=np.int64)
        else:
            v = r.random(n) < 0.5
        v = v.reshape(s)
        m = r.integers(4)
        if m == 1:
            v = np.asfortranarray(v)
        elif m == 2 and v.size:
            w = np.zeros(tuple(2 * q for q in s), dtype=v.dtype)
            w[tuple(slice(None, None, 2) for _ in s)] = v
            v = w[tuple(slice(None, None, 2) for _ in s)]
        return v

    kinds = {"Float": "f", "Int": "i", "Bool": "b", "Num": "fi", "plain": "fib", "FloatInt": "fi"}[kind]
    if kind == "plain":
        ann = np.ndarray
    elif kind == "FloatInt":
        ann = jt.Float[np.ndarray, spec] | jt.Int[np.ndarray, spec]
    else:
        ann = getattr(jt, kind)[np.ndarray, spec]

    def make(r):
        k = kinds[int(r.integers(len(kinds)))]
        if kind == "plain":
            return fill(r, k, tuple(int(q) for q in r.integers(1, 4, size=int(r.integers(1, 4)))))
        return fill(r, k, shape(r))

    def bad(r):
        out = []
        s = tuple(max(q, 1) for q in shape(r))
        good = kinds[0]
        out.append(("string", "abc"))
        out.append(("scalar", 1.5))
        out.append(("none", None))
        out.append(("strings", np.full(s, "a").tolist()))
        out.append(("objects", np.full(s, None, dtype=object)))
        out.append(("stringarray", np.full(s, "1.0")))
        if kind == "plain":
            return out[:4]
        out.append(("dict", {"a": 1.0}))
        out.append(("ragged", [[1.0, 2.0], [3.0]]))
        if kind != "Num":
            out.append(("complex", np.full(s, 1j)))
        out.append(("deeper", fill(r, good, s + (2,))))
        out.append(("deeperlist", fill(r, good, s + (2,)).tolist()))
        if rank > 1:
            out.append(("shallower", fill(r, good, s[:-1])))
            out.append(("flat", fill(r, good, s).ravel()))
            out.append(("flatlist", fill(r, good, s).ravel().tolist()))
        for i, d in enumerate(dims):
            if d.isdigit():
                t = list(s)
                t[i] += 1
                out.append(("wrongdim", fill(r, good, tuple(t))))
                out.append(("wrongdimlist", fill(r, good, tuple(t)).tolist()))
        for k in "fib":
            if k not in kinds:
                v = fill(r, k, s)
                if k == "f":
                    v = np.where(np.isfinite(v), np.clip(v, -1e6, 1e6), 0.5) + 0.25
                out.append(("dtype_" + k, v))
                out.append(("dtypelist_" + k, v.tolist()))
        if "f" not in kinds:
            out.append(("nanlist", np.full(s, "NaN").tolist()))
            out.append(("huge", np.full(s, 2**70, dtype=object).tolist()))
        if rank == 1 and dims[0].isdigit() is False and "f" in kinds:
            out.append(("mixed", [1.0, "x"]))
            out.append(("nestednone", [[1.0], None, "a"]))
        return out

    return ann, make, bad, f"{kind}[{spec}]"


def annotation(rng, jt, B, depth):
    """random composite annotation -> (annotation, make(rng), bad(rng) -> [(label, value)], text)"""
    import pydantic
    c = str(rng.choice(["array", "optional", "union", "list", "dict", "tuple", "vtuple", "model", "annotated"]))
    if depth <= 0 or c == "array":
        return array_ann(rng, jt)
    if c == "optional":
        a, m, b, t = annotation(rng, jt, B, depth - 1)
        left = bool(rng.integers(2))
        ann = typing.Optional[a] if left else typing.Union[None, a]
        return (ann, lambda r: None if r.random() < 0.3 else m(r),
                lambda r: [x for x in b(r) if x[1] is not None], f"opt({t})")
    if c == "union":
        a, m, b, t = array_ann(rng, jt)
        o, om, ot = [(str, lambda r: str(r.choice(["abc", "", "NaN", "[1.0]"])), "str"),
                     (bool, lambda r: bool(r.integers(2)), "bool"),
                     (datetime.datetime, lambda r: datetime.datetime(2020, 1, 1 + int(r.integers(28))), "datetime"),
                     (typing.Literal["a", "b"], lambda r: "a", "literal"),
                     (float, lambda r: float(r.choice(SPECIAL)), "float"),
                     ][int(rng.integers(5))]
        ann = typing.Union[a, o] if rng.integers(2) else typing.Union[o, a]
        easy = {"ragged", "complex", "deeper", "shallower", "flat", "wrongdim", "dtype_f", "dtype_i", "dtype_b", "dict"}
        return (ann, lambda r: om(r) if r.random() < 0.4 else m(r),
                lambda r: [x for x in b(r) if x[0] in easy and (not isinstance(x[1], np.ndarray) or x[1].size > 1)], f"union({t}|{ot})")
    if c == "list":
        a, m, b, t = annotation(rng, jt, B, depth - 1)
        return (list[a], lambda r: [m(r) for _ in range(int(r.integers(0, 4)))],
                lambda r: [(l, [m(r), v]) for l, v in b(r)], f"list({t})")
    if c == "dict":
        a, m, b, t = annotation(rng, jt, B, depth - 1)
        kt, keys = [(str, ["a", "b c", "", "ü", "NaN"]), (int, [0, -3, 10**12])][int(rng.integers(2))]
        return (dict[kt, a], lambda r: {k: m(r) for k in keys[:int(r.integers(0, len(keys) + 1))]},
                lambda r: [(l, {keys[0]: m(r), keys[1]: v}) for l, v in b(r)], f"dict({kt.__name__},{t})")
    if c == "tuple":
        parts = [annotation(rng, jt, B, depth - 1) for _ in range(int(rng.integers(1, 4)))]
        j = int(rng.integers(len(parts)))

        def bad(r):
            out = []
            for l, v in parts[j][2](r):
                q = [p[1](r) for p in parts]
                q[j] = v
                out.append((l, tuple(q)))
            q = [p[1](r) for p in parts]
            out.append(("toolong", tuple(q + [q[0]])))
            out.append(("tooshort", tuple(q[:-1])))
            out.append(("toolonglist", q + [q[-1]]))
            return out
        return (tuple[tuple(p[0] for p in parts)], lambda r: tuple(p[1](r) for p in parts), bad,
                "tuple(" + ",".join(p[3] for p in parts) + ")")
    if c == "vtuple":
        a, m, b, t = annotation(rng, jt, B, depth - 1)
        return (tuple[a, ...], lambda r: tuple(m(r) for _ in range(int(r.integers(0, 4)))),
                lambda r: [(l, (m(r), v)) for l, v in b(r)], f"vtuple({t})")
    if c == "annotated":
        a, m, b, t = annotation(rng, jt, B, depth - 1)
        return typing.Annotated[a, "meta"], m, b, f"ann({t})"
    a, m, b, t = annotation(rng, jt, B, depth - 1)
    M = pydantic.create_model("Inner", __base__=B, y=(a, ...), z=(float, 1.5), w=(list[float], []))

    def mk(r):
        return M(y=m(r), z=float(r.choice(SPECIAL)), w=[float(r.choice(SPECIAL)) for _ in range(int(r.integers(3)))])
    return M, mk, lambda r: [(l, {"y": v, "z": 0.5}) for l, v in b(r)], f"model({t})"


# ---------------------------------------------------------------- cases

def roundtrips(m, viol, where, case):
    """all text and object round trips of one model instance; returns number of comparisons"""
    M = type(m)
    snap = copy.deepcopy(m)
    n = 0

    def bad(key, msg):
        viol.append(dict(key=f"{case['kind']}/{key}", msg=f"{where}: {msg}", detail=dict(case=case)))

    def check(key, f):
        nonlocal n
        n += 1
        try:
            r = f()
        except Exception as e:
            bad(key + "/raises", f"{type(e).__name__}: {str(e)[:300]}")
            return
        d = diff(snap, r)
        if d:
            bad(key, d)
        d = diff(snap, m)
        if d:
            bad(key + "/altered", "the model changed: " + d)

    def strict_json():
        d = m.model_dump(mode="json")
        return M.model_validate(json.loads(json.dumps(d, allow_nan=False)))

    def text():
        s = m.model_dump_json()
        if s != m.model_dump_json():
            raise ValueError("two dumps differ")
        s2 = json.dumps(json.loads(s, parse_constant=lambda c: (_ for _ in ()).throw(ValueError("not JSON: " + c))),
                        allow_nan=False)
        r = M.model_validate_json(s)
        d = diff(r, M.model_validate_json(s2))
        if d:
            raise ValueError("re-encoded text reads differently: " + d)
        return r

    def same_text():
        if json.loads(m.model_dump_json()) != m.model_dump(mode="json"):
            raise ValueError("model_dump_json and model_dump(mode='json') differ")
        return M.model_validate(m.model_dump(mode="json"))

    check("json_text", text)
    check("json_strict", strict_json)
    check("json_same", same_text)
    check("python_dump", lambda: M.model_validate(m.model_dump()))
    check("revalidate", lambda: M.model_validate(m))
    check("indented", lambda: M.model_validate_json(m.model_dump_json(indent=1)))
    return n


def case_random(seed, n, tag=None):
    import jaxtyping as jt
    import pydantic
    from vmecpp._pydantic_numpy import BaseModelWithNumpy as B
    viol, states, ev = [], set(), 0
    counters = {}
    for k in range(n):
        rng = np.random.default_rng([seed, k])
        case = dict(fn="case_random_one", seed=seed, k=k, kind="random")
        ev += random_one(rng, jt, pydantic, B, viol, states, counters, case)
        if len(viol) > 5:
            break
    return dict(viol=viol, states=sorted(states), evaluations=ev, counters=counters)


def case_random_one(seed, k, kind="random", tag=None):
    import jaxtyping as jt
    import pydantic
    from vmecpp._pydantic_numpy import BaseModelWithNumpy as B
    viol, states, counters = [], set(), {}
    ev = random_one(np.random.default_rng([seed, k]), jt, pydantic, B, viol, states, counters,
                    dict(fn="case_random_one", seed=seed, k=k, kind="random"))
    return dict(viol=viol, states=sorted(states), evaluations=ev, counters=counters)


def _plain(v):
    """the JSON form of a nested value"""
    import pydantic
    if isinstance(v, pydantic.BaseModel):
        return json.loads(v.model_dump_json())
    if isinstance(v, np.ndarray):
        return _plain(v.tolist())
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, float) and not np.isfinite(v):
        return "NaN" if v != v else "Infinity" if v > 0 else "-Infinity"
    if isinstance(v, datetime.datetime):
        return v.isoformat()
    return v


def random_one(rng, jt, pydantic, B, viol, states, counters, case):
    nf = int(rng.integers(1, 4))
    parts = [annotation(rng, jt, B, int(rng.integers(0, 4))) for _ in range(nf)]
    fields = {f"f{i}": (p[0], ...) for i, p in enumerate(parts)}
    M = pydantic.create_model("M", __base__=B, **fields)
    ev = 0
    text = "; ".join(p[3] for p in parts)
    for p in parts:
        states.add(p[3].split("[")[0][:40])
    good = None
    for _ in range(3):
        vals = {f"f{i}": p[1](rng) for i, p in enumerate(parts)}
        keep = copy.deepcopy(vals)
        try:
            m = M(**vals)
        except Exception as e:
            viol.append(dict(key="random/construct", msg=f"{text}: legal value refused: {type(e).__name__}: {str(e)[:300]}",
                             detail=dict(case=case)))
            continue
        d = diff(keep, {f: getattr(m, f) for f in vals})
        if d:
            viol.append(dict(key="random/construct", msg=f"{text}: the model holds something else: {d}", detail=dict(case=case)))
        d = diff(keep, vals)
        if d:
            viol.append(dict(key="random/argument", msg=f"{text}: construction changed the argument: {d}", detail=dict(case=case)))
        ev += 1 + roundtrips(m, viol, text, case)
        good = keep
    # refusals
    if good is not None:
        for i, p in enumerate(parts):
            for label, v in p[2](rng):
                w = dict(copy.deepcopy(good))
                w[f"f{i}"] = v
                ev += 1
                counters["refusals"] = counters.get("refusals", 0) + 1
                for how in ("construct", "validate", "text"):
                    if how == "text":
                        if not label.endswith("list") or not label.startswith(("deeper", "flat", "wrongdim", "dtype")):
                            continue
                        try:
                            # (the other fields in their own text form)
                            t = json.loads(M(**copy.deepcopy(good)).model_dump_json())
                            t[f"f{i}"] = _plain(v)
                            t = json.dumps(t)
                        except TypeError:
                            continue
                    try:
                        q = M(**w) if how == "construct" else M.model_validate(w) if how == "validate" \
                            else M.model_validate_json(t)
                    except pydantic.ValidationError:
                        continue
                    except Exception as e:
                        viol.append(dict(key=f"refuse/{how}/exception", detail=dict(case=case),
                                         msg=f"{p[3]}: {label}: {type(e).__name__} instead of a validation error: {str(e)[:200]}"))
                        continue
                    viol.append(dict(key=f"refuse/{how}", detail=dict(case=case),
                                     msg=f"{p[3]}: {label} value {str(v)[:80]} accepted as {str(getattr(q, f'f{i}'))[:80]}"))
    return ev


def case_lost(tag=None):
    """Representations that a JSON text cannot carry (recorded limitations), and neighbours that it can."""
    import jaxtyping as jt
    import pydantic
    from vmecpp._pydantic_numpy import BaseModelWithNumpy as B
    viol, ev = [], 0
    rows = []
    for kind, dt in (("Float", np.float64), ("Int", np.int64), ("Bool", np.bool_)):
        for dims, shape in (("n", (0,)), ("n m", (3, 0)), ("n 3", (0, 3)), ("n m", (0, 3)), ("a b c", (2, 3, 0)),
                            ("a b c", (2, 0, 3)), ("n m", (0, 0)), ("", ())):
            rows.append((kind, dims, np.zeros(shape, dtype=dt)))
    for kind, dims, v in rows:
        ann = getattr(jt, kind)[np.ndarray, dims]
        M = pydantic.create_model("M", __base__=B, x=(ann, ...), o=(ann | None, None), l=(list[ann], []))
        m = M(x=v, o=v, l=[v])
        part = []
        ev += roundtrips(m, part, f"{kind}[{dims}] shape {v.shape}", dict(fn="case_lost", kind="empty"))
        lost = v.ndim == 0 or (0 in v.shape and v.shape.index(0) < v.ndim - 1)
        for p in part:
            if lost:
                p["key"] = "lost/zero_dim" if v.ndim == 0 else "lost/empty_leading"
        viol += part
    seen, out = set(), []
    for p in viol:
        if p["key"].startswith("lost/"):
            if p["key"] in seen:
                continue
            seen.add(p["key"])
        out.append(p)
    return dict(viol=out, evaluations=ev, states=[f"empty:{len(rows)}"], counters=dict(empty_arrays=len(rows)))


def case_fixed(tag=None):
    """Features the generator does not draw: computed fields, aliases, defaults, dump options, Any, subclasses."""
    import jaxtyping as jt
    import pydantic
    from vmecpp._pydantic_numpy import BaseModelWithNumpy as B
    viol = []
    case = dict(fn="case_fixed", kind="fixed")

    class A(B):
        x: typing.Annotated[jt.Float[np.ndarray, "n"], pydantic.Field(alias="ex")]
        y: jt.Int[np.ndarray, "n m"] = pydantic.Field(default_factory=lambda: np.arange(6).reshape(2, 3))
        s: set[float] = {1.5}
        a: typing.Any = None

        @pydantic.computed_field
        @property
        def twice(self) -> jt.Float[np.ndarray, "n"]:
            return 2.0 * self.x

        @pydantic.computed_field
        @property
        def worst(self) -> float:
            return float("nan")

    class C(A):
        z: dict[str, A] = {}
        q: list[tuple[str, A | None]] = []

    def bad(key, msg):
        viol.append(dict(key="fixed/" + key, msg=msg, detail=dict(case=case)))

    x = np.array([1.0, np.nan, -np.inf, -0.0])
    a = A(ex=x, a={"k": [1, "x", None]})
    c = C(ex=x[::-1], z={"u": a, "v": A(ex=np.array([]))}, q=[("p", a), ("r", None)])
    n = 0
    for m in (a, c):
        snap = copy.deepcopy(m)
        for kw in (dict(by_alias=True), dict(by_alias=True, exclude_none=True), dict(by_alias=True, exclude_defaults=False),
                   dict(by_alias=True, exclude_unset=False), dict(by_alias=True, round_trip=True)):
            n += 1
            try:
                if "exclude_none" not in kw:
                    r = type(m).model_validate_json(m.model_dump_json(**kw))
                    d = diff(snap, r)
                    if d:
                        bad("options", f"{kw}: {d}")
                    r = type(m).model_validate(json.loads(json.dumps(m.model_dump(mode="json", **kw), allow_nan=False)))
                    d = diff(snap, r)
                    if d:
                        bad("options", f"{kw}: {d}")
                else:
                    json.dumps(m.model_dump(mode="json", **kw), allow_nan=False)
            except Exception as e:
                bad("options/raises", f"{kw}: {type(e).__name__}: {str(e)[:300]}")
            d = diff(snap, m)
            if d:
                bad("altered", f"{kw}: {d}")
    j = a.model_dump(mode="json", by_alias=True)
    want = {"ex": [1.0, "NaN", "-Infinity", -0.0], "y": [[0, 1, 2], [3, 4, 5]], "s": [1.5],
            "a": {"k": [1, "x", None]}, "twice": [2.0, "NaN", "-Infinity", -0.0], "worst": "NaN"}
    if j != want:
        bad("computed", f"dump is {j}")
    if json.loads(a.model_dump_json(by_alias=True)) != want:
        bad("computed", f"text is {a.model_dump_json(by_alias=True)}")
    sub = c.model_dump(mode="json", include={"y": True, "z": {"v": True}}, by_alias=True)
    if set(sub) != {"y", "z"} or set(sub["z"]) != {"v"} or sub["z"]["v"]["ex"] != []:
        bad("include", f"{sub}")
    if "y" in c.model_dump(mode="json", exclude={"y"}, by_alias=True):
        bad("exclude", "excluded field dumped")
    p = a.model_dump(by_alias=True)
    if not isinstance(p["ex"], np.ndarray) or not isinstance(p["twice"], np.ndarray):
        bad("python_dump", "arrays not kept by model_dump()")
    # element types that the text form does not support are refused, never cast
    for v in (np.float32([1.5]), np.float16([1.5]), np.array([1.5], dtype=">f8"), np.longdouble([1.5])):
        m = pydantic.create_model("M", __base__=B, x=(np.ndarray, ...))(x=v)
        n += 1
        try:
            r = type(m).model_validate_json(m.model_dump_json())
            d = diff(m, r)
            if d and v.dtype != np.dtype(">f8"):
                bad("dtype", f"{v.dtype} silently became {r.x.dtype}")
        except Exception:
            pass
    for v in (np.int32([1]), np.int8([1]), np.uint8([1]), np.uint64([2**63])):
        m = pydantic.create_model("M", __base__=B, x=(np.ndarray, ...))(x=v)
        n += 1
        try:
            r = type(m).model_validate_json(m.model_dump_json())
            if diff(m, r):
                bad("dtype", f"{v.dtype} silently became {r.x.dtype}")
        except Exception:
            pass
    # spellings of non-finite numbers, at every depth
    inf, nan = np.inf, np.nan
    for dims, given, want in (
            ("n", ["NaN", "nan", None, 1, 2.5], [nan, nan, nan, 1.0, 2.5]),
            ("n", ["Infinity", "inf", "-Infinity", "-inf", -1.0], [inf, inf, -inf, -inf, -1.0]),
            ("n m", [[1.0, "NaN"], ["-inf", 3]], [[1.0, nan], [-inf, 3.0]]),
            ("a b c", [[["inf"], [2.0]], [["-Infinity"], [None]]], [[[inf], [2.0]], [[-inf], [nan]]])):
        M = pydantic.create_model("M", __base__=B, x=(jt.Float[np.ndarray, dims], ...))
        for how, f in (("validate", lambda: M.model_validate({"x": given})),
                       ("text", lambda: M.model_validate_json(json.dumps({"x": given})))):
            n += 1
            try:
                d = diff(np.array(want), f().x)
            except Exception as e:
                d = f"{type(e).__name__}: {str(e)[:200]}"
            if d:
                bad("spelling", f"{how} {given}: {d}")
    # long arrays
    r = np.random.default_rng(5)
    M = pydantic.create_model("M", __base__=B, x=(jt.Float[np.ndarray, "n m"], ...), i=(jt.Int[np.ndarray, "n"], ...),
                              b=(jt.Bool[np.ndarray, "n"], ...))
    x = r.standard_normal((257, 41)) * 10.0 ** r.integers(-300, 300, size=(257, 41))
    x[200, 40], x[256, 0], x[100, 7] = nan, -inf, inf
    m = M(x=x, i=r.integers(-2**63, 2**63 - 1, size=5003), b=r.random(4099) < 0.5)
    n += roundtrips(m, viol, "long arrays", dict(fn="case_fixed", kind="fixed"))
    return dict(viol=viol, evaluations=n + 6, states=["fixed"])


def case_models(canon, tag=None):
    """The package's own models, filled from a run."""
    import pydantic
    import vmecpp
    d = work.canonical(canon)
    out = work.solve(d, True, 2)
    viol, ev, counters = [], 0, {}
    case = dict(fn="case_models", canon=canon, kind="models")
    ev += roundtrips(out, viol, canon + " output", case)
    parts = {f: getattr(out, f) for f in type(out).model_fields}
    for name, m in parts.items():
        ev += roundtrips(m, viol, f"{canon} {name}", case)
        M = type(m)
        base = m.model_dump()
        for f in M.model_fields:
            key = f
            v = getattr(m, f)
            if not isinstance(v, np.ndarray) or v.size == 0:
                continue
            trials = [("text", "abc"), ("strings", np.full(v.shape, "a").tolist()), ("complex", v.astype(complex) + 1j),
                      ("deeper", np.stack([v, v], axis=-1)), ("dict", {"a": 1.0}), ("object", object())]
            if v.dtype.kind == "i":
                w = v.astype(float)
                w.flat[0] += 0.5
                trials.append(("fraction", w))
                trials.append(("fractionlist", w.tolist()))
                w = v.astype(float)
                w.flat[0] = np.nan
                trials.append(("nan", w))
            if v.ndim == 2:
                trials.append(("flat", v.ravel()))
            for label, w in trials:
                q = dict(base)
                q[key] = w
                ev += 1
                counters["refusals"] = counters.get("refusals", 0) + 1
                try:
                    r = M.model_validate(copy.deepcopy(q))
                except (pydantic.ValidationError, TypeError):
                    continue                   # converters of single fields may complain with TypeError
                except Exception as e:
                    viol.append(dict(key=f"models/{name}.{f}/{label}/exception", detail=dict(case=case),
                                     msg=f"{name}.{f} = {label}: {type(e).__name__} instead of a validation error: {str(e)[:200]}"))
                    continue
                viol.append(dict(key=f"models/{name}.{f}/{label}", detail=dict(case=case),
                                 msg=f"{name}.{f} = {label} value accepted as {str(getattr(r, f))[:100]}"))
            # legal alternatives: list instead of array, Fortran order, another view
            for label, w in (("list", v.tolist()), ("fortran", np.asfortranarray(v)), ("copy", v[...].copy())):
                q = dict(base)
                q[key] = w
                ev += 1
                try:
                    r = M.model_validate(q)
                except Exception as e:
                    viol.append(dict(key=f"models/{name}.{f}/{label}/refused", detail=dict(case=case),
                                     msg=f"{name}.{f} as {label}: {type(e).__name__}: {str(e)[:200]}"))
                    continue
                dd = diff(v, getattr(r, f))
                if dd:
                    viol.append(dict(key=f"models/{name}.{f}/{label}", detail=dict(case=case), msg=f"{name}.{f} as {label}: {dd}"))
    return dict(viol=viol, evaluations=ev, counters=counters, states=[f"models:{canon}"])


def main(ctx):
    ctx.package()
    k = 60 if ctx.thorough else 12
    cases = [dict(fn="case_random", seed=ctx.seed * 1000 + i, n=400 if ctx.thorough else 120, tag=f"random{i}") for i in range(k)]
    cases += [dict(fn="case_lost", tag="lost"), dict(fn="case_fixed", tag="fixed")]
    for c in (["solovev", "cth_lasym", "cth_spline", "fb_cth"] + (["li383", "fb_cth_lasym", "up_down_asym"] if ctx.thorough else [])):
        cases.append(dict(fn="case_models", canon=c, tag=f"models:{c}"))
    if getattr(ctx, "only", None):
        cases = [ctx.only]
    ctx.run_cases(cases, env=ctx.env(), on_timeout="inconclusive", timeout=400)
    ctx.finish("exploration",
               "every legal value of every generated annotation survives model_dump_json, model_dump(mode='json') through strict "
               "JSON text, model_dump and revalidation bit for bit with equal shapes, element types and container types, "
               "dumping and validating change neither model nor argument, and every wrong-shaped or wrong-typed array raises "
               "pydantic.ValidationError",
               ["unions that are ambiguous as JSON (list or array of the same elements) are not generated",
                "JSON null inside a float array means NaN"],
               min_evaluations=500, min_states=10)
