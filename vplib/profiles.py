"""Independent reference evaluation of the profile parameterisations."""
import numpy as np
from scipy.interpolate import CubicHermiteSpline, CubicSpline

GX, GW = np.polynomial.legendre.leggauss(60)


def integral(f, x):
    """int_0^x f, composite Gauss-Legendre on geometrically graded panels
    (integrands may have weak end-point singularities)"""
    edges = np.concatenate([[0.0], 0.5 ** np.arange(12, 0, -1), 1 - 0.5 ** np.arange(2, 13), [1.0]]) * x
    tot = 0.0
    for a, b in zip(edges[:-1], edges[1:]):
        tot += 0.5 * (b - a) * np.dot(GW, f(0.5 * (b + a) + 0.5 * (b - a) * GX))
    return tot


def poly(c, x):
    return np.polynomial.polynomial.polyval(x, np.asarray(c, float)) if len(c) else 0.0 * x


def akima(xs, ys):
    xs, ys = np.asarray(xs, float), np.asarray(ys, float)
    # two phantom points per side on the parabola through the three outermost knots
    lx = np.array([2 * xs[0] - xs[2], xs[0] + xs[1] - xs[2]])
    rx = np.array([xs[-1] + xs[-2] - xs[-3], 2 * xs[-1] - xs[-3]])
    ql, qr = np.polyfit(xs[:3], ys[:3], 2), np.polyfit(xs[-3:], ys[-3:], 2)
    X = np.concatenate([lx, xs, rx])
    Y = np.concatenate([np.polyval(ql, lx), ys, np.polyval(qr, rx)])
    m = np.diff(Y) / np.diff(X)
    t = np.empty(len(xs))
    for i in range(len(xs)):
        m1, m2, m3, m4 = m[i:i + 4]
        a, b = abs(m4 - m3), abs(m2 - m1)
        t[i] = 0.5 * (m2 + m3) if a + b < 1e-12 * (1e-300 + np.max(np.abs(m))) else (a * m2 + b * m3) / (a + b)
    return CubicHermiteSpline(xs, ys, t)


def cubic(xs, ys):
    xs, ys = np.asarray(xs, float), np.asarray(ys, float)
    dl = np.polyval(np.polyder(np.polyfit(xs[:3], ys[:3], 2)), xs[0])
    dr = np.polyval(np.polyder(np.polyfit(xs[-3:], ys[-3:], 2)), xs[-1])
    return CubicSpline(xs, ys, bc_type=((1, dl), (1, dr)))


def _c(c, i):
    return float(c[i]) if i < len(c) else 0.0


def two_power(c, x):
    return c[0] * (1 - x ** c[1]) ** c[2]


def two_power_gs(c, x):
    g = 1.0 + 0 * x
    for i in range(3, 19, 3):
        if _c(c, i):
            g = g + _c(c, i) * np.exp(-((x - _c(c, i + 1)) / _c(c, i + 2)) ** 2)
    return two_power(c, x) * g


def gauss_trunc(c, x, norm):
    e = np.exp(-(1 / c[1]) ** 2)
    v = c[0] * (np.exp(-(x / c[1]) ** 2) - e)
    return v / (1 - e) if norm else v


def two_lorentz(c, x):
    def term(w, p, q):
        L = lambda s: 1.0 / (1.0 + (s / w ** 2) ** p) ** q
        return (L(x) - L(1.0)) / (1.0 - L(1.0))
    return c[0] * (c[1] * term(c[2], c[3], c[4]) + (1 - c[1]) * term(c[5], c[6], c[7]))


def sum_atan(c, x):
    v = _c(c, 0)
    for i in range(1, 18, 4):
        if i + 3 >= len(c):
            break
        v += c[i] if x >= 1 else c[i] * 2 / np.pi * np.arctan(c[i + 1] * x ** c[i + 2] / (1 - x) ** c[i + 3])
    return v


def pedestal_p(c, x):
    v = poly([_c(c, i) for i in range(16)], x)
    w, x0 = _c(c, 19), _c(c, 18)
    if w > 0:
        th = lambda u: np.tanh(2 * (x0 - u) / w)
        v += _c(c, 17) * (th(np.sqrt(x)) - th(1.0)) / (th(0.0) - th(1.0))
    return v


def pedestal_i(c, x):
    v = sum(_c(c, i) * x ** (i + 1) / (i + 1) for i in range(8))
    w, x0 = _c(c, 11), _c(c, 10)
    if w > 0:
        th = lambda u: np.tanh(2 * (x0 - u) / w)
        v += _c(c, 8) * (th(0.0) - th(np.sqrt(x))) / (th(0.0) - th(1.0))
    for k in (13, 17):
        ww = max(_c(c, k + 3), 0.01)
        v += _c(c, k) * (np.tanh((x - _c(c, k + 2)) / ww) - np.tanh(-_c(c, k + 2) / ww))
    return v


def rational(c, x):
    return poly([_c(c, i) for i in range(10)], x) / poly(list(c[10:]), x)


def nice_quadratic(c, x):
    return _c(c, 0) * (1 - x) + _c(c, 1) * x + 4 * _c(c, 2) * x * (1 - x)


def line(xs, ys, x):
    return np.interp(x, xs, ys)          # constant outside the knots


def line_int(xs, ys, x):
    pts = np.unique(np.concatenate([[0.0, x], [k for k in xs if 0 < k < x]]))
    v = np.interp(pts, xs, ys)
    return float(np.sum(0.5 * (v[1:] + v[:-1]) * np.diff(pts)))


def spline_range(f, xs, x):
    """the splines are defined on their knots' range only"""
    return float(f(x)) if xs[0] <= x <= xs[-1] else 0.0


def pressure(kind, c, xs, ys, x):
    if kind == "power_series":
        return poly(c, x)
    if kind == "gauss_trunc":
        return gauss_trunc(c, x, True)
    if kind == "two_lorentz":
        return two_lorentz(c, x)
    if kind == "two_power":
        return two_power(c, x)
    if kind == "two_power_gs":
        return two_power_gs(c, x)
    if kind == "akima_spline":
        return spline_range(akima(xs, ys), xs, x)
    if kind == "cubic_spline":
        return spline_range(cubic(xs, ys), xs, x)
    if kind == "pedestal":
        return pedestal_p(c, x)
    if kind == "rational":
        return rational(c, x)
    if kind == "line_segment":
        return line(xs, ys, x)
    raise KeyError(kind)


def iota(kind, c, xs, ys, x):
    if kind == "power_series":
        return poly(c, x)
    if kind == "sum_atan":
        return sum_atan(c, x)
    if kind == "akima_spline":
        return spline_range(akima(xs, ys), xs, x)
    if kind == "cubic_spline":
        return spline_range(cubic(xs, ys), xs, x)
    if kind == "rational":
        return rational(c, x)
    if kind == "line_segment":
        return line(xs, ys, x)
    if kind == "nice_quadratic":
        return nice_quadratic(c, x)
    raise KeyError(kind)


def current(kind, c, xs, ys, x):
    """enclosed current, up to the normalisation"""
    if kind == "power_series":
        return sum(v * x ** (i + 1) / (i + 1) for i, v in enumerate(c))
    if kind == "power_series_i":
        return sum(v * x ** (i + 1) for i, v in enumerate(c))
    if kind == "gauss_trunc":
        return integral(lambda s: gauss_trunc(c, s, False), x)
    if kind == "sum_atan":
        return sum_atan(c, x)
    if kind == "two_power":
        return integral(lambda s: two_power(c, s), x)
    if kind == "two_power_gs":
        return integral(lambda s: two_power_gs(c, s), x)
    if kind == "akima_spline_i":
        return spline_range(akima(xs, ys), xs, x)
    if kind == "akima_spline_ip":
        return float(akima(xs, ys).integrate(xs[0], min(x, xs[-1]))) if x > xs[0] else 0.0
    if kind == "cubic_spline_i":
        return spline_range(cubic(xs, ys), xs, x)
    if kind == "cubic_spline_ip":
        return float(cubic(xs, ys).integrate(xs[0], x)) if xs[0] <= x <= xs[-1] else 0.0
    if kind == "pedestal":
        return pedestal_i(c, x)
    if kind == "rational":
        return rational(c, x)
    if kind == "line_segment_i":
        return line(xs, ys, x)
    if kind == "line_segment_ip":
        return line_int(xs, ys, x)
    raise KeyError(kind)


P_KINDS = ["power_series", "gauss_trunc", "two_lorentz", "two_power", "two_power_gs", "akima_spline",
           "cubic_spline", "pedestal", "rational", "line_segment"]
I_KINDS = ["power_series", "sum_atan", "akima_spline", "cubic_spline", "rational", "line_segment",
           "nice_quadratic"]
C_KINDS = ["power_series", "power_series_i", "gauss_trunc", "sum_atan", "two_power", "two_power_gs",
           "akima_spline_i", "akima_spline_ip", "cubic_spline_i", "cubic_spline_ip", "pedestal", "rational",
           "line_segment_i", "line_segment_ip"]


def knots(rng, full=True):
    n = int(rng.integers(4, 12))
    x = np.sort(rng.uniform(0.03, 0.97, n - 2))
    while np.min(np.diff(np.concatenate([[0], x, [1]]))) < 0.02:
        x = np.sort(rng.uniform(0.03, 0.97, n - 2))
    return np.concatenate([[0.0], x, [1.0]])


def draw(rng, what, kind):
    """(coeffs, knots, values) with a positive, moderate profile"""
    u = rng.uniform
    c, xs, ys = [], [], []
    if kind in ("power_series", "power_series_i"):
        n = int(rng.integers(1, 9))
        c = [u(0.5, 1.5)] + [u(-0.15, 0.1) for _ in range(n)]
    elif kind == "gauss_trunc":
        c = [u(0.5, 1.5), u(0.4, 1.3)]
    elif kind == "two_lorentz":
        c = [u(.5, 1.5), u(.2, .8), u(.6, 1.2), u(1, 3), u(1, 2), u(.6, 1.2), u(1, 3), u(1, 2)]
    elif kind == "two_power":
        c = [u(.5, 1.5), float(rng.integers(1, 4)), float(rng.integers(1, 4))]
        if what == "p":
            c[1:] = [u(.8, 4), u(.8, 4)]
    elif kind == "two_power_gs":
        c = [u(.5, 1.5), float(rng.integers(1, 4)), float(rng.integers(1, 4))]
        for _ in range(int(rng.integers(0, 7))):
            c += [u(.05, .3), u(0, 1), u(.35, .6)]
    elif kind == "sum_atan":
        c = [u(.3, .8)]
        for _ in range(int(rng.integers(1, 6))):
            c += [u(.05, .2), u(.5, 2), u(1, 3), u(.8, 2)]
    elif kind == "pedestal" and what == "p":
        c = [u(.5, 1.)] + [u(-.05, .03) for _ in range(15)] + [0.0, u(.1, .4), u(.5, .95), u(.05, .3)]
        if rng.random() < .2:
            c[19] = 0.0
    elif kind == "pedestal":
        c = [u(.5, 1.)] + [u(-.05, .03) for _ in range(7)] + [u(.05, .2), 0., u(.5, .95), u(.05, .3), 0.]
        c += [u(.05, .2), 0., u(.3, .8), u(.05, .3)]
        c += [u(.05, .2), 0., u(.3, .8), u(.001, .3)]
        if rng.random() < .2:
            c[11] = 0.0
    elif kind == "rational":
        c = [u(.4, 1.2)] + [u(-.05, .08) for _ in range(9)] + [u(.8, 1.2)] + [u(-.05, .2) for _ in range(int(rng.integers(0, 6)))]
        if what == "c":
            c[0] = 0.0
            c[1] = u(.5, 1)
    elif kind == "nice_quadratic":
        c = [u(.3, 1), u(.3, 1), u(-.1, .1)]
    else:
        xs = knots(rng)
        ys = u(.4, 1.2, len(xs))
        if kind.endswith("_i"):
            ys = np.concatenate([[0.0], np.cumsum(u(.1, 1, len(xs) - 1))])
        if kind.startswith("line") and rng.random() < .3:
            xs = xs[1:-1]            # clamped outside
            ys = ys[1:-1]
    return [float(v) for v in c], [float(v) for v in xs], [float(v) for v in ys]
