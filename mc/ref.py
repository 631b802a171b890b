"""Reference models in plain float64 numpy, written from the documented formulas (never from the implementation).

Expressions are JSON lists; `Ref(expr).ev(x, y)` gives (value, err) where err is a first-order forward error bound in
units of the machine epsilon for a computation in the documented operation order.  The tolerance of a comparison is
C*eps*err, so it adapts to cancellation and to precision, and becomes infinite at discontinuities whose position is
not exactly representable."""
import math
import numpy as np


def num(e):
    """["i",2] -> 2, ["f",.5] -> .5, ["c",1,2] -> 1+2j, ["nf",.5] -> np.float64, ["nc",1,2] -> np.complex128"""
    k = e[0]
    if k == "i": return int(e[1])
    if k == "f": return float(e[1])
    if k == "c": return complex(e[1], e[2])
    if k == "nf": return np.float64(e[1])
    if k == "nc": return np.complex128(complex(e[1], e[2]))
    raise KeyError(k)


NUMS = ("i", "f", "c", "nf", "nc")


def hermite_poly(n, x):
    """Physicists' Hermite polynomial by its three-term recurrence; and the same with all signs positive (size)."""
    a0, a1 = np.ones_like(x), 2 * x
    b0, b1 = np.ones_like(x), 2 * np.abs(x)
    if n == 0:
        return a0, b0
    for k in range(1, n):
        a0, a1 = a1, 2 * x * a1 - 2 * k * a0
        b0, b1 = b1, 2 * np.abs(x) * b1 + 2 * k * b0
    return a1, b1


def laguerre_poly(p, al, x):
    """Generalized Laguerre L_p^al by the explicit sum."""
    v, s = np.zeros_like(x), np.zeros_like(x)
    for k in range(p + 1):
        c = math.comb(p + al, p - k) / math.factorial(k)
        v = v + (-1) ** k * c * x ** k
        s = s + c * np.abs(x) ** k
    return v, s


def zernike_radial(n, m, rho):
    v, s = np.zeros_like(rho), np.zeros_like(rho)
    m = abs(m)
    for k in range((n - m) // 2 + 1):
        c = math.factorial(n - k) / (math.factorial(k) * math.factorial((n + m) // 2 - k) * math.factorial((n - m) // 2 - k))
        v = v + (-1) ** k * c * rho ** (n - 2 * k)
        s = s + c * rho ** (n - 2 * k)
    return v, s


def leaf(e, x, y):
    """(value, intrinsic error, length scale) of a leaf profile at float64 points."""
    k = e[0]
    x = np.asarray(x, float); y = np.asarray(y, float)
    if k == "K":
        c = num(e[1])
        v = np.full(np.broadcast(x, y).shape, c)
        return v, np.abs(v), 1.0
    if k == "HG":
        x0, y0, a, w, n, m = e[1:]
        u, v = (x - x0) / w, (y - y0) / w
        hn, sn = hermite_poly(n, math.sqrt(2) * u)
        hm, sm = hermite_poly(m, math.sqrt(2) * v)
        g = np.exp(-(u ** 2 + v ** 2))
        val = a * hn * hm * g
        rel = 4 + n + m + 4 * (np.abs(u) + np.abs(v)) * (np.abs(x0 / w) + np.abs(y0 / w) + np.abs(u) + np.abs(v)) + 4 * (n + m)
        # absolute error of the normalized coordinates, through the slope of the polynomials
        du, dv = 2 * np.abs(x0 / w) + 3 * np.abs(u), 2 * np.abs(y0 / w) + 3 * np.abs(v)
        s1 = 2 * n * hermite_poly(max(n - 1, 0), math.sqrt(2) * u)[1] if n else 0
        s2 = 2 * m * hermite_poly(max(m - 1, 0), math.sqrt(2) * v)[1] if m else 0
        return val, np.abs(a) * g * (sn * sm * rel + 1.5 * (s1 * sm * du + sn * s2 * dv)), abs(w)
    if k == "LG":
        x0, y0, a, w, l, p = e[1:]
        dx, dy = x - x0, y - y0
        r2 = dx ** 2 + dy ** 2
        r = np.sqrt(r2)
        lag, sl = laguerre_poly(p, abs(l), 2 * r2 / w ** 2)
        env = (math.sqrt(2) * r / w) ** abs(l) * np.exp(-r2 / w ** 2)
        phi = np.arctan2(dy, dx)
        val = a * env * lag * np.exp(-1j * l * phi)
        with np.errstate(all="ignore"):
            pos = np.where(r > 0, (np.abs(x0) + np.abs(y0) + np.abs(dx) + np.abs(dy)) / np.where(r > 0, r, 1), 0)
        rel = 6 + 4 * abs(l) + 4 * p + 4 * r2 / w ** 2 + pos * (2 * abs(l) + 2 * p + 2 * r2 / w ** 2 + 2)
        t = (np.abs(x0) + np.abs(y0)) / abs(w) * 2
        sl1 = 4 * r / abs(w) * laguerre_poly(p - 1, abs(l) + 1, 2 * r2 / w ** 2)[1] if p else 0
        return val, np.abs(a) * np.abs(env) * (sl * rel + sl1 * t) + (1e-30 if l else 0), abs(w)
    if k == "SG":
        x0, y0, a, w, p = e[1:]
        u, v = (x - x0) / w, (y - y0) / w
        q = u ** 2 + v ** 2
        qp = q ** p
        val = a * np.exp(-qp)
        pos = 1 + np.abs(x0 / w) + np.abs(y0 / w)
        with np.errstate(all="ignore"):
            lg = np.where(q > 0, np.abs(np.log(np.where(q > 0, q, 1))), 0)
            amp = np.where(q > 0, 2 * (np.abs(u) + np.abs(v)) * (np.abs(u) + np.abs(v) + pos) / np.where(q > 0, q, 1), 0)
        return val, np.abs(val) * (4 + qp * (4 + p * (lg + 4 + amp))), abs(w)
    if k == "Z":
        a, R, n, m, norm, extra = e[1:]
        r = np.sqrt(x ** 2 + y ** 2)
        rho = r / R
        phi = np.arctan2(y, x)
        rad, sr = zernike_radial(n, m, rho)
        ang = np.cos(m * phi) if m >= 0 else np.sin(-m * phi)
        N = (math.sqrt(n + 1) if m == 0 else math.sqrt(2 * n + 2)) if norm else 1.0
        val = a * N * rad * ang
        err = np.abs(a) * N * sr * (6 + 4 * n + 4 * abs(m))
        if not extra:
            out = rho > 1.0
            # the rim itself is decided exactly only when r and R are exact; elsewhere near it the cut is not decidable
            near = (np.abs(rho - 1.0) < 1e-6) & ((rho != 1.0) | (float(np.float32(R)) != R))
            val = np.where(out, 0.0, val)
            err = np.where(near, np.inf, np.where(out, 0.0, err))
        return val, err, R
    if k == "WR":
        x0, y0, wx, wy = e[1:]
        v = ((np.abs(x - x0) < wx / 2) & (np.abs(y - y0) < wy / 2)).astype(float)
        return v, np.zeros_like(v), min(abs(wx), abs(wy)) or 1.0
    if k == "WC":
        x0, y0, r = e[1:]
        v = ((x - x0) ** 2 + (y - y0) ** 2 <= r ** 2).astype(float)
        return v, np.zeros_like(v), abs(r) or 1.0
    raise KeyError(k)


LEAVES = ("K", "HG", "LG", "SG", "Z", "WR", "WC")
C_EPS = 48.0
EPS = 2.0 ** -24        # set by compare_profile to the configured precision


def ev(e, x, y, ex=None, ey=None):
    """(value, err) of an expression at points x, y whose absolute errors are ex, ey (units of eps)."""
    x = np.asarray(x, float); y = np.asarray(y, float)
    exact = ex is None
    if exact:
        ex, ey = np.zeros_like(x), np.zeros_like(y)
    k = e[0]
    with np.errstate(all="ignore"):
        if k in NUMS:
            v = np.full(np.broadcast(x, y).shape, num(e))
            return v, np.abs(v)
        if k in LEAVES:
            v, err, L = leaf(e, x, y)
            if np.any(ex > 0) or np.any(ey > 0):
                h = 1e-5 * L
                for sx, sy, de in ((h, 0, ex), (0, h, ey)):
                    d = np.abs(leaf(e, x + sx, y + sy)[0] - leaf(e, x - sx, y - sy)[0]) / (2 * h)
                    err = err + d * de * 1.5
                if k in ("WR", "WC", "Z"):      # discontinuities in reach of the coordinate error
                    for sx, sy in ((h, 0), (-h, 0), (0, h), (0, -h), (h, h), (-h, -h), (h, -h), (-h, h)):
                        jump = np.abs(leaf(e, x + sx, y + sy)[0] - v) > (0.5 if k != "Z" else np.inf)
                        err = np.where(jump, np.inf, err)
                    if k == "Z" and not e[6]:
                        rho = np.sqrt(x ** 2 + y ** 2) / e[2]
                        err = np.where(np.abs(rho - 1) < 1e-4, np.inf, err)
                if k == "LG":                   # phase undefined at the centre
                    r = np.hypot(x - e[1], y - e[2])
                    err = np.where(r < 1e-3 * L, err + np.abs(e[3]) * 1e9 * 0 + (np.inf if e[5] else 0), err) if e[5] else err
            return v, err
        if k == "shift":
            dx, dy = num(e[2]), num(e[3])
            return ev(e[1], x - dx, y - dy, ex + np.abs(x) + np.abs(dx), ey + np.abs(y) + np.abs(dy))
        if k == "rot":
            t = num(e[2]); c, s = math.cos(t), math.sin(t)
            b = 2 * (np.abs(x) + np.abs(y)) * (1 + abs(t))
            return ev(e[1], c * x - s * y, s * x + c * y, ex + ey + b, ex + ey + b)
        if k == "rx":
            m = num(e[2])
            return ev(e[1], x / m, y, ex / abs(m) + np.abs(x / m), ey)
        if k == "ry":
            m = num(e[2])
            return ev(e[1], x, y / m, ex, ey / abs(m) + np.abs(y / m))
        ep = (None, None) if exact else (ex, ey)
        if k == "asc":
            v, err = ev(e[1], x, y, *ep)
            r = np.exp(1j * v)
            e1 = 2 + err + np.abs(v)
            return r, np.where(e1 * C_EPS * EPS < 0.5, np.abs(r) * 2 * e1, np.inf)
        if k == "neg":
            v, err = ev(e[1], x, y, *ep)
            return -v, err
        a, ea = ev(e[1], x, y, *ep)
        b, eb = ev(e[2], x, y, *ep)
        if k == "+": v = a + b; return v, ea + eb + np.abs(v)
        if k == "-": v = a - b; return v, ea + eb + np.abs(v)
        if k == "*":
            v = a * b
            return v, np.abs(a) * eb + np.abs(b) * ea + C_EPS * EPS * ea * eb + np.abs(v)
        if k == "/":
            v = a / b
            bb = np.abs(b) - C_EPS * EPS * eb
            ok = (np.abs(b) > 1e-6) & (bb > np.abs(b) / 2)
            return v, np.where(ok, ea / bb + np.abs(a) * eb / bb ** 2 + 4 * np.abs(v), np.inf)
        if k == "**":
            cplx = np.iscomplexobj(a) or np.iscomplexobj(b)
            integer = e[2][0] in NUMS and not np.iscomplexobj(np.asarray(num(e[2]))) and float(num(e[2])).is_integer()
            if cplx:
                a = a.astype(complex)
            if integer:
                v = a ** int(num(e[2])) if int(num(e[2])) >= 0 else 1.0 / a ** (-int(num(e[2])))
            else:
                v = a ** b
            lg = np.abs(np.log(np.where(np.abs(a) > 0, a.astype(complex), 1)))
            amax = np.abs(a) + C_EPS * EPS * ea
            err = np.abs(v) * (4 + 2 * np.abs(b) * (lg + 1)) + np.abs(v) * lg * eb
            if integer and num(e[2]) >= 1:          # valid however small the base is
                err = err + num(e[2]).real * amax ** (num(e[2]).real - 1) * ea
            else:
                err = err + np.where(amax < 1.25 * np.abs(a), 4 * np.abs(b) * np.abs(v) / np.abs(a) * ea, np.inf)
            if not integer:
                if cplx:
                    err = np.where(np.abs(np.abs(np.angle(a)) - np.pi) < 1e-2, np.inf, err)
                err = np.where(np.abs(a) < 1e-6, np.inf, err)
            elif num(e[2]) <= 0:
                err = np.where(np.abs(a) < 1e-6, np.inf, err)
            return v, np.where(np.isnan(err) & (np.abs(a) == 0) & (ea == 0), 0.0, np.where(np.isnan(err), np.inf, err))
    raise KeyError(k)


def build(P, e, memo=None):
    """The implementation's profile (or number) for an expression; identical leaves are one shared object."""
    memo = {} if memo is None else memo
    key = repr(e)
    if key in memo:
        return memo[key]
    k = e[0]
    if k in NUMS: r = num(e)
    elif k == "K": r = P.ConstantProfile(num(e[1]))
    elif k == "HG": r = P.HermiteGaussian(*e[1:])
    elif k == "LG": r = P.LaguerreGaussian(*e[1:])
    elif k == "SG": r = P.SuperGaussian(*e[1:])
    elif k == "Z": r = P.Zernike(e[1], e[2], n=e[3], m=e[4], normalize=e[5], extrapolate=e[6])
    elif k == "WR": r = P.RectangularWindowRectangle(*e[1:])
    elif k == "WC": r = P.RectangularWindowCircular(*e[1:])
    elif k == "shift": r = build(P, e[1], memo).shift(num(e[2]), num(e[3]))
    elif k == "rot": r = build(P, e[1], memo).rotate(num(e[2]))
    elif k == "rx": r = build(P, e[1], memo).rescale_x(num(e[2]))
    elif k == "ry": r = build(P, e[1], memo).rescale_y(num(e[2]))
    elif k == "asc": r = build(P, e[1], memo).as_complex_profile()
    elif k == "neg": r = -build(P, e[1], memo)
    else:
        a, b = build(P, e[1], memo), build(P, e[2], memo)
        if k == "+": r = a + b
        elif k == "-": r = a - b
        elif k == "*": r = a * b
        elif k == "/": r = a / b
        elif k == "**": r = a ** b
        else: raise KeyError(k)
    memo[key] = r
    return r


def leaves_of(e):
    if e[0] in LEAVES:
        return [e]
    return [l for s in e[1:] if isinstance(s, list) and s[0] not in NUMS for l in leaves_of(s)]


def compare_profile(env, prof, e, x, y, what):
    """Evaluate the implementation's profile and compare with the reference within the forward error bound."""
    global EPS
    env.step()
    eps = EPS = 2.0 ** -53 if env.f64 else 2.0 ** -24
    v, err = ev(e, x, y)
    got = prof(x, y)
    shape = np.broadcast(np.asarray(x), np.asarray(y)).shape
    env.check(isinstance(got, (np.ndarray, np.generic)), lambda: "%s: result is %s, not an array" % (what, type(got)))
    cplx = np.iscomplexobj(v)
    env.check(np.asarray(got).dtype == np.dtype(env.cplx if cplx else env.real),
              lambda: "%s: dtype %s, expected %s" % (what, np.asarray(got).dtype, np.dtype(env.cplx if cplx else env.real)))
    big = np.abs(v) > (1e150 if env.f64 else 1e30)
    skip = ~np.isfinite(err) | ~np.isfinite(v) | big
    env.close(got, np.broadcast_to(v, shape), what, scale=np.where(skip, 1.0, err), tol32=C_EPS * eps, tol64=C_EPS * eps,
              skip=np.broadcast_to(skip, shape))
    env.count("points_compared", int((~np.broadcast_to(skip, shape)).sum()))
    return np.asarray(got)
