"""Numerical values of the laws of spec/Families.tla: X = a + b * w(Y), Y of a canonical kind."""
import math
from fractions import Fraction

import numpy as np
from scipy import special as sp

HALFPI = math.pi / 2
SQ2PI = math.sqrt(2 * math.pi)


def _ibeta(a, b, u, v, low):
    """incomplete beta function at u = 1 - v, lower or upper part"""
    if low:
        return float(sp.betainc(a, b, u) if v > 1e-6 else 1 - sp.betainc(b, a, v))
    return float(sp.betainc(b, a, v) if u > 1e-6 else 1 - sp.betainc(a, b, u))


class Law(object):
    """rec is the record of the specification: f, p, a, b, w (rationals as pairs)"""

    def __init__(self, rec):
        self.f, self.w = rec["f"], rec["w"]
        self.P = [Fraction(*x) for x in rec["p"]]
        self.p = [float(x) for x in self.P]
        self.a, self.b = float(Fraction(*rec["a"])), float(Fraction(*rec["b"]))
        self.discrete = self.f in ("P", "BI", "GE", "K")
        if self.f == "MO":
            t, u = np.polynomial.legendre.leggauss(400)
            self._gl = (t, u)
            self._mo = self._mo_raw(1.0)
        if self.f == "NN":
            self.s = math.sqrt(self.p[0])

    def _mo_raw(self, x):
        """integral of exp(-1/(1-t^2)) over -1..x"""
        t, u = self._gl
        y = (t + 1) / 2 * (x + 1) - 1
        with np.errstate(all="ignore"):
            return float(np.sum(u * np.exp(-1.0 / (1 - y * y))) * (x + 1) / 2)

    # ---- the canonical variable: cdf, sf, pdf, quantile
    def _k(self, y, what, ly=None):
        f, p = self.f, self.p
        if f == "N":
            s = math.sqrt(p[0])
            z = y / s
            return sp.ndtr(z) if what == "c" else sp.ndtr(-z) if what == "s" else math.exp(-z * z / 2) / SQ2PI / s
        if f == "C":
            z = y / p[0]
            if what == "d":
                return 1 / (math.pi * p[0] * (1 + z * z))
            z = z if what == "c" else -z
            return 0.5 + math.atan(z) / math.pi if z > -1 else math.atan(-1 / z) / math.pi
        if f == "T":
            df = p[0]
            if what == "d":
                return math.exp(sp.gammaln((df + 1) / 2) - sp.gammaln(df / 2)) / math.sqrt(df * math.pi) * (1 + y * y / df) ** (-(df + 1) / 2)
            z = -y if what == "s" else y
            h = 0.5 * sp.betainc(df / 2, 0.5, df / (df + z * z))
            return float(h if z <= 0 else 1 - h)
        if f in ("G", "B", "R"):
            pw = p[-1]
            if ly is None and y < 0:
                return 0.0 if what != "s" else 1.0
            if ly is None and y == 0:
                if what != "d":
                    v = (0.0 if pw > 0 or True else 1.0)
                    return v if what == "c" else 1 - v
                return self._at0()
            S = p[1] if f == "G" else p[2]
            lu = pw * (math.log(y) if ly is None else ly) - math.log(S)
            if what == "d":
                jac = math.log(abs(pw)) + lu - (math.log(y) if ly is None else 0.0)      # density of log Y when ly is given
                if f == "G":
                    if lu > 709:
                        return 0.0
                    return math.exp((p[0] - 1) * lu - math.exp(lu) - sp.gammaln(p[0]) + jac)
                if f == "B":
                    if lu > 1e-14:
                        return 0.0
                    one = -math.expm1(min(lu, 0.0))
                    if one == 0:
                        ex = p[1] - 1
                        return math.exp((p[0] - 1) * lu - sp.betaln(p[0], p[1]) + jac) if ex == 0 else 0.0 if ex > 0 else math.inf
                    return math.exp((p[0] - 1) * lu + (p[1] - 1) * math.log(one) - sp.betaln(p[0], p[1]) + jac)
                return math.exp((p[0] - 1) * lu - (p[0] + p[1]) * np.logaddexp(0, lu) - sp.betaln(p[0], p[1]) + jac)
            low = (what == "c") == (pw > 0)
            u = math.exp(min(lu, 700))
            if f == "G":
                return float(sp.gammainc(p[0], u) if low else sp.gammaincc(p[0], u))
            if f == "B":
                if u >= 1:
                    return 1.0 if low else 0.0
                return _ibeta(p[0], p[1], u, -math.expm1(lu), low)
            return _ibeta(p[0], p[1], 1 / (1 + math.exp(min(-lu, 700))), 1 / (1 + u), low)
        if f == "A":
            s, t = p
            if what == "d":
                return math.exp(-y / s if y >= 0 else y / t) / (s + t)
            if what == "s":
                return s / (s + t) * math.exp(-y / s) if y >= 0 else 1 - t / (s + t) * math.exp(y / t)
            return 1 - s / (s + t) * math.exp(-y / s) if y >= 0 else t / (s + t) * math.exp(y / t)
        if f == "SC":
            R = p[0]
            z = max(-1.0, min(1.0, y / R))
            if what == "d":
                return 2 / math.pi / R * math.sqrt(1 - z * z) if abs(y) <= R else 0.0
            if what == "s":
                z = -z
            return float(sp.betainc(1.5, 1.5, (1 + z) / 2))
        if f == "NN":
            x = abs(y) / self.s
            if what == "d":
                return sp.k0(x) / math.pi / self.s if x > 0 else math.inf
            tail = 0.5 - sp.iti0k0(x)[1] / math.pi if x < 3 else self._k0tail(x) / math.pi
            return float(tail if (y > 0) == (what == "s") else 1 - tail)
        if f == "UP":
            lo, hi = p[0] * math.pi, p[1] * math.pi
            if what == "d":
                return 1 / (hi - lo) if lo <= y <= hi else 0.0
            v = min(1.0, max(0.0, (y - lo) / (hi - lo)))
            return v if what == "c" else 1 - v
        if f == "TZ":
            a, b, c, d = p
            u = 2 / (d + c - a - b)
            if y <= a:
                r = (0.0, 0.0)
                dn = u if (y == a and a == b) else 0.0
            elif y < b:
                r = (u * (y - a) ** 2 / 2 / (b - a), None)
                dn = u * (y - a) / (b - a)
            elif y <= c:
                r = (u * (b - a) / 2 + u * (y - b), None)
                dn = u
            elif y < d:
                r = (1 - u * (d - y) ** 2 / 2 / (d - c), u * (d - y) ** 2 / 2 / (d - c))
                dn = u * (d - y) / (d - c)
            else:
                r = (1.0, 0.0)
                dn = 0.0
            return dn if what == "d" else r[0] if what == "c" else (1 - r[0])
        if f == "MO":
            e = p[0]
            z = y / e
            if what == "d":
                return math.exp(-1 / (1 - z * z)) / self._mo / e if abs(z) < 1 else 0.0
            z = -z if what == "s" else z
            return 0.0 if z <= -1 else 1.0 if z >= 1 else self._mo_raw(z) / self._mo
        if f in ("NCT", "NCC", "NCB", "NCF"):
            return self._nc(y, what)
        raise ValueError(f)

    @staticmethod
    def _k0tail(x):
        t, u = np.polynomial.laguerre.laggauss(60)
        return float(np.sum(u * sp.k0e(x + t)) * math.exp(-x))

    def _at0(self):
        f, p = self.f, self.p
        e = p[0] * p[-1] - 1
        if p[-1] < 0:
            if f == "R":
                e = -p[1] * p[-1] - 1
            else:
                return 0.0
        if e > 0:
            return 0.0
        if e < 0:
            return math.inf
        S = p[1] if f == "G" else p[2]
        if f == "G":
            return abs(p[-1]) * S ** -p[0] / math.gamma(p[0])
        k = p[0] if p[-1] > 0 else -p[1]
        return abs(p[-1]) * S ** -k / math.exp(sp.betaln(p[0], p[1]))

    def _nc(self, y, what):
        """noncentral laws as Poisson mixtures of central ones (t: by integrating over the denominator)"""
        f, p = self.f, self.p
        if f == "NCT":
            df, mu = p
            # X = N(mu,1) / sqrt(Q/df); integrate over q = Q with the density of a chi-square law, by Gauss quadrature in log q
            t, u = np.polynomial.legendre.leggauss(300)
            lo, hi = sp.gammaincinv(df / 2, 1e-18) * 2, sp.gammainccinv(df / 2, 1e-18) * 2
            llo, lhi = math.log(max(lo, 1e-300)), math.log(hi)
            lq = (t + 1) / 2 * (lhi - llo) + llo
            w = u * (lhi - llo) / 2 * np.exp(df / 2 * lq - np.exp(lq) / 2 - df / 2 * math.log(2) - sp.gammaln(df / 2))
            r = np.sqrt(np.exp(lq) / df)
            if what == "c":
                return float(np.sum(w * sp.ndtr(y * r - mu)))
            if what == "s":
                return float(np.sum(w * sp.ndtr(mu - y * r)))
            return float(np.sum(w * r * np.exp(-(y * r - mu) ** 2 / 2) / SQ2PI))
        lam = p[-1]
        tot = 0.0
        sub = {"NCC": lambda j: ("G", [p[0] / 2 + j, 2.0, 1.0]), "NCB": lambda j: ("B", [p[0] + j, p[1], 1.0, 1.0]),
               "NCF": lambda j: ("R", [p[0] / 2 + j, p[1] / 2, p[1] / p[0], 1.0])}[f]
        keep = self.f, self.p
        try:
            for j in range(200):
                wj = math.exp(-lam / 2 + j * math.log(lam / 2) - sp.gammaln(j + 1))
                self.f, self.p = sub(j)
                tot += wj * self._k(y, what)
                if j > lam and wj < 1e-20:
                    break
        finally:
            self.f, self.p = keep
        return tot

    # ---- support and quantiles of the canonical variable
    def _supp(self):
        f, p = self.f, self.p
        if f in ("G", "R", "NCC", "NCF"):
            return 0.0, math.inf
        if f == "B":
            e = p[2] ** (1 / p[3])
            return (0.0, e) if p[3] > 0 else (e, math.inf)
        if f == "NCB":
            return 0.0, 1.0
        if f in ("SC", "MO"):
            return -p[0], p[0]
        if f == "TZ":
            return p[0], p[3]
        if f == "UP":
            return p[0] * math.pi, p[1] * math.pi
        return -math.inf, math.inf

    def _q(self, q, upper=False):
        """y with F(y) = q (or S(y) = q)"""
        f, p = self.f, self.p
        sgn = -1.0 if upper else 1.0
        if f == "N":
            return sgn * math.sqrt(p[0]) * sp.ndtri(q)
        if f == "C":
            return -sgn * p[0] / math.tan(math.pi * q)
        if f == "T":
            return sgn * sp.stdtrit(p[0], q) if q > 1e-4 else self._bis(q, upper)
        if f in ("G", "B", "R"):
            low = upper == (p[-1] < 0)
            S = p[1] if f == "G" else p[2]
            if f == "G":
                u = sp.gammaincinv(p[0], q) if low else sp.gammainccinv(p[0], q)
            elif f == "B":
                u = sp.betaincinv(p[0], p[1], q) if low else 1 - sp.betaincinv(p[1], p[0], q)
            else:
                if low:
                    v = sp.betaincinv(p[0], p[1], q)
                    u = v / (1 - v) if v < 1 else math.inf
                else:
                    v = sp.betaincinv(p[1], p[0], q)
                    u = (1 - v) / v if v > 0 else math.inf
            u *= S
            if self.w == "log":
                return math.log(u) / p[-1] if 0 < u < math.inf else math.copysign(math.inf, math.log(u) / p[-1] if u else -p[-1])
            try:
                return math.inf if (u == 0 and p[-1] < 0) else float(u) ** (1 / p[-1])
            except OverflowError:
                return math.inf
        if f == "UP":
            lo, hi = self._supp()
            return hi - q * (hi - lo) if upper else lo + q * (hi - lo)
        return self._bis(q, upper)

    def _bis(self, q, upper):
        lo, hi = self._supp()
        g = (lambda y: self._k(y, "s") < q) if upper else (lambda y: self._k(y, "c") > q)
        if not math.isfinite(lo):
            lo = -1.0
            while g(lo):
                lo *= 4
        if not math.isfinite(hi):
            hi = 1.0
            while not g(hi):
                hi *= 4
        for _ in range(90):
            m = (lo + hi) / 2
            if g(m):
                hi = m
            else:
                lo = m
        return (lo + hi) / 2

    # ---- the wrapper
    def _fw(self, y):
        if self.w == "exp":
            return math.exp(y) if y < 709 else math.inf
        if self.w == "log":
            return math.log(y) if y > 0 else -math.inf
        if self.w == "atan":
            return math.atan(y)
        return y

    def _iw(self, x):
        """(y, dy/dx) with w(y) = x"""
        if self.w == "exp":
            return (math.log(x), 1 / x) if x > 0 else (-math.inf, 0.0)
        if self.w == "log":
            if x > 700:
                return math.inf, math.inf
            return math.exp(x), math.exp(x)
        if self.w == "atan":
            if abs(x) >= HALFPI:
                return math.copysign(math.inf, x), math.inf
            return math.tan(x), 1 + math.tan(x) ** 2
        return x, 1.0

    # ---- public
    def atoms(self, eps=1e-18):
        f, p = self.f, self.p
        if f == "K":
            out = [(p[0], 1.0)]
        elif f == "P":
            out = [(float(k), math.exp(-p[0] + k * math.log(p[0]) - sp.gammaln(k + 1))) for k in range(int(p[0] + 12 * math.sqrt(p[0]) + 40))]
        elif f == "GE":
            out = [(float(k), p[0] * (1 - p[0]) ** k) for k in range(400)]
        elif f == "BI":
            n, q = self.P
            out = [(float(k), float(math.comb(int(n), k) * q ** k * (1 - q) ** (int(n) - k))) for k in range(int(n) + 1)]
        else:
            return []
        return sorted((self.a + self.b * x, m) for x, m in out if m > eps)

    def support(self):
        if self.discrete:
            at = self.atoms()
            return (at[0][0], at[-1][0] if self.f not in ("P", "GE") else math.inf)
        lo, hi = self._supp()
        lo, hi = self._fw(lo) if math.isfinite(lo) or self.w != "log" else -math.inf, self._fw(hi)
        lo, hi = sorted((self.a + self.b * lo, self.a + self.b * hi))
        return lo, hi

    def cdf(self, x, what="c"):
        if self.discrete:
            at = self.atoms()
            c = sum(m for v, m in at if v <= x)
            return c if what == "c" else sum(m for v, m in at if v > x)
        lo, hi = self.support()
        if x <= lo:
            return 0.0 if what == "c" else 1.0
        if x >= hi:
            return 1.0 if what == "c" else 0.0
        if self.b < 0:
            what = "s" if what == "c" else "c"
        if self.w == "log":
            return float(self._k(None, what, (x - self.a) / self.b))
        y, _ = self._iw((x - self.a) / self.b)
        if y in (math.inf, -math.inf):
            return 1.0 if (y > 0) == (what == "c") else 0.0
        return float(self._k(y, what))

    def sf(self, x):
        return self.cdf(x, "s")

    def pdf(self, x):
        lo, hi = self.support()
        if x < lo or x > hi:
            return 0.0
        if self.w == "log":
            return float(self._k(None, "d", (x - self.a) / self.b)) / abs(self.b)
        y, d = self._iw((x - self.a) / self.b)
        if not math.isfinite(y) or not math.isfinite(d):
            return 0.0
        v = self._k(y, "d")
        return float(v * d / abs(self.b)) if v else 0.0

    def ppf(self, q, upper=False):
        y = self._q(q, upper != (self.b < 0))
        return self.a + self.b * (y if self.w == "log" else self._fw(y))

    def mean_var(self):
        """(mean, variance) in floating point where there is a closed form; None: unknown, inf/nan: does not exist"""
        f, p = self.f, self.p
        if self.w == "exp" and f == "N":
            v = p[0]
            m1, m2 = math.exp(v / 2), math.exp(2 * v)
        elif self.w == "id" and f in ("G", "B", "R"):
            S = p[1] if f == "G" else p[2]

            def mom(j):
                e = j / p[-1]
                if p[0] + e <= 0 or (f == "R" and p[1] - e <= 0):
                    return math.inf
                if f == "G":
                    return S ** e * math.exp(sp.gammaln(p[0] + e) - sp.gammaln(p[0]))
                if f == "B":
                    return S ** e * math.exp(sp.gammaln(p[0] + e) + sp.gammaln(p[0] + p[1]) - sp.gammaln(p[0]) - sp.gammaln(p[0] + p[1] + e))
                return S ** e * math.exp(sp.gammaln(p[0] + e) + sp.gammaln(p[1] - e) - sp.gammaln(p[0]) - sp.gammaln(p[1]))
            m1, m2 = mom(1), mom(2)
        elif f == "UP" and self.w == "id":
            lo, hi = self._supp()
            m1 = (lo + hi) / 2
            m2 = (hi - lo) ** 2 / 12 + m1 ** 2
        elif self.w == "log" and f in ("G", "B", "R"):
            S = p[1] if f == "G" else p[2]
            psi, tri = sp.digamma, lambda z: sp.polygamma(1, z)
            if f == "G":
                m, v = psi(p[0]), tri(p[0])
            elif f == "B":
                m, v = psi(p[0]) - psi(p[0] + p[1]), tri(p[0]) - tri(p[0] + p[1])
            else:
                m, v = psi(p[0]) - psi(p[1]), tri(p[0]) + tri(p[1])
            m1 = (m + math.log(S)) / p[-1]
            m2 = v / p[-1] ** 2 + m1 ** 2
        else:
            return None, None
        if m1 == math.inf:
            return math.inf, math.inf
        return self.a + self.b * m1, self.b ** 2 * (m2 - m1 ** 2) if m2 < math.inf else math.inf

    def iqr(self):
        if self.discrete:
            at = self.atoms()
            m = sum(x * w for x, w in at)
            return max(1.0, math.sqrt(sum((x - m) ** 2 * w for x, w in at)))
        return abs(self.ppf(0.75) - self.ppf(0.25))
