"""Truncated series: equations over true series, Taylor coefficients of closed forms."""
from fractions import Fraction

import mpmath
import sympy
from sympy.core.function import AppliedUndef


class NotJudged(Exception):
    """The expression is of a kind not dealt with."""


# --------------------------------------------------------- polynomials, truncated in x
class Ring:
    """Polynomials in x and parameters, truncated above x^order: {(e_x, e_1, ...): coeff}."""

    def __init__(self, names, order):
        self.names = ["x"] + [k for k in sorted(names) if k != "x"]
        self.index = {k: i for i, k in enumerate(self.names)}
        self.order = order
        self.one = {(0,) * len(self.names): 1}

    def var(self, name):
        exp = [0] * len(self.names)
        exp[self.index[name]] = 1
        return {tuple(exp): 1} if exp[0] <= self.order else {}

    def add(self, a, b, factor=1):
        res = dict(a)
        for k, v in b.items():
            res[k] = res.get(k, 0) + factor * v
            if res[k] == 0:
                del res[k]
        return res

    def mul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        res = {}
        for k, v in a.items():
            for l, w in b.items():
                if k[0] + l[0] <= self.order:
                    key = tuple(map(int.__add__, k, l))
                    res[key] = res.get(key, 0) + v * w
        return {k: v for k, v in res.items() if v != 0}

    def power(self, a, n):
        res = self.one
        for _ in range(n):
            res = self.mul(res, a)
        return res

    def substituted(self, terms, args):
        """
        sum of value * args[0]^n * args[1]^v_1 ...  over terms(n), n <= order. The first
        argument must be divisible by x.
        """
        if any(k[0] < 1 for k in args[0]):
            raise NotJudged("size variable replaced")
        powers = [[self.one] for _ in args]

        def pw(i, n):
            while len(powers[i]) <= n:
                powers[i].append(self.mul(powers[i][-1], args[i]))
            return powers[i][n]

        res = {}
        for n in range(self.order + 1):
            head = pw(0, n)
            if not head:
                break
            for params, value in terms(n).items():
                if value:
                    mono = head
                    for i, v in enumerate(params):
                        mono = self.mul(mono, pw(i + 1, v))
                    res = self.add(res, mono, value)
        return res

    def evaluate(self, expr, function):
        """function(name) gives the terms of the class of an applied function."""
        if expr.is_Rational:
            f = Fraction(int(expr.p), int(expr.q))
            return {k: f for k in self.one} if f else {}
        if expr.is_Symbol:
            return self.var(expr.name)
        if isinstance(expr, AppliedUndef):
            args = [self.evaluate(a, function) for a in expr.args]
            return self.substituted(function(expr.func.__name__, len(args)), args)
        if expr.is_Add:
            res = {}
            for a in expr.args:
                res = self.add(res, self.evaluate(a, function))
            return res
        if expr.is_Mul:
            res = self.one
            for a in expr.args:
                res = self.mul(res, self.evaluate(a, function))
            return res
        if expr.is_Pow and expr.exp.is_Integer and expr.exp >= 0:
            return self.power(self.evaluate(expr.base, function), int(expr.exp))
        raise NotJudged(f"{type(expr).__name__} {expr}")


def names_in(expr):
    return {s.name for s in expr.atoms(sympy.Symbol)}


def residue(lhs, rhs, function, order, names=()):
    """
    lhs - rhs with the true series plugged in, truncated; {} when the equation holds up to
    the order. Also the number of monomials of the left hand side.
    """
    expr = lhs - rhs
    num, den = expr, sympy.Integer(1)
    if any(p.exp.is_negative for p in expr.atoms(sympy.Pow)):
        num, den = sympy.together(expr).as_numer_denom()
    ring = Ring(names_in(expr) | set(names), order)
    value = ring.evaluate(num, function)
    if den != 1 and not ring.evaluate(den, function):
        raise NotJudged("denominator vanishes")
    return ring, value


# ------------------------------------------------------------------------- closed forms
class Laurent:
    """c[0] t^val + c[1] t^(val+1) + ... with mpmath coefficients, finitely many known."""

    EPS = mpmath.mpf(10) ** -60

    def __init__(self, val, c):
        i = 0
        while i < len(c) and abs(c[i]) < self.EPS:
            i += 1
        self.val = val + i
        self.c = c[i:]

    def __add__(self, o):
        if not self.c or not o.c:
            # zero up to what is known
            end = min(self.val + len(self.c), o.val + len(o.c))
            big = self if self.c else o
            return Laurent(big.val, big.c[: max(0, end - big.val)])
        val = min(self.val, o.val)
        end = min(self.val + len(self.c), o.val + len(o.c))
        res = [mpmath.mpf(0)] * max(0, end - val)
        for s in (self, o):
            for i, x in enumerate(s.c):
                if s.val + i < end:
                    res[s.val + i - val] += x
        return Laurent(val, res) if res else Laurent(end, [])

    def __mul__(self, o):
        n = min(len(self.c), len(o.c))
        res = [mpmath.fsum(self.c[j] * o.c[i - j] for j in range(i + 1)) for i in range(n)]
        return Laurent(self.val + o.val, res)

    def power(self, p, q):
        """Principal value for small positive t."""
        if not self.c:
            raise NotJudged("power of zero")
        if (self.val * p) % q:
            raise Ramified()
        c0 = self.c[0]
        if abs(mpmath.im(c0)) < self.EPS and mpmath.re(c0) < 0 and q != 1 and any(
                abs(mpmath.im(x)) > self.EPS for x in self.c):
            raise NotJudged("branch cut")
        lead = mpmath.power(c0, mpmath.mpf(p) / q) if q != 1 else c0 ** p
        a = [x / c0 for x in self.c]
        e = mpmath.mpf(p) / q
        res = [mpmath.mpf(1)]
        # (1+u)^e by the differential equation a r' = e a' r
        for n in range(1, len(a)):
            s = mpmath.fsum((e * k - (n - k)) * a[k] * res[n - k] for k in range(1, n + 1))
            res.append(s / n)
        return Laurent(self.val * p // q, [lead * x for x in res])


class Ramified(Exception):
    pass


def _laurent(expr, ram, prec):
    def const(x):
        return Laurent(0, [x] + [mpmath.mpf(0)] * (prec - 1))

    if expr.is_Rational:
        if expr == 0:
            return Laurent(prec, [])
        return const(mpmath.mpf(int(expr.p)) / int(expr.q))
    if expr is sympy.I:
        return const(mpmath.mpc(0, 1))
    if expr.is_Symbol:
        if expr.name != "x":
            raise NotJudged(str(expr))
        return Laurent(ram, [mpmath.mpf(1)] + [mpmath.mpf(0)] * (prec - 1))
    if expr.is_Add:
        res = _laurent(expr.args[0], ram, prec)
        for a in expr.args[1:]:
            res = res + _laurent(a, ram, prec)
        return res
    if expr.is_Mul:
        res = _laurent(expr.args[0], ram, prec)
        for a in expr.args[1:]:
            b = _laurent(a, ram, prec)
            if not res.c or not b.c:
                return Laurent(prec, [])
            res = res * b
        return res
    if expr.is_Pow and expr.exp.is_Rational:
        b = _laurent(expr.base, ram, prec)
        if not b.c and expr.exp > 0:
            return Laurent(prec, [])
        return b.power(int(expr.exp.p), int(expr.exp.q))
    if expr.is_number:
        return const(mpmath.mpmathify(sympy.N(expr, 90)))
    raise NotJudged(f"{type(expr).__name__}")


def taylor(expr, order):
    """
    The coefficients of x^0 .. x^order of a closed form, for the branch of small positive
    x, as mpmath numbers; the part with other exponents as a second list.
    """
    with mpmath.workdps(120):
        for ram in (1, 2, 6):
            for extra in (25, 120):
                try:
                    s = _laurent(sympy.sympify(expr), ram, (order + extra) * ram)
                except Ramified:
                    break
                if s.val + len(s.c) > order * ram:
                    return _split(s, ram, order)
        raise NotJudged("not enough terms or ramified")


def _split(s, ram, order):
    res = [mpmath.mpf(0)] * (order + 1)
    other = []
    for i, x in enumerate(s.c):
        e = s.val + i
        if e > order * ram:
            break
        if abs(x) < mpmath.mpf(10) ** -25:
            continue
        if e % ram or e < 0:
            other.append((Fraction(e, ram), x))
        else:
            res[e // ram] = x
    return res, other


def agrees(expr, counts):
    """None when the Taylor coefficients are these integers, or what is wrong."""
    got, other = taylor(expr, len(counts) - 1)
    if other:
        return f"a term in x^{other[0][0]}"
    for n, (a, b) in enumerate(zip(got, counts)):
        if abs(a - int(b)) > mpmath.mpf(10) ** -12 * max(1, abs(int(b))):
            return f"coefficient {n} is {mpmath.nstr(a, 15)} instead of {b}"
    return None
