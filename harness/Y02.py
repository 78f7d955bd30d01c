# Y02: simplify gives, for each output, an expression with the value of the program.
import signal
import sys
import types
from fractions import Fraction as Q

import mpmath
import sympy
from hypothesis import strategies as st

import pycgp
import pyprop
from pyprop import Fail, Skip, require


class gdual_vdouble:
    """What simplify needs to know of a vectorized number: its value at each point."""

    def __init__(self, v):
        self.constant_cf = v


pyaudi = types.ModuleType("pyaudi")
pyaudi.core = types.ModuleType("pyaudi.core")
pyaudi.core.gdual_vdouble = gdual_vdouble
sys.modules["pyaudi"] = pyaudi
sys.modules["pyaudi.core"] = pyaudi.core
simplify = pycgp.load("_simplify")._sympy_simplify


class vectorized(pycgp.expression_weighted_double):
    def get_weights(self):
        return [gdual_vdouble([w, w + 1.]) for w in super().get_weights()]


RATIONAL = ["sum", "diff", "mul", "div"]
OTHER = ["sin", "cos", "exp"]
NAMES = ["x", "y", "z", "alpha", "E", "S", "N", "beta", "x0", "x1", "x10", "Q", "t", "c", "k_1", "O"]


@st.composite
def programs(draw, smooth=False):
    c = {"n": draw(st.integers(1, 3)), "m": draw(st.integers(1, 3)), "rows": draw(st.integers(1, 2)), "cols": draw(st.integers(1, 3))}
    c["levels"] = draw(st.integers(1, 3))
    c["arity"] = draw(st.lists(st.integers(1, 3), min_size=c["cols"], max_size=c["cols"]))
    c["kernels"] = draw(st.lists(st.sampled_from(RATIONAL + OTHER if smooth else RATIONAL), min_size=1, max_size=4, unique=True))
    c["kind"] = draw(st.sampled_from(["plain", "weighted", "vectorized"]))
    c["eph"] = draw(st.integers(0, 3)) if c["kind"] == "plain" else 0
    c["names"] = draw(st.lists(st.sampled_from(NAMES), min_size=c["n"], max_size=c["n"], unique=True))
    genes = sum(c["rows"] * (a + 1) for a in c["arity"]) + c["m"]
    c["genes"] = draw(st.lists(st.integers(0, 1 << 16), min_size=genes, max_size=genes))
    c["subs"] = draw(st.booleans()) if c["kind"] != "plain" else False
    if c["kind"] == "weighted" or c["kind"] == "vectorized":
        nw = sum(c["rows"] * a for a in c["arity"])
        c["weights"] = draw(st.lists(st.integers(-8, 8), min_size=nw, max_size=nw))
    c["erc"] = draw(st.lists(st.integers(-8, 8), min_size=0, max_size=c["n"] + c["eph"]))
    k = c["n"] + c["eph"]
    c["points"] = draw(st.lists(st.lists(st.integers(-40, 40), min_size=k, max_size=k), min_size=2, max_size=3))
    return c


def build(c):
    ks = pycgp.kernel_set_double(c["kernels"])()
    if c["kind"] == "plain":
        ex = pycgp.expression_double(c["n"], c["m"], c["rows"], c["cols"], c["levels"], c["arity"], ks, c["eph"])
    else:
        cls = vectorized if c["kind"] == "vectorized" else pycgp.expression_weighted_double
        ex = cls(c["n"], c["m"], c["rows"], c["cols"], c["levels"], c["arity"], ks)
        ex.set_weights([w / 4. for w in c["weights"]])
    ex.set([lo + g % (hi - lo + 1) for g, lo, hi in zip(c["genes"], ex.get_lb(), ex.get_ub())])
    return ex


class Undefined(Exception):
    pass


def interpret(c, ex, point):
    """The outputs at a point, and the largest number met: exactly, or to fifty digits with transcendental kernels."""
    exact = not any(k in OTHER for k in c["kernels"])
    num = (lambda q: q) if exact else (lambda q: mpmath.mpf(q.numerator) / q.denominator)
    n, x, idx = ex.get_n(), ex.get(), ex.get_gene_idx()
    f = [k.get_name() for k in ex.get_f()]
    val = {i: num(q) for i, q in enumerate(point)}
    for node in ex.get_active_nodes():
        if node < n:
            continue
        a = ex.get_arity(node)
        args = [val[u] for u in x[idx[node] + 1:idx[node] + 1 + a]]
        if c["kind"] != "plain":
            col = (node - n) // c["rows"]
            first = sum(c["arity"][:col]) * c["rows"] + c["arity"][col] * ((node - n) % c["rows"])
            args = [num(Q(c["weights"][first + j], 4)) * v for j, v in enumerate(args)]
        k = f[x[idx[node]]]
        r = args[0]
        if k in OTHER:
            if abs(r) > 30:
                raise Skip()
            r = getattr(mpmath, k)(r)
        else:
            for v in args[1:]:
                if k == "sum":
                    r = r + v
                elif k == "diff":
                    r = r - v
                elif k == "mul":
                    r = r * v
                else:
                    if v == 0 or (not exact and abs(v) < mpmath.mpf(10) ** -6):
                        raise Undefined()
                    r = r / v
        val[node] = r
    return [val[o] for o in x[len(x) - c["m"]:]], max(abs(v) for v in val.values())


def alarm(*_):
    raise Skip()


def check_value(c):
    mpmath.mp.dps = 50
    ex = build(c)
    names = list(c["names"]) + (ex.eph_symb if c["eph"] else [])
    if len(set(names)) < len(names):
        raise Skip()
    erc = [k / 4. for k in c["erc"]]
    values = []
    for p in c["points"]:
        q = [Q(k, 4) for k in p]
        if erc:
            q[len(q) - len(erc):] = [Q(k, 4) for k in c["erc"]]
        try:
            values.append((q, interpret(c, ex, q)))
        except Undefined:
            pass
    if not values:
        raise Skip()
    args, args2 = list(c["names"]), list(erc)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(20)
    try:
        out = simplify(ex, args, c["subs"], args2)
        require(args == c["names"] and args2 == erc, "arguments", "the arguments were modified")
        require(len(out) == c["m"], "outputs", len(out), "expressions for", c["m"], "outputs")
        free = set(names[:len(names) - len(erc)])
        for q, (want, size) in values:
            subs = dict(zip(names, q))
            if c["kind"] != "plain":
                n, k = ex.get_n(), 0
                for node in range(n, n + c["rows"] * c["cols"]):
                    for j in range(ex.get_arity(node)):
                        name = "w%d_%d" % (node, j)
                        subs[name] = Q(c["weights"][k], 4)
                        if not c["subs"]:
                            free.add(name)
                        k += 1
            for o, e in enumerate(out):
                e = sympy.sympify(e)
                left = {str(s) for s in e.free_symbols}
                require(left <= free, "symbols", "output", o, "is", e, "with symbols", sorted(left - free), "left")
                got = e.subs({s: sympy.Rational(subs[str(s)].numerator, subs[str(s)].denominator) for s in e.free_symbols})
                if got.is_Rational and isinstance(want[o], Q):
                    require(Q(int(got.p), int(got.q)) == want[o], "value", "output", o, "is", e, "which at", subs, "is", got,
                            "instead of", want[o])
                    continue
                v = got.evalf(40)
                if not v.is_number or not v.is_finite:
                    raise Fail("value", "output", o, "is", e, "which at", subs, "is", v, "instead of", want[o])
                v = complex(v)
                w = float(want[o])
                require(abs(v - w) <= 1e-6 * (1. + float(size)) * (1. + float(size)), "value", "output", o, "is", e, "which at", subs, "is", v,
                        "instead of", w)
    finally:
        signal.alarm(0)
    lab = [c["kind"]]
    if erc:
        lab.append("constants given")
    if c["eph"]:
        lab.append("ephemeral constants")
    if c["subs"]:
        lab.append("weights substituted")
    if len(set(c["arity"])) > 1:
        lab.append("uneven arity")
    n = ex.get_n()
    return any(a >= n for a in ex.get_active_nodes()), lab, ""


@st.composite
def wrong(draw):
    c = draw(programs())
    c["what"] = draw(st.sampled_from(["symbols", "constants"]))
    if c["what"] == "symbols":
        c["names"] = draw(st.lists(st.sampled_from(NAMES), max_size=6, unique=True).filter(lambda v: len(v) != c["n"]))
    else:
        k = c["n"] + c["eph"]
        c["erc"] = draw(st.lists(st.integers(-8, 8), min_size=k + 1, max_size=k + 3))
    return c


def check_wrong(c):
    ex = build(c)
    try:
        r = simplify(ex, list(c["names"]), c["subs"], list(c["erc"]))
    except ValueError:
        return True, [c["what"]], ""
    raise Fail("accepted", "no ValueError for the wrong number of", c["what"], "but", r)


if __name__ == "__main__":
    raise SystemExit(pyprop.run(
        "Y02",
        [("rational", programs(), check_value, 4000, 60000), ("smooth", programs(True), check_value, 2000, 30000),
         ("malformed", wrong(), check_wrong, 400, 4000)],
        "programs over plain and weighted expressions, with columns of different arities, ephemeral constants, weights and constants "
        "substituted or not; the simplified expression is evaluated at random points and compared with an interpreter in exact "
        "(or 50 digit) arithmetic where the program is defined; non-trivial: some function node is active",
        ["the compiled module is replaced by the expressions of the tree behind a C interface", "pyaudi is replaced by a stand-in"]))
