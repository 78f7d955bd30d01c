# Y03: the pictures of a program show that program.
import sys
import types
from collections import Counter
from itertools import product

from hypothesis import strategies as st

import pycgp
import pyprop
from pyprop import Fail, Skip, require


class Anything:
    """Drawing calls that say nothing of the program."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Anything()


class Digraph(Anything):
    def __init__(self, *a, **k):
        self.attr, self.nodes, self.order, self.edges, self.subs = dict(k.get("graph_attr") or {}), {}, [], [], []

    def node(self, name, label=None, **k):
        d = self.nodes.setdefault(name, {})
        if label is not None:
            d["label"] = label
        d.update(k)

    def edge(self, a, b, label=None, **k):
        self.edges.append((a, b, dict(k, label=label or "")))

    def subgraph(self, g=None, **k):
        self.subs.append(g)
        for n in g.nodes:
            self.nodes.setdefault(n, {})


graphviz = types.ModuleType("graphviz")
graphviz.Digraph = Digraph
sys.modules["graphviz"] = graphviz


class Circle:
    def __init__(self, xy, radius=5, **k):
        self.xy, self.radius, self.k = (float(xy[0]), float(xy[1])), float(radius), k


class Axes(Anything):
    def __init__(self):
        self.lines, self.circles, self.xlim, self.ylim = [], [], None, None

    def plot(self, x, y, *a, **k):
        self.lines.append(((float(x[0]), float(y[0])), (float(x[1]), float(y[1])), k))

    def add_artist(self, c):
        if isinstance(c, Circle):
            self.circles.append(c)

    add_patch = add_artist

    def set_xlim(self, *v):
        self.xlim = v[0] if len(v) == 1 else v

    def set_ylim(self, *v):
        self.ylim = v[0] if len(v) == 1 else v


class Plt(types.ModuleType):
    Circle = Circle
    texts = []
    made = None

    def subplots(self, *a, **k):
        self.made = Axes()
        return Anything(), self.made

    def text(self, x, y, s, *a, **k):
        self.texts.append((float(x), float(y), s))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: Anything()


plt = Plt("matplotlib.pyplot")
matplotlib = types.ModuleType("matplotlib")
matplotlib.pyplot = plt
sys.modules["matplotlib"] = matplotlib
sys.modules["matplotlib.pyplot"] = plt
module = pycgp.load("_visualize")

SIGNS = {"sum": "+", "diff": "-", "mul": "*", "div": "/", "pdiv": "/"}
KERNELS = ["sum", "diff", "mul", "div", "pdiv", "sin", "cos", "exp", "log", "sig", "tanh"]
ANN = ["sig", "tanh", "ReLu", "ELU", "ISRU", "sum", "sin_nu", "cos_nu", "gaussian_nu", "inv_sum", "abs", "step"]


@st.composite
def programs(draw, ann=False):
    c = {"n": draw(st.integers(1, 4)), "m": draw(st.integers(1, 4)), "rows": draw(st.integers(1, 4)), "cols": draw(st.integers(1, 4))}
    c["levels"] = draw(st.integers(1, 4))
    c["arity"] = draw(st.lists(st.integers(1, 4), min_size=c["cols"], max_size=c["cols"]))
    c["kernels"] = draw(st.lists(st.sampled_from(ANN if ann else KERNELS), min_size=1, max_size=6, unique=True))
    genes = sum(c["rows"] * (a + 1) for a in c["arity"]) + c["m"]
    c["genes"] = draw(st.lists(st.integers(0, 1 << 16), min_size=genes, max_size=genes))
    return c


def build(c, cls):
    ex = cls(c["n"], c["m"], c["rows"], c["cols"], c["levels"], c["arity"], pycgp.kernel_set_double(c["kernels"])())
    ex.set([lo + g % (hi - lo + 1) for g, lo, hi in zip(c["genes"], ex.get_lb(), ex.get_ub())])
    return ex


class Program:
    """The graph, from the chromosome."""

    def __init__(self, c, ex):
        self.n, self.m, self.r, self.c = c["n"], c["m"], c["rows"], c["cols"]
        x = ex.get()
        self.conn, self.kernel, k = {}, {}, 0
        for node in range(self.n, self.n + self.r * self.c):
            a = c["arity"][(node - self.n) // self.r]
            self.kernel[node] = x[k]
            self.conn[node] = x[k + 1:k + 1 + a]
            k += a + 1
        self.out = x[k:]
        self.active = set()
        todo = list(self.out)
        while todo:
            v = todo.pop()
            if v not in self.active:
                self.active.add(v)
                todo += self.conn.get(v, [])
        self.first = self.n + self.r * self.c  # what stands for the outputs

    def labels(self):
        lab = ["inactive nodes" if len([v for v in self.active if v >= self.n]) < self.r * self.c else "all active"]
        if any(len(set(v)) < len(v) for v in self.conn.values()):
            lab.append("repeated connections")
        return lab


@st.composite
def graphs(draw):
    c = programs()
    c = draw(c)
    c["symbols"] = draw(st.sampled_from([None, "right", "right", "wrong"]))
    c["inactive"] = draw(st.booleans())
    c["weights"] = draw(st.booleans())
    c["extra"] = draw(st.sampled_from([-1, 1, 2]))
    return c


def check_graph(c):
    ex = build(c, pycgp.expression_double)
    p = Program(c, ex)
    sym = []
    if c["symbols"] == "right":
        sym = ["s%d" % (i * i) for i in range(p.n)]
    elif c["symbols"] == "wrong":
        k = p.n + c["extra"]
        if k == 0:
            k = p.n + 3
        try:
            module._graphviz_visualize(ex, ["s"] * k, c["inactive"], c["weights"])
        except ValueError:
            return True, ["wrong number of symbols"], ""
        raise Fail("accepted", "no ValueError for", k, "symbols of", p.n, "inputs")
    g = module._graphviz_visualize(ex, sym, c["inactive"], c["weights"])
    total = p.first + p.m
    require(set(g.nodes) == {"n%d" % i for i in range(total)}, "nodes", "the nodes are", sorted(g.nodes))
    for i in range(total):
        d = g.nodes["n%d" % i]
        if i < p.n:
            want = sym[i] if sym else "<x<sub>%d</sub>>" % i
        elif i < p.first:
            name = c["kernels"][p.kernel[i]]
            want = SIGNS.get(name, name)
        else:
            want = "<o<sub>%d</sub>>" % (i - p.first)
        require(d.get("label") == want, "label", "node", i, "is labelled", d.get("label"), "instead of", want)
        hidden = p.n <= i < p.first and i not in p.active and not c["inactive"]
        require((d.get("style") == "invis") == hidden, "shown", "node", i, "has style", d.get("style"))
    ranks = {frozenset(s.nodes) for s in g.subs if s.attr.get("rank") == "same"}
    layers = [range(p.n)] + [range(p.n + k * p.r, p.n + (k + 1) * p.r) for k in range(p.c)] + [range(p.first, total)]
    require(ranks == {frozenset("n%d" % i for i in l) for l in layers}, "ranks", "the ranks are", [sorted(r) for r in ranks])
    act = {g.nodes["n%d" % i].get("style") for i in p.active if i >= p.n}
    ina = {g.nodes["n%d" % i].get("style") for i in range(p.n, p.first) if i not in p.active}
    require(not act & ina, "style", "active and inactive nodes look the same:", act, ina)
    got, want, heads, styles = Counter(), Counter(), [], [set(), set()]
    for a, b, k in g.edges:
        if k.get("style") != "invis":
            got[a, b, k["label"]] += 1
            v = int(b[1:])
            if v < p.first:
                styles[v in p.active].add(k.get("style"))
                heads.append((v, k.get("arrowhead"), a, k["label"]))
    require(not styles[0] & styles[1], "style", "active and inactive edges look the same:", styles)
    for v, u in p.conn.items():
        if v in p.active or c["inactive"]:
            for j, s in enumerate(u):
                want["n%d" % s, "n%d" % v, "<w<sub>%d,%d</sub>>" % (v, j) if c["weights"] else ""] += 1
            mine = [(h, a) for w, h, a, l in heads if w == v]
            if len(u) > 1:
                require(mine[0][0] != mine[1][0] and mine[0][1] == "n%d" % u[0], "order", "the edges into node", v, "are", mine)
    for i, s in enumerate(p.out):
        want["n%d" % s, "n%d" % (p.first + i), ""] += 1
    require(got == want, "edges", "too many:", dict(got - want), "missing:", dict(want - got))
    return any(v >= p.n for v in p.active), p.labels(), ""


@st.composite
def networks(draw):
    c = draw(programs(True))
    k = sum(c["rows"] * a for a in c["arity"])
    c["weights"] = [0] * k if draw(st.integers(0, 9)) == 9 else draw(st.lists(st.integers(-20, 20), min_size=k, max_size=k))
    for b in ("show_connections", "show_inactive", "show_nonlinearities", "legend", "axes"):
        c[b] = draw(st.booleans())
    c["show_connections"] = c["show_connections"] or draw(st.booleans())
    c["alpha"] = draw(st.sampled_from([0.1, 0.1, 0., 0.5, 0.9, 1.]))
    return c


def near(a, b):
    return abs(a[0] - b[0]) < 1e-9 and abs(a[1] - b[1]) < 1e-9


def key(p):
    return (round(p[0], 7) + 0., round(p[1], 7) + 0.)


def check_network(c):
    ex = build(c, pycgp.expression_ann)
    ex.set_weights([w / 10. for w in c["weights"]])
    p = Program(c, ex)
    plt.texts = []
    axes = Axes() if c["axes"] else None
    ax = module._dcgpann_visualize(ex, show_connections=c["show_connections"], show_inactive=c["show_inactive"],
                                   show_nonlinearities=c["show_nonlinearities"], legend=c["legend"], axes=axes,
                                   active_connection_alpha=c["alpha"])
    require(ax is (axes if c["axes"] else plt.made), "axes", "not drawn on the axes asked for")
    # the outlines, by position; those beside a text are the legend
    legend = {}
    outline = {}
    for q in ax.circles:
        a = q.k.get("alpha")
        require(a is None or 0. <= a <= 1., "alpha", "a circle of opacity", a)
        if q.k.get("fill") is False:
            t = [s for x, y, s in plt.texts if abs(y - q.xy[1]) < 1e-9 and 0 < x - q.xy[0] <= 4 * q.radius]
            (legend.setdefault(t[0], []) if t else outline.setdefault(key(q.xy), [])).append(q)
    total = p.first + p.m
    require(len(outline) == total and all(len(v) == 1 for v in outline.values()), "nodes", len(outline), "nodes are drawn instead of", total)
    xs = sorted({k[0] for k in outline})
    require(len(xs) == p.c + 2, "layers", "nodes stand at", len(xs), "places instead of", p.c + 2, "layers")
    cols = [sorted((k for k in outline if k[0] == x), key=lambda k: -k[1]) for x in xs]
    sizes = [p.n] + [p.r] * p.c + [p.m]
    require([len(v) for v in cols] == sizes, "layers", "the layers have", [len(v) for v in cols], "nodes instead of", sizes)
    for q in [o[0] for o in outline.values()]:
        require(ax.xlim is None or ax.xlim[0] <= q.xy[0] - q.radius and q.xy[0] + q.radius <= ax.xlim[1], "limits", "a node is out of the picture")
        require(ax.ylim is None or ax.ylim[0] <= q.xy[1] - q.radius and q.xy[1] + q.radius <= ax.ylim[1], "limits", "a node is out of the picture")
    lines = []
    for a, b, k in ax.lines:
        al = k.get("alpha")
        require(al is None or 0. <= al <= 1., "alpha", "a line of opacity", al)
        require(key(a) in outline and key(b) in outline, "line", "a line from", a, "to", b, "joins no nodes")
        lines.append((tuple(sorted((key(a), key(b)))), al))
    problem = None
    for flip in product((False, True), repeat=3):
        pos, v = {}, 0
        for k, col in enumerate(cols):
            f = flip[0] if k == 0 else flip[2] if k == p.c + 1 else flip[1]
            for q in (col[::-1] if f else col):
                pos[v] = q
                v += 1
        problem = compare(c, ex, p, pos, outline, lines, legend)
        if problem is None:
            break
    if problem:
        raise Fail(*problem)
    return any(v >= p.n for v in p.active), p.labels() + (["weights zero"] if not any(c["weights"]) else []), ""


def compare(c, ex, p, pos, outline, lines, legend):
    """What is wrong with the picture, if nodes are at these positions."""
    want = Counter()
    weights, k = {}, 0
    for v, u in p.conn.items():
        for s in u:
            w = abs(c["weights"][k])
            k += 1
            if v in p.active:
                weights.setdefault(tuple(sorted((pos[v], pos[s]))), []).append(w)
            if v in p.active or c["show_inactive"]:
                want[tuple(sorted((pos[v], pos[s])))] += 1
    outs = Counter(tuple(sorted((pos[p.first + i], pos[s]))) for i, s in enumerate(p.out))
    want += outs
    if not c["show_connections"]:
        want = Counter()
    got = Counter(l for l, _ in lines)
    if got != want:
        return "lines", "too many lines:", dict(got - want), "missing:", dict(want - got)
    # an active connection is at least as opaque as those of smaller weight
    if c["show_connections"]:
        seen = sorted((w, a) for e, ws in weights.items() if len(set(ws)) == 1 and not outs[e] for w in ws
                      for l, a in lines if l == e and a is not None)
        for i in range(1, len(seen)):
            if seen[i][0] > seen[i - 1][0] and seen[i][1] < seen[i - 1][1] - 1e-9:
                return "opacity", "a connection of weight", seen[i][0] / 10., "is fainter than one of", seen[i - 1][0] / 10.
    act = [outline[pos[v]][0].k.get("alpha", 1.) for v in list(p.active) + list(range(p.first, p.first + p.m))]
    ina = [outline[pos[v]][0].k.get("alpha", 1.) for v in range(p.first) if v not in p.active]
    if ina and max(ina) >= min(act):
        return "active", "an inactive node is as visible as an active one"
    if c["show_nonlinearities"]:
        color = {}
        for v, f in p.kernel.items():
            color.setdefault(f, set()).add(outline[pos[v]][0].k.get("color"))
        if any(len(s) > 1 for s in color.values()) or len({min(s) for s in color.values()}) < len(color):
            return "colors", "the nonlinearities have the colours", color
        if c["legend"]:
            if sorted(legend) != sorted(c["kernels"]):
                return "legend", "the legend lists", sorted(legend)
            for f, s in color.items():
                if {q.k.get("color") for q in legend[c["kernels"][f]]} != s:
                    return "legend", "the colour of", c["kernels"][f], "is another in the legend"
    if legend and not (c["show_nonlinearities"] and c["legend"]):
        return "legend", "there is a legend nobody asked for"
    return None


if __name__ == "__main__":
    raise SystemExit(pyprop.run(
        "Y03",
        [("graph", graphs(), check_graph, 6000, 90000), ("network", networks(), check_network, 4000, 60000)],
        "programs and networks of random shape; what is drawn, seen by stand-ins of graphviz and matplotlib that record it, is compared "
        "with the graph read from the chromosome; non-trivial: some function node is active",
        ["the compiled module is replaced by the expressions of the tree behind a C interface",
         "graphviz and matplotlib are replaced by stand-ins recording what is drawn"]))
