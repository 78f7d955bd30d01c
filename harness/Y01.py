# Y01: encode_ffnn gives the layered, fully connected network it was asked for.
import math

from hypothesis import strategies as st

import pycgp
import pyprop
from pyprop import Fail, Skip, require

encode = pycgp.load("_encode").encode_ffnn
KERNELS = ["sig", "tanh", "ReLu", "ELU", "ISRU", "sum"]


def nonlinearity(name, z):
    if name == "sig":
        return 1. / (1. + math.exp(-z))
    if name == "tanh":
        return math.tanh(z)
    if name == "ReLu":
        return max(z, 0.)
    if name == "ELU":
        return z if z > 0. else math.exp(z) - 1.
    if name == "ISRU":
        return z / math.sqrt(1. + z * z)
    return z


@st.composite
def nets(draw):
    layers = draw(st.lists(st.integers(1, 7), min_size=0, max_size=5))
    return {"inputs": draw(st.integers(1, 6)), "outputs": draw(st.integers(1, 6)), "layers": layers,
            "kernels": draw(st.lists(st.sampled_from(KERNELS), min_size=len(layers) + 1, max_size=len(layers) + 1)),
            "levels_back": draw(st.integers(1, 7)), "numbers": draw(st.integers(0, 1 << 30))}


def check_net(c):
    layers, kernels = list(c["layers"]), list(c["kernels"])
    ex = encode(c["inputs"], c["outputs"], layers, kernels, c["levels_back"])
    require(layers == c["layers"] and kernels == c["kernels"], "arguments", "the arguments were modified")
    n, m, rows, cols = ex.get_n(), ex.get_m(), ex.get_rows(), ex.get_cols()
    require(isinstance(ex, pycgp.expression_ann), "type", "not an expression_ann")
    require(n == c["inputs"] and m == c["outputs"], "interface", n, "inputs and", m, "outputs")
    require(ex.get_levels_back() == c["levels_back"], "levels", "levels back", ex.get_levels_back())
    x, idx, f = ex.get(), ex.get_gene_idx(), [k.get_name() for k in ex.get_f()]

    def conn(node):
        a = ex.get_arity(node)
        return x[idx[node] + 1:idx[node] + 1 + a]
    # backwards from the outputs: each layer is the set of nodes the next one is connected to
    sizes = layers + [c["outputs"]]
    outs = x[len(x) - m:]
    require(len(set(outs)) == m, "outputs", "outputs are taken from", outs)
    want = list(zip(sizes, kernels))[::-1]
    layer = outs
    fed = []
    for k, (size, kernel) in enumerate(want):
        require(len(set(layer)) == size and all(v >= n for v in layer), "layer", "layer", len(want) - k, "is", sorted(set(layer)),
                "instead of", size, "nodes")
        below = None
        for v in layer:
            require(f[x[idx[v]]] == kernel, "kernel", "node", v, "of layer", len(want) - k, "computes", f[x[idx[v]]],
                    "instead of", kernel)
            s = conn(v)
            require(len(set(s)) == len(s), "repeated", "node", v, "is connected to", s)
            require(below is None or set(s) == set(below), "full", "node", v, "is connected to", s, "and others of its layer to", below)
            below = below or s
        fed.append(layer)
        layer = below
    require(sorted(layer) == list(range(n)), "inputs", "the first layer is connected to", layer)
    # and as a function of its weights and biases
    rnd = pseudo(c["numbers"])
    ex.set_weights([rnd() for _ in ex.get_weights()])
    ex.set_biases([rnd() for _ in ex.get_biases()])
    b = ex.get_biases()
    pt = [rnd() for _ in range(n)]
    val = dict(enumerate(pt))
    for l, kernel in zip(fed[::-1], kernels):
        for v in l:
            z = sum(val[u] * ex.get_weight(v, j) for j, u in enumerate(conn(v))) + b[v - n]
            val[v] = nonlinearity(kernel, z)
    got = ex(pt)
    for o in range(m):
        w = val[outs[o]]
        require(abs(got[o] - w) <= 1e-9 * max(1., abs(w)), "value", "output", o, "is", got[o], "instead of", w)
    lab = ["layers:%d" % len(layers)]
    if len(set(sizes)) > 1:
        lab.append("uneven")
    return bool(layers) and max(sizes + [n]) > 1, lab, ""


def pseudo(seed):
    state = [seed]

    def f():
        state[0] = (state[0] * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (state[0] >> 11) / float(1 << 52) * 1.5 - 1.5
    return f


@st.composite
def wrong(draw):
    c = draw(nets())
    c["what"] = draw(st.sampled_from(["fewer", "more", "unknown"]))
    if c["what"] == "fewer":
        k = draw(st.integers(0, len(c["kernels"]) - 1))
        c["kernels"] = c["kernels"][:k]
    elif c["what"] == "more":
        c["kernels"] = c["kernels"] + draw(st.lists(st.sampled_from(KERNELS), min_size=1, max_size=3))
    else:
        c["kernels"][draw(st.integers(0, len(c["kernels"]) - 1))] = draw(
            st.sampled_from(["", "relu", "Sig", "sigmoid", "sum ", "unknown", "TANH", "sig\u00e9"]))
    return c


def check_wrong(c):
    try:
        encode(c["inputs"], c["outputs"], list(c["layers"]), list(c["kernels"]), c["levels_back"])
    except ValueError:
        return True, [c["what"]], ""
    raise Fail("accepted", "no ValueError for", c["what"], "kernels")


if __name__ == "__main__":
    raise SystemExit(pyprop.run(
        "Y01",
        [("network", nets(), check_net, 4000, 60000), ("malformed", wrong(), check_wrong, 800, 8000)],
        "layer sizes, kernels, inputs, outputs and levels back drawn at random; the graph of the chromosome is followed from the "
        "outputs to the inputs, and its values are compared with a network computed in Python; non-trivial: at least one hidden "
        "layer and more than one neuron (malformed: always)",
        ["the compiled module is replaced by the expressions of the tree behind a C interface"]))
