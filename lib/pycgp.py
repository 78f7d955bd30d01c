"""What the Python layer of dcgpy sees of the compiled module: the expressions of /repo themselves, through pydcgp.cpp."""
import ctypes as C
import importlib.util
import os
import sys
import types

L = C.CDLL(os.environ["VERIF_PYDCGP"])
L.d_err.restype = C.c_char_p
L.d_text.restype = C.c_char_p
L.d_make.restype = C.c_void_p
L.d_free.argtypes = [C.c_void_p]
BUF = 1 << 14


def _names(v):
    for s in v:
        if not isinstance(s, str):
            raise TypeError("incompatible function arguments")
    return "".join(s + "\n" for s in v).encode()


def _list():
    return L.d_text().decode().split("\n")[:-1]


def _check(rc):
    if rc == -1:
        raise ValueError(L.d_err().decode())
    if rc < 0:
        raise RuntimeError(L.d_err().decode())
    return rc


def _unsigned(v):
    v = list(v)
    for x in v:
        if isinstance(x, bool) or not isinstance(x, int) or not 0 <= x < 1 << 32:
            raise TypeError("incompatible function arguments")
    return (C.c_uint * len(v))(*v), len(v)


class Kernel:
    def __init__(self, name):
        self.name = name

    def get_name(self):
        return self.name

    def __repr__(self):
        return self.name


class kernel_set_double:
    def __init__(self, names=()):
        _check(L.d_kernels(_names(list(names))))
        self.kernels = [Kernel(n) for n in _list()]

    def __call__(self):
        return list(self.kernels)

    def __getitem__(self, i):
        return self.kernels[i]


class _expression:
    KIND = 0

    def __init__(self, inputs, outputs, rows, cols, levels_back, arity=2, kernels=None, n_eph=0, seed=12345):
        if isinstance(arity, int):
            arity = [arity] * cols
        for v in (inputs, outputs, rows, cols, levels_back):
            if isinstance(v, bool) or not isinstance(v, int) or v < 0:
                raise TypeError("incompatible function arguments")
        a, na = _unsigned(arity)
        names = _names([k.get_name() for k in kernels])
        self.h = C.c_void_p(L.d_make(self.KIND, inputs, outputs, rows, cols, levels_back, a, na, names, n_eph, seed))
        if not self.h:
            raise ValueError(L.d_err().decode())

    def __del__(self):
        if getattr(self, "h", None):
            L.d_free(self.h)

    def _ints(self, what):
        b = (C.c_int * BUF)()
        return list(b[:_check(L.d_ints(self.h, what, b))])

    def get(self):
        return self._ints(0)

    def get_lb(self):
        return self._ints(1)

    def get_ub(self):
        return self._ints(2)

    def get_active_nodes(self):
        return self._ints(3)

    def get_active_genes(self):
        return self._ints(4)

    def get_gene_idx(self):
        return self._ints(5)

    def get_arity(self, node_id=None):
        return self._ints(6) if node_id is None else _check(L.d_arity(self.h, node_id))

    def get_n(self):
        return self._ints(7)[0]

    def get_m(self):
        return self._ints(7)[1]

    def get_rows(self):
        return self._ints(7)[2]

    def get_cols(self):
        return self._ints(7)[3]

    def get_levels_back(self):
        return self._ints(7)[4]

    def get_f(self):
        _check(L.d_f(self.h))
        return [Kernel(n) for n in _list()]

    def set(self, chromosome):
        x, n = _unsigned(chromosome)
        _check(L.d_set(self.h, x, n))

    def set_f_gene(self, node_id, f_id):
        _check(L.d_set_f(self.h, node_id, f_id))

    def _eph(self, v=None, s=None):
        b = (C.c_double * BUF)()
        n = _check(L.d_eph(self.h, None if v is None else (C.c_double * len(v))(*v), 0 if v is None else len(v), b,
                           None if s is None else _names(s)))
        return list(b[:n]), _list()

    eph_val = property(lambda self: self._eph()[0], lambda self, v: self._eph(v) and None)
    eph_symb = property(lambda self: self._eph()[1], lambda self, s: self._eph(None, s) and None)

    def __call__(self, v):
        v = list(v)
        if v and isinstance(v[0], str):
            _check(L.d_calls(self.h, _names(v)))
            return _list()
        b = (C.c_double * BUF)()
        return list(b[:_check(L.d_call(self.h, (C.c_double * len(v))(*v), len(v), b))])


class _with_weights(_expression):
    def get_weights(self):
        b = (C.c_double * BUF)()
        return list(b[:_check(L.d_weights(self.h, b))])

    def set_weights(self, weights):
        _check(L.d_set_weights(self.h, (C.c_double * len(weights))(*weights), len(weights)))

    def get_weight(self, node_id, input_id):
        b = (C.c_double * 1)()
        _check(L.d_weight(self.h, node_id, input_id, b))
        return b[0]


class expression_double(_expression):
    KIND = 0


class expression_weighted_double(_with_weights):
    KIND = 1

    def __init__(self, inputs, outputs, rows, cols, levels_back, arity=2, kernels=None, seed=12345):
        super().__init__(inputs, outputs, rows, cols, levels_back, arity, kernels, 0, seed)


class expression_ann(_with_weights):
    KIND = 2

    def __init__(self, inputs, outputs, rows, cols, levels_back, arity, kernels, seed=12345):
        if isinstance(arity, int):
            raise TypeError("incompatible constructor arguments")
        super().__init__(inputs, outputs, rows, cols, levels_back, arity, kernels, 0, seed)

    def _biases(self, v=None):
        b = (C.c_double * BUF)()
        return list(b[:_check(L.d_biases(self.h, None if v is None else (C.c_double * len(v))(*v), 0 if v is None else len(v), b))])

    def get_biases(self):
        return self._biases()

    def set_biases(self, biases):
        self._biases(biases)


def load(name, **stubs):
    """A module of /repo/dcgpy by name, with stand-ins for what it imports."""
    m = types.ModuleType("dcgpy")
    for k in ("expression_double", "expression_weighted_double", "expression_ann", "kernel_set_double"):
        setattr(m, k, globals()[k])
    sys.modules["dcgpy"] = m
    for k, v in stubs.items():
        sys.modules[k.replace("__", ".")] = v
    path = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "dcgpy", name + ".py")
    spec = importlib.util.spec_from_file_location("dcgpy_" + name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod
