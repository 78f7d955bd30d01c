// The expressions of /repo behind a C interface, so that the Python layer of dcgpy can be run without pybind11.
// FLAGS: -O1 -shared -fPIC
#include <cstring>
#include <memory>
#include <string>
#include <vector>

#include <dcgp/expression.hpp>
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
#include <dcgp/kernel_set.hpp>

namespace
{
std::string err;
struct Obj {
    std::unique_ptr<dcgp::expression<double>> e;
    dcgp::expression_weighted<double> *w = nullptr;
    dcgp::expression_ann *a = nullptr;
};
std::vector<std::string> split(const char *s)
{
    std::vector<std::string> r;
    std::string cur;
    for (; *s; ++s) {
        if (*s == '\n') {
            r.push_back(cur);
            cur.clear();
        } else {
            cur += *s;
        }
    }
    return r;
}
std::string join(const std::vector<std::string> &v)
{
    std::string r;
    for (auto &x : v) r += x + "\n";
    return r;
}
std::string text;
template <typename F>
int guarded(F f)
{
    try {
        return f();
    } catch (const std::invalid_argument &e) {
        err = e.what();
        return -1;
    } catch (const std::exception &e) {
        err = e.what();
        return -2;
    }
}
template <typename V>
int ints(const V &v, int *out)
{
    for (std::size_t i = 0; i < v.size(); ++i) out[i] = static_cast<int>(v[i]);
    return static_cast<int>(v.size());
}
int reals(const std::vector<double> &v, double *out)
{
    for (std::size_t i = 0; i < v.size(); ++i) out[i] = v[i];
    return static_cast<int>(v.size());
}
} // namespace

extern "C" {
const char *d_err() { return err.c_str(); }
const char *d_text() { return text.c_str(); }
int d_kernels(const char *names)
{
    return guarded([&] {
        dcgp::kernel_set<double> k(split(names));
        std::vector<std::string> n;
        for (auto &x : k()) n.push_back(x.get_name());
        text = join(n);
        return 0;
    });
}
void *d_make(int kind, unsigned n, unsigned m, unsigned r, unsigned c, unsigned l, const unsigned *arity, unsigned na,
             const char *names, unsigned n_eph, unsigned seed)
{
    Obj *o = nullptr;
    const int rc = guarded([&] {
        const std::vector<unsigned> ar(arity, arity + na);
        const auto ks = dcgp::kernel_set<double>(split(names))();
        std::unique_ptr<Obj> p(new Obj);
        if (kind == 0) {
            p->e.reset(new dcgp::expression<double>(n, m, r, c, l, ar, ks, n_eph, seed));
        } else if (kind == 1) {
            p->w = new dcgp::expression_weighted<double>(n, m, r, c, l, ar, ks, seed);
            p->e.reset(p->w);
        } else {
            p->a = new dcgp::expression_ann(n, m, r, c, l, ar, ks, seed);
            p->e.reset(p->a);
        }
        o = p.release();
        return 0;
    });
    return rc == 0 ? o : nullptr;
}
void d_free(Obj *o) { delete o; }
int d_ints(Obj *o, int what, int *out)
{
    return guarded([&] {
        switch (what) {
            case 0: return ints(o->e->get(), out);
            case 1: return ints(o->e->get_lb(), out);
            case 2: return ints(o->e->get_ub(), out);
            case 3: return ints(o->e->get_active_nodes(), out);
            case 4: return ints(o->e->get_active_genes(), out);
            case 5: return ints(o->e->get_gene_idx(), out);
            case 6: return ints(o->e->get_arity(), out);
            default: {
                const std::vector<unsigned> v{o->e->get_n(), o->e->get_m(), o->e->get_r(), o->e->get_c(), o->e->get_l()};
                return ints(v, out);
            }
        }
    });
}
int d_arity(Obj *o, unsigned node)
{
    return guarded([&] { return static_cast<int>(o->e->get_arity(node)); });
}
int d_set(Obj *o, const unsigned *x, unsigned n)
{
    return guarded([&] {
        o->e->set(std::vector<unsigned>(x, x + n));
        return 0;
    });
}
int d_set_f(Obj *o, unsigned node, unsigned f)
{
    return guarded([&] {
        o->e->set_f_gene(node, f);
        return 0;
    });
}
int d_f(Obj *o)
{
    return guarded([&] {
        std::vector<std::string> n;
        for (auto &x : o->e->get_f()) n.push_back(x.get_name());
        text = join(n);
        return 0;
    });
}
int d_eph(Obj *o, const double *v, unsigned n, double *out, const char *symb)
{
    return guarded([&] {
        if (v) o->e->set_eph_val(std::vector<double>(v, v + n));
        if (symb) o->e->set_eph_symb(split(symb));
        text = join(o->e->get_eph_symb());
        return reals(o->e->get_eph_val(), out);
    });
}
int d_weights(Obj *o, double *out) { return guarded([&] { return reals(o->w ? o->w->get_weights() : o->a->get_weights(), out); }); }
int d_set_weights(Obj *o, const double *v, unsigned n)
{
    return guarded([&] {
        const std::vector<double> w(v, v + n);
        if (o->w) {
            o->w->set_weights(w);
        } else {
            o->a->set_weights(w);
        }
        return 0;
    });
}
int d_weight(Obj *o, unsigned node, unsigned k, double *out)
{
    return guarded([&] {
        *out = o->w ? o->w->get_weight(node, k) : o->a->get_weight(node, k);
        return 0;
    });
}
int d_biases(Obj *o, const double *v, unsigned n, double *out)
{
    return guarded([&] {
        if (v) o->a->set_biases(std::vector<double>(v, v + n));
        return reals(o->a->get_biases(), out);
    });
}
int d_call(Obj *o, const double *v, unsigned n, double *out)
{
    return guarded([&] {
        const std::vector<double> p(v, v + n);
        return reals(o->w ? (*o->w)(p) : o->a ? (*o->a)(p) : (*o->e)(p), out);
    });
}
int d_calls(Obj *o, const char *v)
{
    return guarded([&] {
        const auto p = split(v);
        text = join(o->w ? (*o->w)(p) : o->a ? (*o->a)(p) : (*o->e)(p));
        return 0;
    });
}
}
