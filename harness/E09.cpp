// E09: expressions survive a round trip through an archive.
// FLAGS: -O1 -g0 -D_GLIBCXX_ASSERTIONS
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>

#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include <anyexpr.hpp>

using namespace cgp;

template <typename T>
struct Doubled {
    double k = 2;
    std::vector<T> operator()(const std::vector<T> &x, std::function<std::vector<T>(const std::vector<T> &)> g) const
    {
        auto y = g(x);
        for (auto &v : y) v = v * T(k) + x[0];
        return y;
    }
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar &k;
    }
};
using Vd = std::vector<double>;
using Vg = std::vector<audi::gdual_d>;
using Vv = std::vector<audi::gdual_v>;
DCGP_S11N_FUNCTION_EXPORT(e09_d, Doubled<double>, Vd, const Vd &, std::function<Vd(const Vd &)>)
DCGP_S11N_FUNCTION_EXPORT(e09_g, Doubled<audi::gdual_d>, Vg, const Vg &, std::function<Vg(const Vg &)>)
DCGP_S11N_FUNCTION_EXPORT(e09_v, Doubled<audi::gdual_v>, Vv, const Vv &, std::function<Vv(const Vv &)>)

template <typename O, typename I, typename E>
static void cross(const E &from, E &to)
{
    std::stringstream ss;
    {
        O ar(ss);
        ar << from;
    }
    I ar(ss);
    ar >> to;
}

template <typename E>
static void trip(Gen &g, Case &c)
{
    using T = value_of<E>;
    const Shape s = shape(g, pool_of<E>(), Limits{3, is_plain<E> ? 3u : 0u, 3, 3, 4, 3, 5});
    c.note(s);
    E e = make<E>(s);
    const unsigned past = g.u(0, 5);
    for (unsigned i = 0; i < past; ++i) random_op(g, c, s, e);
    if (g.chance(1, 3)) {
        Doubled<T> p;
        p.k = g.real(-3, 3);
        e.set_phenotype_correction(typename dcgp::expression<T>::pc_fun_type(p));
        c.trace(" corrected");
    }
    const auto before = whole(e);
    // something else to load into
    const unsigned trips = g.u(1, 3);
    std::vector<E> chain;
    chain.reserve(trips);
    const E *last = &e;
    for (unsigned i = 0; i < trips; ++i) {
        const bool fresh = g.flip();
        if (fresh) {
            chain.emplace_back();
        } else {
            Shape o = shape(g, pool_of<E>(), Limits{3, is_plain<E> ? 3u : 0u, 3, 3, 4, 3, 5});
            chain.push_back(make<E>(o));
            if (g.flip()) chain.back().set_phenotype_correction(typename dcgp::expression<T>::pc_fun_type(Doubled<T>{7.}));
            Case quiet;
            random_op(g, quiet, o, chain.back());
        }
        const bool text = g.flip();
        c.trace(fresh ? " ->new" : " ->used", text ? "(text)" : "(binary)");
        if (text)
            cross<boost::archive::text_oarchive, boost::archive::text_iarchive>(*last, chain.back());
        else
            cross<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(*last, chain.back());
        last = &chain.back();
    }
    E &f = chain.back();
    c.require(whole(e) == before, "saving-changes", "saving changed the expression");
    same_expressions(g, c, s, e, f, "after loading");
    // the future
    const unsigned ops = g.u(0, 6);
    for (unsigned i = 0; i < ops; ++i) {
        twin_op(g, c, s, e, f);
        c.require(e.get() == f.get(), "future", "step ", i, " leads to ", e.get(), " and, loaded, to ", f.get());
    }
    same_expressions(g, c, s, e, f, "later");
    c.label(trips > 1 ? "chain" : "single");
    c.nontrivial(past && ops);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "E09";
    p.rule = "expressions of each class with a random past (chromosomes, mutations, constants, weights, biases, corrections), saved and loaded up to three times, text or binary, into "
             "fresh objects or others with a past; everything observable is compared exactly, then both go through the same random operations; non-trivial: some past and some "
             "future; counted distinct by choice sequence";
    p.subs = {{"double", 6000, 100000, trip<dcgp::expression<double>>},
              {"taylor", 4000, 60000, trip<dcgp::expression<audi::gdual_d>>},
              {"vectorized", 4000, 60000, trip<dcgp::expression<audi::gdual_v>>},
              {"weighted", 5000, 80000, trip<dcgp::expression_weighted<double>>},
              {"weighted-taylor", 3000, 50000, trip<dcgp::expression_weighted<audi::gdual_d>>},
              {"network", 6000, 100000, trip<dcgp::expression_ann>}};
    p.assumptions = {"AuDi is replaced by a stand-in with the same interface"};
    p.case_cpu_s = 30;
    return pbt::run(argc, argv, p);
}
