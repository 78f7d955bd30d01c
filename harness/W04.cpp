// W04: a kernel set holds exactly the kernels asked for, in order.
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <dcgp/kernel_set.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>
#include <parser.hpp>
#include <pbt.hpp>

using pbt::Case;
using pbt::Gen;
using ev::Ev;

static double value(double x)
{
    return x;
}
static double value(const audi::gdual_d &x)
{
    return x.constant_cf();
}
static double value(const audi::gdual_v &x)
{
    return x.constant_cf()[0];
}

struct Item {
    std::string fun, print, name; // catalogue names of what it computes and prints; its own name
};
template <typename T>
struct Sys {
    dcgp::kernel_set<T> ks;
    std::vector<Item> m;
};

template <typename T>
static const std::vector<std::string> &names()
{
    static const std::vector<std::string> n = [] {
        auto v = ev::catalogue();
        if (!std::is_same<T, double>::value) v.erase(std::find(v.begin(), v.end(), "pdiv"));
        return v;
    }();
    return n;
}
template <typename T>
static std::string unknown(Gen &g)
{
    std::string s;
    switch (g.raw(4)) {
        case 0:
            s = "";
            break;
        case 1:
            s = g.pick(names<T>()) + (g.flip() ? " " : "s");
            break;
        case 2: {
            s = g.pick(names<T>());
            auto &ch = s[g.raw(s.size() - 1)];
            ch = static_cast<char>(std::isupper(static_cast<unsigned char>(ch)) ? std::tolower(static_cast<unsigned char>(ch)) : std::toupper(static_cast<unsigned char>(ch)));
            break;
        }
        case 3: {
            s = g.pick(names<T>());
            s.erase(g.raw(s.size() - 1), 1);
            break;
        }
        default:
            s = g.text("abcdegilmnopqrstuvxRLUES_ 01", 8);
    }
    const auto &n = names<T>();
    if (std::find(n.begin(), n.end(), s) != n.end()) return "no such kernel";
    return s;
}

// A kernel made of two callables of the catalogue, under another name.
template <typename T>
static dcgp::kernel<T> own(const Item &it)
{
    using Pr = dcgp::function<std::string(const std::vector<std::string> &)>;
    using Fu = dcgp::function<T(const std::vector<T> &)>;
    Fu f;
    Pr p;
    if (it.fun == "sum") f = Fu(dcgp::my_sum<T>);
    if (it.fun == "mul") f = Fu(dcgp::my_mul<T>);
    if (it.fun == "tanh") f = Fu(dcgp::my_tanh<T>);
    if (it.fun == "psqrt") f = Fu(dcgp::my_psqrt<T>);
    if (it.print == "sum") p = Pr(dcgp::print_my_sum);
    if (it.print == "mul") p = Pr(dcgp::print_my_mul);
    if (it.print == "tanh") p = Pr(dcgp::print_my_tanh);
    if (it.print == "psqrt") p = Pr(dcgp::print_my_psqrt);
    return dcgp::kernel<T>(f, p, it.name);
}

// The kernel behaves as the catalogue says.
template <typename T>
static void behaves(Gen &g, Case &c, const dcgp::kernel<T> &k, const Item &it, const char *when)
{
    c.require(k.get_name() == it.name, "name", when, ": the kernel is named ", k.get_name(), " instead of ", it.name);
    std::ostringstream ss;
    ss << k;
    c.require(ss.str() == it.name, "stream-kernel", when, ": the kernel ", it.name, " streams as ", ss.str());
    // arguments with which all the kernels are defined and no two of them agree
    std::vector<double> x;
    const unsigned n = g.u(2, 4);
    for (unsigned i = 0; i < n; ++i) x.push_back(0.3 + static_cast<double>(g.raw(40)) / 50. + 0.01 * i);
    std::vector<T> xt;
    std::vector<Ev> xe;
    std::vector<std::string> names;
    std::map<std::string, Ev> vars;
    for (unsigned i = 0; i < n; ++i) {
        xt.push_back(T(x[i]));
        xe.push_back(Ev(x[i]));
        names.push_back("v" + std::to_string(i));
        vars[names.back()] = Ev(x[i]);
    }
    const double got = value(k(xt));
    const Ev want = ev::ref_kernel(it.fun, xe);
    c.require(!want.bad && ev::matches(got, want, 100), "value", when, ": kernel ", it.name, " is ", it.fun, " and gives ", got, " on ", x, ", expected ", want);
    const std::string text = k(names);
    Ev pv;
    try {
        pv = ev::eval_text(text, vars);
    } catch (const ev::Malformed &e) {
        c.fail("text", when, ": kernel ", it.name, " prints ", text, ": ", e.what());
    }
    const Ev pw = ev::ref_kernel(it.print, xe);
    c.require(ev::matches(static_cast<double>(pv.v), pw, 100), "text", when, ": kernel ", it.name, " prints ", text, " which does not denote ", it.print);
}

template <typename T>
static void check(Gen &g, Case &c, const Sys<T> &s, const char *when)
{
    const auto all = s.ks();
    c.require(all.size() == s.m.size(), "size", when, ": the set has ", all.size(), " kernels instead of ", s.m.size());
    for (std::size_t i = 0; i < all.size(); ++i) {
        c.require(all[i].get_name() == s.m[i].name, "order", when, ": kernel ", i, " is ", all[i].get_name(), " instead of ", s.m[i].name);
    }
    std::ostringstream ss;
    ss << s.ks;
    std::vector<std::string> tok(1);
    for (char ch : ss.str()) {
        if (ch == '[' || ch == ']' || ch == ',' || ch == ' ') {
            if (!tok.back().empty()) tok.emplace_back();
        } else {
            tok.back() += ch;
        }
    }
    if (tok.back().empty()) tok.pop_back();
    std::size_t shown = 0;
    for (; shown < s.m.size() && shown < 5; ++shown)
        c.require(shown < tok.size() && tok[shown] == s.m[shown].name, "stream", when, ": the set streams as ", ss.str());
    if (s.m.size() <= 5) c.require(tok.size() == s.m.size(), "stream", when, ": the set streams as ", ss.str());
    if (all.empty()) return;
    const std::size_t i = g.raw(all.size() - 1);
    behaves(g, c, all[i], s.m[i], when);
    const std::size_t j = g.raw(all.size() - 1);
    behaves(g, c, s.ks[j], s.m[j], when);
}

template <typename O, typename I, typename T>
static void through(const Sys<T> &a, Sys<T> &b)
{
    std::stringstream ss;
    {
        O o(ss);
        o << a.ks;
    }
    {
        I i(ss);
        i >> b.ks;
    }
    b.m = a.m;
}

template <typename T>
static void history(Gen &g, Case &c)
{
    Sys<T> s[3];
    const unsigned n = g.small(1, 25);
    c.note(n, " operations:");
    c.nontrivial(n > 3);
    for (unsigned k = 0; k < n; ++k) {
        const unsigned i = g.u(0, 2);
        Sys<T> &a = s[i];
        switch (g.raw(9)) {
            case 0:
            case 1:
            case 2: {
                const std::string nm = g.pick(names<T>());
                c.trace(" add", i, " ", nm, ";");
                a.ks.push_back(nm);
                a.m.push_back({nm, nm, nm});
                break;
            }
            case 3: {
                // a kernel of one's own: any callable pair and name
                static const std::vector<std::string> some = {"sum", "mul", "tanh", "psqrt"};
                const Item it{g.pick(some), g.pick(some), "k" + g.text("abcsumdiv_0123", 9)};
                c.trace(" own", i, " ", it.fun, "/", it.print, "/", it.name, ";");
                const auto k = own<T>(it);
                a.ks.push_back(k);
                a.m.push_back(it);
                break;
            }
            case 4: {
                std::vector<std::string> l;
                const unsigned z = g.small(0, 8);
                a.m.clear();
                for (unsigned q = 0; q < z; ++q) {
                    l.push_back(g.pick(names<T>()));
                    a.m.push_back({l.back(), l.back(), l.back()});
                }
                c.trace(" build", i, " ", z, ";");
                a.ks = dcgp::kernel_set<T>(l);
                break;
            }
            case 5: {
                const std::string nm = unknown<T>(g);
                c.trace(" unknown", i, " '", nm, "';");
                bool threw = false;
                try {
                    a.ks.push_back(nm);
                } catch (const std::invalid_argument &) {
                    threw = true;
                }
                c.require(threw, "unknown", "adding '", nm, "' did not throw std::invalid_argument");
                threw = false;
                try {
                    std::vector<std::string> l(g.small(0, 4), g.pick(names<T>()));
                    l.insert(l.begin() + static_cast<long>(g.raw(l.size())), nm);
                    dcgp::kernel_set<T> tmp(l);
                } catch (const std::invalid_argument &) {
                    threw = true;
                }
                c.require(threw, "unknown", "building a set with '", nm, "' did not throw std::invalid_argument");
                break;
            }
            case 6:
                c.trace(" clear", i, ";");
                a.ks.clear();
                a.m.clear();
                break;
            case 7: {
                const unsigned j = g.u(0, 2);
                c.trace(" copy", i, "<-", j, ";");
                a.ks = s[j].ks;
                a.m = s[j].m;
                break;
            }
            case 8: {
                const unsigned j = g.u(0, 2);
                const bool bin = g.flip();
                c.trace(" load", i, "<-", j, ";");
                if (bin) {
                    through<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(s[j], a);
                } else {
                    through<boost::archive::text_oarchive, boost::archive::text_iarchive>(s[j], a);
                }
                break;
            }
            default: {
                // a returned copy of the kernels is not the set
                c.trace(" touch", i, ";");
                auto v = a.ks();
                v.clear();
                if (!a.m.empty()) {
                    auto one = a.ks[0];
                    one = dcgp::kernel<T>();
                    (void)one;
                }
            }
        }
        check(g, c, a, "after an operation");
    }
    for (auto &a : s) check(g, c, a, "at the end");
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "W04";
    p.rule = "random histories over three kernel sets (adding by name, adding kernels, rebuilding from a list, unknown names close to known ones, clearing, copying, "
             "archiving) against a list of names, for double and the two Taylor types; after each operation the names, order and streamed text of the set, and the value "
             "and text of random members, are those of the catalogue; non-trivial: more than three operations; counted distinct by choice sequence";
    p.subs = {{"double", 30000, 600000, history<double>}, {"gdual_d", 10000, 200000, history<audi::gdual_d>}, {"gdual_v", 10000, 200000, history<audi::gdual_v>}};
    p.case_cpu_s = 20;
    return pbt::run(argc, argv, p);
}
