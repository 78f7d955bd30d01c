// E11: expressions can be used from many threads at once.
// FLAGS: -O1 -g1 -fsanitize=thread
// LIBS: -lboost_serialization -lpagmo -ltbb -lpthread -lquadmath
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>

#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include <anyexpr.hpp>
#include <atomic>
#include <net.hpp>
#include <thread>

using namespace cgp;

static std::string nan_free(std::string t)
{
    std::size_t p;
    while ((p = t.find("-nan")) != std::string::npos) t.erase(p, 1);
    return t;
}
template <typename E>
struct Work {
    using T = value_of<E>;
    std::vector<std::vector<T>> in, label;
    Data points, labels; // for networks
    std::vector<std::string> names;
    std::vector<std::vector<std::function<void(E &)>>> paths;
    double lr = 0.1;
    unsigned batch = 1;
};
static const unsigned kinds = 9;
// What is seen of an expression, as text.
template <typename E>
static std::string look(const E &e, const Work<E> &w, unsigned what, std::size_t q)
{
    using T = value_of<E>;
    const auto mse = dcgp::expression<T>::loss_type::MSE;
    const std::size_t p = q % w.in.size();
    switch (what) {
        case 0:
            return printed(e(w.in[p]));
        case 1: {
            std::string r;
            for (auto &t : e(w.names)) r += t.size() > 2000 ? t.substr(0, 2000) + std::to_string(t.size()) : t;
            return r;
        }
        case 2:
            return printed(std::vector<T>{e.loss(w.in[p], w.label[p], mse)});
        case 3:
            return printed(std::vector<T>{e.loss(w.in, w.label, "MSE", 0u)});
        case 4:
            return whole(e);
        case 5: { // a copy goes its own way
            E copy(e);
            for (auto &f : w.paths[q % w.paths.size()]) f(copy);
            return whole(copy) + printed(copy(w.in[p]));
        }
        case 6: { // assigned over another one
            E copy(e);
            w.paths[0][0](copy);
            copy = e;
            for (auto &f : w.paths[q % w.paths.size()]) f(copy);
            return whole(copy);
        }
        case 7: { // an archive
            if constexpr (std::is_same<T, double>::value) {
                for (double v : e(w.in[p]))
                    if (!std::isfinite(v)) return "";
            }
            std::stringstream ss;
            {
                boost::archive::text_oarchive oa(ss);
                oa << e;
            }
            E copy(e);
            w.paths[0][0](copy);
            {
                boost::archive::text_iarchive ia(ss);
                ia >> copy;
            }
            return whole(copy) + printed(copy(w.in[p]));
        }
        default: {
            if constexpr (is_net<E>) {
                const auto mean = dcgp::expression<double>::loss_type::MSE;
                double l = 0;
                std::vector<double> gw(e.get_weights().size(), 0.), gb(e.get_biases().size(), 0.);
                e.d_loss(l, gw, gb, w.points[p], w.labels[p], mean);
                std::string r = printed(std::vector<double>{l}) + printed(gw) + printed(gb);
                E copy(e);
                const auto t = copy.d_loss(w.points, w.labels, mean, 0u);
                r += printed(std::vector<double>{std::get<0>(t)}) + printed(std::get<1>(t)) + printed(std::get<2>(t));
                auto x = w.points, y = w.labels;
                r += printed(std::vector<double>{copy.sgd(x, y, w.lr, w.batch, "MSE", 0u, false)}); // shuffled by chance otherwise
                r += whole(copy);
                for (auto &v : x) r += printed(v);
                return r;
            } else {
                return printed(e(w.in[p])) + whole(e);
            }
        }
    }
}
template <typename E>
static void shared(Gen &g, Case &c)
{
    using T = value_of<E>;
    const Shape s = shape(g, pool_of<E>(), Limits{3, is_plain<E> ? 2u : 0u, 3, 3, 4, 3, 5});
    c.note(s);
    E e = make<E>(s);
    for (unsigned i = g.u(0, 4); i > 0; --i) random_op(g, c, s, e);
    bool corrected = false;
    if constexpr (is_plain<E>) {
        if (g.chance(1, 4)) {
            c.trace(" corrected");
            corrected = true;
            e.set_phenotype_correction([](const std::vector<T> &x, std::function<std::vector<T>(const std::vector<T> &)> f) {
                auto r = f(x);
                for (auto &v : r) v = v * x[0];
                return r;
            });
        }
    }
    Work<E> w;
    for (unsigned i = 0; i < s.n; ++i) w.names.push_back("x" + std::to_string(i));
    for (unsigned i = g.u(1, 4); i > 0; --i) {
        w.in.emplace_back();
        w.label.emplace_back();
        w.points.emplace_back();
        w.labels.emplace_back();
        for (unsigned j = 0; j < s.n; ++j) {
            w.points.back().push_back(g.real(-2, 2));
            w.in.back().push_back(number<T>(g, -2, 2));
        }
        for (unsigned j = 0; j < s.m; ++j) {
            w.labels.back().push_back(g.real(-1, 1));
            w.label.back().push_back(T(w.labels.back().back()));
        }
    }
    w.batch = g.u(1, static_cast<unsigned>(w.in.size()));
    std::string ignored;
    for (unsigned i = g.u(1, 3); i > 0; --i) {
        w.paths.emplace_back();
        for (unsigned j = g.u(1, 4); j > 0; --j) w.paths.back().push_back(draw_op<E>(g, s, ignored));
    }
    const unsigned n = g.u(2, 5);
    std::vector<std::vector<unsigned>> ops(n), delay(n);
    unsigned total = 0;
    for (unsigned t = 0; t < n; ++t) {
        for (unsigned i = g.small(1, 8); i > 0; --i) {
            unsigned o = g.u(0, kinds - 1);
            if (o == 7 && corrected) o = 0; // the correction cannot be saved
            ops[t].push_back(o);
            delay[t].push_back(g.chance(1, 3) ? g.u(0, 1500) : 0);
            ++total;
        }
    }
    c.trace(" threads do ", ops);
    // what one thread gets, of a copy; half of the time only afterwards, so that the threads are the first to look
    const E alone(e);
    std::vector<std::vector<std::string>> expect(n);
    const auto sequential = [&]() {
        std::map<std::pair<unsigned, std::size_t>, std::string> seen;
        for (unsigned t = 0; t < n; ++t)
            for (std::size_t i = 0; i < ops[t].size(); ++i) {
                const std::pair<unsigned, std::size_t> key{ops[t][i], i + t};
                if (!seen.count(key)) seen[key] = nan_free(look<E>(alone, w, key.first, key.second));
                expect[t].push_back(seen[key]);
            }
    };
    const bool before = g.flip();
    if (before) sequential();
    const E &k = e;
    std::vector<std::vector<std::string>> got(n);
    std::atomic<unsigned> waiting{0};
    std::vector<std::thread> th;
    for (unsigned t = 0; t < n; ++t) {
        th.emplace_back([&, t]() {
            waiting.fetch_add(1);
            while (waiting.load() < n) std::this_thread::yield();
            volatile unsigned z = 0;
            for (std::size_t i = 0; i < ops[t].size(); ++i) {
                for (unsigned d = delay[t][i]; d > 0; --d) z = z + 1;
                try {
                    got[t].push_back(nan_free(look<E>(k, w, ops[t][i], i + t)));
                } catch (const std::exception &ex) {
                    got[t].push_back(std::string("an exception: ") + ex.what());
                }
            }
        });
    }
    for (auto &x : th) x.join();
    if (!before) sequential();
    for (unsigned t = 0; t < n; ++t)
        for (std::size_t i = 0; i < ops[t].size(); ++i)
            if (got[t][i] != expect[t][i]) {
                const auto &x = got[t][i], &y = expect[t][i];
                std::size_t j = 0;
                while (j < x.size() && j < y.size() && x[j] == y[j]) ++j;
                c.fail("value", "thread ", t, ", operation ", ops[t][i], " sees ...", x.substr(j > 20 ? j - 20 : 0, 60), ", alone ...", y.substr(j > 20 ? j - 20 : 0, 60));
            }
    c.require(nan_free(whole(e)) == nan_free(whole(alone)), "changed", "the shared expression is changed");
    c.label(before ? "before" : "after");
    c.nontrivial(total > 4);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "E11";
    p.rule = "two to five threads with random lists of const operations (values, texts, losses, inspection, copies and archives that go their own way, gradients, training of a copy) on one "
             "expression of any class, each result compared with what one thread gets of a copy, under ThreadSanitizer; non-trivial: more than four operations in all; counted distinct "
             "by choice sequence";
    p.subs = {{"shared_double", 1500, 30000, shared<dcgp::expression<double>>, true},
              {"shared_gdual_d", 700, 14000, shared<dcgp::expression<audi::gdual_d>>, true},
              {"shared_gdual_v", 700, 14000, shared<dcgp::expression<audi::gdual_v>>, true},
              {"shared_weighted", 900, 18000, shared<dcgp::expression_weighted<double>>, true},
              {"shared_weighted_gdual", 500, 10000, shared<dcgp::expression_weighted<audi::gdual_d>>, true},
              {"shared_ann", 1200, 24000, shared<dcgp::expression_ann>, true}};
    p.assumptions = {"interleavings are those the operating system gives under random delays; ThreadSanitizer reports unordered conflicting accesses",
                     "losses are summed by the calling thread (parallel 0): the thread pool of TBB is not built for ThreadSanitizer"};
    p.case_cpu_s = 60;
    return pbt::run(argc, argv, p);
}
