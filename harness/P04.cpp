// P04: predictions and texts of a candidate are those of its program.
// FLAGS: -O1 -g0 -D_GLIBCXX_ASSERTIONS -fsanitize=undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr
#include <parser.hpp>
#include <problem.hpp>

using namespace cgp;
using dcgp::symbolic_regression;
using ev::Ev;

// The elements of a list written [a, b, c].
static bool split(const std::string &t, std::vector<std::string> &out)
{
    out.clear();
    if (t.size() < 2 || t.front() != '[' || t.back() != ']') return false;
    std::string now;
    int depth = 0;
    for (std::size_t i = 1; i + 1 < t.size(); ++i) {
        if (t[i] == '(' || t[i] == '[') ++depth;
        if (t[i] == ')' || t[i] == ']') --depth;
        if (t[i] == ',' && depth == 0) {
            out.push_back(now);
            now.clear();
        } else {
            now += t[i];
        }
    }
    out.push_back(now);
    return true;
}

static void programs(Gen &g, Case &c)
{
    ProblemLimits L;
    L.shape = Limits{3, 3, 3, 2, 5, 3, 5};
    if (g.chance(1, 8)) L.shape = Limits{12, 12, 9, 3, 4, 3, 5};
    static const std::vector<std::string> few = {"sum", "diff", "mul", "div", "inv_sum", "gaussian", "pdiv"};
    const Config k = config(g, g.chance(1, 3) ? few : ev::catalogue(), L);
    const auto u = k.build();
    std::vector<Vector> xs;
    for (unsigned i = g.u(1, 3); i > 0; --i) xs.push_back(candidate(g, k));
    if (k.s.n_eph && g.flip()) { // the same program with other constants
        xs.push_back(g.pick(xs));
        for (unsigned i = 0; i < k.s.n_eph; ++i) xs.back()[i] = g.real(-3, 3);
    }
    if (g.flip()) { // the same constants with another program
        const Vector &from = g.pick(xs);
        Vector x = candidate(g, k);
        std::copy(from.begin(), from.begin() + k.s.n_eph, x.begin());
        xs.push_back(x);
    }
    Data P;
    c.note(k, ":");
    unsigned defined = 0, active = 0;
    const bool protects = std::find(k.s.kernels.begin(), k.s.kernels.end(), "pdiv") != k.s.kernels.end();
    for (unsigned o = g.u(1, 4); o > 0; --o) {
        const Vector &x = xs[g.raw(xs.size() - 1)];
        for (unsigned r : reachable(k.s, genes(k, x))) active += r >= k.s.in();
        switch (g.raw(5)) {
            case 0: // something else in between
                c.trace(" fitness of ", x);
                u.fitness(x);
                break;
            case 1:
                c.trace(" gradient of ", x);
                u.gradient(x);
                break;
            case 2:
            case 3: {
                if (g.flip()) { // otherwise the points of the last time
                    P.clear();
                    for (unsigned i = g.u(0, 4); i > 0; --i) {
                        P.emplace_back();
                        for (unsigned j = 0; j < k.s.n; ++j) P.back().push_back(g.chance(1, 6) ? 0. : g.real(-4, 4));
                    }
                }
                c.trace(" predict ", x, " at ", P);
                const auto all = u.predict(P, x);
                c.require(all.size() == P.size(), "predictions", "there are ", all.size(), " predictions for ", P.size(), " points");
                for (std::size_t i = 0; i < P.size(); ++i) {
                    const auto one = u.predict(P[i], x);
                    c.require(one.size() == k.s.m && all[i].size() == k.s.m, "prediction size", "a prediction has ", one.size(), " values");
                    const auto want = outputs<Ev>(k, x, P[i]);
                    for (unsigned j = 0; j < k.s.m; ++j) {
                        c.require(same(one[j], all[i][j]), "prediction", "the prediction at ", P[i], " is ", one, " alone and ", all[i], " with others");
                        c.require(ev::matches(one[j], want[j]), "prediction", "the prediction of ", x, " at ", P[i], " is ", one, ", output ", j, " should be ", want[j]);
                        defined += !want[j].bad;
                    }
                }
                if (!P.empty() && g.flip()) { // a point of another dimension
                    auto bad = P[0];
                    if (g.flip())
                        bad.pop_back();
                    else
                        bad.push_back(1.);
                    bool threw = false;
                    try {
                        u.predict(bad, x);
                    } catch (const std::invalid_argument &) {
                        threw = true;
                    }
                    c.require(threw, "accepted", "a point of dimension ", bad.size(), " is given a prediction, expected ", k.s.n);
                }
                break;
            }
            default: {
                const bool simplified = g.flip();
                c.trace(simplified ? " prettier " : " pretty ", x);
                const std::string t = simplified ? u.prettier(x) : u.pretty(x);
                if (t.size() > 100000) {
                    c.label("long text");
                    break;
                }
                std::vector<std::string> texts;
                c.require(split(t, texts), "list", "the text ", t, " is not a list");
                c.require(texts.size() == k.s.m, "list", "the text ", t, " has ", texts.size(), " parts, there are ", k.s.m, " outputs");
                for (int r = 0; r < 2; ++r) {
                    std::map<std::string, Ev> vars;
                    Vector point;
                    for (unsigned i = 0; i < k.s.n; ++i) {
                        point.push_back(g.real(-2, 2));
                        vars["x" + std::to_string(i)] = Ev(point.back());
                    }
                    for (unsigned i = 0; i < k.s.n_eph; ++i) vars["c" + std::to_string(i + 1)] = Ev(x[i]);
                    const auto got = u.predict(point, x);
                    const auto documented = outputs<Ev>(k, x, point);
                    for (unsigned j = 0; j < k.s.m; ++j) {
                        if (protects && documented[j].bad) continue;
                        Ev want;
                        try {
                            want = ev::eval_text(texts[j], vars);
                        } catch (const ev::Malformed &e) {
                            c.fail("malformed", "not an expression: ", e.what());
                        }
                        c.require(ev::matches(got[j], want), simplified ? "prettier" : "pretty", "output ", j, " is written ", texts[j], ", which has the value ", want, " at ", point,
                                  " with constants ", x, ", where the prediction is ", got[j]);
                        defined += !want.bad;
                    }
                }
            }
        }
    }
    if (k.s.m > 5) c.label("many outputs");
    c.nontrivial(defined > 0 && active > 0);
}

int main(int argc, char **argv)
{
    pbt::Property p;
    p.id = "P04";
    p.rule = "random problems, candidates, points and histories; predictions compared with a reference interpreter, texts parsed by an independent parser and compared with predictions; "
             "non-trivial: some node active and some value defined; counted distinct by choice sequence";
    p.subs = {{"programs", 60000, 600000, programs}};
    p.assumptions = {"with the stand-ins for AuDi and SymEngine (no simplification)", "where a protected division is in the kernels, texts are compared where the program is well conditioned"};
    return pbt::run(argc, argv, p);
}
