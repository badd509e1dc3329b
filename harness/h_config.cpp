// Bounded conformance harness: Configuration against a std::map.
#include "common.hpp"

#include "src/buildtool/build_engine/expression/configuration.hpp"
#include "src/buildtool/build_engine/expression/expression.hpp"

using Ref = std::map<std::string, std::string>;  // value as JSON text

static ExpressionPtr val(std::string const& j) { return Expression::FromJson(nlohmann::json::parse(j)); }
static std::string txt(ExpressionPtr const& e) {
    vh::check(static_cast<bool>(e), "null pointer as value");
    return e->ToString();
}
static std::string show(Ref const& m) {
    std::string r = "{";
    for (auto const& [k, v] : m) r += vh::esc(k) + ":" + v + " ";
    return r + "}";
}
static void same(Configuration const& c, Ref const& r, std::string const& what, std::vector<std::string> const& keys) {
    auto const& m = c.Expr()->Map();
    vh::check(m.size() == r.size(), what + ": " + c.ToString() + ", expected " + show(r));
    for (auto const& [k, v] : m) vh::check(r.count(k) and r.at(k) == txt(v), what + ": wrong value for " + vh::esc(k));
    for (auto const& k : keys) {
        auto want = r.count(k) ? r.at(k) : std::string("null");
        vh::check(txt(c[k]) == want, what + ": [] of " + vh::esc(k) + " gives " + txt(c[k]) + ", expected " + want);
        vh::check(txt(c[ExpressionPtr{k}]) == want, what + ": [] of a string expression differs for " + vh::esc(k));
        vh::check(c.VariableFixed(k) == (r.count(k) > 0), what + ": VariableFixed is wrong for " + vh::esc(k));
    }
}
int main(int argc, char** argv) {
    auto a = vh::init(argc, argv);
    vh::Rng g{a.seed * 31337 + 11};
    std::vector<std::string> kp{"", "A", "B", "C", "D", "AA", "a", "ARCH", "z", "-", "\xc3\xa4"};
    std::vector<std::string> vp{"null", "null", "\"\"", "\"x\"", "1.0", "false", "true", "[]", "{}", "[\"a\",null]", "{\"k\":\"v\"}"};
    while (vh::elapsed() < a.secs) {
        auto rndm = [&](int n) { Ref r; for (int i = g.n(n + 1); i > 0; --i) r.emplace(g.of(kp), g.of(vp)); return r; };
        auto toMap = [&](Ref const& r) { Expression::map_t::underlying_map_t m; for (auto const& [k, v] : r) m.emplace(k, val(v)); return m; };
        Ref r = rndm(5);
        Configuration c{ExpressionPtr{Expression::map_t{toMap(r)}}};
        std::string desc = show(r);
        std::vector<std::pair<Configuration, Ref>> old;
        for (int i = g.n(5); i >= 0; --i) {
            old.emplace_back(c, r);
            switch (g.n(5)) {
                case 0: { auto k = g.of(kp), v = g.of(vp); desc += " update " + vh::esc(k) + "=" + v; vh::setcase(desc); c = c.Update(k, val(v)); r[k] = v; break; }
                case 1: { auto u = rndm(4); desc += " update " + show(u); vh::setcase(desc); c = c.Update(toMap(u)); for (auto const& [k, v] : u) r[k] = v; break; }
                case 2: { auto u = rndm(4); desc += " update expr " + show(u); vh::setcase(desc); c = c.Update(ExpressionPtr{Expression::map_t{toMap(u)}}); for (auto const& [k, v] : u) r[k] = v; break; }
                case 3: {
                    std::vector<std::string> vs;
                    desc += " prune [";
                    Ref n;
                    for (int j = g.n(6); j > 0; --j) { auto k = g.of(kp); vs.push_back(k); desc += vh::esc(k) + " "; n[k] = r.count(k) ? r[k] : "null"; }
                    desc += "]";
                    vh::setcase(desc);
                    bool str = g.b(1, 6);
                    if (g.b()) c = c.Prune(vs);
                    else if (g.b()) c = c.Prune(std::set<std::string>(vs.begin(), vs.end()));
                    else {
                        Expression::list_t l;
                        for (auto const& k : vs) l.emplace_back(ExpressionPtr{k});
                        if (str) {
                            // not a string / not a list: an error
                            l.insert(l.begin() + g.n(static_cast<int>(l.size()) + 1), val(g.of(std::vector<std::string>{"null", "1", "[]", "{}", "true", "[\"A\"]"})));
                            bool thrown = false;
                            try { (void)c.Prune(ExpressionPtr{l}); } catch (...) { thrown = true; }
                            vh::check(thrown, "prune by a list with a non-string is not an error");
                            thrown = false;
                            try { (void)c.Prune(val("\"A\"")); } catch (...) { thrown = true; }
                            vh::check(thrown, "prune by a non-list is not an error");
                            c = c.Prune(vs);
                        }
                        else c = c.Prune(ExpressionPtr{l});
                    }
                    r = n;
                    break;
                }
                default: {
                    bool thrown = false;
                    try { (void)c[val(g.of(std::vector<std::string>{"null", "1", "[]", "{}", "true"}))]; } catch (...) { thrown = true; }
                    vh::check(thrown, "[] of a non-string is not an error");
                }
            }
            same(c, r, "after the last step", kp);
        }
        for (auto const& [oc, orr] : old) same(oc, orr, "earlier configuration modified", kp);
        for (auto const& [oc, orr] : old) vh::check((oc == c) == (orr == r), "equality of configurations is wrong");
        vh::count(desc);
    }
    vh::stats();
    return 0;
}
