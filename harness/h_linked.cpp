// Bounded conformance harness: LinkedMap against std::map merged independently.
#include "common.hpp"

#include "src/buildtool/build_engine/expression/linked_map.hpp"

using LMap = LinkedMap<std::string, std::string>;
using Ptr = LMap::Ptr;
using Ref = std::map<std::string, std::string>;

static std::string show(Ref const& m) {
    std::string r = "{";
    for (auto const& [k, v] : m) r += vh::esc(k) + ":" + vh::esc(v) + " ";
    return r + "}";
}
struct Node {
    Ptr p;
    Ref r;
    std::string desc;
    bool null{};
};
static void lookups(LMap const& m, Ref const& r, vh::Rng& g, std::vector<std::string> const& keys) {
    for (auto const& k : keys) {
        auto f = m.Find(k);
        auto it = r.find(k);
        vh::check(static_cast<bool>(f) == (it != r.end()), "Find reports " + std::string(f ? "a value" : "nothing") + " for key " + vh::esc(k));
        if (f) vh::check(**f == it->second, "Find gives " + vh::esc(**f) + " for key " + vh::esc(k) + ", expected " + vh::esc(it->second));
        vh::check(m.contains(k) == (it != r.end()), "contains is wrong for key " + vh::esc(k));
        bool thrown = false;
        try { auto const& v = m.at(k); vh::check(it != r.end() and v == it->second, "at is wrong for key " + vh::esc(k)); vh::check(m[k] == v, "[] is wrong for key " + vh::esc(k)); }
        catch (std::exception const&) { thrown = true; }
        vh::check(thrown == (it == r.end()), "at throws exactly for absent keys; key " + vh::esc(k));
    }
    vh::check(m.empty() == r.empty(), "empty() is wrong");
}
static void iterate(LMap const& m, Ref const& r) {
    vh::check(m.size() == r.size(), "size " + std::to_string(m.size()) + ", expected " + std::to_string(r.size()));
    auto it = r.begin();
    for (auto const& [k, v] : m) {
        vh::check(it != r.end() and it->first == k and it->second == v, "iteration gives " + vh::esc(k) + " -> " + vh::esc(v) + (it == r.end() ? " after the end" : ", expected " + vh::esc(it->first) + " -> " + vh::esc(it->second)));
        ++it;
    }
    vh::check(it == r.end(), "iteration ends too early");
    std::vector<std::string> ks, vs;
    for (auto const& [k, v] : r) { ks.push_back(k); vs.push_back(v); }
    vh::check(m.Keys() == ks, "Keys() differs");
    vh::check(m.Values() == vs, "Values() differs");
}

int main(int argc, char** argv) {
    auto a = vh::init(argc, argv);
    vh::Rng g{a.seed * 7919 + 3};
    std::vector<std::string> kp{"", "a", "b", "c", "d", "aa", "ab", std::string("a\0b", 3), "\xff", "\x7f", "\xc3\xa4", "A", "z", "/", "."};
    std::vector<std::string> vp{"", "1", "2", "3"};
    while (vh::elapsed() < a.secs) {
        std::vector<Node> pool;
        int nk = 2 + g.n(static_cast<int>(kp.size()) - 1);
        auto key = [&] { return kp[g.n(nk)]; };
        auto val = [&] { return g.of(vp); };
        int n = 1 + g.n(8);
        std::string all;
        auto ref = [&](int k) -> Node& { return pool[k]; };
        for (int i = 0; i < n; ++i) {
            Node x;
            auto und = [&] {
                Ref r;
                for (int j = g.n(5); j > 0; --j) r.emplace(key(), val());
                return r;
            };
            auto over = [](Ref lo, Ref const& hi) { for (auto const& [k, v] : hi) lo[k] = v; return lo; };
            int c = pool.empty() ? g.n(3) : g.n(8);
            if (c == 0) { auto u = und(); x.p = LMap::MakePtr(u); x.r = u; x.desc = "map" + show(u); }
            else if (c == 1) { auto k = key(), v = val(); x.p = g.b() ? LMap::MakePtr(k, v) : LMap::MakePtr(std::pair<std::string, std::string>{k, v}); x.r = {{k, v}}; x.desc = "item" + show(x.r); }
            else if (c == 2) { x.p = g.b(1, 3) ? LMap::MakePtr(Ref{}) : LMap::MakePtr(Ptr{}, Ref{{"a", "1"}}); x.r = x.p->empty() ? Ref{} : Ref{{"a", "1"}}; x.desc = "single"; }
            else if (c <= 5) {
                int l = g.n(static_cast<int>(pool.size())), h = g.n(static_cast<int>(pool.size()));
                bool nl = g.b(1, 10), nh = g.b(1, 10);
                x.p = LMap::MakePtr(nl ? Ptr{} : ref(l).p, nh ? Ptr{} : ref(h).p);
                x.r = over(nl ? Ref{} : ref(l).r, nh ? Ref{} : ref(h).r);
                x.desc = "over(" + (nl ? "null" : std::to_string(l)) + "," + (nh ? "null" : std::to_string(h)) + ")";
            }
            else if (c == 6) { int l = g.n(static_cast<int>(pool.size())); auto u = und(); x.p = LMap::MakePtr(ref(l).p, u); x.r = over(ref(l).r, u); x.desc = "over(" + std::to_string(l) + ",map" + show(u) + ")"; }
            else { int l = g.n(static_cast<int>(pool.size())); auto k = key(), v = val(); x.p = g.b() ? LMap::MakePtr(ref(l).p, k, v) : LMap::MakePtr(ref(l).p, std::pair<std::string, std::string>{k, v}); x.r = over(ref(l).r, {{k, v}}); x.desc = "over(" + std::to_string(l) + ",item" + show({{k, v}}) + ")"; }
            all += std::to_string(i) + "=" + x.desc + " ";
            pool.push_back(x);
            vh::setcase(all);
            if (g.b(1, 4)) { if (g.b()) lookups(*x.p, x.r, g, kp); if (g.b()) iterate(*x.p, x.r); }
        }
        // in random order, every map of the pool (they share parts)
        for (int k = 0; k < n; ++k) {
            auto& x = pool[g.n(n)];
            if (g.b()) { lookups(*x.p, x.r, g, kp); iterate(*x.p, x.r); }
            else { iterate(*x.p, x.r); lookups(*x.p, x.r, g, kp); }
            auto& y = pool[g.n(n)];
            bool conf = false;
            for (auto const& [q, v] : x.r) { auto it = y.r.find(q); if (it != y.r.end() and it->second != v) conf = true; }
            auto d = x.p->FindConflictingDuplicate(*y.p);
            vh::check(static_cast<bool>(d) == conf, conf ? "conflicting duplicate not found" : "conflicting duplicate reported, but there is none");
            if (d) { auto q = d->get(); vh::check(x.r.count(q) and y.r.count(q) and x.r.at(q) != y.r.at(q), "reported key is no conflict: " + vh::esc(q)); }
            vh::check((*x.p == *y.p) == (x.r == y.r), "equality of maps is wrong");
        }
        std::string sig;
        for (auto const& x : pool) sig += x.desc + ";";
        vh::count(sig, n > 1);
    }
    vh::stats();
    return 0;
}
