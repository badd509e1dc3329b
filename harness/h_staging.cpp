// Bounded conformance harness: stages (normalisation, tree conflicts, the working directory, taints).
#include "common.hpp"

#include "src/buildtool/build_engine/target_map/utils.hpp"

namespace fs = std::filesystem;
namespace T = BuildMaps::Target::Utils;
using C = std::vector<std::string>;
static C comps(std::string const& s) {
    C r;
    std::string c;
    for (char x : s) {
        if (x == '/') { if (not c.empty()) r.push_back(c); c.clear(); }
        else c += x;
    }
    if (not c.empty()) r.push_back(c);
    return r;
}
static std::string normal(std::string const& s) {
    C st;
    bool ab = not s.empty() and s[0] == '/';
    for (auto const& c : comps(s)) {
        if (c == ".") continue;
        if (c == "..") {
            if (not st.empty() and st.back() != "..") { st.pop_back(); continue; }
            if (ab) continue;
        }
        st.push_back(c);
    }
    std::string r = ab ? "/" : "";
    for (std::size_t i = 0; i < st.size(); ++i) r += (i ? "/" : "") + st[i];
    return r.empty() ? "." : r;
}
static bool prefix(C const& a, C const& b) { return a.size() <= b.size() and std::equal(a.begin(), a.end(), b.begin()); }
static bool above(C const& a, C const& b) { return a.size() < b.size() and prefix(a, b); }
static std::string show(std::map<std::string, ExpressionPtr> const& m) {
    std::string r = "{";
    for (auto const& [k, v] : m) r += vh::esc(k) + ": " + v->ToString() + ", ";
    return r + "}";
}
int main(int argc, char** argv) {
    auto a = vh::init(argc, argv);
    vh::Rng g{a.seed * 2654435761u + 11};
    C cs{"a", "b", "c", "aa", "a.", "a-b", "..", ".", "", "foo", "..a", ".a", "a b", "A", "\xc3\xa4", "a!"};
    C ps{"a", "b", "c", "aa", "a.", "a-b", "a!", "a0", "A"};
    auto art = [&](int k) { return ExpressionPtr{ArtifactDescription::CreateAction("id" + std::to_string(k), "out")}; };
    auto path = [&](bool plain) {
        std::string s;
        if (not plain and g.b(1, 20)) s = "/";
        int n = plain ? 1 + g.n(4) : g.n(5);
        for (int i = 0; i < n; ++i) {
            auto c = not vh::g_dict.empty() and g.b(1, 30) ? g.of(vh::g_dict) : g.of(plain ? ps : cs);
            // a plain path has one component per part
            if (plain and (c.empty() or c == "." or c == ".." or c.find_first_of(std::string_view{"/\0", 2}) != std::string::npos)) c = "a";
            s += (i ? "/" : "") + c;
        }
        return s;
    };
    while (vh::elapsed() < a.secs) {
        std::map<std::string, ExpressionPtr> m;
        int n = g.n(7);
        for (int i = 0; i < n; ++i) {
            auto p = path(false);
            if (p.starts_with("//")) continue;
            m.emplace(p, art(g.n(3)));
        }
        auto e = ExpressionPtr{Expression::map_t{m}};
        vh::setcase("map " + show(m));
        // normalised stage
        std::map<std::string, ExpressionPtr> want;
        bool clash = false;
        std::set<std::string> clashes;
        for (auto const& [k, v] : m) {
            auto [it, fresh] = want.emplace(normal(k), v);
            if (not fresh and not(it->second == v)) { clash = true; clashes.insert(normal(k)); }
        }
        auto r = T::artifacts_tree(e);
        vh::check((r.index() == 0) == clash, clash ? "artifacts_tree accepts different artifacts at one location" : "artifacts_tree reports a conflict where there is none");
        if (clash) vh::check(clashes.count(std::get<0>(r)) == 1, "artifacts_tree reports location " + vh::esc(std::get<0>(r)) + " which has no conflict");
        else {
            auto ex = ExpressionPtr{Expression::map_t{want}};
            vh::check(std::get<1>(r)->IsMap() and std::get<1>(r) == ex, "artifacts_tree gives " + std::get<1>(r)->ToString() + ", expected " + ex->ToString());
        }
        // keys
        {
            auto k = T::keys_expr(e);
            vh::check(k->IsList() and k->List().size() == m.size(), "keys_expr has the wrong length");
            std::size_t i = 0;
            for (auto const& [x, v] : m) {
                vh::check(k->List()[i]->IsString() and k->List()[i]->String() == x, "keys_expr: wrong key at " + std::to_string(i));
                ++i;
            }
        }
        // conflicts between normalised paths
        std::map<std::string, ExpressionPtr> pl;
        n = g.n(6);
        for (int i = 0; i < n; ++i) {
            std::string p;
            if (not pl.empty() and g.b(1, 4)) { auto it = pl.begin(); std::advance(it, g.n(static_cast<int>(pl.size()))); p = normal(it->first + "/" + path(true)); }
            else p = g.b(1, 12) ? normal(path(false)) : path(true);
            if (p.starts_with("//")) continue;
            pl.emplace(p, art(g.n(3)));
        }
        auto pe = ExpressionPtr{Expression::map_t{pl}};
        vh::setcase("stage " + show(pl));
        bool bad = false;
        std::set<std::string> culprit;
        for (auto const& [k, v] : pl) {
            auto ck = comps(k);
            if (k[0] == '/' or (not ck.empty() and ck[0] == "..") or (k == "." and pl.size() > 1)) { bad = true; culprit.insert(k); }
            for (auto const& [l, w] : pl) if (k[0] != '/' and l[0] != '/' and above(comps(l), ck)) { bad = true; culprit.insert(l); }
        }
        auto c = T::tree_conflict(pe);
        vh::check(c.has_value() == bad, bad ? "tree_conflict misses a conflict" : "tree_conflict reports " + vh::esc(c.value_or("")) + " where there is no conflict");
        if (c) vh::check(culprit.count(*c) == 1, "tree_conflict reports " + vh::esc(*c) + " which conflicts with nothing");
        // laws of paths the proof relies on
        for (auto const& [k, v] : pl) {
            if (k[0] == '/' or k == ".") continue;
            auto p = fs::path{k}.parent_path().string();
            auto ck = comps(k);
            ck.pop_back();
            vh::check(comps(p) == ck and p.size() < k.size(), "law of the model: parent_path of " + vh::esc(k));
            for (auto const& [l, w] : pl) if (l[0] != '/' and above(comps(l), comps(k))) vh::check(l < k, "law of the model: order of " + vh::esc(l) + " and " + vh::esc(k));
        }
        // working directory
        auto cwd = g.b(1, 6) ? std::string{g.b() ? "" : "."} : path(true);
        if (not pl.empty() and g.b(1, 4)) { auto it = pl.begin(); std::advance(it, g.n(static_cast<int>(pl.size()))); if (it->first[0] != '/') cwd = it->first; if (g.b()) cwd = fs::path{cwd}.parent_path().string(); }
        bool rel = true;
        for (auto const& [k, v] : pl) rel = rel and k[0] != '/';
        if (rel) {
            vh::setcase("working directory " + vh::esc(cwd) + " stage " + show(pl));
            bool keep = cwd.empty() or cwd == ".";
            for (auto const& [k, v] : pl) keep = keep or k.empty() or k == "." or prefix(comps(k), comps(cwd)) or prefix(comps(cwd), comps(k));
            std::vector<Tree::Ptr> trees;
            auto s = T::add_dir_for(cwd, pe, &trees);
            if (keep) vh::check(s == pe and trees.empty(), "add_dir_for changes the stage");
            else {
                vh::check(trees.size() == 1, "add_dir_for registers " + std::to_string(trees.size()) + " trees");
                auto w = pl;
                w.emplace(cwd, ExpressionPtr{ArtifactDescription::CreateTree(trees[0]->Id())});
                auto we = ExpressionPtr{Expression::map_t{w}};
                vh::check(s == we, "add_dir_for gives " + s->ToString() + ", expected " + we->ToString());
            }
        }
        // taints
        {
            auto val = [&] { return g.b(7, 8) ? ExpressionPtr{std::string{g.of(ps)}} : g.b() ? ExpressionPtr{g.n(3) * 1.0} : ExpressionPtr{Expression::none_t{}}; };
            Expression::list_t l;
            for (int i = g.n(4); i > 0; --i) l.push_back(val());
            auto te = g.b(1, 10) ? val() : ExpressionPtr{l};
            std::set<std::string> before;
            for (int i = g.n(3); i > 0; --i) before.insert(g.of(ps));
            auto now = before;
            auto logger = std::make_shared<AsyncMapConsumerLogger>([](auto const&, bool) {});
            vh::setcase("taints " + te->ToString());
            bool null = g.b(1, 20);
            auto t = T::getTainted(&now, Configuration{}, null ? ExpressionPtr{nullptr} : te, logger);
            bool good = not null and te->IsList();
            auto wantset = before;
            if (te->IsList()) for (auto const& x : te->List()) { good = good and x->IsString(); if (x->IsString()) wantset.insert(x->String()); }
            vh::check(t == good, std::string("getTainted ") + (t ? "accepts" : "rejects") + " the taints");
            if (t) vh::check(now == wantset, "getTainted: wrong set of taints");
            for (auto const& x : before) vh::check(now.count(x) == 1, "getTainted: taint lost");
        }
        vh::count(show(m) + show(pl) + cwd);
    }
    vh::stats();
    return 0;
}
