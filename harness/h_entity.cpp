// Bounded conformance harness: entity names, from expressions and from JSON, against an own resolver.
#include "common.hpp"

#include "src/buildtool/build_engine/base_maps/entity_name.hpp"

using namespace BuildMaps::Base;
using C = std::vector<std::string>;
static C comps(std::string const& s) {
    C r;
    std::string c;
    for (char x : s) {
        if (x == '/') { if (not c.empty()) r.push_back(c); c.clear(); }
        else c += x;
    }
    if (not c.empty()) r.push_back(c);
    return r;
}
static std::string join(C const& c) {
    std::string r;
    for (std::size_t i = 0; i < c.size(); ++i) r += (i ? "/" : "") + c[i];
    return r;
}
// modules: walk from the root, never above it
static std::string module_of(std::string const& s) {
    C st;
    for (auto const& c : comps(s)) {
        if (c == ".") continue;
        if (c == "..") { if (not st.empty()) st.pop_back(); continue; }
        st.push_back(c);
    }
    return join(st);
}
// relative module: nothing if the walk ends outside
static std::optional<std::string> relative(std::string const& m, std::string const& rel) {
    C st;
    for (auto const& c : comps(m + "/" + rel)) {
        if (c == ".") continue;
        if (c == ".." and not st.empty() and st.back() != "..") { st.pop_back(); continue; }
        st.push_back(c);
    }
    if (not st.empty() and st[0] == "..") return std::nullopt;
    return join(st);
}
struct Name { std::string r, m, n; int t; };
int main(int argc, char** argv) {
    auto a = vh::init(argc, argv);
    vh::Rng g{a.seed * 2654435761u + 17};
    C strs{"", ".", "..", "a", "b", "a/b", "foo", "./", "@", "FILE", "TREE", "GLOB", "SYMLINK", "#", "file", "../a", "../..", "a/..", "a/../b", "../../a", "..a", "../", "/a", "a//b", "a/", "x y", "@/", "FILES", "\xc3\xa4"};
    C heads{"./", "@", "FILE", "TREE", "GLOB", "SYMLINK", "#", "a"};
    auto str = [&] {
        if (not vh::g_dict.empty() and g.b(1, 20)) return g.of(vh::g_dict);
        if (g.b(1, 5)) { std::string s; int n = 1 + g.n(4); for (int i = 0; i < n; ++i) s += (i ? "/" : "") + std::string(g.b(1, 2) ? ".." : g.b() ? "a" : "b"); return s; }
        return g.of(strs);
    };
    while (vh::elapsed() < a.secs) {
        // repositories
        C repos{"", "r1", "r2", "other"};
        std::map<std::string, std::map<std::string, std::string>> map;
        RepositoryConfig rc{};
        for (auto const& r : repos) {
            if (g.b(1, 4)) continue;
            for (int i = g.n(4); i > 0; --i) map[r][str()] = g.of(repos) + (g.b(1, 3) ? "x" : "");
            RepositoryConfig::RepositoryInfo info{FileRoot{std::filesystem::path{"/"}}};
            info.name_mapping = map[r];
            rc.SetInfo(r, std::move(info));
        }
        for (int k = 0; k < 20; ++k) {
            auto repo = g.of(repos);
            auto mod = str();
            EntityName cur{repo, mod, str(), static_cast<ReferenceType>(g.n(5))};
            auto const& cn = cur.GetNamedTarget();
            vh::setcase("module " + vh::esc(mod));
            vh::check(cn.module == module_of(mod) and cn.repository == repo, "module " + vh::esc(mod) + " is normalised to " + vh::esc(cn.module));
            nlohmann::json j;
            int kind = g.n(20);
            if (kind == 0) j = nullptr;
            else if (kind == 1) j = g.b();
            else if (kind == 2) j = 3;
            else if (kind == 3) j = nlohmann::json::object({{str(), str()}});
            else if (kind < 6) j = str();
            else {
                j = nlohmann::json::array();
                int n = g.b(1, 10) ? g.n(6) : 2 + g.n(3);
                for (int i = 0; i < n; ++i) {
                    if (i == 0 and n > 2 and g.b(7, 8)) j.push_back(g.of(heads));
                    else if (g.b(1, 12)) j.push_back(g.b() ? nlohmann::json(nullptr) : g.b() ? nlohmann::json(1) : nlohmann::json::array({"a"}));
                    else if (i == 1 and g.b(1, 4)) j.push_back(g.b() ? cn.module : mod);
                    else if (i == 1 and g.b(1, 4)) j.push_back(nullptr);
                    else if (i == 1 and g.b(1, 3) and not map[repo].empty()) { auto it = map[repo].begin(); std::advance(it, g.n(static_cast<int>(map[repo].size()))); j.push_back(it->first); }
                    else j.push_back(str());
                }
            }
            if (j.is_array() and j.size() >= 2 and j[0] == "./" and j[1].is_string() and j[1].get<std::string>().starts_with("/")) continue;
            if (j.is_array() and j.size() >= 2 and j[0] == "./" and cn.module.empty() and j[1] == "") continue;  // the empty path
            vh::setcase("name " + j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace) + " seen from " + vh::esc(repo) + " " + vh::esc(cn.module) + " with bindings " + nlohmann::json(map).dump(-1, ' ', false, nlohmann::json::error_handler_t::replace));
            // expected
            std::optional<Name> want;
            auto S = [&](std::size_t i) { return j.size() > i and j[i].is_string(); };
            auto G = [&](std::size_t i) { return j[i].get<std::string>(); };
            if (j.is_string()) want = Name{repo, cn.module, j.get<std::string>(), 0};
            else if (j.is_array()) {
                if (j.size() == 2 and S(0) and S(1)) want = Name{repo, module_of(G(0)), G(1), 0};
                else if (j.size() >= 3 and S(0)) {
                    auto h = G(0);
                    if (h == "./") { if (j.size() == 3 and S(1) and S(2)) { auto m = relative(cn.module, G(1)); if (m) want = Name{repo, *m, G(2), 0}; } }
                    else if (h == "@") {
                        if (j.size() == 4 and S(1) and S(2) and S(3)) {
                            auto it = map.find(repo);
                            bool known = rc.Info(repo) != nullptr;
                            if (known and it != map.end() and it->second.count(G(1))) want = Name{it->second[G(1)], module_of(G(2)), G(3), 0};
                        }
                    }
                    else if (h == "FILE" or h == "TREE" or h == "GLOB" or h == "SYMLINK") {
                        if (j.size() == 3 and S(2) and (j[1].is_null() or (S(1) and (G(1) == "." or G(1) == cn.module))))
                            want = Name{repo, cn.module, G(2), h == "FILE" ? 1 : h == "TREE" ? 2 : h == "GLOB" ? 3 : 4};
                    }
                }
            }
            bool with_logger = g.b();
            std::string logged;
            auto run = [&](auto const& f) { return with_logger ? f(std::optional<std::function<void(std::string const&)>>{[&](std::string const& s) { logged += s; }}) : f(std::optional<std::function<void(std::string const&)>>{}); };
            auto rj = run([&](auto const& l) { return ParseEntityNameFromJson(j, cur, &rc, l); });
            auto e = Expression::FromJson(j);
            auto re = run([&](auto const& l) { return ParseEntityNameFromExpression(e, cur, &rc, l); });
            for (auto const& [r, how] : {std::pair{rj, "JSON"}, std::pair{re, "an expression"}}) {
                std::string w = std::string(" (given as ") + how + ")";
                vh::check(r.has_value() == want.has_value(), (want or not r ? std::string("name is rejected") : "name is accepted, as " + r->ToString()) + w);
                if (want) {
                    vh::check(r->IsNamedTarget(), "not a named target" + w);
                    auto const& x = r->GetNamedTarget();
                    vh::check(x.repository == want->r and x.module == want->m and x.name == want->n and static_cast<int>(x.reference_t) == want->t,
                              "name denotes " + r->ToString() + ", expected " + vh::esc(want->r) + " " + vh::esc(want->m) + " " + vh::esc(want->n) + " kind " + std::to_string(want->t) + w);
                }
            }
            if (with_logger and not want) vh::check(not logged.empty(), "rejected without a message");
            vh::count(j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace) + cn.module, want.has_value());
        }
    }
    vh::stats();
    return 0;
}
