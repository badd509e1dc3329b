// Bounded conformance harness: the description and the id of an action, and the hash of values.
#include "common.hpp"

#include "src/buildtool/build_engine/expression/evaluator.hpp"
#include "src/buildtool/build_engine/expression/expression.hpp"
#include "src/buildtool/build_engine/expression/target_node.hpp"
#include "src/buildtool/build_engine/expression/target_result.hpp"
#include "src/buildtool/build_engine/target_map/utils.hpp"

using S = std::vector<std::string>;
static std::string canon(std::string const& s) { return std::to_string(s.size()) + ":" + s; }
static std::string canon(S const& v) {
    std::string r = std::to_string(v.size()) + "[";
    for (auto const& s : v) r += canon(s);
    return r;
}
struct Art { int kind; std::string a, b; };
static ArtifactDescription make(Art const& a) {
    switch (a.kind) {
        case 0: return ArtifactDescription::CreateLocal(a.a, a.b);
        case 1: return ArtifactDescription::CreateAction(a.a, a.b);
        case 2: return ArtifactDescription::CreateTree(a.a);
        case 3: return ArtifactDescription::CreateTreeOverlay(a.a);
        default: {
            auto d = *ArtifactDigestFactory::Create(HashFunction::Type::GitSHA1, std::string(40, a.a.empty() ? 'a' : "0123456789abcdef"[(a.a[0] & 15)]), a.a.size(), a.kind == 5);
            return ArtifactDescription::CreateKnown(d, a.kind == 5 ? ObjectType::Tree : a.kind == 6 ? ObjectType::Executable : a.kind == 7 ? ObjectType::Symlink : ObjectType::File);
        }
    }
}
static std::string canon(Art const& a) {
    if (a.kind < 2) return "A" + std::to_string(a.kind) + canon(a.a) + canon(a.b);
    if (a.kind < 4) return "A" + std::to_string(a.kind) + canon(a.a);
    return "A" + std::to_string(a.kind) + std::to_string(a.a.size()) + "," + std::to_string(a.a.empty() ? 10 : (a.a[0] & 15));
}
struct Comp {
    S files, dirs, cmd;
    std::string cwd;
    std::map<std::string, std::string> env, props;
    std::optional<std::string> mf;
    bool nc{};
    double ts{1.0};
    std::map<std::string, Art> in;
    std::string key() const {
        std::string r = canon(files) + canon(dirs) + canon(cmd) + canon(cwd);
        for (auto const* m : {&env, &props}) {
            r += "{" + std::to_string(m->size());
            for (auto const& [k, v] : *m) r += canon(k) + canon(v);
        }
        r += mf ? "some" + canon(*mf) : "none";
        char b[64];
        snprintf(b, sizeof b, "%d %a", nc, ts);
        r += b;
        for (auto const& [k, v] : in) r += canon(k) + canon(v);
        return r;
    }
    std::string show() const {
        auto l = [](S const& v) { std::string r = "["; for (auto const& s : v) r += vh::esc(s) + " "; return r + "]"; };
        auto m = [](auto const& v) { std::string r = "{"; for (auto const& [k, s] : v) r += vh::esc(k) + ": " + vh::esc(s) + " "; return r + "}"; };
        std::string r = "outputs " + l(files) + " output_dirs " + l(dirs) + " command " + l(cmd) + " cwd " + vh::esc(cwd) + " env " + m(env) + " properties " + m(props) + " may_fail " + (mf ? vh::esc(*mf) : "none") + " no_cache " + (nc ? "true" : "false") + " timeout scaling " + std::to_string(ts) + " inputs {";
        for (auto const& [k, v] : in) r += vh::esc(k) + ": " + make(v).ToJson().dump(-1, ' ', false, nlohmann::json::error_handler_t::replace) + " ";
        return r + "}";
    }
};
static ExpressionPtr map_of(std::map<std::string, std::string> const& m) {
    Expression::map_t::underlying_map_t r{};
    for (auto const& [k, v] : m) r.emplace(k, ExpressionPtr{v});
    return ExpressionPtr{Expression::map_t{r}};
}
static ExpressionPtr map_of(std::map<std::string, Art> const& m) {
    Expression::map_t::underlying_map_t r{};
    for (auto const& [k, v] : m) r.emplace(k, ExpressionPtr{make(v)});
    return ExpressionPtr{Expression::map_t{r}};
}
int main(int argc, char** argv) {
    auto a = vh::init(argc, argv);
    vh::Rng g{a.seed * 7919u + 3};
    S strs{"", "a", "b", "ab", "ba", "aa", "out", "a/b", "N", "Y", "ACTION:", "$", "@", "[", "{", "#", "=", "\"", "null", "true", "1", "1.0", "{}", "[]", "\"a\"", "A", "PATH", "\xc3\xa4", " "};
    auto str = [&]() -> std::string { return not vh::g_dict.empty() and g.b(1, 20) ? [&] { auto s = g.of(vh::g_dict); for (auto& c : s) if (c & 0x80) c = 'u'; return s; }() : g.of(strs); };
    auto vec = [&] { S r; for (int n = g.n(4); n > 0; --n) r.push_back(str()); return r; };
    auto smap = [&] { std::map<std::string, std::string> r; for (int n = g.n(4); n > 0; --n) r[str()] = str(); return r; };
    auto art = [&] { return Art{g.n(8), str(), str()}; };
    std::vector<double> scales{0.0, 0.5, 1.0, std::nextafter(1.0, 2.0), std::nextafter(1.0, 0.0), 2.0, 10.0, 100.0, 1e10, 1e-300, 1e300, 1.0 / 3};
    std::unordered_map<std::string, std::pair<std::string, std::string>> ids;   // id -> components
    auto run = [&](Comp const& c) {
        vh::setcase(c.show());
        auto p = BuildMaps::Target::Utils::createAction(c.files, c.dirs, c.cmd, c.cwd, map_of(c.env), c.mf, c.nc, c.ts, map_of(c.props), map_of(c.in));
        auto const& act = p->GraphAction();
        vh::check(p->OutputFiles() == c.files, "output files of the action differ");
        vh::check(p->OutputDirs() == c.dirs, "output directories of the action differ");
        vh::check(act.Command() == c.cmd, "command of the action differs");
        vh::check(act.Cwd() == c.cwd, "working directory of the action differs");
        vh::check(act.Env() == c.env, "environment of the action differs");
        vh::check(act.ExecutionProperties() == c.props, "execution properties of the action differ");
        vh::check(act.MayFail() == c.mf, "may_fail of the action differs");
        vh::check(act.NoCache() == c.nc, "no_cache of the action differs");
        vh::check(act.TimeoutScale() == c.ts, "timeout scaling of the action differs");
        vh::check(not act.IsTreeAction() and not act.IsTreeOverlayAction(), "a command action became a tree action");
        vh::check(p->Inputs().size() == c.in.size(), "number of inputs differs");
        for (auto const& [k, v] : c.in) {
            auto it = p->Inputs().find(k);
            vh::check(it != p->Inputs().end() and it->second == make(v) and it->second.ToJson() == make(v).ToJson(), "input " + vh::esc(k) + " differs");
        }
        auto key = c.key();
        auto [it, fresh] = ids.try_emplace(act.Id(), key, c.show());
        vh::check(fresh or it->second.first == key, "same id " + act.Id() + " as the different action " + it->second.second);
        auto q = BuildMaps::Target::Utils::createAction(c.files, c.dirs, c.cmd, c.cwd, map_of(c.env), c.mf, c.nc, c.ts, map_of(c.props), map_of(c.in));
        vh::check(q->Id() == p->Id(), "two ids for the same action");
        vh::count(key, not c.files.empty() or not c.dirs.empty());
    };
    // values, and an own rendering of them
    std::function<std::string(nlohmann::json const&)> jcanon = [&](nlohmann::json const& j) -> std::string {
        if (j.is_null()) return "null";
        if (j.is_boolean()) return j.get<bool>() ? "true" : "false";
        if (j.is_number()) { char b[64]; snprintf(b, sizeof b, "%a", j.get<double>()); return b; }
        if (j.is_string()) return "s" + canon(j.get<std::string>());
        std::string r = j.is_array() ? "[" : "{";
        for (auto const& e : j.items()) r += (j.is_array() ? "" : canon(e.key())) + jcanon(e.value()) + ",";
        return r + (j.is_array() ? "]" : "}");
    };
    std::function<std::pair<ExpressionPtr, std::string>(int)> val = [&](int d) -> std::pair<ExpressionPtr, std::string> {
        switch (g.n(d > 0 ? 12 : 6)) {
            case 0: return {Expression::FromJson(nlohmann::json{}), "null"};
            case 1: { bool b = g.b(); return {ExpressionPtr{b}, b ? "true" : "false"}; }
            case 2: { double x = scales[g.n(static_cast<int>(scales.size()))]; char b[64]; snprintf(b, sizeof b, "%a", x); return {ExpressionPtr{x}, b}; }
            case 3: case 4: { auto s = str(); return {ExpressionPtr{s}, "s" + canon(s)}; }
            case 5: { auto x = art(); return {ExpressionPtr{make(x)}, canon(x)}; }
            case 6: {
                Expression::list_t l; std::string r = "[";
                for (int n = g.n(3); n > 0; --n) { auto [e, s] = val(d - 1); l.push_back(e); r += s + ","; }
                return {ExpressionPtr{l}, r + "]"};
            }
            case 7: {
                auto [x, sx] = val(d - 1); auto [y, sy] = val(d - 1); auto [z, sz] = val(d - 1);
                return {ExpressionPtr{TargetResult{.artifact_stage = x, .provides = y, .runfiles = z}}, "R" + sx + ";" + sy + ";" + sz + ";"};
            }
            case 8: {
                auto [x, sx] = val(d - 1);
                return {ExpressionPtr{TargetNode{x}}, "V" + sx + ";"};
            }
            case 9: {
                auto t = str(); auto [x, sx] = val(d - 1); auto [y, sy] = val(d - 1);
                return {ExpressionPtr{TargetNode{TargetNode::Abstract{.node_type = t, .string_fields = x, .target_fields = y}}}, "T" + canon(t) + sx + ";" + sy + ";"};
            }
            case 10: {   // what looks like another value
                auto [x, sx] = val(d - 1);
                auto j = x->ToJson();
                return {Expression::FromJson(j), jcanon(j)};
            }
            default: {
                std::map<std::string, std::pair<ExpressionPtr, std::string>> m;
                for (int n = g.n(3); n > 0; --n) m[str()] = val(d - 1);
                Expression::map_t::underlying_map_t u{}; std::string r = "{";
                for (auto const& [k, v] : m) { u.emplace(k, v.first); r += canon(k) + v.second + ","; }
                return {ExpressionPtr{Expression::map_t{u}}, r + "}"};
            }
        }
    };
    std::unordered_map<std::string, std::pair<std::string, std::string>> hashes;
    while (vh::elapsed() < a.secs) {
        Comp c;
        c.files = vec(); c.dirs = vec(); c.cmd = vec(); c.cwd = str(); c.env = smap(); c.props = smap();
        if (g.b(1, 3)) c.mf = str();
        c.nc = g.b(1, 4);
        c.ts = scales[g.n(static_cast<int>(scales.size()))];
        for (int n = g.n(3); n > 0; --n) c.in[str()] = art();
        run(c);
        // neighbours
        for (int k = 0; k < 6; ++k) {
            auto d = c;
            switch (g.n(16)) {
                case 0: if (not d.files.empty()) { d.dirs.insert(d.dirs.begin(), d.files.back()); d.files.pop_back(); } break;
                case 1: if (not d.dirs.empty()) { d.cmd.insert(d.cmd.begin(), d.dirs.back()); d.dirs.pop_back(); } break;
                case 2: std::swap(d.files, d.dirs); break;
                case 3: std::swap(d.env, d.props); break;
                case 4: d.mf = d.mf ? std::optional<std::string>{} : std::optional<std::string>{""}; break;
                case 5: d.nc = not d.nc; break;
                case 6: d.ts = std::nextafter(d.ts, 5e300); break;
                case 7: if (d.cmd.size() > 1) { d.cmd[0] += d.cmd[1]; d.cmd.erase(d.cmd.begin() + 1); } break;
                case 8: d.cmd.push_back(""); break;
                case 9: std::reverse(d.cmd.begin(), d.cmd.end()); break;
                case 10: if (not d.env.empty()) { auto [x, y] = *d.env.begin(); d.env.erase(x); d.env[y] = x; } break;
                case 11: d.cwd = d.cwd == "." ? "" : d.cwd == "" ? "." : d.cwd + "/"; break;
                case 12: if (not d.in.empty()) { auto& x = d.in.begin()->second; if (g.b()) x.kind = g.n(8); else std::swap(x.a, x.b); } break;
                case 13: if (d.in.size() > 1) std::swap(d.in.begin()->second, d.in.rbegin()->second); break;
                case 14: d.dirs = d.files; break;
                default: d.files.push_back(str()); std::rotate(d.files.begin(), d.files.begin() + 1, d.files.end());
            }
            run(d);
            run(c);
        }
        // values that are not strings or not artifacts are no action
        if (g.b(1, 5)) {
            int which = g.n(3);
            auto [e, s] = val(1);
            if (which == 2 ? not e->IsArtifact() : not e->IsString()) {
                vh::setcase("action with the value " + s + (which == 0 ? " in its environment" : which == 1 ? " in its execution properties" : " as input"));
                auto bad = ExpressionPtr{Expression::map_t{str(), e}};
                bool threw = false;
                try {
                    (void)BuildMaps::Target::Utils::createAction(c.files, c.dirs, c.cmd, c.cwd, which == 0 ? bad : map_of(c.env), c.mf, c.nc, c.ts, which == 1 ? bad : map_of(c.props), which == 2 ? bad : map_of(c.in));
                } catch (...) { threw = true; }
                vh::check(threw, "an action with a value of the wrong kind is created");
            }
        }
        for (int k = 0; k < 20; ++k) {
            auto [e, s] = val(2);
            vh::setcase("value " + e->ToJson().dump(-1, ' ', false, nlohmann::json::error_handler_t::replace));
            auto [it, fresh] = hashes.try_emplace(e->ToHash(), s, vh::g_case);
            vh::check(fresh or it->second.first == s, "same hash as the different " + it->second.second);
            auto [f, t] = val(1);
            auto [e2, s2] = val(1);
            vh::check((f == e2) == (t == s2), std::string("values ") + f->ToString() + " and " + e2->ToString() + ((t == s2) ? " are the same but differ" : " compare equal"));
        }
        // nodes and results
        auto hash = [](ExpressionPtr const& e) { return e->ToHash(); };
        for (int k = 0; k < 20; ++k) {
            auto pick = [&] { auto [x, sx] = val(g.n(2)); return std::pair{x, sx}; };
            std::vector<std::pair<ExpressionPtr, std::string>> xs{pick(), pick(), pick()};
            if (g.b(1, 3)) { auto j = xs[0].first->ToJson(); xs[1] = {Expression::FromJson(j), jcanon(j)}; }
            auto of = [&]() -> auto const& { return xs[g.n(3)]; };
            auto const &a1 = of(), &a2 = of(), &a3 = of(), &b1 = of(), &b2 = of(), &b3 = of();
            auto t = str(), u = g.b(1, 4) ? str() : t;
            vh::setcase("nodes and results of " + a1.first->ToString() + ", " + a2.first->ToString() + ", " + a3.first->ToString() + " and of " + b1.first->ToString() + ", " + b2.first->ToString() + ", " + b3.first->ToString());
            TargetNode n1{TargetNode::Abstract{.node_type = t, .string_fields = a1.first, .target_fields = a2.first}}, n2{TargetNode::Abstract{.node_type = u, .string_fields = b1.first, .target_fields = b2.first}};
            bool eq = t == u and a1.second == b1.second and a2.second == b2.second;
            vh::check((n1 == n2) == eq and (ExpressionPtr{n1} == ExpressionPtr{n2}) == eq and (hash(ExpressionPtr{n1}) == hash(ExpressionPtr{n2})) == eq, std::string("abstract nodes of type ") + vh::esc(t) + " and " + vh::esc(u) + (eq ? " are the same but differ" : " differ but compare equal or have the same hash"));
            TargetNode v1{a1.first}, v2{b1.first};
            eq = a1.second == b1.second;
            vh::check((v1 == v2) == eq and (hash(ExpressionPtr{v1}) == hash(ExpressionPtr{v2})) == eq and not(v1 == n2) and not(n1 == v2) and hash(ExpressionPtr{v1}) != hash(ExpressionPtr{n2}), eq ? "value nodes are the same but differ" : "value nodes differ but compare equal or have the same hash");
            TargetResult r1{.artifact_stage = a1.first, .provides = a2.first, .runfiles = a3.first}, r2{.artifact_stage = b1.first, .provides = b2.first, .runfiles = b3.first};
            eq = a1.second == b1.second and a2.second == b2.second and a3.second == b3.second;
            vh::check((r1 == r2) == eq and (ExpressionPtr{r1} == ExpressionPtr{r2}) == eq and (hash(ExpressionPtr{r1}) == hash(ExpressionPtr{r2})) == eq, eq ? "results are the same but differ" : "results differ but compare equal or have the same hash");
        }
        // keys that contain hashes
        {
            auto [x, sx] = val(1);
            auto [y, sy] = val(1);
            auto k = str(), l = k + "z" + str();
            Expression::map_t::underlying_map_t m{};
            m.emplace(k, x);
            m.emplace(l, y);
            vh::setcase("map of two keys and map of one key that contains a hash");
            auto two = ExpressionPtr{Expression::map_t{m}};
            for (auto const& h : {x->ToHash(), x->ToIdentifier()}) {
                auto one = ExpressionPtr{Expression::map_t{k + h + l, y}};
                auto lst = ExpressionPtr{Expression::list_t{ExpressionPtr{k + x->ToIdentifier()}, y}};
                vh::check(not(one == two) and one->ToHash() != two->ToHash() and lst->ToHash() != two->ToHash(), "{" + vh::esc(k) + ": X, " + vh::esc(l) + ": Y} has the hash of {" + vh::esc(k) + " + hash of X + " + vh::esc(l) + ": Y}, for X = " + sx + ", Y = " + sy);
            }
        }
        if (ids.size() > 400000) ids.clear();
        if (hashes.size() > 400000) hashes.clear();
    }
    vh::stats();
    return 0;
}
