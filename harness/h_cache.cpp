// Bounded conformance harness: what is stored in the target cache for a target result and read back.
#include "common.hpp"

#include "src/buildtool/build_engine/expression/expression.hpp"
#include "src/buildtool/build_engine/expression/target_node.hpp"
#include "src/buildtool/build_engine/expression/target_result.hpp"
#include "src/buildtool/common/artifact_digest_factory.hpp"

using J = nlohmann::json;
using Repl = std::unordered_map<ArtifactDescription, Artifact::ObjectInfo>;
static std::string show(J const& j) { return j.dump(-1, ' ', false, J::error_handler_t::replace); }
// an independent description of a value: its kind and its parts
static J desc(ExpressionPtr const& e) {
    if (not e) return {"nullptr"};
    if (e->IsNone()) return {"none"};
    if (e->IsBool()) return {"bool", e->Bool()};
    if (e->IsNumber()) return {"num", e->Number()};
    if (e->IsString()) return {"str", e->String()};
    if (e->IsArtifact()) return {"art", e->Artifact().ToJson()};
    if (e->IsList()) {
        J l = J::array();
        for (auto const& x : e->List()) l.push_back(desc(x));
        return {"list", l};
    }
    if (e->IsMap()) {
        J l = J::array();
        for (auto const& [k, v] : e->Map().Items()) l.push_back(J::array({k, desc(v)}));
        return {"map", l};
    }
    if (e->IsResult()) return {"result", desc(e->Result().artifact_stage), desc(e->Result().runfiles), desc(e->Result().provides)};
    if (e->IsNode()) {
        if (e->Node().IsValue()) return {"value node", desc(e->Node().GetValue())};
        auto const& a = e->Node().GetAbstract();
        return {"abstract node", a.node_type, desc(a.string_fields), desc(a.target_fields)};
    }
    return {"other"};
}
// the same value with its artifacts replaced
static J replace(J const& d, std::map<std::string, J> const& m) {
    std::string k = d[0];
    if (k == "list") {
        J l = J::array();
        for (auto const& x : d[1]) l.push_back(replace(x, m));
        return {"list", l};
    }
    if (k == "map") {
        J l = J::array();
        for (auto const& x : d[1]) l.push_back(J::array({x[0], replace(x[1], m)}));
        return {"map", l};
    }
    if (k == "result") return {k, replace(d[1], m), replace(d[2], m), replace(d[3], m)};
    if (k == "value node") return {k, replace(d[1], m)};
    if (k == "abstract node") return {k, d[1], replace(d[2], m), replace(d[3], m)};
    if (k == "art") {
        auto it = m.find(d[1].dump());
        return it == m.end() ? d : J::array({"art", it->second});
    }
    return d;
}
// all values in a value, and all artifacts
static void collect(J const& d, std::set<std::string>* all, std::set<std::string>* arts) {
    all->insert(d.dump());
    std::string k = d[0];
    if (k == "art") arts->insert(d[1].dump());
    if (k == "list") for (auto const& x : d[1]) collect(x, all, arts);
    if (k == "map") for (auto const& x : d[1]) collect(x[1], all, arts);
    if (k == "result") for (int i : {1, 2, 3}) collect(d[i], all, arts);
    if (k == "value node") collect(d[1], all, arts);
    if (k == "abstract node") for (int i : {2, 3}) collect(d[i], all, arts);
}
int main(int argc, char** argv) {
    auto a = vh::init(argc, argv);
    vh::Rng g{a.seed * 15485863u + 3};
    std::vector<std::string> strs{"", "a", "b", "c", "x/y", "type", "id", "node_type", "result", "VALUE_NODE", "ABSTRACT_NODE", "KNOWN", "LOCAL", "data", "path", "file_type", "f", "x", "artifact_stage", "runfiles", "provides", "string_fields", "target_fields", "entry", "nodes", "null", "0", "\n", "\xc3\xa4", "$1", ".", "..", "/"};
    auto str = [&]() -> std::string {
        if (not vh::g_dict.empty() and g.b(1, 10)) return g.of(vh::g_dict);
        return g.of(strs);
    };
    while (vh::elapsed() < a.secs) {
        auto type = g.b() ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256;
        auto digest = [&](bool tree) {
            std::string h(type == HashFunction::Type::GitSHA1 ? 40 : 64, "0123456789abcdef"[g.n(4)]);
            h[g.n(static_cast<int>(h.size()))] = "0123456789abcdef"[g.n(16)];
            return *ArtifactDigestFactory::Create(type, h, static_cast<std::size_t>(g.n(3) * 1000), tree);
        };
        auto object = [&] { return std::vector<ObjectType>{ObjectType::File, ObjectType::Executable, ObjectType::Symlink, ObjectType::Tree}[g.n(type == HashFunction::Type::GitSHA1 ? 4 : 3)]; };
        std::vector<ArtifactDescription> arts;
        for (int n = 1 + g.n(6); n > 0; --n) {
            switch (g.n(6)) {
                case 0: case 1: { auto t = object(); arts.push_back(ArtifactDescription::CreateKnown(digest(t == ObjectType::Tree), t)); break; }
                case 2: arts.push_back(ArtifactDescription::CreateLocal(str(), str())); break;
                case 3: arts.push_back(ArtifactDescription::CreateTree(str())); break;
                case 4: arts.push_back(ArtifactDescription::CreateTreeOverlay(str())); break;
                default: arts.push_back(ArtifactDescription::CreateAction(str(), str())); break;
            }
        }
        std::vector<ExpressionPtr> pool;
        std::function<ExpressionPtr(int)> val = [&](int d) -> ExpressionPtr {
            auto rest = [&]() -> ExpressionPtr {
                switch (g.n(d > 0 ? 17 : 9)) {
                    case 0: return Expression::FromJson(nullptr);
                    case 1: return ExpressionPtr{g.b()};
                    case 2: return ExpressionPtr{std::vector<double>{0, 1, -1, 0.5, 1e10}[g.n(5)]};
                    case 3: case 4: return ExpressionPtr{str()};
                    case 5: case 6: case 7: return ExpressionPtr{g.of(arts)};
                    case 8: return Expression::FromJson(g.of(arts).ToJson());  // a map that looks like an artifact
                    case 9: case 10: case 11: {
                        Expression::list_t l;
                        for (int n = g.n(4); n > 0; --n) l.push_back(val(d - 1));
                        return ExpressionPtr{l};
                    }
                    case 12: return ExpressionPtr{TargetResult{.artifact_stage = val(d - 1), .provides = val(d - 1), .runfiles = val(d - 1)}};
                    case 13: return ExpressionPtr{TargetNode{val(d - 1)}};
                    case 14: return ExpressionPtr{TargetNode{TargetNode::Abstract{.node_type = str(), .string_fields = val(d - 1), .target_fields = val(d - 1)}}};
                    case 15: if (g.b()) {  // a map that looks like what is stored for a result or a node
                        auto p = val(d - 1), q = val(d - 1);
                        auto x = ExpressionPtr{p->ToIdentifier()}, y = ExpressionPtr{q->ToIdentifier()};
                        if (g.b()) return ExpressionPtr{Expression::map_t{Expression::map_t::underlying_map_t{{"artifact_stage", x}, {"runfiles", y}, {"provides", x}}}};
                        return ExpressionPtr{Expression::map_t{Expression::map_t::underlying_map_t{{"type", ExpressionPtr{std::string{"VALUE_NODE"}}}, {"result", y}}}};
                    } [[fallthrough]];
                    default: {
                        Expression::map_t::underlying_map_t u{};
                        for (int n = g.n(4); n > 0; --n) u.insert_or_assign(str(), val(d - 1));
                        return ExpressionPtr{Expression::map_t{u}};
                    }
                }
            };
            auto e = not pool.empty() and g.b(1, 4) ? g.of(pool) : rest();
            pool.push_back(e);
            return e;
        };
        auto stage = [&] {
            Expression::map_t::underlying_map_t u{};
            for (int n = g.n(5); n > 0; --n) u.insert_or_assign(str(), ExpressionPtr{g.of(arts)});
            return ExpressionPtr{Expression::map_t{u}};
        };
        TargetResult r{.artifact_stage = stage(), .provides = val(5), .runfiles = stage()};
        auto ds = desc(r.artifact_stage), dr = desc(r.runfiles), dp = desc(r.provides);
        std::set<std::string> all, used, none;
        collect(dp, &all, &used);
        collect(ds, &none, &used);
        collect(dr, &none, &used);
        // what is known about the artifacts
        Repl repl;
        std::set<std::string> seen;
        std::map<std::string, J> by;
        bool missing = false;
        int mode = g.n(5);  // 0: no replacements at all
        for (auto const& x : arts) {
            auto key = x.ToJson().dump();
            if (mode == 0 or not seen.insert(key).second) continue;
            if (x.IsKnown() and g.b(2, 3)) continue;
            if (not x.IsKnown() and mode == 1 and g.b(1, 4)) {
                missing = missing or used.contains(key);
                continue;
            }
            auto t = object();
            Artifact::ObjectInfo i{.digest = digest(t == ObjectType::Tree), .type = t, .failed = g.b(1, 8)};
            repl.emplace(x, i);
            if (not x.IsKnown()) by[key] = ArtifactDescription::CreateKnown(i.digest, i.type).ToJson();
        }
        if (repl.empty()) {
            missing = false;
            by.clear();
        }
        J rj = J::array();
        for (auto const& [k, v] : repl) rj.push_back(J::array({k.ToJson(), v.ToJson()}));
        std::string what = "target result {artifacts: " + show(ds) + ", runfiles: " + show(dr) + ", provides: " + show(dp) + "}, replacements " + show(rj);
        vh::setcase(what);
        auto back = [&](J const& json, std::string const& how, bool replaced) {
            auto text = json.dump();
            auto res = TargetResult::FromJson(type, J::parse(text));
            vh::check(res.has_value(), "what is stored " + how + " cannot be read back: " + text + " for the " + what);
            std::map<std::string, J> m{};
            if (replaced) m = by;
            vh::check(desc(res->artifact_stage) == replace(ds, m), "read back, the artifacts stored " + how + " are " + show(desc(res->artifact_stage)) + " for the " + what);
            vh::check(desc(res->runfiles) == replace(dr, m), "read back, the runfiles stored " + how + " are " + show(desc(res->runfiles)) + " for the " + what);
            vh::check(desc(res->provides) == replace(dp, m), "read back, the provided values stored " + how + " are " + show(desc(res->provides)) + " for the " + what);
            vh::check(res->is_cacheable == res->provides->IsCacheable() and res->is_cacheable, "the result read back is not cacheable: " + what);
            vh::check(json["provides"]["nodes"].size() == all.size(), "not every different provided value is stored exactly once (" + std::to_string(json["provides"]["nodes"].size()) + " for " + std::to_string(all.size()) + ") for the " + what);
        };
        back(r.ToJson(), "by ToJson", false);
        auto rep = r.ReplaceNonKnownAndToJson(repl);
        if (missing) {
            vh::check(not rep.has_value(), "although a replacement is missing, something is stored for the " + what);
        }
        else {
            vh::check(rep.has_value(), "nothing is stored for the " + what);
            back(*rep, "with replacements", true);
        }
        vh::count(what, all.size() > 3);
    }
    vh::stats();
    return 0;
}
