// Bounded conformance harness: values of the expression language: JSON, access, cacheability.
#include "common.hpp"

#include "src/buildtool/build_engine/expression/evaluator.hpp"
#include "src/buildtool/build_engine/expression/expression.hpp"
#include "src/buildtool/build_engine/base_maps/entity_name_data.hpp"
#include "src/buildtool/build_engine/expression/target_node.hpp"
#include "src/buildtool/build_engine/expression/target_result.hpp"

using J = nlohmann::json;
using Mode = Expression::JsonMode;
static std::string show(J const& j) { return j.dump(-1, ' ', false, J::error_handler_t::replace); }
// e is the value with exactly the content of j
static bool same(ExpressionPtr const& e, J const& j) {
    if (not e) return false;
    int kinds = e->IsNone() + e->IsBool() + e->IsNumber() + e->IsString() + e->IsList() + e->IsMap() + e->IsArtifact() + e->IsResult() + e->IsNode() + e->IsName();
    if (kinds != 1) return false;
    switch (j.type()) {
        case J::value_t::null: return e->IsNone();
        case J::value_t::boolean: return e->IsBool() and e->Bool() == j.get<bool>();
        case J::value_t::string: return e->IsString() and e->String() == j.get<std::string>();
        case J::value_t::array: {
            if (not e->IsList() or e->List().size() != j.size()) return false;
            for (std::size_t i = 0; i < j.size(); ++i) {
                if (not same(e->List()[i], j[i])) return false;
            }
            return true;
        }
        case J::value_t::object: {
            if (not e->IsMap() or e->Map().size() != j.size()) return false;
            for (auto it = j.begin(); it != j.end(); ++it) {
                auto v = e->Map().Find(it.key());
                if (not v or not same(**v, it.value())) return false;
            }
            return true;
        }
        default: return e->IsNumber() and e->Number() == j.get<double>();
    }
}
int main(int argc, char** argv) {
    auto a = vh::init(argc, argv);
    vh::Rng g{a.seed * 104729u + 11};
    std::vector<std::string> strs{"", "a", "b", "c", "ab", "type", "id", "NODE", "null", "true", "1", "0", "{}", "[]", "\"", "\\", "\n", "\xc3\xa4", "/", std::string("\0", 1), "$1", "artifact_stage", "runfiles", "provides"};
    auto str = [&]() -> std::string {
        if (not vh::g_dict.empty() and g.b(1, 12)) { auto s = g.of(vh::g_dict); for (auto& c : s) if (c & 0x80) c = 'u'; return s; }
        return g.of(strs);
    };
    std::vector<double> nums{0.0, 1.0, -1.0, 2.0, 0.5, 1e10, 4294967296.0, 9007199254740992.0, -0.25, 3.0};
    std::function<J(int)> gen = [&](int d) -> J {
        switch (g.n(d > 0 ? 9 : 6)) {
            case 0: return nullptr;
            case 1: return g.b();
            case 2: return nums[g.n(static_cast<int>(nums.size()))];
            case 3: return static_cast<int>(g.n(7)) - 3;
            case 4: case 5: return str();
            case 6: case 7: { J l = J::array(); for (int n = g.n(4); n > 0; --n) l.push_back(gen(d - 1)); return l; }
            default: { J m = J::object(); for (int n = g.n(4); n > 0; --n) m[str()] = gen(d - 1); return m; }
        }
    };
    // a value, whether it is cacheable, and its JSON with null for what is not JSON
    struct V { ExpressionPtr e; bool c; J j; };
    std::function<V(int)> val = [&](int d) -> V {
        switch (g.n(d > 0 ? 12 : 6)) {
            case 0: { auto j = gen(0); return {Expression::FromJson(j), true, j}; }
            case 1: { auto s = str(); return {ExpressionPtr{s}, true, s}; }
            case 2: return {ExpressionPtr{ArtifactDescription::CreateTree(str())}, true, nullptr};
            case 3: if (g.b(1, 2)) { auto s = str(); return {ExpressionPtr{s}, true, s}; } [[fallthrough]];
            case 4: if (g.b(1, 3)) return {ExpressionPtr{Expression::name_t{BuildMaps::Base::EntityName{str(), str(), str()}}}, false, nullptr}; [[fallthrough]];
            case 5: { double x = nums[g.n(static_cast<int>(nums.size()))]; return {ExpressionPtr{x}, true, x}; }
            case 6: case 7: case 8: {
                Expression::list_t l; bool c = true; J j = J::array();
                for (int n = g.n(4); n > 0; --n) { auto v = val(d - 1); l.push_back(v.e); c = c and v.c; j.push_back(v.j); }
                return {ExpressionPtr{l}, c, j};
            }
            case 9: {
                auto x = val(d - 1), y = val(d - 1), z = val(d - 1);
                return {ExpressionPtr{TargetResult{.artifact_stage = x.e, .provides = y.e, .runfiles = z.e}}, y.c, nullptr};
            }
            case 10: {
                auto x = val(d - 1), y = val(d - 1);
                if (g.b()) return {ExpressionPtr{TargetNode{x.e}}, x.c, nullptr};
                return {ExpressionPtr{TargetNode{TargetNode::Abstract{.node_type = str(), .string_fields = x.e, .target_fields = y.e}}}, y.c, nullptr};
            }
            default: {
                std::map<std::string, V> m; J j = J::object(); bool c = true;
                for (int n = g.n(4); n > 0; --n) m[str()] = val(d - 1);
                Expression::map_t::underlying_map_t u{};
                for (auto const& [k, v] : m) { u.emplace(k, v.e); j[k] = v.j; c = c and v.c; }
                return {ExpressionPtr{Expression::map_t{u}}, c, j};
            }
        }
    };
    auto throws = [](auto f) { try { f(); } catch (Expression::ExpressionTypeError const&) { return true; } return false; };
    while (vh::elapsed() < a.secs) {
        auto j = gen(4);
        vh::setcase("JSON " + show(j));
        auto e = Expression::FromJson(j);
        vh::check(same(e, j), "the value of the JSON " + show(j) + " has a different content: " + (e ? e->ToString() : std::string{"nullptr"}));
        for (auto m : {Mode::SerializeAll, Mode::SerializeAllButNodes, Mode::NullForNonJson}) {
            auto k = e->ToJson(m);
            vh::check(k == j and k.type() == j.type() or (k == j and k.is_number() and j.is_number()), "converted back, the JSON " + show(j) + " became " + show(k));
        }
        vh::check(e->IsCacheable(), "a JSON value is not cacheable: " + show(j));
        vh::check(not throws([&] { (void)e->ToHash(); }), "hash of a JSON value fails");
        // access
        auto k = str();
        std::size_t p = g.n(5);
        if (j.is_object()) {
            bool has = j.contains(k);
            auto at = e->At(k);
            vh::check(at.has_value() == has and (not has or same(at->get(), j[k])), "At(" + vh::esc(k) + ") of " + show(j) + " is wrong");
            auto dflt = ExpressionPtr{std::string{"default"}};
            auto got = e->Get(k, dflt);
            vh::check(has ? same(got, j[k]) : got == dflt, "Get(" + vh::esc(k) + ") of " + show(j) + " is wrong");
            auto got2 = e->Get(k, std::string{"default"});
            vh::check(has ? same(got2, j[k]) : got2 == dflt, "Get(" + vh::esc(k) + ") of " + show(j) + " is wrong");
            if (has) {
                vh::check(same((*e)[k], j[k]) and same(e[k], j[k]) and same((*e)[ExpressionPtr{k}], j[k]), "[" + vh::esc(k) + "] of " + show(j) + " is wrong");
                vh::check(same(Expression::FromJson(j)[k], j[k]), "[" + vh::esc(k) + "] of a temporary " + show(j) + " is wrong");
            }
            else {
                vh::check(throws([&] { (void)(*e)[k]; }) and throws([&] { (void)e[ExpressionPtr{k}]; }) and throws([&] { (void)Expression::FromJson(j)[k]; }), "[" + vh::esc(k) + "] of " + show(j) + " is no error");
            }
        }
        else {
            vh::check(throws([&] { (void)e->At(k); }) and throws([&] { (void)(*e)[k]; }), "[" + vh::esc(k) + "] of the non-map " + show(j) + " is no error");
        }
        if (j.is_array() and p < j.size()) {
            vh::check(same((*e)[p], j[p]) and same(e[p], j[p]) and same(Expression::FromJson(j)[p], j[p]), "[" + std::to_string(p) + "] of " + show(j) + " is wrong");
        }
        else {
            vh::check(throws([&] { (void)(*e)[p]; }) and throws([&] { (void)Expression::FromJson(j)[p]; }), "[" + std::to_string(p) + "] of " + show(j) + " is no error");
        }
        vh::count(show(j), j.is_structured());
        auto v = val(4);
        auto s = v.e->ToString();
        vh::setcase("value " + s);
        vh::check(v.e->IsCacheable() == v.c and v.e.IsCacheable() == v.c, std::string{"the value is taken for "} + (v.c ? "non-" : "") + "cacheable: " + s);
        vh::check(v.e->IsCacheable() == v.c, "cacheability changes: " + s);
        auto n = v.e->ToJson(Mode::NullForNonJson);
        vh::check(n == v.j, "JSON with null for what is not JSON is " + show(n) + " and not " + show(v.j));
        vh::count(s, not v.c);
    }
    vh::stats();
    return 0;
}
