// Bounded conformance harness: artifact descriptions and their JSON.
#include "common.hpp"

#include "src/buildtool/common/artifact_description.hpp"
#include "src/buildtool/common/artifact_digest_factory.hpp"

using nlohmann::json;
static HashFunction::Type const kTypes[] = {HashFunction::Type::GitSHA1, HashFunction::Type::PlainSHA256};
static bool hexs(std::string const& s) {
    for (unsigned char c : s) if (not((c >= '0' and c <= '9') or (c >= 'a' and c <= 'f') or (c >= 'A' and c <= 'F'))) return false;
    return true;
}
static bool good_hash(int t, std::string const& h) { return h.size() == (t == 0 ? 40U : 64U) and hexs(h); }
struct Desc {
    int kind{};   // 0 local, 1 action, 2 tree, 3 overlay, 4 known
    std::string a, b;
    std::size_t size{};
    int type{};   // 0 file, 1 executable, 2 tree, 3 symlink
    std::string key() const {
        return std::to_string(kind) + ":" + std::to_string(a.size()) + ":" + a + (kind < 2 ? ":" + b : "") + (kind == 4 ? ":" + std::to_string(size) + ":" + std::to_string(type) : "");
    }
    json js() const {
        switch (kind) {
            case 0: return json{{"type", "LOCAL"}, {"data", json{{"path", a}, {"repository", b}}}};
            case 1: return json{{"type", "ACTION"}, {"data", json{{"id", a}, {"path", b}}}};
            case 2: { auto d = json::object(); d["id"] = a; auto j = json::object(); j["type"] = "TREE"; j["data"] = d; return j; }
            case 3: { auto d = json::object(); d["id"] = a; auto j = json::object(); j["type"] = "TREE_OVERLAY"; j["data"] = d; return j; }
            default: return json{{"type", "KNOWN"}, {"data", json{{"id", a}, {"size", size}, {"file_type", std::string(1, "fxtl"[type])}}}};
        }
    }
};
static ObjectType otype(int t) { return t == 0 ? ObjectType::File : t == 1 ? ObjectType::Executable : t == 2 ? ObjectType::Tree : ObjectType::Symlink; }
static ArtifactDescription make(int ht, Desc const& d, std::optional<std::string> const& repo = std::nullopt) {
    switch (d.kind) {
        case 0: return ArtifactDescription::CreateLocal(d.a, d.b);
        case 1: return ArtifactDescription::CreateAction(d.a, d.b);
        case 2: return ArtifactDescription::CreateTree(d.a);
        case 3: return ArtifactDescription::CreateTreeOverlay(d.a);
        default: return ArtifactDescription::CreateKnown(*ArtifactDigestFactory::Create(kTypes[ht], d.a, d.size, d.type == 2), otype(d.type), repo);
    }
}
// what a JSON value is read as
static std::optional<Desc> parse(int ht, json const& j) {
    auto str = [](json const& o, char const* k) -> std::optional<std::string> {
        if (not o.is_object() or not o.contains(k) or not o[k].is_string()) return std::nullopt;
        return o[k].get<std::string>();
    };
    auto t = str(j, "type");
    if (not t or not j.contains("data")) return std::nullopt;
    auto const& d = j["data"];
    Desc r;
    auto set = [&](int k, std::optional<std::string> a, std::optional<std::string> b) -> std::optional<Desc> {
        if (not a or not b) return std::nullopt;
        r.kind = k; r.a = *a; r.b = *b;
        return r;
    };
    if (*t == "LOCAL") return set(0, str(d, "path"), str(d, "repository"));
    if (*t == "ACTION") return set(1, str(d, "id"), str(d, "path"));
    if (*t == "TREE") return set(2, str(d, "id"), "");
    if (*t == "TREE_OVERLAY") return set(3, str(d, "id"), "");
    if (*t == "KNOWN") {
        auto h = str(d, "id"), c = str(d, "file_type");
        if (not h or not c or c->size() != 1 or not good_hash(ht, *h) or not d.contains("size") or not d["size"].is_number_unsigned()) return std::nullopt;
        r.kind = 4; r.a = *h; r.size = d["size"].get<std::size_t>();
        r.type = *c == "x" ? 1 : *c == "t" ? 2 : *c == "l" ? 3 : 0;
        return r;
    }
    return std::nullopt;
}
int main(int argc, char** argv) {
    auto args = vh::init(argc, argv);
    vh::Rng g{args.seed * 7919u + 11};
    std::vector<std::string> strs{"", "a", "b", "ab", "a/b", "../a", "/", ".", "LOCAL", "KNOWN", "ACTION", "TREE", "TREE_OVERLAY", "type", "data", "id", "path", "repository", "size", "file_type", "f", "x", "t", "l", "\"", "\\", "{}", "null", "0", "\xc3\xa4", "repo@1", std::string(40, 'a'), std::string(64, '0')};
    auto str = [&]() -> std::string { return not vh::g_dict.empty() and g.b(1, 8) ? g.of(vh::g_dict) : g.of(strs); };
    auto hash = [&](int ht) {
        static char const* low = "0123456789abcdefABCDEF";
        std::string s(ht == 0 ? 40 : 64, "0123456789abcdef"[g.n(16)]);
        for (int k = g.n(4); k > 0; --k) s[g.n(static_cast<int>(s.size()))] = low[g.n(22)];
        return s;
    };
    std::vector<std::size_t> sizes{0, 1, 10, 255, 256, 4096, 65535, 2147483647ULL, 2147483648ULL, 4294967295ULL, 4294967296ULL, 9007199254740993ULL, 9223372036854775807ULL, 9223372036854775808ULL, 18446744073709551615ULL};
    auto desc = [&](int ht) {
        Desc d;
        d.kind = g.n(6);
        if (d.kind >= 4) {
            d.kind = 4; d.a = hash(ht); d.size = sizes[g.n(static_cast<int>(sizes.size()))]; d.type = g.n(4);
        }
        else {
            d.a = str();
            if (d.kind < 2) d.b = str();
        }
        return d;
    };
    auto same = [&](ArtifactDescription const& x, int ht, Desc const& d, char const* what) {
        auto j = x.ToJson();
        vh::check(j == d.js() and j.dump() == d.js().dump(), std::string(what) + " has the JSON " + j.dump() + " instead of " + d.js().dump());
        vh::check(x.IsKnown() == (d.kind == 4) and x.IsTree() == (d.kind == 2) and x.IsTreeOverlay() == (d.kind == 3), std::string(what) + " is of another kind");
        auto art = x.ToArtifact();
        vh::check(art.Id() == x.Id(), std::string(what) + ": artifact of another id");
        vh::check(art.FilePath() == (d.kind == 0 ? std::optional<std::filesystem::path>{d.a} : std::nullopt), std::string(what) + ": artifact of another path");
        if (d.kind == 0) vh::check(art.Repository() == d.b, std::string(what) + ": artifact of another repository");
        auto info = art.Info();
        vh::check(info.has_value() == (d.kind == 4), std::string(what) + ": known artifacts have a digest");
        if (info) {
            vh::check(info->digest.hash() == d.a and info->digest.size() == d.size and info->type == otype(d.type), std::string(what) + " has another hash, size or file type");
            vh::check(info->digest.IsTree() == (d.type == 2 and ht == 0) and info->digest.GetHashType() == kTypes[ht], std::string(what) + " has a digest of another kind");
        }
    };
    std::unordered_map<std::string, std::string> ids;
    while (vh::elapsed() < args.secs) {
        int ht = g.n(2);
        auto d = desc(ht);
        vh::setcase("artifact " + d.js().dump() + (ht == 0 ? " (git)" : " (sha256)"));
        vh::count(d.key());
        auto x = make(ht, d);
        same(x, ht, d, "the artifact created");
        auto y = ArtifactDescription::FromJson(kTypes[ht], x.ToJson());
        vh::check(y.has_value(), "the JSON of an artifact is rejected");
        same(*y, ht, d, "the artifact read back");
        vh::check(*y == x and y->Id() == x.Id() and not(*y != x), "the artifact read back differs");
        if (d.kind == 4) vh::check(make(ht, d, str()) == x, "a known artifact depends on the repository");
        auto [it, fresh] = ids.try_emplace(x.Id(), d.key());
        vh::check(fresh or it->second == d.key(), "same id as the different artifact " + it->second);
        // neighbours
        for (int k = 0; k < 4; ++k) {
            auto e = d;
            switch (g.n(6)) {
                case 0: e.kind = d.kind == 4 ? 4 : g.n(4); if (e.kind > 1) e.b.clear(); break;
                case 1: if (d.kind < 2) std::swap(e.a, e.b); break;
                case 2: if (d.kind < 4) e.a = str(); else e.size = sizes[g.n(static_cast<int>(sizes.size()))]; break;
                case 3: if (d.kind < 2) e.b = str(); break;
                case 4: if (d.kind == 4) e.type = g.n(4); break;
                default: if (d.kind == 4) e.a = hash(ht);
            }
            auto z = make(ht, e);
            bool eq = e.key() == d.key();
            vh::check((z == x) == eq and (z.Id() == x.Id()) == eq and (z.ToJson() == x.ToJson()) == eq, std::string(eq ? "the same artifacts differ: " : "equal to the different artifact ") + e.js().dump());
        }
        // other JSON
        auto j = d.js();
        for (int n = 1 + g.n(2); n > 0; --n) {
            std::vector<std::string> keys;
            auto& o = g.b(1, 3) or not j.is_object() or not j.contains("data") or not j["data"].is_object() ? j : j["data"];
            if (not o.is_object() or o.empty()) break;
            for (auto const& e : o.items()) keys.push_back(e.key());
            auto k = g.of(keys);
            switch (g.n(9)) {
                case 0: o.erase(k); break;
                case 1: o[k] = nullptr; break;
                case 2: if (k != "size") o[k] = 1; break;
                case 3: o[k] = str(); break;
                case 4: o[k] = json::array({o[k]}); break;
                case 5: o[k] = json::object(); break;
                case 6: if (o[k].is_string()) { auto s = o[k].get<std::string>(); if (not s.empty()) { int p = g.n(static_cast<int>(s.size())); if (static_cast<unsigned char>(s[p]) < 128) s[p] = "gGzZ @`/:f0"[g.n(11)]; } o[k] = s; } break;
                case 7: if (o[k].is_string()) { auto s = o[k].get<std::string>(); if (g.b()) s += "0"; else if (not s.empty() and static_cast<unsigned char>(s.back()) < 128) s.pop_back(); o[k] = s; } break;
                default: o[str()] = str();
            }
        }
        int hu = g.b(1, 4) ? 1 - ht : ht;
        vh::setcase("JSON " + j.dump() + (hu == 0 ? " (git)" : " (sha256)"));
        auto want = parse(hu, j);
        auto got = ArtifactDescription::FromJson(kTypes[hu], j);
        vh::check(want.has_value() == got.has_value(), got ? "accepted as " + got->ToJson().dump() : "rejected");
        if (got and want) same(*got, hu, *want, "the artifact read");
        if (ids.size() > 300000) ids.clear();
    }
    vh::stats();
    return 0;
}
