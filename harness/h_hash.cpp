// Bounded conformance harness: content hashing against OpenSSL's one-shot functions over header + content.
#include "common.hpp"

#include <openssl/sha.h>

#include "src/buildtool/crypto/hash_function.hpp"
#include "src/buildtool/crypto/hash_info.hpp"
#include "src/buildtool/crypto/hasher.hpp"
#include "src/utils/cpp/hex_string.hpp"
#include "src/utils/cpp/incremental_reader.hpp"

namespace fs = std::filesystem;
static std::string raw(bool sha1, std::string const& s) {
    unsigned char b[32];
    auto const* p = reinterpret_cast<unsigned char const*>(s.data());
    if (sha1) SHA1(p, s.size(), b);
    else SHA256(p, s.size(), b);
    return std::string(reinterpret_cast<char*>(b), sha1 ? 20 : 32);
}
static std::string hex(std::string const& s) {
    std::string r;
    for (unsigned char c : s) { r += "0123456789abcdef"[c / 16]; r += "0123456789abcdef"[c % 16]; }
    return r;
}
static std::string want(bool git, char const* kind, std::string const& s) {
    return git and kind != nullptr ? raw(true, std::string(kind) + " " + std::to_string(s.size()) + std::string(1, '\0') + s) : raw(git, s);
}
int main(int argc, char** argv) {
    auto a = vh::init(argc, argv);
    vh::Rng g{a.seed * 2654435761u + 13};
    auto dir = fs::path(getenv("TMPDIR") ? getenv("TMPDIR") : ".") / ("hash" + std::to_string(getpid()));
    fs::create_directories(dir);
    auto content = [&] {
        static std::vector<std::size_t> const sizes{0, 1, 55, 56, 63, 64, 65, 4047, 4048, 4049, 8095, 8096, 8097, 12144, 40480, 65536};
        std::size_t n = g.b(1, 3) ? sizes[g.n(sizes.size())] : g.b(1, 12) ? 100000 + g.n(50000) : g.n(200);
        std::string s(n, '\0');
        int mode = g.n(3);
        for (auto& c : s) c = mode == 0 ? static_cast<char>(g.n(256)) : mode == 1 ? 'a' : "\n\r\0 x"[g.n(5)];
        if (g.b(1, 20) and not vh::g_dict.empty()) s += g.of(vh::g_dict);
        return s;
    };
    HashInfo const zero{};
    vh::check(zero.Hash() == hex(want(true, "blob", "")) and not zero.IsTree() and zero.HashType() == HashFunction::Type::GitSHA1, "the default HashInfo is not that of the empty git blob");
    std::size_t it = 0;
    while (vh::elapsed() < a.secs) {
        bool git = g.b();
        auto s = content();
        HashFunction f{git ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256};
        vh::setcase(std::string(git ? "git" : "sha256") + " content of " + std::to_string(s.size()) + " bytes " + vh::esc(s.substr(0, 60)));
        auto eq = [&](Hasher::HashDigest const& d, std::string const& w, char const* what) {
            vh::check(d.Bytes() == w and d.HexString() == hex(w) and d.Length() == w.size(), std::string(what) + " gives " + d.HexString() + ", expected " + hex(w));
        };
        eq(f.HashBlobData(s), want(git, "blob", s), "HashBlobData");
        eq(f.HashTreeData(s), want(git, "tree", s), "HashTreeData");
        eq(f.PlainHashData(s), want(git, nullptr, s), "PlainHashData");
        {
            auto h = f.MakeHasher();
            vh::check(h.GetHashLength() == (git ? 40 : 64), "GetHashLength is wrong");
            for (std::size_t i = 0; i < s.size();) {
                std::size_t k = 1 + g.n(s.size() > 1000 ? 5000 : 50);
                h.Update(s.substr(i, k));
                i += k;
            }
            eq(std::move(h).Finalize(), want(git, nullptr, s), "incremental hashing");
        }
        for (bool tree : {false, true}) {
            auto i = HashInfo::HashData(f, s, tree);
            vh::check(i.Hash() == hex(want(git, tree ? "tree" : "blob", s)) and i.IsTree() == (tree and git) and i.HashType() == f.GetType(), std::string("HashInfo::HashData is wrong for tree=") + (tree ? "true" : "false"));
            auto j = HashInfo::Create(f.GetType(), i.Hash(), i.IsTree());
            vh::check(j.has_value() and *j == i and j->IsTree() == i.IsTree() and j->HashType() == i.HashType(), "the HashInfo computed for a content is rejected by Create or differs");
            if (git) vh::check(not (HashInfo::HashData(f, s, not tree) == i), "a blob and a tree are equal");
        }
        if (++it % 3 == 0) {
            auto p = dir / "f";
            { std::ofstream o(p, std::ios::binary); o << s; }
            for (bool tree : {false, true}) {
                auto r = tree ? f.HashTreeFile(p) : f.HashBlobFile(p);
                vh::check(r.has_value() and r->second == s.size(), "hashing a file fails or gives a wrong size");
                eq(r->first, want(git, tree ? "tree" : "blob", s), tree ? "HashTreeFile" : "HashBlobFile");
                auto i = HashInfo::HashFile(f, p, tree);
                vh::check(i.has_value() and i->second == s.size() and i->first.Hash() == hex(want(git, tree ? "tree" : "blob", s)) and i->first.IsTree() == (tree and git), "HashInfo::HashFile is wrong");
            }
            std::size_t c = g.b(1, 4) ? s.size() + 1 : g.b() and s.size() < 500 ? 1 + g.n(5) : 1 + g.n(6000);
            if (g.b(1, 4) and s.size() > 1) c = s.size() / 2 + (s.size() % 2 == 0 and s.size() / 2 > 0 ? 0 : 1);
            for (bool file : {false, true}) {
                auto r = file ? IncrementalReader::FromFile(c, p) : IncrementalReader::FromMemory(c, &s);
                vh::check(r.has_value(), "no reader");
                std::string all;
                std::size_t n = 0;
                for (auto x : *r) {
                    vh::check(x.has_value(), "unreadable chunk");
                    vh::check(x->size() == c or all.size() + x->size() == s.size(), "a chunk of " + std::to_string(x->size()) + " bytes that is not the last");
                    all += *x;
                    vh::check(++n <= s.size() / c + 2, "too many chunks");
                }
                vh::check(all == s and n >= 1, std::string("the chunks read from ") + (file ? "a file" : "memory") + " with chunk size " + std::to_string(c) + " are not the content");
            }
        }
        // hexadecimal strings
        std::string b = s.substr(0, g.n(24));
        auto h = ToHexString(b);
        vh::setcase("bytes " + vh::esc(b));
        vh::check(h == hex(b), "ToHexString gives " + vh::esc(h));
        auto back = FromHexString(h);
        vh::check(back and *back == b, "FromHexString does not invert ToHexString on " + vh::esc(h));
        std::string m = g.b() ? h : hex(raw(git, b));
        for (int k = g.n(3); k > 0 and not m.empty(); --k) {
            auto& c = m[g.n(m.size())];
            switch (g.n(6)) {
                case 0: c = "gG/:@`xX +-\n"[g.n(12)]; break;
                case 1: c = 'x'; break;
                case 2: c = static_cast<char>(g.n(256)); break;
                case 3: m += "0"; break;
                case 4: m.pop_back(); break;
                default: c = static_cast<char>(toupper(c));
            }
        }
        vh::setcase("hexadecimal string " + vh::esc(m));
        bool ok = m.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos;
        vh::check(IsHexString(m) == ok, "IsHexString is wrong for " + vh::esc(m));
        if (m.size() % 2 == 0 or not ok) {
            auto d = FromHexString(m);
            vh::check(d.has_value() == ok, std::string("FromHexString ") + (ok ? "rejects " : "accepts ") + vh::esc(m));
            if (ok) { auto l = m; for (auto& c : l) c = static_cast<char>(tolower(c)); vh::check(hex(*d) == l, "FromHexString is wrong for " + vh::esc(m)); }
        }
        bool tree = g.b();
        auto i = HashInfo::Create(f.GetType(), m, tree);
        bool valid = ok and m.size() == (git ? 40u : 64u) and (git or not tree);
        vh::setcase(std::string("HashInfo::Create ") + (git ? "git " : "sha256 ") + (tree ? "tree " : "blob ") + vh::esc(m));
        vh::check(i.has_value() == valid, std::string("HashInfo::Create ") + (valid ? "rejects " : "accepts ") + vh::esc(m));
        if (valid) vh::check(i->Hash() == m and i->IsTree() == tree and i->HashType() == f.GetType(), "HashInfo::Create changes its arguments");
        vh::count(std::to_string(git) + std::to_string(s.size()) + s.substr(0, 40) + m);
    }
    fs::remove_all(dir);
    vh::stats();
    return 0;
}
