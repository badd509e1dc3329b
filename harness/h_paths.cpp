// Bounded conformance harness: path predicates against an independent component-wise walk.
#include "common.hpp"

#include "src/buildtool/file_system/file_system_manager.hpp"
#include "src/utils/cpp/path.hpp"

namespace fs = std::filesystem;
static std::vector<std::string> comps(std::string const& s) {
    std::vector<std::string> r;
    std::string c;
    for (char x : s) {
        if (x == '/') { if (not c.empty()) r.push_back(c); c.clear(); }
        else c += x;
    }
    if (not c.empty()) r.push_back(c);
    return r;
}
static bool absolute(std::string const& s) { return not s.empty() and s[0] == '/'; }
static bool climbs(std::string const& s) {
    long d = 0;
    for (auto const& c : comps(s)) {
        if (c == ".") continue;
        d += c == ".." ? -1 : 1;
        if (d < 0) return true;
    }
    return false;
}
static bool nonup(std::string const& s) { return not absolute(s) and not climbs(s); }
static std::string normal(std::string const& s) {
    std::vector<std::string> st;
    bool ab = absolute(s);
    for (auto const& c : comps(s)) {
        if (c == ".") continue;
        if (c == "..") {
            if (not st.empty() and st.back() != "..") { st.pop_back(); continue; }
            if (ab) continue;
        }
        st.push_back(c);
    }
    std::string r = ab ? "/" : "";
    for (std::size_t i = 0; i < st.size(); ++i) r += (i ? "/" : "") + st[i];
    return r.empty() ? "." : r;
}
static std::string parent(std::string const& s) {
    auto p = s.rfind('/');
    if (p == std::string::npos) return "";
    auto q = s.find_last_not_of('/', p);
    return q == std::string::npos ? s.substr(0, p + 1) : s.substr(0, q + 1);
}
int main(int argc, char** argv) {
    auto a = vh::init(argc, argv);
    vh::Rng g{a.seed * 2654435761u + 5};
    std::vector<std::string> cs{"a", "b", "..", "..", ".", "", "foo", "...", "..a", "a..", ".a", "a.b", "-", "\xc3\xa4", " "};
    auto path = [&] {
        std::string s;
        if (g.b(1, 6)) s = "/";
        int n = g.n(8);
        for (int i = 0; i < n; ++i) { s += (i ? "/" : "") + (g.b(1, 20) and not vh::g_dict.empty() ? g.of(vh::g_dict) : g.of(cs)); }
        if (g.b(1, 4)) s += "/";
        return s;
    };
    auto dir = fs::path(getenv("TMPDIR") ? getenv("TMPDIR") : ".") / ("links" + std::to_string(getpid()));
    fs::create_directories(dir);
    std::size_t it = 0;
    while (vh::elapsed() < a.secs) {
        auto p = path();
        if (p.starts_with("//") or p.find('\0') != std::string::npos) continue;  // implementation defined
        vh::setcase("path " + vh::esc(p));
        vh::check(PathIsNonUpwards(p) == nonup(p), std::string("PathIsNonUpwards is ") + (nonup(p) ? "false" : "true") + " for " + vh::esc(p));
        auto n = ToNormalPath(p).string();
        vh::check(n == normal(p), "ToNormalPath of " + vh::esc(p) + " is " + vh::esc(n) + ", expected " + vh::esc(normal(p)));
        vh::check(ToNormalPath(n).string() == n, "ToNormalPath is not idempotent on " + vh::esc(p));
        auto q = path();
        if (not q.starts_with("//") and q.find('\0') == std::string::npos) {
            vh::setcase("path " + vh::esc(p) + " applied to " + vh::esc(q));
            auto pa = parent(q);
            bool want = not absolute(p) and not absolute(pa) and nonup(pa.empty() ? p : pa + "/" + p);
            vh::check(PathIsConfined(p, q) == want, std::string("PathIsConfined is ") + (want ? "false" : "true") + " for " + vh::esc(p) + " applied to " + vh::esc(q));
        }
        std::string f;
        for (int i = g.n(5); i > 0; --i) f += g.b(1, 3) ? std::string(1, "./\0a.."[g.n(6)]) : g.b(1, 10) ? std::string(1, static_cast<char>(g.n(256))) : g.of(cs);
        vh::setcase("file name " + vh::esc(f));
        bool ok = not f.empty() and f != "." and f != ".." and f.find('/') == std::string::npos and f.find('\0') == std::string::npos;
        vh::check(IsValidFileName(f) == ok, std::string("IsValidFileName is ") + (ok ? "false" : "true") + " for " + vh::esc(f));
        if (++it % 50 == 0 and not p.empty()) {
            vh::setcase("symbolic link to " + vh::esc(p));
            auto l = dir / ("l" + std::to_string(it));
            bool made = FileSystemManager::CreateNonUpwardsSymlink(p, l, LogLevel::Trace);
            vh::check(made == nonup(p), std::string("CreateNonUpwardsSymlink ") + (made ? "created" : "refused") + " a link to " + vh::esc(p));
            vh::check(fs::is_symlink(l) == made, "link on disk differs from the result");
            if (not made) fs::create_symlink(p, l);
            vh::check(fs::read_symlink(l).string() == p, "link has a different target");
            vh::check(FileSystemManager::IsNonUpwardsSymlink(l) == nonup(p), "IsNonUpwardsSymlink is wrong for target " + vh::esc(p));
            vh::check(FileSystemManager::IsNonUpwardsSymlink(l, true), "IsNonUpwardsSymlink(non_strict) is false for a link");
            fs::remove(l);
            vh::check(not FileSystemManager::IsNonUpwardsSymlink(dir) and not FileSystemManager::IsNonUpwardsSymlink(l, true), "IsNonUpwardsSymlink is true for something that is no link");
        }
        vh::count(p + "|" + q + "|" + f);
    }
    fs::remove_all(dir);
    vh::stats();
    return 0;
}
