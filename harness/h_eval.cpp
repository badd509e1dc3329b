// Bounded conformance harness for the expression language: the compiled evaluator of /repo against an
// independent reference interpreter written from doc/concepts/expressions.md.  GROUP selects the heads
// that are exercised at the root; sub-expressions come from the whole language.
#include "common.hpp"

#include "src/buildtool/build_engine/base_maps/entity_name_data.hpp"
#include "src/buildtool/build_engine/expression/configuration.hpp"
#include "src/buildtool/build_engine/expression/evaluator.hpp"
#include "src/buildtool/build_engine/expression/expression.hpp"

#ifndef GROUP
#define GROUP 0
#endif

using vh::Rng;
struct V;
using L = std::vector<V>;
using M = std::map<std::string, V>;
struct V {
    enum K { None, Bool, Num, Str, List, Map, Name } k{None};
    bool b{};
    double n{};
    std::string s;
    L l;
    M m;
    bool operator==(V const& o) const {
        if (k != o.k) return false;
        switch (k) {
            case None: return true;
            case Bool: return b == o.b;
            case Num: return n == o.n;
            case Str:
            case Name: return s == o.s;
            case List: return l == o.l;
            case Map: return m == o.m;
        }
        return false;
    }
};
static V B(bool b) { V v; v.k = V::Bool; v.b = b; return v; }
static V N(double n) { V v; v.k = V::Num; v.n = n; return v; }
static V S(std::string s) { V v; v.k = V::Str; v.s = std::move(s); return v; }
static V LL(L l) { V v; v.k = V::List; v.l = std::move(l); return v; }
static V MM(M m) { V v; v.k = V::Map; v.m = std::move(m); return v; }
static V NM(std::string s) { V v; v.k = V::Name; v.s = std::move(s); return v; }
static std::string show(V const& v) {
    switch (v.k) {
        case V::None: return "null";
        case V::Bool: return v.b ? "true" : "false";
        case V::Num: { std::ostringstream o; o.precision(17); o << v.n; return o.str(); }
        case V::Str: return vh::esc(v.s);
        case V::Name: return "<name " + v.s + ">";
        case V::List: { std::string r = "["; for (auto const& e : v.l) r += (r.size() > 1 ? "," : "") + show(e); return r + "]"; }
        case V::Map: { std::string r = "{"; for (auto const& [a, e] : v.m) r += (r.size() > 1 ? "," : "") + vh::esc(a) + ":" + show(e); return r + "}"; }
    }
    return "?";
}
// number of nodes, up to the limit
static long weight(V const& v, long lim) {
    long w = 1 + static_cast<long>(v.s.size() / 64);
    for (auto const& e : v.l) { if (w > lim) break; w += weight(e, lim - w); }
    for (auto const& [a, e] : v.m) { if (w > lim) break; w += 1 + weight(e, lim - w); }
    return w;
}
struct Err {};
struct Skip {};  // the documentation leaves it open

// ------------------------------------------------------------ conversion
static ExpressionPtr toE(V const& v) {
    switch (v.k) {
        case V::None: return ExpressionPtr{Expression::none_t{}};
        case V::Bool: return ExpressionPtr{v.b};
        case V::Num: return ExpressionPtr{v.n};
        case V::Str: return ExpressionPtr{v.s};
        case V::Name: return ExpressionPtr{Expression::name_t{BuildMaps::Base::NamedTarget{"", "m", v.s}}};
        case V::List: { Expression::list_t l; for (auto const& e : v.l) l.push_back(toE(e)); return ExpressionPtr{l}; }
        case V::Map: { Expression::map_t::underlying_map_t m; for (auto const& [a, e] : v.m) m.emplace(a, toE(e)); return ExpressionPtr{Expression::map_t{m}}; }
    }
    return ExpressionPtr{nullptr};
}
static V fromE(ExpressionPtr const& e) {
    if (not e) vh::fail("null pointer inside a value");
    if (e->IsNone()) return V{};
    if (e->IsBool()) return B(e->Bool());
    if (e->IsNumber()) return N(e->Number());
    if (e->IsString()) return S(e->String());
    if (e->IsName()) { auto n = e->Name(); return NM(n.GetNamedTarget().name); }
    if (e->IsList()) { L l; for (auto const& x : e->List()) l.push_back(fromE(x)); return LL(std::move(l)); }
    if (e->IsMap()) {
        M m;
        std::string prev;
        bool first = true;
        for (auto const& [k, x] : e->Map()) {
            if (not first and not(prev < k)) vh::fail("map iteration is not strictly increasing in its keys");
            first = false;
            prev = k;
            m.emplace(k, fromE(x));
            auto f = e->Map().Find(k);
            if (not f or not(**f == x)) vh::fail("lookup and iteration of a map disagree on key " + vh::esc(k));
        }
        return MM(std::move(m));
    }
    vh::fail("unexpected kind of value");
}
static bool cacheable(V const& v) {
    if (v.k == V::Name) return false;
    for (auto const& e : v.l) if (not cacheable(e)) return false;
    for (auto const& [a, e] : v.m) if (not cacheable(e)) return false;
    return true;
}
// the JSON text of a value (canonical encoding); only called for values without numbers
static std::string jstr(std::string const& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        switch (c) {
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            case '\b': r += "\\b"; break;
            case '\f': r += "\\f"; break;
            case '\n': r += "\\n"; break;
            case '\r': r += "\\r"; break;
            case '\t': r += "\\t"; break;
            default:
                if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
                else r += static_cast<char>(c);
        }
    }
    return r + "\"";
}
static std::string json(V const& v) {
    switch (v.k) {
        case V::None:
        case V::Name: return "null";
        case V::Bool: return v.b ? "true" : "false";
        case V::Num: throw Skip{};
        case V::Str:
            return jstr(v.s);
        case V::List: { std::string r = "["; bool f = true; for (auto const& e : v.l) { r += (f ? "" : ",") + json(e); f = false; } return r + "]"; }
        case V::Map: { std::string r = "{"; bool f = true; for (auto const& [a, e] : v.m) { r += (f ? "" : ",") + jstr(a) + ":" + json(e); f = false; } return r + "}"; }
    }
    return "";
}
// ------------------------------------------------------------ paths (own implementation)
struct P { bool abs{}; std::vector<std::string> c; };
static P pparse(std::string const& s) {
    if (s.starts_with("//")) throw Skip{};  // implementation defined
    P p;
    p.abs = not s.empty() and s[0] == '/';
    std::string cur;
    auto flush = [&] {
        if (cur.empty() or cur == ".") { cur.clear(); return; }
        if (cur == "..") {
            if (not p.c.empty() and p.c.back() != "..") p.c.pop_back();
            else if (not p.abs) p.c.push_back("..");
        }
        else p.c.push_back(cur);
        cur.clear();
    };
    for (char c : s) { if (c == '/') flush(); else cur += c; }
    flush();
    return p;
}
static std::string pstr(P const& p) {
    std::string r = p.abs ? "/" : "";
    for (std::size_t i = 0; i < p.c.size(); ++i) r += (i ? "/" : "") + p.c[i];
    return r.empty() ? "." : r;
}
static std::string pnorm(std::string const& s) { return pstr(pparse(s)); }
static std::string pjoin(std::string const& a, std::string const& b) {
    if (not b.empty() and b[0] == '/') return b;
    if (a.empty()) return b;
    return a.back() == '/' ? a + b : a + "/" + b;
}
static std::string pbase(std::string const& s) {
    auto i = s.rfind('/');
    return i == std::string::npos ? s : s.substr(i + 1);
}
// ------------------------------------------------------------ reference interpreter
using Env = std::map<std::string, V>;
static V ev(V const& e, Env const& env);
static bool truth(V const& v) {
    switch (v.k) {
        case V::None: return false;
        case V::Bool: return v.b;
        case V::Num: return v.n != 0;
        case V::Str: return not v.s.empty();
        case V::List: return not v.l.empty();
        case V::Map: return not v.m.empty();
        case V::Name: return true;
    }
    return true;
}
static V const* key(V const& e, std::string const& k) {
    auto it = e.m.find(k);
    return it == e.m.end() ? nullptr : &it->second;
}
static V need(V const& e, std::string const& k) {
    auto const* p = key(e, k);
    if (not p) throw Err{};
    return *p;
}
static V get(V const& e, std::string const& k, V d) {
    auto const* p = key(e, k);
    return p ? *p : d;
}
static std::string str(V const& v) { if (v.k != V::Str) throw Err{}; return v.s; }
static L list(V const& v) { if (v.k != V::List) throw Err{}; return v.l; }
static M map(V const& v) { if (v.k != V::Map) throw Err{}; return v.m; }
static std::string shquote(std::string const& s) {
    std::string r = "'";
    for (char c : s) { if (c == '\'') r += "'\\''"; else r += c; }
    return r + "'";
}
static V qq(V const& e, Env const& env);
static L qqe(V const& e, Env const& env) {
    if (e.k == V::Map) {
        if (auto const* t = key(e, "type"); t and t->k == V::Str and t->s == ",@") {
            auto const* a = key(e, "$1");
            return a ? list(ev(*a, env)) : L{};
        }
    }
    return L{qq(e, env)};
}
static V qq(V const& e, Env const& env) {
    if (e.k == V::List) {
        L r;
        for (auto const& x : e.l) for (auto& y : qqe(x, env)) r.push_back(y);
        return LL(r);
    }
    if (e.k == V::Map) {
        if (auto const* t = key(e, "type"); t and t->k == V::Str) {
            if (t->s == ",") { auto const* a = key(e, "$1"); return a ? ev(*a, env) : V{}; }
            if (t->s == ",@") throw Err{};
        }
        M r;
        for (auto const& [k, x] : e.m) r.emplace(k, qq(x, env));
        return MM(r);
    }
    return e;
}
static double roundnum(double d) { return std::floor(d) + (d - std::floor(d) >= 0.5 ? 1 : 0); }
static int g_steps = 0;
static V ev(V const& e, Env const& env) {
    if (++g_steps > 4000) throw Skip{};
    if (e.k == V::List) { L r; for (auto const& x : e.l) r.push_back(ev(x, env)); return LL(r); }
    if (e.k != V::Map) return e;
    auto t = str(need(e, "type"));
    auto un = [&] { return ev(need(e, "$1"), env); };
    auto dflt = [&] { return ev(get(e, "default", LL({})), env); };
    auto with = [&](std::string const& k, V const& v) { Env n = env; n[k] = v; return n; };
    if (t == "var") {
        auto n = str(need(e, "name"));
        auto it = env.find(n);
        if (it != env.end() and it->second.k != V::None) return it->second;
        return ev(get(e, "default", V{}), env);
    }
    if (t == "'") return get(e, "$1", V{});
    if (t == "`") { auto const* a = key(e, "$1"); return a ? qq(*a, env) : V{}; }
    if (t == "if") return truth(ev(need(e, "cond"), env)) ? ev(get(e, "then", LL({})), env) : ev(get(e, "else", LL({})), env);
    if (t == "cond") {
        if (auto const* c = key(e, "cond")) {
            for (auto const& p : list(*c)) {
                if (p.k != V::List or p.l.size() != 2) throw Err{};
                if (truth(ev(p.l[0], env))) return ev(p.l[1], env);
            }
        }
        return dflt();
    }
    if (t == "case") {
        if (auto const* c = key(e, "case")) {
            auto m = map(*c);
            auto k = str(ev(need(e, "expr"), env));
            if (auto it = m.find(k); it != m.end()) return ev(it->second, env);
        }
        return dflt();
    }
    if (t == "case*") {
        if (auto const* c = key(e, "case")) {
            auto l = list(*c);
            auto x = ev(need(e, "expr"), env);
            if (not cacheable(x)) throw Err{};
            for (auto const& p : l) {
                if (p.k != V::List or p.l.size() != 2) throw Err{};
                if (ev(p.l[0], env) == x) return ev(p.l[1], env);
            }
        }
        return dflt();
    }
    if (t == "fail") throw Err{};
    if (t == "assert") {
        auto v = ev(need(e, "$1"), env);
        auto var = str(get(e, "var", S("_")));
        if (truth(ev(need(e, "predicate"), with(var, v)))) return v;
        throw Err{};
    }
    if (t == "assert_non_empty") {
        auto v = ev(need(e, "$1"), env);
        if ((v.k == V::Str or v.k == V::List or v.k == V::Map) and truth(v)) return v;
        throw Err{};
    }
    if (t == "context") return ev(get(e, "$1", V{}), env);
    if (t == "==") {
        auto a = ev(need(e, "$1"), env);
        auto b = ev(need(e, "$2"), env);
        if (not cacheable(a) or not cacheable(b)) throw Err{};
        return B(a == b);
    }
    if (t == "and" or t == "or") {
        bool const stop = t == "or";
        auto const* a = key(e, "$1");
        if (not a) return B(not stop);
        if (a->k == V::List) {
            for (auto const& x : a->l) if (truth(ev(x, env)) == stop) return B(stop);
            return B(not stop);
        }
        for (auto const& x : list(ev(*a, env))) if (truth(x) == stop) return B(stop);
        return B(not stop);
    }
    if (t == "not") return B(not truth(un()));
    if (t == "++") { L r; for (auto const& x : list(un())) for (auto const& y : list(x)) r.push_back(y); if (r.size() > 1000) throw Skip{}; return LL(r); }
    if (t == "+" or t == "*") {
        double r = t == "+" ? 0 : 1;
        for (auto const& x : list(un())) { if (x.k != V::Num) throw Err{}; r = t == "+" ? r + x.n : r * x.n; }
        return N(r);
    }
    if (t == "nub_right" or t == "nub_left") {
        auto v = un();
        auto l = list(v);
        if (not cacheable(v)) throw Err{};
        L r;
        for (std::size_t i = 0; i < l.size(); ++i) {
            bool dup = false;
            for (std::size_t j = 0; j < l.size(); ++j) if ((t == "nub_right" ? j > i : j < i) and l[i] == l[j]) dup = true;
            if (not dup) r.push_back(l[i]);
        }
        return LL(r);
    }
    if (t == "range") {
        auto v = un();
        double n = 0;
        if (v.k == V::Num) { if (v.n < 0) throw Skip{}; n = roundnum(v.n); }
        if (v.k == V::Str) {
            if (v.s.empty() or v.s.size() > 3 or v.s.find_first_not_of("0123456789") != std::string::npos) throw Skip{};
            n = std::stoi(v.s);
        }
        if (n > 60) throw Skip{};
        L r;
        for (int i = 0; i < n; ++i) r.push_back(S(std::to_string(i)));
        return LL(r);
    }
    if (t == "change_ending") {
        auto n = str(ev(get(e, "$1", S("")), env));
        auto en = str(ev(get(e, "ending", S("")), env));
        if (n.find("//") != std::string::npos) throw Skip{};
        auto i = n.rfind('/');
        std::string dir = i == std::string::npos ? "" : n.substr(0, i + 1);
        std::string base = i == std::string::npos ? n : n.substr(i + 1);
        if (base == "" or base == "." or base == "..") throw Skip{};
        auto d = base.rfind('.');
        if (d != std::string::npos and d > 0) base = base.substr(0, d);
        return S(dir + base + en);
    }
    if (t == "basename") {
        auto s = str(un());
        return S(pbase(s));
    }
    if (t == "join") {
        auto l = ev(get(e, "$1", LL({})), env);
        auto sep = str(ev(get(e, "separator", S("")), env));
        std::string r;
        bool f = true;
        for (auto const& x : list(l)) { r += (f ? "" : sep) + str(x); f = false; }
        return S(r);
    }
    if (t == "join_cmd") {
        std::string r;
        bool f = true;
        for (auto const& x : list(ev(get(e, "$1", LL({})), env))) { r += (f ? "" : " ") + shquote(str(x)); f = false; }
        return S(r);
    }
    if (t == "json_encode") return S(json(ev(get(e, "$1", LL({})), env)));
    if (t == "escape_chars") {
        auto s = ev(get(e, "$1", S("")), env);
        auto c = ev(get(e, "chars", S("")), env);
        auto p = ev(get(e, "escape_prefix", S("\\")), env);
        str(s);
        if (s.s.empty() and (c.k != V::Str or p.k != V::Str)) throw Skip{};
        str(c);
        if (p.k != V::Str) throw Skip{};
        std::string r;
        for (std::size_t i = 0; i < s.s.size();) {
            auto u = static_cast<unsigned char>(s.s[i]);
            std::size_t n = u < 0x80 ? 1 : u < 0xe0 ? 2 : u < 0xf0 ? 3 : 4;
            auto x = s.s.substr(i, n);
            i += n;
            if (c.s.find(x) != std::string::npos) r += p.s;
            r += x;
        }
        return S(r);
    }
    if (t == "keys") { L r; for (auto const& [k, x] : map(un())) r.push_back(S(k)); return LL(r); }
    if (t == "values") { L r; for (auto const& [k, x] : map(un())) r.push_back(x); return LL(r); }
    if (t == "enumerate") {
        M r;
        std::size_t i = 0;
        for (auto const& x : list(un())) { auto s = std::to_string(i++); r.emplace(std::string(10 - s.size(), '0') + s, x); }
        return MM(r);
    }
    if (t == "set") { M r; for (auto const& x : list(un())) r.emplace(str(x), B(true)); return MM(r); }
    if (t == "reverse") { auto l = list(un()); return LL(L(l.rbegin(), l.rend())); }
    if (t == "length") return N(static_cast<double>(list(un()).size()));
    if (t == "lookup") {
        auto k = ev(need(e, "key"), env);
        auto d = ev(need(e, "map"), env);
        auto m = map(d);
        auto it = m.find(str(k));
        if (it != m.end() and it->second.k != V::None) return it->second;
        return ev(get(e, "default", V{}), env);
    }
    if (t == "[]") {
        auto k = ev(need(e, "index"), env);
        auto l = list(ev(need(e, "list"), env));
        long i = 0;
        if (k.k == V::Num) { if (k.n < 0 and k.n != std::floor(k.n)) throw Skip{}; i = static_cast<long>(roundnum(k.n)); }
        else if (k.k == V::Str) {
            auto d = k.s;
            if (not d.empty() and d[0] == '-') d = d.substr(1);
            if (d.empty() or d.size() > 6 or d.find_first_not_of("0123456789") != std::string::npos) throw Skip{};
            i = std::stol(k.s);
        }
        else throw Skip{};
        if (i < 0) i += static_cast<long>(l.size());
        if (0 <= i and i < static_cast<long>(l.size())) return l[i];
        return ev(get(e, "default", V{}), env);
    }
    if (t == "empty_map") return MM({});
    if (t == "singleton_map") {
        auto k = ev(need(e, "key"), env);
        auto v = ev(need(e, "value"), env);
        return MM({{str(k), v}});
    }
    if (t == "map_union" or t == "disjoint_map_union") {
        auto v = un();
        bool const dis = t == "disjoint_map_union";
        if (dis and not cacheable(v)) throw Err{};
        M r;
        for (auto const& x : list(v)) {
            for (auto const& [k, y] : map(x)) {
                if (dis and r.contains(k) and not(r[k] == y)) throw Err{};
                r[k] = y;
            }
        }
        return MM(r);
    }
    if (t == "to_subdir") {
        auto d = map(ev(need(e, "$1"), env));
        auto s = str(ev(get(e, "subdir", S(".")), env));
        bool flat = truth(ev(get(e, "flat", B(false)), env));
        M r;
        for (auto const& [k, x] : d) {
            auto nk = pnorm(pjoin(s, flat ? pbase(k) : k));
            if (auto it = r.find(nk); it != r.end() and not(it->second == x and cacheable(x))) throw Err{};
            r.emplace(nk, x);
        }
        return MM(r);
    }
    if (t == "from_subdir") {
        auto d = map(ev(need(e, "$1"), env));
        auto s = pparse(str(ev(get(e, "subdir", S(".")), env)));
        M r;
        for (auto const& [k, x] : d) {
            auto p = pparse(k);
            if (p.abs != s.abs or p.c.size() < s.c.size() or not std::equal(s.c.begin(), s.c.end(), p.c.begin())) continue;
            P q;
            q.c.assign(p.c.begin() + static_cast<long>(s.c.size()), p.c.end());
            if (not q.c.empty() and q.c[0] == "..") continue;
            auto nk = pstr(q);
            if (auto it = r.find(nk); it != r.end() and not(it->second == x and cacheable(x))) throw Err{};
            r.emplace(nk, x);
        }
        return MM(r);
    }
    auto bodyof = [&] { return get(e, "body", LL({})); };
    if (t == "foreach") {
        auto l = list(ev(get(e, "range", LL({})), env));
        L r;
        for (auto const& x : l) r.push_back(ev(bodyof(), with(str(get(e, "var", S("_"))), x)));
        return LL(r);
    }
    if (t == "foreach_map") {
        auto m = map(ev(get(e, "range", MM({{"type", S("empty_map")}})), env));
        L r;
        for (auto const& [k, x] : m) {
            Env n = env;
            auto a = str(get(e, "var_key", S("_")));
            auto b = str(get(e, "var_val", S("$_")));
            if (a == b) throw Skip{};
            n[a] = S(k);
            n[b] = x;
            r.push_back(ev(bodyof(), n));
        }
        return LL(r);
    }
    if (t == "zip_with" or t == "zip_map") {
        bool const zm = t == "zip_map";
        auto l1 = list(ev(get(e, zm ? "range_key" : "range_1", LL({})), env));
        L l2;
        try { l2 = list(ev(get(e, zm ? "range_val" : "range_2", LL({})), env)); }
        catch (Err&) { if (l1.empty()) throw Skip{}; throw; }
        if (zm) {
            M r;
            for (std::size_t i = 0; i < l1.size() and i < l2.size(); ++i) r[str(l1[i])] = l2[i];
            return MM(r);
        }
        L r;
        for (std::size_t i = 0; i < l1.size() and i < l2.size(); ++i) {
            Env n = env;
            auto a = str(get(e, "var_1", S("$1")));
            auto b = str(get(e, "var_2", S("$2")));
            if (a == b) throw Skip{};
            n[a] = l1[i];
            n[b] = l2[i];
            r.push_back(ev(bodyof(), n));
        }
        return LL(r);
    }
    if (t == "foldl") {
        auto l = list(ev(need(e, "range"), env));
        auto v = ev(get(e, "start", LL({})), env);
        for (auto const& x : l) {
            Env n = env;
            auto a = str(get(e, "var", S("_")));
            auto b = str(get(e, "accum_var", S("$1")));
            if (a == b) throw Skip{};
            n[a] = x;
            n[b] = v;
            v = ev(bodyof(), n);
            if (weight(v, 2000) > 2000) throw Skip{};
        }
        return v;
    }
    if (t == "let*") {
        Env n = env;
        if (auto const* b = key(e, "bindings")) {
            for (auto const& p : list(*b)) {
                if (p.k != V::List or p.l.size() != 2) throw Err{};
                auto x = str(p.l[0]);
                n[x] = ev(p.l[1], n);
            }
        }
        return ev(get(e, "body", MM({})), n);
    }
    if (t == "env") {
        M r;
        if (auto const* vs = key(e, "vars")) {
            for (auto const& x : list(*vs)) {
                auto it = env.find(str(x));
                r[str(x)] = it == env.end() ? V{} : it->second;
            }
        }
        return MM(r);
    }
    if (t == "concat_target_name") {
        auto a = ev(get(e, "$1", S("")), env);
        auto b = ev(get(e, "$2", S("")), env);
        std::string ap;
        if (b.k == V::Str) ap = b.s;
        else for (auto const& x : list(b)) ap += str(x);
        if (a.k == V::Str) return S(a.s + ap);
        auto l = list(a);
        for (std::size_t i = 0; i < l.size(); ++i) { str(l[i]); if (i + 1 == l.size()) l[i].s += ap; }
        return LL(l);
    }
    throw Err{};
}
// ------------------------------------------------------------ program generator
struct Gen {
    Rng& r;
    int budget{40};
    std::vector<std::string> vars_s{"s", "t", "_", "$_", "$1"};
    std::vector<std::string> names{"s", "t", "l", "ls", "m", "n", "b", "nm", "lnm", "u", "_", "$_", "$1", "$2", "x", "y"};
    std::string word() {
        static std::vector<std::string> w{"", "a", "b", "c", "ab", "a/b", "./a", "a/", "foo", "foo.c", "foo/bar.tar.gz", "x y", "it's", "''", "'", "\\", "\\'", "a'b'c", "\"", "$x", "..", ".", "../a", "a/../b", "/a", "//a", "a//b", "type", "0", "1", "2", "3", "-1", "10", "_", "\n", "\t", "~", "\xc3\xa4", "\xc3\xa4\xc3\xa5x", "\xe2\x82\xac", "\xf0\x9f\x98\x80z", "-", ";", "a.b/c", ".x", "x.", "foo/a", "foo/b", "foo/./a", "b/a", "\x01", "*", "`", "k", "null", "false"};
        if (r.b(1, 6) and not vh::g_dict.empty()) return r.of(vh::g_dict);
        if (r.b(1, 12)) { std::string s; int k = r.n(6); for (int i = 0; i < k; ++i) s += static_cast<char>(r.b() ? "'\\ ab/."[r.n(7)] : 1 + r.n(127)); return s; }
        return r.of(w);
    }
    V num() { static std::vector<double> n{0, 1, 2, 3, -1, -2, 0.5, 2.5, 0.4, 7, 100, 1e3, -0.5}; return N(r.of(n)); }
    V atom() {
        switch (r.n(9)) {
            case 0: return V{};
            case 1: return B(r.b());
            case 2: return num();
            default: return S(word());
        }
    }
    // literal values (not containing maps unless quoted)
    V value(int d, bool name = true) {
        if (name and r.b(1, 40)) return NM(r.b() ? "n1" : "n2");
        if (d <= 0) return atom();
        switch (r.n(4)) {
            case 0: { L l; int k = r.n(5); for (int i = 0; i < k; ++i) l.push_back(value(d - 1, name)); return LL(l); }
            case 1: { M m; int k = r.n(4); for (int i = 0; i < k; ++i) m[word()] = value(d - 1, name); return MM(m); }
            default: return atom();
        }
    }
    V smallval() { static std::vector<V> v{S("a"), S("b"), S(""), N(0), N(1), V{}, B(true), B(false), LL({}), LL({S("a")}), MM({}), MM({{"a", N(1)}}), MM({{"a", N(2)}}), LL({N(1)}), S("1")}; return r.b(1, 5) ? value(2) : r.of(v); }
    L dups() { L l; int k = r.n(7); for (int i = 0; i < k; ++i) l.push_back(not l.empty() and r.b(1, 3) ? l[r.n(static_cast<int>(l.size()))] : smallval()); return l; }
    V quoted(V v) { return MM({{"type", S("'")}, {"$1", v}}); }
    V node(std::string t, M m) { m["type"] = S(t); return MM(m); }
    V var(std::string n) { M m{{"name", S(n)}}; if (r.b(1, 4)) m["default"] = any(0); return node("var", m); }
    V bad() { return r.b() ? node("fail", {{"msg", S("boom")}}) : MM({{"type", S("no such thing")}}); }
    // expression of some kind
    V any(int d) {
        if (--budget < 0) d = 0;
        if (d <= 0) { switch (r.n(4)) { case 0: return var(r.of(names)); case 1: return quoted(smallval()); default: return atom(); } }
        switch (r.n(8)) {
            case 0: return lst(d);
            case 1: return st(d);
            case 2: return mp(d);
            case 3: return bl(d);
            case 4: return head(pick(r.n(9)), d);
            case 5: return r.b(1, 6) ? bad() : var(r.of(names));
            case 6: { L l; int k = r.n(3); for (int i = 0; i < k; ++i) l.push_back(any(d - 1)); return LL(l); }
            default: return any(0);
        }
    }
    V ofkind(int k, int d) {
        if (r.b(1, 25)) return any(d);
        switch (k) { case 0: return st(d); case 1: return lst(d); case 2: return mp(d); case 3: return bl(d); default: return any(d); }
    }
    V st(int d) {
        if (--budget < 0) d = 0;
        if (d <= 0 or r.b(2, 3)) return r.b(3, 4) ? S(word()) : var(r.b() ? "s" : "t");
        static std::vector<std::string> h{"join", "join_cmd", "escape_chars", "change_ending", "basename", "json_encode", "concat_target_name"};
        return head(r.of(h), d);
    }
    V lst(int d) {
        if (--budget < 0) d = 0;
        if (d <= 0 or r.b(1, 2)) { switch (r.n(5)) { case 0: return var("l"); case 1: return var("ls"); case 2: return r.b(1, 4) ? var("lnm") : quoted(LL(dups())); default: return quoted(LL(dups())); } }
        static std::vector<std::string> h{"++", "nub_right", "nub_left", "range", "keys", "values", "reverse", "foreach", "foreach_map", "zip_with"};
        return head(r.of(h), d);
    }
    V lststr(int d) { if (r.b(1, 10)) return lst(d); if (r.b(1, 6)) return var("ls"); L l; int k = r.n(5); for (int i = 0; i < k; ++i) l.push_back(r.b(1, 8) ? st(d - 1) : S(word())); return LL(l); }
    M kv() { M m; int k = r.n(5); for (int i = 0; i < k; ++i) m[word()] = smallval(); return m; }
    V mp(int d) {
        if (--budget < 0) d = 0;
        if (d <= 0 or r.b(1, 2)) return r.b(1, 4) ? var("m") : quoted(MM(kv()));
        static std::vector<std::string> h{"map_union", "disjoint_map_union", "singleton_map", "enumerate", "set", "to_subdir", "from_subdir", "zip_map", "env", "empty_map"};
        return head(r.of(h), d);
    }
    V bl(int d) {
        if (--budget < 0) d = 0;
        if (d <= 0 or r.b(1, 3)) return r.b(1, 2) ? B(r.b()) : any(0);
        static std::vector<std::string> h{"and", "or", "not", "==", "=="};
        return head(r.of(h), d);
    }
    L maps(int d) {
        // overlapping keys on purpose
        static std::vector<std::string> ks{"a", "b", "c", "ab", "a/b", "", "B", "\xc3\xbf", "aa"};
        L l;
        int k = r.n(r.b(1, 4) ? 12 : 5);
        int spread = 1 + r.n(9);
        int vals = 1 + r.n(3);
        for (int i = 0; i < k; ++i) {
            M m;
            int q = r.n(4);
            for (int j = 0; j < q; ++j) m[ks[r.n(spread)]] = r.b(1, 12) ? smallval() : N(r.n(vals));
            l.push_back(MM(m));
        }
        if (r.b(1, 15)) l.push_back(value(1));
        (void)d;
        return l;
    }
    V qqbody(int d, bool inlist) {
        if (--budget < 0) d = 0;
        if (r.b(1, 4)) { M m{{"type", S(",")}}; if (r.b(5, 6)) m["$1"] = any(d - 1); return MM(m); }
        if ((inlist and r.b(1, 3)) or r.b(1, 30)) { M m{{"type", S(",@")}}; if (r.b(5, 6)) m["$1"] = lst(d - 1); return MM(m); }
        if (d <= 0) return atom();
        switch (r.n(5)) {
            case 0: case 1: { L l; int k = r.n(5); for (int i = 0; i < k; ++i) l.push_back(qqbody(d - 1, true)); return LL(l); }
            case 2: case 3: { M m; int k = r.n(4); for (int i = 0; i < k; ++i) m[r.b(1, 5) ? std::string("type") : word()] = qqbody(d - 1, false); return MM(m); }
            default: return atom();
        }
    }
    std::string pick(int g) {
        static std::vector<std::vector<std::string>> groups{
            {"nub_right", "nub_left", "++", "reverse", "length", "range", "enumerate", "set", "keys", "values", "[]", "+", "*"},
            {"map_union", "disjoint_map_union", "disjoint_map_union", "map_union", "lookup", "singleton_map", "zip_map", "set", "env"},
            {"if", "cond", "case", "case*", "and", "or", "not", "==", "assert", "assert_non_empty", "fail", "context"},
            {"let*", "foreach", "foreach_map", "zip_with", "foldl", "var", "env", "zip_map", "assert"},
            {"join", "join_cmd", "join_cmd", "escape_chars", "change_ending", "basename", "concat_target_name", "json_encode"},
            {"to_subdir", "from_subdir"},
            {"`", "'", "`"},
            {"var", "'", "context", "empty_map"}, {"+", "*", "length"}};
        return r.of(groups[g % groups.size()]);
    }
    std::string vn() { return r.of(names); }
    M stage() {
        static std::vector<std::string> ks{"a", "b", "./a", "foo/a", "foo/b", "foo/./a", "foo/c/../a", "bar/a", "foo", "/a", "../a", "foo/../../a", "a/", "foo//a", "foo/a/b", ".", "", "..", "foo/c/d", "../foo/a", "x/../foo/a", "/foo/a", "foo/..", "/", "..a", "foo/..a", "foo/...", "foo2/a", "foo/.."};
        M m;
        int k = r.n(6);
        for (int i = 0; i < k; ++i) m[r.b(1, 5) ? word() : r.of(ks)] = r.b(1, 10) ? smallval() : N(r.n(2));
        if (r.b(1, 12)) { m["a"] = NM("n1"); }
        if (r.b(1, 12)) { m["./a"] = NM("n1"); }
        return m;
    }
    V head(std::string const& t, int d) {
        if (--budget < 0 and d > 1) d = 1;
        --d;
        M m;
        auto opt = [&](char const* k, V v, int num = 3, int den = 4) { if (r.b(num, den)) m[k] = std::move(v); };
        if (t == "var") { m["name"] = r.b(1, 15) ? any(d) : S(vn()); opt("default", any(d), 1, 2); }
        else if (t == "'") opt("$1", r.b() ? value(2) : any(d), 9, 10);
        else if (t == "`") opt("$1", qqbody(3, false), 19, 20);
        else if (t == "if") { opt("cond", bl(d), 19, 20); opt("then", any(d)); opt("else", any(d)); }
        else if (t == "cond") {
            L l; int k = r.n(4);
            for (int i = 0; i < k; ++i) l.push_back(r.b(1, 20) ? any(d) : LL({bl(d), any(d)}));
            opt("cond", r.b(1, 20) ? any(d) : LL(l), 9, 10); opt("default", any(d), 1, 2);
        }
        else if (t == "case") {
            M c; int k = r.n(4); for (int i = 0; i < k; ++i) c[word()] = any(d);
            V x = st(d); if (r.b(1, 2) and not c.empty()) x = S(std::next(c.begin(), r.n(static_cast<int>(c.size())))->first);
            opt("case", r.b(1, 20) ? any(d) : MM(c), 9, 10); opt("expr", r.b(1, 15) ? any(d) : x, 19, 20); opt("default", any(d), 1, 2);
        }
        else if (t == "case*") {
            L l; int k = r.n(4); V x = any(d);
            for (int i = 0; i < k; ++i) l.push_back(r.b(1, 20) ? any(d) : LL({r.b(1, 3) ? x : any(d), any(d)}));
            opt("case", r.b(1, 20) ? any(d) : LL(l), 9, 10); opt("expr", x, 19, 20); opt("default", any(d), 1, 2);
        }
        else if (t == "fail") opt("msg", any(d));
        else if (t == "assert") {
            opt("$1", any(d), 19, 20);
            if (r.b()) m["var"] = S(r.b() ? "x" : "_");
            std::string nm = m.contains("var") ? m["var"].s : "_";
            opt("predicate", r.b(2, 3) ? var(nm) : bl(d), 19, 20); opt("msg", any(d));
        }
        else if (t == "assert_non_empty") { opt("$1", any(d), 19, 20); opt("msg", any(d)); }
        else if (t == "context") { opt("$1", any(d), 19, 20); opt("msg", any(d)); }
        else if (t == "==") { V a = any(d); V b = r.b(1, 3) ? a : any(d); opt("$1", a, 19, 20); opt("$2", b, 19, 20); }
        else if (t == "and" or t == "or") {
            if (r.b(2, 3)) { L l; int k = r.n(4); for (int i = 0; i < k; ++i) l.push_back(r.b(1, 8) ? bad() : bl(d)); opt("$1", LL(l), 14, 15); }
            else opt("$1", lst(d), 14, 15);
        }
        else if (t == "not") opt("$1", any(d), 19, 20);
        else if (t == "++") {
            L l; int k = r.n(4); for (int i = 0; i < k; ++i) l.push_back(r.b(1, 12) ? any(d) : lst(d));
            opt("$1", r.b(1, 15) ? any(d) : LL(l), 19, 20);
        }
        else if (t == "+" or t == "*") { L l; int k = r.n(4); for (int i = 0; i < k; ++i) l.push_back(r.b(1, 12) ? any(d) : num()); opt("$1", LL(l), 19, 20); }
        else if (t == "nub_right" or t == "nub_left" or t == "reverse" or t == "length" or t == "enumerate")
            opt("$1", r.b(1, 15) ? any(d) : r.b(2, 3) ? quoted(LL(dups())) : lst(d), 19, 20);
        else if (t == "range") opt("$1", r.b(1, 10) ? any(d) : r.b() ? num() : S(std::to_string(r.n(30))), 19, 20);
        else if (t == "set") opt("$1", lststr(d), 19, 20);
        else if (t == "keys" or t == "values") opt("$1", r.b(1, 15) ? any(d) : mp(d), 19, 20);
        else if (t == "[]") { opt("index", r.b() ? num() : S(std::to_string(r.n(14) - 7)), 19, 20); opt("list", lst(d), 19, 20); opt("default", any(d), 1, 2); }
        else if (t == "map_union" or t == "disjoint_map_union") {
            V a = r.b(2, 3) ? quoted(LL(maps(d))) : LL({mp(d), mp(d), mp(d)});
            if (r.b(1, 25)) a = any(d);
            opt("$1", a, 19, 20); opt("msg", any(d), 1, 4);
        }
        else if (t == "lookup") {
            M c = kv(); V x = st(d); if (r.b(1, 2) and not c.empty()) x = S(std::next(c.begin(), r.n(static_cast<int>(c.size())))->first);
            opt("key", r.b(1, 20) ? any(d) : x, 19, 20); opt("map", r.b(1, 4) ? mp(d) : quoted(MM(c)), 19, 20); opt("default", any(d), 1, 2);
        }
        else if (t == "singleton_map") { opt("key", ofkind(0, d), 19, 20); opt("value", any(d), 19, 20); }
        else if (t == "zip_map") { opt("range_key", lststr(d), 14, 15); opt("range_val", lst(d), 14, 15); }
        else if (t == "zip_with") {
            opt("range_1", lst(d), 14, 15); opt("range_2", lst(d), 14, 15);
            if (r.b(1, 2)) m["var_1"] = S(r.b() ? "x" : vn());
            if (r.b(1, 2)) m["var_2"] = S(r.b() ? "y" : vn());
            opt("body", bodyexpr(d), 9, 10);
        }
        else if (t == "env") { L l; int k = r.n(4); for (int i = 0; i < k; ++i) l.push_back(r.b(1, 20) ? any(0) : S(vn())); opt("vars", r.b(1, 20) ? any(d) : LL(l), 9, 10); }
        else if (t == "foreach") { opt("range", lst(d), 9, 10); if (r.b()) m["var"] = r.b(1, 20) ? any(0) : S(vn()); opt("body", bodyexpr(d), 9, 10); }
        else if (t == "foreach_map") { opt("range", mp(d), 9, 10); if (r.b()) m["var_key"] = S(vn()); if (r.b()) m["var_val"] = S(vn()); opt("body", bodyexpr(d), 9, 10); }
        else if (t == "foldl") { opt("range", lst(d), 19, 20); if (r.b()) m["var"] = S(vn()); if (r.b()) m["accum_var"] = S(vn()); opt("start", any(d)); opt("body", bodyexpr(d), 9, 10); }
        else if (t == "let*") {
            L l; int k = r.n(4);
            for (int i = 0; i < k; ++i) l.push_back(r.b(1, 25) ? any(d) : LL({r.b(1, 25) ? any(0) : S(vn()), bodyexpr(d)}));
            opt("bindings", r.b(1, 25) ? any(d) : LL(l), 9, 10); opt("body", bodyexpr(d), 14, 15);
        }
        else if (t == "join") { opt("$1", lststr(d), 14, 15); opt("separator", st(d), 2, 3); }
        else if (t == "join_cmd") opt("$1", lststr(d), 19, 20);
        else if (t == "escape_chars") { opt("$1", st(d), 19, 20); opt("chars", r.b() ? S(r.b() ? "'\\a/b\"" : "\xc3\xa4\xe2\x82\xac'") : st(d), 4, 5); opt("escape_prefix", st(d), 1, 2); }
        else if (t == "change_ending") { opt("$1", st(d), 19, 20); opt("ending", st(d), 4, 5); }
        else if (t == "basename") opt("$1", st(d), 19, 20);
        else if (t == "concat_target_name") { opt("$1", r.b() ? lststr(d) : st(d), 19, 20); opt("$2", r.b(1, 3) ? lststr(d) : st(d), 19, 20); }
        else if (t == "json_encode") opt("$1", r.b(2, 3) ? quoted(value(3)) : any(d), 19, 20);
        else if (t == "to_subdir") {
            static std::vector<std::string> sd{"foo", ".", "./foo", "foo/", "", "..", "../foo", "/foo", "foo/..", "foo/bar", "a", "/", "//"};
            opt("$1", r.b(1, 20) ? any(d) : quoted(MM(stage())), 19, 20); opt("subdir", r.b(1, 10) ? st(d) : S(r.of(sd)), 4, 5);
            if (r.b(1, 2)) m["flat"] = r.b(2, 3) ? B(true) : any(0);
            opt("msg", any(d), 1, 4);
        }
        else if (t == "from_subdir") {
            static std::vector<std::string> sd{"foo", "foo", "./foo", "foo/", "", "..", "../foo", "/foo", "foo/..", "foo/c", "a", ".", "/", "fo", "foo/../bar"};
            opt("$1", r.b(1, 20) ? any(d) : quoted(MM(stage())), 19, 20); opt("subdir", r.b(1, 10) ? st(d) : S(r.of(sd)), 9, 10);
        }
        return node(t, m);
    }
    // malformed variants: somewhere an entry more, less, another one, or nested one level deeper
    void mutate(V& v) {
        if (v.k == V::List and not v.l.empty() and r.b(2, 3)) return mutate(v.l[r.n(static_cast<int>(v.l.size()))]);
        if (v.k == V::Map and not v.m.empty() and r.b(5, 6)) return mutate(std::next(v.m.begin(), r.n(static_cast<int>(v.m.size())))->second);
        switch (r.n(5)) {
            case 0: v = smallval(); return;
            case 1: v = LL({v}); return;
            case 2:
                if (v.k == V::List and not v.l.empty()) v.l.push_back(v.l[r.n(static_cast<int>(v.l.size()))]);
                else if (v.k == V::List) v.l.push_back(any(1));
                return;
            case 3:
                if (v.k == V::List and not v.l.empty()) v.l.erase(v.l.begin() + r.n(static_cast<int>(v.l.size())));
                else if (v.k == V::Map and not v.m.empty()) v.m.erase(std::next(v.m.begin(), r.n(static_cast<int>(v.m.size()))));
                return;
            default:
                if (v.k == V::List) v.l.insert(v.l.begin() + r.n(static_cast<int>(v.l.size()) + 1), any(1));
                else v = any(1);
        }
    }
    V bodyexpr(int d) {
        if (--budget < 0) d = 0;
        switch (r.n(6)) {
            case 0: return any(d);
            case 1: return LL({var(vn()), var(vn()), var(vn())});
            case 2: return node("++", {{"$1", LL({var("$1"), LL({var("_")})})}});
            case 3: return node("env", {{"vars", LL({S("_"), S("$_"), S("$1"), S("$2"), S("x"), S("y")})}});
            default: return r.b() ? LL({var("_"), var("$1"), var("$_"), var("$2"), var("x"), var("y")}) : head(pick(r.n(9)), d);
        }
    }
};

int main(int argc, char** argv) {
    auto a = vh::init(argc, argv);
    Rng r{a.seed * 1000003 + 17};
    std::size_t it = 0;
    while (vh::elapsed() < a.secs) {
        ++it;
        Gen g{r};
        g.budget = 5 + r.n(60);
        Env env{{"s", S(g.word())}, {"t", S(g.word())}, {"l", LL(g.dups())}, {"ls", LL({S("a"), S("b"), S("a")})}, {"m", MM(g.kv())},
                {"n", g.num()}, {"b", B(r.b())}, {"u", V{}}, {"x", g.smallval()}};
        if (r.b(1, 3)) env["nm"] = NM("n1");
        if (r.b(1, 3)) env["lnm"] = LL({S("a"), NM("n1"), NM("n1")});
        if (r.b(1, 3)) env["_"] = g.smallval();
        if (r.b(1, 3)) env["$1"] = LL({S("outer")});
        V prog = g.head(g.pick(GROUP), 1 + r.n(3));
        if (r.b(1, 5)) {
            for (int k = 1 + r.n(2); k > 0; --k) {
                auto it2 = std::next(prog.m.begin(), r.n(static_cast<int>(prog.m.size())));
                if (it2->first != "type") g.mutate(it2->second);
            }
        }
        M envm(env.begin(), env.end());
        auto text = show(prog) + " env " + show(MM(envm));
        vh::setcase(text);
        g_steps = 0;
        V want;
        bool err = false;
        try { want = ev(prog, env); }
        catch (Err&) { err = true; }
        catch (Skip&) { continue; }
        auto e = toE(prog);
        auto c = Configuration{toE(MM(envm))};
        bool logged = false;
        auto res = e.Evaluate(c, {}, [&](auto const&) { logged = true; });
        if (err) {
            if (res) vh::fail("evaluation should be an error, but the result is " + show(fromE(res)));
            if (not logged) vh::fail("failed evaluation did not report an error");
        }
        else {
            if (not res) vh::fail("evaluation failed, expected " + show(want));
            auto got = fromE(res);
            if (not(got == want)) vh::fail("result " + show(got) + "\nexpected " + show(want));
            // evaluation is a function: same expression, same environment, same result; inputs are unchanged
            if (r.b(1, 8)) {
                auto res2 = e.Evaluate(c, {}, [&](auto const&) {});
                if (not res2 or not(fromE(res2) == want) or not(res2 == res)) vh::fail("second evaluation differs");
                if (not(fromE(e) == prog) or not(fromE(c.Expr()) == MM(envm))) vh::fail("evaluation modified its input");
            }
        }
        vh::count(text, not err or r.b(1, 10));
    }
    vh::stats();
    return 0;
}
