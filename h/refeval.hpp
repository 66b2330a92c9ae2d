// Reference interpreter of the expression language, written from
// doc/concepts/expressions.md.
#ifndef VERIF_H_REFEVAL_HPP
#define VERIF_H_REFEVAL_HPP
#include <algorithm>
#include <cmath>
#include <map>
#include <optional>
#include <string>
#include <vector>
#include "nlohmann/json.hpp"

namespace refeval {
using J = nlohmann::json;
struct Err {
    std::string msg;
    bool user = false;
};

// ------------------------------------------------------------ reference
// Values are JSON; build-internal atoms are maps with the single key "@".
bool IsSpecial(J const& v) { return v.is_object() and v.size() == 1 and v.contains("@"); }
bool IsMap(J const& v) { return v.is_object() and not IsSpecial(v); }
bool HasName(J const& v) {
    if (IsSpecial(v)) {
        return v["@"].get<std::string>().starts_with("name");
    }
    if (v.is_structured()) {
        for (auto const& x : v) {
            if (HasName(x)) {
                return true;
            }
        }
    }
    return false;
}
bool Truth(J const& v) {
    if (v.is_null()) {
        return false;
    }
    if (v.is_boolean()) {
        return v.get<bool>();
    }
    if (v.is_number()) {
        return v.get<double>() != 0;
    }
    if (v.is_string()) {
        return not v.get<std::string>().empty();
    }
    return not v.empty();
}
std::string Str(J const& v) {
    if (not v.is_string()) {
        throw Err{};
    }
    return v;
}
J List(J const& v) {
    if (not v.is_array()) {
        throw Err{};
    }
    return v;
}
J Map(J const& v) {
    if (not IsMap(v)) {
        throw Err{};
    }
    return v;
}
void Encode(J const& v, std::string* o) {
    if (IsSpecial(v)) {
        *o += "null";
    }
    else if (v.is_array()) {
        *o += "[";
        bool first = true;
        for (auto const& x : v) {
            *o += first ? "" : ",";
            first = false;
            Encode(x, o);
        }
        *o += "]";
    }
    else if (v.is_object()) {
        *o += "{";
        bool first = true;
        for (auto const& [k, x] : v.items()) {
            *o += (first ? "" : ",") + J(k).dump() + ":";
            first = false;
            Encode(x, o);
        }
        *o += "}";
    }
    else if (v.is_number()) {
        *o += J(v.get<double>()).dump();
    }
    else {
        *o += v.dump();
    }
}
// paths as strings: normalized components; nullopt leading "/" separate
struct Path {
    bool abs = false;
    std::vector<std::string> c;
};
Path Parse(std::string const& s) {
    Path p;
    p.abs = s.starts_with("/");
    std::string cur;
    for (size_t i = 0; i <= s.size(); ++i) {
        if (i == s.size() or s[i] == '/') {
            if (cur == "..") {
                if (not p.c.empty() and p.c.back() != "..") {
                    p.c.pop_back();
                }
                else if (not p.abs) {
                    p.c.push_back(cur);
                }
            }
            else if (not cur.empty() and cur != ".") {
                p.c.push_back(cur);
            }
            cur.clear();
        }
        else {
            cur += s[i];
        }
    }
    return p;
}
std::string Render(Path const& p) {
    std::string r = p.abs ? "/" : "";
    for (size_t i = 0; i < p.c.size(); ++i) {
        r += (i ? "/" : "") + p.c[i];
    }
    return r.empty() ? "." : r;
}
std::string FileName(std::string const& s) {
    auto i = s.rfind('/');
    return i == std::string::npos ? s : s.substr(i + 1);
}
std::string Concat(std::string const& a, std::string const& b) {
    if (b.starts_with("/")) {
        return b;
    }
    if (a.empty() or a.ends_with("/")) {
        return a + b;
    }
    return a + "/" + b;
}
long RoundIdx(J const& k) {
    if (k.is_number()) {
        return std::lround(k.get<double>());
    }
    if (k.is_string()) {
        return std::atol(k.get<std::string>().c_str());
    }
    return 0;
}

using Env = std::map<std::string, J>;
struct Ref {
    J E(J const& e, Env const& env) {
        if (e.is_array()) {
            J r = J::array();
            for (auto const& x : e) {
                r.push_back(E(x, env));
            }
            return r;
        }
        if (not IsMap(e)) {
            return e;
        }
        if (not e.contains("type")) {
            throw Err{};
        }
        auto t = Str(e["type"]);
        return F(t, e, env);
    }
    J Arg(J const& e, char const* k, Env const& env) {
        if (not e.contains(k)) {
            throw Err{};
        }
        return E(e[k], env);
    }
    J Arg(J const& e, char const* k, Env const& env, J const& dflt) {
        return E(e.contains(k) ? e[k] : dflt, env);
    }
    std::string Lit(J const& e, char const* k, std::string const& d) {
        return e.contains(k) ? Str(e[k]) : d;
    }
    // the rendered message of a user error
    J Msg(J const& e, Env const& env, bool required_default_null) {
        (void)required_default_null;
        try {
            return e.contains("msg") ? E(e["msg"], env) : J{};
        } catch (Err const&) {
            return e["msg"];
        }
    }
    static void Pairs(J const& l) {
        if (not l.is_array()) {
            throw Err{};
        }
    }
    static void Pair(J const& p) {
        if (not p.is_array() or p.size() != 2) {
            throw Err{};
        }
    }
    static Env Upd(Env env, std::string const& k, J const& v) {
        env[k] = v;
        return env;
    }
    // entries to be spliced into the surrounding list
    J QListEntry(J const& t, Env const& env) {
        if (IsMap(t) and t.contains("type") and t["type"] == ",@") {
            if (not t.contains("$1")) {
                return J::array();
            }
            return List(E(t["$1"], env));
        }
        return J::array({Q(t, env)});
    }
    J Q(J const& t, Env const& env) {
        if (t.is_array()) {
            J r = J::array();
            for (auto const& x : t) {
                for (auto const& y : QListEntry(x, env)) {
                    r.push_back(y);
                }
            }
            return r;
        }
        if (IsMap(t)) {
            if (t.contains("type") and t["type"].is_string()) {
                if (t["type"] == ",") {
                    return t.contains("$1") ? E(t["$1"], env) : J{};
                }
                if (t["type"] == ",@") {
                    throw Err{};
                }
            }
            J r = J::object();
            for (auto const& [k, x] : t.items()) {
                r[k] = Q(x, env);
            }
            return r;
        }
        return t;
    }
    void Put(J* m, std::string const& k, J const& v) {
        if (m->contains(k) and ((*m)[k] != v or HasName(v))) {
            throw Err{"", true};
        }
        (*m)[k] = v;
    }

    J F(std::string const& t, J const& e, Env const& env) {
        if (t == "var") {
            if (not e.contains("name")) {
                throw Err{};
            }
            auto n = Str(e["name"]);
            auto it = env.find(n);
            if (it != env.end() and not it->second.is_null()) {
                return it->second;
            }
            return Arg(e, "default", env, J{});
        }
        if (t == "'") {
            return e.contains("$1") ? e["$1"] : J{};
        }
        if (t == "`") {
            return e.contains("$1") ? Q(e["$1"], env) : J{};
        }
        if (t == "let*") {
            Env n = env;
            if (e.contains("bindings")) {
                Pairs(e["bindings"]);
                for (auto const& b : e["bindings"]) {
                    Pair(b);
                    auto x = Str(b[0]);
                    n[x] = E(b[1], n);
                }
            }
            return Arg(e, "body", n);
        }
        if (t == "env") {
            J r = J::object();
            if (e.contains("vars")) {
                for (auto const& v : List(e["vars"])) {
                    auto n = Str(v);
                    r[n] = env.count(n) ? env.at(n) : J{};
                }
            }
            return r;
        }
        if (t == "if") {
            return Truth(Arg(e, "cond", env)) ? Arg(e, "then", env, J::array()) : Arg(e, "else", env, J::array());
        }
        if (t == "cond") {
            if (e.contains("cond")) {
                Pairs(e["cond"]);
                for (auto const& p : e["cond"]) {
                    Pair(p);
                    if (Truth(E(p[0], env))) {
                        return E(p[1], env);
                    }
                }
            }
            return Arg(e, "default", env, J::array());
        }
        if (t == "case") {
            if (e.contains("case")) {
                Map(e["case"]);
                auto k = Str(Arg(e, "expr", env));
                if (e["case"].contains(k)) {
                    return E(e["case"][k], env);
                }
            }
            return Arg(e, "default", env, J::array());
        }
        if (t == "case*") {
            if (e.contains("case")) {
                Pairs(e["case"]);
                auto k = Arg(e, "expr", env);
                if (HasName(k)) {
                    throw Err{};
                }
                for (auto const& p : e["case"]) {
                    Pair(p);
                    if (E(p[0], env) == k) {
                        return E(p[1], env);
                    }
                }
            }
            return Arg(e, "default", env, J::array());
        }
        if (t == "and" or t == "or") {
            bool dual = t == "or";
            if (not e.contains("$1")) {
                return not dual;
            }
            if (e["$1"].is_array()) {
                for (auto const& x : e["$1"]) {
                    if (Truth(E(x, env)) == dual) {
                        return dual;
                    }
                }
                return not dual;
            }
            for (auto const& v : List(E(e["$1"], env))) {
                if (Truth(v) == dual) {
                    return dual;
                }
            }
            return not dual;
        }
        if (t == "foreach") {
            J r = J::array();
            auto range = List(Arg(e, "range", env, J::array()));
            for (auto const& x : range) {
                r.push_back(Arg(e, "body", Upd(env, Lit(e, "var", "_"), x), J::array()));
            }
            return r;
        }
        if (t == "foreach_map") {
            J r = J::array();
            auto range = Map(Arg(e, "range", env, J{{"type", "empty_map"}}));
            for (auto const& [k, x] : range.items()) {
                r.push_back(Arg(e, "body", Upd(Upd(env, Lit(e, "var_key", "_"), k), Lit(e, "var_val", "$_"), x), J::array()));
            }
            return r;
        }
        if (t == "zip_with") {
            auto a = List(Arg(e, "range_1", env, J::array()));
            if (a.empty()) {
                return J::array();
            }
            auto b = List(Arg(e, "range_2", env, J::array()));
            J r = J::array();
            for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) {
                r.push_back(Arg(e, "body", Upd(Upd(env, Lit(e, "var_1", "$1"), a[i]), Lit(e, "var_2", "$2"), b[i]), J::array()));
            }
            return r;
        }
        if (t == "zip_map") {
            auto a = List(Arg(e, "range_key", env, J::array()));
            if (a.empty()) {
                return J::object();
            }
            auto b = List(Arg(e, "range_val", env, J::array()));
            J r = J::object();
            for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) {
                r[Str(a[i])] = b[i];
            }
            return r;
        }
        if (t == "foldl") {
            auto l = Arg(e, "range", env);
            auto v = Arg(e, "start", env, J::array());
            for (auto const& i : List(l)) {
                // the literals are only looked at when used
                auto x = Lit(e, "var", "_");
                auto acc = Lit(e, "accum_var", "$1");
                // if both variables coincide, the order is not specified
                v = Arg(e, "body", Upd(Upd(env, acc, v), x, i), J::array());
            }
            return v;
        }
        if (t == "not") {
            return not Truth(Arg(e, "$1", env));
        }
        if (t == "nub_right" or t == "nub_left") {
            auto l = List(Arg(e, "$1", env));
            if (HasName(l)) {
                throw Err{};
            }
            std::vector<J> r;
            if (t == "nub_right") {
                std::reverse(l.begin(), l.end());
            }
            for (auto const& x : l) {
                if (std::find(r.begin(), r.end(), x) == r.end()) {
                    r.push_back(x);
                }
            }
            if (t == "nub_right") {
                std::reverse(r.begin(), r.end());
            }
            return J(r);
        }
        if (t == "basename") {
            return FileName(Str(Arg(e, "$1", env)));
        }
        if (t == "keys" or t == "values") {
            auto m = Map(Arg(e, "$1", env));
            J r = J::array();
            for (auto const& [k, v] : m.items()) {
                r.push_back(t == "keys" ? J(k) : v);
            }
            return r;
        }
        if (t == "range") {
            auto v = Arg(e, "$1", env);
            long n = v.is_number() or v.is_string() ? RoundIdx(v) : 0;
            if (n < 0) {
                if (v.is_string()) {
                    throw Err{"unspecified"};
                }
                n = 0;
            }
            J r = J::array();
            for (long i = 0; i < n; ++i) {
                r.push_back(std::to_string(i));
            }
            return r;
        }
        if (t == "enumerate") {
            auto l = List(Arg(e, "$1", env));
            J r = J::object();
            for (size_t i = 0; i < l.size(); ++i) {
                auto s = std::to_string(i);
                r[std::string(10 - s.size(), '0') + s] = l[i];
            }
            return r;
        }
        if (t == "set") {
            J r = J::object();
            for (auto const& x : List(Arg(e, "$1", env))) {
                r[Str(x)] = true;
            }
            return r;
        }
        if (t == "reverse") {
            auto l = List(Arg(e, "$1", env));
            std::reverse(l.begin(), l.end());
            return l;
        }
        if (t == "length") {
            return (double)List(Arg(e, "$1", env)).size();
        }
        if (t == "++") {
            J r = J::array();
            for (auto const& l : List(Arg(e, "$1", env))) {
                for (auto const& x : List(l)) {
                    r.push_back(x);
                }
            }
            return r;
        }
        if (t == "+" or t == "*") {
            double r = t == "+" ? 0 : 1;
            for (auto const& x : List(Arg(e, "$1", env))) {
                if (not x.is_number()) {
                    throw Err{};
                }
                r = t == "+" ? r + x.get<double>() : r * x.get<double>();
            }
            return r;
        }
        if (t == "map_union" or t == "disjoint_map_union") {
            auto l = Arg(e, "$1", env);
            if (t != "map_union" and HasName(l)) {
                throw Err{};
            }
            J r = J::object();
            for (auto const& m : List(l)) {
                Map(m);
                for (auto const& [k, v] : m.items()) {
                    if (t != "map_union" and r.contains(k) and r[k] != v) {
                        throw Err{"", e.contains("msg")};
                    }
                    r[k] = v;
                }
            }
            return r;
        }
        if (t == "join_cmd" or t == "join") {
            auto l = List(Arg(e, "$1", env, J::array()));
            std::string sep = " ";
            if (t == "join") {
                sep = Str(Arg(e, "separator", env, ""));
            }
            std::string r;
            bool first = true;
            for (auto const& x : l) {
                auto s = Str(x);
                r += first ? "" : sep;
                first = false;
                if (t == "join_cmd") {
                    std::string q = "'";
                    for (char c : s) {
                        q += c == '\'' ? std::string{"'\\''"} : std::string(1, c);
                    }
                    s = q + "'";
                }
                r += s;
            }
            return r;
        }
        if (t == "json_encode") {
            std::string r;
            Encode(Arg(e, "$1", env, J::array()), &r);
            return r;
        }
        if (t == "change_ending") {
            auto s = Str(Arg(e, "$1", env, ""));
            auto end = Str(Arg(e, "ending", env, ""));
            auto f = FileName(s);
            auto dir = s.substr(0, s.size() - f.size());
            while (dir.size() > 1 and dir.ends_with("/")) {
                dir.pop_back();
            }
            auto dot = f.rfind('.');
            if (f != "." and f != ".." and dot != std::string::npos and dot != 0) {
                f = f.substr(0, dot);
            }
            return (dir.empty() ? f : Concat(dir, f)) + end;
        }
        if (t == "escape_chars") {
            auto s = Str(Arg(e, "$1", env, ""));
            auto c = Arg(e, "chars", env, "");
            auto p = Arg(e, "escape_prefix", env, "\\");
            std::string r;
            if (s.empty()) {
                return r;
            }
            auto cs = Str(c);
            for (size_t i = 0; i < s.size();) {
                // a character, of one or more bytes
                auto const b = (unsigned char)s[i];
                auto x = s.substr(i, b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4);
                if (cs.find(x) != std::string::npos) {
                    r += Str(p);
                }
                r += x;
                i += x.size();
            }
            return r;
        }
        if (t == "to_subdir" or t == "from_subdir") {
            auto m = Arg(e, "$1", env);
            auto sd = Arg(e, "subdir", env, ".");
            bool flat = t == "to_subdir" and Truth(Arg(e, "flat", env, false));
            auto s = Str(sd);
            Map(m);
            J r = J::object();
            for (auto const& [k, v] : m.items()) {
                if (t == "to_subdir") {
                    Put(&r, Render(Parse(Concat(s, flat ? FileName(k) : k))), v);
                }
                else {
                    auto a = Parse(k);
                    auto b = Parse(s);
                    if (a.abs != b.abs) {
                        continue;
                    }
                    if (a.c.size() < b.c.size() or not std::equal(b.c.begin(), b.c.end(), a.c.begin())) {
                        continue;
                    }
                    Path rel;
                    rel.c.assign(a.c.begin() + (long)b.c.size(), a.c.end());
                    if (not rel.c.empty() and rel.c[0] == "..") {
                        continue;
                    }
                    Put(&r, Render(rel), v);
                }
            }
            return r;
        }
        if (t == "==") {
            auto a = Arg(e, "$1", env);
            if (HasName(a)) {
                throw Err{};
            }
            auto b = Arg(e, "$2", env);
            if (HasName(b)) {
                throw Err{};
            }
            return a == b;
        }
        if (t == "concat_target_name") {
            auto a = Arg(e, "$1", env, "");
            auto b = Arg(e, "$2", env, "");
            std::string app;
            if (b.is_string()) {
                app = b;
            }
            else {
                for (auto const& x : List(b)) {
                    app += Str(x);
                }
            }
            if (a.is_string()) {
                return a.get<std::string>() + app;
            }
            J r = J::array();
            for (auto const& x : List(a)) {
                r.push_back(Str(x));
            }
            if (not r.empty()) {
                r.back() = r.back().get<std::string>() + app;
            }
            return r;
        }
        if (t == "empty_map") {
            return J::object();
        }
        if (t == "singleton_map") {
            auto k = Arg(e, "key", env);
            auto v = Arg(e, "value", env);
            return J{{Str(k), v}};
        }
        if (t == "lookup") {
            auto k = Arg(e, "key", env);
            auto m = Arg(e, "map", env);
            auto s = Str(k);
            Map(m);
            if (m.contains(s) and not m[s].is_null()) {
                return m[s];
            }
            return Arg(e, "default", env, J{});
        }
        if (t == "[]") {
            auto k = Arg(e, "index", env);
            auto l = List(Arg(e, "list", env));
            long i = RoundIdx(k);
            if (i < 0) {
                i += (long)l.size();
            }
            if (0 <= i and i < (long)l.size()) {
                return l[(size_t)i];
            }
            return Arg(e, "default", env, J{});
        }
        if (t == "fail") {
            throw Err{"", true};
        }
        if (t == "context") {
            return Arg(e, "$1", env, J{});
        }
        if (t == "assert_non_empty") {
            auto v = Arg(e, "$1", env);
            if ((v.is_string() or v.is_array() or IsMap(v)) and Truth(v)) {
                return v;
            }
            throw Err{"", true};
        }
        if (t == "assert") {
            auto v = Arg(e, "$1", env);
            auto x = Lit(e, "var", "_");
            if (Truth(Arg(e, "predicate", Upd(env, x, v)))) {
                return v;
            }
            throw Err{"", true};
        }
        return Extra(t, e, env);
    }
    // functions provided by the context
    virtual J Extra(std::string const& t, J const& e, Env const& env) {
        (void)t;
        (void)e;
        (void)env;
        throw Err{};
    }
    virtual ~Ref() = default;
};

}  // namespace refeval
#endif
