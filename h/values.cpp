// C06: expression values: equality, identity, JSON forms, configurations, and
// the serialised form of target results
#include "rt/harness.hpp"
#include <algorithm>
#include <array>
#include <map>
#include <optional>
#include <unordered_set>
#include "src/buildtool/build_engine/base_maps/entity_name_data.hpp"
#include "src/buildtool/build_engine/expression/configuration.hpp"
#include "src/buildtool/build_engine/expression/expression.hpp"
#include "src/buildtool/build_engine/expression/linked_map.hpp"
#include "src/buildtool/build_engine/expression/target_node.hpp"
#include "src/buildtool/build_engine/expression/target_result.hpp"
#include "src/buildtool/common/artifact_description.hpp"
#include "src/buildtool/common/artifact_digest_factory.hpp"
#include "src/buildtool/logging/log_config.hpp"

namespace {
using J = hn::Json;
using BuildMaps::Base::EntityName;
using BuildMaps::Base::NamedTarget;
using BuildMaps::Base::ReferenceType;

// --- layered maps -------------------------------------------------------------
using LM = LinkedMap<std::string, int>;
using Plain = std::map<std::string, int>;
struct Layered {
    LM::Ptr p;
    Plain want;
};
std::string Show(Plain const& m) { return J(m).dump(); }
std::vector<Plain> Leaves(int keys) {
    std::vector<Plain> r{{}};
    for (int k = 0; k < keys; ++k) {
        auto n = r;
        for (auto const& m : r) {
            for (int v : {1, 2}) {
                auto x = m;
                x[std::string(1, (char)('a' + k))] = v;
                n.push_back(x);
            }
        }
        r = n;
    }
    return r;
}
LM::Ptr Flat(Plain const& m) { return LM::MakePtr(LM::underlying_map_t(m.begin(), m.end())); }
Plain Over(Plain const& next, Plain const& top) {
    auto r = top;
    r.insert(next.begin(), next.end());
    return r;
}
// in whatever order questions are asked
void CheckMap(hn::Shard& s, LM::Ptr const& p, Plain const& want, int keys, int order, std::string const& what) {
    auto const& m = *p;
    auto items = [&] {
        std::vector<std::pair<std::string, int>> w(want.begin(), want.end());
        s.Check(m.Items() == w and m.size() == w.size() and std::vector<std::pair<std::string, int>>(m.begin(), m.end()) == w, what + ": items", "items");
        std::vector<std::string> ks;
        std::vector<int> vs;
        for (auto const& [k, v] : want) {
            ks.push_back(k);
            vs.push_back(v);
        }
        s.Check(m.Keys() == ks and m.Values() == vs, what + ": keys, values", "keys");
    };
    auto find = [&] {
        for (int k = 0; k <= keys; ++k) {
            std::string key(1, (char)('a' + k));
            auto it = want.find(key);
            auto f = m.Find(key);
            bool ok = f.has_value() == (it != want.end()) and (not f or **f == it->second) and m.contains(key) == f.has_value();
            try {
                ok = ok and (m.at(key) == it->second) and m[key] == it->second and it != want.end();
            } catch (std::out_of_range const&) {
                ok = ok and it == want.end();
            }
            s.Check(ok, what + ": entry " + key, "find");
        }
        s.Check(m.empty() == want.empty(), what + ": empty", "empty");
    };
    auto same = [&] {
        auto f = Flat(want);
        s.Check(m == *f and *f == m and std::hash<LM::Ptr>{}(p) == std::hash<LM::Ptr>{}(f), what + ": not the map it is", "same");
    };
    if (order == 0) {
        find(), items(), same();
    }
    else if (order == 1) {
        items(), find(), same();
    }
    else {
        same(), find(), items();
    }
}
// how a map is put on another: 0 both as maps, 1 the upper as plain map, 2.. single entries
LM::Ptr Join(LM::Ptr const& next, LM::Ptr const& top, Plain const& plain, int how) {
    if (how == 0) {
        return LM::MakePtr(next, top);
    }
    if (how == 1) {
        return LM::MakePtr(next, LM::underlying_map_t(plain.begin(), plain.end()));
    }
    auto r = next;
    for (auto const& [k, v] : plain) {
        r = how == 2 ? LM::MakePtr(r, k, v) : LM::MakePtr(r, std::pair<std::string, int>{k, v});
    }
    return r;
}
void Layers() {
    bool th = hn::ctx().thorough;
    auto const three = Leaves(3);
    hn::Enumerate("layers", (long)three.size(), "all pairs of maps over three keys and two values, one put on the other in every way, asked in every order; conflicts and equality of every pair", [&](long i, hn::Shard& s) {
        auto const& a = three[(size_t)i];
        for (auto const& b : three) {
            if (not s.Case(Show(b) + " on " + Show(a))) {
                continue;
            }
            auto w = Over(a, b);
            s.Nontrivial(w.size() < a.size() + b.size());
            for (int how = 0; how < 4; ++how) {
                for (int order = 0; order < 3; ++order) {
                    auto na = Flat(a), nb = Flat(b);
                    CheckMap(s, Join(na, nb, b, how), w, 3, order, Show(b) + " on " + Show(a));
                    CheckMap(s, na, a, 3, order, "lower " + Show(a));
                    CheckMap(s, nb, b, 3, order, "upper " + Show(b));
                }
            }
            auto x = Flat(a), y = Flat(b);
            s.Check((*x == *y) == (a == b), Show(a) + " == " + Show(b), "equal");
            s.Check((std::hash<LM::Ptr>{}(x) == std::hash<LM::Ptr>{}(y)) == (a == b), "hash of " + Show(a) + " and " + Show(b), "hash");
            std::set<std::string> conf;
            for (auto const& [k, v] : a) {
                if (b.contains(k) and b.at(k) != v) {
                    conf.insert(k);
                }
            }
            auto c = x->FindConflictingDuplicate(*y);
            s.Check(c ? conf.contains(c->get()) : conf.empty(), "conflict of " + Show(a) + " and " + Show(b), "conflict");
            // moved from
            for (auto k : {"a", "b", "c", "d"}) {
                auto f = LM{Flat(a), Flat(b)}.Find(k);
                auto it = w.find(k);
                s.Check(f.has_value() == (it != w.end()) and (not f or *f == it->second), "entry of temporary " + Show(b) + " on " + Show(a), "temporary");
            }
        }
    });
    // deeper: any layered map on any layered map
    auto const two = Leaves(2);
    struct Def {
        int kind;  // 0: plain, 1: joined
        int a, b, how;
    };
    std::vector<Def> defs;
    for (int i = 0; i < (int)two.size(); ++i) {
        defs.push_back({0, i, 0, 0});
    }
    for (int i = 0; i < (int)two.size(); ++i) {
        for (int j = 0; j < (int)two.size(); ++j) {
            for (int how = 0; how < (th ? 4 : 3); ++how) {
                defs.push_back({1, i, j, how});
            }
        }
    }
    auto make = [&](Def const& d, bool touch) {
        Layered r;
        if (d.kind == 0) {
            r = {Flat(two[(size_t)d.a]), two[(size_t)d.a]};
        }
        else {
            auto const &a = two[(size_t)d.a], &b = two[(size_t)d.b];
            r = {Join(Flat(a), Flat(b), b, d.how), Over(a, b)};
        }
        if (touch) {
            (void)r.p->Items();
        }
        return r;
    };
    auto name = [&](Def const& d) { return d.kind == 0 ? Show(two[(size_t)d.a]) : "(" + Show(two[(size_t)d.b]) + " on " + Show(two[(size_t)d.a]) + "/" + std::to_string(d.how) + ")"; };
    hn::Enumerate("deeper layers", (long)defs.size(), "any two maps over two keys, each possibly layered itself and asked before, put on each other", [&](long i, hn::Shard& s) {
        for (auto const& d : defs) {
            if (not s.Case(name(d) + " on " + name(defs[(size_t)i]))) {
                continue;
            }
            s.Nontrivial();
            for (int touch = 0; touch < 4; ++touch) {
                auto a = make(defs[(size_t)i], (touch & 1) != 0), b = make(d, (touch & 2) != 0);
                CheckMap(s, LM::MakePtr(a.p, b.p), Over(a.want, b.want), 2, touch % 3, name(d) + " on " + name(defs[(size_t)i]));
                if (touch == 0 or th) {
                    CheckMap(s, a.p, a.want, 2, 0, "below: " + name(defs[(size_t)i]));
                    CheckMap(s, b.p, b.want, 2, 1, "above: " + name(d));
                }
            }
        }
    });
}

// --- values ---------------------------------------------------------------------
// a value in our own notation:
// ["v", json] plain leaf; ["l", [..]]; ["m", {..}]; ["a", description] artifact;
// ["r", stage, runfiles, provides]; ["V", value] value node;
// ["A", type, string fields, target fields] abstract node; ["n", [repo,module,name,kind]] name
struct Maker {
    int way = 0;  // of making maps
    [[nodiscard]] auto Map(std::map<std::string, ExpressionPtr> const& m) const -> ExpressionPtr {
        using U = Expression::map_t::underlying_map_t;
        auto junk = ExpressionPtr{std::string{"junk"}};
        if (way == 0 or m.empty()) {
            return ExpressionPtr{Expression::map_t{U(m.begin(), m.end())}};
        }
        // something below, shadowed completely
        auto e = ExpressionPtr{Expression::map_t{U{}}};
        if (way == 1) {
            for (auto const& [k, v] : m) {
                e = ExpressionPtr{Expression::map_t{e, U{{k, v}}}};
            }
            return e;
        }
        if (way == 2) {
            for (auto it = m.rbegin(); it != m.rend(); ++it) {
                e = ExpressionPtr{Expression::map_t{ExpressionPtr{Expression::map_t{it->first, junk}}, e}};
                e = ExpressionPtr{Expression::map_t{e, ExpressionPtr{Expression::map_t{it->first, it->second}}}};
            }
            return e;
        }
        auto c = Configuration{e};
        for (auto const& [k, v] : m) {
            c = c.Update(k, junk);
            (void)c.Expr()->ToHash();
        }
        for (auto const& [k, v] : m) {
            c = c.Update(k, v);
        }
        return c.Expr();
    }
    [[nodiscard]] auto operator()(J const& d) const -> ExpressionPtr {
        auto const t = d[0].get<std::string>();
        if (t == "v") {
            return Expression::FromJson(d[1]);
        }
        if (t == "l") {
            Expression::list_t l;
            for (auto const& x : d[1]) {
                l.push_back((*this)(x));
            }
            return ExpressionPtr{l};
        }
        if (t == "m") {
            std::map<std::string, ExpressionPtr> m;
            for (auto const& [k, x] : d[1].items()) {
                m.emplace(k, (*this)(x));
            }
            return Map(m);
        }
        if (t == "a") {
            auto a = ArtifactDescription::FromJson(HashFunction::Type::GitSHA1, d[1]);
            if (not a) {
                throw std::runtime_error("artifact " + d.dump());
            }
            return ExpressionPtr{*a};
        }
        if (t == "r") {
            return ExpressionPtr{TargetResult{.artifact_stage = (*this)(d[1]), .provides = (*this)(d[3]), .runfiles = (*this)(d[2])}};
        }
        if (t == "V") {
            return ExpressionPtr{TargetNode{(*this)(d[1])}};
        }
        if (t == "A") {
            return ExpressionPtr{TargetNode{TargetNode::Abstract{.node_type = d[1], .string_fields = (*this)(d[2]), .target_fields = (*this)(d[3])}}};
        }
        if (t == "n") {
            return ExpressionPtr{EntityName{d[1][0], d[1][1], d[1][2], static_cast<ReferenceType>(d[1][3].get<int>())}};
        }
        throw std::runtime_error("value " + d.dump());
    }
};
// two values are the same if and only if this is
std::string Canon(J const& d) {
    if (d[0] == "v") {
        if (d[1].is_number()) {
            return "d" + J(d[1].get<double>()).dump();
        }
        return "v" + d[1].dump();
    }
    if (d[0] == "l" or d[0] == "m") {
        std::string r = d[0];
        for (auto const& [k, x] : d[1].items()) {
            r += d[0] == "m" ? J(k).dump() + ":" : "";
            r += Canon(x) + ",";
        }
        return r + ";";
    }
    if (d[0] == "r") {
        return "r" + Canon(d[1]) + "|" + Canon(d[2]) + "|" + Canon(d[3]) + ";";
    }
    if (d[0] == "V") {
        return "V" + Canon(d[1]) + ";";
    }
    if (d[0] == "A") {
        return "A" + d[1].dump() + Canon(d[2]) + "|" + Canon(d[3]) + ";";
    }
    return d.dump();
}
bool Cacheable(J const& d) {
    if (d[0] == "n") {
        return false;
    }
    if (d[0] == "l" or d[0] == "m") {
        return std::all_of(d[1].begin(), d[1].end(), Cacheable);
    }
    if (d[0] == "r") {
        return Cacheable(d[3]);
    }
    if (d[0] == "V") {
        return Cacheable(d[1]);
    }
    if (d[0] == "A") {
        return Cacheable(d[3]);
    }
    return true;
}
// as plain JSON, with null for what is not
J Encoded(J const& d) {
    if (d[0] == "v") {
        return d[1].is_number() ? J(d[1].get<double>()) : d[1];
    }
    if (d[0] == "l") {
        auto r = J::array();
        for (auto const& x : d[1]) {
            r.push_back(Encoded(x));
        }
        return r;
    }
    if (d[0] == "m") {
        auto r = J::object();
        for (auto const& [k, x] : d[1].items()) {
            r[k] = Encoded(x);
        }
        return r;
    }
    return nullptr;
}
bool Pure(J const& d) { return d[0] == "v" or ((d[0] == "l" or d[0] == "m") and std::all_of(d[1].begin(), d[1].end(), Pure)); }
J FromPlain(J const& j) {
    if (j.is_array() or j.is_object()) {
        J r = j.is_array() ? J::array() : J::object();
        for (auto const& [k, x] : j.items()) {
            if (j.is_array()) {
                r.push_back(FromPlain(x));
            }
            else {
                r[k] = FromPlain(x);
            }
        }
        return {j.is_array() ? "l" : "m", r};
    }
    return {"v", j};
}
J Known(char c, std::size_t size, char type) {
    return {{"type", "KNOWN"}, {"data", {{"id", std::string(40, c)}, {"size", size}, {"file_type", std::string(1, type)}}}};
}
J L(std::vector<J> const& xs = {}) {
    auto l = J::array();
    for (auto const& x : xs) {
        l.push_back(x);
    }
    return {"l", l};
}
J M(J const& x) { return {"m", x}; }

std::vector<J> const& Artifacts() {
    static std::vector<J> const r{{{"type", "LOCAL"}, {"data", {{"path", "a"}, {"repository", ""}}}},
                                  {{"type", "LOCAL"}, {"data", {{"path", "b"}, {"repository", ""}}}},
                                  {{"type", "LOCAL"}, {"data", {{"path", "a"}, {"repository", "r"}}}},
                                  {{"type", "ACTION"}, {"data", {{"id", "x"}, {"path", "a"}}}},
                                  {{"type", "TREE"}, {"data", {{"id", "x"}}}},
                                  {{"type", "TREE_OVERLAY"}, {"data", {{"id", "x"}}}},
                                  Known('a', 1, 'f'),
                                  Known('a', 1, 'x'),
                                  Known('b', 1, 't')};
    return r;
}
std::vector<J> Leaf() {
    std::vector<J> r;
    for (auto const* x : {"null", "true", "false", "0", "1", "-1", "1.5", "0.1", "1e300", "9007199254740993", R"("")", R"("a")", R"("b")", R"("0")", R"("1")", R"("null")", R"("true")", R"("[]")",
                          R"("{}")", R"("\"")", R"("ä")", R"("\n")", R"("$")", R"("@")", R"("a\u0000b")"}) {
        r.push_back({"v", J::parse(x)});
    }
    for (auto const& a : Artifacts()) {
        r.push_back({"a", a});
        r.push_back(FromPlain(a));                 // looks like it
        r.push_back({"v", "@" + a.dump()});        // as hashed
    }
    for (auto const& n : {J{"", "", "a", 0}, J{"", "", "a", 1}, J{"", "", "a", 2}, J{"", "", "a", 3}, J{"", "", "a", 4}, J{"r", "", "a", 0}, J{"", "m", "a", 0}, J{"", "a", "", 0}, J{"", "FILE", "a", 0}}) {
        r.push_back({"n", n});
    }
    for (auto const* x : {"@", "r", "", "a", "FILE"}) {
        r.push_back({"v", std::string{"$[\"@\",\""} + x + "\"]"});
    }
    r.push_back(FromPlain(J{"@", "", "", "a"}));  // looks like a name
    r.push_back(L());
    r.push_back(M(J::object()));
    return r;
}
// values of values
std::vector<J> Compose(std::vector<J> const& xs, bool pairs) {
    std::vector<J> r;
    for (auto const& x : xs) {
        r.push_back(L(std::vector<J>{x}));
        r.push_back(L(std::vector<J>{x, x}));
        r.push_back(L(std::vector<J>{L(std::vector<J>{x})}));
        r.push_back(M({{"a", x}}));
        r.push_back(M({{"b", x}}));
        r.push_back(M({{"", x}}));
        r.push_back(M({{"a", x}, {"b", x}}));
        r.push_back({"V", {"r", M(J::object()), M(J::object()), M({{"a", x}})}});
        r.push_back({"r", M(J::object()), M(J::object()), M({{"a", x}})});
        r.push_back({"A", "t", M({{"s", L()}}), M({{"d", L(std::vector<J>{x})}})});
        r.push_back({"A", "t", M(J::object()), M({{"d", L(std::vector<J>{x})}})});
        r.push_back({"A", "d", M(J::object()), M({{"t", L(std::vector<J>{x})}})});
        if (x[0] == "v" and x[1].is_string()) {
            r.push_back({"A", "t", M({{"s", L(std::vector<J>{x})}}), M(J::object())});
            r.push_back({"A", x[1], M(J::object()), M(J::object())});
        }
        if (x[0] == "a") {
            for (auto const& m : {M({{"a", x}}), M({{"b", x}})}) {
                r.push_back({"r", m, M(J::object()), M(J::object())});
                r.push_back({"r", M(J::object()), m, M(J::object())});
                r.push_back({"r", m, m, M({{"a", x}})});
                r.push_back({"V", {"r", m, M(J::object()), M(J::object())}});
                r.push_back({"V", {"r", M(J::object()), m, M(J::object())}});
            }
            // what these look like
            r.push_back(M({{"artifact_stage", M({{"a", x}})}, {"runfiles", M(J::object())}, {"provides", M(J::object())}}));
        }
        r.push_back(M({{"type", {"v", "VALUE_NODE"}}, {"result", x}}));
        r.push_back(M({{"type", {"v", "ABSTRACT_NODE"}}, {"node_type", {"v", "t"}}, {"string_fields", M(J::object())}, {"target_fields", M({{"d", L(std::vector<J>{x})}})}}));
        r.push_back(M({{"artifact_stage", M(J::object())}, {"runfiles", M(J::object())}, {"provides", M({{"a", x}})}}));
    }
    if (pairs) {
        for (auto const& x : xs) {
            for (auto const& y : xs) {
                r.push_back(L(std::vector<J>{x, y}));
                r.push_back(M({{"a", x}, {"b", y}}));
            }
        }
    }
    return r;
}
std::vector<J> const& Alphabet() {
    static auto const all = [] {
        auto r = Leaf();
        auto one = Compose(r, true);
        // of the composed ones, those of few leaves again
        std::vector<J> few{{"v", nullptr}, {"v", "a"}, {"v", 1}, {"a", Artifacts()[0]}, {"a", Artifacts()[6]}, FromPlain(Artifacts()[0]), {"n", {"", "", "a", 0}}};
        auto some = Compose(few, false);
        auto two = Compose(some, hn::ctx().thorough);
        r.insert(r.end(), one.begin(), one.end());
        r.insert(r.end(), two.begin(), two.end());
        return r;
    }();
    return all;
}
std::vector<std::string> const& Canons() {
    static auto const all = [] {
        std::vector<std::string> r;
        for (auto const& d : Alphabet()) {
            r.push_back(Canon(d));
        }
        return r;
    }();
    return all;
}

void Values() {
    auto const& all = Alphabet();
    (void)Canons();
    hn::Enumerate("values", (long)all.size(), "every value of the alphabet (leafs that look alike, artifacts, names, and lists, maps, results, nodes of them, twice nested), made in four ways: identity, cacheability, JSON forms", [&](long i, hn::Shard& s) {
        auto const& d = all[(size_t)i];
        if (not s.Case(d.dump())) {
            return;
        }
        auto v = Maker{0}(d);
        s.Nontrivial(d[0] != "v");
        s.Outcome(v->ToIdentifier());
        for (int way = 1; way < 4; ++way) {
            auto w = Maker{way}(d);
            s.Check(*w == *v and w == v and *v == *w and w->ToHash() == v->ToHash() and w->ToIdentifier() == v->ToIdentifier() and std::hash<ExpressionPtr>{}(v) == std::hash<ExpressionPtr>{}(w) and not(*w != *v) and
                        not(w < v) and not(v < w),
                    d.dump() + " differs from itself", "itself");
            s.Check(w->ToJson() == v->ToJson(), "JSON of " + d.dump() + " depends on how it was made", "json");
            s.Check(w->IsCacheable() == Cacheable(d), d.dump() + ": cacheable is " + (w->IsCacheable() ? "true" : "false"), "cacheable");
        }
        s.Check(v->IsCacheable() == Cacheable(d), d.dump() + ": cacheable is " + (v->IsCacheable() ? "true" : "false"), "cacheable");
        s.Check(v->ToJson(Expression::JsonMode::NullForNonJson) == Encoded(d), "JSON of " + d.dump() + " is " + v->ToJson(Expression::JsonMode::NullForNonJson).dump(), "encoded");
        s.Check(v->ToString() == v->ToJson().dump(), "text of " + d.dump(), "text");
        if (Pure(d)) {
            s.Check(v->ToJson() == Encoded(d), "JSON of " + d.dump() + " is " + v->ToJson().dump(), "plain");
            auto b = Expression::FromJson(v->ToJson());
            s.Check(b and *b == *v, d.dump() + " is something else after reading its JSON", "read");
        }
        // exactly one kind
        auto t = d[0].get<std::string>();
        bool leaf = t == "v";
        s.Check(v->IsNone() == (leaf and d[1].is_null()) and v->IsBool() == (leaf and d[1].is_boolean()) and v->IsNumber() == (leaf and d[1].is_number()) and v->IsString() == (leaf and d[1].is_string()) and
                    v->IsName() == (t == "n") and v->IsArtifact() == (t == "a") and v->IsResult() == (t == "r") and v->IsNode() == (t == "V" or t == "A") and v->IsList() == (t == "l") and v->IsMap() == (t == "m"),
                "kind of " + d.dump(), "kind");
    });
    std::vector<std::string> ids;
    long const chunk = 64;
    long const n = ((long)all.size() + chunk - 1) / chunk;
    hn::Enumerate("comparisons", n, "every two of the values: equal, with equal identifiers and hashes, exactly if they are the same", [&](long i, hn::Shard& s) {
        static std::vector<ExpressionPtr> vs;
        if (vs.empty()) {
            for (auto const& d : all) {
                vs.push_back(Maker{0}(d));
            }
        }
        for (long k = i * chunk; k < std::min((long)all.size(), (i + 1) * chunk); ++k) {
            if (not s.Case(all[(size_t)k].dump())) {
                continue;
            }
            s.Nontrivial();
            auto const& x = *vs[(size_t)k];
            auto const& c = Canons()[(size_t)k];
            auto const h = x.ToHash();
            for (size_t j = 0; j < all.size(); ++j) {
                bool same = c == Canons()[j];
                auto const& y = *vs[j];
                if ((x == y) != same or (x != y) == same or (h == y.ToHash()) != same) {
                    s.Fail(all[(size_t)k].dump() + " and " + all[j].dump() + " are taken for " + (same ? "different" : "the same"), "compare");
                }
                if (same and std::hash<Expression>{}(x) != std::hash<Expression>{}(y)) {
                    s.Fail("hash of " + all[(size_t)k].dump(), "hash");
                }
                // nodes and results by themselves
                if (x.IsNode() and y.IsNode() and (x.Node() == y.Node()) != same) {
                    s.Fail("nodes " + all[(size_t)k].dump() + " and " + all[j].dump() + " are taken for " + (same ? "different" : "the same"), "node");
                }
                if (x.IsResult() and y.IsResult() and (x.Result() == y.Result()) != same) {
                    s.Fail("results " + all[(size_t)k].dump() + " and " + all[j].dump() + " are taken for " + (same ? "different" : "the same"), "result");
                }
                if (x.IsNode() and y.IsNode() and same and x.Node().ToString() != y.Node().ToString()) {
                    s.Fail("text of node " + all[(size_t)k].dump(), "node text");
                }
            }
        }
    });
}

// --- configurations ---------------------------------------------------------------
void Configurations() {
    using Cfg = std::map<std::string, J>;
    std::vector<J> const vals{nullptr, 1, "x", J::object({{"a", 1}})};
    std::vector<std::string> const keys{"a", "b"};
    struct Op {
        std::string name;
        std::function<void(Configuration&, Cfg&)> f;
    };
    std::vector<Op> ops;
    for (auto const& k : keys) {
        for (auto const& v : vals) {
            ops.push_back({"set " + k + "=" + v.dump(), [=](Configuration& c, Cfg& m) {
                               c = c.Update(k, Expression::FromJson(v));
                               m[k] = v;
                           }});
        }
    }
    std::vector<J> const maps{J::object(), {{"a", nullptr}}, {{"a", 1}, {"b", "x"}}, {{"b", nullptr}, {"c", 2}}};
    for (auto const& j : maps) {
        ops.push_back({"update " + j.dump(), [=](Configuration& c, Cfg& m) {
                           c = c.Update(Expression::FromJson(j));
                           for (auto const& [k, v] : j.items()) {
                               m[k] = v;
                           }
                       }});
        ops.push_back({"update with plain " + j.dump(), [=](Configuration& c, Cfg& m) {
                           Expression::map_t::underlying_map_t u;
                           for (auto const& [k, v] : j.items()) {
                               u.emplace(k, Expression::FromJson(v));
                               m[k] = v;
                           }
                           c = c.Update(u);
                       }});
    }
    std::vector<std::vector<std::string>> const prunes{{}, {"a"}, {"b"}, {"a", "b"}, {"b", "a", "b"}, {"a", "c"}};
    for (auto const& p : prunes) {
        auto ref = [=](Cfg& m) {
            Cfg r;
            for (auto const& k : p) {
                r[k] = m.contains(k) ? m[k] : J{};
            }
            m = r;
        };
        ops.push_back({"prune to " + J(p).dump(), [=](Configuration& c, Cfg& m) {
                           c = c.Prune(p);
                           ref(m);
                       }});
        ops.push_back({"prune to set " + J(p).dump(), [=](Configuration& c, Cfg& m) {
                           c = c.Prune(std::unordered_set<std::string>{p.begin(), p.end()});
                           ref(m);
                       }});
        ops.push_back({"prune to expression " + J(p).dump(), [=](Configuration& c, Cfg& m) {
                           c = c.Prune(Expression::FromJson(J(p)));
                           ref(m);
                       }});
    }
    auto check = [&](hn::Shard& s, Configuration const& c, Cfg const& m, std::string const& hist) {
        J j = J::object();
        for (auto const& [k, v] : m) {
            j[k] = v;
        }
        auto want = Configuration{Expression::FromJson(j)};
        s.Check(c == want and want == c and not(c < want) and not(want < c) and c.hash() == want.hash(), hist + ": " + c.ToString() + " instead of " + j.dump(), "equal");
        s.Check(c.ToJson() == want.ToJson() and c.ToString() == want.ToString(), hist + ": as text", "text");
        for (auto const* k : {"a", "b", "c", "d"}) {
            bool in = m.contains(k);
            s.Check(c.VariableFixed(k) == in, hist + ": " + k + " fixed", "fixed");
            auto v = in ? Expression::FromJson(m.at(k)) : Expression::kNone;
            auto x = c[k], y = c[ExpressionPtr{std::string{k}}];
            s.Check(*x == *v and *y == *v, hist + ": value of " + k, "value");
        }
    };
    int const depth = hn::ctx().thorough ? 4 : 3;
    long const n = (long)ops.size();
    hn::Enumerate("configurations", n * n, "all sequences of up to three (thorough: four) updates and prunings of all forms: content, equality, order and values as of a plain map, earlier ones unchanged", [&](long i, hn::Shard& s) {
        std::vector<std::pair<Configuration, Cfg>> st{{Configuration{}, {}}};
        std::string hist;
        std::function<void(int)> go = [&](int k) {
            auto const [c0, m0] = st.back();
            for (long o = 0; o < n; ++o) {
                if (k == 0 and o != i / n) {
                    continue;
                }
                if (k == 1 and o != i % n) {
                    continue;
                }
                auto c = c0;
                auto m = m0;
                auto h = hist;
                hist += ops[(size_t)o].name + "; ";
                ops[(size_t)o].f(c, m);
                st.emplace_back(c, m);
                if ((k > 0 or i % n == 0) and s.Case(hist)) {
                    s.Nontrivial(k > 0);
                    check(s, c, m, hist);
                    check(s, c0, m0, hist + "(before)");
                }
                if (k + 1 < depth) {
                    go(k + 1);
                }
                st.pop_back();
                hist = h;
            }
        };
        go(0);
    });
    // order and equality of every two
    std::vector<J> cs;
    for (auto const& a : vals) {
        for (auto const& b : vals) {
            for (int k = 0; k < 4; ++k) {
                J j = J::object();
                if (k & 1) {
                    j["a"] = a;
                }
                if (k & 2) {
                    j["b"] = b;
                }
                cs.push_back(j);
            }
        }
    }
    hn::Enumerate("configuration order", (long)cs.size(), "every three configurations: equality is that of content, order total and consistent", [&](long i, hn::Shard& s) {
        auto mk = [](J const& j) { return Configuration{Expression::FromJson(j)}; };
        auto a = mk(cs[(size_t)i]);
        for (auto const& jb : cs) {
            auto b = mk(jb);
            bool same = jb == cs[(size_t)i];
            if (not s.Case(cs[(size_t)i].dump() + " " + jb.dump())) {
                continue;
            }
            s.Nontrivial(not same);
            s.Check((a == b) == same and (a < b or b < a) == not same and not(a < b and b < a), "order of " + cs[(size_t)i].dump() + " and " + jb.dump(), "order");
            for (auto const& jc : cs) {
                auto c = mk(jc);
                s.Check(not(a < b and b < c) or a < c, "order of three", "transitive");
            }
        }
    });
}

// --- target results -----------------------------------------------------------------
// an artifact not known, after the build
J Replaced(J const& a) {
    if (a["type"] == "KNOWN") {
        return a;
    }
    auto const text = a.dump();
    auto c = "0123456789abcdef"[std::hash<std::string>{}(text) % 16];
    return Known(c, 7 + text.size(), "fxtl"[std::hash<std::string>{}(text) / 16 % 4]);
}
J Substitute(J const& d) {
    if (d[0] == "a") {
        return {"a", Replaced(d[1])};
    }
    if (d[0] == "l" or d[0] == "m") {
        J r = d;
        for (auto& x : r[1]) {
            x = Substitute(x);
        }
        return r;
    }
    if (d[0] == "r") {
        return {"r", Substitute(d[1]), Substitute(d[2]), Substitute(d[3])};
    }
    if (d[0] == "V") {
        return {"V", Substitute(d[1])};
    }
    if (d[0] == "A") {
        return {"A", d[1], Substitute(d[2]), Substitute(d[3])};
    }
    return d;
}
void Collect(J const& d, std::set<std::string>& out) {
    if (d[0] == "a") {
        if (d[1]["type"] != "KNOWN") {
            out.insert(d[1].dump());
        }
    }
    else if (d[0] == "l" or d[0] == "m") {
        for (auto const& x : d[1]) {
            Collect(x, out);
        }
    }
    else if (d[0] == "r" or d[0] == "V" or d[0] == "A") {
        for (auto it = d.begin() + 1; it != d.end(); ++it) {
            if (it->is_array()) {
                Collect(*it, out);
            }
        }
    }
}
using Replacements = std::unordered_map<ArtifactDescription, Artifact::ObjectInfo>;
auto const kType = HashFunction::Type::GitSHA1;
void Add(Replacements& r, std::string const& text) {
    auto from = ArtifactDescription::FromJson(kType, J::parse(text));
    auto to = ArtifactDescription::FromJson(kType, Replaced(J::parse(text)));
    r.emplace(*from, *to->ToArtifact().Info());
}
void Results() {
    auto const& all = Alphabet();
    hn::Enumerate("results", (long)all.size(), "target results providing every cacheable value of the alphabet (in a map, twice in lists, together with what it looks like): read back from their serialised form they are the same, "
                  "with artifacts replaced by what was built; without the replacement no form is given", [&](long i, hn::Shard& s) {
        auto const& d = all[(size_t)i];
        if (not Cacheable(d) or not s.Case(d.dump())) {
            return;
        }
        std::vector<J> provides{M({{"p", d}}), M({{"p", L(std::vector<J>{d, d})}, {"q", d}}), M({{"p", d}, {"q", M({{"type", {"v", "VALUE_NODE"}}, {"result", d}})}})};
        if (d[0] == "m") {
            provides.push_back(d);
        }
        auto arts = Artifacts();
        for (size_t k = 0; k < provides.size(); ++k) {
            auto stage = M(J::object()), run = M(J::object());
            if ((i + (long)k) % 3 != 0) {
                stage = M({{"x/y", {"a", arts[(size_t)i % arts.size()]}}, {"x", {"a", Known('c', 3, 'x')}}});
            }
            if ((i + (long)k) % 3 != 1) {
                run = M({{"r", {"a", arts[((size_t)i / 2 + k) % arts.size()]}}});
            }
            J whole{"r", stage, run, provides[k]};
            auto v = Maker{(int)k}(whole);
            auto const& res = v->Result();
            s.Nontrivial();
            auto same = [&](std::optional<J> const& j, J const& want, std::string const& what) {
                if (not j) {
                    s.Fail(what + " of " + whole.dump() + ": none", what);
                    return;
                }
                auto text = J::parse(j->dump());
                auto back = TargetResult::FromJson(kType, text);
                if (not back) {
                    s.Fail(what + " of " + whole.dump() + " cannot be read", what);
                    return;
                }
                auto w = Maker{0}(want);
                auto as = ExpressionPtr{*back};
                bool ok = *back == w->Result() and back->is_cacheable and back->ToJson() == w->Result().ToJson();
                s.Check(ok, what + " of " + whole.dump() + " is read as " + as->ToString(), what);
                s.Check(Canon(want) != Canon(whole) or *back == res, what + " of " + whole.dump() + ": not itself", what);
            };
            same(res.ToJson(), whole, "form");
            std::set<std::string> need;
            Collect(whole, need);
            Replacements r;
            for (auto const& a : need) {
                Add(r, a);
            }
            same(res.ReplaceNonKnownAndToJson(r), Substitute(whole), "replaced form");
            Replacements most = r;
            Add(most, J{{"type", "ACTION"}, {"data", {{"id", "unrelated"}, {"path", "a"}}}}.dump());
            same(res.ReplaceNonKnownAndToJson(most), Substitute(whole), "form with more replacements");
            for (auto const& a : need) {
                Replacements less;
                for (auto const& b : need) {
                    if (a != b) {
                        Add(less, b);
                    }
                }
                Add(less, J{{"type", "ACTION"}, {"data", {{"id", "unrelated"}, {"path", "a"}}}}.dump());
                s.Check(not res.ReplaceNonKnownAndToJson(less), whole.dump() + " has a form without " + a, "missing");
            }
        }
    });
    // broken forms
    std::vector<J> whole;
    for (auto const& x : std::vector<J>{{"v", 1}, {"a", Known('a', 1, 'f')}, L(std::vector<J>{{"v", "a"}}), M({{"a", {"v", nullptr}}}), {"r", M(J::object()), M(J::object()), M(J::object())}, {"V", {"r", M(J::object()), M(J::object()), M(J::object())}},
                                        {"A", "t", M({{"s", L(std::vector<J>{{"v", "x"}})}}), M({{"d", L(std::vector<J>{{"V", {"r", M(J::object()), M(J::object()), M(J::object())}}})}})}}) {
        whole.push_back({"r", M({{"x", {"a", Known('a', 1, 'f')}}}), M({{"x", {"a", Known('b', 1, 't')}}}), M({{"p", x}})});
    }
    std::vector<J> forms;
    for (auto const& w : whole) {
        auto v = Maker{0}(w);
        auto j = v->Result().ToJson();
        std::function<void(J::json_pointer const&)> go = [&](J::json_pointer const& p) {
            auto const& here = j.at(p);
            for (auto const* x : {"null", "1", R"("x")", "[]", "{}", "[1]", R"({"x":1})"}) {
                auto c = j;
                c.at(p) = J::parse(x);
                forms.push_back(c);
            }
            if (not p.empty()) {
                auto c = j;
                auto& up = c.at(p.parent_pointer());
                if (up.is_object()) {
                    up.erase(p.back());
                }
                else {
                    up.erase((size_t)std::stoul(p.back()));
                }
                forms.push_back(c);
            }
            if (here.is_object() or here.is_array()) {
                for (auto const& [k, v] : here.items()) {
                    go(p / k);
                }
            }
        };
        go(J::json_pointer{});
    }
    hn::Enumerate("broken forms", (long)forms.size(), "serialised target results with any part removed or replaced by any other kind of JSON: rejected, or read as some target result, without a crash", [&](long i, hn::Shard& s) {
        auto const& f = forms[(size_t)i];
        if (not s.Case(f.dump())) {
            return;
        }
        s.Nontrivial();
        auto r = TargetResult::FromJson(kType, f);
        s.Outcome(r ? "read" : "rejected");
        if (r) {
            (void)r->ToJson();
            auto as = ExpressionPtr{*r};
            (void)as->ToHash();
            s.Check(r->artifact_stage->IsMap() and r->runfiles->IsMap(), f.dump() + " read as stage that is none", "stage");
        }
    });
}

// --- names ------------------------------------------------------------------------------
void Names() {
    std::vector<std::string> const parts{"", "a", "b", "a/b", "FILE", "TREE", "GLOB", "@", "#", "./", "\"", "ä"};
    std::vector<EntityName> all;
    std::vector<J> what;
    for (auto const& r : {"", "a", "FILE", "@"}) {
        for (auto const& m : parts) {
            if (m == "./") {
                continue;  // the same as the top-level one
            }
            for (auto const& n : parts) {
                for (int k = 0; k < 5; ++k) {
                    all.emplace_back(r, m, n, static_cast<ReferenceType>(k));
                    what.push_back({r, m, n, k});
                }
            }
        }
    }
    auto x = Expression::FromJson(J{{"a", 1}}), y = Expression::FromJson(J{{"a", 2}});
    for (auto const& p : {std::pair{x, x}, std::pair{x, y}, std::pair{y, x}}) {
        all.emplace_back(BuildMaps::Base::AnonymousTarget{.rule_map = p.first, .target_node = p.second});
        what.push_back({"anonymous", (int)what.size()});
    }
    hn::Enumerate("names", (long)all.size(), "every two names of targets (repositories, modules and names that look like markers, five kinds of reference, anonymous ones): equal, with the same text and hash exactly if the same; order total", [&](long i, hn::Shard& s) {
        if (not s.Case(what[(size_t)i].dump())) {
            return;
        }
        s.Nontrivial();
        static std::vector<std::string> texts, jsons;
        if (texts.empty()) {
            for (auto const& x : all) {
                texts.push_back(x.ToString());
                jsons.push_back(x.ToJson().dump());
            }
        }
        auto const& a = all[(size_t)i];
        for (size_t j = 0; j < all.size(); ++j) {
            auto const& b = all[j];
            bool same = (size_t)i == j;
            auto say = [&] { return what[(size_t)i].dump() + " and " + what[j].dump(); };
            bool good = (a == b) == same and (texts[(size_t)i] == texts[j]) == same and (jsons[(size_t)i] == jsons[j]) == same and ((a < b) or (b < a)) == not same and not(a < b and b < a);
            if (good and not same) {
                continue;
            }
            s.Check((a == b) == same, say() + " equal", "equal");
            s.Check((texts[(size_t)i] == texts[j]) == same and (jsons[(size_t)i] == jsons[j]) == same, say() + " have texts " + a.ToString() + " and " + b.ToString(), "text");
            if (same) {
                s.Check(std::hash<EntityName>{}(a) == std::hash<EntityName>{}(b), say() + " hash", "hash");
                s.Check(not(a < b), say() + " ordered", "order");
            }
            else {
                s.Check((a < b) != (b < a), say() + " ordered", "order");
            }
        }
    });
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    LogConfig::SetSinks({});
    Layers();
    Configurations();
    Values();
    Results();
    Names();
    return hn::Finish();
}
