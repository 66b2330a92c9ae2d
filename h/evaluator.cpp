// C05: the expression evaluator against a reference interpreter written from
// doc/concepts/expressions.md, over all expressions of an alphabet up to a
// composition depth, in several environments.
#include "rt/harness.hpp"
#include "h/refeval.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <optional>
#include "src/buildtool/build_engine/base_maps/entity_name_data.hpp"
#include "src/buildtool/build_engine/expression/configuration.hpp"
#include "src/buildtool/build_engine/expression/evaluator.hpp"
#include "src/buildtool/build_engine/expression/expression.hpp"
#include "src/buildtool/build_engine/expression/expression_ptr.hpp"
#include "src/buildtool/build_engine/expression/function_map.hpp"
#include "src/buildtool/common/artifact_description.hpp"

namespace {
using namespace refeval;
struct RefS : Ref {
    J Extra(std::string const& t, J const& e, Env const& env) override {
        if (t == "SPECIAL") {
            return J::array({Arg(e, "x", env)});
        }
        throw Err{};
    }
};

// ------------------------------------------------------------ both sides
ArtifactDescription Art(int i) {
    return ArtifactDescription::CreateLocal("file" + std::to_string(i), "repo");
}
BuildMaps::Base::EntityName Name(int i) {
    return BuildMaps::Base::EntityName{"", "mod", "t" + std::to_string(i)};
}
ExpressionPtr ToReal(J const& v) {
    if (IsSpecial(v)) {
        auto s = v["@"].get<std::string>();
        int n = s.back() - '0';
        return s.starts_with("name") ? ExpressionPtr{Name(n)} : ExpressionPtr{Art(n)};
    }
    if (v.is_array()) {
        Expression::list_t l;
        for (auto const& x : v) {
            l.push_back(ToReal(x));
        }
        return ExpressionPtr{l};
    }
    if (v.is_object()) {
        Expression::map_t::underlying_map_t m;
        for (auto const& [k, x] : v.items()) {
            m.emplace(k, ToReal(x));
        }
        return ExpressionPtr{Expression::map_t{m}};
    }
    return Expression::FromJson(v);
}
J FromReal(ExpressionPtr const& v) {
    if (v->IsArtifact()) {
        auto p = v->Artifact().ToJson()["data"]["path"].get<std::string>();
        return J{{"@", std::string{"art"} + p.back()}};
    }
    if (v->IsName()) {
        auto n = v->Name().GetNamedTarget().name;
        return J{{"@", std::string{"name"} + n.back()}};
    }
    if (v->IsList()) {
        J r = J::array();
        for (auto const& x : v->List()) {
            r.push_back(FromReal(x));
        }
        return r;
    }
    if (v->IsMap()) {
        J r = J::object();
        std::string last;
        bool first = true;
        for (auto const& [k, x] : v->Map()) {
            if (not first and not(last < k)) {
                return "keys not in order";
            }
            first = false;
            last = k;
            r[k] = FromReal(x);
        }
        return r;
    }
    return v->ToJson();
}

FunctionMapPtr Special() {
    return FunctionMap::MakePtr(
        "SPECIAL", [](auto&& eval, auto const& expr, auto const& env) {
            return ExpressionPtr{Expression::list_t{eval(expr["x"], env)}};
        });
}

std::vector<J> EnvJson() {
    return {J::object(),
            J{{"x", "v"}, {"y", nullptr}, {"l", {"p", "q/r.c"}}, {"m", {{"k1", 1}, {"k2", {"z"}}}}, {"_", 7}, {"$1", false}},
            J{{"x", {{"@", "art1"}}}, {"y", {{"@", "name1"}}}, {"l", {{{"@", "art1"}}, {{"@", "art2"}}, {{"@", "art1"}}}},
              {"m", {{"d/k1", {{"@", "art1"}}}, {"e/k1", {{"@", "name2"}}}, {"./d/k1", {{"@", "art1"}}}}}, {"$_", 3}},
            J::parse(R"({"x": [{"@":"name1"}], "y": {"@":"art1"},
                         "l": [{"k":{"@":"name1"}},{"k":{"@":"name1"}}],
                         "m": {"k":{"@":"name1"},"./k":{"@":"name1"},"j":[{"@":"name2"}]}})"),
            J::parse(R"({"x": "k1", "y": ["k1","k2"],
                         "l": [{"k":{"@":"art1"}},{"k":{"@":"art1"}},{"j":{"@":"name1"}}],
                         "m": {"a":[{"@":"art1"}],"b/a":[{"@":"art1"}],"b/./a":[{"@":"art1"}]}, "_":"_", "$2":2})")};
}

struct Runner {
    std::vector<J> envj = EnvJson();
    std::vector<Env> envs;
    std::vector<Configuration> cfgs;
    std::vector<std::string> cfg_str;
    FunctionMapPtr fn = Special();
    RefS ref;
    Runner() {
        for (auto const& e : envj) {
            Env m;
            for (auto const& [k, v] : e.items()) {
                m[k] = v;
            }
            envs.push_back(m);
            cfgs.emplace_back(ToReal(e));
            cfg_str.push_back(cfgs.back().ToString());
        }
    }
    void Run(J const& e, hn::Shard& s) {
        for (size_t i = 0; i < envs.size(); ++i) {
            auto c = "env" + std::to_string(i) + " " + e.dump();
            if (not s.Case(c)) {
                continue;
            }
            std::optional<J> want;
            bool unspec = false;
            try {
                want = ref.E(e, envs[i]);
            } catch (Err const& x) {
                unspec = x.msg == "unspecified";
            }
            int logged = 0;
            std::string msg;
            auto expr = Expression::FromJson(e);
            auto got = expr.Evaluate(cfgs[i], fn, [&](auto const& m) {
                ++logged;
                msg = m;
            });
            s.Nontrivial(want.has_value());
            if (want) {
                if (s.samples.size() < 2 and e.dump().size() > 60) {
                    s.Sample(c + " -> " + want->dump());
                }
                s.Outcome(want->dump().substr(0, 60));
            }
            auto t = e.is_object() and e.contains("type") and e["type"].is_string() ? e["type"].get<std::string>() : "";
            auto key = t + "/";
            if (not want) {
                if (not unspec) {
                    s.Check(not got, "evaluates to " + (got ? FromReal(got).dump() : "") + " but should be an error", key + "noerr");
                    s.Check(got or (logged == 1 and not msg.empty()), "error not reported exactly once", key + "log");
                }
            }
            else if (not got) {
                s.Fail("should evaluate to " + want->dump() + " but is an error: " + msg.substr(0, 300), key + "err");
            }
            else {
                auto g = FromReal(got);
                s.Check(g == *want, "should evaluate to " + want->dump() + " but evaluates to " + g.dump(), key + "val");
                s.Check(logged == 0, "error logged although evaluation succeeded", key + "log");
            }
            s.Check(cfgs[i].ToString() == cfg_str[i], "environment changed by evaluation", key + "env");
            s.Check(FromReal(expr) == e, "expression changed by evaluation", key + "expr");
        }
    }
};

// ------------------------------------------------------------ alphabet
J Q(J const& v) { return J{{"type", "'"}, {"$1", v}}; }
J V(char const* n) { return J{{"type", "var"}, {"name", n}}; }
J const kFail = J{{"type", "fail"}, {"msg", "boom"}};

// small pool for many-argument constructs
std::vector<J> PoolS() {
    return {nullptr, 1, "", "a", J::array(), J::array({"a", "b/c.d"}), Q(J{{"a", 1}, {"b/a", 2}}),
            V("x"), V("m"), V("l"), V("y"), J{{"type", "empty_map"}}, kFail};
}
std::vector<J> PoolL() {
    auto p = PoolS();
    std::vector<J> more{
        true, false, 0, 2.5, -1, 1.5, "b", "3", "-1", "./a", "a/b.c", "a/../b", "/abs/x.y", ".hidden", "x.y.z", "dir/", "d1/d2/../e.f",
        "it's '", "\xc3\xa4/\"\\\n", "..", "../a", ".",
        J::array({1, 2, 0.5}), J::array({"a", "b", "a", "b"}), Q(J::array({J::array({"a"}), J::array(), J::array({"a", "c"})})),
        J::array({1, "1", true, nullptr, 1}), J::array({nullptr}), J::array({J::array()}),
        Q(J::array({J{{"a", 1}}, J{{"b", 2}}, J{{"a", 1}, {"c", nullptr}}})), Q(J::array({J{{"a", 1}}, J::object(), J{{"a", 2}}})),
        Q(J::array({J::object(), 1})), Q(J::array({J::object()})), Q(J::array({J{{"a", nullptr}}, J{{"a", nullptr}}, J{{"a", 3}, {"d", 4}}, J{{"d", 4}, {"b", 1}}, J{{"0", 0}}})),
        Q(J{{"a", nullptr}}), Q(J{{"a/x", 1}, {"b/x", 2}}), Q(J{{"a/x", 1}, {"b/x", 1}}), Q(J{{"./a", 1}, {"a", 1}}), Q(J{{"./a", 1}, {"a", 2}, {"c", 3}}),
        Q(J{{"a/b/c", 1}, {"a/d", 2}, {"e", 3}, {"a/../a/d", 2}, {"../f", 4}}), Q(J{{"/x", 1}, {"x", 2}}),
        Q(J{{"type", "x"}}), J{{"a", 1}}, J{{"type", 3}}, J{{"type", "nonsense"}}, J{{"type", "SPECIAL"}, {"x", V("x")}},
        J::array({V("x"), V("x")}), J::array({V("y")}), J{{"type", "var"}, {"name", "zz"}, {"default", "dd"}}};
    p.insert(p.end(), more.begin(), more.end());
    return p;
}

struct Spec {
    std::string type;
    // key, pool: S small, L large, or literal alternatives
    struct K {
        std::string key;
        std::vector<J> alts;  // absent is always an alternative too
    };
    std::vector<K> keys;
};
std::vector<Spec> Specs(std::vector<J> const& S, std::vector<J> const& L) {
    std::vector<J> names{"x", "y", "zz", "", 3, nullptr, J::array({"x"})};
    std::vector<J> vars{"v", 1, nullptr};
    std::vector<J> bodies_v{V("v"), V("_"), J::array({V("_"), V("x"), V("$1"), V("$_"), V("v")}), kFail,
                            J{{"type", "=="}, {"$1", V("_")}, {"$2", "a"}}};
    std::vector<J> bodies_2{J::array({V("$1"), V("$2"), V("v")}), J::array({V("_"), V("$_"), V("v"), V("w")}), J{{"type", "++"}, {"$1", {V("$1"), J::array({V("_")})}}}, kFail, "c"};
    std::vector<Spec> r;
    for (auto const* u : {"not", "nub_right", "nub_left", "basename", "keys", "values", "range", "enumerate", "set", "reverse",
                          "length", "++", "+", "*", "map_union", "join_cmd", "json_encode", "'", "`", "fail", "context", "and", "or", "empty_map",
                          "nonsense", ",", ",@", "assert_non_empty"}) {
        r.push_back({u, {{"$1", L}}});
    }
    r.push_back({"change_ending", {{"$1", L}, {"ending", L}}});
    r.push_back({"join", {{"$1", L}, {"separator", L}}});
    r.push_back({"escape_chars", {{"$1", {"\u00e9", "\u00a9\u00e8", "a\u20ac\u00e9b", "\U0001f600"}}, {"chars", {"\u00e9", "\u20aca", "\u00e8\u00a9", "\U0001f601"}}, {"escape_prefix", {"\\", "\u00e9", ""}}}});
    r.push_back({"escape_chars", {{"$1", L}, {"chars", {"a", "ab", "", "/.", nullptr, kFail, V("x"), J::array()}}, {"escape_prefix", {"", "%%", 1, kFail, V("x")}}}});
    r.push_back({"to_subdir", {{"$1", L}, {"subdir", L}, {"flat", {true, false, "x", nullptr, kFail}}, {"msg", {"m", kFail}}}});
    r.push_back({"from_subdir", {{"$1", L}, {"subdir", L}}});
    r.push_back({"==", {{"$1", L}, {"$2", L}}});
    r.push_back({"concat_target_name", {{"$1", L}, {"$2", L}}});
    r.push_back({"disjoint_map_union", {{"$1", L}, {"msg", {"m", kFail}}}});
    r.push_back({"assert_non_empty", {{"$1", L}, {"msg", {"m", kFail}}}});
    r.push_back({"context", {{"$1", L}, {"msg", {"m", kFail}}}});
    r.push_back({"singleton_map", {{"key", L}, {"value", L}}});
    r.push_back({"lookup", {{"key", {"a", "b", "k1", "zz", "", 1, nullptr, V("x"), kFail}}, {"map", L}, {"default", S}}});
    r.push_back({"[]", {{"index", {0, 1, -1, -2, 5, -5, 0.5, 1.4, "0", "1", "-1", "x", "", nullptr, J::array(), V("x"), kFail}}, {"list", L}, {"default", S}}});
    r.push_back({"var", {{"name", names}, {"default", L}}});
    r.push_back({"if", {{"cond", L}, {"then", S}, {"else", S}}});
    r.push_back({"env", {{"vars", {J::array(), J::array({"x"}), J::array({"x", "zz", "y", "x"}), J::array({1}), "x", nullptr, V("l"), J::array({V("x")}), J::object()}}}});
    r.push_back({"foreach", {{"range", L}, {"var", vars}, {"body", bodies_v}}});
    r.push_back({"foreach_map", {{"range", L}, {"var_key", {"v", 1}}, {"var_val", {"w", "v", 1}}, {"body", bodies_2}}});
    r.push_back({"zip_with", {{"range_1", L}, {"range_2", S}, {"var_1", {"v", 1}}, {"var_2", {"w", "v", 1}}, {"body", bodies_2}}});
    r.push_back({"zip_map", {{"range_key", L}, {"range_val", L}}});
    r.push_back({"foldl", {{"range", L}, {"start", S}, {"var", {"v", 1}}, {"accum_var", {"w", 1}}, {"body", {bodies_2[0], bodies_2[2], J::array({V("w"), V("v"), V("_")}), kFail, "c"}}}});
    r.push_back({"assert", {{"$1", L}, {"var", {"v", 1}}, {"predicate", {true, false, V("_"), V("v"), kFail, J{{"type", "=="}, {"$1", V("_")}, {"$2", "a"}}}}, {"msg", {"m", kFail}}}});
    std::vector<J> conds;
    for (auto const& a : {J(true), J(false), V("x"), V("zz"), kFail}) {
        for (auto const& b : {J(0), J("s"), V("l"), kFail}) {
            conds.push_back(J::array({a, "first"}));
            conds.push_back(J::array({J::array({a, "first"}), J::array({b, V("x")})}));
            conds.push_back(J::array({J::array({a, kFail}), J::array({b, "second", "third"})}));
        }
    }
    for (auto const& j : {J::array(), J::array({J::array()}), J("x"), J(nullptr), J{{"a", 1}}, J::array({J::array({"a"})}), V("l")}) {
        conds.push_back(j);
    }
    r.push_back({"cond", {{"cond", conds}, {"default", S}}});
    r.push_back({"case", {{"case", {J::object(), J{{"a", "A"}, {"b", kFail}, {"v", V("l")}, {"type", "T"}}, J::array(), nullptr, "a", V("m")}},
                          {"expr", L}, {"default", S}}});
    r.push_back({"case*", {{"case", {J::array(), J::array({J::array({"a", "A"}), J::array({1, "one"}), J::array({V("x"), V("l")}), J::array({J::array(), "empty"})}),
                                     J::array({J::array({nullptr, "null"}), J::array({V("y"), "name"}), J::array({Q(J{{"a", 1}, {"b/a", 2}}), "map"}), J::array({kFail, 1})}),
                                     J::array({J::array({"a"})}), J::array({J::array({"a", kFail})}), "x", nullptr, J::object()}},
                           {"expr", L}, {"default", S}}});
    std::vector<J> binds{J::array(), "x", nullptr, J::object(), J::array({J::array({"a"})}), J::array({J::array({1, 2})}), V("l"),
                         J::array({J::array({"x", "new"})}),
                         J::array({J::array({"x", "new"}), J::array({"v", V("x")}), J::array({"x", J::array({V("x"), V("v")})})}),
                         J::array({J::array({"x", nullptr})}), J::array({J::array({V("x"), 1})}),
                         J::array({J::array({"v", kFail})}), J::array({J::array({"y", V("y")}), J::array({"$1", V("y")})}), J::array({"ab"})};
    r.push_back({"let*", {{"bindings", binds}, {"body", {V("x"), J::array({V("x"), V("v"), V("y"), V("$1")}), "c", kFail,
                                                        J{{"type", "let*"}, {"bindings", {{"v", V("x")}, {"x", "inner"}}}, {"body", {V("x"), V("v")}}}, J{{"a", 1}}}}}});
    r.push_back({"and", {{"$1", {J::array(), J::array({true, 1, "x"}), J::array({true, false, kFail}), J::array({true, kFail, false}), J::array({V("x"), V("l")}), J::array({0}), Q(J::array({1, 0})), Q(J::array({kFail}))}}}});
    r.push_back({"or", {{"$1", {J::array(), J::array({false, 0, ""}), J::array({false, true, kFail}), J::array({false, kFail, true}), J::array({V("y"), V("l")}), J::array({V("zz")}), Q(J::array({0, 1})), Q(J::array({0}))}}}});
    r.push_back({"SPECIAL", {{"x", L}}});
    return r;
}

// all quasi-quote templates up to a depth
std::vector<J> Templates(int depth) {
    std::vector<J> t{1, "s", nullptr, J{{"type", ","}, {"$1", V("l")}}, J{{"type", ",@"}, {"$1", V("l")}}};
    if (depth == 0) {
        return t;
    }
    auto sub = Templates(depth - 1);
    std::vector<J> r{t};
    for (auto const& j : {J{{"type", ","}}, J{{"type", ",@"}}, J{{"type", ",@"}, {"$1", "x"}}, J{{"type", ","}, {"$1", kFail}}, J{{"type", "`"}, {"$1", J{{"type", ","}, {"$1", V("x")}}}},
                          J{{"type", 1}, {"$1", J{{"type", ","}, {"$1", V("x")}}}}, J::array(), J::object(), J{{"type", ","}, {"$1", J{{"type", "`"}, {"$1", J{{"type", ","}, {"$1", 2}}}}}}}) {
        r.push_back(j);
    }
    for (auto const& a : sub) {
        r.push_back(J::array({a}));
        r.push_back(J{{"k", a}});
        r.push_back(J{{"type", ","}, {"$1", a}});
    }
    if (depth <= 2) {
        auto const& small = depth == 1 ? sub : Templates(0);
        for (auto const& a : sub) {
            for (auto const& b : small) {
                r.push_back(J::array({a, b}));
                r.push_back(J::array({b, a}));
                r.push_back(J{{"k", a}, {"l", b}});
            }
        }
    }
    return r;
}

// expressions of composition depth 1, one per construct and a few more
std::vector<J> Level1() {
    return {J{{"type", "foreach"}, {"var", "x"}, {"range", V("l")}, {"body", {V("x"), V("_")}}},
            J{{"type", "foreach_map"}, {"range", V("m")}, {"body", J{{"type", "singleton_map"}, {"key", V("_")}, {"value", V("$_")}}}},
            J{{"type", "let*"}, {"bindings", {{"x", {"t"}}, {"l", V("x")}}}, {"body", {V("x"), V("l")}}},
            J{{"type", "map_union"}, {"$1", {V("m"), Q(J{{"k1", "o"}, {"n", 1}})}}},
            J{{"type", "disjoint_map_union"}, {"$1", {V("m"), Q(J{{"n", 1}})}}},
            J{{"type", "to_subdir"}, {"$1", V("m")}, {"subdir", "s/"}},
            J{{"type", "to_subdir"}, {"$1", V("m")}, {"flat", true}},
            J{{"type", "from_subdir"}, {"$1", V("m")}, {"subdir", "d"}},
            J{{"type", "lookup"}, {"key", "k2"}, {"map", V("m")}, {"default", V("l")}},
            J{{"type", "[]"}, {"index", -1}, {"list", V("l")}, {"default", "none"}},
            J{{"type", "join"}, {"$1", V("l")}, {"separator", ","}},
            J{{"type", "join_cmd"}, {"$1", V("l")}},
            J{{"type", "if"}, {"cond", V("y")}, {"then", V("l")}, {"else", V("m")}},
            J{{"type", "foldl"}, {"range", V("l")}, {"body", {V("_"), V("$1")}}},
            J{{"type", "zip_map"}, {"range_key", {"u", "v"}}, {"range_val", V("l")}},
            J{{"type", "zip_with"}, {"range_1", V("l")}, {"range_2", {1, 2}}, {"body", {V("$2"), V("$1")}}},
            J{{"type", "enumerate"}, {"$1", V("l")}},
            J{{"type", "keys"}, {"$1", V("m")}},
            J{{"type", "values"}, {"$1", V("m")}},
            J{{"type", "nub_right"}, {"$1", V("l")}},
            J{{"type", "++"}, {"$1", {V("l"), J::array({"z"})}}},
            J{{"type", "+"}, {"$1", {1, 1.5}}},
            J{{"type", "range"}, {"$1", "2"}},
            J{{"type", "env"}, {"vars", {"x", "m"}}},
            J{{"type", "case*"}, {"expr", V("x")}, {"case", {{"v", "hit"}}}},
            J{{"type", "case"}, {"expr", V("x")}, {"case", J{{"v", V("m")}}}},
            J{{"type", "json_encode"}, {"$1", V("m")}},
            J{{"type", "`"}, {"$1", {1, J{{"type", ",@"}, {"$1", V("l")}}, J{{"type", ","}, {"$1", V("x")}}}}},
            J{{"type", "assert_non_empty"}, {"$1", V("x")}},
            J{{"type", "context"}, {"$1", V("x")}, {"msg", kFail}},
            J{{"type", "var"}, {"name", "y"}, {"default", J{{"type", "var"}, {"name", "x"}}}},
            J{{"type", "and"}, {"$1", {V("x"), V("l")}}}};
}

// ------------------------------------------------------------ error reporting
void Messages(hn::Shard& s) {
    struct M {
        J e;
        std::vector<std::string> want;
        bool user;
    };
    std::vector<M> ms{
        {J{{"type", "fail"}, {"msg", "UM-1"}}, {"UM-1"}, true},
        {J{{"type", "fail"}, {"msg", {"UM-1", V("x")}}}, {"UM-1", "\"v\""}, true},
        {J{{"type", "context"}, {"$1", J{{"type", "+"}, {"$1", "a"}}}, {"msg", "UM-2"}}, {"UM-2"}, true},
        {J{{"type", "context"}, {"$1", J{{"type", "fail"}, {"msg", "UM-1"}}}, {"msg", {"UM-2", V("x")}}}, {"UM-1", "UM-2", "\"v\""}, true},
        {J{{"type", "context"}, {"$1", J{{"type", "fail"}, {"msg", "UM-1"}}}, {"msg", J{{"type", "fail"}, {"msg", "UM-3"}}}}, {"UM-1", "UM-3"}, true},
        {J{{"type", "context"}, {"$1", J{{"type", "context"}, {"$1", kFail}, {"msg", "UM-4"}}}, {"msg", "UM-5"}}, {"boom", "UM-4", "UM-5"}, true},
        {J{{"type", "assert"}, {"$1", "val"}, {"predicate", false}, {"msg", {"UM-6", V("_")}}}, {"UM-6", "val"}, true},
        {J{{"type", "assert"}, {"$1", "val"}, {"var", "q"}, {"predicate", false}, {"msg", {"UM-6", V("q")}}}, {"UM-6", "val"}, true},
        {J{{"type", "assert_non_empty"}, {"$1", ""}, {"msg", "UM-7"}}, {"UM-7"}, true},
        {J{{"type", "assert_non_empty"}, {"$1", J::array()}, {"msg", kFail}}, {"boom"}, true},
        {J{{"type", "disjoint_map_union"}, {"$1", Q(J::array({J{{"kk", 1}}, J{{"kk", 2}}}))}, {"msg", "UM-8"}}, {"UM-8", "kk"}, true},
        {J{{"type", "to_subdir"}, {"$1", Q(J{{"a/x", 1}, {"b/x", 2}})}, {"flat", true}, {"msg", "UM-9"}}, {"UM-9"}, true},
        {J{{"type", "to_subdir"}, {"$1", Q(J{{"./x", 1}, {"x", 2}})}, {"msg", "UM-10"}}, {"UM-10"}, true},
        {J{{"type", "let*"}, {"bindings", J::array({J::array({"a", J{{"type", "fail"}, {"msg", "UM-11"}}})})}, {"body", 1}}, {"UM-11"}, true},
        {J{{"type", "+"}, {"$1", {1, "x"}}}, {"+"}, false},
        {J{{"type", "nope"}}, {"nope"}, false},
    };
    Configuration env{ToReal(EnvJson()[1])};
    // as they are, and wrapped in constructs that pass errors on
    std::vector<std::function<J(J const&)>> wraps{
        [](J const& e) { return e; },
        [](J const& e) { return J::array({1, e}); },
        [](J const& e) { return J{{"type", "if"}, {"cond", true}, {"then", e}}; },
        [](J const& e) { return J{{"type", "not"}, {"$1", e}}; },
        [](J const& e) { return J{{"type", "=="}, {"$1", 1}, {"$2", e}}; },
        [](J const& e) { return J{{"type", "foreach"}, {"range", {1}}, {"body", e}}; },
        [](J const& e) { return J{{"type", "let*"}, {"bindings", J::array({J::array({"a", e})})}, {"body", 1}}; },
        [](J const& e) { return J{{"type", "let*"}, {"body", e}}; },
        [](J const& e) { return J{{"type", "singleton_map"}, {"key", "k"}, {"value", e}}; },
        [](J const& e) { return J{{"type", "disjoint_map_union"}, {"$1", {e}}, {"msg", "OUTER"}}; },
        [](J const& e) { return J{{"type", "assert_non_empty"}, {"$1", e}, {"msg", "OUTER"}}; }};
    for (auto const& m : ms) {
        for (size_t w = 0; w < wraps.size(); ++w) {
            auto e = wraps[w](m.e);
            if (not s.Case("message " + e.dump())) {
                continue;
            }
            int logged = 0;
            int user = 0;
            std::string msg;
            auto got = Expression::FromJson(e).Evaluate(
                env, FunctionMapPtr{}, [&](auto const& x) { ++logged; msg = x; },
                [](auto const&) { return std::string{}; }, [&] { ++user; });
            s.Nontrivial();
            s.Check(not got and logged == 1, "error not reported exactly once");
            for (auto const& t : m.want) {
                s.Check(msg.find(t) != std::string::npos, "error message lacks " + t + ": " + msg);
            }
            s.Check(user == (m.user ? 1 : 0), "user context not noted correctly");
        }
    }
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    bool th = hn::ctx().thorough;
    auto S = PoolS();
    auto L = PoolL();
    auto specs = Specs(S, L);
    auto l1 = Level1();
    Runner run;

    // 1: pools themselves and every construct over the pools
    {
        // one item: construct x alternative of its first key
        struct Item {
            size_t spec;
            int first;
        };
        std::vector<Item> items;
        for (size_t i = 0; i < specs.size(); ++i) {
            for (int f = -1; f < (int)specs[i].keys[0].alts.size(); ++f) {
                items.push_back({i, f});
            }
        }
        hn::Enumerate("constructs", (long)items.size(),
                      "each built-in construct with every combination of argument expressions from the pools "
                      "(including absent, failing and ill-typed ones) in 5 environments; nontrivial: has a value",
                      [&](long n, hn::Shard& s) {
                          auto const& sp = specs[items[n].spec];
                          std::vector<int> idx(sp.keys.size(), -1);
                          idx[0] = items[n].first;
                          while (true) {
                              J e{{"type", sp.type}};
                              for (size_t k = 0; k < sp.keys.size(); ++k) {
                                  if (idx[k] >= 0) {
                                      e[sp.keys[k].key] = sp.keys[k].alts[idx[k]];
                                  }
                              }
                              run.Run(e, s);
                              size_t k = 1;
                              for (; k < sp.keys.size(); ++k) {
                                  if (++idx[k] < (int)sp.keys[k].alts.size()) {
                                      break;
                                  }
                                  idx[k] = -1;
                              }
                              if (k >= sp.keys.size()) {
                                  break;
                              }
                          }
                      });
        hn::Enumerate("atoms", (long)L.size(), "every expression of the pool itself, alone, in lists and nested lists",
                      [&](long n, hn::Shard& s) {
                          run.Run(L[n], s);
                          for (auto const& o : S) {
                              run.Run(J::array({L[n], o}), s);
                              run.Run(J::array({o, J::array({L[n]})}), s);
                          }
                      });
    }
    // 2: compositions: every argument position takes every level-1 expression
    {
        auto few = std::vector<J>{V("x"), V("l"), V("m"), "a", J::array({"k1"})};
        if (th) {
            few.insert(few.end(), S.begin(), S.end());
        }
        struct Item {
            size_t spec;
            size_t pos;
            size_t x;
        };
        std::vector<Item> items;
        for (size_t i = 0; i < specs.size(); ++i) {
            for (size_t p = 0; p < specs[i].keys.size(); ++p) {
                for (size_t x = 0; x < l1.size(); ++x) {
                    items.push_back({i, p, x});
                }
            }
        }
        hn::Enumerate("compositions", (long)items.size(),
                      "each argument position of each construct holding each of the depth-1 expressions, the other arguments from a small pool",
                      [&](long n, hn::Shard& s) {
                          auto const& sp = specs[items[n].spec];
                          auto pos = items[n].pos;
                          auto const& x = l1[items[n].x];
                          {
                              {
                                  std::vector<size_t> idx(sp.keys.size(), 0);
                                  auto alts = [&](size_t k) -> std::vector<J> const& {
                                      return sp.keys[k].alts.size() > 20 ? few : sp.keys[k].alts;
                                  };
                                  while (true) {
                                      J e{{"type", sp.type}};
                                      for (size_t k = 0; k < sp.keys.size(); ++k) {
                                          if (k == pos) {
                                              e[sp.keys[k].key] = x;
                                          }
                                          else if (idx[k] > 0) {
                                              e[sp.keys[k].key] = alts(k)[idx[k] - 1];
                                          }
                                      }
                                      run.Run(e, s);
                                      size_t k = 0;
                                      for (; k < sp.keys.size(); ++k) {
                                          if (k == pos) {
                                              continue;
                                          }
                                          if (++idx[k] <= alts(k).size()) {
                                              break;
                                          }
                                          idx[k] = 0;
                                      }
                                      if (k >= sp.keys.size()) {
                                          break;
                                      }
                                  }
                              }
                          }
                      });
    }
    // 3: quasi-quotation
    {
        auto t = Templates(th ? 3 : 2);
        hn::Enumerate("quasi-quote", (long)t.size(), "every quasi-quote template up to depth 2 (thorough: 3) over the template alphabet",
                      [&](long n, hn::Shard& s) {
                          run.Run(J{{"type", "`"}, {"$1", t[n]}}, s);
                      });
    }
    hn::Enumerate("messages", 1, "error-reporting constructs below constructs that pass errors on: the user's message is reported",
                  [&](long, hn::Shard& s) { Messages(s); });
    return hn::Finish();
}
