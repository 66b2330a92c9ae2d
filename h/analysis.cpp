// C10: analysis of targets defined by user rules, in all configurations.
#include "h/analysis_engine.hpp"

namespace {
using namespace ana;

// ------------------------------------------------------------------ config
// Chains of rules with configuration transitions above leaves that depend on
// the configuration in every possible way.
void Leaves(Part& p) {
    auto& repo = p.world.repos["r"];
    repo.files["f"] = 'f';
    auto gen = [&](char const* n, J const& vars, J const& data) {
        p.Add("r", "", n, J{{"type", "file_gen"}, {"arguments_config", vars}, {"name", n}, {"data", data}});
    };
    gen("const", P("[]"), "c");
    gen("on-a", P(R"(["a"])"), JE(V("a")));
    gen("on-b", P(R"(["b"])"), JE(V("b")));
    gen("on-ab", P(R"(["a","b"])"), JE(J::array({V("a"), V("b")})));
    gen("unused-a", P(R"(["a"])"), "u");
    gen("fails-on-2", P(R"(["a"])"), P(R"({"type":"case*","expr":{"type":"var","name":"a"},"case":[["2",{"type":"fail","msg":"two"}]],"default":"ok"})"));
    p.Add("r", "", "cfg-swap", J{{"type", "configure"}, {"arguments_config", {"a", "b"}}, {"target", "on-ab"},
                                 {"config", P(R"({"type":"map_union","$1":[{"type":"singleton_map","key":"a","value":{"type":"var","name":"b"}},
                                                                       {"type":"singleton_map","key":"b","value":{"type":"var","name":"a"}}]})")}});
    p.Add("r", "", "cfg-fix-a", P(R"({"type":"configure","target":"on-ab","config":{"type":"singleton_map","key":"a","value":"1"}})"));
    p.Add("r", "", "cfg-null-a", P(R"({"type":"configure","target":"on-ab","config":{"type":"singleton_map","key":"a","value":null}})"));
    p.Add("r", "", "cfg-target", P(R"({"type":"configure","arguments_config":["b"],"target":{"type":"if","cond":{"type":"var","name":"b"},"then":"on-a","else":"const"}})"));
    p.Add("r", "", "exported", P(R"({"type":"export","target":"on-ab","flexible_config":["a"],"fixed_config":{"b":"1"}})"));
    p.Add("r", "", "exported-more", P(R"({"type":"export","target":"const","flexible_config":["a","b"]})"));
    p.Add("r", "", "installed", P(R"({"type":"install","arguments_config":["b"],"deps":["on-a"],"files":{"x":{"type":"if","cond":{"type":"var","name":"b"},"then":"f","else":"const"}}})"));
    p.Add("r", "", "scripted", P(R"({"type":"generic","arguments_config":["a"],"deps":["on-b"],"outs":["o"],"cmds":["x",{"type":"json_encode","$1":{"type":"var","name":"a"}}]})"));
    p.Add("r", "", "tree", P(R"({"type":"tree","arguments_config":["a"],"name":{"type":"if","cond":{"type":"var","name":"a"},"then":"ta","else":"tn"},"deps":["on-b"]})"));
    p.Add("r", "", "picks", P(R"({"type":"install","arguments_config":["a"],"deps":{"type":"if","cond":{"type":"var","name":"a"},"then":["on-b"],"else":[]}})"));
    // by a user rule, from config_vars, with an action
    repo.rules[""] = J::object();
    repo.rules[""]["leaf-rule"] = P(R"({"config_vars":["a"],"string_fields":["s"],
        "expression":{"type":"let*","bindings":[["x",{"type":"ACTION","outs":["leaf"],"cmd":["c",{"type":"json_encode","$1":{"type":"var","name":"a"}},{"type":"join","$1":{"type":"FIELD","name":"s"}}]}]],
           "body":{"type":"RESULT","artifacts":{"type":"var","name":"x"},"provides":{"type":"env","vars":["a","b"]}}}})");
    p.Add("r", "", "by-rule", P(R"({"type":"leaf-rule","arguments_config":["b"],"s":["s",{"type":"json_encode","$1":{"type":"var","name":"b"}}]})"));
    p.Add("r", "", "by-rule-plain", P(R"({"type":"leaf-rule"})"));
}
std::vector<std::string> const kLeaves{"f",        "const",      "on-a",    "on-b",          "on-ab",     "unused-a", "fails-on-2",
                                       "cfg-swap", "cfg-fix-a",  "cfg-null-a", "cfg-target", "exported",  "exported-more", "installed",
                                       "scripted", "tree",       "picks",   "by-rule",       "by-rule-plain"};
std::vector<std::pair<std::string, J>> Transitions() {
    return {{"absent", {}},
            {"one-empty", P("[{\"type\":\"empty_map\"}]")},
            {"set-a", P(R"([{"type":"singleton_map","key":"a","value":"1"}])")},
            {"null-a", P(R"([{"type":"singleton_map","key":"a","value":null}])")},
            {"a-from-b", P(R"([{"type":"singleton_map","key":"a","value":{"type":"var","name":"b"}}])")},
            {"two", P(R"([{"type":"singleton_map","key":"a","value":"1"},{"type":"singleton_map","key":"a","value":"2"}])")},
            {"same-twice", P(R"([{"type":"singleton_map","key":"b","value":"2"},{"type":"singleton_map","key":"b","value":"2"}])")},
            {"none", P("[]")},
            {"swap", P(R"([{"type":"map_union","$1":[{"type":"singleton_map","key":"a","value":{"type":"var","name":"b"}},{"type":"singleton_map","key":"b","value":{"type":"var","name":"a"}}]}])")},
            {"fail", P(R"({"type":"fail","msg":"no"})")},
            {"not-list", P(R"({"type":"empty_map"})")},
            {"not-maps", P(R"(["x"])")},
            {"by-field", P(R"({"type":"foreach","var":"v","range":{"type":"FIELD","name":"c"},"body":{"type":"singleton_map","key":{"type":"var","name":"v"},"value":"2"}})")},
            {"other-var", P(R"([{"type":"singleton_map","key":"z","value":{"type":"var","name":"a"}}])")}};
}
// collects the dependencies of a field under all transitions
J Collect(char const* field, J const& ts) {
    return J{{"type", "++"}, {"$1", Foreach("t", ts, Foreach("d", Field(field),
        J::array({V("t"), P(R"({"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"},"transition":{"type":"var","name":"t"}})"),
                    P(R"({"type":"DEP_RUNFILES","dep":{"type":"var","name":"d"},"transition":{"type":"var","name":"t"}})"),
                    P(R"({"type":"DEP_PROVIDES","dep":{"type":"var","name":"d"},"transition":{"type":"var","name":"t"},"provider":"seen"})")})))}};
}
void ConfigPart(bool th) {
    Part p;
    p.name = "configurations";
    Leaves(p);
    p.configs = AllConfigs({"a", "b"}, {nullptr, "1", "2"});
    auto ts = Transitions();
    auto& rules = p.world.repos["r"].rules[""];
    struct CV {
        char const* n;
        J vars;
    };
    std::vector<CV> cvs{{"0", P("[]")}, {"a", P(R"(["a"])")}, {"b", P(R"(["b"])")}, {"ab", P(R"(["a","b"])")}};
    std::vector<std::string> kinds{"target", "implicit", "anonymous"};
    // rules: field kind x transition x variables of the rule
    auto rule_name = [](std::string const& k, std::string const& t, std::string const& v) { return k + "/" + t + "/" + v; };
    auto make_rule = [&](std::string const& kind, J const& t, J const& vars, J const& leaf) {
        J list = t.is_null() ? P("[{\"type\":\"empty_map\"}]") : t;
        J seen = kind == "anonymous" ? J{{"type", "++"}, {"$1", {Collect("an", list)}}} : Collect("deps", list);
        J r{{"config_vars", vars}, {"config_fields", {"c"}}};
        char const* field = "deps";
        if (kind == "target") {
            r["target_fields"] = {"deps"};
        }
        else if (kind == "implicit") {
            r["implicit"] = {{"deps", {leaf}}};
        }
        else {
            r["target_fields"] = {"deps"};
            r["anonymous"] = {{"an", {{"target", "deps"}, {"provider", "nodes"}, {"rule_map", {{"n", "node-rule"}}}}}};
            field = "an";
        }
        if (not t.is_null()) {
            r["config_transitions"] = {{field, t}};
        }
        r["expression"] = Let({{"seen", seen}, {"act", P(R"({"type":"ACTION","outs":["out"],"cmd":["run",{"type":"json_encode","$1":{"type":"env","vars":["a","b"]}}],
                "inputs":{"type":"disjoint_map_union","$1":{"type":"foreach_map","range":{"type":"enumerate","$1":{"type":"var","name":"seen"}},
                    "body":{"type":"to_subdir","subdir":{"type":"var","name":"_"},"$1":{"type":"[]","index":1,"list":{"type":"var","name":"$_"}}}}}})")}},
            P(R"({"type":"RESULT","artifacts":{"type":"var","name":"act"},"provides":{"type":"map_union","$1":[
                {"type":"singleton_map","key":"seen","value":{"type":"var","name":"seen"}},{"type":"singleton_map","key":"nodes","value":[]}]}})"));
        return r;
    };
    // nodes that carry the dependencies on
    rules["node-rule"] = P(R"({"target_fields":["on"],"string_fields":["s"],"config_vars":["b"],
        "expression":{"type":"RESULT","artifacts":{"type":"ACTION","outs":["node"],"cmd":["n",{"type":"json_encode","$1":{"type":"var","name":"b"}},{"type":"join","$1":{"type":"FIELD","name":"s"}}],
                                                   "inputs":{"type":"map_union","$1":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"on"},"body":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"}}}}},
                     "provides":{"type":"empty_map"}}})");
    rules["noder"] = P(R"({"target_fields":["deps"],"config_vars":["a"],
        "expression":{"type":"RESULT","provides":{"type":"singleton_map","key":"nodes","value":
           {"type":"++","$1":[{"type":"foreach","var":"d","range":{"type":"FIELD","name":"deps"},"body":
             {"type":"VALUE_NODE","$1":{"type":"RESULT","artifacts":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"}}}}},
            [{"type":"ABSTRACT_NODE","node_type":"n","string_fields":{"type":"singleton_map","key":"s","value":[{"type":"json_encode","$1":{"type":"var","name":"a"}}]},
              "target_fields":{"type":"singleton_map","key":"on","value":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"deps"},"body":
                 {"type":"VALUE_NODE","$1":{"type":"RESULT","artifacts":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"}}}}}}}]]}}}})");
    for (auto const& l : kLeaves) {
        p.Add("r", "", "noded/" + l, J{{"type", "noder"}, {"deps", {l}}});
    }
    for (auto const& kind : kinds) {
        for (auto const& [tn, t] : ts) {
            for (auto const& cv : cvs) {
                auto rn = rule_name(kind, tn, cv.n);
                if (kind != "implicit") {
                    rules[rn] = make_rule(kind, t, cv.vars, {});
                }
                for (auto const& l : kLeaves) {
                    J d{{"type", rn}, {"c", {"a"}}, {"deps", {l}}};
                    if (kind == "implicit") {
                        rules[rn + "/" + l] = make_rule(kind, t, cv.vars, l);
                        d = J{{"type", rn + "/" + l}, {"c", {"b"}}};
                    }
                    else if (kind == "anonymous") {
                        d["deps"] = {"noded/" + l};
                    }
                    auto n = rn + "/" + l;
                    p.Add("r", "", n, d);
                    p.targets.push_back({"r", "", n});
                }
            }
        }
    }
    // depth two: a second rule above, only reaching for the first
    auto second = [&](std::string const& k1, std::string const& t1, std::string const& v1, std::string const& below) {
        auto n = rule_name(k1, t1, v1) + " over " + below;
        p.Add("r", "", n, J{{"type", rule_name(k1, t1, v1)}, {"arguments_config", {"b"}},
                            {"c", {{"type", "if"}, {"cond", V("b")}, {"then", {"a", "b"}}, {"else", P("[]")}}}, {"deps", {below}}});
        p.targets.push_back({"r", "", n});
    };
    auto first = p.targets;
    std::vector<std::string> tops{"absent", "set-a", "null-a", "a-from-b", "two", "swap", "by-field", "other-var"};
    for (auto const& t : first) {
        bool few = t.name.find("/f") != std::string::npos or t.name.find("implicit") == 0;
        if (few and not th) {
            continue;
        }
        for (auto const& tn : tops) {
            bool one_var = t.name.find("/a/") != std::string::npos or t.name.find("/b/") != std::string::npos;
            if (one_var and not th and tn != "absent" and tn != "set-a" and tn != "swap" and tn != "by-field") {
                continue;
            }
            for (auto const& v : {"0", "ab"}) {
                if (one_var and not th and std::string{v} == "0") {
                    continue;
                }
                if (std::string{v} == "0" and (tn == "a-from-b" or tn == "swap" or tn == "other-var") and not th) {
                    continue;
                }
                second("target", tn, v, t.name);
            }
        }
    }
    // several fields and several targets in a field, with different transitions
    rules["multi"] = P(R"({"config_vars":["a"],"target_fields":["x","y"],"implicit":{"i":["on-ab"]},
        "config_transitions":{"x":[{"type":"singleton_map","key":"a","value":"1"},{"type":"empty_map"}],"i":[{"type":"singleton_map","key":"b","value":{"type":"var","name":"a"}}]},
        "expression":{"type":"RESULT","provides":{"type":"map_union","$1":[
            {"type":"singleton_map","key":"x1","value":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"x"},"body":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"},"transition":{"type":"singleton_map","key":"a","value":"1"}}}},
            {"type":"singleton_map","key":"x0","value":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"x"},"body":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"}}}},
            {"type":"singleton_map","key":"y","value":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"y"},"body":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"}}}},
            {"type":"singleton_map","key":"y1","value":{"type":"case*","expr":{"type":"var","name":"a"},"case":[["2",{"type":"foreach","var":"d","range":{"type":"FIELD","name":"y"},"body":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"},"transition":{"type":"singleton_map","key":"a","value":"1"}}}]],"default":"-"}},
            {"type":"singleton_map","key":"i","value":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"i"},"body":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"},"transition":{"type":"singleton_map","key":"b","value":{"type":"var","name":"a"}}}}}]}}})");
    for (auto const& l : kLeaves) {
        for (auto const& m : kLeaves) {
            auto n = "multi/" + l + "/" + m;
            p.Add("r", "", n, J{{"type", "multi"}, {"x", {l, m}}, {"y", {m}}});
            p.targets.push_back({"r", "", n});
        }
    }
    if (not th) {
        // single analyses only for a part of the targets
        Part q = p;
        q.name = "configurations-alone";
        q.joint = false;
        q.targets = first;
        q.Go("each target of one level of rules, in each of 16 configurations, analysed alone");
    }
    p.Go("every chain of one or two rules (field kind x configuration transition x variables of the rule) above every kind of "
         "configuration-dependent leaf, in the 16 configurations over a, b in absent, null, \"1\", \"2\", all analysed in one "
         "session, in both orders; nontrivial: (target, configuration) with a value");
    if (th) {
        Part q = p;
        q.name = "configurations-alone";
        q.joint = false;
        q.Go("the same, each target and configuration analysed alone");
    }
}

// --------------------------------------------------------------- functions
// Every construct that is only available in the defining expression of a
// rule, with all argument combinations from the alphabets.
struct Arg {
    char const* key;
    std::vector<J> alts;  // a discarded value: absent
};
struct Construct {
    char const* type;
    J base;
    std::vector<Arg> args;
    size_t depth = 2;  // number of arguments that differ from the base
    bool bare = false;  // used as value of the rule
};
J Absent() { return J(J::value_t::discarded); }
J Art(char const* dep) { return J{{"type", "DEP_ARTIFACTS"}, {"dep", V(dep)}}; }
J Single(J const& k, J const& v) { return J{{"type", "singleton_map"}, {"key", k}, {"value", v}}; }
J Union(std::vector<J> const& l) {
    J x = J::array();
    for (auto const& y : l) {
        x.push_back(y);
    }
    return J{{"type", "map_union"}, {"$1", x}};
}
J QQ(J const& x) { return J{{"type", "'"}, {"$1", x}}; }

std::vector<J> Stages() {
    // f, g: artifacts from variables
    auto one = [](char const* k, char const* a) { return Single(k, V(a)); };
    return {QQ(J::object()), one("a", "f"), one("./a", "f"), one("a/b", "f"), one("..", "f"), one("../a", "f"), one("/a", "f"), one(".", "f"), one("", "f"),
            one("a/../b", "f"), one("a/../../b", "f"), one("a/", "f"), one("a//b", "f"),
            Union({one("a", "f"), one("b", "g")}), Union({one("a", "f"), one("./a", "g")}), Union({one("a", "f"), one("./a", "f")}),
            Union({one("a", "f"), one("a/b", "g")}), Union({one("a/b", "f"), one("a/c", "g")}), Union({one(".", "f"), one("b", "g")}),
            Union({one("x/a/b", "f"), one("x/a", "g")}), Union({one("a/b/../c", "f"), one("a/c/d", "g")}),
            Single("a", "string"), Single("a", V("d")), QQ(J::array()), "x", QQ(J{}), V("f")};
}
std::vector<Construct> Constructs() {
    auto S = Stages();
    std::vector<J> strs{Absent(), QQ(J::array()), QQ({"a"}), QQ({"a", "b"}), QQ({"a", "a"}), QQ({"./a"}), QQ({"a/b"}), QQ({"../a"}), QQ({"/a"}), QQ({"b", "./b"}),
                        QQ({"a", 1}), QQ({""}), QQ({"."}), "a", QQ(J{}), QQ(J::object())};
    std::vector<J> names{V("d"), V("e"), V("i"), V("n"), V("undeclared"), "d", QQ(J{}), Absent(), V("f")};
    std::vector<J> trans{Absent(), QQ(J::object()), Single("a", "1"), Single("a", "2"), QQ(J{}), QQ(J::array()), "x", Single("b", QQ(J{}))};
    std::vector<J> taint{Absent(), QQ(J::array()), QQ({"t"}), QQ({"u"}), QQ({"t", "u"}), QQ({"t", "t"}), "t", QQ({1}), QQ(J{})};
    std::vector<J> res{P(R"({"type":"RESULT"})"), J{{"type", "RESULT"}, {"artifacts", Single("k", V("f"))}}, J{{"type", "RESULT"}, {"provides", Single("p", V("d"))}},
                       J{{"type", "RESULT"}, {"artifacts", Single("k", V("f"))}, {"runfiles", Single("r", V("g"))}, {"provides", Single("p", "v")}}};
    auto vn = [](J const& r) { return J{{"type", "VALUE_NODE"}, {"$1", r}}; };
    return {
        {"FIELD", P(R"({"name":"deps"})"), {{"name", {"deps", "more", "s", "c", "imp", "an", "none", "type", QQ(J{}), QQ(7), Absent(), Join({"de", "ps"})}}}, 1},
        {"DEP_ARTIFACTS", J{{"dep", V("d")}}, {{"dep", names}, {"transition", trans}}},
        {"DEP_RUNFILES", J{{"dep", V("d")}}, {{"dep", names}, {"transition", trans}}},
        {"DEP_PROVIDES", J{{"dep", V("d")}, {"provider", "p"}}, {{"dep", names}, {"transition", trans},
            {"provider", {"p", "nul", "missing", "nodes", QQ(7), QQ(J{}), Absent(), "fls", "emptyl"}}, {"default", {Absent(), "dflt", QQ(J{}), P(R"({"type":"fail","msg":"m"})")}}}, 4},
        {"ACTION", J{{"outs", {"o"}}, {"cmd", {"c"}}},
            {{"inputs", [&] { auto l = S; l.push_back(Absent()); return l; }()}, {"outs", strs}, {"out_dirs", strs},
             {"cmd", {Absent(), QQ(J::array()), QQ({"c", "d"}), QQ({"c", 1}), QQ(J{}), "c", QQ({"", ""}), QQ({"cd"})}},
             {"cwd", {Absent(), "", ".", "w", "./w", "w/x", "..", "../w", "/w", "w/..", "a", "a/b", "a/b/c", "x", QQ(J{}), QQ(1), "w/../../x", "w/"}},
             {"env", {Absent(), QQ(J::object()), QQ(J{{"K", "v"}}), QQ(J{{"K", "v"}, {"L", ""}}), QQ(J{{"K", 1}}), QQ(J{}), QQ(J::array()), QQ(J{{"K", nullptr}})}},
             {"may_fail", taint}, {"no_cache", taint}, {"fail_message", {Absent(), "msg", "", QQ(1), QQ(J{})}},
             {"timeout scaling", {Absent(), QQ(1), QQ(1.0), QQ(2), QQ(0.5), QQ(0), QQ(-1), QQ(J{}), "2", QQ(1e-9)}},
             {"execution properties", {Absent(), QQ(J::object()), QQ(J{{"k", "v"}}), QQ(J{{"k", 1}}), QQ(J{}), QQ(J::array())}}}},
        {"BLOB", J::object(), {{"data", {Absent(), "", "x", "line\n", "\xc3\xa4", QQ(J{}), QQ(1), Join({"x", "y"}), QQ(J::array())}}}, 1},
        {"SYMLINK", J::object(), {{"data", {Absent(), "", "x", "a/b", "..", "../x", "/x", "a/../..", "a/..", ".", "./x", QQ(J{}), QQ(1)}}}, 1},
        {"TREE", J::object(), {{"$1", [&] { auto l = S; l.push_back(Absent()); return l; }()}}, 1},
        {"TREE_OVERLAY", J::object(), {{"$1", [&] { std::vector<J> l{Absent(), QQ(J{}), QQ(J::object())}; for (auto const& x : S) { l.push_back(J::array({x})); l.push_back(J::array({Single("k", V("f")), x})); l.push_back(J::array({x, x})); } l.push_back(QQ(J::array())); return l; }()}}, 1},
        {"DISJOINT_TREE_OVERLAY", J::object(), {{"$1", [&] { std::vector<J> l{Absent(), QQ(J{}), QQ(J::object())}; for (auto const& x : S) { l.push_back(J::array({x})); l.push_back(J::array({Single("k", V("g")), x})); } l.push_back(QQ(J::array())); return l; }()}}, 1},
        {"VALUE_NODE", J::object(), {{"$1", [&] { auto l = res; l.push_back(Absent()); l.push_back(V("f")); l.push_back(V("d")); l.push_back("x"); l.push_back(vn(res[0])); return l; }()}}, 1},
        {"ABSTRACT_NODE", J{{"node_type", "n"}}, {{"node_type", {Absent(), "n", "m", "", QQ(J{}), QQ(1)}},
            {"string_fields", {Absent(), QQ(J::object()), QQ(J{{"s", {"x"}}}), QQ(J{{"s", {"x", 1}}}), QQ(J{{"s", "x"}}), QQ(J{{"x", {"y"}}}), QQ(J{}), QQ(J::array())}},
            {"target_fields", {Absent(), QQ(J::object()), Single("t", J::array({vn(res[0])})), Single("t", J::array({vn(res[2])})), Single("t", QQ(J::array())), Single("t", J::array({V("d")})),
                               Single("t", vn(res[0])), Single("s", J::array({vn(res[1])})), QQ(J{}), Single("t", J::array({"x"}))}}}, 3},
        {"RESULT", J::object(), {{"artifacts", [&] { auto l = S; l.push_back(Absent()); return l; }()}, {"runfiles", [&] { auto l = S; l.push_back(Absent()); return l; }()},
            {"provides", {Absent(), QQ(J::object()), Single("p", V("f")), Single("p", V("d")), Single("p", vn(res[2])), QQ(J::array()), "x", QQ(J{}), Single("p", res[3])}}}, 2, true},
        {"RESULT", J::object(), {{"artifacts", [&] { auto l = S; l.push_back(Absent()); return l; }()}, {"runfiles", [&] { auto l = S; l.push_back(Absent()); return l; }()},
            {"provides", {Absent(), Single("p", V("d"))}}}, 2, false},
        {"CALL_EXPRESSION", J{{"name", "id"}}, {{"name", {Absent(), "id", "deps", "field", "act", "outer", "novars", "missing", "bad", QQ("id"), QQ(J{}), QQ(1)}}}, 1},
    };
}
// All expressions of a construct that differ from the base in up to `depth`
// arguments
void Variants(Construct const& c, size_t depth, std::function<void(J const&)> const& f) {
    std::function<void(size_t, size_t, J const&)> go = [&](size_t i, size_t left, J const& e) {
        if (i == c.args.size()) {
            f(e);
            return;
        }
        go(i + 1, left, e);
        if (left == 0) {
            return;
        }
        for (auto const& a : c.args[i].alts) {
            J x = e;
            if (a.is_discarded()) {
                if (not x.contains(c.args[i].key)) {
                    continue;
                }
                x.erase(c.args[i].key);
            }
            else {
                x[c.args[i].key] = a;
            }
            go(i + 1, left - 1, x);
        }
    };
    J e = c.base;
    e["type"] = c.type;
    go(0, depth, e);
}
// The world in which the constructs are used
void FunctionWorld(Part& p) {
    auto& r = p.world.repos["r"];
    for (auto const* f : {"f", "g", "x/h"}) {
        r.files[f] = 'f';
    }
    r.files["x"] = 'd';
    r.rules[""] = J::object();
    r.exprs[""] = P(R"({
      "id":{"vars":["f","a","zz"],"expression":[{"type":"var","name":"f"},{"type":"var","name":"a"},{"type":"var","name":"zz"},{"type":"var","name":"d","default":"none"}]},
      "deps":{"vars":["d"],"expression":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"}}},
      "field":{"expression":{"type":"FIELD","name":"s"}},
      "act":{"vars":["f"],"expression":{"type":"ACTION","outs":["called"],"cmd":["x"],"inputs":{"type":"singleton_map","key":"in","value":{"type":"var","name":"f"}}}},
      "outer":{"vars":["f"],"imports":{"inner":"id","act":"act"},"expression":[{"type":"CALL_EXPRESSION","name":"inner"},{"type":"CALL_EXPRESSION","name":"act"}]},
      "novars":{"imports":{"inner":"outer"},"expression":{"type":"CALL_EXPRESSION","name":"inner"}},
      "bad":{"expression":{"type":"CALL_EXPRESSION","name":"id"}}
    })");
    r.rules[""]["source"] = P(R"({"expression":{"type":"RESULT",
        "artifacts":{"type":"ACTION","outs":["sa"],"cmd":["s"]},"runfiles":{"type":"ACTION","outs":["sr"],"cmd":["s"]},
        "provides":{"type":"map_union","$1":[{"type":"'","$1":{"p":"prov","nul":null,"fls":false,"emptyl":[]}},
            {"type":"singleton_map","key":"nodes","value":[{"type":"ABSTRACT_NODE","node_type":"n","string_fields":{"type":"singleton_map","key":"s","value":["from-node"]}},
                                                           {"type":"VALUE_NODE","$1":{"type":"RESULT","artifacts":{"type":"ACTION","outs":["nv"],"cmd":["nv"]}}}]}]}}})");
    r.rules[""]["n-rule"] = P(R"({"string_fields":["s"],"target_fields":["t"],"expression":{"type":"RESULT","artifacts":{"type":"ACTION","outs":["n"],"cmd":["n",{"type":"join","$1":{"type":"FIELD","name":"s"}}]},
        "provides":{"type":"singleton_map","key":"p","value":"of-node"}}})");
    r.rules[""]["namer"] = P(R"({"target_fields":["deps"],"expression":{"type":"RESULT","provides":{"type":"singleton_map","key":"names","value":{"type":"FIELD","name":"deps"}}}})");
    p.Add("r", "", "src", P(R"({"type":"source"})"));
    p.Add("r", "", "src2", P(R"({"type":"file_gen","name":"gen","data":"gen"})"));
    p.Add("r", "", "src3", P(R"({"type":"namer","deps":["src2"]})"));
}
J FunctionRule(J const& value, bool bare, J const& tainted) {
    J bindings = J::array();
    auto bind = [&](char const* n, J const& e) { bindings.push_back(J::array({n, e})); };
    auto first = [](J const& l) { return J{{"type", "[]"}, {"index", 0}, {"list", l}}; };
    bind("d", first(Field("deps")));
    bind("e", J{{"type", "[]"}, {"index", 1}, {"list", Field("deps")}});
    bind("i", first(Field("imp")));
    bind("n", first(Field("an")));
    bind("undeclared", first(P(R"({"type":"DEP_PROVIDES","dep":{"type":"[]","index":2,"list":{"type":"FIELD","name":"deps"}},"provider":"names"})")));
    bind("f", P(R"({"type":"lookup","key":"f","map":{"type":"DEP_ARTIFACTS","dep":{"type":"[]","index":0,"list":{"type":"FIELD","name":"imp"}}}})"));
    bind("g", P(R"({"type":"BLOB","data":"g"})"));
    J body = bare ? value : J{{"type", "RESULT"}, {"provides", Single("v", value)}};
    return J{{"target_fields", {"deps", "more"}}, {"string_fields", {"s"}}, {"config_fields", {"c"}}, {"config_vars", {"a"}}, {"tainted", tainted},
             {"implicit", {{"imp", {"f", "src"}}}},
             {"anonymous", {{"an", {{"target", "an-src"}, {"provider", "nodes"}, {"rule_map", {{"n", "n-rule"}}}}}}},
             {"config_transitions", {{"more", {Single("a", "1"), Single("a", "2")}}}},
             {"imports", {{"id", "id"}, {"deps", "deps"}, {"field", "field"}, {"act", "act"}, {"outer", "outer"}, {"novars", "novars"}, {"bad", "bad"}}},
             {"expression", {{"type", "let*"}, {"bindings", bindings}, {"body", body}}}};
}
void FunctionsPart(bool th) {
    Part p;
    p.name = "rule-functions";
    FunctionWorld(p);
    p.configs = {{{"a", "A"}}};
    auto& rules = p.world.repos["r"].rules[""];
    long n = 0;
    auto add = [&](J const& e, bool bare, std::vector<J> const& taints) {
        for (auto const& t : taints) {
            auto rn = "r" + std::to_string(n);
            auto rule = FunctionRule(e, bare, t);
            rule["target_fields"].push_back("an-src");
            rules[rn] = rule;
            auto tn = std::string{e["type"]} + " " + std::to_string(n++);
            p.Add("r", "", tn, J{{"type", rn}, {"deps", {"src", "src2", "src3"}}, {"more", {"src", "src2"}}, {"an-src", {"src"}}, {"s", {"S1", "S2"}}, {"c", {"C"}},
                                 {"tainted", t.empty() ? J::array() : J(t)}});
            p.targets.push_back({"r", "", tn});
        }
    };
    for (auto const& c : Constructs()) {
        bool action = std::string{c.type} == "ACTION";
        Variants(c, c.depth + (th and (action or c.bare) ? 1 : 0), [&](J const& e) {
            std::vector<J> taints{J::array()};
            if (action and (e.contains("may_fail") or e.contains("no_cache"))) {
                taints.push_back(P(R"(["t"])"));
                taints.push_back(P(R"(["t","u"])"));
            }
            add(e, c.bare, taints);
        });
    }
    p.Go("every construct available only in the defining expression of a rule, differing from a valid use in up to 2 (FIELD, BLOB, ...: all) "
         "arguments, over alphabets of valid, failing and ill-typed arguments");
}
// Constructs in the places of a description where they are not available, or
// only partly
void PlacesPart() {
    Part p;
    p.name = "places";
    FunctionWorld(p);
    p.configs = {{{"a", "A"}}, {}};
    p.joint = false;
    auto& repo = p.world.repos["r"];
    auto& rules = repo.rules[""];
    auto& exprs = repo.exprs[""];
    std::vector<J> es{P(R"(["x"])"), V("a"), J::array({V("a")}), J::array({V("zz")}), QQ(J::array({"src"})),
                      P(R"({"type":"outs","dep":"src"})"), P(R"({"type":"runfiles","dep":"src"})"), P(R"({"type":"outs","dep":"g"})"), P(R"({"type":"outs","dep":"src","transition":{"type":"empty_map"}})"),
                      P(R"({"type":"outs","dep":"src","transition":{"type":"singleton_map","key":"a","value":"1"}})"), P(R"({"type":"outs","dep":["./","","src"]})"),
                      P(R"({"type":"outs","dep":["@","q","","t"]})"), P(R"({"type":"outs","dep":7})"), P(R"({"type":"outs"})"), P(R"({"type":"runfiles","dep":["FILE",null,"f"]})"),
                      P(R"({"type":"FIELD","name":"c"})"), P(R"({"type":"FIELD","name":"s"})"), P(R"({"type":"FIELD","name":"deps"})"),
                      P(R"({"type":"CALL_EXPRESSION","name":"ce"})"), P(R"({"type":"ACTION","outs":["o"],"cmd":["c"]})"), P(R"([{"type":"BLOB","data":"x"}])"), P(R"([{"type":"TREE"}])"),
                      P(R"({"type":"RESULT"})"), P(R"({"type":"DEP_ARTIFACTS","dep":"src"})"), P(R"([{"type":"singleton_map","key":"a","value":"1"}])"), P(R"({"type":"empty_map"})"),
                      QQ(J{}), P(R"([1])"), P(R"({"type":"fail","msg":"m"})"), P(R"({"type":"no-such-function"})"), P(R"([])"), P(R"("f")"), P(R"(["src","f"])"), P(R"(["src","src"])"),
                      P(R"([["FILE",null,"f"],["FILE",".","g"]])"), P(R"(["nothing"])")};
    exprs["ce"] = P(R"({"expression":["x"]})");
    exprs["t0"] = P(R"({"expression":{"type":"RESULT"}})");
    long n = 0;
    J rule_base = P(R"({"target_fields":["deps"],"string_fields":["s"],"config_fields":["c"],"config_vars":["a"],
        "expression":{"type":"RESULT","provides":{"type":"map_union","$1":[{"type":"singleton_map","key":"deps","value":{"type":"FIELD","name":"deps"}},
          {"type":"singleton_map","key":"s","value":{"type":"FIELD","name":"s"}},{"type":"singleton_map","key":"c","value":{"type":"FIELD","name":"c"}},
          {"type":"singleton_map","key":"a","value":{"type":"var","name":"a","default":"-"}}]}}})");
    rules["base"] = rule_base;
    rules["base"]["imports"] = {{"ce", "ce"}};
    auto target = [&](std::string const& n2, J const& d) {
        p.Add("r", "", n2, d);
        p.targets.push_back({"r", "", n2});
    };
    for (auto const& e : es) {
        for (auto const* f : {"s", "c", "deps", "tainted", "unknown", "arguments_config"}) {
            for (auto const& args : {P("[]"), P(R"(["a"])"), P(R"(["a","zz"])")}) {
                for (auto const& extra : {P(R"({})"), P(R"({"deps":["src","f"]})"), P(R"({"s":["S"],"c":["C"]})")}) {
                    J d{{"type", "base"}, {"arguments_config", args}};
                    d.update(extra);
                    d[f] = e;
                    target("field " + std::to_string(n++), d);
                }
            }
        }
        auto rn = "rule" + std::to_string(n);
        for (auto const* f : {"transitions", "body", "call", "implicit"}) {
            auto name = rn + f;
            rules[name] = rules["base"];
            if (f == std::string{"transitions"}) {
                rules[name]["config_transitions"] = {{"deps", e}};
            }
            else if (f == std::string{"body"}) {
                rules[name]["expression"] = J{{"type", "RESULT"}, {"provides", Single("x", e)}};
            }
            else if (f == std::string{"call"}) {
                exprs["x" + name] = J{{"expression", e}, {"vars", {"a"}}};
                rules[name]["imports"] = {{"call", "x" + name}};
                rules[name]["expression"] = J{{"type", "RESULT"}, {"provides", Single("x", P(R"({"type":"CALL_EXPRESSION","name":"call"})"))}};
            }
            else {
                rules[name]["implicit"] = {{"imp", e}};
                rules[name]["expression"] = J{{"type", "RESULT"}, {"provides", Single("x", P(R"({"type":"FIELD","name":"imp"})"))}};
            }
            for (auto const& dep : {P(R"(["src"])"), P(R"([])")}) {
                target("in-rule " + std::to_string(n++), J{{"type", name}, {"deps", dep}, {"s", {"S"}}, {"c", {"C"}}});
            }
        }
    }
    // descriptions of rules
    std::vector<std::pair<char const*, std::vector<J>>> parts{
        {"target_fields", {P("[]"), P(R"(["deps","deps"])"), P(R"(["s"])"), P(R"(["type"])"), P(R"(["tainted"])"), P(R"(["arguments_config"])"), P(R"([1])"), P(R"("deps")"), P("null")}},
        {"string_fields", {P("[]"), P(R"(["deps"])"), P(R"(["c"])"), P(R"(["type"])"), P(R"([null])")}},
        {"config_fields", {P("[]"), P(R"(["deps"])"), P(R"(["s"])"), P(R"(["c","c"])")}},
        {"config_vars", {P("[]"), P(R"(["a","a"])"), P(R"(["zz"])"), P(R"([1])"), P(R"("a")")}},
        {"tainted", {P(R"(["t"])"), P(R"([1])"), P(R"("t")"), P("[]")}},
        {"implicit", {P(R"({"imp":["src"]})"), P(R"({"imp":[]})"), P(R"({"deps":["src"]})"), P(R"({"s":["src"]})"), P(R"({"imp":"src"})"), P(R"({"imp":["nothing"]})"), P(R"([])"), P(R"({"imp":[["FILE",null,"f"]]})")}},
        {"anonymous", {P(R"({"an":{"target":"deps","provider":"nodes","rule_map":{"n":"n-rule"}}})"), P(R"({"an":{"target":"deps","provider":"nodes","rule_map":{}}})"),
                       P(R"({"an":{"target":"deps","provider":"p","rule_map":{"n":"n-rule"}}})"), P(R"({"an":{"target":"deps","provider":"missing","rule_map":{"n":"n-rule"}}})"),
                       P(R"({"an":{"target":"imp","provider":"nodes","rule_map":{"n":"n-rule"}}})"), P(R"({"an":{"target":"s","provider":"nodes","rule_map":{"n":"n-rule"}}})"),
                       P(R"({"deps":{"target":"deps","provider":"nodes","rule_map":{"n":"n-rule"}}})"), P(R"({"an":{"target":"deps","provider":"nodes"}})"), P(R"({"an":{"target":"deps","provider":"nodes","rule_map":{"n":["@","q","","r"]}}})"),
                       P(R"({"an":{"target":"deps","provider":"nodes","rule_map":{"n":"no-rule"}}})")}},
        {"config_transitions", {P(R"({"deps":[{"type":"empty_map"}]})"), P(R"({"s":[{"type":"empty_map"}]})"), P(R"({"imp":[{"type":"singleton_map","key":"a","value":"1"}]})"), P(R"({"an":[{"type":"singleton_map","key":"a","value":"1"}]})"), P(R"([])")}},
        {"imports", {P("{}"), P(R"({"x":"id"})"), P(R"({"x":"missing"})"), P(R"({"x":["@","q","","id"]})"), P(R"([])")}},
        {"expression", {P(R"({"type":"RESULT"})"), P(R"({"type":"CALL_EXPRESSION","name":"x"})"), P("null"), P(R"("x")"), P(R"({"type":"FIELD","name":"an"})"), P(R"({"type":"FIELD","name":"imp"})")}}};
    for (size_t i = 0; i < parts.size(); ++i) {
        for (size_t j = i; j < parts.size(); ++j) {
            for (auto const& a : parts[i].second) {
                for (auto const& b : parts[j].second) {
                    if (i == j and &a != &parts[i].second[0]) {
                        continue;
                    }
                    auto rn = "descr" + std::to_string(n);
                    J r = rule_base;
                    r[parts[i].first] = a;
                    r[parts[j].first] = b;
                    rules[rn] = r;
                    target("of-rule " + std::to_string(n++), J{{"type", rn}, {"deps", {"src"}}, {"s", {"S"}}, {"c", {"C"}}});
                }
            }
        }
    }
    p.Go("every expression of an alphabet in every place of targets, rules and called expressions; rules with every pair of descriptions from the alphabets");
}

// ------------------------------------------------------------------- names
// Every form of a reference, used in every place that takes one, in modules
// of two repositories.
void NamesPart() {
    Part p;
    p.name = "names";
    p.joint = false;
    auto& r = p.world.repos["r"];
    auto& q = p.world.repos["q"];
    r.bindings = {{"self", "r"}, {"other", "q"}};
    q.bindings = {{"back", "r"}};
    for (auto* repo : {&r, &q}) {
        for (auto const* m : {"", "m", "m/n"}) {
            std::string pre = *m == 0 ? "" : std::string{m} + "/";
            for (auto const* f : {"f", "x", "f.a", ".h", "sub/g"}) {
                repo->files[pre + f] = 'f';
            }
            repo->files[pre + "l"] = 'l';
            repo->files[pre + "sub"] = 'd';
            repo->files[pre + "sub/deep"] = 'd';
            repo->files[pre + "sub/deep/h"] = 'f';
            repo->rules[m] = J::object();
            std::string who = (repo == &r ? "r:" : "q:") + pre;
            // a rule that shows where it is from, and its implicit dependency
            repo->rules[m]["x"] = J{{"target_fields", {"deps"}}, {"implicit", {{"i", {"x"}}}}, {"expression", {{"type", "RESULT"},
                {"artifacts", {{"type", "ACTION"}, {"outs", {"o"}}, {"cmd", {who}}, {"inputs", {{"type", "DEP_ARTIFACTS"}, {"dep", {{"type", "[]"}, {"index", 0}, {"list", Field("i")}}}}}}}}}};
            repo->exprs[m] = J{{"x", {{"expression", J::array({"expression of", who})}}}};
            p.Add(repo == &r ? "r" : "q", m, "x", J{{"type", "file_gen"}, {"name", "gen"}, {"data", "target of " + who}});
        }
        repo->files["m"] = 'd';
        repo->files["m/n"] = 'd';
        repo->files["only"] = 'd';
        repo->files["only/f"] = 'f';
    }
    std::vector<J> forms{"x", "f", "./f", "./x", "m/f", "m/x", "sub/g", "sub", "sub/", "../f", "/f", "", ".", "sub/../f", "sub//g", "m/../f", "nothing", "l", "f/", "../m/f"};
    for (auto const* n : {"x", "f", "n/f", "l"}) {
        for (auto const* m : {"", "m", "m/n", "./m", "m/", "m/../m", "../m", "/m", ".", "..", "m/..", "m//n", "nothing", "m/./n", "only", "n", "/"}) {
            forms.push_back(J::array({m, n}));
            forms.push_back(J::array({"./", m, n}));
        }
        for (auto const* m : {"../n", "../..", "../../..", "../../m", "../m", "../../../m"}) {
            forms.push_back(J::array({"./", m, n}));
        }
        for (auto const* b : {"self", "other", "back", "r", "q", ""}) {
            for (auto const* m : {"", "m", "./m", "../m", "m/n/..", "nothing", "/m"}) {
                forms.push_back(J::array({"@", b, m, n}));
            }
        }
    }
    for (auto const* k : {"FILE", "TREE", "GLOB", "SYMLINK"}) {
        for (auto const& m : {J{}, J("."), J("m"), J(""), J("./"), J(1), J("m/n")}) {
            for (auto const* n : {"x", "f", "./f", "m/f", "sub/g", "sub", "sub/.", "sub/deep", "l", "*", "?", "*.a", "[a-f]*", "[!f]", "sub/*", "", ".", "../f", "\\f", "none", "f*", "*l"}) {
                if (not m.is_null() and m != "." and std::string{n} != "f" and std::string{n} != "sub" and std::string{n} != "*") {
                    continue;
                }
                forms.push_back(J::array({k, m, n}));
            }
        }
        forms.push_back(J::array({k, "x"}));
        forms.push_back(J::array({k, nullptr}));
        forms.push_back(J::array({k, nullptr, "f", "x"}));
        forms.push_back(J::array({k, nullptr, 1}));
    }
    for (auto const* s : {"null", "1", "true", "[]", "{}", "[\"x\"]", "[\"m\",1]", "[1,\"x\"]", "[\"m\",\"n\",\"x\"]", "[\"@\",\"self\",\"x\"]", "[\"@\",\"self\",\"\",\"x\",\"\"]", "[\"./\",\"m\"]",
                          "[\"#\",{},\"x\"]", "[\"@\",\"x\"]", "[null,\"x\"]", "[null,null,\"f\"]", "[\"#\",\"m\",\"x\"]", "[\"@\",1,\"\",\"x\"]", "[[\"\",\"x\"]]"}) {
        forms.push_back(P(s));
    }
    long n = 0;
    for (auto const& f : forms) {
        auto lit = f.is_object() ? QQ(f) : f;
        for (auto const& [repo, m] : std::vector<std::pair<std::string, std::string>>{{"r", ""}, {"r", "m"}, {"r", "m/n"}, {"q", "m"}}) {
            auto& R = p.world.repos[repo];
            auto id = std::to_string(n++);
            auto target = [&](std::string const& c, J const& d) {
                p.Add(repo, m, c + id, d);
                p.targets.push_back({repo, m, c + id});
            };
            target("D", J{{"type", "generic"}, {"deps", J::array({lit})}, {"outs", {"o"}}, {"cmds", {"c"}}});
            target("I", J{{"type", "install"}, {"dirs", J::array({J::array({lit, "to"})})}});
            target("F", J{{"type", "install"}, {"files", {{"to", lit}}}});
            target("C", J{{"type", "configure"}, {"target", lit}});
            target("E", J{{"type", "export"}, {"target", f}});
            target("T", J{{"type", f}});
            target("O", J{{"type", "generic"}, {"deps", J::array({lit})}, {"outs", {"o"}}, {"cmds", {{"type", "outs"}, {"dep", lit}}}});
            R.rules[m]["i" + id] = J{{"implicit", {{"i", J::array({f})}}}, {"expression", {{"type", "RESULT"}, {"artifacts", {{"type", "DEP_ARTIFACTS"}, {"dep", {{"type", "[]"}, {"index", 0}, {"list", Field("i")}}}}}}}};
            target("X", J{{"type", "i" + id}});
            R.rules[m]["e" + id] = J{{"imports", {{"e", f}}}, {"expression", {{"type", "RESULT"}, {"provides", {{"type", "singleton_map"}, {"key", "e"}, {"value", {{"type", "CALL_EXPRESSION"}, {"name", "e"}}}}}}}};
            target("M", J{{"type", "e" + id}});
        }
    }
    p.Go("every form of entity names (relative, by module, by repository, explicit file, link, tree, and pattern references, and malformed ones) as dependency, "
         "directory, file, configured, exported, implicit target, rule, and imported expression, in three modules of a repository and one of another");
}

// --------------------------------------------------------------- anonymous
// Providers with graphs of nodes, from one or two targets, consumed under
// rule maps and transitions, possibly again by rules of anonymous targets.
void AnonymousPart(bool th) {
    Part p;
    p.name = "anonymous";
    auto& r = p.world.repos["r"];
    auto& q = p.world.repos["q"];
    r.bindings = {{"other", "q"}};
    for (auto const* f : {"f", "g"}) {
        r.files[f] = q.files[f] = 'f';
    }
    p.configs = AllConfigs({"a"}, {nullptr, "1"});
    auto art = P(R"({"type":"ACTION","outs":["o"],"cmd":["?",{"type":"join","separator":"|","$1":{"type":"FIELD","name":"s"}},{"type":"json_encode","$1":{"type":"var","name":"a"}}],
        "inputs":{"type":"disjoint_map_union","$1":{"type":"foreach_map","range":{"type":"enumerate","$1":{"type":"FIELD","name":"t"}},
            "body":{"type":"to_subdir","subdir":{"type":"var","name":"_"},"$1":{"type":"map_union","$1":[{"type":"DEP_RUNFILES","dep":{"type":"var","name":"$_"}},{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"$_"}}]}}}}})");
    auto rule = [&](char const* mark, char const* extra) {
        J x = P(R"({"target_fields":["t"],"string_fields":["s"],"config_vars":["a"]})");
        auto e = art;
        e["cmd"][0] = mark;
        x["expression"] = Let({{"x", e}}, P(extra));
        return x;
    };
    for (auto* repo : {&r, &q}) {
        std::string who = repo == &r ? "r" : "q";
        repo->rules[""] = J::object();
        auto& rules = repo->rules[""];
        rules["n"] = rule((who + " n").c_str(), R"({"type":"RESULT","artifacts":{"type":"var","name":"x"},"provides":{"type":"singleton_map","key":"nodes","value":[{"type":"ABSTRACT_NODE","node_type":"n","string_fields":{"type":"singleton_map","key":"s","value":["inner"]}}]}})");
        // consumes the nodes of the targets of a node
        rules["m"] = rule((who + " m").c_str(), R"({"type":"RESULT","artifacts":{"type":"var","name":"x"},"runfiles":{"type":"disjoint_map_union","$1":{"type":"foreach_map","range":{"type":"enumerate","$1":{"type":"FIELD","name":"again"}},
                "body":{"type":"to_subdir","subdir":{"type":"var","name":"_"},"$1":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"$_"},"transition":{"type":"singleton_map","key":"a","value":"2"}}}}},
              "provides":{"type":"singleton_map","key":"nodes","value":[]}})");
        rules["m"]["anonymous"] = P(R"({"again":{"target":"t","provider":"nodes","rule_map":{"n":"n","m":"n"}}})");
        rules["m"]["config_transitions"] = P(R"({"again":[{"type":"singleton_map","key":"a","value":"2"}]})");
    }
    // nodes
    struct N {
        std::string n;
        J e;
    };
    auto result = [](J const& artifacts, J const& nodes) {
        return J{{"type", "RESULT"}, {"artifacts", artifacts}, {"provides", Single("nodes", nodes)}};
    };
    auto abs = [](char const* type, J const& sf, J const& tf) { return J{{"type", "ABSTRACT_NODE"}, {"node_type", type}, {"string_fields", sf}, {"target_fields", tf}}; };
    auto val = [](J const& x) { return J{{"type", "VALUE_NODE"}, {"$1", x}}; };
    std::vector<N> l0{{"vf", val(result(V("f"), P("[]")))},
                      {"vr", val(J{{"type", "RESULT"}, {"runfiles", V("f")}})},
                      {"vg", val(result(V("g"), P("[]")))},
                      {"vn", val(result(V("f"), J::array({abs("n", QQ(J{{"s", {"v"}}}), QQ(J::object()))})))},
                      {"n", abs("n", QQ(J{{"s", {"x"}}}), QQ(J::object()))},
                      {"n2", abs("n", QQ(J{{"s", {"x", "y"}}}), QQ(J::object()))},
                      {"n3", abs("n", QQ(J{{"s", {"x|y"}}}), QQ(J::object()))},
                      {"ne", abs("n", QQ(J::object()), QQ(J::object()))},
                      {"no", abs("n", QQ(J{{"other", {"x"}}}), QQ(J::object()))},
                      {"m", abs("m", QQ(J{{"s", {"x"}}}), QQ(J::object()))},
                      {"k", abs("k", QQ(J{{"s", {"x"}}}), QQ(J::object()))}};
    auto l1 = l0;
    for (auto const* ty : {"n", "m"}) {
        for (auto const& a : l0) {
            l1.push_back({std::string{ty} + "(" + a.n + ")", abs(ty, QQ(J{{"s", {"y"}}}), Single("t", J::array({a.e})))});
            for (auto const& b : l0) {
                if (&b - &l0[0] > 5 and not th) {
                    continue;
                }
                l1.push_back({std::string{ty} + "(" + a.n + "," + b.n + ")", abs(ty, QQ(J::object()), Single("t", J::array({a.e, b.e})))});
            }
        }
        l1.push_back({std::string{ty} + "(in s)", abs(ty, QQ(J::object()), Single("s", J::array({l0[0].e})))});
        l1.push_back({std::string{ty} + "(t strings)", abs(ty, QQ(J{{"t", {"g"}}}), QQ(J::object()))});
    }
    auto l2 = l1;
    for (size_t i = l0.size(); i < l1.size(); ++i) {
        for (auto const* ty : {"n", "m"}) {
            l2.push_back({std::string{ty} + "(" + l1[i].n + ")", abs(ty, QQ(J{{"s", {"z"}}}), Single("t", J::array({l1[i].e})))});
            if (i % 3 == 0 or th) {
                l2.push_back({std::string{ty} + "(" + l1[i].n + ",vf)", abs(ty, QQ(J::object()), Single("t", J::array({l1[i].e, l0[0].e})))});
            }
        }
    }
    long cnt = 0;
    auto provider = [&](J const& nodes, std::string const& extra) {
        auto rn = "src" + std::to_string(cnt);
        auto tn = "src-" + std::to_string(cnt++);
        r.rules[""][rn] = J{{"implicit", {{"i", {"f", "g"}}}}, {"config_vars", {"a"}}, {"expression", Let({
            {"f", P(R"({"type":"DEP_ARTIFACTS","dep":{"type":"[]","index":0,"list":{"type":"FIELD","name":"i"}}})")},
            {"g", P(R"({"type":"DEP_ARTIFACTS","dep":{"type":"[]","index":1,"list":{"type":"FIELD","name":"i"}}})")},
            {"extra", extra}}, J{{"type", "RESULT"}, {"provides", Single("nodes", nodes)}})}};
        p.Add("r", "", tn, J{{"type", rn}});
        return tn;
    };
    std::vector<std::pair<char const*, J>> maps{{"same", P(R"({"n":"n","m":"m"})")}, {"swap", P(R"({"n":"m","m":"n"})")},
                                                {"other", P(R"({"n":["@","other","","n"],"m":"m","k":["@","other","","m"]})")}, {"few", P(R"({"n":"n"})")}};
    std::vector<std::pair<char const*, J>> ts{{"plain", P(R"([{"type":"empty_map"}])")}, {"set", P(R"([{"type":"singleton_map","key":"a","value":"1"}])")},
                                              {"both", P(R"([{"type":"empty_map"},{"type":"singleton_map","key":"a","value":"2"}])")}};
    for (auto const& [mn, m] : maps) {
        for (auto const& [tn, t] : ts) {
            J x{{"target_fields", {"deps"}}, {"anonymous", {{"an", {{"target", "deps"}, {"provider", "nodes"}, {"rule_map", m}}}}}, {"config_transitions", {{"an", t}}}};
            x["expression"] = J{{"type", "RESULT"}, {"provides", Single("seen", J{{"type", "++"}, {"$1", {Collect("an", t), Collect("deps", P(R"([{"type":"empty_map"}])"))}}})}};
            r.rules[""]["use " + std::string{mn} + " " + tn] = x;
        }
    }
    auto use = [&](std::string const& m, std::string const& t, J const& deps) {
        auto n = "use " + std::to_string(cnt++);
        p.Add("r", "", n, J{{"type", "use " + m + " " + t}, {"deps", deps}});
        p.targets.push_back({"r", "", n});
    };
    for (size_t i = 0; i < l2.size(); ++i) {
        auto s = provider(J::array({l2[i].e}), "one");
        for (auto const& [mn, m] : maps) {
            for (auto const& [tn, t] : ts) {
                if (not th and std::string{mn} != "same" and std::string{tn} == "set") {
                    continue;
                }
                use(mn, tn, {s});
            }
        }
        if (i < l1.size()) {
            // the same node, again, elsewhere
            auto s2 = provider(J::array({l2[i].e, l2[i].e}), "two");
            use("same", "both", {s, s2});
            use("same", "both", {s, s});
        }
    }
    for (size_t i = 0; i < l1.size(); ++i) {
        for (size_t j = 0; j < l1.size(); j += th or i < l0.size() ? 1 : 17) {
            auto s = provider(J::array({l1[i].e, l1[j].e}), "pair");
            use("same", "both", {s});
            if (th) {
                use("other", "plain", {s});
            }
        }
    }
    for (auto const* bad : {R"({"type":"foreach","var":"x","range":[1],"body":"no node"})", R"("text")", R"({"type":"'","$1":null})", R"({"type":"'","$1":[null]})", R"({"type":"'","$1":[]})"}) {
        use("same", "both", {provider(P(bad), "bad")});
    }
    p.Go("anonymous targets: every node of depth 3 over value and abstract nodes with strings and nested nodes (11 nodes of depth 1, 2 node types), pairs of them, "
         "the same nodes provided by several targets; 4 rule maps, 3 transitions, rules of anonymous targets that again consume nodes; 3 configurations in one session, in both orders");
}

// files whose names no target file can name
// ---------------------------------------------------------------- identity
// Many actions in one build, differing in as little as possible: each is its
// own, unless it is the same.
void IdentityPart() {
    Part p;
    p.name = "identity";
    p.world.repos["r"].targets[""] = J::object();
    auto in = [](J const& l) {
        J maps = J::array({P(R"({"type":"empty_map"})")});
        for (auto const& kv : l) {
            maps.push_back(Single(kv[0].get<std::string>(), P(R"({"type":"BLOB"})")));
            maps.back()["value"]["data"] = kv[1];
        }
        return J{{"type", "map_union"}, {"$1", maps}};
    };
    std::vector<std::pair<std::string, std::vector<J>>> fields{
        {"outs", {P(R"(["o"])"), P(R"(["p"])"), P(R"(["o","p"])"), P(R"(["op"])"), P(R"([])"), P(R"(["o/p"])")}},
        {"out_dirs", {P(R"([])"), P(R"(["d"])"), P(R"(["o"])"), P(R"(["p"])"), P(R"(["d","e"])"), P(R"(["de"])")}},
        {"cmd", {P(R"(["c"])"), P(R"(["c",""])"), P(R"(["","c"])"), P(R"(["cc"])"), P(R"(["c","c"])"), P(R"(["a","bc"])"), P(R"(["ab","c"])"), P(R"(["abc"])"), P(R"(["a","b","c"])"), P(R"(["a bc"])"), P(R"(["a\nbc"])"), P(R"(["a\u0000bc"])")}},
        {"cwd", {"", "w", "w/x", "c", "wx"}},
        {"env", {QQ(J::object()), QQ(J{{"A", "1"}}), QQ(J{{"A", "1"}, {"B", "2"}}), QQ(J{{"A", "1B"}}), QQ(J{{"A1", ""}}), QQ(J{{"A", ""}}), QQ(J{{"A", "2"}, {"B", "1"}})}},
        {"fail_message", {"action failed", "m", "", "c"}},
        {"timeout scaling", {1, 1.0000001, 1.0000002, 1.5, 0, 0.1, 0.3, 0.30000000000000004, 2, 10, 100000000, 100000001, 1e-9, 1e-10, 1e300, P("null")}},
        {"execution properties", {QQ(J::object()), QQ(J{{"A", "1"}}), QQ(J{{"A", "1"}, {"B", "2"}}), QQ(J{{"A", "1B"}}), P("null"), QQ(J{{"A", ""}})}},
        {"inputs", {in(J::array()), in(P(R"([["i",""]])")), in(P(R"([["i","x"]])")), in(P(R"([["j","x"]])")), in(P(R"([["i","x"],["j",""]])")), in(P(R"([["i",""],["j","x"]])")), in(P(R"([["w/i","x"]])"))}}};
    std::vector<size_t> count;
    J action{{"type", "ACTION"}};
    for (auto const& [f, values] : fields) {
        J cases = J::object();
        for (size_t k = 0; k < values.size(); ++k) {
            cases["v" + std::to_string(k)] = values[k];
        }
        action[f] = J{{"type", "case"}, {"expr", J{{"type", "var"}, {"name", f}, {"default", ""}}}, {"case", cases}, {"default", values[0]}};
        count.push_back(values.size());
    }
    J lits = J::object();
    for (int k = 1; k < 4; ++k) {
        auto a = action;
        if ((k & 1) != 0) {
            a["may_fail"] = {"t"};
        }
        if ((k & 2) != 0) {
            a["no_cache"] = {"t"};
        }
        lits["v" + std::to_string(k)] = a;
    }
    fields.emplace_back("flags", std::vector<J>(4));
    J vars = J::array();
    for (auto const& f : fields) {
        vars.push_back(f.first);
    }
    p.world.repos["r"].rules[""]["rule"] = J{{"config_vars", vars}, {"tainted", {"t"}},
        {"expression", {{"type", "RESULT"}, {"artifacts", J{{"type", "case"}, {"expr", P(R"({"type":"var","name":"flags","default":""})")}, {"case", lits}, {"default", action}}}}}};
    p.Add("r", "", "t", J{{"type", "rule"}, {"tainted", {"t"}}});
    p.targets.push_back({"r", "", "t"});
    p.configs = {{}};
    for (size_t f = 0; f < fields.size(); ++f) {
        for (size_t k = 1; k < fields[f].second.size(); ++k) {
            Env e{{fields[f].first, "v" + std::to_string(k)}};
            p.configs.push_back(e);
            for (size_t g = f + 1; g < fields.size(); ++g) {
                for (size_t l = 1; l < fields[g].second.size(); ++l) {
                    auto e2 = e;
                    e2[fields[g].first] = "v" + std::to_string(l);
                    p.configs.push_back(e2);
                }
            }
        }
    }
    p.Go("all actions with up to two fields differing from a basic action, over alphabets of values that look alike, in one build, in both orders: each is what it was described as, and equal ones are one");
}

void FileNamesPart() {
    std::vector<std::string> const names{"f", "\xc3\xa9", "\xff", "a\xc3", "\xe2\x82", "a b", "*"};
    struct Ref {
        char const* deps;
        char kind;  // named, glob, tree
        char const* arg;
    };
    std::vector<Ref> const refs{{R"(["f"])", 'n', "f"}, {R"([["FILE",null,"f"]])", 'n', "f"}, {R"([["GLOB",null,"*"]])", 'g', "*"}, {R"([["GLOB",null,"f*"]])", 'g', "f*"}, {R"([["GLOB",null,"a*"]])", 'g', "a*"},
                                {R"([["GLOB",null,"?"]])", 'g', "?"}, {R"([["TREE",null,"."]])", 't', ""}, {R"([["TREE",null,"d"]])", 't', "d"}};
    auto utf8 = [](std::string const& s) {
        try {
            return not J(s).dump().empty();
        } catch (...) {
            return false;
        }
    };
    auto matches = [](std::string const& p, std::string const& n) {
        return p == "*" or (p == "f*" and n[0] == 'f') or (p == "a*" and n[0] == 'a') or (p == "?" and (n.size() == 1));
    };
    long const sets = 1L << names.size();
    hn::Enumerate("file names", sets, "every set out of seven file names (UTF-8 or not, with special characters), at top-level or in a directory, as file or link or directory, referred to by name, globs, or as tree: what cannot be named makes a tree or matching glob fail, and nothing else", [&](long i, hn::Shard& s) {
        for (int kind = 0; kind < 3; ++kind) {
            for (bool below : {false, true}) {
                for (size_t k = 0; k < refs.size(); ++k) {
                    auto const& ref = refs[k];
                    std::string what = std::to_string(i) + (kind == 0 ? " files" : kind == 1 ? " links" : " directories") + (below ? " below " : " ") + ref.deps;
                    if (not s.Case(what)) {
                        continue;
                    }
                    auto dir = hn::ctx().scratch + "/fn-" + std::to_string(getpid());
                    fs::remove_all(dir);
                    World w;
                    auto& r = w.repos["r"];
                    r.targets[""] = J{{"t", {{"type", "install"}, {"deps", P(ref.deps)}}}};
                    r.files["f"] = 'f';
                    r.files["d/f"] = 'f';
                    std::set<std::string> top{"f"};
                    bool odd_top = false, odd_any = false;
                    for (size_t n = 0; n < names.size(); ++n) {
                        if ((i >> n & 1) == 0 or names[n] == "f") {
                            continue;
                        }
                        r.files[(below ? "d/" : "") + names[n] + (kind == 2 ? "/f" : "")] = kind == 1 ? 'l' : 'f';
                        if (not below and kind != 2) {
                            top.insert(names[n]);
                            odd_top = odd_top or not utf8(names[n]);
                        }
                        odd_any = odd_any or not utf8(names[n]);
                    }
                    Write(w, dir);
                    Engine e(w, dir, dir + "/st");
                    auto x = e.Run({{"r", "", "t", {}}})[0];
                    std::set<std::string> want;
                    bool ok = true;
                    if (ref.kind == 'n') {
                        want = {"f"};
                    }
                    else if (ref.kind == 't') {
                        std::string const a = ref.arg;
                        ok = not(a.empty() ? odd_any : (below and odd_any));
                        want = {a.empty() ? "" : a};
                    }
                    else {
                        for (auto const& n : top) {
                            // an ill-formed name may match or not, as characters go
                            if (matches(ref.arg, n)) {
                                ok = ok and utf8(n);
                                want.insert(n);
                            }
                        }
                    }
                    s.Nontrivial(odd_any);
                    s.Outcome(ok ? "ok" : "error");
                    if (x.has_value() != ok) {
                        s.Fail(what + (ok ? ": fails: " + e.log : ": no error"), "outcome");
                        continue;
                    }
                    if (ok and ref.kind != 't') {
                        std::set<std::string> got;
                        for (auto const& [n, v] : x->artifacts.items()) {
                            got.insert(n);
                        }
                        s.Check(got == want, what + ": artifacts " + x->artifacts.dump(), "artifacts");
                    }
                    fs::remove_all(dir);
                }
            }
        }
    });
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    LogConfig::SetSinks({});
    bool th = hn::ctx().thorough;
    ConfigPart(th);
    FunctionsPart(th);
    PlacesPart();
    NamesPart();
    AnonymousPart(th);
    IdentityPart();
    FileNamesPart();
    return hn::Finish();
}
