// C11: targets of the built-in rules, and staging.
#include "h/analysis_engine.hpp"

namespace {
using namespace ana;

J Absent() { return J(J::value_t::discarded); }
J QQ(J const& x) { return J{{"type", "'"}, {"$1", x}}; }
J Single(J const& k, J const& v) { return J{{"type", "singleton_map"}, {"key", k}, {"value", v}}; }

// targets with all kinds of stages
std::vector<std::string> Library(Part& p) {
    auto& r = p.world.repos["r"];
    r.files["f"] = r.files["x/g"] = r.files["x/y/h"] = 'f';
    r.files["x"] = r.files["x/y"] = 'd';
    r.files["l"] = 'l';
    auto& rules = r.rules[""];
    rules = J::object();
    std::vector<std::string> names{"f", "x/g", "l"};
    auto act = [](std::vector<std::pair<std::string, std::string>> const& out) {
        // path -> command: the same command is the same artifact
        J l = J::array();
        for (auto const& [path, cmd] : out) {
            l.push_back(Single(path, J{{"type", "[]"}, {"index", 0}, {"list", {{"type", "values"}, {"$1", {{"type", "ACTION"}, {"outs", {"o"}}, {"cmd", {cmd}}}}}}}));
        }
        return J{{"type", "map_union"}, {"$1", l}};
    };
    auto add = [&](std::string const& n, J const& a, J const& rf, J const& prov = P("{\"type\":\"empty_map\"}"), J const& taint = J::array()) {
        rules["rule-" + n] = J{{"tainted", taint}, {"expression", {{"type", "RESULT"}, {"artifacts", a}, {"runfiles", rf}, {"provides", prov}}}};
        p.Add("r", "", n, J{{"type", "rule-" + n}});
        names.push_back(n);
    };
    auto none = act({});
    add("a", act({{"a", "1"}}), none);
    add("a'", act({{"a", "2"}}), none);
    add("ra", none, act({{"a", "1"}}));
    add("ra'", none, act({{"a", "2"}}));
    add("both", act({{"a", "1"}}), act({{"a", "1"}}));
    add("differ", act({{"a", "1"}}), act({{"a", "2"}}));
    add("ab", act({{"a/b", "1"}}), act({{"a/b", "1"}}));
    add("two", act({{"b", "1"}, {"c", "2"}}), act({{"d/e", "3"}}));
    add("rtwo", none, act({{"b", "1"}, {"c/d", "2"}}));
    add("nothing", none, none, Single("p", "v"));
    add("dot", act({{".", "1"}}), act({{".", "1"}}));
    add("tainted", act({{"t", "1"}}), act({{"t", "1"}}), P("{\"type\":\"empty_map\"}"), P(R"(["t"])"));
    add("inner", act({{"a", "1"}}), act({{"a/b", "2"}}));
    add("fails", P(R"({"type":"fail","msg":"no"})"), none);
    p.Add("r", "", "configured", P(R"({"type":"file_gen","arguments_config":["v"],"name":"a","data":{"type":"var","name":"v","default":"none"}})"));
    names.push_back("configured");
    return names;
}

struct Arg {
    char const* key;
    std::vector<J> alts;
};
void Variants(J const& base, std::vector<Arg> const& args, size_t depth, std::function<void(J const&)> const& f) {
    std::function<void(size_t, size_t, J const&)> go = [&](size_t i, size_t left, J const& e) {
        if (i == args.size()) {
            f(e);
            return;
        }
        go(i + 1, left, e);
        if (left == 0) {
            return;
        }
        for (auto const& a : args[i].alts) {
            J x = e;
            if (a.is_discarded()) {
                if (not x.contains(args[i].key)) {
                    continue;
                }
                x.erase(args[i].key);
            }
            else {
                x[args[i].key] = a;
            }
            go(i + 1, left - 1, x);
        }
    };
    go(0, depth, base);
}

void Fields(bool th) {
    Part p;
    p.name = "fields";
    auto lib = Library(p);
    p.configs = AllConfigs({"v"}, {nullptr, "1"});
    long n = 0;
    auto target = [&](J const& d) {
        auto t = d["type"].get<std::string>() + " " + std::to_string(n++);
        p.Add("r", "", t, d);
        p.targets.push_back({"r", "", t});
    };
    std::vector<J> deps{Absent(), P("[]"), P(R"(["a"])"), P(R"(["a","a'"])"), P(R"(["a'","a"])"), P(R"(["ra","ra'"])"), P(R"(["two","ab"])"), P(R"(["a","ab"])"),
                        P(R"(["differ"])"), P(R"(["tainted"])"), P(R"(["nothing"])"), P(R"(["configured","two"])"), P(R"(["dot"])"), P(R"(["a","a"])"), P(R"(["missing"])"),
                        P(R"("a")"), P("null"), P("[null]"), P("{}"), P("[[\"FILE\",null,\"f\"],[\"TREE\",null,\"x\"]]"),
                        P(R"({"type":"if","cond":{"type":"var","name":"v"},"then":["a"],"else":["two"]})"), P(R"({"type":"fail","msg":"no"})"), P(R"({"type":"var","name":"w","default":["a"]})")};
    std::vector<J> cfg{Absent(), P("[]"), P(R"(["v"])"), P(R"(["v","w"])"), P(R"(["v","v"])"), P("[1]"), P(R"("v")"), P("null")};
    std::vector<J> taint{Absent(), P("[]"), P(R"(["t"])"), P(R"(["t","u"])"), P(R"("t")"), P("[1]"), P("null"), P(R"({"type":"if","cond":{"type":"var","name":"v"},"then":["t"]})")};
    std::vector<J> strs{Absent(), "", "n", "a/b", "./n", "../n", "/n", ".", "n/", "n/../m", "n//m", "..", P("null"), P("1"), P("[]"),
                        P(R"({"type":"var","name":"v","default":"unset"})"), P(R"({"type":"join","$1":{"type":"outs","dep":"a"}})"),
                        P(R"({"type":"join","separator":",","$1":{"type":"runfiles","dep":"two"}})"), P(R"({"type":"join","separator":",","$1":{"type":"outs","dep":"two"}})"),
                        P(R"({"type":"join","$1":{"type":"outs","dep":"missing"}})"), "x/y/../../..", "\xc3\xa4", "a b", "a\nb"};
    std::vector<J> paths{Absent(), P("[]"), P(R"(["o"])"), P(R"(["o","p"])"), P(R"(["o","./o"])"), P(R"(["o","o/p"])"), P(R"(["o/p","o"])"), P(R"(["./o"])"), P(R"(["../o"])"), P(R"(["/o"])"),
                         P(R"(["."])"), P(R"([""])"), P(R"(["o/"])"), P(R"(["d/o","d/p"])"), P(R"(["o/../p"])"), P(R"(["a"])"), P(R"("o")"), P("null"), P("[1]"), P("[null]"),
                         P(R"({"type":"outs","dep":"two"})"), P(R"({"type":"runfiles","dep":"two"})"), P(R"([{"type":"var","name":"v"}])"), P(R"(["o",".","p"])"), P(R"(["o","../p"])")};
    std::vector<J> types{};
    auto lists = [&](std::vector<J> const& pool) {
        std::vector<J> r{P("[]")};
        for (auto const& a : pool) {
            r.push_back(J::array({a}));
        }
        for (auto const& a : pool) {
            for (auto const& b : pool) {
                r.push_back(J::array({a, b}));
            }
        }
        return r;
    };
    std::vector<J> pool(lib.begin(), lib.end());
    auto all_deps = lists(pool);
    size_t k = th ? 3 : 2;
    // file_gen, symlink
    for (auto const* type : {"file_gen", "symlink"}) {
        Variants(J{{"type", type}, {"name", "n"}, {"data", "c"}, {"deps", {"a", "two"}}},
                 {{"name", strs}, {"data", strs}, {"deps", deps}, {"arguments_config", cfg}, {"tainted", taint}, {"unknown", {P("1")}}}, k, target);
    }
    for (auto const& d : all_deps) {
        auto of = d.empty() ? J("two") : d.back();
        target(J{{"type", "file_gen"}, {"deps", d}, {"tainted", {"t"}},
                 {"data", P(R"({"type":"json_encode","$1":["?",{"type":"outs"},{"type":"runfiles"}]})")}});
        auto& x = p.world.repos["r"].targets[""][p.targets.back().name]["data"]["$1"];
        x[0] = of;
        x[1]["dep"] = of;
        x[2]["dep"] = of;
    }
    // trees
    for (auto const* type : {"tree", "tree_overlay", "disjoint_tree_overlay"}) {
        Variants(J{{"type", type}, {"name", "n"}, {"deps", {"a", "two"}}},
                 {{"name", strs}, {"deps", deps}, {"arguments_config", cfg}, {"tainted", taint}, {"unknown", {P("1")}}}, k + 1, target);
        for (auto const& d : all_deps) {
            target(J{{"type", type}, {"name", "n"}, {"deps", d}, {"tainted", {"t"}}});
        }
    }
    // install
    std::vector<J> files{Absent(), P("{}"), P(R"({"k":"a"})"), P(R"({"a":"a"})"), P(R"({"a":"a'"})"), P(R"({"a/b":"f"})"), P(R"({"./k":"f"})"), P(R"({"../k":"f"})"), P(R"({"/k":"f"})"),
                         P(R"({".":"f"})"), P(R"({"":"f"})"), P(R"({"k":"two"})"), P(R"({"k":"ra"})"), P(R"({"k":"differ"})"), P(R"({"k":"rtwo"})"), P(R"({"k":"nothing"})"), P(R"({"k":"configured"})"),
                         P(R"({"k":"a","k/l":"f"})"), P(R"({"k":"a","./k":"a"})"), P(R"({"k":"a","./k":"f"})"), P(R"({"k/":"a"})"), P(R"({"k":["TREE",null,"x"]})"), P(R"({"k":["x"]})"), P(R"({"k":null})"),
                         P(R"({"k":{"type":"if","cond":{"type":"var","name":"v"},"then":"a","else":"f"}})"), P("[]"), P("null"), P(R"({"k":"missing"})"), P(R"({"k":"tainted"})"), P(R"({"k":"a","l":"a'"})"), P(R"({"k/../l":"a","l":"f"})")};
    std::vector<J> dirs{Absent(), P("[]"), P(R"([["a","d"]])"), P(R"([["two","d"]])"), P(R"([["two",""]])"), P(R"([["a","."]])"), P(R"([["a","./d"]])"), P(R"([["a",".."]])"), P(R"([["a","/d"]])"), P(R"([["a","../d"]])"),
                        P(R"([["a","a"]])"), P(R"([["a","d"],["a'","d"]])"), P(R"([["a","d"],["a","d/."]])"), P(R"([["a","d"],["a'","e"]])"), P(R"([["differ","d"]])"), P(R"([["nothing","d"]])"), P(R"([["dot","d"]])"),
                        P(R"([["configured",{"type":"var","name":"v","default":"none"}]])"), P(R"([["inner","d"]])"), P(R"([["a","d/.."]])"), P(R"([["ab","a/.."]])"), P(R"([["a"]])"), P(R"([["a","d","e"]])"), P(R"([["a",1]])"), P(R"(["a"])"), P("null"),
                        P(R"({"type":"if","cond":{"type":"var","name":"v"},"then":[["a","d"]],"else":[]})"), P(R"([["missing","d"]])"), P(R"([["tainted","d"]])"), P(R"([["a","d"],["two","d/a"]])"), P(R"([[["FILE",null,"f"],"d"],[["TREE",null,"x"],"d"]])"),
                        P(R"([["a","d/../.."]])")};
    Variants(J{{"type", "install"}}, {{"deps", deps}, {"files", files}, {"dirs", dirs}, {"arguments_config", cfg}, {"tainted", taint}, {"unknown", {P("1")}}}, 2, [&](J const& d) {
        target(d);
    });
    Variants(J{{"type", "install"}, {"arguments_config", {"v"}}, {"tainted", {"t"}}}, {{"deps", deps}, {"files", files}, {"dirs", dirs}}, k, target);
    for (auto const& d : all_deps) {
        target(J{{"type", "install"}, {"deps", d}, {"tainted", {"t"}}});
        J dd = J::array();
        for (auto const& x : d) {
            dd.push_back(J::array({x, "d"}));
        }
        target(J{{"type", "install"}, {"dirs", dd}, {"tainted", {"t"}}});
        if (d.size() == 2) {
            target(J{{"type", "install"}, {"files", {{"k", d[0]}}}, {"deps", {d[1]}}, {"tainted", {"t"}}});
            target(J{{"type", "install"}, {"files", {{"a", d[0]}}}, {"dirs", J::array({J::array({d[1], "."})})}, {"tainted", {"t"}}});
            target(J{{"type", "install"}, {"deps", {d[0]}}, {"dirs", J::array({J::array({d[1], ""})})}, {"tainted", {"t"}}});
        }
    }
    // generic
    std::vector<J> cmds{Absent(), P("[]"), P(R"(["c"])"), P(R"(["c","d"])"), P(R"(["c\n"])"), P(R"([""])"), P("null"), P(R"("c")"), P("[1]"), P(R"({"type":"outs","dep":"two"})"), P(R"([{"type":"var","name":"v"}])"),
                        P(R"([{"type":"join","$1":{"type":"runfiles","dep":"a"}}])"), P(R"({"type":"outs","dep":"missing"})")};
    std::vector<J> sh{Absent(), P("null"), P("[]"), P(R"(["bash","-c"])"), P(R"(["x"])"), P(R"([""])"), P("[1]"), P(R"("sh")"), P(R"([{"type":"var","name":"v","default":"d"}])")};
    std::vector<J> cwd{Absent(), "", ".", "w", "w/x", "./w", "..", "../w", "/w", "w/..", "w/../..", "a", "a/b", "d", "d/e", "d/e/f", "o", P("null"), P("1"), P(R"({"type":"var","name":"v","default":"w"})"), "w/", "b"};
    std::vector<J> env{Absent(), P(R"({"type":"empty_map"})"), QQ(J{{"K", "v"}}), QQ(J{{"K", "v"}, {"L", "w"}}), QQ(J{{"K", 1}}), QQ(J{}), QQ(J::array()), P(R"({"type":"singleton_map","key":"K","value":{"type":"var","name":"v"}})"), P("null"),
                       P(R"({"K":"v"})")};
    std::vector<J> scale{Absent(), 1, 1.5, 0, -1, P("null"), "1", P(R"({"type":"if","cond":{"type":"var","name":"v"},"then":2,"else":3})"), P("[]"), 0.1};
    std::vector<Arg> gen{{"deps", deps}, {"cmds", cmds}, {"outs", paths}, {"out_dirs", paths}, {"cwd", cwd}, {"sh -c", sh}, {"env", env}, {"timeout scaling", scale}, {"execution properties", env},
                         {"arguments_config", cfg}, {"tainted", taint}, {"unknown", {P("1")}}};
    Variants(J{{"type", "generic"}, {"deps", {"a", "two"}}, {"cmds", {"c"}}, {"outs", {"o"}}}, gen, 2, target);
    Variants(J{{"type", "generic"}, {"deps", {"a", "two"}}, {"cmds", {"c"}}, {"outs", {"o"}}, {"arguments_config", {"v"}}, {"tainted", {"t", "u"}}}, gen, th ? 2 : 1, target);
    for (auto const& d : all_deps) {
        for (auto const* w : {"", "a", "w"}) {
            target(J{{"type", "generic"}, {"deps", d}, {"outs", {"o"}}, {"cwd", w}, {"tainted", {"t"}}});
        }
    }
    // configure
    std::vector<J> tg{Absent(), "configured", "a", "f", "tainted", "missing", P("null"), P("1"), P(R"(["configured"])"), P(R"(["","configured"])"), P(R"(["FILE",null,"f"])"), P(R"({"type":"if","cond":{"type":"var","name":"v"},"then":"a","else":"configured"})"),
                      P(R"({"type":"var","name":"w","default":"configured"})"), "fails", P(R"({"type":"fail","msg":"no"})")};
    std::vector<J> conf{Absent(), P(R"({"type":"empty_map"})"), Single("v", "2"), Single("v", QQ(J{})), Single("w", "2"), Single("v", P(R"({"type":"var","name":"v"})")), Single("v", P(R"({"type":"var","name":"w"})")), QQ(J{{"v", "1"}, {"w", "1"}}),
                        P("null"), P("[]"), P("{}"), P(R"({"type":"fail","msg":"no"})"), P(R"({"v":"1"})"), QQ(J{}), QQ(J::array()), Single("v", P("[1,2]")), Single("v", P("0"))};
    Variants(J{{"type", "configure"}, {"target", "configured"}, {"config", {{"type", "empty_map"}}}},
             {{"target", tg}, {"config", conf}, {"arguments_config", cfg}, {"tainted", taint}, {"unknown", {P("1")}}}, th ? 4 : 3, target);
    // export
    std::vector<J> flex{Absent(), P("[]"), P(R"(["v"])"), P(R"(["w"])"), P(R"(["v","w"])"), P(R"(["v","v"])"), P("[1]"), P(R"("v")"), P("null"), P(R"({"type":"'","$1":["v"]})")};
    std::vector<J> fixed{Absent(), P("{}"), P(R"({"v":"2"})"), P(R"({"w":"2"})"), P(R"({"v":null})"), P(R"({"v":{"type":"var","name":"w"}})"), P("null"), P("[]"), P(R"({"v":["x"]})")};
    Variants(J{{"type", "export"}, {"target", "configured"}}, {{"target", tg}, {"flexible_config", flex}, {"fixed_config", fixed}, {"doc", {P(R"(["d"])"), P("1")}},
             {"config_doc", {P(R"({"v":["d"]})"), P("1")}}, {"unknown", {P("1")}}}, th ? 4 : 3, target);
    for (auto const& d : lib) {
        target(J{{"type", "export"}, {"target", d}, {"flexible_config", {"v"}}});
        target(J{{"type", "configure"}, {"target", d}, {"config", QQ(J{{"v", "2"}})}, {"tainted", {"t"}}});
    }
    p.Go("targets of each built-in rule whose fields differ from a valid target in up to 2 (overlay, tree, configure, export: 3) places, over alphabets of valid, failing and ill-typed "
         "field values; each rule with all lists of up to two of 18 dependencies; in 3 configurations, in both orders");
}

// ----------------------------------------------------------------- staging
// all pairs of paths, wherever a stage is formed
void Staging(bool th) {
    Part p;
    p.name = "staging";
    p.joint = false;
    auto& r = p.world.repos["r"];
    r.files["f"] = r.files["g"] = 'f';
    auto& rules = r.rules[""];
    rules = J::object();
    std::vector<std::string> paths{"a", "./a", "a/b", "a/../b", "b", "..", "../a", "/a", ".", "", "a/", "a//b", "a/b/c", "b/a", "a/./b", "a-b", "a/..", "a/../..", "//a", "a/b/.."};
    if (th) {
        for (auto const* x : {"./..", "/", "a.b", "./a/b/", "a/b/../../..", "...", "a/...", "a b", "aa", "a/bb", "./", "b/../a/b", "/.."}) {
            paths.push_back(x);
        }
    }
    long n = 0;
    auto target = [&](std::string const& kind, J const& d) {
        auto t = kind + " " + std::to_string(n++);
        p.Add("r", "", t, d);
        p.targets.push_back({"r", "", t});
    };
    auto rule_target = [&](std::string const& kind, J const& e) {
        auto rn = "rule" + std::to_string(n);
        rules[rn] = J{{"implicit", {{"i", {"f", "g"}}}}, {"expression", e}};
        target(kind, J{{"type", rn}});
    };
    auto art = [](int which) {
        return J{{"type", "[]"}, {"index", 0}, {"list", {{"type", "values"}, {"$1", {{"type", "DEP_ARTIFACTS"}, {"dep", {{"type", "[]"}, {"index", which}, {"list", Field("i")}}}}}}}};
    };
    auto stage = [&](std::vector<std::pair<std::string, int>> const& l) {
        J u = J::array();
        for (auto const& [k, w] : l) {
            u.push_back(Single(k, art(w)));
        }
        return J{{"type", "map_union"}, {"$1", u}};
    };
    auto provides = [&](J const& e) { return J{{"type", "RESULT"}, {"provides", Single("v", e)}}; };
    std::vector<std::vector<std::pair<std::string, int>>> stages;
    for (auto const& a : paths) {
        stages.push_back({{a, 0}});
        for (auto const& b : paths) {
            stages.push_back({{a, 0}, {b, 1}});
            if (a < b) {
                stages.push_back({{a, 0}, {b, 0}});
            }
        }
    }
    for (size_t i = 0; i < stages.size(); ++i) {
        auto const& s = stages[i];
        rule_target("artifacts", J{{"type", "RESULT"}, {"artifacts", stage(s)}});
        rule_target("runfiles", J{{"type", "RESULT"}, {"runfiles", stage(s)}});
        rule_target("inputs", J{{"type", "RESULT"}, {"artifacts", {{"type", "ACTION"}, {"outs", {"o"}}, {"cmd", {"c"}}, {"inputs", stage(s)}}}});
        rule_target("tree", provides(J{{"type", "TREE"}, {"$1", stage(s)}}));
        rule_target("overlay", provides(J{{"type", "TREE_OVERLAY"}, {"$1", J::array({stage(s)})}}));
        J f = J::object();
        for (auto const& [k, w] : s) {
            f[k] = w == 0 ? "f" : "g";
        }
        target("install files", J{{"type", "install"}, {"files", f}});
        if (s.size() == 2 and s[0].second != s[1].second) {
            auto const& a = s[0].first;
            auto const& b = s[1].first;
            target("install dirs", J{{"type", "install"}, {"dirs", J::array({J::array({"f", a}), J::array({"g", b})})}});
            target("install both", J{{"type", "install"}, {"files", {{a, "f"}}}, {"dirs", J::array({J::array({"f", b})})}});
            target("outs", J{{"type", "generic"}, {"outs", {a, b}}});
            target("outs and dirs", J{{"type", "generic"}, {"outs", {a}}, {"out_dirs", {b}}});
            target("cwd", J{{"type", "generic"}, {"outs", {"o"}}, {"cwd", a}, {"deps", {"named " + std::to_string(i)}}});
            p.Add("r", "", "named " + std::to_string(i), J{{"type", "file_gen"}, {"name", b}, {"data", "x"}});
            rule_target("action cwd", J{{"type", "RESULT"}, {"artifacts", {{"type", "ACTION"}, {"outs", {"o"}}, {"cmd", {"c"}}, {"cwd", a}, {"inputs", stage({{b, 0}})}}}});
            rule_target("action outs", J{{"type", "RESULT"}, {"provides", Single("v", J{{"type", "ACTION"}, {"outs", {a}}, {"out_dirs", {b}}, {"cmd", {"c"}}})}});
            rule_target("disjoint", provides(J{{"type", "DISJOINT_TREE_OVERLAY"}, {"$1", J::array({stage({{a, 0}}), stage({{b, 1}})})}}));
            // a tree of named files
            auto t1 = "first " + std::to_string(i);
            auto t2 = "named " + std::to_string(i);
            p.Add("r", "", t1, J{{"type", "file_gen"}, {"name", a}, {"data", "y"}});
            target("tree of", J{{"type", "tree"}, {"name", "t"}, {"deps", {t1, t2}}});
            target("generic of", J{{"type", "generic"}, {"outs", {"o"}}, {"deps", {t1, t2}}});
            target("install of", J{{"type", "install"}, {"deps", {t1, t2}}});
        }
        if (s.size() == 1) {
            for (auto const* ty : {"file_gen", "symlink"}) {
                target(ty, J{{"type", ty}, {"name", s[0].first}, {"data", "d"}});
            }
            target("link", J{{"type", "symlink"}, {"name", "n"}, {"data", s[0].first}});
            for (auto const* ty : {"tree", "tree_overlay", "disjoint_tree_overlay"}) {
                target(ty, J{{"type", ty}, {"name", s[0].first}, {"deps", {"f"}}});
            }
        }
    }
    if (th) {
        std::vector<std::string> few{"a", "./a", "a/b", "b", "a/../b", ".", "a/b/c", "b/a", "a-b"};
        for (auto const& a : few) {
            for (auto const& b : few) {
                for (auto const& c : few) {
                    auto s = stage({{a, 0}, {b, 1}, {c, 0}});
                    rule_target("artifacts", J{{"type", "RESULT"}, {"artifacts", s}});
                    rule_target("tree", provides(J{{"type", "TREE"}, {"$1", s}}));
                    rule_target("inputs", J{{"type", "RESULT"}, {"artifacts", {{"type", "ACTION"}, {"outs", {"o"}}, {"cmd", {"c"}}, {"inputs", s}}}});
                    target("install", J{{"type", "install"}, {"files", {{a, "f"}}}, {"dirs", J::array({J::array({"f", b}), J::array({"g", c})})}});
                }
            }
        }
    }
    p.Go("all pairs of 20 (thorough: 33) spellings of paths with equal and different artifacts, in artifacts, runfiles, inputs, trees, overlays, outputs, working directories, and the built-in rules that form stages");
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    LogConfig::SetSinks({});
    bool th = hn::ctx().thorough;
    Fields(th);
    Staging(th);
    return hn::Finish();
}
