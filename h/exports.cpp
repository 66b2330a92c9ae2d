// C12: export targets taken from the target-level cache, or from a serve
// endpoint, are what building them afresh gives
#include "h/build.hpp"
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <set>
#include "src/buildtool/build_engine/base_maps/entity_name_data.hpp"
#include "src/buildtool/build_engine/expression/configuration.hpp"
#include "src/buildtool/build_engine/expression/expression.hpp"
#include "src/buildtool/build_engine/target_map/configured_target.hpp"
#include "src/buildtool/main/analyse.hpp"
#include "src/buildtool/main/analyse_context.hpp"
#include "src/buildtool/main/build_utils.hpp"
#include "src/buildtool/progress_reporting/progress.hpp"
#include "src/buildtool/serve_api/remote/serve_api.hpp"

namespace {
using bl::Site;
using hn::Json;
using trees::D;
using trees::F;
using trees::L;
using trees::Node;
using trees::X;
namespace fs = std::filesystem;
Json P(std::string const& s) { return Json::parse(s); }

// --- the project ------------------------------------------------------------
// gen: artifacts of all kinds, from sources, actions, and descriptions
std::string const kRules = R"({
"gen": {
  "target_fields": ["deps"], "string_fields": ["name"], "config_vars": ["V","W","F"],
  "expression": {"type":"let*","bindings":[
    ["name", {"type":"join","$1":{"type":"FIELD","name":"name"}}],
    ["in", {"type":"map_union","$1":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"deps"},"body":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"}}}}],
    ["run", {"type":"map_union","$1":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"deps"},"body":{"type":"DEP_RUNFILES","dep":{"type":"var","name":"d"}}}}],
    ["cfg", {"type":"json_encode","$1":{"type":"`","$1":{"v":{"type":",","$1":{"type":"var","name":"V"}},"w":{"type":",","$1":{"type":"var","name":"W"}},"f":{"type":",","$1":{"type":"var","name":"F"}}}}}],
    ["outs", {"type":"ACTION","inputs":{"type":"map_union","$1":[{"type":"var","name":"run"},{"type":"var","name":"in"}]},"outs":["out","exe"],"out_dirs":["dir"],
      "env":{"type":"'","$1":{"PATH":"/usr/bin:/bin"}},
      "cmd":["sh","-c",{"type":"join","separator":"","$1":["l=$(for f in $(find . -type f | LC_ALL=C sort); do echo $f; cat $f; done); echo \"$l\" > out; echo '",{"type":"var","name":"cfg"},"' >> out; echo ",{"type":"var","name":"name"}," > exe; chmod 755 exe; mkdir -p dir/s dir/e; echo x > dir/s/f; ln -s f dir/s/l; chmod 755 dir/s/f"]}]}],
    ["second", {"type":"ACTION","inputs":{"type":"map_union","$1":[{"type":"singleton_map","key":"o","value":{"type":"lookup","key":"out","map":{"type":"var","name":"outs"}}}]},"outs":["two"],
      "env":{"type":"'","$1":{"PATH":"/usr/bin:/bin"}},"cmd":["sh","-c","wc -c < o > two"]}]],
   "body": {"type":"let*","bindings":[
    ["blob", {"type":"BLOB","data":{"type":"var","name":"cfg"}}],
    ["tree", {"type":"TREE","$1":{"type":"map_union","$1":[{"type":"var","name":"in"},{"type":"singleton_map","key":"sub/o","value":{"type":"lookup","key":"exe","map":{"type":"var","name":"outs"}}}]}}],
    ["ovl", {"type":"TREE_OVERLAY","$1":[{"type":"singleton_map","key":"k","value":{"type":"var","name":"blob"}},{"type":"singleton_map","key":"k","value":{"type":"lookup","key":"two","map":{"type":"var","name":"second"}}}]}],
    ["all", {"type":"map_union","$1":[{"type":"var","name":"outs"},{"type":"singleton_map","key":"blob","value":{"type":"var","name":"blob"}},
       {"type":"singleton_map","key":"link","value":{"type":"SYMLINK","data":"out"}},
       {"type":"singleton_map","key":"tree","value":{"type":"var","name":"tree"}},{"type":"singleton_map","key":"ovl","value":{"type":"var","name":"ovl"}}]}]],
   "body": {"type":"RESULT",
     "artifacts":{"type":"to_subdir","subdir":{"type":"var","name":"name"},"$1":{"type":"var","name":"all"}},
     "runfiles":{"type":"to_subdir","subdir":{"type":"join","$1":["r-",{"type":"var","name":"name"}]},"$1":{"type":"map_union","$1":[{"type":"var","name":"second"},{"type":"var","name":"in"}]}},
     "provides":{"type":"`","$1":{"info":{
        "arts":{"type":",","$1":{"type":"var","name":"all"}},
        "data":{"a":[1,null,true,"s",{"k":2.5}],"cfg":{"type":",","$1":{"type":"var","name":"cfg"}},"name":{"type":",","$1":{"type":"var","name":"name"}}},
        "deep":[{"x":[{"type":",","$1":{"type":"lookup","key":"two","map":{"type":"var","name":"second"}}}]}]},
       "nodes":[{"type":",","$1":{"type":"ABSTRACT_NODE","node_type":"n","string_fields":{"type":"singleton_map","key":"s","value":[{"type":"var","name":"name"}]},
           "target_fields":{"type":"singleton_map","key":"deps","value":[{"type":"VALUE_NODE","$1":{"type":"RESULT","artifacts":{"type":"singleton_map","key":"vn","value":{"type":"lookup","key":"dir","map":{"type":"var","name":"outs"}}},"runfiles":{"type":"var","name":"second"},"provides":{"type":"singleton_map","key":"p","value":{"type":"var","name":"blob"}}}}]}}}]}}}}}},
"n": {"string_fields":["s"],"target_fields":["deps"],"expression":{"type":"let*","bindings":[["name",{"type":"join","$1":{"type":"FIELD","name":"s"}}]],
  "body":{"type":"RESULT","artifacts":{"type":"to_subdir","subdir":{"type":"var","name":"name"},"$1":{"type":"map_union","$1":{"type":"++","$1":[
     {"type":"foreach","var":"d","range":{"type":"FIELD","name":"deps"},"body":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"}}},
     {"type":"foreach","var":"d","range":{"type":"FIELD","name":"deps"},"body":{"type":"DEP_RUNFILES","dep":{"type":"var","name":"d"}}},
     {"type":"foreach","var":"d","range":{"type":"FIELD","name":"deps"},"body":{"type":"singleton_map","key":"p","value":{"type":"DEP_PROVIDES","dep":{"type":"var","name":"d"},"provider":"p"}}}]}}}}}},
"tag": {"target_fields":["deps"],"string_fields":["name"],"expression":{"type":"RESULT",
  "artifacts":{"type":"to_subdir","subdir":{"type":"join","$1":{"type":"FIELD","name":"name"}},"$1":{"type":"map_union","$1":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"deps"},"body":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"}}}}},
  "runfiles":{"type":"to_subdir","subdir":{"type":"join","$1":{"type":"FIELD","name":"name"}},"$1":{"type":"map_union","$1":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"deps"},"body":{"type":"DEP_RUNFILES","dep":{"type":"var","name":"d"}}}}}}},
"trans": {"target_fields":["deps"],"config_transitions":{"deps":[{"type":"singleton_map","key":"V","value":"1"},{"type":"singleton_map","key":"V","value":2}]},"expression":{"type":"RESULT",
  "artifacts":{"type":"map_union","$1":{"type":"++","$1":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"deps"},"body":[
    {"type":"to_subdir","subdir":"1","$1":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"},"transition":{"type":"singleton_map","key":"V","value":"1"}}},
    {"type":"to_subdir","subdir":"2","$1":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"},"transition":{"type":"singleton_map","key":"V","value":2}}}]}}},
  "runfiles":{"type":"map_union","$1":{"type":"++","$1":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"deps"},"body":[
    {"type":"to_subdir","subdir":"1","$1":{"type":"DEP_RUNFILES","dep":{"type":"var","name":"d"},"transition":{"type":"singleton_map","key":"V","value":"1"}}},
    {"type":"to_subdir","subdir":"2","$1":{"type":"DEP_RUNFILES","dep":{"type":"var","name":"d"},"transition":{"type":"singleton_map","key":"V","value":2}}}]}}}}},
"use": {"target_fields":["deps"],"anonymous":{"an":{"target":"deps","provider":"nodes","rule_map":{"n":"n"}}},
  "expression":{"type":"let*","bindings":[
    ["infos",{"type":"foreach","var":"d","range":{"type":"FIELD","name":"deps"},"body":{"type":"DEP_PROVIDES","dep":{"type":"var","name":"d"},"provider":"info"}}],
    ["from",{"type":"map_union","$1":{"type":"foreach","var":"i","range":{"type":"var","name":"infos"},"body":
       {"type":"to_subdir","subdir":{"type":"lookup","key":"name","map":{"type":"lookup","key":"data","map":{"type":"var","name":"i"}}},"$1":{"type":"map_union","$1":[
          {"type":"lookup","key":"arts","map":{"type":"var","name":"i"}},
          {"type":"singleton_map","key":"data.json","value":{"type":"BLOB","data":{"type":"json_encode","$1":{"type":"lookup","key":"data","map":{"type":"var","name":"i"}}}}},
          {"type":"singleton_map","key":"deep","value":{"type":"[]","index":0,"list":{"type":"lookup","key":"x","map":{"type":"[]","index":0,"list":{"type":"lookup","key":"deep","map":{"type":"var","name":"i"}}}}}}]}}}}],
    ["arts",{"type":"map_union","$1":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"deps"},"body":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"}}}}],
    ["runs",{"type":"map_union","$1":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"deps"},"body":{"type":"DEP_RUNFILES","dep":{"type":"var","name":"d"}}}}],
    ["an",{"type":"map_union","$1":{"type":"foreach","var":"d","range":{"type":"FIELD","name":"an"},"body":{"type":"DEP_ARTIFACTS","dep":{"type":"var","name":"d"}}}}],
    ["act",{"type":"ACTION","inputs":{"type":"var","name":"arts"},"outs":["sum"],"env":{"type":"'","$1":{"PATH":"/usr/bin:/bin"}},"cmd":["sh","-c","l=$(find . | LC_ALL=C sort); echo \"$l\" > sum"]}]],
   "body":{"type":"RESULT","artifacts":{"type":"map_union","$1":[{"type":"to_subdir","subdir":"a","$1":{"type":"var","name":"arts"}},{"type":"to_subdir","subdir":"p","$1":{"type":"var","name":"from"}},
        {"type":"to_subdir","subdir":"n","$1":{"type":"var","name":"an"}},{"type":"var","name":"act"}]},
     "runfiles":{"type":"to_subdir","subdir":"runs","$1":{"type":"var","name":"runs"}}}}}
})";

struct RepoDef {
    Node tree;
    std::map<std::string, std::string> binds;
    bool local = false;  // not fixed in content
};
struct World {
    std::string name;
    std::map<std::string, RepoDef> repos;
    std::string main;
};
Json Export(std::string const& t, std::vector<std::string> const& flex, Json const& fixed = Json::object()) {
    return Json{{"type", "export"}, {"target", t}, {"flexible_config", flex}, {"fixed_config", fixed}};
}
Node Def(Json const& targets, std::map<std::string, Node> files) {
    files["RULES"] = F(kRules);
    files["TARGETS"] = F(targets.dump());
    return D(std::move(files));
}
Json const kBase = {{"b", {{"type", "export"}, {"target", "b_"}, {"flexible_config", {"V"}}}},
                    {"b_", {{"type", "gen"}, {"name", {"b"}}, {"deps", {"b.txt", {"TREE", nullptr, "d"}, "o_"}}}},
                    {"o", {{"type", "export"}, {"target", "o_"}, {"flexible_config", {"V"}}}},
                    {"o_", {{"type", "gen"}, {"name", {"o"}}, {"deps", {"b.txt"}}}}};
Json const kLib = {{"l", {{"type", "export"}, {"target", "l_"}, {"flexible_config", {"V"}}, {"fixed_config", {{"F", "x"}}}}},
                   {"l_", {{"type", "gen"}, {"name", {"l"}}, {"deps", {"l.txt", {"@", "base", "", "b"}}}}},
                   {"c", {{"type", "configure"}, {"target", {"@", "base", "", "b"}}, {"config", {{"type", "'"}, {"$1", {{"V", "9"}}}}}}}};
Json const kMain = {{"mainx", {{"type", "export"}, {"target", "main"}, {"flexible_config", {"V", "W"}}}},
                    {"main", {{"type", "use"}, {"deps", {{"@", "lib", "", "l"}, {"@", "base", "", "o"}}}}},
                    // several configurations of the same exports
                    {"in", {{"type", "use"}, {"deps", {{"@", "lib", "", "l"}, {"@", "base", "", "o"}}}}},
                    {"c1", {{"type", "configure"}, {"target", "in"}, {"config", {{"type", "'"}, {"$1", {{"V", "1"}}}}}}},
                    {"c2", {{"type", "configure"}, {"target", "in"}, {"config", {{"type", "'"}, {"$1", {{"V", 2}}}}}}},
                    {"t1", {{"type", "tag"}, {"name", {"1"}}, {"deps", {"c1"}}}},
                    {"t2", {{"type", "tag"}, {"name", {"2"}}, {"deps", {"c2"}}}},
                    {"both", {{"type", "tag"}, {"name", {""}}, {"deps", {"t1", "t2"}}}},
                    {"trans", {{"type", "trans"}, {"deps", {"in"}}}},
                    {"bothx", {{"type", "export"}, {"target", "both"}, {"flexible_config", Json::array()}}}};
int const kWorlds = 15;
World MakeWorld(int v) {
    World w;
    w.main = "main";
    auto base = kBase;
    auto lib = kLib;
    auto main = kMain;
    std::string bt = "b", lt = "l", dt = "d", mt = "m";
    RepoDef b, l, m;
    m.binds = {{"lib", "lib"}, {"base", "base"}};
    l.binds = {{"base", "base"}};
    bool rule = false, second = false, rename = false;
    switch (v) {
        case 0: w.name = "plain"; break;
        case 1: w.name = "source of lib changed"; lt = "L"; break;
        case 2: w.name = "source of base changed"; bt = "B"; break;
        case 3: w.name = "source tree of base changed"; dt = "DD"; break;
        case 4: w.name = "target of base changed"; base["b_"]["deps"] = {"b.txt", "o_"}; break;
        case 5: w.name = "lib bound to another base"; second = true; break;
        case 6: w.name = "file of main changed"; mt = "M"; break;
        case 7: w.name = "fixed configuration changed"; lib["l"]["fixed_config"]["F"] = "y"; break;
        case 8: w.name = "flexible configuration extended"; lib["l"]["flexible_config"] = {"V", "W"}; break;
        case 9: w.name = "flexible configuration of base extended"; base["b"]["flexible_config"] = {"V", "F"}; break;
        case 10: w.name = "repositories renamed"; rename = true; break;
        case 11: w.name = "base not fixed in content"; b.local = true; break;
        case 12: w.name = "rule changed"; rule = true; break;
        case 13: w.name = "other target exported"; base["b"]["target"] = "o_"; break;
        case 14: w.name = "main not fixed in content"; m.local = true; break;
    }
    b.tree = Def(base, {{"b.txt", F(bt)}, {"d", D({{"f", F(dt)}, {"x", X("run")}, {"e", D({{"l", L("m")}, {"m", F("in e")}})}})}});
    l.tree = Def(lib, {{"l.txt", F(lt)}});
    m.tree = Def(main, {{"m.txt", F(mt)}});
    if (rule) {
        auto r = kRules;
        auto at = r.find("wc -c < o");
        r.replace(at, 2, "cat;wc");
        r.replace(at, 6, "cat o|wc");
        at = r.find("cat o|wc -c < o");
        r.replace(at, 15, "wc -c < o;echo>>two; echo r");
        l.tree.ch["RULES"] = F(r);
    }
    std::string bn = "base", ln = "lib";
    if (rename) {
        bn = "zz";
        ln = "base";
        w.main = "lib";
        m.binds = {{"lib", "base"}, {"base", "zz"}};
        l.binds = {{"base", "zz"}};
    }
    if (second) {
        auto o = b;
        o.tree = Def(base, {{"b.txt", F("second")}, {"d", D({{"f", F(dt)}})}});
        w.repos["base2"] = o;
        l.binds["base"] = "base2";
    }
    w.repos[bn] = b;
    w.repos[ln] = l;
    w.repos[w.main] = m;
    return w;
}
// what a repository is, with everything reachable
std::optional<std::string> Identity(World const& w, std::string const& r) {
    auto const& d = w.repos.at(r);
    if (d.local) {
        return std::nullopt;
    }
    auto s = trees::TreeId(d.tree);
    for (auto const& [n, t] : d.binds) {
        auto i = Identity(w, t);
        if (not i) {
            return std::nullopt;
        }
        s += "(" + n + ":" + *i + ")";
    }
    return s;
}

struct Req {
    int world = 0;
    int config = 0;
    int target = 0;
};
std::vector<Json> const kConfigs{P("{}"), P(R"({"V":"1"})"), P(R"({"V":2})"), P(R"({"V":"1","W":"w"})"), P(R"({"V":"1","F":"f"})"), P(R"({"V":"1","other":[1]})"), P(R"({"V":null})")};
struct Target {
    std::string binding, name;  // of main; empty: main itself
};
std::vector<Target> const kTargets{{"", "mainx"}, {"", "main"}, {"lib", "l"}, {"base", "b"}, {"lib", "c"},
                                  // only when asked for by name
                                  {"", "in"}, {"", "both"}, {"", "trans"}, {"", "bothx"}, {"base", "o"}};
int const kMainTargets = 5;
std::string Name(Req const& r) {
    auto const& t = kTargets[(size_t)r.target];
    return MakeWorld(r.world).name + ", " + kConfigs[(size_t)r.config].dump() + ", " + t.binding + ":" + t.name;
}

struct Outcome {
    bool ok = false;
    Node stage;
    std::map<std::string, std::string> infos;  // path -> kind and digest
    int executed = 0, exports = 0, cached = 0, uncached = 0, served = 0, no = 0;
    std::string log;
};

std::string const& Base() {
    static std::string d;
    static pid_t who = 0;
    if (who != getpid()) {
        who = getpid();
        d = trees::Dir(hn::ctx().scratch, "exports");
        fs::create_directories(d);
    }
    return d;
}
trees::Repo& Git() {
    static std::unique_ptr<trees::Repo> g;
    static pid_t who = 0;
    if (who != getpid()) {
        who = getpid();
        g.release();
        g = std::make_unique<trees::Repo>(Base() + "/git");
    }
    return *g;
}
// repositories of the world; those named are absent
void Configure(Site& site, World const& w, std::set<std::string> const& absent = {}) {
    for (auto const& [n, d] : w.repos) {
        std::optional<FileRoot> root;
        if (d.local) {
            auto at = Base() + "/local-" + trees::TreeId(d.tree);
            if (not fs::exists(at)) {
                trees::Write(d.tree, at);
            }
            root = FileRoot{fs::path{at}};
        }
        else {
            auto id = Git().Put(d.tree);
            root = absent.contains(n) ? FileRoot{id} : FileRoot::FromGit(&site.sc, Base() + "/git", id);
        }
        if (not root) {
            throw std::runtime_error("root");
        }
        RepositoryConfig::RepositoryInfo info{*root, *root, *root, *root};
        info.name_mapping = d.binds;
        site.rc.SetInfo(n, std::move(info));
    }
}
BuildMaps::Target::ConfiguredTarget Key(World const& w, Req const& r) {
    auto const& t = kTargets[(size_t)r.target];
    auto repo = t.binding.empty() ? w.main : w.repos.at(w.main).binds.at(t.binding);
    return {.target = BuildMaps::Base::EntityName{repo, "", t.name}, .config = Configuration{Expression::FromJson(kConfigs[(size_t)r.config])}};
}
Outcome Run(Site& site, World const& w, BuildMaps::Target::ConfiguredTarget const& id, ServeApi* serve = nullptr, bool write = true, std::string const& to = "/out") {
    Outcome o;
    auto out = Base() + to;
    fs::remove_all(out);
    Statistics stats;
    Progress ep;
    AnalyseContext actx{.repo_config = &site.rc, .storage = &site.st, .statistics = &stats, .progress = &ep, .serve = serve};
    auto res = AnalyseTarget(&actx, id, 1, std::nullopt);
    o.exports = stats.ExportsFoundCounter();
    o.cached = stats.ExportsCachedCounter();
    o.uncached = stats.ExportsUncachedCounter();
    o.served = stats.ExportsServedCounter();
    o.no = stats.ExportsNotEligibleCounter();
    if (not res) {
        o.log = "analysis";
        return o;
    }
    auto [artifacts, runfiles] = ReadOutputArtifacts(res->target);
    Progress progress;
    auto [actions, blobs, ts, overlays] = res->result_map.ToResult(&stats, &progress);
    auto const cache_targets = res->result_map.CacheTargets();
    auto extra = CollectNonKnownArtifacts(cache_targets);
    gsl::not_null<ApiBundle const*> const apis{&site.apis};
    ExecutionContext ectx{.repo_config = &site.rc, .apis = apis, .remote_context = &site.rctx, .statistics = &stats, .progress = &progress, .profile = std::nullopt};
    GraphTraverser::CommandLineArguments args;
    args.jobs = 1;
    args.build.build_jobs = 1;
    args.stage = StageArguments{.output_dir = out};
    GraphTraverser t{args, &ectx, [](std::atomic<bool>*, std::condition_variable*) {}};
    // the artifacts asked for, to learn their digests
    for (auto const* m : {&artifacts, &runfiles}) {
        for (auto const& [p, a] : *m) {
            if (std::find(extra.begin(), extra.end(), a) == extra.end()) {
                extra.push_back(a);
            }
        }
    }
    auto built = t.BuildAndStage(artifacts, runfiles, std::move(actions), std::move(blobs), std::move(ts), std::move(overlays), std::move(extra));
    o.executed = (int)stats.ActionsExecutedCounter();
    if (not built) {
        o.log = "build";
        return o;
    }
    if (write) {
        WriteTargetCacheEntries(cache_targets, built->extra_infos, 1, site.apis, TargetCacheWriteStrategy::Sync, site.st.TargetCache(), nullptr, LogLevel::Warning);
    }
    o.ok = not built->failed_artifacts;
    o.stage = trees::Look(out);
    for (auto const* m : {&artifacts, &runfiles}) {
        for (auto const& [p, a] : *m) {
            auto const& i = built->extra_infos.at(a);
            o.infos[p] = std::string(1, ToChar(i.type)) + i.digest.hash();
        }
    }
    return o;
}

// what it has to be: built in a storage of its own
Outcome const& Clean(Req const& r) {
    static std::map<std::string, Outcome> memo;
    static pid_t who = 0;
    if (who != getpid()) {
        who = getpid();
        memo.clear();
    }
    auto k = std::to_string(r.world) + "," + std::to_string(r.config) + "," + std::to_string(r.target);
    auto it = memo.find(k);
    if (it == memo.end()) {
        auto at = Base() + "/clean";
        fs::remove_all(at);
        Site site(at, true, "");
        auto w = MakeWorld(r.world);
        Configure(site, w);
        auto o = Run(site, w, Key(w, r));
        if (not o.ok or o.cached != 0 or o.served != 0) {
            throw std::runtime_error("clean build of " + Name(r) + " fails in " + o.log);
        }
        it = memo.emplace(k, std::move(o)).first;
        fs::remove_all(at);
    }
    return it->second;
}

// what is in the cache, as far as known
struct Model {
    std::map<std::string, int> age;  // of entries, in collections
    std::map<std::string, std::set<std::string>> implied;  // entries an entry was made with
    struct Count {
        int exports = 0, cached = 0, uncached = 0, no = 0;
    };
    static Json Prune(Json const& cfg, std::vector<std::string> const& vars) {
        Json r = Json::object();
        for (auto const& v : vars) {
            if (cfg.contains(v) and not cfg[v].is_null()) {
                r[v] = cfg[v];
            }
        }
        return r;
    }
    // walks exports from a target, as the analysis does; all keys it is made with
    struct Work {
        Count c;
        std::map<std::string, std::set<std::string>> exports;  // seen
        std::set<std::string> used;
    };
    std::set<std::string> Walk(World const& w, std::string const& repo, std::string const& name, Json cfg, Work& k) {
        auto const& d = w.repos.at(repo);
        auto const ts = Json::parse(d.tree.ch.at("TARGETS").data);
        if (not ts.contains(name)) {
            return {};  // a source
        }
        auto const& t = ts[name];
        std::set<std::string> r;
        auto dep = [&](Json const& x, Json const& c) {
            if (x.is_array() and x[0] == "@") {
                r.merge(Walk(w, d.binds.at(x[1]), x[3], c, k));
            }
            else if (x.is_string()) {
                r.merge(Walk(w, repo, x, c, k));
            }
        };
        if (t["type"] == "configure") {
            for (auto const& [n, v] : t["config"]["$1"].items()) {
                cfg[n] = v;
            }
            dep(t["target"], cfg);
            return r;
        }
        if (t["type"] == "export") {
            cfg = Prune(cfg, t["flexible_config"].get<std::vector<std::string>>());
            auto here = repo + ":" + name + cfg.dump();
            if (auto it = k.exports.find(here); it != k.exports.end()) {
                return it->second;
            }
            ++k.c.exports;
            auto id = Identity(w, repo);
            std::string key;
            if (not id) {
                ++k.c.no;
            }
            else {
                key = *id + ":" + name + cfg.dump();
                k.used.insert(key);
                if (age.contains(key)) {
                    ++k.c.cached;
                    r = implied[key];
                    r.insert(key);
                    k.exports[here] = r;
                    return r;
                }
                ++k.c.uncached;
            }
            if (t.contains("fixed_config")) {
                for (auto const& [n, v] : t["fixed_config"].items()) {
                    cfg[n] = v;
                }
            }
            dep(t["target"], cfg);
            if (id) {
                implied[key] = r;
                r.insert(key);
            }
            k.exports[here] = r;
            return r;
        }
        std::vector<Json> cs{cfg};
        if (t["type"] == "trans") {
            cs = {cfg, cfg};
            cs[0]["V"] = "1";
            cs[1]["V"] = 2;
        }
        for (auto const& c : cs) {
            for (auto const& x : t["deps"]) {
                dep(x, c);
            }
        }
        return r;
    }
    Count Build(World const& w, Req const& r) {
        auto const& t = kTargets[(size_t)r.target];
        Work k;
        Walk(w, t.binding.empty() ? w.main : w.repos.at(w.main).binds.at(t.binding), t.name, kConfigs[(size_t)r.config], k);
        for (auto const& u : k.used) {
            age[u] = 0;
            for (auto const& i : implied[u]) {
                age[i] = 0;
            }
        }
        return k.c;
    }
    void Collect() {
        for (auto it = age.begin(); it != age.end();) {
            it = ++it->second >= 2 ? age.erase(it) : std::next(it);
        }
    }
};

void Judge(hn::Shard& s, Outcome const& o, Req const& r, std::string const& hist) {
    auto const& c = Clean(r);
    if (not o.ok) {
        s.Fail(hist + ": fails in " + o.log, "fails");
        return;
    }
    if (o.infos != c.infos) {
        for (auto const& [p, i] : c.infos) {
            auto it = o.infos.find(p);
            if (it == o.infos.end() or it->second != i) {
                s.Fail(hist + ": artifact " + p + " is " + (it == o.infos.end() ? "missing" : it->second) + " instead of " + i, "differs");
                return;
            }
        }
        s.Fail(hist + ": more artifacts than in a clean build", "differs");
        return;
    }
    if (not(o.stage == c.stage)) {
        s.Fail(hist + ": installed " + o.stage.Show().substr(0, 300) + " instead of " + c.stage.Show().substr(0, 300), "installed");
    }
}
void Copy(std::string const& from, std::string const& to) {
    fs::remove_all(to);
    fs::create_directories(to);
    // complete, with hard links: as nothing is changed in place
    fs::copy(from, to, fs::copy_options::recursive | fs::copy_options::create_hard_links | fs::copy_options::copy_symlinks);
}
void Expect(hn::Shard& s, Outcome const& o, Model::Count const& c, std::string const& hist) {
    if (o.exports != c.exports or o.cached != c.cached or o.uncached != c.uncached or o.no != c.no) {
        s.Fail(hist + ": exports " + std::to_string(o.exports) + " cached " + std::to_string(o.cached) + " uncached " + std::to_string(o.uncached) + " not eligible " + std::to_string(o.no) +
                   " instead of " + std::to_string(c.exports) + " " + std::to_string(c.cached) + " " + std::to_string(c.uncached) + " " + std::to_string(c.no),
               "hits");
    }
}

void Pairs() {
    long const nc = (long)kConfigs.size();
    bool th = hn::ctx().thorough;
    hn::Enumerate("pairs", kWorlds * nc, "a build of any of 15 worlds (differing in one source, target, rule, binding, configuration of an export, name or kind of repository) in any of 7 configurations, then any other: "
                  "as if built afresh, and taken from cache exactly if recorded for the same repository, target and relevant configuration",
                  [&](long i, hn::Shard& s) {
                      Req first{(int)(i / nc), (int)(i % nc), 0};
                      auto w1 = MakeWorld(first.world);
                      auto at = Base() + "/store", snap = Base() + "/snap";
                      bool prepared = false;
                      for (int v = 0; v < kWorlds; ++v) {
                          for (long c = 0; c < nc; ++c) {
                              for (int t = 0; t < (th ? kMainTargets : 1); ++t) {
                                  // quick: changes of one thing at a time
                                  bool same_w = v == first.world, same_c = c == first.config;
                                  if (not th and not same_w and not(same_c and (c == 1 or v == 0 or first.world == 0))) {
                                      continue;
                                  }
                                  Req second{v, (int)c, th ? t : (int)((v + c + i) % (long)kMainTargets)};
                                  auto hist = Name(first) + " -> " + Name(second);
                                  if (not s.Case(hist)) {
                                      continue;
                                  }
                                  if (not prepared) {
                                      prepared = true;
                                      fs::remove_all(at);
                                      Site site(at, true, "");
                                      Configure(site, w1);
                                      Model m;
                                      auto o = Run(site, w1, Key(w1, first));
                                      Judge(s, o, first, Name(first));
                                      Expect(s, o, m.Build(w1, first), Name(first));
                                  }
                                  Copy(at, snap);
                                  Model m;
                                  m.Build(w1, first);
                                  Site site(snap, true, "");
                                  auto w2 = MakeWorld(second.world);
                                  Configure(site, w2);
                                  auto o = Run(site, w2, Key(w2, second));
                                  auto want = m.Build(w2, second);
                                  s.Nontrivial(want.cached > 0);
                                  s.Outcome(std::to_string(o.cached) + "/" + std::to_string(o.uncached) + "/" + std::to_string(o.no));
                                  Judge(s, o, second, hist);
                                  Expect(s, o, want, hist);
                                  if (want.uncached == 0 and want.no == 0 and want.cached > 0 and second.target != 1 and o.executed != 0) {
                                      s.Fail(hist + ": all in cache, yet " + std::to_string(o.executed) + " actions run", "run");
                                  }
                                  fs::remove_all(snap);
                              }
                          }
                      }
                      fs::remove_all(at);
                  });
}

void Histories() {
    // operations: some builds, garbage collection
    struct Op {
        Req r;
        bool gc = false;
    };
    std::vector<Op> ops{{{0, 1, 0}}, {{0, 0, 2}}, {{2, 1, 0}}, {{0, 1, 3}}, {{10, 1, 0}}, {{14, 1, 1}}, {{}, true}};
    long const n = (long)ops.size();
    int const len = hn::ctx().thorough ? 6 : 4;
    long total = 1;
    for (int k = 0; k < 2; ++k) {
        total *= n;
    }
    hn::Enumerate("histories", total, "all sequences of four (thorough: six) out of builds of several worlds and targets, and garbage collections: each build as if afresh; entries used in the last two generations stay, with all they need",
                  [&](long i, hn::Shard& s) {
                      std::function<void(std::vector<int>&, std::string const&, Model)> go = [&](std::vector<int>& seq, std::string const& at, Model m) {
                          std::string hist;
                          for (int k : seq) {
                              hist += (char)('a' + k);
                          }
                          auto here = at;
                          if (not seq.empty()) {
                              bool check = s.Case(hist);
                              if (not check and (s.only_case.rfind(hist, 0) != 0)) {
                                  return;
                              }
                              here = Base() + "/h" + std::to_string(seq.size());
                              Copy(at, here);
                              auto const& op = ops[(size_t)seq.back()];
                              if (op.gc) {
                                  auto sc = bl::MakeConfig(here, true);
                                  if (not GarbageCollector::TriggerGarbageCollection(sc, false)) {
                                      s.Fail(hist + ": garbage collection fails", "gc");
                                  }
                                  m.Collect();
                              }
                              else {
                                  Site site(here, true, "");
                                  auto w = MakeWorld(op.r.world);
                                  Configure(site, w);
                                  auto o = Run(site, w, Key(w, op.r));
                                  auto want = m.Build(w, op.r);
                                  s.Nontrivial(want.cached > 0);
                                  Judge(s, o, op.r, hist);
                                  // whatever an entry was made with lives as long as that entry does
                                  Expect(s, o, want, hist);
                              }
                          }
                          if ((int)seq.size() == len) {
                              return;
                          }
                          for (long k = 0; k < n; ++k) {
                              if (seq.empty() and k != i / n) {
                                  continue;
                              }
                              if (seq.size() == 1 and k != i % n) {
                                  continue;
                              }
                              seq.push_back((int)k);
                              go(seq, here, m);
                              seq.pop_back();
                          }
                      };
                      auto at = Base() + "/h0";
                      fs::remove_all(at);
                      fs::create_directories(at);
                      std::vector<int> seq;
                      go(seq, at, {});
                  });
}

// entries an entry was made with live as long as that entry
void Lifetimes() {
    enum { kNothing = -1 };
    // targets, in the configuration V=1
    std::vector<int> const firsts{kNothing, 3, 9, 2}, seconds{0, 2, 4, 1, 6}, thirds{kNothing, 0, 2, 3, 6}, fourths{0, 2, 3, 9, 5, 7};
    std::vector<int> const worlds{0, 10, 14};
    long const nf = (long)firsts.size(), ns = (long)seconds.size(), nt = (long)thirds.size();
    long const nw = hn::ctx().thorough ? (long)worlds.size() : 1;
    auto name = [](int t) { return t < 0 ? std::string{"-"} : kTargets[(size_t)t].binding + ":" + kTargets[(size_t)t].name; };
    hn::Enumerate("lifetimes", nw * nf * ns * nt, "build of a dependency (or none), of something that depends on it, collection, of something that may depend on it, collection, and any target: an entry used keeps all it was made with, directly and indirectly",
                  [&](long i, hn::Shard& s) {
                      int const w0 = worlds[(size_t)(i / (nf * ns * nt))];
                      int const a = firsts[(size_t)(i % nf)], b = seconds[(size_t)(i / nf % ns)], c = thirds[(size_t)(i / nf / ns % nt)];
                      auto at = Base() + "/life", snap = Base() + "/life-snap";
                      bool prepared = false;
                      Model m;
                      auto const w = MakeWorld(w0);
                      auto build = [&](std::string const& where, Model& model, int t, std::string const& hist) {
                          if (t < 0) {
                              return;
                          }
                          Req r{w0, 1, t};
                          Site site(where, true, "");
                          Configure(site, w);
                          auto o = Run(site, w, Key(w, r));
                          auto want = model.Build(w, r);
                          s.Nontrivial(want.cached > 0);
                          s.Outcome(std::to_string(o.cached) + "/" + std::to_string(o.uncached) + "/" + std::to_string(o.no));
                          Judge(s, o, r, hist);
                          Expect(s, o, want, hist);
                      };
                      auto collect = [&](std::string const& where, Model& model, std::string const& hist) {
                          auto sc = bl::MakeConfig(where, true);
                          if (not GarbageCollector::TriggerGarbageCollection(sc, false)) {
                              s.Fail(hist + ": garbage collection fails", "gc");
                          }
                          model.Collect();
                      };
                      for (int d : fourths) {
                          auto hist = w.name + ": " + name(a) + ", " + name(b) + ", gc, " + name(c) + ", gc, " + name(d);
                          if (not s.Case(hist)) {
                              continue;
                          }
                          if (not prepared) {
                              prepared = true;
                              fs::remove_all(at);
                              build(at, m, a, hist);
                              build(at, m, b, hist);
                              collect(at, m, hist);
                              build(at, m, c, hist);
                              collect(at, m, hist);
                          }
                          Copy(at, snap);
                          auto mm = m;
                          build(snap, mm, d, hist);
                          fs::remove_all(snap);
                      }
                      fs::remove_all(at);
                  });
}
// the same exports in several configurations at once
void Configurations() {
    std::vector<int> const firsts{-1, 0, 2, 3, 5, 6, 8}, seconds{6, 7, 8};
    std::vector<int> const worlds{0, 7, 8, 9, 11, 14};
    std::vector<int> const cfgs{0, 1, 2, 5};
    long const nf = (long)firsts.size(), nc = (long)cfgs.size(), nw = (long)worlds.size();
    hn::Enumerate("configurations", nw * nf * nc, "something built first in some configuration (or nothing), then targets with the same exports in two configurations, by transition or configured: each as that configuration alone, and taken from cache where recorded",
                  [&](long i, hn::Shard& s) {
                      int const w0 = worlds[(size_t)(i / (nf * nc))], f = firsts[(size_t)(i % nf)], c = cfgs[(size_t)(i / nf % nc)];
                      if (f < 0 and c != 1) {
                          return;
                      }
                      auto const w = MakeWorld(w0);
                      auto at = Base() + "/confs";
                      for (int t : seconds) {
                          Req r{w0, hn::ctx().thorough ? c : 1, t}, q{w0, c, f};
                          auto hist = (f < 0 ? std::string{"nothing"} : Name(q)) + " -> " + Name(r);
                          if (not s.Case(hist)) {
                              continue;
                          }
                          fs::remove_all(at);
                          Model m;
                          if (f >= 0) {
                              Site site(at, true, "");
                              Configure(site, w);
                              auto o = Run(site, w, Key(w, q));
                              auto want = m.Build(w, q);
                              Judge(s, o, q, hist);
                              Expect(s, o, want, hist);
                          }
                          Site site(at, true, "");
                          Configure(site, w);
                          auto o = Run(site, w, Key(w, r));
                          auto want = m.Build(w, r);
                          s.Nontrivial(want.cached > 0);
                          s.Outcome(std::to_string(o.cached) + "/" + std::to_string(o.uncached) + "/" + std::to_string(o.no));
                          Expect(s, o, want, hist);
                          if (not o.ok) {
                              s.Fail(hist + ": fails in " + o.log, "fails");
                              continue;
                          }
                          // made of the two configurations, each built alone
                          std::map<std::string, std::string> infos;
                          for (int k : {1, 2}) {
                              for (auto const& [p, v] : Clean({w0, k, 5}).infos) {
                                  infos[std::to_string(k) + "/" + p] = v;
                              }
                          }
                          if (o.infos != infos) {
                              for (auto const& [p, v] : infos) {
                                  auto it = o.infos.find(p);
                                  if (it == o.infos.end() or it->second != v) {
                                      s.Fail(hist + ": artifact " + p + " is " + (it == o.infos.end() ? "missing" : it->second) + " instead of " + v, "differs");
                                      break;
                                  }
                              }
                          }
                      }
                      fs::remove_all(at);
                  });
}

// everything an entry needs, from one storage to another
struct Server {
    Site site;
    World w;
    std::map<std::string, Req> keys;
    std::vector<std::pair<std::string, BuildMaps::Target::ConfiguredTarget>> targets;
    std::string problem;
    int asked = 0;
    explicit Server(World world) : site((fs::remove_all(Base() + "/server"), Base() + "/server"), true, ""), w(std::move(world)) { Configure(site, w); }

    ServeApi::Answers Answers(Site& client, Json const& cfg) {
        ServeApi::Answers a;
        a.variables = [this](std::string const& root, std::string const& file, std::string const& target) -> std::optional<std::vector<std::string>> {
            for (auto const& [n, d] : w.repos) {
                if (not d.local and trees::TreeId(d.tree) == root and file == "TARGETS") {
                    auto t = Json::parse(d.tree.ch.at("TARGETS").data);
                    if (t.contains(target) and t[target]["type"] == "export") {
                        return t[target]["flexible_config"].get<std::vector<std::string>>();
                    }
                }
            }
            problem = "asked for variables of " + root + " " + file + " " + target;
            return std::nullopt;
        };
        a.target = [this, &client, cfg](TargetCacheKey const& key, ArtifactDigest const& repo_key) -> std::optional<serve_target_result_t> {
            ++asked;
            // key and repository have to be known to the client's side
            for (auto const& d : {key.Id().digest, repo_key}) {
                if (not client.st.CAS().BlobPath(d, false)) {
                    problem = "key without its description";
                }
            }
            for (auto const& [n, d] : w.repos) {
                auto rk = site.rc.RepositoryKey(site.st, n);
                if (not rk or rk->hash() != repo_key.hash()) {
                    continue;
                }
                auto ts = Json::parse(d.tree.ch.at("TARGETS").data);
                for (auto const& [t, desc] : ts.items()) {
                    if (desc["type"] != "export") {
                        continue;
                    }
                    auto nine = cfg;
                    nine["V"] = "9";
                    for (auto const& full : {cfg, nine}) {
                        auto pruned = Configuration{Expression::FromJson(full)}.Prune(desc["flexible_config"].get<std::vector<std::string>>());
                        auto name = BuildMaps::Base::NamedTarget{n, "", t};
                        auto k = site.st.TargetCache().ComputeKey(*rk, name, pruned);
                        if (not k or not(*k == key)) {
                            continue;
                        }
                        auto o = Run(site, w, {.target = BuildMaps::Base::EntityName{n, "", t}, .config = pruned}, nullptr, true, "/server-out");
                        auto e = site.st.TargetCache().Read(*k);
                        std::vector<Artifact::ObjectInfo> infos;
                        if (not o.ok or not e or not e->first.ToArtifacts(&infos)) {
                            problem = "server cannot build";
                            return std::nullopt;
                        }
                        infos.push_back(e->second);
                        if (not site.apis.local->RetrieveToCas(infos, *client.apis.local)) {
                            problem = "server cannot provide";
                            return std::nullopt;
                        }
                        return serve_target_result_t{std::in_place_index<3>, *e};
                    }
                }
            }
            problem = "asked for an unknown key";
            return std::nullopt;
        };
        return a;
    }
};
void Served() {
    long const nc = (long)kConfigs.size();
    std::vector<int> const worlds{0, 4, 5, 7, 8, 9, 10, 13, 14};
    long const nw = (long)worlds.size();
    hn::Enumerate("served", nw * nc * 8, "worlds, configurations, which repositories are absent (none, base, lib, both), with a cache that is empty or filled by another build: what is served is what is built, asked for by keys the server computes as well",
                  [&](long i, hn::Shard& s) {
                      int abs = (int)(i % 4);
                      bool before = i / 4 % 2 == 1;
                      for (int t = 0; t < kMainTargets; ++t) {
                          if (not hn::ctx().thorough and (t == 2 or t == 3 or (i / 8 % nc != 1 and i / 8 % nc != 3 and i / 8 % nc != 4))) {
                              continue;
                          }
                          Req r{worlds[(size_t)(i / 8 / nc)], (int)(i / 8 % nc), t};
                          if (t == 4 and (abs & 2) != 0) {
                              continue;  // only exports of absent repositories can be had
                          }
                          auto hist = std::string{abs & 1 ? "base absent " : ""} + (abs & 2 ? "lib absent " : "") + (before ? "after another, " : "") + Name(r);
                          if (not s.Case(hist)) {
                              continue;
                          }
                          s.Nontrivial();
                          auto w = MakeWorld(r.world);
                          std::set<std::string> absent;
                          auto const& mb = w.repos.at(w.main).binds;
                          if (abs & 1) {
                              absent.insert(mb.at("base"));
                          }
                          if (abs & 2) {
                              absent.insert(mb.at("lib"));
                          }
                          fs::remove_all(Base() + "/client");
                          Site site(Base() + "/client", true, "");
                          Configure(site, w, absent);
                          if (before) {
                              // built with everything present, in the same configuration
                              Site other(Base() + "/client", true, "");
                              Configure(other, w);
                              Req q{r.world, r.config, 2};
                              if (not Run(other, w, Key(w, q)).ok) {
                                  s.Fail(hist + ": first build", "first");
                                  continue;
                              }
                          }
                          Server server(w);
                          ServeApi serve(server.Answers(site, kConfigs[(size_t)r.config]));
                          auto o = Run(site, w, Key(w, r), &serve);
                          s.Outcome(std::to_string(o.served) + "/" + std::to_string(o.cached) + "/" + std::to_string(o.uncached));
                          if (not server.problem.empty()) {
                              s.Fail(hist + ": " + server.problem, "serve");
                              continue;
                          }
                          Judge(s, o, r, hist);
                          // the same again, and with everything there: from what was recorded
                          Site again(Base() + "/client", true, "");
                          Configure(again, w);
                          auto o2 = Run(again, w, Key(w, r));
                          Judge(s, o2, r, hist + ", again");
                      }
                      fs::remove_all(Base() + "/client");
                      fs::remove_all(Base() + "/server");
                  });
}
// every storage serves any execution backend, each from its own entries
struct Backend {
    std::string name;
    std::optional<ServerAddress> address;
    ExecutionProperties properties;
    std::vector<DispatchEndpoint> dispatch;
    bool fallback = false;  // not described at all, hence the local one
    // what has to be distinguished
    [[nodiscard]] auto Id() const -> std::string {
        Json d = Json::array();
        for (auto const& [p, a] : dispatch) {
            d.push_back({p, a.host, (int)a.port});
        }
        return Json{address ? address->host + ":" + std::to_string((int)address->port) : "", properties, d}.dump();
    }
    [[nodiscard]] auto Make() const -> BackendDescription {
        if (fallback) {
            return BackendDescription{};
        }
        return *BackendDescription::Describe(address, properties, dispatch);
    }
};
std::vector<Backend> MakeBackends() {
    auto at = [](char const* h, int p) { return ServerAddress{h, Port{(std::uint16_t)p}}; };
    using Props = ExecutionProperties;
    std::vector<std::optional<ServerAddress>> as{std::nullopt, at("a", 1), at("a", 2), at("b", 1), at("a", 12)};
    std::vector<Props> ps{{}, {{"k", "v"}}, {{"k", "w"}}, {{"l", "v"}}, {{"k", "v"}, {"l", "v"}}, {{"k", ""}}};
    DispatchEndpoint x{Props{{"k", "v"}}, at("a", 1)}, y{Props{{"l", "v"}}, at("b", 1)}, z{Props{}, at("a", 1)}, x2{Props{{"k", "v"}}, at("b", 1)}, x3{Props{{"k", "v"}}, at("a", 2)};
    std::vector<std::vector<DispatchEndpoint>> ds{{}, {x}, {y}, {z}, {x2}, {x3}, {x, y}, {y, x}, {x, x}};
    std::vector<Backend> r;
    r.push_back({"default", std::nullopt, {}, {}, true});
    for (auto const& a : as) {
        for (auto const& p : ps) {
            for (auto const& d : ds) {
                Backend b{"", a, p, d};
                b.name = b.Id();
                r.push_back(b);
            }
        }
    }
    return r;
}
void Backends() {
    auto const bs = MakeBackends();
    long const n = (long)bs.size();
    hn::Enumerate("backends", n, "execution backends (address, properties, dispatch list), each as that of the storage: compared with, and given entries for, all others; entries found again by exactly the same backend, before and after collections",
                  [&](long i, hn::Shard& s) {
                      bool native = i % 2 == 0;
                      auto const& own = bs[(size_t)i];
                      auto at = Base() + "/b";
                      fs::remove_all(at);
                      auto sc = StorageConfig::Builder{}
                                    .SetBuildRoot(at)
                                    .SetNumGenerations(2)
                                    .SetHashType(native ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256)
                                    .SetBackendDescription(own.Make())
                                    .Build();
                      if (not sc) {
                          s.Fail(own.name + ": no storage", "storage");
                          return;
                      }
                      auto st = Storage::Create(&*sc);
                      auto key = st.TargetCache().ComputeKey(*st.CAS().StoreBlob("repo", false), {"r", "", "t"}, Configuration{});
                      auto entry = [&](std::string const& text) {
                          auto d = st.CAS().StoreBlob(text, false);
                          auto known = Json{{"type", "KNOWN"}, {"data", {{"id", d->hash()}, {"size", d->size()}, {"file_type", "f"}}}};
                          return TargetCacheEntry::FromJson(sc->hash_function.GetType(),
                                                            {{"artifacts", {{"k", known}}}, {"runfiles", Json::object()}, {"provides", {{"entry", Json::object()}, {"nodes", Json::object()}, {"provided_artifacts", Json::array()}}}});
                      };
                      auto content = [&](TargetCache<true> const& tc) -> std::optional<std::string> {
                          auto e = tc.Read(*key);
                          std::vector<Artifact::ObjectInfo> infos;
                          if (not e or not e->first.ToArtifacts(&infos) or infos.size() != 1) {
                              return std::nullopt;
                          }
                          auto p = st.CAS().BlobPath(infos[0].digest, false);
                          return p ? FileSystemManager::ReadFile(*p) : std::nullopt;
                      };
                      auto take = [](std::vector<Artifact::ObjectInfo> const&) { return true; };
                      std::map<std::string, std::string> want;
                      auto check = [&](std::string const& when, bool stored) {
                          for (long j = 0; j < n; ++j) {
                              auto const& b = bs[(size_t)j];
                              if (not s.Case(own.name + " | " + b.name + " | " + when)) {
                                  continue;
                              }
                              s.Nontrivial(b.Id() != own.Id());
                              bool same = b.Id() == own.Id();
                              if ((own.Make() == b.Make()) != same or (b.Make() == own.Make()) != same) {
                                  s.Fail("backends " + own.name + " and " + b.name + " taken for " + (same ? "different" : "the same"), "equal");
                              }
                              auto tc = st.TargetCache().WithShard(b.Make());
                              auto got = content(tc);
                              auto it = want.find(b.Id());
                              std::optional<std::string> exp;
                              if (it != want.end()) {
                                  exp = it->second;
                              }
                              if (got != exp) {
                                  s.Fail("storage of " + own.name + ", " + when + ": entry of " + b.name + " is " + got.value_or("none") + " instead of " + exp.value_or("none"), "entry");
                              }
                              if (stored) {
                                  auto text = "of " + b.Id();
                                  if (not tc.Store(*key, entry(text), take)) {
                                      s.Fail("storage of " + own.name + ": cannot store entry of " + b.name, "store");
                                  }
                                  want[b.Id()] = text;
                              }
                          }
                      };
                      if (not st.TargetCache().Store(*key, entry("own"), take)) {
                          s.Fail(own.name + ": cannot store", "store");
                          return;
                      }
                      want[own.Id()] = "own";
                      check("first", i % 9 == 0 or hn::ctx().thorough);
                      if (i % 27 == 0 or hn::ctx().thorough) {
                          check("filled", false);
                          if (not GarbageCollector::TriggerGarbageCollection(*sc, false)) {
                              s.Fail(own.name + ": garbage collection fails", "gc");
                          }
                          check("after a collection", false);
                      }
                      fs::remove_all(at);
                  });
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    LogConfig::SetSinks({});
    umask(022);
    Pairs();
    Histories();
    Lifetimes();
    Configurations();
    Served();
    Backends();
    return hn::Finish();
}
