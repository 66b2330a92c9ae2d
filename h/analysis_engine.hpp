// The analysis of targets by the code, in worlds laid out on disk, with the
// results in the notation of the reference analysis (h/refanalysis.hpp).
#ifndef VERIF_H_ANALYSIS_ENGINE_HPP
#define VERIF_H_ANALYSIS_ENGINE_HPP
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <memory>
#include <optional>
#include "rt/harness.hpp"
#include "h/refanalysis.hpp"
#include "src/buildtool/build_engine/analysed_target/analysed_target.hpp"
#include "src/buildtool/build_engine/base_maps/directory_map.hpp"
#include "src/buildtool/build_engine/base_maps/entity_name_data.hpp"
#include "src/buildtool/build_engine/base_maps/expression_map.hpp"
#include "src/buildtool/build_engine/base_maps/rule_map.hpp"
#include "src/buildtool/build_engine/base_maps/source_map.hpp"
#include "src/buildtool/build_engine/base_maps/targets_file_map.hpp"
#include "src/buildtool/build_engine/expression/configuration.hpp"
#include "src/buildtool/build_engine/expression/expression.hpp"
#include "src/buildtool/build_engine/expression/target_node.hpp"
#include "src/buildtool/build_engine/expression/target_result.hpp"
#include "src/buildtool/build_engine/target_map/absent_target_map.hpp"
#include "src/buildtool/build_engine/target_map/configured_target.hpp"
#include "src/buildtool/build_engine/target_map/result_map.hpp"
#include "src/buildtool/build_engine/target_map/target_map.hpp"
#include "src/buildtool/common/artifact_digest_factory.hpp"
#include "src/buildtool/common/repository_config.hpp"
#include "src/buildtool/common/statistics.hpp"
#include "src/buildtool/file_system/file_root.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/main/analyse_context.hpp"
#include "src/buildtool/multithreading/task_system.hpp"
#include "src/buildtool/progress_reporting/progress.hpp"
#include "src/buildtool/storage/config.hpp"
#include "src/buildtool/storage/storage.hpp"

namespace ana {
using refana::Content;
using refana::In;
using refana::Special;
using refana::World;
using refeval::Env;
using refeval::J;
namespace fs = std::filesystem;

inline ExpressionPtr ToExpr(J const& v) { return Expression::FromJson(v); }
inline Configuration ToConfig(Env const& e) { return Configuration{ToExpr(J(e))}; }

// Lays a world out as files: <dir>/<repo>/{src,def}
inline void Write(World const& w, std::string const& dir) {
    auto put = [](fs::path const& p, std::string const& s) {
        fs::create_directories(p.parent_path());
        std::ofstream(p) << s;
    };
    for (auto const& [name, r] : w.repos) {
        auto base = fs::path(dir) / ("repo-" + name);
        fs::create_directories(base / "src");
        fs::create_directories(base / "def");
        for (auto const& [p, k] : r.files) {
            if (k == 'd') {
                fs::create_directories(base / "src" / p);
            }
            else if (k == 'f') {
                put(base / "src" / p, "content of " + p);
            }
            else {
                fs::create_directories((base / "src" / p).parent_path());
                fs::create_symlink("target-of-link", base / "src" / p);
            }
        }
        for (auto const& [m, j] : r.targets) {
            put(base / "def" / m / "TARGETS", j.dump());
        }
        for (auto const& [m, j] : r.rules) {
            put(base / "def" / m / "RULES", j.dump());
        }
        for (auto const& [m, j] : r.exprs) {
            put(base / "def" / m / "EXPRESSIONS", j.dump());
        }
    }
}

struct Result {
    J artifacts;
    J runfiles;
    J provides;
    std::set<std::string> vars;
    std::set<std::string> tainted;
    std::set<std::string> implied;
};

struct Request {
    std::string repo;
    std::string module;
    std::string target;
    Env config;
};

class Engine {
  public:
    Engine(World const& w, std::string const& dir, std::string const& storage_dir) {
        for (auto const& [name, r] : w.repos) {
            auto base = fs::path(dir) / ("repo-" + name);
            auto info = RepositoryConfig::RepositoryInfo{FileRoot{base / "src"}, FileRoot{base / "def"},
                                                         FileRoot{base / "def"}, FileRoot{base / "def"}};
            info.name_mapping = r.bindings;
            repo_config_.SetInfo(name, std::move(info));
        }
        auto c = StorageConfig::Builder{}.SetBuildRoot(storage_dir).SetHashType(HashFunction::Type::GitSHA1).Build();
        if (not c) {
            throw std::runtime_error("no storage configuration");
        }
        storage_config_.emplace(*c);
        storage_.emplace(Storage::Create(&*storage_config_));
        targets_file_map_.reset(new BuildMaps::Base::TargetsFileMap(BuildMaps::Base::CreateTargetsFileMap(&repo_config_, 1)));
        rule_file_map_.reset(new BuildMaps::Base::RuleFileMap(BuildMaps::Base::CreateRuleFileMap(&repo_config_, 1)));
        expr_file_map_.reset(new BuildMaps::Base::ExpressionFileMap(BuildMaps::Base::CreateExpressionFileMap(&repo_config_, 1)));
    }

    // per run
    std::set<std::string> actions;  // all of the action graph
    std::string problem;            // with the graph
    std::string log;

    std::vector<std::optional<Result>> Run(std::vector<Request> const& reqs, unsigned jobs = 1) {
        using namespace BuildMaps;
        auto directory_entries = Base::CreateDirectoryEntriesMap(&repo_config_, 1);
        auto source = Base::CreateSourceTargetMap(&directory_entries, &repo_config_, HashFunction::Type::GitSHA1, 1);
        auto expr_map = Base::CreateExpressionMap(&*expr_file_map_, &repo_config_, 1);
        auto rule_map = Base::CreateRuleMap(&*rule_file_map_, &expr_map, &repo_config_, 1);
        Target::ResultTargetMap result_map{1};
        Statistics stats{};
        Progress progress{};
        AnalyseContext ctx{.repo_config = &repo_config_,
                           .storage = &*storage_,
                           .statistics = &stats,
                           .progress = &progress,
                           .serve = nullptr};
        auto absent_vars = Target::CreateAbsentTargetVariablesMap(&ctx, 1);
        auto absent = Target::CreateAbsentTargetMap(&ctx, &result_map, &absent_vars, 1);
        auto target_map = Target::CreateTargetMap(&ctx, &source, &*targets_file_map_, &rule_map, &directory_entries,
                                                  &absent, &result_map, 1);
        std::vector<AnalysedTargetPtr> got(reqs.size());
        log.clear();
        std::mutex m;
        {
            TaskSystem ts{jobs};
            for (size_t i = 0; i < reqs.size(); ++i) {
                auto const& r = reqs[i];
                target_map.ConsumeAfterKeysReady(
                    &ts,
                    {Target::ConfiguredTarget{.target = Base::EntityName{r.repo, r.module, r.target},
                                              .config = ToConfig(r.config)}},
                    [&got, &m, i](auto values) {
                        std::unique_lock l{m};
                        got[i] = *values[0];
                    },
                    [this, &m](std::string const& msg, bool /*fatal*/) {
                        std::unique_lock l{m};
                        log += msg + "\n";
                    });
            }
        }
        Load(result_map.ToResult(&stats, &progress));
        std::vector<std::optional<Result>> res;
        for (auto const& g : got) {
            if (not g) {
                res.emplace_back(std::nullopt);
                continue;
            }
            Result r;
            r.artifacts = Value(g->Artifacts());
            r.runfiles = Value(g->RunFiles());
            r.provides = Value(g->Provides());
            r.vars = {g->Vars().begin(), g->Vars().end()};
            r.tainted = g->Tainted();
            r.implied = g->ImpliedExport();
            res.emplace_back(std::move(r));
        }
        return res;
    }

  private:
    RepositoryConfig repo_config_;
    std::optional<StorageConfig> storage_config_;
    std::optional<Storage> storage_;
    std::unique_ptr<BuildMaps::Base::TargetsFileMap> targets_file_map_;
    std::unique_ptr<BuildMaps::Base::RuleFileMap> rule_file_map_;
    std::unique_ptr<BuildMaps::Base::ExpressionFileMap> expr_file_map_;

    std::map<std::string, ActionDescription::Ptr> act_;
    std::map<std::string, Tree::Ptr> tree_;
    std::map<std::string, TreeOverlay::Ptr> over_;
    std::map<std::string, std::string> blob_;
    std::map<std::string, J> done_;  // artifacts by identifier
    std::map<std::string, int> act_id_;

    void Problem(std::string const& p) {
        if (problem.empty()) {
            problem = p;
        }
    }
    template <class R>
    void Load(R const& r) {
        act_.clear();
        tree_.clear();
        over_.clear();
        blob_.clear();
        done_.clear();
        act_id_.clear();
        actions.clear();
        problem.clear();
        HashFunction const h{HashFunction::Type::GitSHA1};
        for (auto const& b : r.blobs) {
            blob_[ArtifactDigestFactory::HashDataAs<ObjectType::File>(h, b).hash()] = b;
        }
        for (auto const& t : r.trees) {
            tree_[t->Id()] = t;
        }
        for (auto const& t : r.tree_overlays) {
            over_[t->Id()] = t;
        }
        for (auto const& a : r.actions) {
            act_[a->Id()] = a;
        }
        for (auto const& [id, a] : act_) {
            ActId(id);
        }
        if (actions.size() != act_.size()) {
            Problem("equal actions with different identifiers");
        }
    }
    int ActId(std::string const& id) {
        if (auto it = act_id_.find(id); it != act_id_.end()) {
            return it->second;
        }
        auto a = act_.find(id);
        if (a == act_.end()) {
            Problem("artifact of an action that is not in the action graph");
            return -1;
        }
        auto const& d = *a->second;
        auto const& g = d.GraphAction();
        J j{{"outs", d.OutputFiles()},
            {"dirs", d.OutputDirs()},
            {"cmd", g.Command()},
            {"cwd", g.Cwd()},
            {"env", J(g.Env())},
            {"fail", g.MayFail() ? J(*g.MayFail()) : J{}},
            {"no_cache", g.NoCache()},
            {"scale", g.TimeoutScale()},
            {"props", J(g.ExecutionProperties())},
            {"inputs", Stage(d.Inputs())}};
        if (d.OutputFiles().empty()) {
            j["outs"] = J::array();
        }
        if (d.OutputDirs().empty()) {
            j["dirs"] = J::array();
        }
        if (g.Env().empty()) {
            j["env"] = J::object();
        }
        if (g.ExecutionProperties().empty()) {
            j["props"] = J::object();
        }
        auto s = j.dump();
        actions.insert(s);
        return act_id_[id] = In()(s);
    }
    J Stage(ActionDescription::inputs_t const& in) {
        J r = J::object();
        for (auto const& [p, a] : in) {
            r[p] = Artifact(a);
        }
        return r;
    }
    J Artifact(ArtifactDescription const& a) {
        if (auto it = done_.find(a.Id()); it != done_.end()) {
            return it->second;
        }
        auto j = a.ToJson();
        std::string type = j["type"];
        auto const& d = j["data"];
        J r;
        if (type == "LOCAL") {
            r = refana::Local(d["repository"], d["path"]);
        }
        else if (type == "KNOWN") {
            auto it = blob_.find(d["id"]);
            if (it == blob_.end()) {
                Problem("known artifact whose content is not among the blobs to upload");
                return "unknown content";
            }
            if (d["size"] != it->second.size()) {
                Problem("known artifact of wrong size");
            }
            r = refana::Known(d["file_type"], it->second);
        }
        else if (type == "ACTION") {
            r = Special("art", J::array({"A", ActId(d["id"]), d["path"]}));
        }
        else if (type == "TREE") {
            auto it = tree_.find(d["id"]);
            if (it == tree_.end()) {
                Problem("tree that is not in the action graph");
                return "unknown tree";
            }
            r = refana::TreeOf(Stage(it->second->Inputs()));
        }
        else {
            auto it = over_.find(d["id"]);
            if (it == over_.end()) {
                Problem("tree overlay that is not in the action graph");
                return "unknown overlay";
            }
            auto o = it->second->ToJson();
            auto in = it->second->Inputs();
            J l = J::array();
            for (auto const& [k, t] : std::map<std::string, ArtifactDescription>(in.begin(), in.end())) {
                l.push_back(Artifact(t));
            }
            r = refana::OverlayOf(l, o["disjoint"]);
        }
        done_[a.Id()] = r;
        return r;
    }
    J NameOf(BuildMaps::Base::EntityName const& n) {
        if (n.IsAnonymousTarget()) {
            auto const& a = n.GetAnonymousTarget();
            return Special("name", J::array({"anon", Value(a.rule_map), Value(a.target_node)}));
        }
        auto const& t = n.GetNamedTarget();
        using RT = BuildMaps::Base::ReferenceType;
        auto k = t.reference_t == RT::kFile ? "FILE" : t.reference_t == RT::kTree ? "TREE" : t.reference_t == RT::kGlob ? "GLOB"
                 : t.reference_t == RT::kSymlink ? "SYMLINK" : "";
        return refana::Name(t.repository, t.module, t.name, k);
    }
    J Value(ExpressionPtr const& v) {
        if (v->IsArtifact()) {
            return Artifact(v->Artifact());
        }
        if (v->IsName()) {
            return NameOf(v->Name());
        }
        if (v->IsResult()) {
            auto const& r = v->Result();
            auto p = Value(r.provides);
            return Special(refeval::HasName(p) ? "name-res" : "res",
                           J{{"artifacts", Value(r.artifact_stage)}, {"runfiles", Value(r.runfiles)}, {"provides", p}});
        }
        if (v->IsNode()) {
            auto const& n = v->Node();
            if (n.IsValue()) {
                auto x = Value(n.GetValue());
                return Special(refeval::HasName(x) ? "name-node" : "node", J::array({"v", x}));
            }
            auto const& a = n.GetAbstract();
            auto tf = Value(a.target_fields);
            return Special(refeval::HasName(tf) ? "name-node" : "node",
                           J::array({"a", a.node_type, Value(a.string_fields), tf}));
        }
        if (v->IsList()) {
            J r = J::array();
            for (auto const& x : v->List()) {
                r.push_back(Value(x));
            }
            return r;
        }
        if (v->IsMap()) {
            J r = J::object();
            for (auto const& [k, x] : v->Map()) {
                r[k] = Value(x);
            }
            return r;
        }
        return v->ToJson();
    }
};

// A part of the check: a world, and groups of requests
struct Target {
    std::string repo;
    std::string module;
    std::string name;
};

inline std::string Show(J const& v) {
    // with the referenced contents, for reports
    std::function<J(J const&, int)> ex = [&](J const& x, int depth) -> J {
        if (refeval::IsSpecial(x) and depth < 6) {
            auto s = x["@"].get<std::string>();
            return J{{s.substr(0, s.find(':')), ex(Content(x), depth + 1)}};
        }
        if (x.is_structured()) {
            J r = x;
            for (auto& y : r) {
                y = ex(y, depth);
            }
            return r;
        }
        return x;
    };
    auto s = ex(v, 0).dump(-1, ' ', false, J::error_handler_t::replace);
    return s.size() > 700 ? s.substr(0, 700) + "..." : s;
}

class Part {
  public:
    World world;
    std::string name;
    std::vector<Env> configs;  // every target in each of these
    std::vector<Target> targets;
    bool joint = true;         // all configurations in one analysis
    bool check_vars = true;

    void Add(std::string const& repo, std::string const& module, std::string const& target, J const& desc) {
        auto& t = world.repos[repo].targets[module];
        if (t.is_null()) {
            t = J::object();
        }
        t[target] = desc;
    }
    void Go(std::string const& rule) {
        if (not hn::Selected(name)) {
            return;
        }
        auto dir = hn::ctx().scratch + "/" + name;
        Write(world, dir);
        std::unique_ptr<Engine> eng;
        if (configs.empty()) {
            configs.push_back({});
        }
        long n = (long)targets.size();
        hn::Enumerate(name, n, rule, [&](long i, hn::Shard& s) {
            if (not eng) {
                eng = std::make_unique<Engine>(world, dir, dir + "/storage-" + std::to_string(getpid()));
            }
            One(*eng, targets[(size_t)i], s);
        });
    }

  private:
    std::string Describe(Target const& t) {
        auto const& r = world.repos[t.repo];
        if (not r.targets.count(t.module) or not r.targets.at(t.module).contains(t.name)) {
            return "";
        }
        auto const& d = r.targets.at(t.module)[t.name];
        auto m = " | target: " + d.dump();
        if (d.contains("type") and d["type"].is_string() and r.rules.count(t.module) and r.rules.at(t.module).contains(d["type"].get<std::string>())) {
            auto rule = r.rules.at(t.module)[d["type"].get<std::string>()];
            if (rule.contains("expression") and rule["expression"].is_object() and rule["expression"].contains("bindings")) {
                rule["expression"].erase("bindings");
            }
            m += " rule: " + rule.dump();
        }
        return m.substr(0, 1500);
    }
    void One(Engine& eng, Target const& t, hn::Shard& s) {
        In() = refana::Interned{};
        world.Forget();
        if (joint and configs.size() > 1) {
            for (int dir = 0; dir < 2; ++dir) {
                auto c = configs;
                if (dir == 1) {
                    std::reverse(c.begin(), c.end());
                }
                Compare(eng, t, c, std::string(dir == 0 ? "together " : "together backwards "), s);
            }
        }
        else {
            for (auto const& c : configs) {
                Compare(eng, t, {c}, "", s);
            }
        }
    }
    void Compare(Engine& eng, Target const& t, std::vector<Env> const& cs, std::string const& how, hn::Shard& s) {
        auto c0 = how + J::array({t.repo, t.module, t.name}).dump() + (cs.size() == 1 ? " " + J(cs[0]).dump() : "");
        if (not s.Case(c0)) {
            return;
        }
        auto name = refana::Name(t.repo, t.module, t.name);
        std::string describe;
        auto fail = [&](std::string const& m, std::string const& key) {
            if (describe.empty()) {
                describe = Describe(t);
            }
            s.Fail(m + describe, key);
        };
        std::vector<std::optional<refana::Analysis>> want;
        std::vector<bool> unspec;
        std::set<std::string> acts;
        bool all_ok = true;
        for (auto const& c : cs) {
            world.actions.clear();
            want.emplace_back();
            unspec.push_back(false);
            try {
                want.back() = world.Analyse(name, c);
                acts.insert(world.actions.begin(), world.actions.end());
            } catch (refana::Err const& e) {
                unspec.back() = e.msg == "unspecified";
                all_ok = false;
            }
        }
        std::vector<Request> reqs;
        for (auto const& c : cs) {
            reqs.push_back({t.repo, t.module, t.name, c});
        }
        auto got = eng.Run(reqs);
        s.Check(eng.problem.empty(), eng.problem);
        bool clean = all_ok;
        for (size_t i = 0; i < cs.size(); ++i) {
            if (unspec[i]) {
                clean = false;
                continue;
            }
            auto in = " in " + J(cs[i]).dump() + ": ";
            auto key = t.name + J(cs[i]).dump();
            if (not want[i]) {
                if (not hn::ctx().replay.empty() and not got[i]) {
                    std::fprintf(stderr, "error as expected%s%s\n", in.c_str(), eng.log.c_str());
                }
                if (got[i]) {
                    fail("expected an error" + in + Show(got[i]->artifacts) + " runfiles " + Show(got[i]->runfiles) + " provides " +
                               Show(got[i]->provides), key);
                }
                continue;
            }
            s.Nontrivial();
            auto const& w = *want[i];
            if (not got[i]) {
                fail("unexpected error" + in + eng.log.substr(0, 900) + " expected " + Show(w.artifacts) + " provides " + Show(w.provides), key);
                continue;
            }
            auto const& g = *got[i];
            auto cmp = [&](char const* what, J const& x, J const& y) {
                if (x != y) {
                    fail(std::string{what} + in + "got " + Show(x) + " expected " + Show(y), key);
                }
            };
            cmp("artifacts", g.artifacts, w.artifacts);
            cmp("runfiles", g.runfiles, w.runfiles);
            cmp("provides", g.provides, w.provides);
            cmp("tainted", g.tainted, w.tainted);
            if (check_vars) {
                cmp("variables", g.vars, w.vars);
            }
            s.Outcome(w.artifacts.dump() + w.provides.dump());
        }
        if (cs.size() == 1) {
            s.Sample(c0);
        }
        for (auto const& a : acts) {
            if (eng.actions.count(a) == 0) {
                fail("missing in the action graph: " + a, t.name);
                break;
            }
        }
        if (clean) {
            for (auto const& a : eng.actions) {
                if (acts.count(a) == 0) {
                    fail("not expected in the action graph: " + a, t.name);
                    break;
                }
            }
        }
    }
};
inline J V(char const* n) { return J{{"type", "var"}, {"name", n}}; }
inline J JE(J const& x) { return J{{"type", "json_encode"}, {"$1", x}}; }
inline J Join(J const& l, char const* sep = "") { return J{{"type", "join"}, {"separator", sep}, {"$1", l}}; }
inline J Foreach(char const* v, J const& range, J const& body) {
    return J{{"type", "foreach"}, {"var", v}, {"range", range}, {"body", body}};
}
inline J Field(char const* n) { return J{{"type", "FIELD"}, {"name", n}}; }
inline J Let(std::vector<std::pair<std::string, J>> const& b, J const& body) {
    J l = J::array();
    for (auto const& [k, v] : b) {
        l.push_back(J::array({k, v}));
    }
    return J{{"type", "let*"}, {"bindings", l}, {"body", body}};
}
inline J P(char const* s) { return J::parse(s); }

inline std::vector<Env> AllConfigs(std::vector<std::string> const& vars, std::vector<J> const& values) {
    std::vector<Env> r{{}};
    for (auto const& v : vars) {
        std::vector<Env> next;
        for (auto const& e : r) {
            next.push_back(e);
            for (auto const& x : values) {
                auto f = e;
                f[v] = x;
                next.push_back(f);
            }
        }
        r = next;
    }
    return r;
}

}  // namespace ana
#endif
