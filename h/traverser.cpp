// C03: Traverser/DAG under all schedules.
#define VERIF_SCHED
#include "rt/harness.hpp"
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include "src/buildtool/common/action.hpp"
#include "src/buildtool/common/action_description.hpp"
#include "src/buildtool/common/artifact_description.hpp"
#include "src/buildtool/execution_engine/dag/dag.hpp"
#include "src/buildtool/execution_engine/traverser/traverser.hpp"

namespace {
// inputs are encoded: -1, -2: local files; 10*a+o: output o of action a
struct Act {
    std::vector<int> in;
    int outs = 1;
    int dirs = 0;
    bool tree = false;
};
struct Spec {
    std::vector<Act> acts;
    std::vector<int> targets;       // empty: all artifacts
    std::set<int> failing;          // actions that fail
    std::set<int> failing_local;    // local artifacts that fail
    int threads = 2;
    int rounds = 1;
    std::vector<int> order;         // in which actions are added
    bool unknown = false;           // ask for an unknown artifact as well
};

ArtifactDescription Desc(Spec const& s, int c) {
    if (c < 0) {
        return ArtifactDescription::CreateLocal(std::string{"l"} + std::to_string(-c), "repo");
    }
    if (s.acts.at(c / 10).tree) {
        return ArtifactDescription::CreateTree("a" + std::to_string(c / 10));
    }
    return ArtifactDescription::CreateAction("a" + std::to_string(c / 10), "o" + std::to_string(c % 10));
}

struct Log {
    std::mutex m;
    std::vector<std::string> events;  // processed ids in order of completion
    std::map<std::string, int> started;
    std::map<std::string, int> done;
    std::string problem;
};

class Runner {
  public:
    Runner(Log* l, std::set<std::string> fail) : l_{l}, fail_{std::move(fail)} {}
    [[nodiscard]] auto Process(DependencyGraph::ActionNode const* n) const -> bool {
        std::string id = n->Content().Id();
        {
            mc::NoPoints np;
            std::unique_lock lk(l_->m);
            if (++l_->started[id] > 1) {
                l_->problem = "action processed twice";
            }
            for (auto const& c : n->Children()) {
                if (not c->TraversalState()->IsAvailable()) {
                    l_->problem = "action processed before one of its inputs is available";
                }
            }
        }
        mc::Point();
        bool ok = not fail_.contains(id);
        mc::NoPoints np;
        std::unique_lock lk(l_->m);
        l_->done[id] += ok ? 1 : 0;
        l_->events.push_back(id);
        return ok;
    }
    [[nodiscard]] auto Process(DependencyGraph::ArtifactNode const* n) const -> bool {
        std::string id = n->Content().Id();
        mc::NoPoints np;
        std::unique_lock lk(l_->m);
        if (++l_->started[id] > 1) {
            l_->problem = "artifact uploaded twice";
        }
        if (n->HasBuilderAction()) {
            l_->problem = "artifact with a builder uploaded";
        }
        bool ok = not fail_.contains(id);
        l_->done[id] += ok ? 1 : 0;
        return ok;
    }

  private:
    Log* l_;
    std::set<std::string> fail_;
};

void Run(Spec const& s) {
    DependencyGraph g;
    std::set<std::string> fail;
    {
        mc::NoPoints np;
        std::vector<int> order = s.order;
        if (order.empty()) {
            for (size_t i = 0; i < s.acts.size(); ++i) {
                order.push_back((int)i);
            }
        }
        for (int i : order) {
            auto const& a = s.acts[i];
            std::string id = "a" + std::to_string(i);
            ActionDescription::inputs_t in;
            int k = 0;
            for (int c : a.in) {
                in.emplace("i" + std::to_string(k++), Desc(s, c));
            }
            std::vector<std::string> outs;
            std::vector<std::string> dirs;
            for (int o = 0; o < a.outs; ++o) {
                outs.push_back("o" + std::to_string(o));
            }
            for (int o = 0; o < a.dirs; ++o) {
                dirs.push_back("o" + std::to_string(a.outs + o));
            }
            ActionDescription d =
                a.tree ? ActionDescription{{}, {}, Action::CreateTreeAction(id), in}
                       : ActionDescription{outs, dirs, Action{id, {"cmd"}, std::map<std::string, std::string>{}}, in};
            mc::Check(g.AddAction(d), "action not accepted");
        }
        for (int i : s.failing) {
            fail.insert("a" + std::to_string(i));
        }
        for (int i : s.failing_local) {
            fail.insert(Desc(s, i).Id());
        }
    }
    Log log;
    std::atomic<bool> failed{false};
    Runner const r{&log, fail};
    bool ok = true;
    std::unordered_set<ArtifactIdentifier> tg;
    for (int c : s.targets) {
        tg.insert(Desc(s, c).Id());
    }
    if (s.unknown) {
        tg.insert("no such artifact");
    }
    for (int k = 0; k < s.rounds; ++k) {
        Traverser t{r, g, (std::size_t)s.threads, &failed};
        ok = (s.targets.empty() ? t.Traverse() : t.Traverse(tg)) and ok;
    }
    mc::NoPoints np;
    mc::Check(log.problem.empty(), log.problem);
    if (s.unknown) {
        mc::Check(not ok and failed, "unknown artifact accepted");
        return;
    }
    mc::Check(ok, "Traverse reports error for known artifacts");
    // reference: required closure
    std::set<int> need_a;
    std::set<int> need_l;
    std::function<void(int)> req = [&](int c) {
        if (c < 0) {
            need_l.insert(c);
        }
        else if (need_a.insert(c / 10).second) {
            for (int d : s.acts[c / 10].in) {
                req(d);
            }
        }
    };
    if (s.targets.empty()) {
        for (size_t i = 0; i < s.acts.size(); ++i) {
            req((int)i * 10);
        }
    }
    else {
        for (int c : s.targets) {
            req(c);
        }
    }
    std::set<std::string> need;
    for (int a : need_a) {
        need.insert("a" + std::to_string(a));
    }
    for (int l : need_l) {
        need.insert(Desc(s, l).Id());
    }
    for (auto const& [id, n] : log.started) {
        mc::Check(need.contains(id), "something not required was processed");
    }
    bool must_fail = false;
    for (auto const& id : fail) {
        must_fail |= need.contains(id);
    }
    if (not must_fail) {
        mc::Check(not failed, "failure flagged although everything succeeds");
        for (auto const& id : need) {
            mc::Check(log.done[id] == 1, "traversal ended but something required was not processed");
        }
    }
    else {
        // no consumer of something failed was processed (transitively)
        mc::Check(failed, "failure not flagged");
        std::set<int> bad = s.failing;
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < s.acts.size(); ++i) {
                for (int c : s.acts[i].in) {
                    if ((c < 0 ? s.failing_local.contains(c) : bad.contains(c / 10)) and
                        not bad.contains((int)i)) {
                        bad.insert((int)i);
                        ch = true;
                        mc::Check(log.started["a" + std::to_string(i)] == 0,
                                  "consumer of a failed action was processed");
                    }
                }
            }
        }
    }
    std::string o;
    for (auto const& e : log.events) {
        o += e;
    }
    mc::Observe(o);
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    bool th = hn::ctx().thorough;
    auto o = [&](int b) {
        mc::Options x;
        x.bound = b;
        x.max_seconds = th ? 240 : 30;
        return x;
    };
    int x = th ? 1 : 0;
    auto sc = [&](std::string const& n, int b, Spec s) {
        hn::Scenario(n, o(b + x), [s](auto) { Run(s); });
    };
    sc("single-1thr", 2, {.acts = {{{-1}}}, .targets = {0}, .threads = 1});
    sc("chain", 1, {.acts = {{{-1}}, {{0}}}, .targets = {10}});
    sc("diamond", 1, {.acts = {{{-1}, 2}, {{0}}, {{1}}, {{10, 20}}}, .targets = {30}});
    sc("join-2", 2, {.acts = {{{}}, {{}}, {{0, 10}}}, .targets = {20}});
    sc("join-2-allouts", 1, {.acts = {{{-1}, 2}, {{0, 1}}}, .targets = {}});
    sc("two-locals", 2, {.acts = {{{-1, -2}}}, .targets = {0}});
    sc("same-input-twice", 2, {.acts = {{{-1, -1}}}, .targets = {0}});
    sc("input-twice-and-other", 1, {.acts = {{{-1, -1, -2, -2}}}, .targets = {0}});
    sc("output-twice-and-local", 1, {.acts = {{{}}, {{0, 0, -1}}}, .targets = {10}});
    sc("shared-local", 1, {.acts = {{{-1}}, {{-1}}}, .targets = {0, 10}});
    sc("outs-and-dirs", 1, {.acts = {{{}, 1, 1}, {{0, 1}}}, .targets = {10, 1}});
    sc("tree-action", 1, {.acts = {{{-1}}, {.in = {0}, .tree = true}, {{10}}}, .targets = {20}});
    sc("second-round", 1, {.acts = {{{-1}}}, .targets = {0}, .threads = 1, .rounds = 2});
    sc("fail-first", 1, {.acts = {{{}}, {{0}}}, .targets = {10}, .failing = {0}});
    sc("fail-one-of-two", 1, {.acts = {{{}}, {{}}, {{0, 10}}}, .targets = {20}, .failing = {1}});
    sc("fail-local", 1, {.acts = {{{-1, -2}}}, .targets = {0}, .failing_local = {-2}});
    sc("fail-both", 2, {.acts = {{{}}, {{}}}, .targets = {0, 10}, .failing = {0, 1}});
    sc("unknown", 1, {.acts = {{{}}}, .targets = {0}, .threads = 1, .unknown = true});
    // all graphs of three actions with inputs from {local, earlier outputs},
    // every order of adding them, every failing action
    if (hn::Selected("graphs")) {
        // inputs with multiplicities (the same artifact at several paths)
        hn::Enumerate("graphs", 3 * 18 * 36, "every dag of three actions over one local "
                      "file and two outputs of the first action, inputs staged 0-2 times x 2 orders of adding x "
                      "(no failure | one of two actions | the local file fails) x target sets", [&](long g, hn::Shard& s) {
            int g0 = (int)(g % 3);
            int g1 = (int)(g / 3 % 18);
            int g2 = (int)(g / 3 / 18);
            std::vector<int> dom{-1, 0, 1, 10};
            std::vector<int> mult{3, 3, 2, 2};
            Spec sp;
            sp.acts.resize(3);
            sp.acts[0].outs = 2;
            sp.acts[0].in.assign(g0, -1);
            for (int i = 0, q = g1; i < 3; q /= mult[i++]) {
                sp.acts[1].in.insert(sp.acts[1].in.end(), q % mult[i], dom[i]);
            }
            for (int i = 0, q = g2; i < 4; q /= mult[i++]) {
                sp.acts[2].in.insert(sp.acts[2].in.end(), q % mult[i], dom[i]);
            }
            sp.threads = 1;
            std::vector<std::vector<int>> orders{{0, 1, 2}, {2, 1, 0}};
            std::vector<std::vector<int>> tgs{{}, {20}, {1, 10}};
            for (auto const& od : orders) {
                for (auto const& tg : tgs) {
                    for (int f = -2; f < 2; ++f) {
                        Spec q = sp;
                        q.order = od;
                        q.targets = tg;
                        if (f == -2) {
                            q.failing_local = {-1};
                        }
                        else if (f >= 0) {
                            q.failing = {f};
                        }
                        std::string c = "graph=" + std::to_string(g) + " order=" + std::to_string(od[0]) +
                                        " targets=" + std::to_string(tg.size()) + "/" + (tg.empty() ? "-" : std::to_string(tg[0])) +
                                        " fail=" + std::to_string(f);
                        if (not s.Case(c)) {
                            continue;
                        }
                        mc::Options op;
                        auto m = mc::Replay([q](auto) { Run(q); }, op, "0:");
                        s.Check(m.empty(), m);
                        s.Nontrivial(g1 != 0 or g2 != 0);
                        s.Sample(c);
                    }
                }
            }
        });
    }
    return hn::Finish();
}
