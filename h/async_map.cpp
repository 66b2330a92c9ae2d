// C02: AsyncMapConsumer under all schedules.
#define VERIF_SCHED
#include "rt/harness.hpp"
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include "src/buildtool/multithreading/async_map_consumer.hpp"
#include "src/buildtool/multithreading/async_map_utils.hpp"
#include "src/buildtool/multithreading/task_system.hpp"

namespace {
using Map = AsyncMapConsumer<int, int>;
using Graph = std::vector<std::vector<int>>;

struct Spec {
    Graph deps;              // deps[k]
    std::set<int> failing;   // creator reports a fatal error
    std::set<int> async_set; // value is set from a separate task
    std::set<int> twice;     // creator asks for deps one after the other
    std::vector<std::vector<int>> requests;
    int threads = 2;
    bool outer_threads = false;  // each request from its own thread
    bool strict_cycle = false;
};

// reference: value, or failure, or "never" (on/behind a cycle)
enum { kValue, kFailed, kNever };
int RefState(Spec const& s, int k, std::vector<int> stack, int* val) {
    for (int x : stack) {
        if (x == k) {
            return kNever;
        }
    }
    stack.push_back(k);
    if (s.failing.contains(k)) {
        return kFailed;
    }
    int v = k + 1;
    bool failed = false;
    bool never = false;
    int i = 1;
    for (int d : s.deps[k]) {
        int dv = 0;
        int st = RefState(s, d, stack, &dv);
        failed |= st == kFailed;
        never |= st == kNever;
        v += 10 * dv * i++;
    }
    *val = v;
    // a computation waiting for itself may never get to see a failure
    return never ? kNever : (failed ? kFailed : kValue);
}
bool HasCycle(Spec const& s, std::set<int> const& from) {
    std::function<bool(int, std::set<int>)> f = [&](int k, std::set<int> st) {
        if (not st.insert(k).second) {
            return true;
        }
        if (s.failing.contains(k)) {
            return false;
        }
        for (int d : s.deps[k]) {
            if (f(d, st)) {
                return true;
            }
        }
        return false;
    };
    for (int k : from) {
        if (f(k, {})) {
            return true;
        }
    }
    return false;
}

void Run(Spec const& s) {
    std::mutex m;
    std::map<int, int> created;
    std::string trace;
    std::vector<int> consumed(s.requests.size(), 0);
    std::vector<int> failedcnt(s.requests.size(), 0);
    std::vector<std::vector<int>> got(s.requests.size());
    std::optional<std::vector<int>> cycle;
    std::vector<int> pending;
    Map::ValueCreator creator = [&](auto ts, auto setter, auto logger, auto subcaller, int const& key) {
        {
            mc::NoPoints np;
            std::unique_lock l(m);
            ++created[key];
            trace += "k" + std::to_string(key);
        }
        if (s.failing.contains(key)) {
            (*logger)("fail", true);
            return;
        }
        auto finish = [&s, ts, setter, key](std::vector<int const*> const& v) {
            int r = key + 1;
            int i = 1;
            for (auto const* p : v) {
                r += 10 * *p * i++;
            }
            if (s.async_set.contains(key)) {
                ts->QueueTask([setter, r]() { (*setter)(int(r)); });
            }
            else {
                (*setter)(int(r));
            }
        };
        if (s.twice.contains(key) and s.deps[key].size() == 2) {
            int d0 = s.deps[key][0];
            int d1 = s.deps[key][1];
            (*subcaller)(
                {d0},
                [=](auto const& v0) {
                    int a = *v0[0];
                    (*subcaller)(
                        {d1},
                        [=](auto const& v1) {
                            int b = *v1[0];
                            finish({&a, &b});
                        },
                        logger);
                },
                logger);
            return;
        }
        (*subcaller)(s.deps[key], finish, logger);
    };
    {
        Map map{creator, 1};
        {
            TaskSystem ts(s.threads);
            auto req = [&](size_t i) {
                map.ConsumeAfterKeysReady(
                    &ts, s.requests[i],
                    [&, i](auto const& v) {
                        mc::NoPoints np;
                        std::unique_lock l(m);
                        ++consumed[i];
                        trace += "c" + std::to_string(i);
                        for (auto const* p : v) {
                            got[i].push_back(*p);
                        }
                    },
                    [](auto, auto) {},
                    [&, i]() {
                        mc::NoPoints np;
                        std::unique_lock l(m);
                        ++failedcnt[i];
                    });
            };
            std::vector<std::thread> th;
            for (size_t i = 0; i < s.requests.size(); ++i) {
                if (s.outer_threads and i + 1 < s.requests.size()) {
                    th.emplace_back([&, i] { req(i); });
                }
                else {
                    req(i);
                }
            }
            for (auto& t : th) {
                t.join();
            }
        }
        cycle = map.DetectCycle();
        pending = map.GetPendingKeys();
    }
    mc::NoPoints np;
    // oracle
    std::set<int> reach;
    std::function<void(int)> dfs = [&](int k) {
        if (reach.insert(k).second and not s.failing.contains(k)) {
            for (int d : s.deps[k]) {
                dfs(d);
            }
        }
    };
    for (auto const& r : s.requests) {
        for (int k : r) {
            dfs(k);
        }
    }
    for (auto [k, n] : created) {
        mc::Check(n == 1, "value of key computed " + std::to_string(n) + " times");
        mc::Check(reach.contains(k), "key computed that nobody needs");
    }
    if (s.twice.empty()) {
        mc::Check(created.size() == reach.size(), "needed key not computed");
    }
    for (size_t i = 0; i < s.requests.size(); ++i) {
        bool failed = false;
        bool never = false;
        std::vector<int> want;
        for (int k : s.requests[i]) {
            int v = 0;
            int st = RefState(s, k, {}, &v);
            failed |= st == kFailed;
            never |= st == kNever;
            want.push_back(v);
        }
        if (not failed and not never) {
            mc::Check(consumed[i] == 1, "consumer of computable keys ran " + std::to_string(consumed[i]) + " times");
            mc::Check(got[i] == want, "consumer got wrong values");
            mc::Check(failedcnt[i] == 0, "failure reported for computable keys");
        }
        else {
            mc::Check(consumed[i] == 0, "consumer ran although a key has no value");
            if (not never) {
                mc::Check(failedcnt[i] == 1,
                          "failure of a key propagated " + std::to_string(failedcnt[i]) + " times to its consumer");
            }
        }
    }
    bool const has = HasCycle(s, reach);
    if (s.failing.empty() and s.twice.empty()) {
        mc::Check(has == cycle.has_value(),
                  has ? "dependency cycle not reported" : "cycle reported in acyclic graph");
    }
    if (not has) {
        mc::Check(not cycle, "cycle reported in acyclic graph");
    }
    if (cycle) {
        // last element occurs before; consecutive elements are dependencies
        auto const& c = *cycle;
        mc::Check(c.size() >= 2, "cycle report too short");
        bool found = false;
        for (size_t i = 0; i + 1 < c.size(); ++i) {
            found |= c[i] == c.back();
            auto const& d = s.deps.at(c[i]);
            mc::Check(std::find(d.begin(), d.end(), c[i + 1]) != d.end(),
                      "reported cycle uses a dependency that does not exist");
        }
        mc::Check(found, "reported cycle is not closed");
    }
    std::set<int> want_pending;
    for (int k : reach) {
        int v;
        if (RefState(s, k, {}, &v) != kValue) {
            want_pending.insert(k);
        }
    }
    if (s.twice.empty()) {
        mc::Check(std::set<int>(pending.begin(), pending.end()) == want_pending,
                  "pending keys reported wrongly");
    }
    std::string o;
    for (size_t i = 0; i < consumed.size(); ++i) {
        o += std::to_string(consumed[i]) + (failedcnt[i] ? "f" : "") + ";";
    }
    mc::Observe(o + (cycle ? "cycle " : " ") + trace);
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    bool th = hn::ctx().thorough;
    auto o = [&](int b) {
        mc::Options x;
        x.bound = b;
        x.max_seconds = th ? 240 : 12;
        return x;
    };
    int x = th ? 1 : 0;
    auto sc = [&](std::string const& n, int b, Spec s) {
        hn::Scenario(n, o(b + x), [s](auto) { Run(s); });
    };
    sc("chain-1thr", 2, {.deps = {{1}, {}}, .requests = {{0}}, .threads = 1});
    sc("two-deps", 1, {.deps = {{1, 2}, {}, {}}, .requests = {{0}}});
    sc("diamond", 1, {.deps = {{1, 2}, {3}, {3}, {}}, .requests = {{0}}});
    sc("shared-dep-2req", 1, {.deps = {{2}, {2}, {}}, .requests = {{0}, {1}}});
    sc("same-key-2threads", 2, {.deps = {{}}, .requests = {{0}, {0}}, .threads = 1, .outer_threads = true});
    sc("async-set", 1, {.deps = {{1}, {}}, .async_set = {0, 1}, .requests = {{0}, {1}}});
    sc("dup-key", 1, {.deps = {{1, 1}, {}}, .requests = {{0, 1, 0}}});
    sc("two-stage", 1, {.deps = {{1, 2}, {}, {}}, .twice = {0}, .requests = {{0}}});
    sc("fail-dep", 1, {.deps = {{1, 2}, {}, {}}, .failing = {2}, .requests = {{0}}});
    sc("fail-shared", 1, {.deps = {{2}, {2}, {}}, .failing = {2}, .requests = {{0}, {1}}});
    sc("fail-both", 1, {.deps = {{1, 2}, {}, {}}, .failing = {1, 2}, .requests = {{0}}});
    sc("fail-late-req", 1, {.deps = {{}}, .failing = {0}, .requests = {{0}, {0}}, .threads = 1, .outer_threads = true});
    sc("cycle2", 1, {.deps = {{1}, {0}}, .requests = {{0}}});
    sc("cycle3", 1, {.deps = {{1}, {2}, {0}}, .requests = {{0}, {1}}});
    sc("self-cycle", 1, {.deps = {{0}}, .requests = {{0}}, .threads = 1});
    // every dependency graph on three keys (incl. self-loops), one request
    // for all keys, every schedule without preemption on one worker, and all
    // one-preemption schedules for a subset.
    if (hn::Selected("graphs3") and hn::ctx().replay.empty()) {
        hn::Enumerate("graphs3", 512, "all 512 dependency graphs on 3 keys x "
                      "creator failing for none or one key, executed to completion "
                      "under the scheduler's canonical schedule", [&](long g, hn::Shard& s) {
            for (int f = -1; f < 3; ++f) {
                Spec sp;
                for (int i = 0; i < 3; ++i) {
                    std::vector<int> d;
                    for (int j = 0; j < 3; ++j) {
                        if (g >> (3 * i + j) & 1) {
                            d.push_back(j);
                        }
                    }
                    sp.deps.push_back(d);
                }
                if (f >= 0) {
                    sp.failing = {f};
                }
                sp.requests = {{0}, {1, 2}};
                sp.threads = 1;
                std::string c = "graph=" + std::to_string(g) + " fail=" + std::to_string(f);
                if (not s.Case(c)) {
                    continue;
                }
                mc::Options op;
                auto m = mc::Replay([sp](auto) { Run(sp); }, op, "0:");
                s.Check(m.empty(), m);
                s.Nontrivial(g != 0);
                s.Outcome(c);
                s.Sample(c);
            }
        });
    }
    return hn::Finish();
}
