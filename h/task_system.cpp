// C01: TaskSystem under all schedules.
#define VERIF_SCHED
#include "rt/harness.hpp"
#include <atomic>
#include <functional>
#include <memory>
#include <thread>
#include "src/buildtool/multithreading/task_system.hpp"

namespace {
// Per-task run counters; relaxed atomics without scheduling points would be
// visible to the explorer, so plain ints guarded by "each task has its own".
struct Counts {
    int c[16] = {};
};

// threads, number of root tasks, fanout of each, rounds of Finish
void Basic(int threads, int roots, int fan, int depth, int rounds) {
    auto cnt = std::make_unique<Counts>();
    int expect = 0;
    {
        TaskSystem ts(threads);
        int id = 0;
        for (int r = 0; r < rounds; ++r) {
            for (int i = 0; i < roots; ++i) {
                int my = id++;
                std::function<void(int, int)> spawn;
                auto* c = cnt.get();
                auto* t = &ts;
                // every node of the task tree has its own slot
                struct Node {
                    static void Run(TaskSystem* t, Counts* c, int base, int fan, int depth) {
                        c->c[base]++;
                        if (depth > 0) {
                            for (int k = 0; k < fan; ++k) {
                                t->QueueTask([t, c, b = base + 1 + k, fan, depth] {
                                    Run(t, c, b, fan, depth - 1);
                                });
                            }
                        }
                    }
                };
                id += depth > 0 ? fan : 0;
                if (depth > 1) {
                    id += 1;
                }
                t->QueueTask([t, c, my, fan, depth] {
                    Node::Run(t, c, my, fan, depth);
                });
            }
            expect = id;
            ts.Finish();
            for (int i = 0; i < id; ++i) {
                mc::Check(cnt->c[i] == 1,
                          "after Finish(), task " + std::to_string(i) + " ran " +
                              std::to_string(cnt->c[i]) + " times");
            }
        }
    }
    for (int i = 0; i < expect; ++i) {
        mc::Check(cnt->c[i] == 1, "task ran not exactly once");
    }
    mc::Observe("ok");
}

// destructor without Finish has to run everything
void DtorOnly(int threads, int roots) {
    Counts cnt;
    {
        TaskSystem ts(threads);
        for (int i = 0; i < roots; ++i) {
            ts.QueueTask([&cnt, i] { cnt.c[i]++; });
        }
    }
    for (int i = 0; i < roots; ++i) {
        mc::Check(cnt.c[i] == 1, "destructor returned but a queued task did not run exactly once");
    }
}

// Shutdown while tasks are queued: terminates; each task at most once.
void ShutdownRace(int threads, int roots, bool from_task, bool waiter) {
    Counts cnt;
    bool done = false;
    {
        TaskSystem ts(threads);
        for (int i = 0; i < roots; ++i) {
            ts.QueueTask([&cnt, i, &ts, from_task] {
                cnt.c[i]++;
                if (from_task and i == 0) {
                    ts.Shutdown();
                }
            });
        }
        if (waiter) {
            std::thread w([&ts] { ts.Finish(); });
            if (not from_task) {
                ts.Shutdown();
            }
            w.join();
        }
        else if (not from_task) {
            ts.Shutdown();
        }
    }
    std::string o;
    for (int i = 0; i < roots; ++i) {
        mc::Check(cnt.c[i] <= 1, "task ran twice");
        o += cnt.c[i] ? '1' : '0';
    }
    (void)done;
    mc::Observe(o);
}

// A second thread queues concurrently
void TwoProducers(int threads, int each) {
    Counts cnt;
    {
        TaskSystem ts(threads);
        std::thread p([&] {
            for (int i = 0; i < each; ++i) {
                ts.QueueTask([&cnt, i] { cnt.c[i]++; });
            }
        });
        for (int i = 0; i < each; ++i) {
            ts.QueueTask([&cnt, i] { cnt.c[8 + i]++; });
        }
        p.join();
        ts.Finish();
        for (int i = 0; i < each; ++i) {
            mc::Check(cnt.c[i] == 1 and cnt.c[8 + i] == 1,
                      "after Finish(), a queued task did not run exactly once");
        }
    }
}

// The tasks really may run concurrently: record the order of completion.
void Order(int threads, int roots) {
    std::string log;
    std::mutex m;
    {
        TaskSystem ts(threads);
        for (int i = 0; i < roots; ++i) {
            ts.QueueTask([&, i] {
                std::unique_lock l(m);
                log += char('a' + i);
            });
        }
    }
    mc::Check((int)log.size() == roots, "lost or duplicated task");
    mc::Observe(log);
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    bool th = hn::ctx().thorough;
    auto o = [&](int b, bool spur = false) {
        mc::Options x;
        x.bound = b;
        x.spurious = spur;
        x.max_seconds = th ? 180 : 20;
        return x;
    };
    int x = th ? 1 : 0;
    hn::Scenario("1thr-2tasks-sub", o(3 + x, true), [](auto) { Basic(1, 2, 1, 1, 1); });
    hn::Scenario("2thr-1task-sub2", o(2 + x), [](auto) { Basic(2, 1, 2, 1, 1); });
    hn::Scenario("2thr-2rounds", o(2 + x), [](auto) { Basic(2, 1, 0, 0, 2); });
    hn::Scenario("2thr-chain", o(2 + x), [](auto) { Basic(2, 1, 1, 2, 1); });
    hn::Scenario("2thr-spurious", o(1 + x, true), [](auto) { Basic(2, 2, 0, 0, 1); });
    hn::Scenario("dtor", o(2 + x), [](auto) { DtorOnly(2, 2); });
    hn::Scenario("dtor-1thr", o(3 + x, true), [](auto) { DtorOnly(1, 2); });
    hn::Scenario("shutdown", o(2 + x), [](auto) { ShutdownRace(2, 2, false, false); });
    hn::Scenario("shutdown-task", o(2 + x), [](auto) { ShutdownRace(2, 2, true, false); });
    hn::Scenario("shutdown-waiter", o(1 + x), [](auto) { ShutdownRace(1, 2, false, true); });
    hn::Scenario("two-producers", o(1 + x), [](auto) { TwoProducers(1, 2); });
    hn::Scenario("two-producers-2", o(1 + x), [](auto) { TwoProducers(2, 1); });
    hn::Scenario("order-3thr", o(1), [](auto) { Order(3, 2); });
    return hn::Finish();
}
