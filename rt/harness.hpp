// Common frame of the harness programs: scenarios of the stateless model
// checker and exhaustive enumerations over forked shards. Each program
// writes one JSON result that tools/check.py merges into the evidence.
#ifndef VERIF_RT_HARNESS_HPP
#define VERIF_RT_HARNESS_HPP
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <string>
#include <vector>

#include "nlohmann/json.hpp"
#ifdef VERIF_SCHED
#include "rt/sched.hpp"
#endif

namespace hn {

using Json = nlohmann::json;

struct Ctx {
    bool thorough = false;
    std::string out;
    std::string only;      // scenario filter
    std::string replay;    // schedule or case to replay
    std::string scratch;
    long seed = 1;
    Json result = Json{{"parts", Json::array()},
                       {"violations", Json::array()}};
};

inline Ctx& ctx() {
    static Ctx c;
    return c;
}

inline bool Selected(std::string const& name) {
    return ctx().only.empty() or ctx().only == name;
}

inline void Violation(std::string const& part,
                      std::string const& msg,
                      std::string const& replay,
                      std::string const& key = "") {
    ctx().result["violations"].push_back(
        Json{{"part", part}, {"message", msg}, {"replay", replay},
             {"key", key.empty() ? part : key}});
}

inline void Init(int argc, char** argv) {
    // Do not depend on what the caller ignores or blocks: actions inherit it.
    for (int i = 1; i < 32; ++i) {
        if (i != SIGKILL and i != SIGSTOP) {
            signal(i, SIG_DFL);
        }
    }
    sigset_t none;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, nullptr);
    signal(SIGPIPE, SIG_IGN);
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string{i + 1 < argc ? argv[++i] : ""}; };
        if (a == "--tier") {
            ctx().thorough = val() == "thorough";
        }
        else if (a == "--out") {
            ctx().out = val();
        }
        else if (a == "--part") {
            ctx().only = val();
        }
        else if (a == "--replay") {
            ctx().replay = val();
        }
        else if (a == "--scratch") {
            ctx().scratch = val();
        }
        else if (a == "--seed") {
            ctx().seed = std::stol(val());
        }
    }
}

// Scenarios run in forked processes, several at a time.
struct Running {
    pid_t pid;
    int fd;
    std::string name;
};
inline std::vector<Running>& running() {
    static std::vector<Running> r;
    return r;
}
inline void Reap(size_t keep) {
    while (running().size() > keep) {
        int st = 0;
        pid_t p = ::waitpid(-1, &st, 0);
        if (p < 0) {
            break;
        }
        for (size_t i = 0; i < running().size(); ++i) {
            if (running()[i].pid != p) {
                continue;
            }
            auto r = running()[i];
            running().erase(running().begin() + (long)i);
            std::string all;
            char buf[65536];
            ::lseek(r.fd, 0, SEEK_SET);
            ssize_t k;
            while ((k = ::read(r.fd, buf, sizeof buf)) > 0) {
                all.append(buf, (size_t)k);
            }
            ::close(r.fd);
            Json j = Json::parse(all, nullptr, false);
            if (st != 0 or j.is_discarded()) {
                std::fprintf(stderr, "scenario %s ended with status %d\n", r.name.c_str(), st);
                std::exit(3);
            }
            for (auto const& x : j["parts"]) {
                ctx().result["parts"].push_back(x);
            }
            for (auto const& x : j["violations"]) {
                ctx().result["violations"].push_back(x);
            }
            break;
        }
    }
}

inline int Finish() {
    Reap(0);
    if (not ctx().out.empty()) {
        std::ofstream(ctx().out) << ctx().result.dump(1) << std::endl;
    }
    else {
        std::cout << ctx().result.dump(1) << std::endl;
    }
    return ctx().result["violations"].empty() ? 0 : 1;
}

#ifdef VERIF_SCHED
inline void RunScenario(std::string const& name,
                        mc::Options opt,
                        mc::Body const& body,
                        mc::Post const& post);
inline void Scenario(std::string const& name,
                     mc::Options opt,
                     mc::Body const& body,
                     mc::Post const& post = {}) {
    if (not Selected(name)) {
        return;
    }
    Reap((size_t)std::max(1L, sysconf(_SC_NPROCESSORS_ONLN)) - 1);
    int fd = memfd_create("scenario", 0);
    std::fflush(stdout);
    pid_t p = ::fork();
    if (p == 0) {
        ctx().result = Json{{"parts", Json::array()}, {"violations", Json::array()}};
        RunScenario(name, std::move(opt), body, post);
        auto s = ctx().result.dump(-1, ' ', false, Json::error_handler_t::replace);
        size_t o = 0;
        while (o < s.size()) {
            auto k = ::write(fd, s.data() + o, s.size() - o);
            if (k <= 0) {
                ::_exit(4);
            }
            o += (size_t)k;
        }
        ::_exit(0);
    }
    running().push_back({p, fd, name});
}
inline void RunScenario(std::string const& name,
                        mc::Options opt,
                        mc::Body const& body,
                        mc::Post const& post) {
    if (not ctx().scratch.empty() and not opt.scratch.empty()) {
        opt.scratch = ctx().scratch + "/" + name;
        ::mkdir(opt.scratch.c_str(), 0755);
    }
    if (not ctx().replay.empty()) {
        auto m = mc::Replay(body, opt, ctx().replay, post);
        if (not m.empty()) {
            Violation(name, m, ctx().replay);
        }
        return;
    }
    auto t0 = std::chrono::steady_clock::now();
    auto r = mc::ExploreIter(body, opt, post);
    double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    Json part{{"name", name},
              {"kind", "schedules"},
              {"bound", opt.bound},
              {"executions", r.executions},
              {"pruned", r.pruned},
              {"states", r.states},
              {"transitions", r.transitions},
              {"crashes", r.crashes},
              {"max_points", r.max_points},
              {"exhaustive", r.exhaustive},
              {"outcomes", r.distinct_outcomes},
              {"seconds", s}};
    Json smp = Json::array();
    for (auto const& o : r.outcomes) {
        if (smp.size() < 3) {
            smp.push_back(o);
        }
    }
    part["samples"] = smp;
    ctx().result["parts"].push_back(part);
    if (r.violated) {
        Violation(name, r.message, r.schedule);
    }
    std::fprintf(stderr,
                 "[%s] bound %d: %ld executions, %ld pruned, %ld states, %ld transitions, %ld crashes, %ld outcomes, max points %ld, %s, %.1fs%s%s\n",
                 name.c_str(), opt.bound, (long)r.executions, (long)r.pruned,
                 (long)r.states, (long)r.transitions, (long)r.crashes, (long)r.distinct_outcomes,
                 (long)r.max_points, r.exhaustive ? "complete" : "capped", s,
                 r.violated ? " VIOLATION " : "", r.message.c_str());
}
#endif

// ---------------------------------------------------------------- enumeration
// Work is split into numbered items; each worker process takes items by
// number. Within an item, the harness evaluates cases.
struct Shard {
    struct Shared {
        char current[4000];
        long evaluations;
        long nontrivial;
        long states;
        long transitions;
        int nviol;
    };
    Shared* sh;
    std::vector<std::string> samples;
    std::vector<std::array<std::string, 3>> viols;  // message, case, key
    std::set<std::string> outcomes;
    std::set<std::string> viol_keys;
    std::string only_case;  // replay
    unsigned case_timeout = 120;

    // Announces the case (for crash attribution); false: skip (replay mode)
    bool Case(std::string const& c) {
        std::strncpy(sh->current, c.c_str(), sizeof(sh->current) - 1);
        if (not only_case.empty() and c != only_case) {
            return false;
        }
        ::alarm(case_timeout);  // a case that never ends is a violation
        ++sh->evaluations;
        return true;
    }
    void Nontrivial(bool b = true) { sh->nontrivial += b ? 1 : 0; }
    void Sample(std::string const& s) {
        if (samples.size() < 2) {
            samples.push_back(s);
        }
    }
    void Outcome(std::string const& s) {
        if (outcomes.size() < 100000) {
            outcomes.insert(s);
        }
    }
    // key: identification of the failing input for known findings
    void Fail(std::string const& msg, std::string const& key = "") {
        if (viol_keys.insert(key.empty() ? msg.substr(0, 60) : key).second and
            viols.size() < 40) {
            viols.push_back({msg, sh->current, key});
        }
        ++sh->nviol;
    }
    void Check(bool ok, std::string const& msg, std::string const& key = "") {
        if (not ok) {
            Fail(msg, key);
        }
    }
};

inline void WriteAll(int fd, std::string const& s) {
    size_t o = 0;
    while (o < s.size()) {
        auto k = ::write(fd, s.data() + o, s.size() - o);
        if (k <= 0) {
            break;
        }
        o += static_cast<size_t>(k);
    }
}

inline void Enumerate(std::string const& name,
                      long items,
                      std::string const& rule,
                      std::function<void(long, Shard&)> const& f,
                      bool exhaustive = true) {
    if (not Selected(name)) {
        return;
    }
    Reap(0);
    auto t0 = std::chrono::steady_clock::now();
    int nw = (int)sysconf(_SC_NPROCESSORS_ONLN);
    if (nw > items) {
        nw = (int)std::max(1L, items);
    }
    auto* next = static_cast<std::atomic<long>*>(
        mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<Shard::Shared*> shs;
    std::vector<int> fds;
    std::vector<pid_t> pids;
    std::fflush(stdout);
    for (int w = 0; w < nw; ++w) {
        auto* sh = static_cast<Shard::Shared*>(
            mmap(nullptr, sizeof(Shard::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        shs.push_back(sh);
        int p[2];
        if (pipe(p) != 0) {
            std::perror("pipe");
            std::exit(2);
        }
        pid_t pid = fork();
        if (pid == 0) {
            for (int fd : fds) {
                close(fd);
            }
            close(p[0]);
            Shard s{};
            s.sh = sh;
            s.only_case = ctx().replay;
            while (true) {
                long i = (*next)++;
                if (i >= items) {
                    break;
                }
                try {
                    f(i, s);
                } catch (std::exception const& e) {
                    s.Fail(std::string("uncaught exception: ") + e.what());
                } catch (...) {
                    s.Fail("uncaught exception");
                }
            }
            Json j{{"samples", s.samples}, {"outcomes", s.outcomes}};
            Json v = Json::array();
            for (auto const& x : s.viols) {
                v.push_back({x[0], x[1], x[2]});
            }
            j["viols"] = v;
            WriteAll(p[1], j.dump(-1, ' ', false, Json::error_handler_t::replace));
            _exit(0);
        }
        close(p[1]);
        fds.push_back(p[0]);
        pids.push_back(pid);
    }
    long ev = 0;
    long nt = 0;
    long st_ = 0;
    long tr = 0;
    std::set<std::string> outcomes;
    Json samples = Json::array();
    for (int w = 0; w < nw; ++w) {
        std::string all;
        char buf[65536];
        ssize_t k;
        while ((k = read(fds[w], buf, sizeof buf)) > 0) {
            all.append(buf, (size_t)k);
        }
        close(fds[w]);
        int st = 0;
        waitpid(pids[w], &st, 0);
        ev += shs[w]->evaluations;
        nt += shs[w]->nontrivial;
        st_ += shs[w]->states;
        tr += shs[w]->transitions;
        Json j = Json::parse(all, nullptr, false);
        if (st != 0 or j.is_discarded()) {
            std::string why = WIFSIGNALED(st)
                                  ? std::string("program terminated by signal ") + strsignal(WTERMSIG(st))
                                  : "program exited with status " + std::to_string(st);
            Violation(name, why + " on case " + shs[w]->current, shs[w]->current);
            continue;
        }
        for (auto const& v : j["viols"]) {
            Violation(name, v[0].get<std::string>() + " | case: " + v[1].get<std::string>(),
                      v[1], v[2]);
        }
        for (auto const& s : j["samples"]) {
            if (samples.size() < 4) {
                samples.push_back(s);
            }
        }
        for (auto const& o : j["outcomes"]) {
            outcomes.insert(o.get<std::string>());
        }
        munmap(shs[w], sizeof(Shard::Shared));
    }
    munmap(next, 4096);
    double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    Json part{{"name", name}, {"kind", "enumeration"}, {"evaluations", ev},
              {"nontrivial", nt}, {"rule", rule}, {"exhaustive", exhaustive},
              {"samples", samples}, {"seconds", s}, {"outcomes", outcomes.size()},
              {"states", st_}, {"transitions", tr}};
    ctx().result["parts"].push_back(part);
    std::fprintf(stderr, "[%s] %ld cases, %ld nontrivial, %zu outcomes, %.1fs, %zu violation(s)\n",
                 name.c_str(), ev, nt, outcomes.size(), s,
                 ctx().result["violations"].size());
}

}  // namespace hn
#endif
