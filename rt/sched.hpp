// Stateless model checker for real C++ code: controlled scheduler, race
// detector, file-system interception and crash injection. See DESIGN.md.
#ifndef VERIF_RT_SCHED_HPP
#define VERIF_RT_SCHED_HPP
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mc {

struct Options {
    int bound = 1;             // maximal number of deviations (preemptions...)
    bool spurious = false;     // model spurious wakeups (one deviation each)
    bool races = true;         // report data races / use after free
    bool fs_points = false;    // file system calls are scheduling points
    bool fs_reads = false;     // ... also non-mutating ones (open, stat)
    bool crash = false;        // enumerate a crash before every mutating call
    bool torn = false;         // ... and in the middle of every write
    bool faults = false;       // ... and failing (ENOSPC) or short calls, and
                               // killed helper processes (one deviation each)
    bool read_faults = false;  // opening for reading (EMFILE) and reading (EIO)
                               // may fail (one deviation each)
    bool atomic_points = true; // atomic accesses are scheduling points
    bool delay = false;        // delay bounding: threads run in a fixed order,
                               // preempted at file-system calls and explicit
                               // points only; each deviation counts
    bool timeouts = true;      // timed waits may time out
    bool prune = true;         // happens-before state caching
    bool deadlock_ok = false;
    int horizon = 200000;      // scheduling steps per execution
    int timeout_s = 60;        // wall time of a single execution
    int64_t max_execs = -1;    // stop (not exhaustive) after that many
    double max_seconds = -1;   // stop (not exhaustive) after that time
    int workers = 0;           // 0: number of cores
    std::string scratch;       // if non-empty: directory per execution
};

struct Result {
    int64_t executions{};  // complete executions
    int64_t pruned{};      // executions cut at an already visited state
    int64_t states{};      // distinct happens-before states at choice points
    int64_t transitions{}; // scheduling steps executed
    int64_t crashes{};     // executions ended by an injected crash
    int64_t max_points{};  // most choice points of one execution
    bool exhaustive{};     // the space within the bound was completed
    bool violated{};
    std::string message;   // first violation
    std::string schedule;  // replayable choice list
    std::set<std::string> outcomes;  // distinct observations (capped)
    int64_t distinct_outcomes{};
};

// body: executed under the scheduler. post: executed afterwards in a fresh
// process (no scheduler), with whether a crash had been injected; recovery
// and oracle go there. Both report violations with Fail.
using Body = std::function<void(std::string const& dir)>;
using Post = std::function<void(std::string const& dir, bool crashed)>;
Result Explore(Body const& body, Options const& opt, Post const& post = {});

// Runs with bounds 0..opt.bound, accumulating; stops at first violation.
Result ExploreIter(Body const& body, Options const& opt, Post const& post = {});

// Replays one schedule (as in Result::schedule); returns the message ("" if ok)
std::string Replay(Body const& body,
                   Options const& opt,
                   std::string const& schedule,
                   Post const& post = {});

// --- to be used in bodies ---
[[noreturn]] void Fail(std::string const& msg);
inline void Check(bool c, std::string const& msg) {
    if (not c) {
        Fail(msg);
    }
}
void Observe(std::string const& what);  // appended to outcome of execution
// What the execution observed so far (in Post: all of it).
std::string Observed();
// Environment choice in [0,n). cost>0: alternatives count as deviations.
int Choose(int n, int cost = 0);
// Explicit scheduling point.
void Point();
// Exempt a region from scheduling points (setup code, oracles).
struct NoPoints {
    NoPoints();
    ~NoPoints();
};
// Is there a controlled execution?
bool Active();
// Number of mutating file-system calls so far in this execution
long FsOps();
}  // namespace mc
#endif
