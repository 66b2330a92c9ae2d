// Explicit-state exploration of a system whose state lives in a directory:
// breadth first over sequences of operations of the real code, deduplicated
// by a canonical form of the directory and the state of the reference model.
#ifndef VERIF_RT_EXPLORE_HPP
#define VERIF_RT_EXPLORE_HPP
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>

#include <unordered_set>

#include "rt/harness.hpp"

namespace ex {
using hn::Json;

inline void RemoveTree(std::string const& p) {
    struct stat s {};
    if (::lstat(p.c_str(), &s) != 0) {
        return;
    }
    if (S_ISDIR(s.st_mode)) {
        ::chmod(p.c_str(), 0700);
        if (DIR* d = ::opendir(p.c_str())) {
            while (auto* e = ::readdir(d)) {
                std::string n = e->d_name;
                if (n != "." and n != "..") {
                    RemoveTree(p + "/" + n);
                }
            }
            ::closedir(d);
        }
        ::rmdir(p.c_str());
    }
    else {
        ::unlink(p.c_str());
    }
}

// plain reading, independent of the code under test
inline bool Slurp(std::string const& p, std::string* out) {
    out->clear();
    int fd = ::open(p.c_str(), O_RDONLY);
    if (fd < 0) {
        return false;
    }
    char buf[65536];
    ssize_t k;
    while ((k = ::read(fd, buf, sizeof buf)) > 0) {
        out->append(buf, (size_t)k);
    }
    ::close(fd);
    return k == 0;
}

inline void Dump(std::string const& p, std::string const& s, mode_t mode = 0644) {
    int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    hn::WriteAll(fd, s);
    ::fchmod(fd, mode);
    ::close(fd);
}

// Copies a state; big (read-only) files are shared.
inline void CopyTree(std::string const& from, std::string const& to) {
    struct stat s {};
    if (::lstat(from.c_str(), &s) != 0) {
        std::perror(("copy " + from).c_str());
        std::exit(3);
    }
    if (S_ISDIR(s.st_mode)) {
        ::mkdir(to.c_str(), 0700);
        if (DIR* d = ::opendir(from.c_str())) {
            while (auto* e = ::readdir(d)) {
                std::string n = e->d_name;
                if (n != "." and n != "..") {
                    CopyTree(from + "/" + n, to + "/" + n);
                }
            }
            ::closedir(d);
        }
        ::chmod(to.c_str(), s.st_mode & 07777);
    }
    else if (S_ISLNK(s.st_mode)) {
        char buf[4096];
        auto k = ::readlink(from.c_str(), buf, sizeof buf - 1);
        buf[k > 0 ? k : 0] = 0;
        (void)!::symlink(buf, to.c_str());
    }
    else if (s.st_size > 8192 and (s.st_mode & 0222) == 0) {
        if (::link(from.c_str(), to.c_str()) != 0) {
            std::perror("link");
            std::exit(3);
        }
    }
    else {
        std::string data;
        Slurp(from, &data);
        Dump(to, data, s.st_mode & 07777);
        struct timespec ts[2] = {s.st_atim, s.st_mtim};
        ::utimensat(AT_FDCWD, to.c_str(), ts, 0);
    }
}

struct System {
    virtual ~System() = default;
    virtual int Ops() const = 0;
    virtual std::string OpName(int op) const = 0;
    // creates the initial state in (empty) dir, returns the model's
    virtual std::string Init(std::string const& dir) = 0;
    // Runs op; false: not applicable. fail: report a violation.
    virtual bool Apply(int op,
                       std::string const& dir,
                       std::string* model,
                       std::function<void(std::string const&)> const& fail) = 0;
    // Checks the state, returns its canonical form
    virtual std::string Canonical(std::string const& dir,
                                  std::string const& model,
                                  std::function<void(std::string const&)> const& fail) = 0;
};

// max_depth < 0: until no new state is found
inline void Explore(std::string const& name,
                    std::string const& rule,
                    std::function<std::unique_ptr<System>()> const& make,
                    int max_depth,
                    size_t max_states) {
    using namespace hn;
    if (not Selected(name)) {
        return;
    }
    Reap(0);
    auto t0 = std::chrono::steady_clock::now();
    std::string const base = ctx().scratch + "/" + name;
    ::mkdir(base.c_str(), 0755);
    struct St {
        std::string path, model, snap;
    };
    auto sys = make();
    if (not ctx().replay.empty()) {
        // replay: comma separated operation numbers
        std::string dir = base + "/w0";
        ::mkdir(dir.c_str(), 0755);
        bool bad = false;
        auto fail = [&](std::string const& m) {
            bad = true;
            Violation(name, m, ctx().replay);
        };
        auto model = sys->Init(dir);
        std::stringstream ss(ctx().replay);
        std::string tok;
        while (not bad and std::getline(ss, tok, ',')) {
            if (tok.empty()) {
                continue;
            }
            auto op = std::stoi(tok);
            std::fprintf(stderr, "op %s\n", sys->OpName(op).c_str());
            sys->Apply(op, dir, &model, fail);
            sys->Canonical(dir, model, fail);
        }
        return;
    }
    std::vector<St> level;
    std::unordered_set<std::string> seen;
    long transitions = 0;
    size_t states = 0;
    int depth = 0;
    bool complete = false;
    std::set<std::string> keys;
    std::vector<std::string> samples;
    int nviol = 0;
    size_t nw = (size_t)std::max(1L, sysconf(_SC_NPROCESSORS_ONLN));
    auto names = [&](std::string const& path) {
        std::stringstream ss(path);
        std::string tok, r;
        while (std::getline(ss, tok, ',')) {
            if (not tok.empty()) {
                r += (r.empty() ? "" : "; ") + sys->OpName(std::stoi(tok));
            }
        }
        return r;
    };
    // level -1: the initial state, produced by a worker as well
    level.push_back({"", "", ""});
    bool init = true;
    while (not level.empty()) {
        auto* next = static_cast<std::atomic<long>*>(
            mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        std::vector<pid_t> pids;
        std::vector<int> fds;
        auto const n = std::min(nw, level.size());
        for (size_t w = 0; w < n; ++w) {
            int fd = memfd_create("level", 0);
            pid_t pid = fork();
            if (pid == 0) {
                auto s = make();
                std::string const dir = base + "/w" + std::to_string(w);
                std::unordered_set<std::string> mine;
                Json out = Json::array();
                Json viols = Json::array();
                long tr = 0;
                int cnt = 0;
                while (true) {
                    long i = (*next)++;
                    if (i >= (long)level.size()) {
                        break;
                    }
                    auto const& st = level[(size_t)i];
                    for (int op = 0; op < (init ? 1 : s->Ops()); ++op) {
                        ::alarm(300);
                        RemoveTree(dir);
                        auto model = st.model;
                        auto path = init ? std::string{} : st.path + std::to_string(op) + ",";
                        bool bad = false;
                        auto fail = [&](std::string const& m) {
                            bad = true;
                            viols.push_back({m, path, init ? "" : s->OpName(op)});
                        };
                        if (init) {
                            ::mkdir(dir.c_str(), 0755);
                            model = s->Init(dir);
                        }
                        else {
                            CopyTree(st.snap, dir);
                            if (not s->Apply(op, dir, &model, fail)) {
                                continue;
                            }
                        }
                        ++tr;
                        std::string key;
                        if (not bad) {
                            key = s->Canonical(dir, model, fail);
                        }
                        if (bad or not mine.insert(key).second) {
                            continue;  // nothing is explored behind a violation
                        }
                        auto snap = base + (init ? "/i" : "/s") + std::to_string(depth) + "_" + std::to_string(w) + "_" + std::to_string(cnt++);
                        ::rename(dir.c_str(), snap.c_str());
                        out.push_back({key, path, model, snap});
                    }
                }
                RemoveTree(dir);
                WriteAll(fd, Json{{"s", out}, {"v", viols}, {"t", tr}}.dump(
                                 -1, ' ', false, Json::error_handler_t::replace));
                _exit(0);
            }
            pids.push_back(pid);
            fds.push_back(fd);
        }
        std::vector<St> nextlevel;
        for (size_t w = 0; w < n; ++w) {
            int st = 0;
            waitpid(pids[w], &st, 0);
            std::string all;
            char buf[65536];
            ::lseek(fds[w], 0, SEEK_SET);
            ssize_t k;
            while ((k = ::read(fds[w], buf, sizeof buf)) > 0) {
                all.append(buf, (size_t)k);
            }
            ::close(fds[w]);
            auto j = Json::parse(all, nullptr, false);
            if (st != 0 or j.is_discarded()) {
                Violation(name, "the program under test ended abnormally (status " + std::to_string(st) + ") at depth " + std::to_string(depth), "");
                ++nviol;
                continue;
            }
            transitions += j["t"].get<long>();
            for (auto const& v : j["v"]) {
                ++nviol;
                auto m = v[0].get<std::string>();
                if (keys.insert(m.substr(0, 60)).second and keys.size() < 12) {
                    Violation(name, m + " | operations: " + names(v[1]), v[1]);
                }
            }
            for (auto const& s : j["s"]) {
                auto snap = s[3].get<std::string>();
                if (not seen.insert(s[0].get<std::string>()).second) {
                    RemoveTree(snap);
                    continue;
                }
                nextlevel.push_back({s[1], s[2], snap});
            }
        }
        munmap(next, 4096);
        for (auto const& s : level) {
            if (not s.snap.empty()) {
                RemoveTree(s.snap);
            }
        }
        if (init) {
            transitions = 0;
        }
        if (not nextlevel.empty() and samples.size() < 3) {
            samples.push_back(names(nextlevel[nextlevel.size() / 2].path));
        }
        states += nextlevel.size();
        level = std::move(nextlevel);
        if (not init) {
            ++depth;
        }
        init = false;
        if (level.empty()) {
            complete = true;
            break;
        }
        if (max_depth >= 0 and depth >= max_depth) {
            complete = true;  // within the bound on the length
            break;
        }
        if (states > max_states) {
            break;
        }
        if (nviol > 0) {
            break;
        }
    }
    bool const fix = level.empty();
    for (auto const& s : level) {
        RemoveTree(s.snap);
    }
    RemoveTree(base);
    double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    Json part{{"name", name}, {"kind", "states"}, {"states", states}, {"transitions", transitions},
              {"depth", depth}, {"fixpoint", fix}, {"exhaustive", complete},
              {"rule", rule + (fix ? "; all reachable states" : "; sequences up to length " + std::to_string(depth))},
              {"samples", samples}, {"seconds", s}, {"evaluations", transitions},
              {"nontrivial", transitions}, {"outcomes", states}};
    ctx().result["parts"].push_back(part);
    std::fprintf(stderr, "[%s] %zu states, %ld transitions, depth %d, %s, %.1fs, %d violation(s)\n", name.c_str(),
                 states, transitions, depth, fix ? "fixpoint" : complete ? "depth bound" : "CAPPED", s, nviol);
}
}  // namespace ex
#endif
