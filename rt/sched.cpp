// See sched.hpp. This file is never compiled with instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt/sched.hpp"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cxxabi.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <mutex>
#include <unordered_map>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
extern char __executable_start;
extern char etext;
}

namespace {
using u64 = uint64_t;
using u32 = uint32_t;

constexpr int kMaxThreads = 48;
constexpr int kMaxPoints = 60000;
constexpr int kMaxAlts = 24;
constexpr int kMaxPrefix = 120;

inline u64 mix(u64 x) {
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdULL;
    x ^= x >> 33;
    x *= 0xc4ceb9fe1a85ec53ULL;
    x ^= x >> 33;
    return x;
}
inline u64 hc(u64 a, u64 b) { return mix(a * 0x9E3779B97F4A7C15ULL + b); }

enum Status {
    kRunning = 0,
    kOk = 1,
    kFail = 2,
    kPruned = 3,
    kCrashed = 4,   // injected crash
    kDiverged = 5,
    kHorizon = 6,
    kDeadlock = 7,
    kOverflow = 8,
};

struct Dev {
    uint16_t idx_hi;  // point index = idx_hi<<16|idx_lo
    uint16_t idx_lo;
    uint16_t alt;
    uint16_t pad;
};
struct Prefix {
    u32 len;    // number of points that are determined
    u32 ndev;
    Dev dev[kMaxPrefix];
};

struct PointRec {
    uint8_t n;
    uint8_t chosen;
    uint8_t used;             // deviations used before this point
    uint8_t cost[kMaxAlts];
};

struct ExecShm {  // one per worker
    Prefix prefix;
    int status;
    int bound;
    u32 npoints;
    u64 transitions;
    u64 newstates;
    long fsops;
    int hand;       // a forked child handed its counters back
    u32 h_pt, h_devpos;
    int h_used;
    u64 h_hbsum, h_steps, h_fs_h, h_fs_r, h_hb;
    long h_fsops;
    int expand_to;  // alternatives of points < expand_to belong to us
    char msg[4096];
    char obs[2048];
    PointRec pts[kMaxPoints];
};

struct QShm {
    std::atomic<int> lock;
    std::atomic<int> busy;
    std::atomic<int> stop;
    std::atomic<u64> top;
    std::atomic<long> execs, pruned, states, transitions, crashes, maxpts, overflow;
    std::atomic<int> violated;
    char msg[4096];
    Prefix viol;
    Prefix stack[1];  // really kStack
};
constexpr u64 kStack = 1u << 20;

// ---- visited set
struct Visited {
    std::atomic<u64>* tab;
    u64 mask;
};
Visited g_vis{};
bool vis_insert(u64 k) {  // true: was new
    if (k == 0) {
        k = 1;
    }
    u64 i = mix(k) & g_vis.mask;
    for (int probe = 0; probe < 4096; ++probe) {
        u64 v = g_vis.tab[i].load(std::memory_order_relaxed);
        if (v == k) {
            return false;
        }
        if (v == 0) {
            u64 e = 0;
            if (g_vis.tab[i].compare_exchange_strong(e, k)) {
                return true;
            }
            if (e == k) {
                return false;
            }
        }
        i = (i + 1) & g_vis.mask;
    }
    return true;  // table full: never prune
}
bool vis_has(u64 k) {
    if (k == 0) {
        k = 1;
    }
    u64 i = mix(k) & g_vis.mask;
    for (int probe = 0; probe < 4096; ++probe) {
        u64 v = g_vis.tab[i].load(std::memory_order_relaxed);
        if (v == k) {
            return true;
        }
        if (v == 0) {
            return false;
        }
        i = (i + 1) & g_vis.mask;
    }
    return false;
}

// ---- execution state (in the child)
struct VC {
    u32 c[kMaxThreads];
    void join(VC const& o) {
        for (int i = 0; i < kMaxThreads; ++i) {
            if (o.c[i] > c[i]) {
                c[i] = o.c[i];
            }
        }
    }
};

enum Want {
    wNone,
    wMutex,
    wRd,
    wWr,
    wCond,
    wJoin,
    wFutex,
    wGuard,
    wFinished,
};

struct Thr {
    int id;
    pthread_t real;
    Want want;
    void* obj;      // object waited for
    void* mtx;      // mutex to be reacquired (cond)
    bool signalled;
    bool timed;
    bool timedout;
    bool yielded;
    bool finished;
    bool detached;
    int nopoints;
    int internal;   // > 0: inside runtime
    VC vc;
    u64 hb;         // hash of thread history
    void* (*fn)(void*);
    void* arg;
    void* ret;
    std::atomic<int> baton;
    void* stk[256];
    int sp;
};

Thr g_thr[kMaxThreads];
int g_nthr = 0;
__thread Thr* self = nullptr;
Thr* g_cur = nullptr;
bool g_active = false;   // controlled execution in progress
bool g_replay = false;
ExecShm* g_ex = nullptr;
mc::Options g_opt;
u32 g_pt = 0;            // next choice-point index
u32 g_devpos = 0;
int g_used = 0;          // deviations used
u64 g_hbsum = 0;
u64 g_steps = 0;
bool g_crashed = false;
std::string* g_obs = nullptr;
std::string g_dir;
long g_fsops = 0;
bool g_child = false;   // in a process forked by the code under test
bool g_fakepid = false;

struct Mtx {
    int owner = -1;
    int rec = 0;
    int readers = 0;
    VC vc{};
    VC rvc{};
    u64 h = 0;
};
struct Obj {
    VC vc{};
    u64 hw = 0;    // hash of last write
    u64 hr = 0;    // commutative hash of reads since
};
// All tables are allocated with the raw allocator (we are in a forked child,
// only one thread runs at a time).
template <class T>
struct RawAlloc {
    using value_type = T;
    RawAlloc() = default;
    template <class U>
    RawAlloc(RawAlloc<U> const&) {}
    T* allocate(size_t n) { return (T*)__libc_malloc(n * sizeof(T)); }
    void deallocate(T* p, size_t) { __libc_free(p); }
    template <class U>
    bool operator==(RawAlloc<U> const&) const { return true; }
};
template <class K, class V>
using Map = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>,
                               RawAlloc<std::pair<K const, V>>>;
Map<void*, Mtx>* g_mtx = nullptr;
Map<u64, Obj>* g_obj = nullptr;
Map<void*, int>* g_guard = nullptr;  // 1 = in progress

// shadow memory: open addressing, granule -> 4 entries
struct Sh {
    u32 clk;
    uint8_t tid;
    uint8_t mask;   // 0: empty
    uint8_t wr;     // 1: write
    uint8_t at;     // 1: atomic
    void* pc;
};
struct Cell {
    u64 gran;  // address >> 3, 0: unused
    uint8_t freed;
    uint8_t next;
    Sh e[4];
};
constexpr u64 kCells = 1u << 20;
Cell* g_cells = nullptr;
u64 g_ncells = 0;
u32* g_cellidx = nullptr;

Cell* cell(u64 gran, bool create) {
    u64 i = ((mix(gran >> 6) << 6) | (gran & 63)) & (kCells - 1);
    while (true) {
        if (g_cells[i].gran == gran) {
            return &g_cells[i];
        }
        if (g_cells[i].gran == 0) {
            if (not create or g_ncells > kCells * 3 / 4) {
                return nullptr;
            }
            g_cellidx[g_ncells++] = (u32)i;
            g_cells[i].gran = gran;
            return &g_cells[i];
        }
        i = (i + 1) & (kCells - 1);
    }
}

[[noreturn]] void finish(int status, char const* msg) {
    if (g_ex) {
        if (msg) {
            strncpy(g_ex->msg, msg, sizeof(g_ex->msg) - 1);
        }
        g_ex->npoints = g_pt;
        g_ex->transitions = g_steps;
        g_ex->fsops = g_fsops;
        if (g_obs) {
            strncpy(g_ex->obs, g_obs->c_str(), sizeof(g_ex->obs) - 1);
        }
        g_ex->status = status;
    }
    _exit(0);
}

void describe_pc(void* pc, char* out, size_t n) {
    Dl_info di{};
    if (dladdr(pc, &di) and di.dli_sname) {
        int st = 0;
        char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
        snprintf(out, n, "%.300s+0x%lx", st == 0 ? d : di.dli_sname,
                 (long)((char*)pc - (char*)di.dli_saddr));
    }
    else {
        snprintf(out, n, "exe+0x%lx",
                 (long)((char*)pc - (char*)&__executable_start));
    }
}

void report_mem(char const* what, void* addr, Sh const* old, bool wr, void* pc) {
    char a[400];
    char b[400] = "";
    self->internal++;
    describe_pc(pc, a, sizeof a);
    if (old) {
        describe_pc(old->pc, b, sizeof b);
    }
    char m[2000];
    snprintf(m, sizeof m, "%s: %s by thread %d at %s%s%s", what,
             wr ? "write" : "read", self->id, a,
             old ? (old->wr ? "; unordered write before at " : "; unordered read before at ") : "", b);
    char ctx[1500];
    ctx[0] = 0;
    for (int i = self->sp - 1, k = 0; i >= 0 and k < 6; --i, ++k) {
        char f[240];
        describe_pc(self->stk[i & 255], f, sizeof f);
        strncat(ctx, "\n    called at ", sizeof ctx - strlen(ctx) - 1);
        strncat(ctx, f, sizeof ctx - strlen(ctx) - 1);
    }
    strncat(m, ctx, sizeof m - strlen(m) - 1);
    (void)addr;
    finish(kFail, m);
}

void access(void* addr, unsigned size, bool wr, bool at, void* pc) {
    if (not g_active or self == nullptr or self->internal or not g_opt.races) {
        return;
    }
    u64 a = (u64)addr;
    while (size > 0) {
        u64 gran = a >> 3;
        unsigned off = a & 7;
        unsigned n = std::min(8 - off, size);
        uint8_t mask = (uint8_t)(((1u << n) - 1) << off);
        Cell* c = cell(gran, true);
        if (c != nullptr) {
            if (c->freed) {
                report_mem("use of freed memory", addr, nullptr, wr, pc);
            }
            int slot = -1;
            for (int i = 0; i < 4; ++i) {
                Sh& s = c->e[i];
                if (s.mask == 0) {
                    if (slot < 0) {
                        slot = i;
                    }
                    continue;
                }
                if ((s.mask & mask) == 0) {
                    continue;
                }
                if (s.tid == self->id) {
                    if (s.mask == mask and s.wr == wr and s.at == at) {
                        slot = i;
                        s.mask = 0;
                    }
                    else if (s.mask == mask and wr and at == s.at) {
                        slot = i;  // write supersedes own read
                        s.mask = 0;
                    }
                    continue;
                }
                bool ordered = s.clk <= self->vc.c[s.tid];
                if (not ordered) {
                    if ((wr or s.wr) and not(at and s.at)) {
                        report_mem("data race", addr, &s, wr, pc);
                    }
                }
                else if (wr and not at and (s.mask & ~mask) == 0) {
                    s.mask = 0;
                    slot = i;
                }
            }
            if (slot < 0) {
                slot = c->next++ & 3;
            }
            c->e[slot] = Sh{self->vc.c[self->id], (uint8_t)self->id, mask,
                            (uint8_t)wr, (uint8_t)at, pc};
        }
        a += n;
        size -= n;
    }
}

void clear_range(void* p, size_t n, bool freed) {
    if (n > (1u << 16)) {
        // large: only clear what exists
        u64 lo = (u64)p >> 3, hi = ((u64)p + n + 7) >> 3;
        for (u64 k = 0; k < g_ncells; ++k) {
            u64 const i = g_cellidx[k];
            if (g_cells[i].gran >= lo and g_cells[i].gran < hi) {
                memset(g_cells[i].e, 0, sizeof g_cells[i].e);
                g_cells[i].freed = freed;
            }
        }
        return;
    }
    for (u64 g = (u64)p >> 3; g < ((u64)p + n + 7) >> 3; ++g) {
        Cell* c = cell(g, false);
        if (c != nullptr) {
            memset(c->e, 0, sizeof c->e);
            c->freed = freed;
        }
        else if (freed) {
            c = cell(g, true);
            if (c != nullptr) {
                c->freed = 1;
            }
        }
    }
}

Obj& obj(void* p) { return (*g_obj)[(u64)p >> 3]; }
Mtx& mtx(void* p) { return (*g_mtx)[p]; }

// ---- events for the happens-before hash
void event(u64 kind, u64* chain, bool rdonly = false, u64* reads = nullptr) {
    u64 h = hc(self->hb, kind);
    h = hc(h, (u64)self->id);
    if (chain) {
        h = hc(h, *chain);
        if (not rdonly) {
            if (reads) {
                h = hc(h, *reads);
                *reads = 0;
            }
            *chain = h;
        }
        else if (reads) {
            *reads += h;
        }
    }
    self->hb = h;
    g_hbsum += h;
}

bool cond_ready(Thr& t) {
    return t.want == wCond and t.signalled and mtx(t.mtx).owner < 0;
}

bool enabled(Thr& t) {
    switch (t.want) {
        case wNone: return true;
        case wMutex: return mtx(t.obj).owner < 0 or (mtx(t.obj).owner == t.id and mtx(t.obj).rec);
        case wRd: return mtx(t.obj).owner < 0;
        case wWr: return mtx(t.obj).owner < 0 and mtx(t.obj).readers == 0;
        case wCond: return cond_ready(t);
        case wJoin: return ((Thr*)t.obj)->finished;
        case wFutex: return t.signalled;
        case wGuard: return (*g_guard)[t.obj] == 0;
        case wFinished: return false;
    }
    return false;
}


inline long raw_syscall(long nr, long a = 0, long b = 0, long c = 0, long d = 0,
                        long e = 0, long f = 0) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    if (ret < 0 and ret > -4096) {
        errno = (int)-ret;
        return -1;
    }
    return ret;
}

void futex_wait(std::atomic<int>* a) {
    while (a->load() == 0) {
        raw_syscall(SYS_futex, (long)a, FUTEX_WAIT, 0);
    }
    a->store(0);
}
void futex_wake(std::atomic<int>* a) {
    a->store(1);
    raw_syscall(SYS_futex, (long)a, FUTEX_WAKE, 1);
}

// Resolves a choice among n alternatives with given costs.
int choose(int n, uint8_t const* cost, u64 extra) {
    if (n <= 1) {
        return 0;
    }
    u32 i = g_pt;
    if (i >= kMaxPoints) {
        finish(kOverflow, "too many choice points");
    }
    int chosen = 0;
    Prefix& p = g_ex->prefix;
    if (i < p.len) {
        if (g_devpos < p.ndev and
            (((u32)p.dev[g_devpos].idx_hi << 16) | p.dev[g_devpos].idx_lo) == i) {
            chosen = p.dev[g_devpos].alt;
            ++g_devpos;
        }
        if (chosen >= n) {
            finish(kDiverged, "schedule prefix not reproducible");
        }
    }
    else if (g_opt.prune and not g_replay) {
        u64 k = hc(g_hbsum, extra);
        for (int u = 0; u < g_used; ++u) {
            if (vis_has(hc(k, u))) {
                finish(kPruned, nullptr);
            }
        }
        if (not vis_insert(hc(k, g_used))) {
            finish(kPruned, nullptr);
        }
        ++g_ex->newstates;
    }
    PointRec& r = g_ex->pts[i];
    r.n = (uint8_t)n;
    r.chosen = (uint8_t)chosen;
    r.used = (uint8_t)g_used;
    memcpy(r.cost, cost, n);
    g_used += cost[chosen];
    ++g_pt;
    return chosen;
}

void timeout_thread(Thr& t) {
    t.signalled = true;
    t.timedout = true;
}

// Picks who runs next; called by the running thread, whose wish is in want.
bool g_fs_point = false;
void schedule() {
    if (++g_steps > (u64)g_opt.horizon) {
        finish(kHorizon, "no termination within the step horizon (livelock?)");
    }
    Thr* me = self;
    bool const fsp = g_fs_point;
    g_fs_point = false;
    while (true) {
        int alt[kMaxAlts];
        int kind[kMaxAlts];
        uint8_t cost[kMaxAlts];
        int n = 0;
        bool me_ok = enabled(*me) and not me->yielded;
        if (g_opt.delay and me_ok and not fsp) {
            return;
        }
        if (me->nopoints > 0 and enabled(*me)) {
            return;
        }
        if (me_ok) {
            alt[n] = me->id;
            kind[n] = 0;
            cost[n++] = 0;
        }
        int const c = me_ok ? 1 : 0;
        for (int i = 0; i < g_nthr; ++i) {
            Thr& t = g_thr[i];
            if (&t == me and me_ok) {
                continue;
            }
            if (enabled(t) and not t.yielded) {
                alt[n] = i;
                kind[n] = 0;
                cost[n++] = (uint8_t)c;
            }
        }
        if (n == 0) {  // only those who yielded
            for (int i = 0; i < g_nthr; ++i) {
                if (enabled(g_thr[i])) {
                    alt[n] = i;
                    kind[n] = 0;
                    cost[n++] = 0;
                }
            }
        }
        bool const idle = n == 0;
        for (int i = 0; i < g_nthr and n < kMaxAlts; ++i) {
            Thr& t = g_thr[i];
            if ((t.want == wCond or t.want == wFutex) and not t.signalled) {
                bool const free_ = t.want == wFutex or mtx(t.mtx).owner < 0;
                if (not free_) {
                    continue;
                }
                if (t.timed and g_opt.timeouts) {
                    alt[n] = i;
                    kind[n] = 1;
                    cost[n++] = idle ? 0 : 1;
                }
                else if (g_opt.spurious and not idle) {
                    alt[n] = i;
                    kind[n] = 2;
                    cost[n++] = 1;
                }
            }
        }
        if (n == 0) {
            char m[1500];
            int o = snprintf(m, sizeof m, "deadlock:");
            for (int i = 0; i < g_nthr; ++i) {
                Thr& t = g_thr[i];
                if (not t.finished) {
                    static char const* nm[] = {"ready", "mutex", "rdlock", "wrlock", "condition", "join", "atomic wait", "static-init", "finished"};
                    char f[200] = "?";
                    for (int s = t.sp - 1, k = 0; s >= 0 and k < 1; --s, ++k) {
                        describe_pc(t.stk[s & 255], f, sizeof f);
                    }
                    o += snprintf(m + o, sizeof m - o, " thread %d waits for %s in %.150s;", i, nm[t.want], f);
                }
            }
            finish(kDeadlock, m);
        }
        if (g_opt.delay) {
            for (int i = 0; i < n; ++i) {
                cost[i] = i > 0 ? 1 : 0;
            }
        }
        u64 extra = hc(me_ok ? me->id + 1 : 0, 77);
        for (int i = 0; i < g_nthr; ++i) {
            if (g_thr[i].yielded) {
                extra = hc(extra, 100 + i);
            }
        }
        int k = choose(n, cost, extra);
        Thr& t = g_thr[alt[k]];
        if (kind[k] == 1) {
            timeout_thread(t);
        }
        else if (kind[k] == 2) {
            t.signalled = true;
        }
        t.yielded = false;
        if (&t != me) {
            me->yielded = false;
        }
        for (int i = 0; i < g_nthr; ++i) {
            // whoever yielded becomes eligible once another thread stepped
            if (i != t.id) {
                // keep flag of threads that yielded since t's last step
            }
        }
        if (&t == me) {
            return;
        }
        g_cur = &t;
        bool fin = me->finished;
        futex_wake(&t.baton);
        if (fin) {
            return;
        }
        futex_wait(&me->baton);
        return;
    }
}

inline bool on() { return g_active and self != nullptr and self->internal == 0; }

inline bool from_exe(void* ra) {
    return (char*)ra >= &__executable_start and (char*)ra < &etext;
}

// scheduling point for an always-enabled operation
void point(void* ra = nullptr) {
    if (ra != nullptr and not from_exe(ra)) {
        return;
    }
    if (self->nopoints > 0 or g_child) {
        return;
    }
    self->want = wNone;
    schedule();
}

void fs_point() {
    g_fs_point = true;
    point();
    g_fs_point = false;
}

void clear_yields() {
    for (int i = 0; i < g_nthr; ++i) {
        if (&g_thr[i] != self) {
            g_thr[i].yielded = false;
        }
    }
}

void acquire(VC const& v) { self->vc.join(v); }
void release(VC& v) {
    v.join(self->vc);
    ++self->vc.c[self->id];
}

void do_lock(void* m, void* ra) {
    Mtx& x = mtx(m);
    if (x.owner == self->id and x.rec) {
        ++x.rec;
        return;
    }
    if (x.owner == self->id) {
        finish(kDeadlock, "deadlock: mutex locked twice by one thread");
    }
    Cell* c = g_opt.races ? cell((u64)m >> 3, false) : nullptr;
    if (c != nullptr and c->freed) {
        report_mem("lock of freed mutex", m, nullptr, true, ra);
    }
    self->want = wMutex;
    self->obj = m;
    if (not enabled(*self) or (from_exe(ra) and self->nopoints == 0)) {
        schedule();
    }
    self->want = wNone;
    Mtx& y = mtx(m);
    y.owner = self->id;
    acquire(y.vc);
    acquire(y.rvc);
    event(1, &y.h);
    clear_yields();
}
void do_unlock(void* m) {
    Mtx& x = mtx(m);
    if (x.rec > 1) {
        --x.rec;
        return;
    }
    x.owner = -1;
    release(x.vc);
    event(2, &x.h);
}

bool is_recursive(pthread_mutex_t* m) {
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}

template <class F>
F real(char const* name) {
    return (F)dlsym(RTLD_NEXT, name);
}
#define REAL(name) \
    static auto const real_##name = real<decltype(&name)>(#name)

void* trampoline(void* a) {
    Thr* t = (Thr*)a;
    self = t;
    futex_wait(&t->baton);
    // threads never really exit, so that stacks are never recycled
    event(3, nullptr);
    try {
        t->ret = t->fn(t->arg);
    } catch (abi::__forced_unwind&) {
        throw;
    } catch (std::exception const& e) {
        char m[600];
        snprintf(m, sizeof m, "uncaught exception in thread: %.500s", e.what());
        finish(kFail, m);
    } catch (...) {
        finish(kFail, "uncaught exception in thread");
    }
    event(4, nullptr);
    t->finished = true;
    t->want = wFinished;
    ++t->vc.c[t->id];
    clear_yields();
    schedule();
    // Never really finish: thread-local destructors would run uncontrolled.
    self->internal++;
    while (true) {
        pause();
    }
    return nullptr;
}

}  // namespace

// ------------------------------------------------------------ interposition
extern "C" {

int pthread_create(pthread_t* th, pthread_attr_t const* attr,
                   void* (*fn)(void*), void* arg) {
    REAL(pthread_create);
    if (not on()) {
        return real_pthread_create(th, attr, fn, arg);
    }
    if (g_nthr >= kMaxThreads) {
        finish(kOverflow, "too many threads");
    }
    point();
    Thr* t = &g_thr[g_nthr];
    new (t) Thr{};
    t->id = g_nthr;
    t->fn = fn;
    t->arg = arg;
    t->want = wNone;
    t->vc = self->vc;
    t->vc.c[t->id] = 1;
    t->hb = hc(self->hb, 9999);
    ++self->vc.c[self->id];
    event(5, nullptr);
    self->internal++;
    int r = real_pthread_create(&t->real, attr, trampoline, t);
    self->internal--;
    if (r != 0) {
        finish(kOverflow, "pthread_create failed");
    }
    *th = t->real;
    ++g_nthr;
    return 0;
}

static Thr* by_real(pthread_t p) {
    for (int i = g_nthr - 1; i >= 0; --i) {
        if (pthread_equal(g_thr[i].real, p)) {
            return &g_thr[i];
        }
    }
    return nullptr;
}

int pthread_join(pthread_t th, void** ret) {
    REAL(pthread_join);
    if (not on()) {
        return real_pthread_join(th, ret);
    }
    Thr* t = by_real(th);
    if (t == nullptr) {
        return ESRCH;
    }
    self->want = wJoin;
    self->obj = t;
    schedule();
    self->want = wNone;
    acquire(t->vc);
    event(6, nullptr);
    self->hb = hc(self->hb, t->hb);
    if (ret) {
        *ret = t->ret;
    }
    return 0;
}

int pthread_detach(pthread_t th) {
    REAL(pthread_detach);
    if (not on()) {
        return real_pthread_detach(th);
    }
    return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m) {
    REAL(pthread_mutex_lock);
    if (not on()) {
        return real_pthread_mutex_lock(m);
    }
    Mtx& x = mtx(m);
    if (is_recursive(m) and x.owner != self->id) {
        do_lock(m, __builtin_return_address(0));
        mtx(m).rec = 1;
        return 0;
    }
    do_lock(m, __builtin_return_address(0));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    REAL(pthread_mutex_trylock);
    if (not on()) {
        return real_pthread_mutex_trylock(m);
    }
    point(__builtin_return_address(0));
    Mtx& x = mtx(m);
    if (x.owner == self->id and x.rec) {
        ++x.rec;
        return 0;
    }
    if (x.owner >= 0) {
        event(7, &x.h);
        return EBUSY;
    }
    x.owner = self->id;
    x.rec = is_recursive(m) ? 1 : 0;
    acquire(x.vc);
    event(8, &x.h);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    REAL(pthread_mutex_unlock);
    if (not on()) {
        return real_pthread_mutex_unlock(m);
    }
    do_unlock(m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (on() and g_mtx) {
        g_mtx->erase(m);
    }
    return 0;
}

static int rdlock(pthread_rwlock_t* l, void* ra) {
    Cell* c = g_opt.races ? cell((u64)l >> 3, false) : nullptr;
    if (c != nullptr and c->freed) {
        report_mem("lock of freed lock", l, nullptr, true, ra);
    }
    self->want = wRd;
    self->obj = l;
    if (not enabled(*self) or (from_exe(ra) and self->nopoints == 0)) {
        schedule();
    }
    self->want = wNone;
    Mtx& x = mtx(l);
    ++x.readers;
    acquire(x.vc);
    event(10, &x.h);
    clear_yields();
    return 0;
}
static int wrlock(pthread_rwlock_t* l, void* ra) {
    Mtx& x0 = mtx(l);
    if (x0.owner == self->id) {
        finish(kDeadlock, "deadlock: lock taken twice by one thread");
    }
    self->want = wWr;
    self->obj = l;
    if (not enabled(*self) or (from_exe(ra) and self->nopoints == 0)) {
        schedule();
    }
    self->want = wNone;
    Mtx& x = mtx(l);
    x.owner = self->id;
    acquire(x.vc);
    acquire(x.rvc);
    event(11, &x.h);
    clear_yields();
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    REAL(pthread_rwlock_rdlock);
    return on() ? rdlock(l, __builtin_return_address(0)) : real_pthread_rwlock_rdlock(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    REAL(pthread_rwlock_wrlock);
    return on() ? wrlock(l, __builtin_return_address(0)) : real_pthread_rwlock_wrlock(l);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    REAL(pthread_rwlock_tryrdlock);
    if (not on()) {
        return real_pthread_rwlock_tryrdlock(l);
    }
    point(__builtin_return_address(0));
    Mtx& x = mtx(l);
    if (x.owner >= 0) {
        event(12, &x.h);
        return EBUSY;
    }
    ++x.readers;
    acquire(x.vc);
    event(13, &x.h);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    REAL(pthread_rwlock_trywrlock);
    if (not on()) {
        return real_pthread_rwlock_trywrlock(l);
    }
    point(__builtin_return_address(0));
    Mtx& x = mtx(l);
    if (x.owner >= 0 or x.readers > 0) {
        event(14, &x.h);
        return EBUSY;
    }
    x.owner = self->id;
    acquire(x.vc);
    acquire(x.rvc);
    event(15, &x.h);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    REAL(pthread_rwlock_unlock);
    if (not on()) {
        return real_pthread_rwlock_unlock(l);
    }
    Mtx& x = mtx(l);
    if (x.owner == self->id) {
        x.owner = -1;
        release(x.vc);
    }
    else {
        --x.readers;
        release(x.rvc);
    }
    event(16, &x.h);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) {
    if (on() and g_mtx) {
        g_mtx->erase(l);
    }
    return 0;
}

static int cond_wait(pthread_cond_t* cv, pthread_mutex_t* m, bool timed) {
    Obj& o = obj(cv);
    do_unlock(m);
    event(20, &o.hw);
    self->want = wCond;
    self->obj = cv;
    self->mtx = m;
    self->signalled = false;
    self->timed = timed;
    self->timedout = false;
    int np = self->nopoints;
    self->nopoints = 0;
    schedule();
    self->nopoints = np;
    self->want = wNone;
    Mtx& x = mtx(m);
    x.owner = self->id;
    acquire(x.vc);
    acquire(obj(cv).vc);
    event(self->timedout ? 21 : 22, &x.h);
    clear_yields();
    return self->timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m) {
    REAL(pthread_cond_wait);
    return on() ? cond_wait(cv, m, false) : real_pthread_cond_wait(cv, m);
}
int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* ts) {
    REAL(pthread_cond_timedwait);
    return on() ? cond_wait(cv, m, true) : real_pthread_cond_timedwait(cv, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
    REAL(pthread_cond_clockwait);
    return on() ? cond_wait(cv, m, true) : real_pthread_cond_clockwait(cv, m, c, ts);
}
static void cond_wake(pthread_cond_t* cv, bool all) {
    if (g_opt.races) {
        Cell* c = cell((u64)cv >> 3, false);
        if (c != nullptr and c->freed) {
            report_mem("notification of freed condition variable", cv, nullptr,
                       true, __builtin_return_address(0));
        }
    }
    point();
    int w[kMaxThreads];
    uint8_t cost[kMaxThreads] = {};
    int n = 0;
    for (int i = 0; i < g_nthr; ++i) {
        Thr& t = g_thr[i];
        if (t.want == wCond and t.obj == cv and not t.signalled) {
            w[n++] = i;
        }
    }
    Obj& o = obj(cv);
    release(o.vc);
    if (all) {
        for (int i = 0; i < n; ++i) {
            g_thr[w[i]].signalled = true;
        }
        event(23, &o.hw);
    }
    else if (n > 0) {
        int k = n > 1 ? choose(n, cost, 5000 + self->id) : 0;
        g_thr[w[k]].signalled = true;
        event(24 + 100 * (w[k] + 1), &o.hw);
    }
    else {
        event(24, &o.hw);
    }
    clear_yields();
}
int pthread_cond_signal(pthread_cond_t* cv) {
    REAL(pthread_cond_signal);
    if (not on()) {
        return real_pthread_cond_signal(cv);
    }
    cond_wake(cv, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* cv) {
    REAL(pthread_cond_broadcast);
    if (not on()) {
        return real_pthread_cond_broadcast(cv);
    }
    cond_wake(cv, true);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* cv) {
    if (not on()) {
        return 0;
    }
    for (int i = 0; i < g_nthr; ++i) {
        if (g_thr[i].want == wCond and g_thr[i].obj == cv) {
            finish(kFail, "condition variable destroyed while waited for");
        }
    }
    return 0;
}

static void guard_wait(void* g) {
    self->want = wGuard;
    self->obj = g;
    schedule();
    self->want = wNone;
}

int pthread_once(pthread_once_t* o, void (*f)()) {
    REAL(pthread_once);
    if (not on()) {
        return real_pthread_once(o, f);
    }
    if (*(int volatile*)o == 2) {
        acquire(obj(o).vc);
        return 0;
    }
    while ((*g_guard)[o] == 1) {
        guard_wait(o);
    }
    if (*(int volatile*)o != 2) {
        (*g_guard)[o] = 1;
        f();
        *(int volatile*)o = 2;
        (*g_guard)[o] = 0;
        release(obj(o).vc);
        event(30, &obj(o).hw);
    }
    else {
        acquire(obj(o).vc);
        event(31, &obj(o).hw);
    }
    return 0;
}

int __cxa_guard_acquire(long long* g) {
    if (*(char volatile*)g) {
        return 0;
    }
    if (not on()) {
        if (((char*)g)[1]) {
            abort();  // recursive static initialization
        }
        ((char*)g)[1] = 1;
        return 1;
    }
    while ((*g_guard)[g] == 1) {
        guard_wait(g);
    }
    if (*(char volatile*)g) {
        acquire(obj(g).vc);
        event(32, &obj(g).hw);
        return 0;
    }
    (*g_guard)[g] = 1;
    return 1;
}
void __cxa_guard_release(long long* g) {
    *(char volatile*)g = 1;
    ((char*)g)[1] = 0;
    if (on()) {
        (*g_guard)[g] = 0;
        release(obj(g).vc);
        event(33, &obj(g).hw);
    }
}
void __cxa_guard_abort(long long* g) {
    ((char*)g)[1] = 0;
    if (on()) {
        (*g_guard)[g] = 0;
        event(34, &obj(g).hw);
    }
}

static int do_yield() {
    if (self->nopoints > 0) {
        return 0;
    }
    self->yielded = true;
    self->want = wNone;
    schedule();
    self->yielded = false;
    return 0;
}
int sched_yield() {
    REAL(sched_yield);
    return on() ? do_yield() : real_sched_yield();
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    REAL(nanosleep);
    return on() ? do_yield() : real_nanosleep(a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) {
    REAL(clock_nanosleep);
    return on() ? do_yield() : real_clock_nanosleep(c, f, a, b);
}
int usleep(useconds_t u) {
    REAL(usleep);
    return on() ? do_yield() : real_usleep(u);
}

long syscall(long nr, ...) noexcept {
    va_list ap;
    va_start(ap, nr);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long),
         d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex and on() and
        from_exe(__builtin_return_address(0)) and self->internal == 0 and
        ((b & 127) == FUTEX_WAIT or (b & 127) == FUTEX_WAKE or (b & 127) == FUTEX_WAIT_BITSET)) {
        {
            if ((b & 127) == FUTEX_WAKE) {
                point();
                int n = 0;
                for (int i = 0; i < g_nthr and n < c; ++i) {
                    Thr& t = g_thr[i];
                    if (t.want == wFutex and t.obj == (void*)a and not t.signalled) {
                        t.signalled = true;
                        ++n;
                    }
                }
                event(41, &obj((void*)a).hw);
                clear_yields();
                return n;
            }
            point();
            if (*(int volatile*)a != (int)c) {
                event(42, &obj((void*)a).hw);
                errno = EAGAIN;
                return -1;
            }
            event(43, &obj((void*)a).hw);
            self->want = wFutex;
            self->obj = (void*)a;
            self->signalled = false;
            self->timed = d != 0;
            self->timedout = false;
            schedule();
            self->want = wNone;
            event(44, &obj((void*)a).hw);
            return 0;
        }
    }
    return raw_syscall(nr, a, b, c, d, e, f);
}

void free(void* p) {
    if (p != nullptr and on() and g_opt.races) {
        size_t n = malloc_usable_size(p);
        clear_range(p, n, true);
        for (u64 g = (u64)p >> 3; n <= 256 and g < ((u64)p + n) >> 3; ++g) {
            g_obj->erase(g);
        }
        return;  // quarantined: memory is never reused in an execution
    }
    __libc_free(p);
}

// ------------------------------------------------------------ tsan interface
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
    if (self) {
        self->stk[self->sp++ & 255] = pc;
    }
}
void __tsan_func_exit() {
    if (self) {
        --self->sp;
    }
}
#define RA __builtin_return_address(0)
#define RW(n)                                                                  \
    void __tsan_read##n(void* a) { access(a, n, false, false, RA); }           \
    void __tsan_write##n(void* a) { access(a, n, true, false, RA); }           \
    void __tsan_unaligned_read##n(void* a) { access(a, n, false, false, RA); } \
    void __tsan_unaligned_write##n(void* a) { access(a, n, true, false, RA); } \
    void __tsan_volatile_read##n(void* a) { access(a, n, false, true, RA); }   \
    void __tsan_volatile_write##n(void* a) { access(a, n, true, true, RA); }   \
    void __tsan_unaligned_volatile_read##n(void* a) {                          \
        access(a, n, false, true, RA);                                         \
    }                                                                          \
    void __tsan_unaligned_volatile_write##n(void* a) {                         \
        access(a, n, true, true, RA);                                          \
    }                                                                          \
    void __tsan_read_write##n(void* a) { access(a, n, true, false, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { access(a, n, false, false, RA); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, true, false, RA); }
void __tsan_vptr_update(void** a, void* v) {
    if (*a != v) {
        access(a, 8, true, false, RA);
    }
}
void __tsan_vptr_read(void** a) { access(a, 8, false, false, RA); }

static inline bool acq(int mo) { return mo == 1 or mo == 2 or mo == 4 or mo == 5; }
static inline bool rel(int mo) { return mo == 3 or mo == 4 or mo == 5; }

// kind: 0 load, 1 store, 2 rmw
static bool atomic_pre(void* a, unsigned n, int kind, void* pc) {
    if (not on()) {
        return false;
    }
    access(a, n, kind != 0, true, pc);
    if (g_opt.atomic_points) {
        point();
    }
    return true;
}
static void atomic_post(void* a, int kind, int mo) {
    Obj& o = obj(a);
    if (kind == 0) {
        if (acq(mo)) {
            acquire(o.vc);
        }
        event(50, &o.hw, true, &o.hr);
        return;
    }
    if (kind == 2) {
        if (acq(mo)) {
            acquire(o.vc);
        }
        if (rel(mo)) {
            release(o.vc);
        }
    }
    else {
        if (rel(mo)) {
            o.vc = self->vc;
            ++self->vc.c[self->id];
        }
        else {
            memset(&o.vc, 0, sizeof o.vc);
        }
    }
    event(51, &o.hw, false, &o.hr);
    clear_yields();
}

#define AT(bits, T)                                                            \
    T __tsan_atomic##bits##_load(T const volatile* a, int mo) {                \
        bool s = atomic_pre((void*)a, sizeof(T), 0, RA);                       \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                            \
        if (s) atomic_post((void*)a, 0, mo);                                   \
        return v;                                                              \
    }                                                                          \
    void __tsan_atomic##bits##_store(T volatile* a, T v, int mo) {             \
        bool s = atomic_pre((void*)a, sizeof(T), 1, RA);                       \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                              \
        if (s) atomic_post((void*)a, 1, mo);                                   \
    }                                                                          \
    T __tsan_atomic##bits##_exchange(T volatile* a, T v, int mo) {             \
        bool s = atomic_pre((void*)a, sizeof(T), 2, RA);                       \
        T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                     \
        if (s) atomic_post((void*)a, 2, mo);                                   \
        return r;                                                              \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_strong(                         \
        T volatile* a, T* c, T v, int mo, int fmo) {                           \
        bool s = atomic_pre((void*)a, sizeof(T), 2, RA);                       \
        bool ok = __atomic_compare_exchange_n(                                 \
            a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);               \
        if (s) atomic_post((void*)a, ok ? 2 : 0, ok ? mo : fmo);               \
        return ok;                                                             \
    }                                                                          \
    int __tsan_atomic##bits##_compare_exchange_weak(                           \
        T volatile* a, T* c, T v, int mo, int fmo) {                           \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);\
    }                                                                          \
    T __tsan_atomic##bits##_compare_exchange_val(                              \
        T volatile* a, T c, T v, int mo, int fmo) {                            \
        T e = c;                                                               \
        __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo);      \
        return e;                                                              \
    }
#define ATOP(bits, T, op)                                                      \
    T __tsan_atomic##bits##_fetch_##op(T volatile* a, T v, int mo) {           \
        bool s = atomic_pre((void*)a, sizeof(T), 2, RA);                       \
        T r = __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);                     \
        if (s) atomic_post((void*)a, 2, mo);                                   \
        return r;                                                              \
    }
#define ATALL(bits, T)                                                         \
    AT(bits, T)                                                                \
    ATOP(bits, T, add)                                                         \
    ATOP(bits, T, sub) ATOP(bits, T, and) ATOP(bits, T, or) ATOP(bits, T, xor) \
        ATOP(bits, T, nand)
ATALL(8, uint8_t)
ATALL(16, uint16_t)
ATALL(32, uint32_t)
ATALL(64, uint64_t)

static VC g_fence{};
static u64 g_fence_h = 0;
void __tsan_atomic_thread_fence(int) {
    if (on()) {
        point();
        acquire(g_fence);
        release(g_fence);
        event(60, &g_fence_h);
    }
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"

// ------------------------------------------------------------ file system
namespace {
u64 g_fs_h = 0;
u64 g_fs_r = 0;
VC g_fs_vc{};
bool g_post_phase = false;

bool in_scratch(char const* p) {
    // Relative paths count as well; absolute ones if below the scratch dir.
    return p != nullptr and not g_dir.empty() and
           (p[0] != '/' or strncmp(p, g_dir.c_str(), g_dir.size()) == 0);
}

bool fd_in_scratch(int fd) {
    if (g_dir.empty()) {
        return false;
    }
    char ln[64];
    char b[4096];
    snprintf(ln, sizeof ln, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(ln, b, sizeof b - 1);
    if (n <= 0) {
        return false;
    }
    b[n] = 0;
    return b[0] == '/' and strncmp(b, g_dir.c_str(), g_dir.size()) == 0;
}

[[noreturn]] void crash_now() { finish(kCrashed, nullptr); }

// A forked child runs in place of its parent's thread (which waits for it);
// at its end the parent takes over its position in the schedule.
void hand_back() {
    if (not g_child or g_ex == nullptr) {
        return;
    }
    g_ex->h_pt = g_pt;
    g_ex->h_devpos = g_devpos;
    g_ex->h_used = g_used;
    g_ex->h_hbsum = g_hbsum;
    g_ex->h_steps = g_steps;
    g_ex->h_fs_h = g_fs_h;
    g_ex->h_fs_r = g_fs_r;
    g_ex->h_hb = self ? self->hb : 0;
    g_ex->h_fsops = g_fsops;
    g_ex->hand = 1;
}
void take_over() {
    if (g_ex->status != kRunning) {
        raw_syscall(SYS_exit_group, 0);
    }
    if (g_ex->hand == 0) {
        return;
    }
    g_ex->hand = 0;
    g_pt = g_ex->h_pt;
    g_devpos = g_ex->h_devpos;
    g_used = g_ex->h_used;
    g_hbsum = g_ex->h_hbsum;
    g_steps = g_ex->h_steps;
    g_fs_h = g_ex->h_fs_h;
    g_fs_r = g_ex->h_fs_r;
    self->hb = g_ex->h_hb;
    g_fsops = g_ex->h_fsops;
}

enum FsAlt { kFsOk, kFsCrash, kFsTorn, kFsErr, kFsShort, kFsKill };

// Called before a mutating call; decides its fate.
int fs_mut(bool is_write) {
    if (not on() or self->nopoints > 0) {
        return kFsOk;
    }
    if (g_opt.fs_points) {
        fs_point();
    }
    ++g_fsops;
    // the kernel orders system calls; that is no happens-before for memory
    event(70, &g_fs_h, false, &g_fs_r);
    clear_yields();
    int what[6];
    uint8_t cost[6];
    int n = 0;
    auto add = [&](int w, int c) {
        what[n] = w;
        cost[n++] = (uint8_t)c;
    };
    add(kFsOk, 0);
    if (g_opt.crash) {
        add(kFsCrash, 0);
        if (is_write and g_opt.torn) {
            add(kFsTorn, 0);
        }
    }
    if (g_opt.faults) {
        add(kFsErr, 1);
        if (is_write) {
            add(kFsShort, 1);
        }
        if (g_child) {
            add(kFsKill, 1);
        }
    }
    if (n > 1) {
        int k = choose(n, cost, 7000);
        if (what[k] == kFsCrash) {
            crash_now();
        }
        if (what[k] == kFsKill) {
            event(175, &g_fs_h, false, &g_fs_r);
            hand_back();
            raise(SIGKILL);
        }
        if (what[k] == kFsErr or what[k] == kFsShort) {
            event(75 + what[k], &g_fs_h, false, &g_fs_r);
        }
        return what[k];
    }
    return kFsOk;
}
void fs_read() {
    if (on() and g_opt.fs_points and g_opt.fs_reads and self->nopoints == 0) {
        fs_point();
        event(71, &g_fs_h, true, &g_fs_r);
    }
    else if (on()) {
        event(71, &g_fs_h, true, &g_fs_r);
    }
}
// nothing to be read, so nothing that could fail
bool fd_empty(int fd) {
    struct stat s {};
    return ::fstat(fd, &s) == 0 and S_ISREG(s.st_mode) and s.st_size == 0;
}
bool read_fails() {
    if (not on() or not g_opt.read_faults or self->nopoints > 0) {
        return false;
    }
    event(72, &g_fs_h, true, &g_fs_r);
    clear_yields();
    uint8_t const cost[2] = {0, 1};
    if (choose(2, cost, 7100) == 0) {
        return false;
    }
    event(79, &g_fs_h, false, &g_fs_r);
    return true;
}
}  // namespace

#define FSMUT(cond)                              \
    if (on() and (cond) and fs_mut(false) == kFsErr) { \
        errno = ENOSPC;                          \
        return -1;                               \
    }

extern "C" {
static bool mutating(int flags) {
    return (flags & (O_CREAT | O_TRUNC)) != 0;
}
int open(char const* p, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    if (on() and in_scratch(p)) {
        if (not mutating(flags)) {
            fs_read();
            if (read_fails()) {
                errno = EMFILE;
                return -1;
            }
        }
        else if (fs_mut(false) == kFsErr) {
            errno = ENOSPC;
            return -1;
        }
    }
    return (int)syscall(SYS_openat, AT_FDCWD, p, flags | O_LARGEFILE, m);
}
int open64(char const* p, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    if (on() and in_scratch(p)) {
        if (not mutating(flags)) {
            fs_read();
            if (read_fails()) {
                errno = EMFILE;
                return -1;
            }
        }
        else if (fs_mut(false) == kFsErr) {
            errno = ENOSPC;
            return -1;
        }
    }
    return (int)syscall(SYS_openat, AT_FDCWD, p, flags | O_LARGEFILE, m);
}
int openat(int fd, char const* p, int flags, ...) {
    mode_t m = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        m = va_arg(ap, mode_t);
        va_end(ap);
    }
    if (on() and in_scratch(p)) {
        if (not mutating(flags)) {
            fs_read();
            if (read_fails()) {
                errno = EMFILE;
                return -1;
            }
        }
        else if (fs_mut(false) == kFsErr) {
            errno = ENOSPC;
            return -1;
        }
    }
    return (int)syscall(SYS_openat, fd, p, flags, m);
}
FILE* fopen(char const* p, char const* mode) {
    REAL(fopen);
    if (on() and in_scratch(p)) {
        if (mode[0] == 'r') {
            fs_read();
            if (read_fails()) {
                errno = EMFILE;
                return nullptr;
            }
        }
        else if (fs_mut(false) == kFsErr) {
            errno = ENOSPC;
            return nullptr;
        }
    }
    return real_fopen(p, mode);
}
FILE* fopen64(char const* p, char const* mode) {
    REAL(fopen64);
    if (on() and in_scratch(p)) {
        if (mode[0] == 'r') {
            fs_read();
            if (read_fails()) {
                errno = EMFILE;
                return nullptr;
            }
        }
        else if (fs_mut(false) == kFsErr) {
            errno = ENOSPC;
            return nullptr;
        }
    }
    return real_fopen64(p, mode);
}
size_t fwrite(void const* b, size_t s, size_t n, FILE* f) {
    REAL(fwrite);
    if (on() and f != stdout and f != stderr and fd_in_scratch(fileno(f))) {
        int const k = fs_mut(true);
        if (k == kFsTorn) {
            fflush(f);
            (void)!::syscall(SYS_write, fileno(f), b, s * n / 2);
            crash_now();
        }
        if (k == kFsErr) {
            errno = ENOSPC;
            return 0;
        }
    }
    return real_fwrite(b, s, n, f);
}
int fclose(FILE* f) {
    REAL(fclose);
    if (on() and f != stdout and f != stderr and fileno(f) >= 0 and
        (fcntl(fileno(f), F_GETFL) & O_ACCMODE) != O_RDONLY and
        fd_in_scratch(fileno(f))) {
        (void)fs_mut(false);
    }
    return real_fclose(f);
}
ssize_t read(int fd, void* b, size_t n) {
    if (on() and g_opt.read_faults and fd > 2 and fd_in_scratch(fd) and not fd_empty(fd) and read_fails()) {
        errno = EIO;
        return -1;
    }
    return ::syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, void const* b, size_t n) {
    if (on() and fd > 2 and fd_in_scratch(fd)) {
        int const k = fs_mut(true);
        if (k == kFsTorn) {
            (void)!::syscall(SYS_write, fd, b, n / 2);
            crash_now();
        }
        if (k == kFsErr) {
            errno = ENOSPC;
            return -1;
        }
        if (k == kFsShort and n > 1) {
            return ::syscall(SYS_write, fd, b, n / 2);
        }
    }
    return ::syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
    if (on() and fd > 2 and fd_in_scratch(fd)) {
        int const k = fs_mut(true);
        if (k == kFsTorn) {
            (void)!::syscall(SYS_writev, fd, v, n / 2);
            crash_now();
        }
        if (k == kFsErr) {
            errno = ENOSPC;
            return -1;
        }
        if (k == kFsShort and n > 1) {
            return ::syscall(SYS_writev, fd, v, n / 2);
        }
    }
    return ::syscall(SYS_writev, fd, v, n);
}
ssize_t sendfile(int o, int i, off_t* off, size_t n) {
    if (on() and fd_in_scratch(o)) {
        int const k = fs_mut(true);
        if (k == kFsTorn) {
            (void)!::syscall(SYS_sendfile, o, i, off, n / 2);
            crash_now();
        }
        if (k == kFsErr) {
            errno = ENOSPC;
            return -1;
        }
        if (k == kFsShort and n > 1) {
            return ::syscall(SYS_sendfile, o, i, off, n / 2);
        }
    }
    return ::syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t* off, size_t n) {
    return sendfile(o, i, (off_t*)off, n);
}
ssize_t copy_file_range(int i, off64_t* io, int o, off64_t* oo, size_t n, unsigned fl) {
    if (on() and fd_in_scratch(o)) {
        int const k = fs_mut(true);
        if (k == kFsTorn) {
            (void)!::syscall(SYS_copy_file_range, i, io, o, oo, n / 2, fl);
            crash_now();
        }
        if (k == kFsErr) {
            errno = ENOSPC;
            return -1;
        }
        if (k == kFsShort and n > 1) {
            return ::syscall(SYS_copy_file_range, i, io, o, oo, n / 2, fl);
        }
    }
    return ::syscall(SYS_copy_file_range, i, io, o, oo, n, fl);
}
#define W2(name, nr, ...)
int rename(char const* a, char const* b) noexcept {
    FSMUT(in_scratch(a) or in_scratch(b));
    return (int)syscall(SYS_rename, a, b);
}
int renameat(int x, char const* a, int y, char const* b) noexcept {
    FSMUT(in_scratch(a) or in_scratch(b));
    return (int)syscall(SYS_renameat, x, a, y, b);
}
int link(char const* a, char const* b) noexcept {
    FSMUT(in_scratch(a) or in_scratch(b));
    return (int)syscall(SYS_link, a, b);
}
int linkat(int x, char const* a, int y, char const* b, int f) noexcept {
    FSMUT(in_scratch(b));
    return (int)syscall(SYS_linkat, x, a, y, b, f);
}
int symlink(char const* a, char const* b) noexcept {
    FSMUT(in_scratch(b));
    return (int)syscall(SYS_symlink, a, b);
}
int unlink(char const* a) noexcept {
    FSMUT(in_scratch(a));
    return (int)syscall(SYS_unlink, a);
}
int unlinkat(int x, char const* a, int f) noexcept {
    FSMUT(in_scratch(a));
    return (int)syscall(SYS_unlinkat, x, a, f);
}
int remove(char const* a) noexcept {
    FSMUT(in_scratch(a));
    long r = syscall(SYS_unlink, a);
    if (r != 0 and (errno == EISDIR or errno == EPERM)) {
        r = syscall(SYS_rmdir, a);
    }
    return (int)r;
}
int mkdir(char const* a, mode_t m) noexcept {
    FSMUT(in_scratch(a));
    return (int)syscall(SYS_mkdir, a, m);
}
int mkdirat(int x, char const* a, mode_t m) noexcept {
    FSMUT(in_scratch(a));
    return (int)syscall(SYS_mkdirat, x, a, m);
}
int rmdir(char const* a) noexcept {
    FSMUT(in_scratch(a));
    return (int)syscall(SYS_rmdir, a);
}
int chmod(char const* a, mode_t m) noexcept {
    FSMUT(in_scratch(a));
    return (int)syscall(SYS_chmod, a, m);
}
int fchmod(int fd, mode_t m) noexcept {
    FSMUT(fd_in_scratch(fd));
    return (int)syscall(SYS_fchmod, fd, m);
}
int fchmodat(int fd, char const* a, mode_t m, int fl) noexcept {
    FSMUT(in_scratch(a));
    if (fl != 0) {
        REAL(fchmodat);
        return real_fchmodat(fd, a, m, fl);
    }
    return (int)syscall(SYS_fchmodat, fd, a, m);
}
int utimensat(int fd, char const* a, const struct timespec ts[2], int fl) noexcept {
    FSMUT(a == nullptr or in_scratch(a));
    return (int)syscall(SYS_utimensat, fd, a, ts, fl);
}
int truncate(char const* a, off_t l) noexcept {
    FSMUT(in_scratch(a));
    return (int)syscall(SYS_truncate, a, l);
}
int ftruncate(int fd, off_t l) noexcept {
    FSMUT(fd_in_scratch(fd));
    return (int)syscall(SYS_ftruncate, fd, l);
}
char* mkdtemp(char* t) noexcept {
    REAL(mkdtemp);
    if (on() and in_scratch(t) and fs_mut(false) == kFsErr) {
        errno = ENOSPC;
        return nullptr;
    }
    return real_mkdtemp(t);
}
int mkstemp(char* t) {
    REAL(mkstemp);
    FSMUT(in_scratch(t));
    return real_mkstemp(t);
}
int stat(char const* p, struct stat* s) noexcept {
    if (on() and in_scratch(p)) {
        fs_read();
    }
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, 0);
}
int lstat(char const* p, struct stat* s) noexcept {
    if (on() and in_scratch(p)) {
        fs_read();
    }
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW);
}
// ---- processes forked by the code under test
pid_t fork() noexcept {
    REAL(fork);
    if (not on()) {
        return real_fork();
    }
    g_ex->hand = 0;
    pid_t p = real_fork();
    if (p == 0) {
        g_child = true;
    }
    return p;
}
pid_t waitpid(pid_t p, int* st, int fl) {
    REAL(waitpid);
    pid_t r = real_waitpid(p, st, fl);
    if (on() and r > 0) {
        take_over();
    }
    return r;
}
void _exit(int c) {
    if (g_child and on()) {
        hand_back();
    }
    while (true) {
        raw_syscall(SYS_exit_group, c);
    }
}
void _Exit(int c) noexcept { _exit(c); }
int execve(char const* f, char* const a[], char* const e[]) noexcept {
    REAL(execve);
    hand_back();
    return real_execve(f, a, e);
}
int execvp(char const* f, char* const a[]) noexcept {
    REAL(execvp);
    hand_back();
    return real_execvp(f, a);
}
int execvpe(char const* f, char* const a[], char* const e[]) noexcept {
    REAL(execvpe);
    hand_back();
    return real_execvpe(f, a, e);
}
pid_t getpid() noexcept {
    return g_fakepid ? 4242 : (pid_t)raw_syscall(SYS_getpid);
}
// Advisory locks block: model them by retrying without blocking.
int flock(int fd, int op) noexcept {
    if (not on() or (op & LOCK_NB) or (op & LOCK_UN)) {
        if (on()) {
            fs_point();
            event(72, &g_fs_h, false, &g_fs_r);
            clear_yields();
        }
        return (int)syscall(SYS_flock, fd, op);
    }
    fs_point();
    while (true) {
        long r = syscall(SYS_flock, fd, op | LOCK_NB);
        event(r == 0 ? 73 : 74, &g_fs_h, false, &g_fs_r);
        if (r == 0) {
            clear_yields();
            return 0;
        }
        if (errno != EWOULDBLOCK) {
            return -1;
        }
        self->yielded = true;
        self->want = wNone;
        schedule();
        self->yielded = false;
    }
}
}  // extern "C"

// ------------------------------------------------------------ explorer
namespace mc {

[[noreturn]] void Fail(std::string const& msg) {
    if (self) {
        self->internal++;
    }
    finish(kFail, msg.c_str());
}
void Observe(std::string const& what) {
    if (g_obs) {
        if (self) {
            self->internal++;
        }
        *g_obs += what;
        if (self) {
            self->internal--;
        }
    }
}
std::string Observed() { return g_obs ? *g_obs : std::string{}; }
int Choose(int n, int cost) {
    if (not g_active) {
        return 0;
    }
    uint8_t c[kMaxAlts];
    memset(c, cost, sizeof c);
    c[0] = 0;
    int k = choose(n, c, 8000 + self->id);
    event(80 + 100 * (k + 1), nullptr);
    return k;
}
void Point() {
    if (on()) {
        fs_point();
    }
}
NoPoints::NoPoints() {
    if (g_active and self) {
        self->nopoints++;
    }
}
NoPoints::~NoPoints() {
    if (g_active and self) {
        self->nopoints--;
    }
}
bool Active() { return g_active; }
long FsOps() { return g_fsops; }

namespace {
template <class T>
T* shm(size_t n = sizeof(T)) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(2);
    }
    return (T*)p;
}

void rmrf(std::string const& d) {
    if (d.size() < 5) {
        return;
    }
    DIR* dp = opendir(d.c_str());
    if (dp) {
        while (auto* e = readdir(dp)) {
            std::string n = e->d_name;
            if (n == "." or n == "..") {
                continue;
            }
            std::string p = d + "/" + n;
            struct stat st {};
            if (::lstat(p.c_str(), &st) == 0 and S_ISDIR(st.st_mode)) {
                ::chmod(p.c_str(), 0700);
                rmrf(p);
            }
            else {
                ::unlink(p.c_str());
            }
        }
        closedir(dp);
    }
    ::rmdir(d.c_str());
}

void child_main(ExecShm* ex, Body const& body, Options const& opt,
                std::string const& dir, bool replay) {
    g_ex = ex;
    g_opt = opt;
    g_opt.bound = ex->bound;
    g_replay = replay;
    g_fakepid = true;
    g_dir = dir;
    g_obs = new std::string;
    g_mtx = new Map<void*, Mtx>;
    g_obj = new Map<u64, Obj>;
    g_guard = new Map<void*, int>;
    g_cells = (Cell*)mmap(nullptr, kCells * sizeof(Cell), PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_cellidx = (u32*)mmap(nullptr, kCells * sizeof(u32), PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    new (&g_thr[0]) Thr{};
    g_thr[0].id = 0;
    g_thr[0].real = pthread_self();
    g_thr[0].vc.c[0] = 1;
    g_nthr = 1;
    self = &g_thr[0];
    g_cur = self;
    g_active = true;
    try {
        body(dir);
    } catch (std::exception const& e) {
        g_active = false;
        Fail(std::string("uncaught exception: ") + e.what());
    } catch (...) {
        g_active = false;
        Fail("uncaught exception");
    }
    self->internal++;
    for (int i = 1; i < g_nthr; ++i) {
        if (not g_thr[i].finished) {
            finish(kFail, "threads left running at the end");
        }
    }
    finish(kOk, nullptr);
}

void post_main(ExecShm* ex, Post const& post, std::string const& dir, bool crashed) {
    g_ex = ex;
    g_fakepid = true;
    g_obs = new std::string(ex->obs);
    g_pt = ex->npoints;
    g_steps = ex->transitions;
    g_fsops = ex->fsops;
    try {
        post(dir, crashed);
    } catch (std::exception const& e) {
        Fail(std::string("uncaught exception after the run: ") + e.what());
    } catch (...) {
        Fail("uncaught exception after the run");
    }
    finish(crashed ? kCrashed : kOk, nullptr);
}

// waits with timeout; returns false on timeout
bool wait_child(pid_t pid, int timeout_s, int* st) {
    auto const end = std::chrono::steady_clock::now() + std::chrono::seconds(timeout_s);
    // fast path: blocking wait with an alarm-free approach: poll with backoff
    int us = 20;
    while (true) {
        pid_t r = waitpid(pid, st, WNOHANG);
        if (r == pid) {
            return true;
        }
        if (std::chrono::steady_clock::now() > end) {
            kill(pid, SIGKILL);
            waitpid(pid, st, 0);
            return false;
        }
        struct timespec ts {
            0, us * 1000
        };
        ::syscall(SYS_nanosleep, &ts, nullptr);
        if (us < 500) {
            us = us * 3 / 2;
        }
    }
}

// One execution; result in ex. Returns the status.
int run_one(ExecShm* ex, Body const& body, Options const& opt,
            Post const& post, std::string const& dir, bool replay) {
    ex->status = kRunning;
    ex->npoints = 0;
    ex->transitions = 0;
    ex->newstates = 0;
    ex->fsops = 0;
    ex->hand = 0;
    ex->msg[0] = 0;
    ex->obs[0] = 0;
    if (not dir.empty()) {
        rmrf(dir);
        ::mkdir(dir.c_str(), 0755);
    }
    pid_t pid = fork();
    if (pid == 0) {
        // the child of a controlled run must not outlive its worker
        child_main(ex, body, opt, dir, replay);
        _exit(0);
    }
    int st = 0;
    if (not wait_child(pid, opt.timeout_s, &st)) {
        if (ex->status == kRunning) {
            snprintf(ex->msg, sizeof ex->msg, "execution exceeded %d s (blocked outside the scheduler or endless loop)", opt.timeout_s);
            ex->status = kFail;
        }
    }
    else if (ex->status == kRunning) {
        if (WIFSIGNALED(st)) {
            snprintf(ex->msg, sizeof ex->msg, "program terminated by signal %d (%s)",
                     WTERMSIG(st), strsignal(WTERMSIG(st)));
        }
        else {
            snprintf(ex->msg, sizeof ex->msg, "program exited with code %d", WEXITSTATUS(st));
        }
        ex->status = kFail;
    }
    if (post and (ex->status == kOk or ex->status == kCrashed)) {
        bool crashed = ex->status == kCrashed;
        ex->status = kRunning;
        pid = fork();
        if (pid == 0) {
            post_main(ex, post, dir, crashed);
            _exit(0);
        }
        if (not wait_child(pid, opt.timeout_s, &st)) {
            snprintf(ex->msg, sizeof ex->msg, "check after the run exceeded %d s", opt.timeout_s);
            ex->status = kFail;
        }
        else if (ex->status == kRunning) {
            snprintf(ex->msg, sizeof ex->msg, "check after the run ended abnormally (status 0x%x)", st);
            ex->status = kFail;
        }
    }
    return ex->status;
}

std::string show(Prefix const& p) {
    std::string s = std::to_string(p.len) + ":";
    for (u32 i = 0; i < p.ndev; ++i) {
        u32 idx = ((u32)p.dev[i].idx_hi << 16) | p.dev[i].idx_lo;
        s += (i ? "," : "") + std::to_string(idx) + "=" + std::to_string(p.dev[i].alt);
    }
    return s;
}
Prefix parse(std::string const& s) {
    Prefix p{};
    p.len = (u32)strtoul(s.c_str(), nullptr, 10);
    size_t i = s.find(':');
    while (i != std::string::npos and i + 1 < s.size()) {
        char* e = nullptr;
        u32 idx = (u32)strtoul(s.c_str() + i + 1, &e, 10);
        u32 alt = (u32)strtoul(e + 1, &e, 10);
        p.dev[p.ndev++] = Dev{(uint16_t)(idx >> 16), (uint16_t)idx, (uint16_t)alt, 0};
        i = s.find(',', i + 1);
    }
    return p;
}
void lock(QShm* q) {
    int e = 0;
    int spins = 0;
    while (not q->lock.compare_exchange_weak(e, 1)) {
        e = 0;
        if (++spins > 200) {
            ::syscall(SYS_sched_yield);
        }
    }
}
void unlock(QShm* q) { q->lock.store(0); }

bool is_violation(int st, Options const& o) {
    return st == kFail or st == kHorizon or (st == kDeadlock and not o.deadlock_ok);
}
}  // namespace

Result Explore(Body const& body, Options const& opt, Post const& post) {
    Result res;
    auto* q = shm<QShm>(sizeof(QShm) + kStack * sizeof(Prefix));
    constexpr u64 kVis = 1u << 26;
    if (g_vis.tab != nullptr) {
        munmap(g_vis.tab, kVis * 8);
    }
    g_vis.tab = shm<std::atomic<u64>>(kVis * 8);
    g_vis.mask = kVis - 1;
    int nw = opt.workers > 0 ? opt.workers : (int)sysconf(_SC_NPROCESSORS_ONLN);
    q->top = 1;
    q->stack[0] = Prefix{};
    // outcomes: written by workers to pipes at their end -> use temp files
    auto t0 = std::chrono::steady_clock::now();
    std::vector<pid_t> pids;
    std::vector<int> fds;
    fflush(stdout);
    for (int w = 0; w < nw; ++w) {
        int pfd[2];
        if (pipe(pfd) != 0) {
            perror("pipe");
            _exit(2);
        }
        pid_t pid = fork();
        if (pid == 0) {
            for (int f : fds) {
                close(f);
            }
            close(pfd[0]);
            auto* ex = shm<ExecShm>();
            ex->bound = opt.bound;
            std::set<u64> seen;
            std::vector<std::string> outs;
            std::string dir = opt.scratch.empty() ? "" : opt.scratch + "/w" + std::to_string(w);
            while (true) {
                if (q->stop.load()) {
                    break;
                }
                lock(q);
                u64 top = q->top.load();
                if (top == 0) {
                    bool done = q->busy.load() == 0;
                    unlock(q);
                    if (done) {
                        break;
                    }
                    ::usleep(100);
                    continue;
                }
                ex->prefix = q->stack[top - 1];
                q->top = top - 1;
                ++q->busy;
                unlock(q);
                int st = run_one(ex, body, opt, post, dir, false);
                if (st == kDiverged or st == kOverflow) {
                    // never to be confused with a verdict
                    lock(q);
                    if (not q->violated) {
                        q->violated = 2;
                        snprintf(q->msg, sizeof q->msg, "INTERNAL %s", ex->msg);
                        q->viol = ex->prefix;
                    }
                    q->stop = 1;
                    unlock(q);
                    --q->busy;
                    break;
                }
                q->transitions += (long)ex->transitions;
                q->states += (long)ex->newstates;
                if (st == kPruned) {
                    ++q->pruned;
                }
                else {
                    ++q->execs;
                }
                if (st == kCrashed) {
                    ++q->crashes;
                }
                long np = ex->npoints;
                long mp = q->maxpts.load();
                while (np > mp and not q->maxpts.compare_exchange_weak(mp, np)) {
                }
                if (st == kOk or st == kCrashed) {
                    u64 h = std::hash<std::string>{}(ex->obs);
                    if (seen.insert(h).second and outs.size() < 2000) {
                        outs.emplace_back(ex->obs);
                    }
                }
                if (is_violation(st, opt)) {
                    lock(q);
                    if (not q->violated) {
                        // full schedule of this execution
                        Prefix p{};
                        p.len = ex->npoints;
                        bool fits = true;
                        for (u32 i = 0; i < ex->npoints; ++i) {
                            if (ex->pts[i].chosen) {
                                if (p.ndev >= kMaxPrefix) {
                                    fits = false;
                                    break;
                                }
                                p.dev[p.ndev++] = Dev{(uint16_t)(i >> 16), (uint16_t)i, ex->pts[i].chosen, 0};
                            }
                        }
                        q->viol = fits and ex->npoints >= ex->prefix.len ? p : ex->prefix;
                        memcpy(q->msg, ex->msg, sizeof q->msg);
                        q->violated = 1;
                    }
                    q->stop = 1;
                    unlock(q);
                    --q->busy;
                    break;
                }
                // expand
                u32 len0 = ex->prefix.len;
                Prefix base = ex->prefix;
                lock(q);
                for (u32 i = ex->npoints; i-- > len0;) {
                    PointRec& r = ex->pts[i];
                    for (int a = r.n - 1; a >= 1; --a) {
                        if (a == r.chosen or r.used + r.cost[a] > opt.bound) {
                            continue;
                        }
                        if (base.ndev >= kMaxPrefix or q->top.load() >= kStack - 2) {
                            ++q->overflow;
                            continue;
                        }
                        Prefix& p = q->stack[q->top.load()];
                        p = base;
                        p.len = i + 1;
                        p.dev[p.ndev++] = Dev{(uint16_t)(i >> 16), (uint16_t)i, (uint16_t)a, 0};
                        ++q->top;
                    }
                }
                unlock(q);
                --q->busy;
                if (opt.max_execs > 0 and q->execs + q->pruned >= opt.max_execs) {
                    q->stop = 1;
                }
                if (opt.max_seconds > 0 and
                    std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > opt.max_seconds) {
                    q->stop = 1;
                }
            }
            if (not dir.empty()) {
                rmrf(dir);
            }
            std::string all;
            for (auto const& o : outs) {
                u32 n = (u32)o.size();
                all.append((char*)&n, 4);
                all += o;
            }
            size_t off = 0;
            while (off < all.size()) {
                ssize_t k = ::syscall(SYS_write, pfd[1], all.data() + off, all.size() - off);
                if (k <= 0) {
                    break;
                }
                off += (size_t)k;
            }
            _exit(0);
        }
        close(pfd[1]);
        fds.push_back(pfd[0]);
        pids.push_back(pid);
    }
    for (int w = 0; w < nw; ++w) {
        std::string all;
        char buf[65536];
        ssize_t k;
        while ((k = read(fds[w], buf, sizeof buf)) > 0) {
            all.append(buf, (size_t)k);
        }
        close(fds[w]);
        for (size_t i = 0; i + 4 <= all.size();) {
            u32 n;
            memcpy(&n, all.data() + i, 4);
            res.outcomes.insert(all.substr(i + 4, n));
            i += 4 + n;
        }
        int st;
        waitpid(pids[w], &st, 0);
    }
    res.executions = q->execs;
    res.pruned = q->pruned;
    res.states = q->states;
    res.transitions = q->transitions;
    res.crashes = q->crashes;
    res.max_points = q->maxpts;
    res.distinct_outcomes = (int64_t)res.outcomes.size();
    res.exhaustive = q->stop == 0 and q->overflow == 0 and q->top == 0;
    if (q->violated) {
        res.message = q->msg;
        res.schedule = show(q->viol);
        if (q->violated == 2) {
            res.violated = false;
            res.exhaustive = false;
            munmap(q, sizeof(QShm) + kStack * sizeof(Prefix));
            fprintf(stderr, "explorer: %s (%s)\n", res.message.c_str(), res.schedule.c_str());
            fflush(stderr);
            exit(3);
        }
        // replay twice before reporting
        std::string m1 = Replay(body, opt, res.schedule, post);
        std::string m2 = Replay(body, opt, res.schedule, post);
        if (m1.empty() or m2.empty()) {
            fprintf(stderr, "explorer: violation not reproducible: %s [%s] / %s / %s\n",
                    res.message.c_str(), res.schedule.c_str(), m1.c_str(), m2.c_str());
            exit(3);
        }
        res.violated = true;
    }
    munmap(q, sizeof(QShm) + kStack * sizeof(Prefix));
    return res;
}

Result ExploreIter(Body const& body, Options const& opt, Post const& post) {
    Result sum;
    auto t0 = std::chrono::steady_clock::now();
    for (int b = 0; b <= opt.bound; ++b) {
        Options o = opt;
        o.bound = b;
        if (opt.max_seconds > 0) {
            o.max_seconds = opt.max_seconds -
                std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (o.max_seconds < 0.01) {
                sum.exhaustive = false;
                break;
            }
        }
        Result r = Explore(body, o, post);
        sum.executions += r.executions;
        sum.pruned += r.pruned;
        sum.states = std::max(sum.states, r.states);
        sum.transitions += r.transitions;
        sum.crashes += r.crashes;
        sum.max_points = std::max(sum.max_points, r.max_points);
        sum.exhaustive = r.exhaustive;
        sum.outcomes.insert(r.outcomes.begin(), r.outcomes.end());
        sum.distinct_outcomes = (int64_t)sum.outcomes.size();
        if (r.violated) {
            sum.violated = true;
            sum.message = r.message;
            sum.schedule = r.schedule;
            return sum;
        }
        if (not r.exhaustive) {
            break;
        }
    }
    return sum;
}

std::string Replay(Body const& body, Options const& opt,
                   std::string const& schedule, Post const& post) {
    auto* ex = shm<ExecShm>();
    ex->prefix = parse(schedule);
    ex->bound = 1000;
    Options o = opt;
    o.timeout_s = opt.timeout_s * 3;
    std::string dir = opt.scratch.empty() ? "" : opt.scratch + "/replay";
    int st = run_one(ex, body, o, post, dir, true);
    std::string m;
    if (is_violation(st, opt)) {
        m = ex->msg[0] ? ex->msg : "violation";
    }
    else if (st == kDiverged) {
        m = "";
    }
    if (not dir.empty()) {
        rmrf(dir);
    }
    munmap(ex, sizeof(ExecShm));
    return m;
}
}  // namespace mc
