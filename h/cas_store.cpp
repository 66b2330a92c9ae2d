// C14: objects in the CAS under every crash point, fault and interleaving.
#define VERIF_SCHED
#include "rt/harness.hpp"
#include <fcntl.h>
#include <filesystem>
#include <openssl/evp.h>
#include <optional>
#include <thread>
#include "src/buildtool/file_system/file_storage.hpp"
#include "src/buildtool/file_system/file_system_manager.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/storage/config.hpp"
#include "src/buildtool/storage/storage.hpp"

namespace {
namespace fs = std::filesystem;

std::string Hash(std::string const& data, bool sha1) {
    unsigned char md[64];
    unsigned n = 0;
    EVP_Digest(data.data(), data.size(), md, &n, sha1 ? EVP_sha1() : EVP_sha256(), nullptr);
    std::string r;
    static char const* hx = "0123456789abcdef";
    for (unsigned i = 0; i < n; ++i) {
        r += hx[md[i] >> 4];
        r += hx[md[i] & 15];
    }
    return r;
}
std::string ObjHash(std::string const& data, bool native, bool tree) {
    return native ? Hash((tree ? "tree " : "blob ") + std::to_string(data.size()) + std::string(1, '\0') + data, true)
                  : Hash(data, false);
}
// plain reading, independent of the code under test
bool g_read_faults = false;  // of the scenario: not to hit the harness itself
std::optional<std::string> Slurp(fs::path const& p) {
    std::optional<mc::NoPoints> np;
    if (g_read_faults) {
        np.emplace();
    }
    int fd = ::open(p.c_str(), O_RDONLY);
    if (fd < 0) {
        return std::nullopt;
    }
    std::string s;
    char buf[65536];
    ssize_t k;
    while ((k = ::read(fd, buf, sizeof buf)) > 0) {
        s.append(buf, (size_t)k);
    }
    ::close(fd);
    return s;
}
void Dump(fs::path const& p, std::string const& s, int mode) {
    int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    size_t o = 0;
    while (o < s.size()) {
        auto k = ::write(fd, s.data() + o, s.size() - o);
        if (k <= 0) {
            break;
        }
        o += (size_t)k;
    }
    ::fchmod(fd, (mode_t)mode);
    ::close(fd);
}

struct Op {
    enum Kind { BytesF, BytesX, BytesT, CopyF, CopyX, CopyT, OwnF, OwnX, OwnT, SyncX, SyncF, ReadF, ReadX, ReadT } kind;
    int content;
    char const* name;
};
char type_of(Op const& o) {
    switch (o.kind) {
        case Op::BytesX: case Op::CopyX: case Op::OwnX: case Op::SyncX: case Op::ReadX: return 'x';
        case Op::BytesT: case Op::CopyT: case Op::OwnT: case Op::ReadT: return 't';
        default: return 'f';
    }
}
std::string const& Content(int i) {
    static std::vector<std::string> const c = [] {
        std::vector<std::string> v{"hello", ""};
        std::string big;
        for (int k = 0; big.size() < 70000; ++k) {
            big += "line " + std::to_string(k) + "\n";
        }
        v.push_back(big);
        return v;
    }();
    return c[(size_t)i];
}
// content of tree objects has to be parseable only when uplinked
StorageConfig Config(std::string const& dir, bool native) {
    auto c = StorageConfig::Builder{}
                 .SetBuildRoot(dir + "/root")
                 .SetNumGenerations(2)
                 .SetHashType(native ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256)
                 .Build();
    if (not c) {
        mc::Fail("no storage configuration: " + c.error());
    }
    return *c;
}
ArtifactDigest Digest(HashFunction h, std::string const& data, char t) {
    return t == 't' ? ArtifactDigestFactory::HashDataAs<ObjectType::Tree>(h, data)
                    : ArtifactDigestFactory::HashDataAs<ObjectType::File>(h, data);
}
std::optional<fs::path> Lookup(Storage const& st, ArtifactDigest const& d, char t) {
    return t == 't' ? st.CAS().TreePath(d) : st.CAS().BlobPathNoSync(d, t == 'x');
}

// returns whether the operation reports success
bool Run(Storage const& st, std::string const& dir, Op const& o, int idx, bool native) {
    auto const& c = Content(o.content);
    fs::path const src = dir + "/src-" + std::to_string(idx);
    auto const& cas = st.CAS();
    std::optional<ArtifactDigest> d;
    switch (o.kind) {
        case Op::BytesF: d = cas.StoreBlob(c, false); break;
        case Op::BytesX: d = cas.StoreBlob(c, true); break;
        case Op::BytesT: d = cas.StoreTree(c); break;
        case Op::CopyF: d = cas.StoreBlob</*kOwner=*/false>(src, false); break;
        case Op::CopyX: d = cas.StoreBlob</*kOwner=*/false>(src, true); break;
        case Op::CopyT: d = cas.StoreTree</*kOwner=*/false>(src); break;
        case Op::OwnF: d = cas.StoreBlob</*kOwner=*/true>(src, false); break;
        case Op::OwnX: d = cas.StoreBlob</*kOwner=*/true>(src, true); break;
        case Op::OwnT: d = cas.StoreTree</*kOwner=*/true>(src); break;
        case Op::SyncX:
        case Op::SyncF:
        case Op::ReadF:
        case Op::ReadX:
        case Op::ReadT: {
            auto dig = Digest(st.GetHashFunction(), c, type_of(o));
            auto p = o.kind == Op::SyncX   ? cas.BlobPath(dig, true)
                     : o.kind == Op::SyncF ? cas.BlobPath(dig, false)
                                           : Lookup(st, dig, type_of(o));
            if (not p) {
                return false;
            }
            auto got = Slurp(*p);
            mc::Check(got.has_value(), std::string(o.name) + ": the path reported for a blob can not be read");
            mc::Check(*got == c, std::string(o.name) + ": a blob has been visible with wrong content (" +
                                     std::to_string(got->size()) + " bytes instead of " + std::to_string(c.size()) + ")");
            struct stat s {};
            ::stat(p->c_str(), &s);
            mc::Check((s.st_mode & 0777) == (type_of(o) == 'x' ? 0555u : 0444u),
                      std::string(o.name) + ": a blob has been visible with wrong permissions");
            return true;
        }
    }
    if (not d) {
        return false;
    }
    mc::Check(d->hash() == ObjHash(c, native, type_of(o) == 't'), std::string(o.name) + ": reported digest is not that of the content");
    return true;
}

void Scan(StorageConfig const& cfg, bool native, std::string const& when) {
    auto gen = cfg.CreateGenerationConfig(0);
    size_t const len = native ? 40 : 64;
    for (auto [root, t] : {std::pair{gen.cas_f, 'f'}, std::pair{gen.cas_x, 'x'}, std::pair{gen.cas_t, 't'}}) {
        if (not fs::exists(root)) {
            continue;
        }
        for (auto const& e : fs::recursive_directory_iterator(root)) {
            if (fs::is_directory(e.symlink_status())) {
                continue;
            }
            auto rel = e.path().lexically_relative(root).string();
            std::string id;
            for (char ch : rel) {
                if (ch != '/') {
                    id += ch;
                }
            }
            if (id.size() != len or rel.size() != len + 1 or rel[2] != '/') {
                continue;  // temporary
            }
            auto what = std::string("entry in the CAS of kind ") + t + when;
            auto got = Slurp(e.path());
            mc::Check(got.has_value() and ObjHash(*got, native, t == 't') == id,
                      what + " does not have the content its name promises (" +
                          std::to_string(got ? got->size() : 0) + " bytes)");
            struct stat s {};
            ::lstat(e.path().c_str(), &s);
            mc::Check(S_ISREG(s.st_mode), what + " is not a regular file");
            mc::Check((s.st_mode & 0777) == (t == 'x' ? 0555u : 0444u), what + " has wrong permissions");
            mc::Check(s.st_mtim.tv_sec == 0 and s.st_mtim.tv_nsec == 0, what + " has a modification time other than the epoch");
        }
    }
}

struct Sc {
    std::string name;
    std::vector<std::vector<Op>> threads;
    std::vector<std::pair<char, int>> pre;  // blobs present before
};

void RunSc(Sc const& sc, bool native, mc::Options opt) {
    g_read_faults = opt.read_faults;
    opt.scratch = "fs";
    opt.races = false;
    opt.atomic_points = false;
    auto body = [sc, native](std::string const& dir) {
        std::optional<StorageConfig> cfg;
        std::optional<Storage> st;
        {
            mc::NoPoints np;
            cfg.emplace(Config(dir, native));
            st.emplace(Storage::Create(&*cfg));
            for (auto [t, c] : sc.pre) {
                mc::Check(t == 't' ? st->CAS().StoreTree(Content(c)).has_value()
                                   : st->CAS().StoreBlob(Content(c), t == 'x').has_value(),
                          "preparation failed");
            }
            int i = 0;
            for (auto const& th : sc.threads) {
                for (auto const& o : th) {
                    Dump(dir + "/src-" + std::to_string(i++), Content(o.content), 0640);
                }
            }
        }
        auto run = [&](size_t t, int base) {
            for (size_t k = 0; k < sc.threads[t].size(); ++k) {
                auto const& o = sc.threads[t][k];
                if (Run(*st, dir, o, base + (int)k, native)) {
                    mc::Observe("+" + std::to_string(base + (int)k) + ";");
                }
                else {
                    mc::Observe("-" + std::to_string(base + (int)k) + ";");
                }
            }
        };
        std::vector<std::thread> ts;
        int base = (int)sc.threads[0].size();
        for (size_t t = 1; t < sc.threads.size(); ++t) {
            ts.emplace_back(run, t, base);
            base += (int)sc.threads[t].size();
        }
        run(0, 0);
        for (auto& t : ts) {
            t.join();
        }
    };
    bool const faults = opt.faults;
    auto post = [sc, native, faults](std::string const& dir, bool crashed) {
        auto cfg = Config(dir, native);
        std::string const when = crashed ? " after a crash" : "";
        Scan(cfg, native, when);
        auto st = Storage::Create(&cfg);
        auto obs = mc::Observed();
        int i = 0;
        bool has_copy = false;
        for (auto const& th : sc.threads) {
            for (auto const& o : th) {
                auto const& c = Content(o.content);
                bool const ok = obs.find("+" + std::to_string(i) + ";") != std::string::npos;
                bool const reads = o.kind >= Op::ReadF;
                if (not crashed and not faults and not reads) {
                    mc::Check(ok, std::string(o.name) + " reports failure");
                }
                if (ok) {
                    auto p = Lookup(st, Digest(st.GetHashFunction(), c, type_of(o)), type_of(o));
                    mc::Check(p.has_value(), std::string(o.name) + " reported success, but the blob is not there" + when);
                    auto got = Slurp(*p);
                    mc::Check(got.has_value() and *got == c, std::string(o.name) + " reported success, but the blob has other content" + when);
                }
                auto src = Slurp(dir + "/src-" + std::to_string(i));
                mc::Check(src.has_value() and *src == c, std::string(o.name) + ": the content of the source file changed");
                if (o.kind == Op::CopyF or o.kind == Op::CopyX or o.kind == Op::CopyT) {
                    struct stat s {};
                    ::stat((dir + "/src-" + std::to_string(i)).c_str(), &s);
                    mc::Check((s.st_mode & 0777) == 0640 and s.st_nlink == 1 and s.st_mtim.tv_sec != 0,
                              std::string(o.name) + ": a source file not owned by the storage has been altered or shared");
                }
                ++i;
            }
        }
        // what was present stays
        for (auto [t, c] : sc.pre) {
            auto p = Lookup(st, Digest(st.GetHashFunction(), Content(c), t), t);
            mc::Check(p.has_value(), "a blob present before is gone" + when);
        }
        // everything can be (re)done, in a process with the same id
        i = 0;
        for (auto const& th : sc.threads) {
            for (auto const& o : th) {
                bool ok = Run(st, dir, o, i, native);
                if (o.kind < Op::ReadF) {
                    mc::Check(ok, std::string(o.name) + " fails when repeated" + when);
                }
                ++i;
            }
        }
        Scan(cfg, native, when + " and repeating the operations");
        for (auto const& th : sc.threads) {
            for (auto const& o : th) {
                if (o.kind < Op::ReadF) {
                    auto p = Lookup(st, Digest(st.GetHashFunction(), Content(o.content), type_of(o)), type_of(o));
                    mc::Check(p.has_value(), std::string(o.name) + ": the blob is missing after repeating" + when);
                }
            }
        }
        (void)has_copy;
    };
    hn::Scenario(sc.name + (native ? "" : "-sha256"), opt, body, post);
}

// Entries that may be overwritten (action cache): a reader sees the old or
// one of the new values, completely.
template <StoreMode kMode>
void Overwrite(std::string const& name, mc::Options opt, int readers) {
    g_read_faults = opt.read_faults;
    opt.scratch = "fs";
    opt.races = false;
    opt.atomic_points = false;
    using Store = FileStorage<ObjectType::File, kMode, false>;
    static std::string const kId = "0123456789";
    static std::string const v[3] = {"old value", "first new value", std::string(9000, 'z')};
    auto body = [readers](std::string const& dir) {
        Store st{dir + "/ac"};
        {
            mc::NoPoints np;
            mc::Check(st.AddFromBytes(kId, v[0]), "preparation");
            Dump(dir + "/src", v[2], 0640);
        }
        std::vector<std::thread> ts;
        ts.emplace_back([&] {
            if (st.AddFromBytes(kId, v[1])) {
                mc::Observe("+1;");
            }
        });
        if (readers == 0) {
            ts.emplace_back([&] {
                if (st.AddFromFile(kId, dir + "/src")) {
                    mc::Observe("+2;");
                }
            });
        }
        else {
            ts.emplace_back([&] {
                for (int i = 0; i < readers; ++i) {
                    auto p = st.GetPath(kId);
                    auto r = FileSystemManager::ReadFile(p);
                    mc::Check(r.has_value(), "an overwritten entry was missing for a moment");
                    mc::Check(*r == v[0] or *r == v[1] or *r == v[2], "an overwritten entry was visible in part");
                    mc::Observe(*r == v[0] ? "o" : "n");
                }
            });
        }
        for (auto& t : ts) {
            t.join();
        }
    };
    bool const faults = opt.faults;
    auto post = [readers, faults](std::string const& dir, bool crashed) {
        Store st{dir + "/ac"};
        auto r = Slurp(st.GetPath(kId));
        mc::Check(r.has_value(), "the entry is gone");
        auto obs = mc::Observed();
        bool ok1 = obs.find("+1;") != std::string::npos;
        bool ok2 = obs.find("+2;") != std::string::npos;
        if (not crashed and not faults) {
            mc::Check(ok1 and (ok2 or readers > 0), "adding an entry reports failure");
        }
        mc::Check(*r == v[0] or *r == v[1] or *r == v[2], "the entry has none of the values stored");
        if (kMode == StoreMode::LastWins and (ok1 or ok2)) {
            mc::Check(*r != v[0], "an entry overwritten successfully still has the old value");
        }
        if (kMode == StoreMode::FirstWins) {
            mc::Check(*r == v[0], "an entry of a first-wins storage has been replaced");
        }
        mc::Check(st.AddFromBytes(kId, v[1]), "adding the entry again fails");
        r = Slurp(st.GetPath(kId));
        mc::Check(r.has_value() and *r == (kMode == StoreMode::LastWins ? v[1] : v[0]), "the entry has a wrong value after adding it again");
        struct stat s {};
        ::stat(st.GetPath(kId).c_str(), &s);
        mc::Check((s.st_mode & 0777) == 0444, "the entry has wrong permissions");
    };
    hn::Scenario(name, opt, body, post);
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetSinks({});
    bool const th = hn::ctx().thorough;
    Content(0);
    struct N {
        Op::Kind k;
        char const* n;
    };
    std::vector<N> const stores{{Op::BytesF, "bytes-file"}, {Op::BytesX, "bytes-exec"}, {Op::BytesT, "bytes-tree"},
                                {Op::CopyF, "copy-file"},   {Op::CopyX, "copy-exec"},   {Op::CopyT, "copy-tree"},
                                {Op::OwnF, "own-file"},     {Op::OwnX, "own-exec"},     {Op::OwnT, "own-tree"}};
    mc::Options crash;
    crash.crash = true;
    crash.torn = true;
    crash.bound = 0;
    mc::Options fault;
    fault.faults = true;
    fault.read_faults = true;
    fault.bound = th ? 3 : 2;
    mc::Options inter;
    inter.fs_points = true;
    inter.fs_reads = true;
    inter.bound = th ? 4 : 2;
    mc::Options both = crash;
    both.fs_points = true;
    both.fs_reads = true;
    both.bound = th ? 2 : 1;
    for (bool native : {true, false}) {
        for (auto const& s : stores) {
            for (int c = 0; c < 3; ++c) {
                auto nm = std::string(s.n) + "-" + std::to_string(c);
                RunSc({"crash-" + nm, {{{s.k, c, s.n}}}, {}}, native, crash);
                RunSc({"fault-" + nm, {{{s.k, c, s.n}}}, {}}, native, fault);
            }
        }
        for (int c : {0, 2}) {
            auto nm = "-" + std::to_string(c);
            for (bool f : {false, true}) {
                auto const& o = f ? fault : crash;
                std::string p = f ? "fault-" : "crash-";
                RunSc({p + "sync-exec" + nm, {{{Op::SyncX, c, "sync-exec"}}}, {{'f', c}}}, native, o);
                RunSc({p + "sync-file" + nm, {{{Op::SyncF, c, "sync-file"}}}, {{'x', c}}}, native, o);
            }
        }
        // repeated and different operations on one content
        RunSc({"crash-all-kinds",
               {{{Op::BytesF, 0, "bytes-file"}, {Op::OwnX, 0, "own-exec"}, {Op::CopyT, 0, "copy-tree"}, {Op::OwnF, 1, "own-file"}}},
               {}}, native, crash);
        // two threads storing one content
        for (size_t i = 0; i < stores.size(); ++i) {
            for (size_t j = i; j < stores.size(); ++j) {
                auto ti = type_of({stores[i].k, 0, ""});
                auto tj = type_of({stores[j].k, 0, ""});
                if (ti != tj) {
                    continue;
                }
                if (not native and (i % 3 != 0 or j % 3 != 0) and not th) {
                    continue;
                }
                auto nm = std::string(stores[i].n) + "+" + stores[j].n;
                RunSc({"two-" + nm, {{{stores[i].k, 0, stores[i].n}}, {{stores[j].k, 0, stores[j].n}}}, {}}, native, inter);
                RunSc({"two-crash-" + nm, {{{stores[i].k, 0, stores[i].n}}, {{stores[j].k, 0, stores[j].n}}}, {}}, native, both);
            }
            // a reader meanwhile
            auto t = type_of({stores[i].k, 0, ""});
            auto rk = t == 'f' ? Op::ReadF : t == 'x' ? Op::ReadX : Op::ReadT;
            RunSc({std::string("reader-") + stores[i].n, {{{stores[i].k, 2, stores[i].n}}, {{rk, 2, "read"}, {rk, 2, "read"}}}, {}}, native, inter);
        }
        RunSc({"two-sync-sync", {{{Op::SyncX, 0, "sync-exec"}}, {{Op::SyncX, 0, "sync-exec"}}}, {{'f', 0}}}, native, inter);
        RunSc({"two-sync-store", {{{Op::SyncX, 0, "sync-exec"}}, {{Op::BytesX, 0, "bytes-exec"}}}, {{'f', 0}}}, native, inter);
        RunSc({"two-sync-read", {{{Op::SyncF, 2, "sync-file"}}, {{Op::ReadF, 2, "read"}}}, {{'x', 2}}}, native, inter);
        RunSc({"three-stores", {{{Op::BytesF, 0, "bytes-file"}}, {{Op::OwnF, 0, "own-file"}}, {{Op::CopyF, 0, "copy-file"}}}, {}}, native,
              [&] { auto o = inter; o.bound = th ? 3 : 2; return o; }());
    }
    Overwrite<StoreMode::LastWins>("overwrite-two-writers", inter, 0);
    Overwrite<StoreMode::LastWins>("overwrite-reader", inter, 2);
    Overwrite<StoreMode::LastWins>("overwrite-two-writers-crash", both, 0);
    Overwrite<StoreMode::LastWins>("overwrite-two-writers-fault", [&] { auto o = fault; o.bound = 1; return o; }(), 0);
    Overwrite<StoreMode::FirstWins>("first-wins-two-writers", inter, 0);
    return hn::Finish();
}
