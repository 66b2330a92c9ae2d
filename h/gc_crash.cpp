// C16: garbage collection interrupted at every point, and concurrent with
// builds holding the shared lock and with further garbage collections.
#define VERIF_SCHED
#include "rt/harness.hpp"
#include "rt/explore.hpp"
#include <openssl/evp.h>
#include <filesystem>
#include <optional>
#include <thread>
#include "src/buildtool/common/artifact_digest_factory.hpp"
#include "src/buildtool/common/bazel_types.hpp"
#include "src/buildtool/file_system/git_context.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/storage/config.hpp"
#include "src/buildtool/storage/garbage_collector.hpp"
#include "src/buildtool/storage/repository_garbage_collector.hpp"
#include "src/buildtool/storage/storage.hpp"

// few worker threads: the same behaviours in a smaller space
unsigned int std::thread::hardware_concurrency() noexcept { return 1; }

template <auto P>
struct Open {
    friend auto CompactifyFn() { return P; }
};
auto CompactifyFn();
template struct Open<&GarbageCollector::Compactify>;

namespace {
namespace fs = std::filesystem;

std::string Raw(std::string const& data, bool sha1) {
    unsigned char md[64];
    unsigned n = 0;
    EVP_Digest(data.data(), data.size(), md, &n, sha1 ? EVP_sha1() : EVP_sha256(), nullptr);
    return {reinterpret_cast<char*>(md), n};
}
std::string Hex(std::string const& raw) {
    std::string r;
    static char const* hx = "0123456789abcdef";
    for (unsigned char c : raw) {
        r += hx[c >> 4];
        r += hx[c & 15];
    }
    return r;
}
std::string ObjRaw(std::string const& data, bool tree) {
    return Raw((tree ? "tree " : "blob ") + std::to_string(data.size()) + std::string(1, '\0') + data, true);
}
std::string Noise(size_t n, unsigned seed) {
    std::string s;
    unsigned x = seed * 2654435761u + 12345u;
    while (s.size() < n) {
        x = x * 1103515245u + 12345u;
        s += static_cast<char>(x >> 16);
    }
    return s;
}
std::string const kF = "content of a file";
std::string const kX = "content of an executable";
std::string const kG = "another file";
std::string const kL = Noise(300000, 3);
std::string const kT = "100644 a" + std::string(1, '\0') + ObjRaw(kF, false) + "100755 b" + std::string(1, '\0') + ObjRaw(kX, false);
std::string const kTL = "100644 l" + std::string(1, '\0') + ObjRaw(kL, false) + "40000 t" + std::string(1, '\0') + ObjRaw(kT, true);
size_t const kThreshold = 270000;

ArtifactDigest Dig(std::string const& data, bool tree) {
    return *ArtifactDigestFactory::Create(HashFunction::Type::GitSHA1, Hex(ObjRaw(data, tree)), data.size(), tree);
}
StorageConfig Config(std::string const& dir, int gens) {
    auto c = StorageConfig::Builder{}
                 .SetBuildRoot(dir + "/root")
                 .SetNumGenerations((size_t)gens)
                 .SetHashType(HashFunction::Type::GitSHA1)
                 .Build();
    if (not c) {
        mc::Fail("no storage configuration: " + c.error());
    }
    return *c;
}
bool Put(Storage const& st, std::string const& n) {
    auto const& c = st.CAS();
    if (n == "f") {
        return c.StoreBlob(kF, false).has_value();
    }
    if (n == "g") {
        return c.StoreBlob(kG, false).has_value();
    }
    if (n == "x") {
        return c.StoreBlob(kX, true).has_value();
    }
    if (n == "L") {
        return c.StoreBlob(kL, false).has_value();
    }
    if (n == "t") {
        return Put(st, "f") and Put(st, "x") and c.StoreTree(kT).has_value();
    }
    if (n == "tL") {
        return Put(st, "t") and Put(st, "L") and c.StoreTree(kTL).has_value();
    }
    if (n == "a") {
        bazel_re::ActionResult r;
        auto* o = r.add_output_files();
        o->set_path("o");
        o->mutable_digest()->set_hash("62" + Hex(ObjRaw(kF, false)));
        o->mutable_digest()->set_size_bytes((long)kF.size());
        return Put(st, "f") and st.ActionCache().StoreResult(Dig("action", false), r);
    }
    return false;
}
// availability, with content
void Get(Storage const& st, std::string const& n, std::string const& when) {
    if (n == "a") {
        mc::Check(st.ActionCache().CachedResult(Dig("action", false)).has_value(), "the action-cache entry is lost " + when);
        return;
    }
    bool const tree = n[0] == 't';
    auto const& data = n == "f" ? kF : n == "g" ? kG : n == "x" ? kX : n == "L" ? kL : n == "t" ? kT : kTL;
    auto p = tree ? st.CAS().TreePath(Dig(data, true)) : st.CAS().BlobPath(Dig(data, false), n == "x");
    mc::Check(p.has_value(), n + " is lost " + when);
    std::string got;
    mc::Check(ex::Slurp(p->string(), &got), "the path reported for " + n + " can not be read " + when);
    mc::Check(got == data, n + " has wrong content " + when);
}
void GetDeep(Storage const& st, std::string const& n, std::string const& when) {
    Get(st, n, when);
    for (auto const& p : n == "t" ? std::vector<std::string>{"f", "x"} : n == "tL" ? std::vector<std::string>{"t", "L"} : n == "a" ? std::vector<std::string>{"f"} : std::vector<std::string>{}) {
        GetDeep(st, p, when);
    }
}
// every generation fulfils its invariants; no wrong content anywhere
void Scan(StorageConfig const& cfg, int gens, std::string const& when) {
    for (int g = 0; g < gens; ++g) {
        auto gc = cfg.CreateGenerationConfig((size_t)g);
        auto has = [&](fs::path const& root, std::string const& h) { return fs::exists(root / h.substr(0, 2) / h.substr(2)); };
        auto have = [&](std::string const& h, bool tree) {
            return tree ? has(gc.cas_t, h) or has(gc.cas_large_t, h)
                        : has(gc.cas_f, h) or has(gc.cas_x, h) or has(gc.cas_large_f, h);
        };
        for (auto [root, kind] : {std::pair{gc.cas_f, 'f'}, std::pair{gc.cas_x, 'x'}, std::pair{gc.cas_t, 't'}, std::pair{gc.cas_large_f, 'F'}}) {
            if (not fs::exists(root)) {
                continue;
            }
            for (auto const& e : fs::recursive_directory_iterator(root)) {
                if (e.is_directory()) {
                    continue;
                }
                std::string id;
                for (char c : e.path().lexically_relative(root).string()) {
                    if (c != '/') {
                        id += c;
                    }
                }
                if (id.size() != 40) {
                    continue;
                }
                std::string d;
                ex::Slurp(e.path().string(), &d);
                if (kind != 'F') {
                    mc::Check(Hex(ObjRaw(d, kind == 't')) == id, "wrong content in the storage " + when);
                }
                else {
                    auto j = nlohmann::json::parse(d, nullptr, false);
                    mc::Check(j.is_array(), "unreadable entry of a large object " + when);
                    for (auto const& p : j) {
                        mc::Check(has(gc.cas_f, p[0].get<std::string>()), "part of a large object is missing in the generation " + when);
                    }
                }
            }
        }
        if (have(Hex(ObjRaw(kT, true)), true)) {
            mc::Check(have(Hex(ObjRaw(kF, false)), false) and have(Hex(ObjRaw(kX, false)), false), "tree without its entries in a generation " + when);
        }
        if (have(Hex(ObjRaw(kTL, true)), true)) {
            mc::Check(have(Hex(ObjRaw(kL, false)), false) and have(Hex(ObjRaw(kT, true)), true), "tree without its entries in a generation " + when);
        }
    }
}

struct Sc {
    std::string name;
    int gens = 2;
    std::vector<std::vector<std::string>> pre;  // youngest last
    std::vector<std::vector<std::string>> threads;
    std::vector<std::string> keep;  // has to be available afterwards
    bool faults = false;            // operations may fail
};

void RunOp(StorageConfig const& cfg, Sc const& sc, std::string const& o) {
    if (o == "gc") {
        mc::Check(GarbageCollector::TriggerGarbageCollection(cfg) or sc.faults, "garbage collection reports failure");
    }
    else if (o == "gc-no-rotate") {
        mc::Check(GarbageCollector::TriggerGarbageCollection(cfg, true) or sc.faults, "garbage collection reports failure");
    }
    else if (o == "gc-all") {
        mc::Check(GarbageCollector::TriggerGarbageCollection(cfg, false, true) or sc.faults, "garbage collection reports failure");
    }
    else if (o == "compactify") {
        mc::Check(CompactifyFn()(cfg, kThreshold) or sc.faults, "compactification reports failure");
    }
    else if (o == "gc-repo") {
        mc::Check(RepositoryGarbageCollector::TriggerGarbageCollection(cfg) or sc.faults, "garbage collection of repositories reports failure");
    }
    else if (o == "gc-repo-drop") {
        mc::Check(RepositoryGarbageCollector::TriggerGarbageCollection(cfg, true) or sc.faults, "garbage collection of repositories reports failure");
    }
    else if (o.starts_with("repo ")) {
        auto lock = RepositoryGarbageCollector::SharedLock(cfg);
        mc::Check(lock.has_value(), "no shared lock");
        auto p = cfg.GitRoot() / o.substr(5);
        fs::create_directories(cfg.GitRoot());
        mc::Point();
        ex::Dump(p.string(), "repository");
        mc::Point();
        std::string d;
        mc::Check(ex::Slurp(p.string(), &d) and d == "repository", "the repository root is moved away while the shared lock is held");
    }
    else if (o.starts_with("build ")) {
        // a build: everything it has seen or stored stays where it is until
        // it releases the lock
        auto lock = GarbageCollector::SharedLock(cfg);
        mc::Check(lock.has_value(), "no shared lock");
        auto st = Storage::Create(&cfg);
        std::stringstream ss(o.substr(6));
        std::string n;
        std::vector<std::string> seen;
        while (ss >> n) {
            if (n[0] == '+') {
                mc::Check(Put(st, n.substr(1)), "storing " + n.substr(1) + " fails");
                seen.push_back(n.substr(1));
            }
            else {
                GetDeep(st, n, "although stored in a generation kept");
                seen.push_back(n);
            }
            mc::Point();
            mc::NoPoints np;
            for (auto const& s : seen) {
                auto gc = cfg.CreateGenerationConfig(0);
                if (s == "a") {
                    continue;
                }
                bool const tree = s[0] == 't';
                auto const& data = s == "f" ? kF : s == "g" ? kG : s == "x" ? kX : s == "L" ? kL : s == "t" ? kT : kTL;
                auto h = Hex(ObjRaw(data, tree));
                auto const& root = tree ? gc.cas_t : s == "x" ? gc.cas_x : gc.cas_f;
                std::string got;
                mc::Check(ex::Slurp((root / h.substr(0, 2) / h.substr(2)).string(), &got) and got == data,
                          "the path of " + s + " is gone while the shared lock is held");
            }
        }
    }
}

void RunSc(Sc sc, mc::Options opt) {
    sc.faults = opt.faults;
    opt.scratch = "fs";
    opt.races = false;
    opt.atomic_points = false;
    auto body = [sc](std::string const& dir) {
        std::optional<StorageConfig> cfg;
        {
            mc::NoPoints np;
            cfg.emplace(Config(dir, sc.gens));
            auto const gens = sc.pre.size();
            for (size_t i = 0; i < gens; ++i) {
                {
                    auto st = Storage::Create(&*cfg);
                    for (auto const& n : sc.pre[i]) {
                        if (n == "litter") {
                            fs::create_directories(cfg->CacheRoot() / "remove-me77-88-0" / "casf");
                            ex::Dump(cfg->CacheRoot() / "remove-me77-88-0" / "casf" / "old", "x");
                            fs::create_directories(cfg->EphemeralRoot() / "exec_root" / "d");
                            ex::Dump(cfg->EphemeralRoot() / "exec_root" / "d" / "leftover", "x");
                        }
                        else if (n.starts_with("repo ")) {
                            fs::create_directories(cfg->GitRoot());
                            ex::Dump(cfg->GitRoot() / n.substr(5), "repository");
                        }
                        else {
                            mc::Check(Put(st, n), "preparation failed");
                        }
                    }
                }
                if (i + 1 < gens) {
                    // rotation by hand
                    for (int g = sc.gens - 1; g > 0; --g) {
                        if (fs::exists(cfg->GenerationCacheRoot((size_t)g - 1))) {
                            fs::rename(cfg->GenerationCacheRoot((size_t)g - 1), cfg->GenerationCacheRoot((size_t)g));
                        }
                        if (fs::exists(cfg->RepositoryGenerationRoot((size_t)g - 1))) {
                            fs::rename(cfg->RepositoryGenerationRoot((size_t)g - 1), cfg->RepositoryGenerationRoot((size_t)g));
                        }
                    }
                }
            }
        }
        std::vector<std::thread> th;
        for (size_t t = 1; t < sc.threads.size(); ++t) {
            th.emplace_back([&, t] {
                for (auto const& o : sc.threads[t]) {
                    RunOp(*cfg, sc, o);
                }
            });
        }
        for (auto const& o : sc.threads[0]) {
            RunOp(*cfg, sc, o);
        }
        for (auto& t : th) {
            t.join();
        }
    };
    auto post = [sc](std::string const& dir, bool crashed) {
        auto cfg = Config(dir, sc.gens);
        auto when = std::string(crashed ? "after an interrupted garbage collection" : sc.faults ? "after garbage collection with a failing system call" : "after garbage collection");
        Scan(cfg, sc.gens, when);
        auto litter = [&] {
            for (auto const& root : {cfg.CacheRoot(), cfg.RepositoryRoot()}) {
                if (not fs::exists(root)) {
                    continue;
                }
                for (auto const& e : fs::directory_iterator(root)) {
                    if (e.path().filename().string().starts_with("remove-me")) {
                        return true;
                    }
                }
            }
            return false;
        };
        if (not crashed and not sc.faults) {
            mc::Check(not litter(), "directories to be removed remain after garbage collection");
        }
        auto check_repos = [&](std::string const& w) {
            for (auto const& n : sc.keep) {
                if (n.starts_with("repo ")) {
                    bool found = false;
                    for (int g = 0; g < sc.gens; ++g) {
                        found = found or fs::exists(cfg.GitGenerationRoot((size_t)g) / n.substr(5));
                    }
                    mc::Check(found, "the repository root is lost " + w);
                }
            }
        };
        check_repos(when);
        {
            auto st = Storage::Create(&cfg);
            for (auto const& n : sc.keep) {
                if (not n.starts_with("repo ")) {
                    GetDeep(st, n, when);
                }
            }
        }
        // and the next one cleans up
        mc::Check(GarbageCollector::TriggerGarbageCollection(cfg, true), "the next garbage collection fails " + when);
        bool const left = [&] {
            for (auto const& e : fs::directory_iterator(cfg.CacheRoot())) {
                if (e.path().filename().string().starts_with("remove-me")) {
                    return true;
                }
            }
            return false;
        }();
        mc::Check(not left, "the next garbage collection leaves directories to be removed " + when);
        Scan(cfg, sc.gens, when + " and a further one");
        auto st = Storage::Create(&cfg);
        for (auto const& n : sc.keep) {
            if (not n.starts_with("repo ")) {
                GetDeep(st, n, when + " and a further one");
            }
        }
        for (auto const& n : {"f", "x", "t", "tL"}) {
            mc::Check(Put(st, n), "storing fails " + when);
        }
        GetDeep(st, "tL", "after storing it again");
    };
    hn::Scenario(sc.name, opt, body, post);
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    GitContext::Create();  // once, not in every execution
    bool const th = hn::ctx().thorough;
    mc::Options crash;
    crash.fs_points = true;
    crash.crash = true;
    crash.torn = true;
    crash.bound = 1;
    mc::Options inter;
    inter.fs_points = true;
    inter.fs_reads = false;
    inter.bound = th ? 3 : 2;

    RunSc({"gc-crash", 2, {{"x", "g"}, {"t", "a", "litter"}}, {{"gc"}}, {"t", "a"}}, crash);
    RunSc({"gc-no-rotate-crash", 2, {{"g"}, {"t", "litter"}}, {{"gc-no-rotate"}}, {"t", "g"}}, crash);
    RunSc({"gc-3-generations-crash", 3, {{"g"}, {"t"}, {"a"}}, {{"gc"}}, {"t", "a"}}, crash);
    RunSc({"gc-all-crash", 2, {{"g"}, {"t", "litter"}}, {{"gc-all"}}, {}}, crash);
    RunSc({"compactify-crash", 2, {{"g"}, {"tL"}}, {{"compactify"}}, {"tL", "g"}}, crash);
    RunSc({"repo-gc-crash", 2, {{"repo a"}, {"repo b"}}, {{"gc-repo"}}, {"repo b"}}, crash);
    RunSc({"repo-gc-drop-crash", 2, {{"repo a"}, {"repo b"}}, {{"gc-repo-drop"}}, {"repo b"}}, crash);

    mc::Options fault;
    fault.fs_points = true;
    fault.faults = true;
    fault.read_faults = true;
    fault.bound = 1;
    RunSc({"gc-fault", 2, {{"x", "g"}, {"t", "a", "litter"}}, {{"gc"}}, {"t", "a"}}, fault);
    RunSc({"gc-no-rotate-fault", 2, {{"g"}, {"t", "litter"}}, {{"gc-no-rotate"}}, {"t", "g"}}, fault);
    RunSc({"gc-3-generations-fault", 3, {{"g"}, {"t"}, {"a"}}, {{"gc"}}, {"t", "a"}}, fault);
    RunSc({"gc-all-fault", 2, {{"g"}, {"t", "litter"}}, {{"gc-all"}}, {}}, fault);
    RunSc({"compactify-fault", 2, {{"g"}, {"tL"}}, {{"compactify"}}, {"tL", "g"}}, fault);
    RunSc({"repo-gc-fault", 2, {{"repo a"}, {"repo b"}}, {{"gc-repo"}}, {"repo b"}}, fault);
    RunSc({"repo-gc-drop-fault", 2, {{"repo a"}, {"repo b"}}, {{"gc-repo-drop"}}, {"repo b"}}, fault);

    RunSc({"gc-and-build", 2, {{"t"}, {"g"}}, {{"gc-all"}, {"build +x +g"}}, {}}, inter);
    mc::Options one = inter;
    one.bound = th ? 3 : 2;
    one.delay = true;
    RunSc({"gc-and-reading-build", 3, {{"t"}, {"g"}}, {{"gc"}, {"build t g"}}, {"t", "g"}}, one);
    RunSc({"two-gcs", 3, {{"t"}}, {{"gc"}, {"gc"}}, {"t"}}, one);
    mc::Options both = one;
    both.bound = th ? 2 : 1;
    both.crash = true;
    RunSc({"two-gcs-crash", 3, {{"t"}}, {{"gc"}, {"gc-no-rotate"}}, {"t"}}, both);
    RunSc({"gc-and-build-crash", 3, {{"t"}, {"g"}}, {{"gc"}, {"build t +x"}}, {"t", "g"}}, both);
    RunSc({"repo-gc-and-user", 2, {{"repo a"}}, {{"gc-repo"}, {"repo b"}}, {"repo a", "repo b"}}, inter);
    return hn::Finish();
}
