// C15: storing, promoting and reading entries of the action and of the target
// cache, interrupted at every point, and by several users of the storage at
// the same time.
#define VERIF_SCHED
#include "rt/harness.hpp"
#include "rt/explore.hpp"
#include <openssl/evp.h>
#include <filesystem>
#include <map>
#include <optional>
#include <thread>
#include "src/buildtool/common/artifact_digest_factory.hpp"
#include "src/buildtool/common/bazel_types.hpp"
#include "src/buildtool/file_system/git_context.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/storage/config.hpp"
#include "src/buildtool/storage/garbage_collector.hpp"
#include "src/buildtool/storage/storage.hpp"
#include "src/buildtool/storage/target_cache_entry.hpp"
#include "src/buildtool/storage/target_cache_key.hpp"

unsigned int std::thread::hardware_concurrency() noexcept { return 1; }

namespace {
namespace fs = std::filesystem;
using Json = nlohmann::json;

std::string Raw(std::string const& data, bool sha1) {
    unsigned char md[64];
    unsigned n = 0;
    EVP_Digest(data.data(), data.size(), md, &n, sha1 ? EVP_sha1() : EVP_sha256(), nullptr);
    return {reinterpret_cast<char*>(md), n};
}
std::string Hex(std::string const& raw) {
    std::string r;
    static char const* hx = "0123456789abcdef";
    for (unsigned char c : raw) {
        r += hx[c >> 4];
        r += hx[c & 15];
    }
    return r;
}

std::string Noise(size_t n, unsigned seed) {
    std::string s;
    unsigned x = seed * 2654435761u + 12345u;
    while (s.size() < n) {
        x = x * 1103515245u + 12345u;
        s += static_cast<char>(x >> 16);
    }
    return s;
}

struct Item {
    char kind;  // f x t: objects; a c: cache entries
    std::string data;
    std::vector<std::string> parts[2];  // of the two values
    std::string hash;
};

struct World {
    bool native;
    std::map<std::string, Item> items;

    std::string ObjRaw(std::string const& d, bool tree) const {
        return native ? Raw((tree ? "tree " : "blob ") + std::to_string(d.size()) + std::string(1, '\0') + d, true)
                      : Raw(d, false);
    }
    HashFunction::Type Type() const {
        return native ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256;
    }
    void Blob(std::string const& n, char kind, std::string const& d) {
        items[n] = {kind, d, {}, Hex(ObjRaw(d, false))};
    }
    void Tree(std::string const& n, std::vector<std::string> const& parts, int filler = 0) {
        std::string d;
        // (sorted; parts come last)
        std::vector<std::pair<std::string, std::string>> entries;
        for (int k = 0; k < filler; ++k) {
            auto num = std::to_string(10000 + k);
            entries.emplace_back("F" + num + Hex(Noise(115, 100U + (unsigned)k)), "f");
        }
        for (auto const& p : parts) {
            entries.emplace_back(p, p);
        }
        if (native) {
            for (auto const& [name, p] : entries) {
                auto const& i = items.at(p);
                d += (i.kind == 't' ? "40000 " : i.kind == 'x' ? "100755 " : "100644 ") + name + std::string(1, '\0') +
                     ObjRaw(i.data, i.kind == 't');
            }
        }
        else {
            bazel_re::Directory dir;
            for (auto const& [name, p] : entries) {
                auto const& i = items.at(p);
                auto set = [&](auto* e) {
                    e->set_name(name);
                    e->mutable_digest()->set_hash(i.hash);
                    e->mutable_digest()->set_size_bytes((long)i.data.size());
                };
                if (i.kind == 't') {
                    set(dir.add_directories());
                }
                else {
                    auto* e = dir.add_files();
                    e->set_is_executable(i.kind == 'x');
                    set(e);
                }
            }
            d = dir.SerializeAsString();
        }
        auto all = parts;
        if (filler > 0 and std::find(parts.begin(), parts.end(), "f") == parts.end()) {
            all.push_back("f");
        }
        items[n] = {'t', d, {all, {}}, Hex(ObjRaw(d, true))};
    }
    void Entry(std::string const& n, char kind, std::vector<std::string> p0, std::vector<std::string> p1) {
        items[n] = {kind, "key of " + n, {std::move(p0), std::move(p1)}, Hex(ObjRaw("key of " + n, false))};
    }
    explicit World(bool nat) : native{nat} {
        Blob("f", 'f', "content of a file");
        Blob("g", 'f', "another file");
        Blob("h", 'f', "yet another file");
        Blob("x", 'x', "content of an executable");
        Blob("lnk", 'f', "target/of/link");
        Blob("out", 'f', "what the action wrote to stdout");
        Blob("err", 'f', "what the action wrote to stderr");
        Tree("t", {"f", "x"});
        Tree("u", {"g", "t"});
        Blob("l", 'f', Noise(300000, 3));
        Blob("m", 'x', Noise(280000, 7));
        Tree("vl", {"l", "t"});
        Tree("w", {"t"}, 1100);
        Tree("z", {"m", "w"});
        Entry("a", 'a', {"h", "u", "lnk", "out", "err"}, {"x"});
        Entry("b", 'a', {"x"}, {"f", "out"});
        Entry("d", 'a', {"l", "vl"}, {"x"});
        Entry("e", 'a', {"z"}, {"x"});
        Entry("c0", 'c', {"x"}, {"f"});
        Entry("c1", 'c', {"h", "t", "c0"}, {"g"});
        Entry("c2", 'c', {"g", "c1"}, {"h", "c0"});
        Entry("c3", 'c', {"z", "c0"}, {"vl", "l"});
    }

    StorageConfig Config(std::string const& dir, int gens) const {
        auto c = StorageConfig::Builder{}
                     .SetBuildRoot(dir + "/root")
                     .SetNumGenerations((size_t)gens)
                     .SetHashType(Type())
                     .Build();
        if (not c) {
            mc::Fail("no storage configuration: " + c.error());
        }
        return *c;
    }
    ArtifactDigest Dig(std::string const& n) const {
        auto const& i = items.at(n);
        return *ArtifactDigestFactory::Create(Type(), i.hash, i.data.size(), i.kind == 't');
    }
    bazel_re::ActionResult Result(std::string const& n, int val) const {
        bazel_re::ActionResult r;
        auto dig = [&](Item const& i, auto* d) {
            d->set_hash((native ? (i.kind == 't' ? "74" : "62") : "") + i.hash);
            d->set_size_bytes((long)i.data.size());
        };
        for (auto const& p : items.at(n).parts[val]) {
            auto const& i = items.at(p);
            if (p == "lnk") {
                auto* l = r.add_output_file_symlinks();
                l->set_path(p);
                l->set_target(i.data);
            }
            else if (p == "out") {
                dig(i, r.mutable_stdout_digest());
            }
            else if (p == "err") {
                dig(i, r.mutable_stderr_digest());
            }
            else if (i.kind == 't') {
                auto* d = r.add_output_directories();
                d->set_path(p);
                dig(i, d->mutable_tree_digest());
            }
            else {
                auto* f = r.add_output_files();
                f->set_path(p);
                f->set_is_executable(i.kind == 'x');
                dig(i, f->mutable_digest());
            }
        }
        return r;
    }
    Json Target(std::string const& n, int val) const {
        Json arts = Json::object();
        Json run = Json::object();
        Json implied = Json::array({items.at(n).hash});
        int k = 0;
        for (auto const& p : items.at(n).parts[val]) {
            auto const& i = items.at(p);
            if (i.kind == 'c') {
                implied.push_back(i.hash);
            }
            else {
                (k++ % 2 == 0 ? arts : run)[p] =
                    Json{{"type", "KNOWN"},
                         {"data", {{"id", i.hash}, {"size", i.data.size()}, {"file_type", std::string(1, i.kind)}}}};
            }
        }
        return Json{{"artifacts", arts},
                    {"runfiles", run},
                    {"provides", {{"entry", "n"}, {"nodes", Json::object()}, {"provided_artifacts", Json::array()},
                                  {"provided_nodes", Json::array()}, {"provided_results", Json::array()}}},
                    {"implied export targets", implied}};
    }
    bool PutObj(Storage const& st, std::string const& n) const {
        auto const& i = items.at(n);
        for (auto const& p : i.parts[0]) {
            if (not PutObj(st, p)) {
                return false;
            }
        }
        auto d = i.kind == 't' ? st.CAS().StoreTree(i.data) : st.CAS().StoreBlob(i.data, i.kind == 'x');
        return d.has_value();
    }
    bool Store(Storage const& st, std::string const& n, int val) const {
        auto const& i = items.at(n);
        if (i.kind != 'a' and i.kind != 'c') {
            return PutObj(st, n);
        }
        for (auto const& p : i.parts[val]) {
            // the artifacts of a target are brought along by storing the entry
            if ((i.kind == 'a' or items.at(p).kind == 'c') and not Store(st, p, 0)) {
                return false;
            }
        }
        if (i.kind == 'a') {
            return st.ActionCache().StoreResult(Dig(n), Result(n, val));
        }
        std::set<std::string> asked;
        bool got = false;
        auto down = [&](std::vector<Artifact::ObjectInfo> const& infos) {
            for (auto const& inf : infos) {
                for (auto const& [k, o] : items) {
                    if (o.hash == inf.digest.hash() and (o.kind == 'f' or o.kind == 'x' or o.kind == 't') and
                        (o.kind == 't') == IsTreeObject(inf.type)) {
                        if (not PutObj(st, k)) {
                            return false;
                        }
                        asked.insert(k);
                    }
                }
            }
            got = true;
            return true;
        };
        if (not st.TargetCache().Store(
                TargetCacheKey{{Dig(n), ObjectType::File}}, TargetCacheEntry::FromJson(Type(), Target(n, val)), down)) {
            return false;
        }
        mc::Check(got, "storing the entry " + n + " succeeds without its artifacts");
        for (auto const& p : i.parts[val]) {
            mc::Check(items.at(p).kind == 'c' or asked.contains(p), "storing the entry " + n + " does not ask for " + p);
        }
        return true;
    }
    // the artifacts are not to be had
    void StoreUnavailable(Storage const& st, std::string const& n) const {
        auto fails = [](std::vector<Artifact::ObjectInfo> const& infos) {
            mc::Check(not infos.empty(), "storing an entry does not ask for its artifacts");
            return false;
        };
        mc::Check(not st.TargetCache().Store(
                      TargetCacheKey{{Dig(n), ObjectType::File}}, TargetCacheEntry::FromJson(Type(), Target(n, 0)), fails),
                  "storing a target-cache entry succeeds without its artifacts");
    }
    // the value answered with, -1: none
    int Read(Storage const& st, std::string const& n) const {
        auto const& i = items.at(n);
        for (int val : {0, 1}) {
            if (i.kind == 'a') {
                auto r = st.ActionCache().CachedResult(Dig(n));
                if (not r) {
                    return -1;
                }
                if (r->SerializeAsString() == Result(n, val).SerializeAsString()) {
                    return val;
                }
            }
            else {
                auto r = st.TargetCache().Read(TargetCacheKey{{Dig(n), ObjectType::File}});
                if (not r) {
                    return -1;
                }
                if (r->first.ToJson() == Target(n, val)) {
                    return val;
                }
            }
        }
        mc::Fail("the cache answers with an entry never stored for " + n);
        return -1;
    }

    // --- what is on disk -----------------------------------------------
    static std::optional<std::string> Load(fs::path const& root, std::string const& h) {
        std::string d;
        if (not ex::Slurp((root / h.substr(0, 2) / h.substr(2)).string(), &d)) {
            return std::nullopt;
        }
        return d;
    }
    void Have(GenerationConfig const& gc, std::string const& who, std::string const& n) const {
        auto const& i = items.at(n);
        if (i.kind == 'c') {
            auto e = Entries(gc, 'c');
            mc::Check(e.contains(i.hash), who + ": the entry of the implied target " + n + " is missing in the generation");
            return;
        }
        std::optional<std::string> d;
        if (i.kind == 't' and native) {
            d = Load(gc.cas_t, i.hash);
        }
        else {
            d = Load(gc.cas_f, i.hash);
            if (not d) {
                d = Load(gc.cas_x, i.hash);
            }
        }
        if (not d) {
            // as parts
            auto parts = Load(i.kind == 't' ? gc.cas_large_t : gc.cas_large_f, i.hash);
            if (not parts and not native) {
                parts = Load(gc.cas_large_f, i.hash);
            }
            if (parts) {
                auto j = Json::parse(*parts, nullptr, false);
                mc::Check(j.is_array(), who + ": unreadable entry of a large object");
                d = "";
                for (auto const& p : j) {
                    auto c = Load(gc.cas_f, p[0].get<std::string>());
                    mc::Check(c.has_value(), who + ": a part of the large object " + n + " is missing in the generation");
                    *d += *c;
                }
            }
        }
        mc::Check(d.has_value(), who + ": the object " + n + " is missing in the generation");
        mc::Check(*d == i.data, who + ": the object " + n + " has wrong content");
        for (auto const& p : i.parts[0]) {
            Have(gc, who, p);
        }
    }
    std::map<std::string, std::string> Entries(GenerationConfig const& gc, char kind) const {
        std::map<std::string, std::string> r;
        auto root = kind == 'a' ? gc.action_cache : gc.target_cache;
        if (not fs::exists(root)) {
            return r;
        }
        for (auto const& e : fs::recursive_directory_iterator(root)) {
            if (e.is_directory()) {
                continue;
            }
            auto p = e.path();
            auto id = p.parent_path().filename().string() + p.filename().string();
            if (id.size() != (native ? 40U : 64U)) {
                continue;  // what has not been finished
            }
            std::string d;
            mc::Check(ex::Slurp(p.string(), &d), "unreadable entry");
            r[id] = d;
        }
        return r;
    }
    void Scan(StorageConfig const& cfg, int gens, std::string const& when) const {
        for (int g = 0; g < gens; ++g) {
            auto gc = cfg.CreateGenerationConfig((size_t)g);
            for (char kind : {'a', 'c'}) {
                auto entries = Entries(gc, kind);
                for (auto const& [id, v] : entries) {
                    std::string n;
                    for (auto const& [k, i] : items) {
                        if (i.kind == kind and i.hash == id) {
                            n = k;
                        }
                    }
                    mc::Check(not n.empty(), "unexpected entry in a cache " + when);
                    std::string vh;
                    if (kind == 'a') {
                        auto j = Json::parse(v, nullptr, false);
                        mc::Check(j.is_array() and j.size() == 2 and j[0].is_string(), "unreadable entry of the action cache " + when);
                        vh = j[0].get<std::string>();
                    }
                    else {
                        mc::Check(v.size() > 2 and v.find(':') != std::string::npos, "unreadable entry of the target cache " + when);
                        vh = v.substr(1, v.find(':') - 1);
                    }
                    auto d = Load(gc.cas_f, vh);
                    if (not d) {
                        d = Load(gc.cas_x, vh);
                    }
                    auto const who = "entry " + n + " of generation " + std::to_string(g) + " " + when;
                    mc::Check(d.has_value(), who + ": the value is missing in the generation");
                    int val = -1;
                    for (int k : {0, 1}) {
                        if (kind == 'a' ? *d == Result(n, k).SerializeAsString()
                                        : Json::parse(*d, nullptr, false) == Target(n, k)) {
                            val = k;
                        }
                    }
                    mc::Check(val >= 0, who + ": the value is none ever stored");
                    for (auto const& p : items.at(n).parts[val]) {
                        Have(gc, who, p);
                    }
                }
            }
        }
    }
};

struct Sc {
    std::string name;
    bool native = true;
    int gens = 2;
    std::vector<std::vector<std::string>> pre;      // youngest last; n: first value, n': second value
    std::vector<std::vector<std::string>> threads;  // "n?" read, "n" store, "n'" store second value, "n!" without artifacts
};

std::pair<std::string, int> Val(std::string const& o) {
    return o.back() == '\'' ? std::pair{o.substr(0, o.size() - 1), 1} : std::pair{o, 0};
}

void RunSc(Sc const& sc, mc::Options opt) {
    opt.scratch = "fs";
    opt.races = false;
    opt.atomic_points = false;
    bool const faults = opt.faults;
    auto w = std::make_shared<World>(sc.native);
    // the values an entry may have afterwards
    auto values = [w, sc](std::string const& n, bool before) {
        std::set<int> r;
        int last = -1;
        for (auto const& g : sc.pre) {
            for (auto const& o : g) {
                if (o == "compactify") {
                    continue;
                }
                auto [m, v] = Val(o);
                std::function<void(std::string const&, int)> rec = [&](std::string const& k, int val) {
                    if (k == n) {
                        last = val;
                    }
                    auto const& i = w->items.at(k);
                    if (i.kind == 'a' or i.kind == 'c') {
                        for (auto const& p : i.parts[val]) {
                            rec(p, 0);
                        }
                    }
                };
                rec(m, v);
            }
        }
        r.insert(last);
        if (not before) {
            for (auto const& t : sc.threads) {
                for (auto const& o : t) {
                    if (o.back() != '?' and o.back() != '!') {
                        auto [m, v] = Val(o);
                        std::function<void(std::string const&, int)> rec = [&](std::string const& k, int val) {
                            if (k == n) {
                                r.insert(val);
                            }
                            auto const& i = w->items.at(k);
                            if (i.kind == 'a' or i.kind == 'c') {
                                for (auto const& p : i.parts[val]) {
                                    rec(p, 0);
                                }
                            }
                        };
                        rec(m, v);
                    }
                }
            }
        }
        return r;
    };
    auto body = [=](std::string const& dir) {
        std::optional<StorageConfig> cfg;
        {
            mc::NoPoints np;
            cfg.emplace(w->Config(dir, sc.gens));
            for (size_t i = 0; i < sc.pre.size(); ++i) {
                {
                    auto st = Storage::Create(&*cfg);
                    for (auto const& o : sc.pre[i]) {
                        if (o == "compactify") {
                            // large objects are kept as parts only
                            auto gc = cfg->CreateGenerationConfig(0);
                            for (auto const& [k, i] : w->items) {
                                if (i.data.size() < 200000) {
                                    continue;
                                }
                                bool present = false;
                                for (auto const& root : {gc.cas_f, gc.cas_x, gc.cas_t}) {
                                    present = present or fs::exists(root / i.hash.substr(0, 2) / i.hash.substr(2));
                                }
                                if (present) {
                                    mc::Check(i.kind == 't' ? st.CAS().SplitTree(w->Dig(k)).has_value()
                                                            : st.CAS().SplitBlob(w->Dig(k)).has_value(),
                                              "splitting fails");
                                    for (auto const& root : {gc.cas_f, gc.cas_x, gc.cas_t}) {
                                        fs::remove(root / i.hash.substr(0, 2) / i.hash.substr(2));
                                    }
                                }
                            }
                            continue;
                        }
                        auto [n, v] = Val(o);
                        mc::Check(w->Store(st, n, v), "preparation failed");
                    }
                }
                if (i + 1 < sc.pre.size()) {
                    for (int g = sc.gens - 1; g > 0; --g) {
                        if (fs::exists(cfg->GenerationCacheRoot((size_t)g - 1))) {
                            fs::rename(cfg->GenerationCacheRoot((size_t)g - 1), cfg->GenerationCacheRoot((size_t)g));
                        }
                    }
                }
            }
        }
        auto run = [&](std::vector<std::string> const& l) {
            auto lock = GarbageCollector::SharedLock(*cfg);
            if (not lock) {
                mc::Check(faults, "no shared lock");
                return;
            }
            auto st = Storage::Create(&*cfg);
            for (auto const& o : l) {
                if (o.back() == '!') {
                    w->StoreUnavailable(st, o.substr(0, o.size() - 1));
                    continue;
                }
                if (o.back() != '?') {
                    auto [n, v] = Val(o);
                    if (not w->Store(st, n, v)) {
                        mc::Check(faults, "storing the entry " + n + " fails");
                        continue;
                    }
                    mc::NoPoints np;
                    for (auto const& p : w->items.at(n).parts[v]) {
                        w->Have(cfg->CreateGenerationConfig(0), "stored " + n, p);
                    }
                    continue;
                }
                auto n = o.substr(0, o.size() - 1);
                auto v = w->Read(st, n);
                mc::NoPoints np;
                mc::Check(values(n, false).contains(v) or (v == -1 and (faults or values(n, true).contains(-1))),
                          v < 0 ? "the entry " + n + ", stored in a generation kept, is not found"
                                : "the cache answers with a value not stored for " + n);
                if (v >= 0) {
                    // all it refers to is available in the youngest generation
                    auto gc = cfg->CreateGenerationConfig(0);
                    for (auto const& p : w->items.at(n).parts[v]) {
                        w->Have(gc, "answer for " + n, p);
                    }
                }
            }
        };
        std::vector<std::thread> th;
        for (size_t t = 1; t < sc.threads.size(); ++t) {
            th.emplace_back([&, t] { run(sc.threads[t]); });
        }
        run(sc.threads[0]);
        for (auto& t : th) {
            t.join();
        }
    };
    auto post = [=](std::string const& dir, bool crashed) {
        auto cfg = w->Config(dir, sc.gens);
        std::string const when = crashed ? "after an interruption" : faults ? "after a failing system call" : "in the end";
        w->Scan(cfg, sc.gens, when);
        {
            auto st = Storage::Create(&cfg);
            for (auto const& [n, i] : w->items) {
                if (i.kind != 'a' and i.kind != 'c') {
                    continue;
                }
                auto v = w->Read(st, n);
                if (not values(n, true).contains(-1)) {
                    mc::Check(v >= 0, "the entry " + n + ", stored in a generation kept, is not found " + when);
                }
                mc::Check(v == -1 or values(n, false).contains(v), "the cache answers with a value not stored for " + n + " " + when);
                if (v >= 0) {
                    auto gc = cfg.CreateGenerationConfig(0);
                    for (auto const& p : i.parts[v]) {
                        w->Have(gc, "answer for " + n + " " + when, p);
                    }
                }
            }
        }
        w->Scan(cfg, sc.gens, when + " and after reading");
        {
            auto st = Storage::Create(&cfg);
            for (auto const& n : {"a", "b", "c2"}) {
                mc::Check(w->Store(st, n, 0) and w->Read(st, n) == 0, "the entry stored last is not answered " + when);
            }
        }
        w->Scan(cfg, sc.gens, when + " and after storing again");
    };
    hn::Scenario(sc.name, opt, body, post);
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    GitContext::Create();  // once, not in every execution
    bool const th = hn::ctx().thorough;
    mc::Options crash;
    crash.fs_points = true;
    crash.crash = true;
    crash.torn = true;
    crash.bound = 1;
    mc::Options fault;
    fault.fs_points = true;
    fault.faults = true;
    fault.read_faults = true;
    fault.bound = 1;
    mc::Options inter;
    inter.fs_points = true;
    inter.fs_reads = false;
    inter.delay = true;
    inter.bound = th ? 3 : 2;
    mc::Options both = inter;
    both.bound = th ? 2 : 1;
    both.crash = true;

    for (bool native : {true, false}) {
        std::string const p = native ? "" : "compatible-";
        RunSc({p + "promote-action-crash", native, 2, {{"a"}, {"b"}}, {{"a?", "b?"}}}, crash);
        RunSc({p + "promote-action-from-oldest-crash", native, 3, {{"a"}, {"h"}, {"x"}}, {{"a?"}}}, crash);
        RunSc({p + "store-action-crash", native, 2, {{"a"}, {"x"}}, {{"a'", "b"}}}, crash);
        RunSc({p + "overwrite-action-crash", native, 2, {{"b"}, {"b'"}}, {{"b", "b?"}}}, crash);
        RunSc({p + "promote-target-crash", native, 2, {{"c2"}, {"x"}}, {{"c2?"}}}, crash);
        RunSc({p + "promote-target-over-generations-crash", native, 3, {{"c1"}, {"c2"}, {"c0"}}, {{"c1?", "c2?"}}}, crash);
        RunSc({p + "store-target-crash", native, 2, {{"c1"}, {"h"}}, {{"c2", "c1'"}}}, crash);
        RunSc({p + "promote-large-action-crash", native, 2, {{"d", "compactify"}, {"x"}}, {{"d?"}}}, crash);
        RunSc({p + "promote-large-tree-crash", native, 2, {{"e", "compactify"}, {"x"}}, {{"e?"}}}, crash);
        RunSc({p + "promote-large-target-crash", native, 2, {{"c3", "compactify"}, {"g"}}, {{"c3?"}}}, crash);
        RunSc({p + "promote-action-fault", native, 2, {{"a"}, {"b"}}, {{"a?", "b?"}}}, fault);
        RunSc({p + "promote-target-fault", native, 2, {{"c2"}, {"x"}}, {{"c2?"}}}, fault);
        RunSc({p + "store-target-fault", native, 2, {{"c1"}, {"h"}}, {{"c2", "c1'"}}}, fault);
        RunSc({p + "promote-large-action-fault", native, 2, {{"d", "compactify"}, {"x"}}, {{"d?"}}}, fault);
        RunSc({p + "promote-large-tree-fault", native, 2, {{"e", "compactify"}, {"x"}}, {{"e?"}}}, fault);
        RunSc({p + "promote-large-target-fault", native, 2, {{"c3", "compactify"}, {"g"}}, {{"c3?"}}}, fault);
        RunSc({p + "artifacts-unavailable", native, 2, {{"x"}}, {{"c0!", "c1!", "c0?", "c1?", "c0'", "c0!", "c0?"}}}, crash);
        RunSc({p + "two-promoting-action", native, 2, {{"a"}, {"g"}}, {{"a?"}, {"a?"}}}, inter);
        RunSc({p + "two-promoting-target", native, 2, {{"c1"}, {"g"}}, {{"c1?"}, {"c1?"}}}, inter);
        RunSc({p + "promoting-implied-and-implying", native, 2, {{"c2"}, {"g"}}, {{"c2?"}, {"c1?", "c0?"}}}, inter);
        RunSc({p + "promoting-and-storing", native, 2, {{"b", "c0"}, {"g"}}, {{"b?", "c0?"}, {"b'", "c0'"}}}, inter);
        RunSc({p + "two-promoting-crash", native, 2, {{"b", "c1"}, {"g"}}, {{"b?", "c1?"}, {"c1?", "b?"}}}, both);
    }
    return hn::Finish();
}
