// C16/C15: garbage collection, generations, compactification, action and
// target cache, explored exhaustively over sequences of operations.
#include "rt/explore.hpp"
#include <openssl/evp.h>
#include <filesystem>
#include <map>
#include <optional>
#include "src/buildtool/common/artifact_digest_factory.hpp"
#include "src/buildtool/common/bazel_types.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/storage/config.hpp"
#include "src/buildtool/storage/garbage_collector.hpp"
#include "src/buildtool/storage/repository_garbage_collector.hpp"
#include "src/buildtool/storage/storage.hpp"
#include "src/buildtool/storage/target_cache_entry.hpp"
#include "src/buildtool/storage/target_cache_key.hpp"

namespace {
namespace fs = std::filesystem;
using FailF = std::function<void(std::string const&)>;
using Json = nlohmann::json;

std::string Raw(std::string const& data, bool sha1) {
    unsigned char md[64];
    unsigned n = 0;
    EVP_Digest(data.data(), data.size(), md, &n, sha1 ? EVP_sha1() : EVP_sha256(), nullptr);
    return {reinterpret_cast<char*>(md), n};
}
std::string Hex(std::string const& raw) {
    std::string r;
    static char const* hx = "0123456789abcdef";
    for (unsigned char c : raw) {
        r += hx[c >> 4];
        r += hx[c & 15];
    }
    return r;
}
std::string ObjRaw(std::string const& data, bool native, bool tree) {
    return native ? Raw((tree ? "tree " : "blob ") + std::to_string(data.size()) + std::string(1, '\0') + data, true)
                  : Raw(data, false);
}
std::string ObjHash(std::string const& data, bool native, bool tree) { return Hex(ObjRaw(data, native, tree)); }

// An item of the storage
struct Item {
    std::string name;
    char kind;  // 'f' 'x' blob, 't' tree, 'a' action-cache entry, 'c' target-cache entry
    std::string data;                // f, x, t
    std::vector<std::string> parts;  // items it refers to (a, c: of value 0)
    std::vector<std::string> parts2;  // a, c: of value 1
    std::string hash;
    size_t size{};
};

std::string Noise(size_t n, unsigned seed) {
    std::string s;
    unsigned x = seed * 2654435761u + 12345u;
    while (s.size() < n) {
        x = x * 1103515245u + 12345u;
        s += static_cast<char>(x >> 16);
    }
    return s;
}

struct Catalog {
    bool native;
    std::map<std::string, Item> items;
    std::vector<std::string> order;  // parts first
    void Add(Item i) {
        order.push_back(i.name);
        items[i.name] = std::move(i);
    }
    void Blob(std::string const& name, char kind, std::string const& data) {
        Item i{name, kind, data, {}, {}, ObjHash(data, native, false), data.size()};
        Add(i);
    }
    // entries: (entry name, item, as executable)
    void Tree(std::string const& name, std::vector<std::tuple<std::string, std::string, bool>> entries) {
        std::sort(entries.begin(), entries.end());
        std::string data;
        std::vector<std::string> parts;
        if (native) {
            for (auto const& [n, it, x] : entries) {
                auto const& i = items.at(it);
                data += i.kind == 't' ? "40000 " : x ? "100755 " : "100644 ";
                data += n + std::string(1, '\0') + ObjRaw(i.data, true, i.kind == 't');
                parts.push_back(it);
            }
        }
        else {
            bazel_re::Directory d;
            for (auto const& [n, it, x] : entries) {
                auto const& i = items.at(it);
                if (i.kind == 't') {
                    auto* e = d.add_directories();
                    e->set_name(n);
                    e->mutable_digest()->set_hash(i.hash);
                    e->mutable_digest()->set_size_bytes((long)i.size);
                }
                else {
                    auto* e = d.add_files();
                    e->set_name(n);
                    e->set_is_executable(x);
                    e->mutable_digest()->set_hash(i.hash);
                    e->mutable_digest()->set_size_bytes((long)i.size);
                }
                parts.push_back(it);
            }
            data = d.SerializeAsString();
        }
        Item i{name, 't', data, parts, {}, ObjHash(data, native, true), data.size()};
        Add(i);
    }
    void Entry(std::string const& name, char kind, std::vector<std::string> p, std::vector<std::string> p2) {
        Item i{name, kind, "", std::move(p), std::move(p2), "", 0};
        i.hash = ObjHash("key of " + name, native, false);
        Add(i);
    }
};

struct Setup {
    std::string name;
    bool native = true;
    int gens = 2;
    std::vector<std::string> use;    // items with store and read operations
    std::vector<std::string> extra;  // further operations
    size_t threshold = 270000;
};

Catalog MakeCatalog(bool native) {
    Catalog c{native, {}, {}};
    c.Blob("f", 'f', "content of a file");
    c.Blob("x", 'x', "content of an executable");
    c.Blob("lnk", 'f', "target/of/link");
    c.Blob("out", 'f', "what the action wrote to stdout");
    c.Blob("err", 'f', "what the action wrote to stderr");
    c.Blob("L", 'f', Noise(300000, 1));
    c.Blob("X", 'x', Noise(280000, 7));
    c.Tree("t1", {{"a", "f", false}, {"b", "x", true}, {"c", "f", true}});
    c.Tree("tt", {{"d", "t1", false}, {"e", "f", false}});
    c.Tree("tL", {{"big", "L", false}, {"d", "t1", false}, {"z", "X", true}});
    std::vector<std::tuple<std::string, std::string, bool>> many;
    for (int k = 0; k < 1050; ++k) {
        many.emplace_back("entry-" + std::to_string(k) + "-" + Hex(Noise(115, 100u + (unsigned)k)), k % 2 ? "f" : "x", k % 2 == 0);
    }
    many.emplace_back("sub", "t1", false);
    c.Tree("LT", many);
    c.Tree("tLT", {{"lt", "LT", false}});
    c.Entry("a1", 'a', {"f", "t1"}, {"x", "lnk"});
    c.Entry("a2", 'a', {"L", "tL"}, {"f", "out", "err"});
    c.Entry("a3", 'a', {"tLT", "X"}, {"t1"});
    c.Entry("c0", 'c', {"x"}, {"f"});
    c.Entry("c1", 'c', {"f", "t1", "c0"}, {"lnk", "c0"});
    c.Entry("c2", 'c', {"tL", "c1"}, {"LT"});
    return c;
}

// compactification with a threshold small objects reach is not public
template <auto P>
struct Open {
    friend auto CompactifyFn() { return P; }
};
auto CompactifyFn();
template struct Open<&GarbageCollector::Compactify>;

struct GcSystem final : ex::System {
    Setup su;
    Catalog cat;
    struct Op {
        std::string what, item;
        int val = 0;
    };
    std::vector<Op> ops;

    explicit GcSystem(Setup s) : su{std::move(s)}, cat{MakeCatalog(su.native)} {
        for (auto const& n : su.use) {
            auto const& i = cat.items.at(n);
            if (i.kind == 'a' or i.kind == 'c') {
                ops.push_back({"store", n, 0});
                ops.push_back({"store", n, 1});
                ops.push_back({"read", n});
            }
            else {
                ops.push_back({"store", n});
                ops.push_back({"read", n});
                if (i.kind != 't') {
                    ops.push_back({"read-other-kind", n});
                }
                if (i.size > su.threshold) {
                    ops.push_back({"split", n});
                }
            }
        }
        for (auto const& e : su.extra) {
            ops.push_back({e, ""});
        }
    }
    int Ops() const override { return (int)ops.size(); }
    std::string OpName(int op) const override {
        auto const& o = ops[(size_t)op];
        auto r = o.what + (o.item.empty() ? "" : " " + o.item);
        if (o.what == "store" and (cat.items.at(o.item).kind == 'a' or cat.items.at(o.item).kind == 'c')) {
            r += o.val == 0 ? " (first value)" : " (second value)";
        }
        return r;
    }

    StorageConfig Config(std::string const& dir) const {
        auto c = StorageConfig::Builder{}
                     .SetBuildRoot(dir + "/root")
                     .SetNumGenerations((size_t)su.gens)
                     .SetHashType(su.native ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256)
                     .Build();
        if (not c) {
            throw std::runtime_error(c.error());
        }
        return *c;
    }

    // model: {item: [age, value]}; age counts rotations since the item has last
    // been stored or successfully asked for, directly or as part
    // g: rotations since the item may have been used (directories that are
    // plain blobs in compatible mode may or may not bring along their parts)
    struct M {
        std::map<std::string, std::pair<int, int>> a;
        std::map<std::string, int> g;
    };
    M Parse(std::string const& s) const {
        M m;
        auto j = Json::parse(s);
        for (auto const& [k, v] : j.items()) {
            m.a[k] = {v[0].get<int>(), v[1].get<int>()};
            m.g[k] = v[2].get<int>();
        }
        return m;
    }
    std::string Print(M const& m) const {
        Json j = Json::object();
        for (auto const& [k, v] : m.a) {
            auto it = m.g.find(k);
            j[k] = Json::array({v.first, v.second, std::min(v.first, it == m.g.end() ? v.first : it->second)});
        }
        return j.dump();
    }
    void MayRefresh(M* m, std::string const& n) const {
        m->g[n] = 0;
        if (not m->a.contains(n)) {
            m->a[n] = {su.gens, 0};
        }
        for (auto const& p : cat.items.at(n).parts) {
            MayRefresh(m, p);
        }
    }
    void RefreshDeep(M* m, std::string const& n) const {
        auto const& i = cat.items.at(n);
        if (i.kind == 'a' or i.kind == 'c') {
            auto it = m->a.find(n);
            // the entry of an implied target
            m->a[n] = {0, it == m->a.end() ? 0 : it->second.second};
            for (auto const& p : m->a[n].second == 0 ? i.parts : i.parts2) {
                RefreshDeep(m, p);
            }
            return;
        }
        m->a[n] = {0, 0};
        for (auto const& p : i.parts) {
            RefreshDeep(m, p);
        }
    }
    bool Fresh(M const& m, std::string const& n) const {
        auto it = m.a.find(n);
        return it != m.a.end() and it->second.first < su.gens;
    }

    std::string Init(std::string const& dir) override {
        ::mkdir((dir + "/root").c_str(), 0755);
        auto cfg = Config(dir);
        auto st = Storage::Create(&cfg);
        return "{}";
    }

    ArtifactDigest Dig(Item const& i) const {
        return *ArtifactDigestFactory::Create(
            su.native ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256, i.hash, i.size, i.kind == 't');
    }

    Json Known(Item const& i) const {
        return Json{{"type", "KNOWN"},
                    {"data", {{"id", i.hash}, {"size", i.size}, {"file_type", std::string(1, i.kind)}}}};
    }
    Json TcJson(Item const& e, int val) const {
        Json arts = Json::object();
        Json run = Json::object();
        Json prov_arts = Json::array();
        Json nodes = Json::object();
        Json implied = Json::array({e.hash});
        int k = 0;
        for (auto const& p : val == 0 ? e.parts : e.parts2) {
            auto const& i = cat.items.at(p);
            if (i.kind == 'c') {
                implied.push_back(i.hash);
            }
            else if (k % 3 == 0) {
                arts["path" + p] = Known(i);
                ++k;
            }
            else if (k % 3 == 1) {
                run["path" + p] = Known(i);
                ++k;
            }
            else {
                nodes["n"] = Known(i);
                prov_arts.push_back("n");
                ++k;
            }
        }
        return Json{{"artifacts", arts},
                    {"runfiles", run},
                    {"provides", {{"entry", "n"}, {"nodes", nodes}, {"provided_artifacts", prov_arts},
                                  {"provided_nodes", Json::array()}, {"provided_results", Json::array()}}},
                    {"implied export targets", implied}};
    }
    bazel_re::ActionResult AcResult(Item const& e, int val) const {
        bazel_re::ActionResult r;
        for (auto const& p : val == 0 ? e.parts : e.parts2) {
            auto const& i = cat.items.at(p);
            if (p == "lnk") {
                auto* l = r.add_output_file_symlinks();
                l->set_path("path/" + p);
                l->set_target(i.data);
            }
            else if (p == "out" or p == "err") {
                auto* d = p == "out" ? r.mutable_stdout_digest() : r.mutable_stderr_digest();
                d->set_hash((su.native ? "62" : "") + i.hash);
                d->set_size_bytes((long)i.size);
            }
            else if (i.kind == 't') {
                auto* d = r.add_output_directories();
                d->set_path("path/" + p);
                d->mutable_tree_digest()->set_hash((su.native ? "74" : "") + i.hash);
                d->mutable_tree_digest()->set_size_bytes((long)i.size);
            }
            else {
                auto* f = r.add_output_files();
                f->set_path("path/" + p);
                f->set_is_executable(i.kind == 'x');
                f->mutable_digest()->set_hash((su.native ? "62" : "") + i.hash);
                f->mutable_digest()->set_size_bytes((long)i.size);
            }
        }
        return r;
    }

    bool StoreOne(Storage const& st, std::string const& n, FailF const& fail) const {
        auto const& i = cat.items.at(n);
        auto d = i.kind == 't' ? st.CAS().StoreTree(i.data) : st.CAS().StoreBlob(i.data, i.kind == 'x');
        if (not d or d->hash() != i.hash) {
            fail("storing " + n + " does not report the digest of its content");
            return false;
        }
        return true;
    }
    bool StoreDeep(Storage const& st, std::string const& n, M* m, FailF const& fail) const {
        auto const& i = cat.items.at(n);
        if (i.kind == 'a' or i.kind == 'c') {
            return StoreEntry(st, n, m->a.contains(n) ? m->a[n].second : 0, m, fail);
        }
        for (auto const& p : i.parts) {
            if (not StoreDeep(st, p, m, fail)) {
                return false;
            }
        }
        return StoreOne(st, n, fail);
    }
    bool StoreEntry(Storage const& st, std::string const& n, int val, M* m, FailF const& fail) const {
        auto const& i = cat.items.at(n);
        for (auto const& p : val == 0 ? i.parts : i.parts2) {
            if (not StoreDeep(st, p, m, fail)) {
                return false;
            }
        }
        if (i.kind == 'a') {
            if (not st.ActionCache().StoreResult(Dig(i), AcResult(i, val))) {
                fail("storing an action result fails");
                return false;
            }
        }
        else {
            bool called = false;
            auto down = [&](std::vector<Artifact::ObjectInfo> const& infos) {
                called = true;
                for (auto const& inf : infos) {
                    bool ok = IsTreeObject(inf.type) ? st.CAS().TreePath(inf.digest).has_value()
                                                     : st.CAS().BlobPath(inf.digest, IsExecutableObject(inf.type)).has_value();
                    if (not ok) {
                        return false;
                    }
                }
                return true;
            };
            auto entry = TargetCacheEntry::FromJson(
                su.native ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256, TcJson(i, val));
            if (not st.TargetCache().Store(TargetCacheKey{{Dig(i), ObjectType::File}}, entry, down)) {
                fail("storing a target-cache entry fails");
                return false;
            }
            if (not called) {
                fail("storing a target-cache entry does not ask for the artifacts");
                return false;
            }
        }
        m->a[n] = {0, val};
        return true;
    }

    bool Apply(int opn, std::string const& dir, std::string* model, FailF const& fail) override {
        auto const& o = ops[(size_t)opn];
        auto m = Parse(*model);
        auto cfg = Config(dir);
        if (o.what.starts_with("gc") or o.what == "compactify") {
            bool ok{};
            if (o.what == "compactify") {
                ok = CompactifyFn()(cfg, su.threshold);
            }
            else {
                bool const norot = o.what == "gc-no-rotate";
                bool const all = o.what == "gc-all";
                ok = GarbageCollector::TriggerGarbageCollection(cfg, norot, all);
                if (not norot) {
                    for (auto& [k, v] : m.a) {
                        v.first = all ? su.gens : std::min(su.gens, v.first + 1);
                        m.g[k] = all ? su.gens : std::min(su.gens, m.g[k] + 1);
                    }
                }
                for (auto const& e : fs::directory_iterator(cfg.CacheRoot())) {
                    auto n = e.path().filename().string();
                    if (not n.starts_with("generation-") and n != "gc.lock") {
                        fail("garbage collection leaves " + std::string(n.starts_with("remove-me") ? "remove-me directory" : n));
                    }
                }
                if (fs::exists(cfg.EphemeralRoot()) and not fs::is_empty(cfg.EphemeralRoot())) {
                    for (auto const& e : fs::recursive_directory_iterator(cfg.CacheRoot())) {
                        if (e.is_regular_file() and e.path().string().find("/ephemeral/") != std::string::npos) {
                            fail("garbage collection leaves ephemeral files");
                        }
                    }
                }
            }
            if (not ok) {
                fail(o.what + " reports failure");
            }
            *model = Print(m);
            return true;
        }
        if (o.what == "litter") {
            // what an interrupted process leaves: ephemeral files, temporary
            // names in the stores, directories to be removed
            auto gen = cfg.CreateGenerationConfig(0);
            fs::create_directories(cfg.EphemeralRoot() / "exec_root");
            ex::Dump(cfg.EphemeralRoot() / "exec_root" / "leftover", "x");
            fs::create_directories(cfg.CacheRoot() / "remove-me1234-5-0" / "casf");
            ex::Dump(cfg.CacheRoot() / "remove-me1234-5-0" / "casf" / "old", "x");
            fs::create_directories(gen.cas_f / "ab");
            ex::Dump(gen.cas_f / "ab" / "unfinished.123-456", "part of a blob");
            fs::create_directories(gen.cas_f / "zz");
            ex::Dump(gen.cas_f / "zz" / "unfinished", "part of a blob");
            *model = Print(m);
            return true;
        }
        auto st = Storage::Create(&cfg);
        auto const& i = cat.items.at(o.item);
        if (o.what == "store") {
            if (i.kind == 'a' or i.kind == 'c') {
                if (StoreEntry(st, o.item, o.val, &m, fail)) {
                    RefreshDeep(&m, o.item);
                }
            }
            else if (StoreDeep(st, o.item, &m, fail)) {
                RefreshDeep(&m, o.item);
            }
            *model = Print(m);
            return true;
        }
        bool const promised = Fresh(m, o.item);
        bool hit = false;
        std::string const what = o.what + " of " + o.item;
        if (o.what == "split") {
            auto r = i.kind == 't' ? st.CAS().SplitTree(Dig(i)) : st.CAS().SplitBlob(Dig(i));
            if (r) {
                hit = true;
                std::string all;
                for (auto const& p : *r) {
                    auto pp = st.CAS().BlobPath(p, false);
                    std::string d;
                    if (not pp or not ex::Slurp(pp->string(), &d)) {
                        fail("a part reported by split is not available");
                        return true;
                    }
                    if (d.size() != p.size()) {
                        fail("a part reported by split has not the reported size");
                    }
                    all += d;
                }
                if (all != i.data) {
                    fail("the parts reported by split do not give the object");
                }
                if (r->size() < 2) {
                    fail("internal: object too small to be split");
                }
            }
        }
        else if (i.kind == 'a') {
            auto r = st.ActionCache().CachedResult(Dig(i));
            if (r) {
                hit = true;
                if (r->SerializeAsString() != AcResult(i, m.a.contains(o.item) ? m.a[o.item].second : 0).SerializeAsString()) {
                    fail("the action cache does not answer with the result last stored");
                }
            }
        }
        else if (i.kind == 'c') {
            auto r = st.TargetCache().Read(TargetCacheKey{{Dig(i), ObjectType::File}});
            if (r) {
                hit = true;
                if (r->first.ToJson() != TcJson(i, m.a.contains(o.item) ? m.a[o.item].second : 0)) {
                    fail("the target cache does not answer with the entry last stored");
                }
            }
        }
        else {
            bool const x = (i.kind == 'x') != (o.what == "read-other-kind");
            auto p = i.kind == 't' ? st.CAS().TreePath(Dig(i)) : st.CAS().BlobPath(Dig(i), x);
            if (p) {
                hit = true;
                std::string d;
                struct stat s {};
                if (not ex::Slurp(p->string(), &d) or ::stat(p->c_str(), &s) != 0) {
                    fail(what + ": the path reported can not be read");
                }
                else if (d != i.data) {
                    fail(what + ": wrong content");
                }
                else if ((s.st_mode & 0777) != (i.kind != 't' and x ? 0555u : 0444u)) {
                    fail(what + ": wrong permissions");
                }
            }
        }
        if (promised and not hit) {
            fail(what + ": not available, although it has been stored or used in one of the generations kept");
        }
        if (hit) {
            // the tree structure of directories is known in native mode only,
            // or if reached through a cache entry
            if (i.kind == 't' and not su.native) {
                m.a[o.item] = {0, 0};
                MayRefresh(&m, o.item);
            }
            else {
                RefreshDeep(&m, o.item);
            }
        }
        *model = Print(m);
        return true;
    }

    // Checks each generation for itself (its invariants are independent of the
    // other ones), and gives the canonical form
    std::string Canonical(std::string const& dir, std::string const& model, FailF const& fail) override {
        auto cfg = Config(dir);
        auto m = Parse(model);
        std::string key = model + "\n";
        std::map<std::string, std::string> by_hash;
        for (auto const& [n, i] : cat.items) {
            by_hash[(i.kind == 't' and su.native ? "t" : i.kind == 'a' ? "a" : i.kind == 'c' ? "c" : "b") + i.hash] = n;
        }
        std::set<std::string> on_disk;
        for (int g = 0; g < su.gens; ++g) {
            auto gc = cfg.CreateGenerationConfig((size_t)g);
            std::set<std::string> f, x, t, lf, lt;
            std::map<std::string, std::string> ac, tc;
            auto scan = [&](fs::path const& root, char kind, std::set<std::string>* out, std::map<std::string, std::string>* val) {
                if (not fs::exists(root)) {
                    return;
                }
                for (auto const& e : fs::recursive_directory_iterator(root)) {
                    if (e.is_directory()) {
                        continue;
                    }
                    auto rel = e.path().lexically_relative(root).string();
                    std::string id;
                    for (char c : rel) {
                        if (c != '/') {
                            id += c;
                        }
                    }
                    std::string data;
                    if (not ex::Slurp(e.path().string(), &data)) {
                        fail("unreadable file in the storage");
                        continue;
                    }
                    if (val != nullptr) {
                        // sharded by backend description for the target cache
                        if (kind == 'c') {
                            auto s = rel.find('/');
                            rel = rel.substr(s + 1);
                            id.clear();
                            for (char c : rel) {
                                if (c != '/') {
                                    id += c;
                                }
                            }
                        }
                        (*val)[id] = data;
                        continue;
                    }
                    auto const len = su.native ? 40U : 64U;
                    if (id.size() != len or id.find_first_not_of("0123456789abcdef") != std::string::npos) {
                        out->insert("litter:" + rel);
                        continue;
                    }
                    out->insert(id);
                    if (kind == 'f' or kind == 'x' or kind == 't') {
                        if (ObjHash(data, su.native, kind == 't') != id) {
                            fail("file in the storage does not have the content its name promises");
                        }
                    }
                    else if (val == nullptr) {
                        // large object: list of parts
                        auto j = Json::parse(data, nullptr, false);
                        if (j.is_discarded() or not j.is_array()) {
                            fail("unreadable entry for a large object");
                            continue;
                        }
                        std::string all;
                        for (auto const& p : j) {
                            auto h = p[0].get<std::string>();
                            std::string d;
                            if (not ex::Slurp((gc.cas_f / h.substr(0, 2) / h.substr(2)).string(), &d)) {
                                fail("part of a large object is not in the same generation");
                            }
                            all += d;
                        }
                        if (ObjHash(all, su.native, kind == 'T') != id and (su.native or ObjHash(all, false, true) != id)) {
                            fail("the parts of a large object do not give the object");
                        }
                    }
                }
            };
            scan(gc.cas_f, 'f', &f, nullptr);
            scan(gc.cas_x, 'x', &x, nullptr);
            scan(gc.cas_t, su.native ? 't' : 'f', su.native ? &t : &f, nullptr);
            scan(gc.cas_large_f, 'F', &lf, nullptr);
            scan(gc.cas_large_t, su.native ? 'T' : 'F', su.native ? &lt : &lf, nullptr);
            scan(gc.action_cache, 'a', nullptr, &ac);
            scan(gc.target_cache, 'c', nullptr, &tc);
            auto have = [&](std::string const& h, bool tree) {
                return tree and su.native ? t.contains(h) or lt.contains(h)
                                          : f.contains(h) or x.contains(h) or lf.contains(h);
            };
            std::string const in = " in the same generation";
            for (auto const& [n, i] : cat.items) {
                if (i.kind == 't' and su.native and have(i.hash, true)) {
                    for (auto const& p : i.parts) {
                        auto const& pi = cat.items.at(p);
                        if (not have(pi.hash, pi.kind == 't')) {
                            fail("tree " + n + " is stored, but its entry " + p + " is not" + in);
                        }
                    }
                }
            }
            std::function<void(std::string const&, std::string const&)> closure = [&](std::string const& who, std::string const& n) {
                auto const& i = cat.items.at(n);
                if (i.kind == 'c') {
                    if (not tc.contains(i.hash)) {
                        fail(who + " is stored, but the entry of the implied target " + n + " is not" + in);
                    }
                    return;
                }
                if (not have(i.hash, i.kind == 't')) {
                    fail(who + " is stored, but the object " + n + " it refers to is not" + in);
                }
                for (auto const& p : i.parts) {
                    closure(who, p);
                }
            };
            auto value = [&](std::string const& h) {
                std::string d;
                for (auto const& root : {gc.cas_f, gc.cas_x}) {
                    if (ex::Slurp((root / h.substr(0, 2) / h.substr(2)).string(), &d)) {
                        return d;
                    }
                }
                return d;
            };
            for (auto const& [k, v] : ac) {
                auto it = by_hash.find("a" + k);
                auto j = Json::parse(v, nullptr, false);
                if (it == by_hash.end() or j.is_discarded()) {
                    fail("unexpected entry in the action cache");
                    continue;
                }
                auto const& i = cat.items.at(it->second);
                auto d = value(j[0].get<std::string>());
                int val = d == AcResult(i, 0).SerializeAsString() ? 0 : d == AcResult(i, 1).SerializeAsString() ? 1 : -1;
                if (val < 0) {
                    fail("action-cache entry " + i.name + " is stored, but not its value" + in);
                    continue;
                }
                for (auto const& p : val == 0 ? i.parts : i.parts2) {
                    closure("action-cache entry " + i.name, p);
                }
                key += "a" + i.name + std::to_string(val);
                on_disk.insert(i.name);
            }
            for (auto const& [k, v] : tc) {
                auto it = by_hash.find("c" + k);
                if (it == by_hash.end() or v.size() < 10) {
                    fail("unexpected entry in the target cache");
                    continue;
                }
                auto const& i = cat.items.at(it->second);
                auto d = value(v.substr(1, v.find(':') - 1));
                auto j = Json::parse(d, nullptr, false);
                int val = j == TcJson(i, 0) ? 0 : j == TcJson(i, 1) ? 1 : -1;
                if (val < 0) {
                    fail("target-cache entry " + i.name + " is stored, but not its value" + in);
                    continue;
                }
                for (auto const& p : val == 0 ? i.parts : i.parts2) {
                    closure("target-cache entry " + i.name, p);
                }
                key += "c" + i.name + std::to_string(val);
                on_disk.insert(i.name);
            }
            for (auto const* s : {&f, &x, &t, &lf, &lt}) {
                for (auto const& e : *s) {
                    key += e.substr(0, 10) + ",";
                    auto it = by_hash.find((s == &t or s == &lt ? "t" : "b") + e);
                    if (it != by_hash.end()) {
                        on_disk.insert(it->second);
                    }
                }
                key += "|";
            }
            key += "\n";
        }
        for (auto const& n : on_disk) {
            auto it = m.a.find(n);
            if (it == m.a.end() or (it->second.first >= su.gens and m.g[n] >= su.gens)) {
                fail(n + " still occupies space, although neither stored nor used in any of the generations kept");
            }
        }
        for (auto const& e : fs::directory_iterator(cfg.CacheRoot())) {
            if (e.path().filename().string().starts_with("remove-me")) {
                key += "R";
            }
        }
        bool eph = false;
        if (fs::exists(cfg.EphemeralRoot())) {
            for (auto const& e : fs::recursive_directory_iterator(cfg.EphemeralRoot())) {
                eph = eph or e.is_regular_file();
            }
        }
        return key + (eph ? "E" : "");
    }
};
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    bool const th = hn::ctx().thorough;
    bool caches = false;
    for (int k = 1; k < argc; ++k) {
        caches = caches or std::string{argv[k]} == "--caches";
    }
    std::vector<Setup> v;
    if (not caches) {
        v.push_back({"blobs-and-trees", true, 2, {"f", "x", "t1", "tt"}, {"gc", "gc-no-rotate", "gc-all", "litter"}});
        v.push_back({"blobs-and-trees-3-generations", true, 3, {"f", "t1"}, {"gc", "gc-all"}});
        v.push_back({"one-generation", true, 1, {"f", "t1", "a1"}, {"gc", "gc-no-rotate", "gc-all", "compactify"}});
        v.push_back({"large-blob", true, 2, {"L"}, {"gc", "compactify"}});
        v.push_back({"large-executable", true, 2, {"X"}, {"gc", "gc-no-rotate", "compactify"}});
        v.push_back({"large-in-tree", true, 2, {"L", "tL"}, {"gc", "compactify"}});
        v.push_back({"large-tree", true, 2, {"LT", "tLT"}, {"gc", "compactify"}});
        v.push_back({"compatible-blobs", false, 2, {"f", "x", "t1"}, {"gc", "gc-no-rotate", "gc-all", "litter"}});
        v.push_back({"compatible-large", false, 2, {"L", "LT"}, {"gc", "compactify"}});
        if (th) {
            v.push_back({"large-blobs", true, 2, {"L", "X"}, {"gc", "compactify"}});
            v.push_back({"large-3-generations", true, 3, {"L", "tL"}, {"gc", "gc-no-rotate", "gc-all", "compactify"}});
            v.push_back({"large-tree-all-ops", true, 2, {"LT", "tLT", "f", "t1"}, {"gc", "gc-no-rotate", "gc-all", "compactify", "litter"}});
            v.push_back({"trees-3-generations", true, 3, {"f", "x", "t1", "tt"}, {"gc", "gc-all"}});
            v.push_back({"compatible-3-generations", false, 3, {"f", "t1", "tt"}, {"gc", "gc-all", "litter"}});
            v.push_back({"compatible-large-trees", false, 2, {"L", "tL", "LT"}, {"gc", "compactify"}});
        }
    }
    else {
        v.push_back({"action-cache", true, 2, {"a1", "f", "t1"}, {"gc", "gc-all"}});
        v.push_back({"action-cache-large", true, 2, {"a2", "L"}, {"gc", "compactify"}});
        v.push_back({"action-cache-large-tree", true, 2, {"a3"}, {"gc", "compactify"}});
        v.push_back({"target-cache", true, 2, {"c0", "c1"}, {"gc", "gc-all"}});
        v.push_back({"target-cache-large", true, 2, {"c2"}, {"gc", "compactify"}});
        v.push_back({"both-caches", true, 2, {"a1", "c0"}, {"gc"}});
        v.push_back({"compatible-action-cache", false, 2, {"a1", "t1"}, {"gc"}});
        v.push_back({"compatible-action-cache-large", false, 2, {"a3"}, {"gc", "compactify"}});
        v.push_back({"compatible-target-cache", false, 2, {"c1", "t1"}, {"gc", "gc-all"}});
        v.push_back({"compatible-target-cache-large", false, 2, {"c2"}, {"gc", "compactify"}});
        if (th) {
            v.push_back({"target-cache-blob", true, 2, {"c0", "c1", "f"}, {"gc", "gc-all"}});
            v.push_back({"target-cache-large-blob", true, 2, {"c2", "L"}, {"gc", "compactify"}});
            v.push_back({"compatible-two-actions", false, 2, {"a1", "a3"}, {"gc", "compactify"}});
            v.push_back({"action-and-target-cache", true, 2, {"a1", "c1"}, {"gc", "gc-all"}});
            v.push_back({"action-cache-3-generations", true, 3, {"a1", "f", "t1"}, {"gc", "gc-all"}});
            v.push_back({"target-cache-3-generations", true, 3, {"c0", "c1"}, {"gc"}});
        }
    }
    for (auto const& s : v) {
        ex::Explore(s.name,
                    "storage operations (" + std::to_string(s.gens) + " generations)",
                    [s] { return std::make_unique<GcSystem>(s); },
                    -1,
                    th ? 200000 : 40000);
    }
    return hn::Finish();
}
