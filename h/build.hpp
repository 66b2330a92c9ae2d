// Everything needed to run actions and builds with the real local execution
// API and graph traverser on a storage of its own.
#ifndef VERIF_BUILD_HPP
#define VERIF_BUILD_HPP
#ifndef VERIF_REMOTE
#include "h/bazel_stub.hpp"
#endif
#include "h/trees.hpp"
#include "rt/harness.hpp"
#include "src/buildtool/auth/authentication.hpp"
#include "src/buildtool/common/remote/retry_config.hpp"
#include "src/buildtool/common/repository_config.hpp"
#include "src/buildtool/common/statistics.hpp"
#include "src/buildtool/execution_api/bazel_msg/bazel_msg_factory.hpp"
#include "src/buildtool/execution_api/common/api_bundle.hpp"
#include "src/buildtool/execution_api/local/config.hpp"
#include "src/buildtool/execution_api/local/context.hpp"
#include "src/buildtool/execution_api/local/local_api.hpp"
#include "src/buildtool/execution_api/remote/bazel/bazel_api.hpp"
#include "src/buildtool/execution_api/remote/context.hpp"
#include "src/buildtool/file_system/file_root.hpp"
#include "src/buildtool/file_system/git_context.hpp"
#include "src/buildtool/graph_traverser/graph_traverser.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/storage/config.hpp"
#include "src/buildtool/storage/garbage_collector.hpp"
#include "src/buildtool/storage/storage.hpp"

namespace bl {
using hn::Json;
using trees::Node;
namespace fs = std::filesystem;

inline StorageConfig MakeConfig(std::string const& at, bool native) {
    auto c = StorageConfig::Builder{}
                 .SetBuildRoot(at)
                 .SetNumGenerations(2)
                 .SetHashType(native ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256)
                 .Build();
    if (not c) {
        throw std::runtime_error(c.error());
    }
    return *c;
}

// a storage, with what is needed to build using it
struct Site {
    StorageConfig sc;
    Storage st;
    LocalExecutionConfig lec;
    LocalContext lc;
    RepositoryConfig rc;
    Auth auth;
    RetryConfig retry;
    RemoteExecutionConfig rec;
    RemoteContext rctx;
    ApiBundle apis;
    Site(std::string const& at, bool native, std::string const& src, RemoteExecutionConfig const& remote = {},
         RetryConfig const& retries = {})
        : sc(MakeConfig(at, native)),
          st(Storage::Create(&sc)),
          lc{&lec, &sc, &st},
          retry{retries},
          rec{remote},
          rctx{&auth, &retry, &rec},
          apis(Apis(src)) {}
    Site(Site const&) = delete;

  private:
    ApiBundle Apis(std::string const& src) {
        if (not src.empty()) {
            rc.SetInfo("", RepositoryConfig::RepositoryInfo{FileRoot{fs::path{src}}});
        }
        return ApiBundle::Create(&lc, &rctx, &rc);
    }
};

struct Graph {
    std::map<std::string, Json> actions, trees, overlays;
    std::vector<std::string> blobs;
    // artifacts given directly: as inputs of actions, and as {"direct": name}
    std::map<std::string, ArtifactDescription> direct;
    std::map<std::string, std::map<std::string, std::string>> direct_inputs;
};
inline Json Direct(std::string const& n) { return Json{{"direct", n}}; }
inline Json Local(std::string const& p) {
    return Json{{"type", "LOCAL"}, {"data", {{"path", p}, {"repository", ""}}}};
}
inline Json Out(std::string const& id, std::string const& p) {
    return Json{{"type", "ACTION"}, {"data", {{"id", id}, {"path", p}}}};
}
inline Json TreeOf(std::string const& id) { return Json{{"type", "TREE"}, {"data", {{"id", id}}}}; }
inline Json OverlayOf(std::string const& id) { return Json{{"type", "TREE_OVERLAY"}, {"data", {{"id", id}}}}; }

struct Result {
    bool ok = false;
    bool failed = false;
    std::map<std::string, Artifact::ObjectInfo> infos;
    int executed = 0, cached = 0;
    Json flaky;
};

inline Result Build(Site& site, Graph const& g, std::map<std::string, Json> const& want,
                    std::optional<std::string> const& stage, std::optional<std::string> const& flaky = std::nullopt,
                    std::size_t jobs = 1) {
    auto ht = site.sc.hash_function.GetType();
    Result r;
    std::vector<ActionDescription::Ptr> as;
    for (auto const& [id, j] : g.actions) {
        auto a = ActionDescription::FromJson(ht, id, j);
        if (not a) {
            throw std::runtime_error("action " + id + j.dump());
        }
        if (auto d = g.direct_inputs.find(id); d != g.direct_inputs.end()) {
            auto in = (*a)->Inputs();
            for (auto const& [p, n] : d->second) {
                in.insert_or_assign(p, g.direct.at(n));
            }
            as.push_back(std::make_shared<ActionDescription>((*a)->OutputFiles(), (*a)->OutputDirs(), (*a)->GraphAction(), in));
            continue;
        }
        as.push_back(*a);
    }
    std::vector<Tree::Ptr> ts;
    for (auto const& [id, j] : g.trees) {
        auto t = Tree::FromJson(ht, id, j);
        if (not t) {
            throw std::runtime_error("tree " + j.dump());
        }
        ts.push_back(*t);
    }
    std::vector<TreeOverlay::Ptr> os;
    for (auto const& [id, j] : g.overlays) {
        auto t = TreeOverlay::FromJson(ht, id, j);
        if (not t) {
            throw std::runtime_error("overlay " + j.dump());
        }
        os.push_back(*t);
    }
    std::map<std::string, ArtifactDescription> arts;
    std::vector<ArtifactDescription> extra;
    std::vector<std::pair<std::string, ArtifactDescription>> names;
    for (auto const& [p, j] : want) {
        std::optional<ArtifactDescription> a;
        if (j.contains("direct")) {
            a = g.direct.at(j["direct"].get<std::string>());
        }
        else {
            a = ArtifactDescription::FromJson(ht, j);
        }
        if (not a) {
            throw std::runtime_error("artifact " + j.dump());
        }
        arts.emplace(p, *a);
        if (std::find(extra.begin(), extra.end(), *a) == extra.end()) {
            extra.push_back(*a);
        }
        names.emplace_back(p, *a);
    }
    Statistics stats;
    Progress progress;
    ExecutionContext ctx{.repo_config = &site.rc,
                         .apis = gsl::not_null<ApiBundle const*>(&site.apis),
                         .remote_context = &site.rctx,
                         .statistics = &stats,
                         .progress = &progress,
                         .profile = std::nullopt};
    gsl::not_null<ApiBundle const*> const apis{&site.apis};
    ExecutionContext c2{.repo_config = &site.rc,
                        .apis = apis,
                        .remote_context = &site.rctx,
                        .statistics = &stats,
                        .progress = &progress,
                        .profile = std::nullopt};
    GraphTraverser::CommandLineArguments args;
    args.jobs = jobs;
    args.build.build_jobs = jobs;
    if (stage) {
        args.stage = StageArguments{.output_dir = *stage};
    }
    if (flaky) {
        args.rebuild = RebuildArguments{.cache_endpoint = std::nullopt, .dump_flaky = fs::path{*flaky}};
    }
    GraphTraverser t{args, &c2, [](std::atomic<bool>*, std::condition_variable*) {}};
    auto res = t.BuildAndStage(arts, {}, std::move(as), std::vector<std::string>{g.blobs}, std::move(ts), std::move(os),
                               std::move(extra));
    r.executed = (int)stats.ActionsExecutedCounter();
    r.cached = (int)stats.ActionsCachedCounter();
    if (res) {
        r.ok = true;
        r.failed = res->failed_artifacts;
        for (auto const& [p, a] : names) {
            r.infos.emplace(p, res->extra_infos.at(a));
        }
        if (flaky) {
            std::ifstream in(*flaky);
            r.flaky = Json::parse(in);
        }
    }
    return r;
}

// the digest an artifact has to have
inline std::pair<std::string, std::size_t> Digest(Node const& n, bool native) {
    if (native) {
        return {trees::TreeId(n), n.k == 'd' ? trees::TreeData(n).size() : n.data.size()};
    }
    if (n.k != 'd') {
        return {trees::Hex(trees::Raw(n.data, false)), n.data.size()};
    }
    bazel_re::Directory d;
    for (auto const& [name, c] : n.ch) {
        if (c.k == 'l') {
            auto* s = d.add_symlinks();
            s->set_name(name);
            s->set_target(c.data);
            continue;
        }
        auto [h, sz] = Digest(c, false);
        bazel_re::Digest dg;
        dg.set_hash(h);
        dg.set_size_bytes((long)sz);
        if (c.k == 'd') {
            auto* s = d.add_directories();
            s->set_name(name);
            *s->mutable_digest() = dg;
        }
        else {
            auto* s = d.add_files();
            s->set_name(name);
            *s->mutable_digest() = dg;
            s->set_is_executable(c.k == 'x');
        }
    }
    auto data = d.SerializeAsString();
    return {trees::Hex(trees::Raw(data, false)), data.size()};
}
inline char Kind(Node const& n) { return n.k == 'd' ? 't' : n.k; }
// what is wrong with it
inline std::string Wrong(Artifact::ObjectInfo const& i, Node const& n, bool native) {
    auto [h, sz] = Digest(n, native);
    if (ToChar(i.type) != Kind(n)) {
        return std::string("kind ") + ToChar(i.type) + " instead of " + Kind(n);
    }
    if (i.digest.hash() != h or (i.digest.size() != 0 and i.digest.size() != sz)) {
        return "digest " + i.digest.hash() + ":" + std::to_string(i.digest.size()) + " instead of " + h + ":" +
               std::to_string(sz);
    }
    if (native and i.digest.IsTree() != (n.k == 'd')) {
        return "wrong kind of digest";
    }
    return "";
}
// without empty directories (they are not installed)
inline Node Strip(Node const& n) {
    if (n.k != 'd') {
        return n;
    }
    Node r = trees::D();
    for (auto const& [name, c] : n.ch) {
        auto s = Strip(c);
        if (s.k != 'd' or not s.ch.empty()) {
            r.ch[name] = s;
        }
    }
    return r;
}
inline std::string Quote(std::string const& s) {
    std::string r = "'";
    for (char c : s) {
        r += c == '\'' ? std::string("'\\''") : std::string(1, c);
    }
    return r + "'";
}
// shell commands creating it
inline std::string Make(Node const& n, std::string const& p, bool top = true) {
    auto q = Quote(p);
    std::string pre = top and n.k != 'd' ? "[ -d " + q + " ] && rmdir " + q + "\n" : "";
    switch (n.k) {
        case '-':
            return pre;
        case 'd': {
            std::string r = "mkdir -p " + q + "\n";
            for (auto const& [name, c] : n.ch) {
                r += Make(c, p + "/" + name, false);
            }
            return r;
        }
        case 'l':
            return pre + "ln -s " + Quote(n.data) + " " + q + "\n";
        case 'p':
            return pre + "mkfifo " + q + "\n";
        default:
            return pre + "printf %s " + Quote(n.data) + " > " + q + "\n" + (n.k == 'x' ? "chmod 755 " + q + "\n" : "");
    }
}
inline std::string ReadAll(std::string const& p) {
    std::ifstream in(p, std::ios::binary);
    return {(std::istreambuf_iterator<char>(in)), {}};
}
}  // namespace bl
#endif
