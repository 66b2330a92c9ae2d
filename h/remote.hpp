// The remote-execution client and the execution service, in one process,
// connected by the stand-in of proto/remote.
#ifndef VERIF_REMOTE_HPP
#define VERIF_REMOTE_HPP
#define VERIF_REMOTE
#include <time.h>
#include <mutex>
#include "h/build.hpp"
#include "google/bytestream/bytestream.grpc.pb.h"
#include "google/longrunning/operations.grpc.pb.h"
#include "build/bazel/remote/execution/v2/remote_execution.grpc.pb.h"
#include "src/buildtool/execution_api/execution_service/ac_server.hpp"
#include "src/buildtool/execution_api/execution_service/bytestream_server.hpp"
#include "src/buildtool/execution_api/execution_service/capabilities_server.hpp"
#include "src/buildtool/execution_api/execution_service/cas_server.hpp"
#include "src/buildtool/execution_api/execution_service/execution_server.hpp"
#include "src/buildtool/execution_api/execution_service/operations_server.hpp"

// waiting between attempts takes no time
extern "C" int nanosleep(timespec const*, timespec*) { return 0; }
extern "C" int clock_nanosleep(clockid_t, int, timespec const*, timespec*) { return 0; }

namespace rx {
using namespace bl;
namespace re = build::bazel::remote::execution::v2;
using grpc::Fault;
using grpc::StatusCode;

// what the server says it can do (negative: what the built-in server says)
struct Caps {
    long max_batch = -1;
    bool split = false, splice = false;
    int low = -1, high = -1;  // minor versions
    bool none = false;        // no capabilities service
    [[nodiscard]] std::string Show() const {
        return none ? "no capabilities"
                    : "batch " + std::to_string(max_batch) + (split ? " split" : "") + (splice ? " splice" : "") +
                          " versions 2." + std::to_string(low) + "-2." + std::to_string(high);
    }
};
class CapServer : public re::Capabilities::Service {
  public:
    CapServer(HashFunction::Type t, Caps c) : real_{t}, c_{c} {}
    auto GetCapabilities(::grpc::ServerContext* x, re::GetCapabilitiesRequest const* q, re::ServerCapabilities* r)
        -> ::grpc::Status override {
        if (c_.none) {
            return ::grpc::Status{StatusCode::UNIMPLEMENTED, "none"};
        }
        auto s = real_.GetCapabilities(x, q, r);
        auto* cc = r->mutable_cache_capabilities();
        if (c_.max_batch >= 0) {
            cc->set_max_batch_total_size_bytes(c_.max_batch);
        }
        cc->set_blob_split_support(c_.split);
        cc->set_blob_splice_support(c_.splice);
        if (c_.low >= 0) {
            r->mutable_low_api_version()->set_minor(c_.low);
        }
        if (c_.high >= 0) {
            r->mutable_high_api_version()->set_minor(c_.high);
        }
        return s;
    }

  private:
    CapabilitiesServiceImpl real_;
    Caps c_;
};

struct Server {
    StorageConfig sc;
    Storage st;
    LocalExecutionConfig lec;
    LocalContext lc;
    LocalApi api;
    ExecutionServiceImpl es;
    ActionCacheServiceImpl ac;
    CASServiceImpl cas;
    BytestreamServiceImpl bs;
    CapServer cap;
    OperationsServiceImpl op;
    std::string address;
    Server(std::string const& at, bool native, Caps const& caps = {}, std::string addr = "server:1")
        : sc(MakeConfig(at, native)),
          st(Storage::Create(&sc)),
          lc{&lec, &sc, &st},
          api(&lc),
          es{&lc, &api, std::nullopt},
          ac{&lc},
          cas{&lc},
          bs{&lc},
          cap{sc.hash_function.GetType(), caps},
          op{&es.GetOpCache()},
          address(std::move(addr)) {
        grpc::Registry::Register<re::Execution::Service>(address, &es);
        grpc::Registry::Register<re::ActionCache::Service>(address, &ac);
        grpc::Registry::Register<re::ContentAddressableStorage::Service>(address, &cas);
        grpc::Registry::Register<google::bytestream::ByteStream::Service>(address, &bs);
        grpc::Registry::Register<re::Capabilities::Service>(address, &cap);
        grpc::Registry::Register<google::longrunning::Operations::Service>(address, &op);
    }
    Server(Server const&) = delete;
};
inline RemoteExecutionConfig RemoteAt(std::string const& address) {
    auto r = RemoteExecutionConfig::Builder{}.SetRemoteAddress(address).SetRemoteInstanceName("inst").Build();
    if (not r) {
        throw std::runtime_error(r.error());
    }
    return *r;
}
inline RetryConfig Attempts(unsigned n) {
    auto r = RetryConfig::Builder{}.SetMaxAttempts(n).Build();
    if (not r) {
        throw std::runtime_error(r.error());
    }
    return *r;
}
inline std::unique_ptr<Site> Client(std::string const& at, bool native, std::string const& src = "", unsigned attempts = 1,
                                    std::string const& address = "server:1") {
    return std::make_unique<Site>(at, native, src, RemoteAt(address), Attempts(attempts));
}

// the calls made, and the one (or two) that does not go well
struct Calls {
    std::mutex m;
    std::vector<std::string> made;
    std::map<long, Fault> at;
    long hit = 0;
    void Install() {
        grpc::Wire::Get().hook = [this](std::string const& n) {
            std::unique_lock l{m};
            auto k = (long)made.size();
            made.push_back(n);
            auto it = at.find(k);
            if (it == at.end()) {
                return Fault{};
            }
            ++hit;
            return it->second;
        };
    }
    void Remove() { grpc::Wire::Get().hook = nullptr; }
    ~Calls() { Remove(); }
};
inline std::string Show(Fault const& f) {
    using W = Fault::Where;
    std::string r = f.where == W::Before ? "not done" : f.where == W::After ? "reply lost" : "cut after " + std::to_string(f.pos);
    return r + " code " + std::to_string((int)f.code);
}

// what is in a storage, looked up without the code under test
inline std::optional<std::string> Stored(StorageConfig const& sc, bool tree, std::string const& hash) {
    for (std::size_t g = 0; g < 2; ++g) {
        auto gc = sc.CreateGenerationConfig(g);
        for (auto const& d : tree ? std::vector<fs::path>{gc.cas_t} : std::vector<fs::path>{gc.cas_f, gc.cas_x}) {
            auto p = d / hash.substr(0, 2) / hash.substr(2);
            if (fs::exists(p)) {
                return ReadAll(p.string());
            }
        }
    }
    return std::nullopt;
}
// all objects of a storage
inline std::vector<std::string> Objects(StorageConfig const& sc) {
    std::vector<std::string> r;
    std::error_code ec;
    for (std::size_t g = 0; g < 2; ++g) {
        auto gc = sc.CreateGenerationConfig(g);
        for (auto const& d : {gc.cas_f, gc.cas_x, gc.cas_t}) {
            for (auto const& e : fs::recursive_directory_iterator(d, ec)) {
                if (e.is_regular_file()) {
                    r.push_back(e.path().string());
                }
            }
        }
    }
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
}  // namespace rx
#endif
