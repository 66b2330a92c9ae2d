// Stand-in for gRPC: client and server in one process. Messages go through
// their wire form; every call can be made to fail by the harness.
#pragma once
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>
#include "google/protobuf/message.h"
#include "grpcpp/support/status.h"
namespace grpc {
// What becomes of a call (set by the harness)
struct Fault {
    enum class Where { None, Before, After, Stream } where{Where::None};
    StatusCode code{StatusCode::UNAVAILABLE};
    int pos{};  // Stream: messages that get through
};
struct Wire {
    static auto Get() -> Wire& {
        static Wire w;
        return w;
    }
    // method name -> what happens; may be called by several threads
    std::function<Fault(std::string const&)> hook;
    // changes messages sent by the server
    std::function<void(std::string const&, ::google::protobuf::Message*)> mutate;
    void Mutate(std::string const& m, ::google::protobuf::Message* msg) {
        if (mutate) {
            mutate(m, msg);
        }
    }
    static constexpr std::size_t kMaxMessage = 4U * 1024U * 1024U;
    auto Ask(std::string const& m) -> Fault { return hook ? hook(m) : Fault{}; }
    template <class T>
    static auto Send(T const& from, T* to) -> Status {
        std::string s;
        if (not from.SerializeToString(&s)) {
            return Status{StatusCode::INTERNAL, "serialization"};
        }
        if (s.size() > kMaxMessage) {
            return Status{StatusCode::RESOURCE_EXHAUSTED, "received message larger than max"};
        }
        if (not to->ParseFromString(s)) {
            return Status{StatusCode::INTERNAL, "deserialization"};
        }
        return Status{};
    }
};
class ClientContext {
  public:
    ClientContext() = default;
    ClientContext(ClientContext const&) = delete;
    auto operator=(ClientContext const&) -> ClientContext& = delete;
};
class ServerContext {};
struct ChannelCredentials {};
struct ServerCredentials {};
struct SslCredentialsOptions {
    std::string pem_root_certs, pem_private_key, pem_cert_chain;
};
inline auto SslCredentials(SslCredentialsOptions const&) { return std::make_shared<ChannelCredentials>(); }
inline auto InsecureChannelCredentials() { return std::make_shared<ChannelCredentials>(); }

// an address and the services to be found there
class Service {
  public:
    virtual ~Service() = default;
};
struct Channel {
    std::string address;
};
inline auto CreateChannel(std::string const& a, std::shared_ptr<ChannelCredentials> const&) {
    return std::make_shared<Channel>(Channel{a});
}
struct Registry {
    static auto Get() -> std::map<std::pair<std::string, std::string>, Service*>& {
        static std::map<std::pair<std::string, std::string>, Service*> r;
        return r;
    }
    template <class S>
    static auto Find(std::string const& address) -> S* {
        auto it = Get().find({address, S::Name()});
        return it == Get().end() ? nullptr : dynamic_cast<S*>(it->second);
    }
    template <class S>
    static void Register(std::string const& address, S* s) {
        Get()[{address, S::Name()}] = s;
    }
};

template <class T>
class ServerWriter {
  public:
    std::vector<std::string> out;
    Status error;
    auto Write(T const& t) -> bool {
        T x;
        auto s = Wire::Send(t, &x);
        if (not s.ok()) {
            error = s;
            return false;
        }
        out.push_back(x.SerializeAsString());
        return true;
    }
};
template <class T>
class ServerReader {
  public:
    std::deque<T> in;
    bool broken{};
    auto Read(T* t) -> bool {
        if (in.empty()) {
            return false;
        }
        *t = std::move(in.front());
        in.pop_front();
        return true;
    }
};
template <class T>
class ClientReader {
  public:
    std::deque<T> in;
    Status status;
    auto Read(T* t) -> bool {
        if (in.empty()) {
            return false;
        }
        *t = std::move(in.front());
        in.pop_front();
        return true;
    }
    auto Finish() -> Status { return status; }
};
template <class T>
class ClientWriter {
  public:
    std::function<Status(std::deque<T>)> run;
    std::deque<T> out;
    Fault fault;
    Status error;
    bool Write(T const& t) {
        if (not error.ok() or (fault.where == Fault::Where::Stream and (int)out.size() >= fault.pos)) {
            return false;
        }
        T x;
        error = Wire::Send(t, &x);
        if (not error.ok()) {
            return false;
        }
        out.push_back(std::move(x));
        return true;
    }
    bool WritesDone() { return error.ok() and not(fault.where == Fault::Where::Stream and (int)out.size() >= fault.pos); }
    auto Finish() -> Status {
        if (not error.ok()) {
            return error;
        }
        if (fault.where == Fault::Where::Before or fault.where == Fault::Where::Stream) {
            return Status{fault.code, "fault"};
        }
        auto s = run(std::move(out));
        return fault.where == Fault::Where::After ? Status{fault.code, "fault"} : s;
    }
};

template <class S, class Req, class Resp>
auto CallUnary(std::string const& address, std::string const& method, Req const& req, Resp* resp,
               Status (S::*f)(ServerContext*, Req const*, Resp*)) -> Status {
    auto fault = Wire::Get().Ask(method);
    if (fault.where == Fault::Where::Before) {
        return Status{fault.code, "fault"};
    }
    auto* s = Registry::Find<S>(address);
    if (s == nullptr) {
        return Status{StatusCode::UNAVAILABLE, "no server"};
    }
    Req r;
    if (auto st = Wire::Send(req, &r); not st.ok()) {
        return st;
    }
    Resp out;
    ServerContext ctx;
    auto st = (s->*f)(&ctx, &r, &out);
    if (fault.where != Fault::Where::None) {
        return Status{fault.code, "fault"};
    }
    if (not st.ok()) {
        return st;
    }
    Wire::Get().Mutate(method, &out);
    return Wire::Send(out, resp);
}
template <class S, class Req, class Resp>
auto CallServerStream(std::string const& address, std::string const& method, Req const& req,
                      Status (S::*f)(ServerContext*, Req const*, ServerWriter<Resp>*)) -> std::unique_ptr<ClientReader<Resp>> {
    auto rd = std::make_unique<ClientReader<Resp>>();
    auto fault = Wire::Get().Ask(method);
    auto* s = Registry::Find<S>(address);
    if (fault.where == Fault::Where::Before or s == nullptr) {
        rd->status = Status{fault.where == Fault::Where::Before ? fault.code : StatusCode::UNAVAILABLE, "fault"};
        return rd;
    }
    Req r;
    if (auto st = Wire::Send(req, &r); not st.ok()) {
        rd->status = st;
        return rd;
    }
    ServerContext ctx;
    ServerWriter<Resp> w;
    auto st = (s->*f)(&ctx, &r, &w);
    rd->status = w.error.ok() ? st : w.error;
    for (auto const& m : w.out) {
        if (fault.where == Fault::Where::Stream and (int)rd->in.size() >= fault.pos) {
            break;
        }
        Resp x;
        x.ParseFromString(m);
        Wire::Get().Mutate(method, &x);
        rd->in.push_back(std::move(x));
    }
    if (fault.where != Fault::Where::None) {
        rd->status = Status{fault.code, "fault"};
    }
    return rd;
}
template <class S, class Req, class Resp>
auto CallClientStream(std::string const& address, std::string const& method, Resp* resp,
                      Status (S::*f)(ServerContext*, ServerReader<Req>*, Resp*)) -> std::unique_ptr<ClientWriter<Req>> {
    auto w = std::make_unique<ClientWriter<Req>>();
    w->fault = Wire::Get().Ask(method);
    w->run = [address, f, resp](std::deque<Req> in) -> Status {
        auto* s = Registry::Find<S>(address);
        if (s == nullptr) {
            return Status{StatusCode::UNAVAILABLE, "no server"};
        }
        ServerContext ctx;
        ServerReader<Req> r;
        r.in = std::move(in);
        Resp out;
        auto st = (s->*f)(&ctx, &r, &out);
        return st.ok() ? Wire::Send(out, resp) : st;
    };
    return w;
}
}  // namespace grpc

#define GRPC_STANDIN_STUB(X)                                                                        \
    class Stub {                                                                                    \
      public:                                                                                       \
        explicit Stub(std::string a) : a_{std::move(a)} {}                                          \
        X std::string a_;                                                                           \
    };                                                                                              \
    static auto NewStub(std::shared_ptr<::grpc::Channel> const& c) -> std::unique_ptr<Stub> {       \
        return std::make_unique<Stub>(c->address);                                                  \
    }
#define GRPC_STANDIN_UNARY(SVC, M, REQ, RESP)                                                       \
    auto M(::grpc::ClientContext*, REQ const& q, RESP* r) -> ::grpc::Status {                       \
        return ::grpc::CallUnary<Service, REQ, RESP>(a_, #SVC "." #M, q, r, &Service::M);           \
    }
#define GRPC_STANDIN_SERVER(SVC, M, REQ, RESP)                                                      \
    auto M(::grpc::ClientContext*, REQ const& q) -> std::unique_ptr<::grpc::ClientReader<RESP>> {   \
        return ::grpc::CallServerStream<Service, REQ, RESP>(a_, #SVC "." #M, q, &Service::M);       \
    }
#define GRPC_STANDIN_CLIENT(SVC, M, REQ, RESP)                                                      \
    auto M(::grpc::ClientContext*, RESP* r) -> std::unique_ptr<::grpc::ClientWriter<REQ>> {         \
        return ::grpc::CallClientStream<Service, REQ, RESP>(a_, #SVC "." #M, r, &Service::M);       \
    }
#define GRPC_STANDIN_SUNARY(M, REQ, RESP)                                                           \
    virtual auto M(::grpc::ServerContext*, REQ const*, RESP*) -> ::grpc::Status {                   \
        return ::grpc::Status{::grpc::StatusCode::UNIMPLEMENTED, ""};                               \
    }
#define GRPC_STANDIN_SSERVER(M, REQ, RESP)                                                          \
    virtual auto M(::grpc::ServerContext*, REQ const*, ::grpc::ServerWriter<RESP>*)                 \
        -> ::grpc::Status {                                                                         \
        return ::grpc::Status{::grpc::StatusCode::UNIMPLEMENTED, ""};                               \
    }
#define GRPC_STANDIN_SCLIENT(M, REQ, RESP)                                                          \
    virtual auto M(::grpc::ServerContext*, ::grpc::ServerReader<REQ>*, RESP*) -> ::grpc::Status {   \
        return ::grpc::Status{::grpc::StatusCode::UNIMPLEMENTED, ""};                               \
    }
