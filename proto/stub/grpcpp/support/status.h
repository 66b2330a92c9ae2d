// stand-in for the part of gRPC that the local parts of just mention
#pragma once
#include <string>
#include <utility>
namespace grpc {
enum StatusCode {
    OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4, NOT_FOUND = 5,
    ALREADY_EXISTS = 6, PERMISSION_DENIED = 7, RESOURCE_EXHAUSTED = 8, FAILED_PRECONDITION = 9,
    ABORTED = 10, OUT_OF_RANGE = 11, UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14, DATA_LOSS = 15,
    UNAUTHENTICATED = 16, DO_NOT_USE = -1
};
class Status {
  public:
    Status() = default;
    Status(StatusCode c, std::string m) : code_{c}, msg_{std::move(m)} {}
    static Status const OK;
    auto ok() const -> bool { return code_ == StatusCode::OK; }
    auto error_code() const -> StatusCode { return code_; }
    auto error_message() const -> std::string { return msg_; }

  private:
    StatusCode code_{StatusCode::OK};
    std::string msg_;
};
inline Status const Status::OK{};
}  // namespace grpc
