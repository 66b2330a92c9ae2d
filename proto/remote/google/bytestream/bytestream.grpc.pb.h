// Stand-in for the generated service classes.
#pragma once
#include "google/bytestream/bytestream.pb.h"
#include "grpcpp/grpcpp.h"
namespace google::bytestream {
struct ByteStream {
    class Service : public ::grpc::Service {
      public:
        static auto Name() -> std::string { return "ByteStream"; }
        GRPC_STANDIN_SSERVER(Read, ReadRequest, ReadResponse)
        GRPC_STANDIN_SCLIENT(Write, WriteRequest, WriteResponse)
        GRPC_STANDIN_SUNARY(QueryWriteStatus, QueryWriteStatusRequest, QueryWriteStatusResponse)
    };
    GRPC_STANDIN_STUB(
        GRPC_STANDIN_SERVER(ByteStream, Read, ReadRequest, ReadResponse)
        GRPC_STANDIN_CLIENT(ByteStream, Write, WriteRequest, WriteResponse)
        GRPC_STANDIN_UNARY(ByteStream, QueryWriteStatus, QueryWriteStatusRequest, QueryWriteStatusResponse)
    )
};
}
