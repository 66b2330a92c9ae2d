// Stand-in for the generated service classes.
#pragma once
#include "google/longrunning/operations.pb.h"
#include "google/protobuf/empty.pb.h"
#include "grpcpp/grpcpp.h"
namespace google::longrunning {
struct Operations {
    class Service : public ::grpc::Service {
      public:
        static auto Name() -> std::string { return "Operations"; }
        GRPC_STANDIN_SUNARY(GetOperation, GetOperationRequest, Operation)
        GRPC_STANDIN_SUNARY(ListOperations, ListOperationsRequest, ListOperationsResponse)
        GRPC_STANDIN_SUNARY(DeleteOperation, DeleteOperationRequest, ::google::protobuf::Empty)
        GRPC_STANDIN_SUNARY(CancelOperation, CancelOperationRequest, ::google::protobuf::Empty)
    };
    GRPC_STANDIN_STUB(
        GRPC_STANDIN_UNARY(Operations, GetOperation, GetOperationRequest, Operation)
        GRPC_STANDIN_UNARY(Operations, ListOperations, ListOperationsRequest, ListOperationsResponse)
        GRPC_STANDIN_UNARY(Operations, DeleteOperation, DeleteOperationRequest, ::google::protobuf::Empty)
        GRPC_STANDIN_UNARY(Operations, CancelOperation, CancelOperationRequest, ::google::protobuf::Empty)
    )
};
}
