// Stand-in for the generated service classes.
#pragma once
#include "build/bazel/remote/execution/v2/remote_execution.pb.h"
#include "google/longrunning/operations.pb.h"
#include "grpcpp/grpcpp.h"
namespace build::bazel::remote::execution::v2 {
struct ContentAddressableStorage {
    class Service : public ::grpc::Service {
      public:
        static auto Name() -> std::string { return "ContentAddressableStorage"; }
        GRPC_STANDIN_SUNARY(FindMissingBlobs, FindMissingBlobsRequest, FindMissingBlobsResponse)
        GRPC_STANDIN_SUNARY(BatchUpdateBlobs, BatchUpdateBlobsRequest, BatchUpdateBlobsResponse)
        GRPC_STANDIN_SUNARY(BatchReadBlobs, BatchReadBlobsRequest, BatchReadBlobsResponse)
        GRPC_STANDIN_SUNARY(SplitBlob, SplitBlobRequest, SplitBlobResponse)
        GRPC_STANDIN_SUNARY(SpliceBlob, SpliceBlobRequest, SpliceBlobResponse)
        GRPC_STANDIN_SSERVER(GetTree, GetTreeRequest, GetTreeResponse)
    };
    GRPC_STANDIN_STUB(
        GRPC_STANDIN_UNARY(ContentAddressableStorage, FindMissingBlobs, FindMissingBlobsRequest, FindMissingBlobsResponse)
        GRPC_STANDIN_UNARY(ContentAddressableStorage, BatchUpdateBlobs, BatchUpdateBlobsRequest, BatchUpdateBlobsResponse)
        GRPC_STANDIN_UNARY(ContentAddressableStorage, BatchReadBlobs, BatchReadBlobsRequest, BatchReadBlobsResponse)
        GRPC_STANDIN_UNARY(ContentAddressableStorage, SplitBlob, SplitBlobRequest, SplitBlobResponse)
        GRPC_STANDIN_UNARY(ContentAddressableStorage, SpliceBlob, SpliceBlobRequest, SpliceBlobResponse)
        GRPC_STANDIN_SERVER(ContentAddressableStorage, GetTree, GetTreeRequest, GetTreeResponse)
    )
};
struct ActionCache {
    class Service : public ::grpc::Service {
      public:
        static auto Name() -> std::string { return "ActionCache"; }
        GRPC_STANDIN_SUNARY(GetActionResult, GetActionResultRequest, ActionResult)
        GRPC_STANDIN_SUNARY(UpdateActionResult, UpdateActionResultRequest, ActionResult)
    };
    GRPC_STANDIN_STUB(
        GRPC_STANDIN_UNARY(ActionCache, GetActionResult, GetActionResultRequest, ActionResult)
        GRPC_STANDIN_UNARY(ActionCache, UpdateActionResult, UpdateActionResultRequest, ActionResult)
    )
};
struct Execution {
    class Service : public ::grpc::Service {
      public:
        static auto Name() -> std::string { return "Execution"; }
        GRPC_STANDIN_SSERVER(Execute, ExecuteRequest, ::google::longrunning::Operation)
        GRPC_STANDIN_SSERVER(WaitExecution, WaitExecutionRequest, ::google::longrunning::Operation)
    };
    GRPC_STANDIN_STUB(
        GRPC_STANDIN_SERVER(Execution, Execute, ExecuteRequest, ::google::longrunning::Operation)
        GRPC_STANDIN_SERVER(Execution, WaitExecution, WaitExecutionRequest, ::google::longrunning::Operation)
    )
};
struct Capabilities {
    class Service : public ::grpc::Service {
      public:
        static auto Name() -> std::string { return "Capabilities"; }
        GRPC_STANDIN_SUNARY(GetCapabilities, GetCapabilitiesRequest, ServerCapabilities)
    };
    GRPC_STANDIN_STUB(
        GRPC_STANDIN_UNARY(Capabilities, GetCapabilities, GetCapabilitiesRequest, ServerCapabilities)
    )
};
}
