// A remote-execution client of an endpoint that refuses everything.
#ifndef VERIF_BAZEL_STUB_HPP
#define VERIF_BAZEL_STUB_HPP
#include "src/buildtool/auth/authentication.hpp"
#include "src/buildtool/common/remote/retry_config.hpp"
#include "src/buildtool/execution_api/remote/bazel/bazel_api.hpp"
#include "src/buildtool/file_system/git_context.hpp"
// there is no remote execution
class BazelNetwork {};
BazelApi::BazelApi(std::string const&, std::string const&, Port, gsl::not_null<Auth const*> const&,
                   gsl::not_null<RetryConfig const*> const&, ExecutionConfiguration const&, HashFunction,
                   TmpDir::Ptr) noexcept {}
BazelApi::~BazelApi() = default;
auto BazelApi::CreateAction(ArtifactDigest const&, std::vector<std::string> const&, std::string const&,
                            std::vector<std::string> const&, std::vector<std::string> const&,
                            std::map<std::string, std::string> const&, std::map<std::string, std::string> const&,
                            bool) const noexcept -> IExecutionAction::Ptr {
    return nullptr;
}
auto BazelApi::RetrieveToPaths(std::vector<Artifact::ObjectInfo> const&, std::vector<std::filesystem::path> const&,
                               IExecutionApi const*) const noexcept -> bool {
    return false;
}
auto BazelApi::RetrieveToFds(std::vector<Artifact::ObjectInfo> const&, std::vector<int> const&, bool,
                             IExecutionApi const*) const noexcept -> bool {
    return false;
}
auto BazelApi::ParallelRetrieveToCas(std::vector<Artifact::ObjectInfo> const&, IExecutionApi const&, std::size_t,
                                     bool) const noexcept -> bool {
    return false;
}
auto BazelApi::RetrieveToCas(std::vector<Artifact::ObjectInfo> const&, IExecutionApi const&) const noexcept -> bool {
    return false;
}
auto BazelApi::Upload(std::unordered_set<ArtifactBlob>&&, bool) const noexcept -> bool { return false; }
auto BazelApi::UploadTree(std::vector<DependencyGraph::NamedArtifactNodePtr> const&) const noexcept
    -> std::optional<ArtifactDigest> {
    return std::nullopt;
}
auto BazelApi::IsAvailable(ArtifactDigest const&) const noexcept -> bool { return false; }
auto BazelApi::GetMissingDigests(std::unordered_set<ArtifactDigest> const& d) const noexcept
    -> std::unordered_set<ArtifactDigest> {
    return d;
}
auto BazelApi::RetrieveToMemory(Artifact::ObjectInfo const&) const noexcept -> std::optional<std::string> {
    return std::nullopt;
}
auto BazelApi::SplitBlob(ArtifactDigest const&) const noexcept -> std::optional<std::vector<ArtifactDigest>> {
    return std::nullopt;
}
auto BazelApi::BlobSplitSupport() const noexcept -> bool { return false; }
auto BazelApi::SpliceBlob(ArtifactDigest const&, std::vector<ArtifactDigest> const&) const noexcept
    -> std::optional<ArtifactDigest> {
    return std::nullopt;
}
auto BazelApi::BlobSpliceSupport() const noexcept -> bool { return false; }
auto BazelApi::GetHashType() const noexcept -> HashFunction::Type { return HashFunction::Type::PlainSHA256; }
auto BazelApi::GetTempSpace() const noexcept -> TmpDir::Ptr { return nullptr; }

#endif
