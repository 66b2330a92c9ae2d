// stand-in for the client of just serve: what the harness says is served
#ifndef INCLUDED_SRC_BUILDTOOL_SERVE_API_REMOTE_SERVE_API_HPP
#define INCLUDED_SRC_BUILDTOOL_SERVE_API_REMOTE_SERVE_API_HPP
#include <filesystem>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#include "gsl/gsl"
#include "src/buildtool/common/artifact.hpp"
#include "src/buildtool/common/artifact_digest.hpp"
#include "src/buildtool/common/remote/remote_common.hpp"
#include "src/buildtool/execution_api/common/api_bundle.hpp"
#include "src/buildtool/execution_api/local/context.hpp"
#include "src/buildtool/execution_api/remote/context.hpp"
#include "src/buildtool/file_system/git_types.hpp"
#include "src/buildtool/file_system/symlinks/pragma_special.hpp"
#include "src/buildtool/serve_api/remote/config.hpp"
#include "src/buildtool/storage/config.hpp"
#include "src/buildtool/storage/target_cache_entry.hpp"
#include "src/buildtool/storage/target_cache_key.hpp"
#include "src/utils/cpp/expected.hpp"

using serve_target_result_t =
    std::variant<std::string, std::string, std::string, std::pair<TargetCacheEntry, Artifact::ObjectInfo>>;

struct ServedTree {
    std::string tree;
    std::optional<ArtifactDigest> digest;
};

// what the server knows about roots
class RootServer {
  public:
    using result_t = expected<ServedTree, GitLookupError>;
    using digest_t = expected<ArtifactDigest, GitLookupError>;
    using distfiles_t = std::shared_ptr<std::unordered_map<std::string, std::string>>;
    RootServer() = default;
    RootServer(RootServer const&) = default;
    auto operator=(RootServer const&) -> RootServer& = default;
    virtual ~RootServer() = default;
    virtual auto Commit(std::string const&, std::string const&, bool) -> result_t { return unexpected{GitLookupError::NotFound}; }
    virtual auto Archive(std::string const&, std::string const&, std::string const&, std::optional<PragmaSpecial> const&, bool) -> result_t {
        return unexpected{GitLookupError::NotFound};
    }
    virtual auto Distdir(distfiles_t const&, bool) -> result_t { return unexpected{GitLookupError::NotFound}; }
    virtual auto ForeignFile(std::string const&, std::string const&, bool) -> result_t { return unexpected{GitLookupError::NotFound}; }
    virtual auto Content(std::string const&) -> digest_t { return unexpected{GitLookupError::NotFound}; }
    virtual auto Tree(std::string const&) -> digest_t { return unexpected{GitLookupError::NotFound}; }
    virtual auto HasRoot(std::string const&) -> std::optional<bool> { return false; }
    virtual auto GetTree(ArtifactDigest const&) -> bool { return false; }
    virtual auto Structure(ArtifactDigest const&) -> digest_t { return unexpected{GitLookupError::NotFound}; }
    virtual auto Upload(ArtifactDigest const&, std::filesystem::path const&) -> bool { return false; }
    virtual auto Download(ArtifactDigest const&) -> bool { return false; }
};

class ServeApi final {
  public:
    using result_t = RootServer::result_t;
    // the server given by an address
    inline static std::shared_ptr<RootServer> at_address{};
    [[nodiscard]] static auto Create(RemoteServeConfig const& config, gsl::not_null<LocalContext const*> const&,
                                     gsl::not_null<RemoteContext const*> const&, gsl::not_null<ApiBundle const*> const&) noexcept
        -> std::optional<ServeApi> {
        if (config.remote_address and at_address) {
            return ServeApi{at_address};
        }
        return std::nullopt;
    }
    explicit ServeApi(std::shared_ptr<RootServer> r) : r_{std::move(r)} {}
    class UploadError final {
      public:
        explicit UploadError(bool sync) noexcept : sync_{sync} {}
        [[nodiscard]] auto Message() const& noexcept -> std::string const& { return message_; }
        [[nodiscard]] auto Message() && noexcept -> std::string { return std::move(message_); }
        [[nodiscard]] auto IsSyncError() const noexcept -> bool { return sync_; }

      private:
        std::string message_{"upload failed"};
        bool sync_;
    };
    [[nodiscard]] auto RetrieveTreeFromCommit(std::string const& commit, std::string const& subdir = ".", bool sync_tree = false) const noexcept
        -> result_t {
        return r_->Commit(commit, subdir, sync_tree);
    }
    [[nodiscard]] auto RetrieveTreeFromArchive(std::string const& content, std::string const& archive_type = "archive",
                                               std::string const& subdir = ".",
                                               std::optional<PragmaSpecial> const& resolve_symlinks = std::nullopt,
                                               bool sync_tree = false) const noexcept -> result_t {
        return r_->Archive(content, archive_type, subdir, resolve_symlinks, sync_tree);
    }
    [[nodiscard]] auto RetrieveTreeFromDistdir(RootServer::distfiles_t const& files, bool sync_tree = false) const noexcept -> result_t {
        return r_->Distdir(files, sync_tree);
    }
    [[nodiscard]] auto RetrieveTreeFromForeignFile(std::string const& content, std::string const& name, bool executable) const noexcept
        -> result_t {
        return r_->ForeignFile(content, name, executable);
    }
    [[nodiscard]] auto ContentInRemoteCAS(std::string const& content) const noexcept -> expected<ArtifactDigest, GitLookupError> {
        return r_->Content(content);
    }
    [[nodiscard]] auto TreeInRemoteCAS(std::string const& id) const noexcept -> expected<ArtifactDigest, GitLookupError> { return r_->Tree(id); }
    [[nodiscard]] auto CheckRootTree(std::string const& id) const noexcept -> std::optional<bool> { return r_->HasRoot(id); }
    [[nodiscard]] auto GetTreeFromRemote(ArtifactDigest const& d) const noexcept -> bool { return r_->GetTree(d); }
    [[nodiscard]] auto ComputeTreeStructure(ArtifactDigest const& d) const noexcept -> expected<ArtifactDigest, GitLookupError> {
        return r_->Structure(d);
    }
    [[nodiscard]] auto IsCompatible() const noexcept -> std::optional<bool> { return false; }
    [[nodiscard]] auto UploadTree(ArtifactDigest const& tree, std::filesystem::path const& repo) const noexcept
        -> expected<std::monostate, UploadError> {
        if (r_->Upload(tree, repo)) {
            return std::monostate{};
        }
        return unexpected{UploadError{true}};
    }
    [[nodiscard]] auto DownloadTree(ArtifactDigest const& tree) const noexcept -> expected<std::monostate, std::string> {
        if (r_->Download(tree)) {
            return std::monostate{};
        }
        return unexpected{std::string{"download failed"}};
    }
    struct Answers {
        std::function<std::optional<serve_target_result_t>(TargetCacheKey const&, ArtifactDigest const&)> target;
        std::function<std::optional<std::vector<std::string>>(std::string const&, std::string const&, std::string const&)> variables;
    };
    explicit ServeApi(Answers a) : a_{std::move(a)} {}

    [[nodiscard]] auto ServeTargetVariables(std::string const& root, std::string const& file, std::string const& target) const noexcept
        -> std::optional<std::vector<std::string>> {
        return a_.variables(root, file, target);
    }
    [[nodiscard]] auto ServeTargetDescription(std::string const&, std::string const&, std::string const&) const noexcept
        -> std::optional<ArtifactDigest> {
        return std::nullopt;
    }
    [[nodiscard]] auto ServeTarget(TargetCacheKey const& key, ArtifactDigest const& repo_key, bool /*keep*/ = false) const noexcept
        -> std::optional<serve_target_result_t> {
        return a_.target(key, repo_key);
    }
    [[nodiscard]] auto CheckServeRemoteExecution() const noexcept -> bool { return true; }

  private:
    Answers a_;
    std::shared_ptr<RootServer> r_;
};
#endif
