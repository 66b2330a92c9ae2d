// C24: names of content: every way to obtain the digest of some content gives
// the hash of exactly this content, readers deliver exactly the content, and
// digests survive every form they are written in
#include "rt/harness.hpp"
#include "h/trees.hpp"
#include <fcntl.h>
#include <set>
#include "src/buildtool/common/artifact.hpp"
#include "src/buildtool/common/artifact_blob.hpp"
#include "src/buildtool/common/artifact_description.hpp"
#include "src/buildtool/common/bazel_types.hpp"
#include "src/buildtool/common/artifact_digest_factory.hpp"
#include "src/buildtool/crypto/hash_function.hpp"
#include "src/buildtool/crypto/hasher.hpp"
#include "src/buildtool/execution_api/common/bytestream_utils.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/storage/file_chunker.hpp"
#include "src/utils/cpp/hex_string.hpp"
#include "src/utils/cpp/incremental_reader.hpp"
#include "src/utils/cpp/tmp_dir.hpp"

namespace {
namespace fs = std::filesystem;
using hn::Json;

std::string Dir() {
    static std::string d;
    static pid_t who = 0;
    if (who != getpid()) {
        who = getpid();
        d = trees::Dir(hn::ctx().scratch, "dig");
        fs::create_directories(d);
    }
    return d;
}
void Put(std::string const& p, std::string const& data) {
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    size_t at = 0;
    while (at < data.size()) {
        auto n = write(fd, data.data() + at, data.size() - at);
        if (n <= 0) {
            throw std::runtime_error("write");
        }
        at += (size_t)n;
    }
    close(fd);
}
std::string Data(size_t size, int pattern) {
    std::string r(size, '\0');
    unsigned x = 12345;
    for (size_t i = 0; i < size and pattern != 0; ++i) {
        x = x * 1103515245U + 12345U;
        r[i] = pattern == 1 ? (char)(x >> 16) : "tree 0\n"[i % 8];
    }
    return r;
}

void Contents() {
    std::set<size_t> sizes;
    for (size_t i = 0; i <= 260; ++i) {
        sizes.insert(i);
    }
    for (size_t c : {512, 1000, 1024, 4048, 4096, 8096, 8192, 10000, 12144, 16192, 40480, 65536, 100000, 131072, 1048576}) {
        for (int d = -2; d <= 2; ++d) {
            sizes.insert(c + (size_t)(long)d);
        }
    }
    {
        for (size_t i = 261; i <= (hn::ctx().thorough ? 20000U : 5000U); ++i) {
            sizes.insert(i);
        }
    }
    std::vector<size_t> v(sizes.begin(), sizes.end());
    hn::Enumerate("contents", (long)v.size() * 3,
                  "contents of every size up to 5000 (thorough: 20000) and around the multiples of the sizes of buffers, 3 "
                  "patterns: hashed in memory, from a file, in pieces, as blob and as tree, both hash types",
                  [&](long i, hn::Shard& s) {
                      auto size = v[(size_t)(i / 3)];
                      auto data = Data(size, (int)(i % 3));
                      if (not s.Case("size " + std::to_string(size) + " pattern " + std::to_string(i % 3))) {
                          return;
                      }
                      auto file = Dir() + "/f";
                      Put(file, data);
                      static auto tmp = TmpDir::Create(Dir());
                      for (bool native : {true, false}) {
                          HashFunction hf{native ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256};
                          auto plain = trees::Hex(trees::Raw(data, native));
                          if (auto h = hf.PlainHashData(data).HexString(); h != plain) {
                              s.Fail("plain hash " + h, "plain");
                          }
                          for (bool tree : {false, true}) {
                              auto want = native ? trees::Hex(trees::GitRaw(data, tree)) : plain;
                              std::string what = std::string(native ? "native" : "compatible") + (tree ? " tree" : " blob");
                              auto h1 = tree ? hf.HashTreeData(data) : hf.HashBlobData(data);
                              auto h2 = tree ? hf.HashTreeFile(file) : hf.HashBlobFile(file);
                              if (h1.HexString() != want or ToHexString(h1.Bytes()) != want or h1.Length() * 2 != want.size()) {
                                  s.Fail(what + " hash in memory " + h1.HexString(), "mem");
                              }
                              if (not h2 or h2->first.HexString() != want or h2->second != size) {
                                  s.Fail(what + " hash of the file is wrong", "file");
                              }
                              auto check = [&](std::string const& how, std::string const& hash, std::size_t sz, bool t) {
                                  if (hash != want or sz != size or t != (tree and native)) {
                                      s.Fail(what + " " + how + " " + hash + ":" + std::to_string(sz) + (t ? "t" : "") + " instead of " + want, how);
                                  }
                              };
                              auto i1 = HashInfo::HashData(hf, data, tree);
                              check("info", i1.Hash(), size, i1.IsTree());
                              auto i2 = HashInfo::HashFile(hf, file, tree);
                              if (i2) {
                                  check("file info", i2->first.Hash(), i2->second, i2->first.IsTree());
                              }
                              else {
                                  s.Fail("no file info", "info");
                              }
                              for (auto type : {ObjectType::File, ObjectType::Executable, ObjectType::Symlink, ObjectType::Tree}) {
                                  if (IsTreeObject(type) != tree) {
                                      continue;
                                  }
                                  std::vector<std::pair<char const*, expected<ArtifactBlob, std::string>>> bs;
                                  bs.emplace_back("memory blob", ArtifactBlob::FromMemory(hf, type, data));
                                  bs.emplace_back("file blob", ArtifactBlob::FromFile(hf, type, file));
                                  bs.emplace_back("temporary blob", ArtifactBlob::FromTempFile(hf, type, tmp, data));
                                  for (auto& [how, b] : bs) {
                                      if (not b) {
                                          s.Fail(std::string("no ") + how, "none");
                                          continue;
                                      }
                                      check(how, b->GetDigest().hash(), b->GetDigest().size(), b->GetDigest().IsTree());
                                      auto c = b->ReadContent();
                                      if (c == nullptr or *c != data) {
                                          s.Fail(std::string("content of ") + how, "content");
                                      }
                                      if (b->IsExecutable() != IsExecutableObject(type) or b->GetContentSize() != size) {
                                          s.Fail(std::string("kind or size of ") + how, "kind");
                                      }
                                      std::string got;
                                      auto rd = b->ReadIncrementally(1000);
                                      if (rd) {
                                          for (auto chunk : *rd) {
                                              got += chunk ? std::string{*chunk} : std::string("error");
                                          }
                                      }
                                      if (got != data) {
                                          s.Fail(std::string("incremental content of ") + how, "incremental");
                                      }
                                  }
                              }
                          }
                          // digests in messages
                          for (bool tree : {false, true}) {
                              auto d = tree ? ArtifactDigestFactory::HashDataAs<ObjectType::Tree>(hf, data)
                                            : ArtifactDigestFactory::HashDataAs<ObjectType::File>(hf, data);
                              auto b = ArtifactDigestFactory::ToBazel(d);
                              auto raw = native ? (tree ? "74" : "62") + trees::Hex(trees::GitRaw(data, tree)) : plain;
                              if (b.hash() != raw or (std::size_t)b.size_bytes() != size) {
                                  s.Fail("message digest " + b.hash(), "message");
                              }
                              auto d2 = ArtifactDigestFactory::FromBazel(hf.GetType(), b);
                              if (not d2 or not(*d2 == d) or d2->size() != size or d2->IsTree() != (tree and native)) {
                                  s.Fail("digest read from a message", "message");
                              }
                          }
                      }
                      // all hash kinds, in one, two or three pieces
                      for (auto type : {Hasher::HashType::SHA1, Hasher::HashType::SHA256, Hasher::HashType::SHA512}) {
                          unsigned char md[64];
                          unsigned n = 0;
                          EVP_Digest(data.data(), data.size(), md, &n,
                                     type == Hasher::HashType::SHA1 ? EVP_sha1() : type == Hasher::HashType::SHA256 ? EVP_sha256() : EVP_sha512(), nullptr);
                          auto want = trees::Hex({(char*)md, n});
                          for (size_t cut : {size_t{0}, size / 3, size / 2, size}) {
                              auto h = Hasher::Create(type);
                              if (not h or not h->Update(data.substr(0, cut)) or not h->Update(data.substr(cut)) or h->GetHashLength() != want.size()) {
                                  s.Fail("hasher", "hasher");
                                  continue;
                              }
                              if (std::move(*h).Finalize().HexString() != want) {
                                  s.Fail("hash in pieces", "hasher");
                              }
                          }
                      }
                      s.Nontrivial();
                  });
}

void Readers() {
    long const max = hn::ctx().thorough ? 160 : 72;
    hn::Enumerate("readers", (max + 1) * max,
                  "contents of any size up to 72 (thorough: 160), read in pieces of any size from any offset, from memory "
                  "and from a file, by one and by two readers at a time",
                  [&](long i, hn::Shard& s) {
                      auto size = (size_t)(i / max);
                      auto chunk = (size_t)(i % max) + 1;
                      if (not s.Case("size " + std::to_string(size) + " chunk " + std::to_string(chunk))) {
                          return;
                      }
                      auto data = Data(size, 1);
                      auto file = Dir() + "/r";
                      Put(file, data);
                      for (bool mem : {true, false}) {
                          auto r = mem ? IncrementalReader::FromMemory(chunk, &data) : IncrementalReader::FromFile(chunk, file);
                          if (not r) {
                              s.Fail("no reader", "none");
                              continue;
                          }
                          if (r->GetContentSize() != size) {
                              s.Fail("size", "size");
                          }
                          for (size_t off = 0; off < size + 3; ++off) {
                              if (off == size and size != 0) {
                                  continue;
                              }
                              std::string got;
                              int n = 0;
                              for (auto it = r->make_iterator(off); it != r->end() and n < 1000; ++it, ++n) {
                                  auto c = *it;
                                  if (not c or c->size() > chunk or (c->size() < chunk and off + got.size() + c->size() < size)) {
                                      s.Fail("wrong piece at offset " + std::to_string(off) + (mem ? " memory" : " file"), "piece");
                                      break;
                                  }
                                  got += *c;
                              }
                              if (got != (off > size ? "" : data.substr(off))) {
                                  s.Fail("wrong content from offset " + std::to_string(off) + (mem ? " memory" : " file"), "content");
                              }
                          }
                          // two at the same time
                          std::string a, b;
                          auto x = r->begin();
                          auto y = r->make_iterator(size / 2);
                          for (int n = 0; n < 1000 and (x != r->end() or y != r->end()); ++n) {
                              if (x != r->end()) {
                                  auto c = *x;
                                  a += c ? std::string{*c} : "error";
                                  ++x;
                              }
                              if (y != r->end()) {
                                  auto c = *y;
                                  b += c ? std::string{*c} : "error";
                                  ++y;
                              }
                          }
                          if (a != data or b != data.substr(size / 2)) {
                              s.Fail("two readers", "two");
                          }
                          s.Nontrivial();
                      }
                  });
}

void Texts() {
    hn::Enumerate("hex", 257, "all strings of up to two bytes to hexadecimal and back; what counts as such", [&](long i, hn::Shard& s) {
        if (not s.Case("byte " + std::to_string(i))) {
            return;
        }
        std::vector<std::string> strs;
        if (i == 256) {
            strs.push_back("");
        }
        else {
            std::string c(1, (char)i);
            strs.push_back(c);
            for (int k = 0; k < 256; ++k) {
                strs.push_back(c + (char)k);
                strs.push_back(std::string(18, 'z') + c + (char)k);
            }
        }
        for (auto const& x : strs) {
            auto h = ToHexString(x);
            if (h != trees::Hex(x)) {
                s.Fail("to hex " + h, "to");
            }
            std::string up = h;
            for (auto& ch : up) {
                ch = (char)toupper(ch);
            }
            if (FromHexString(h) != std::optional{x} or FromHexString(up) != std::optional{x}) {
                s.Fail("from hex " + h, "from");
            }
            bool is = true;
            for (char ch : x) {
                is = is and ((ch >= '0' and ch <= '9') or (ch >= 'a' and ch <= 'f') or (ch >= 'A' and ch <= 'F'));
            }
            if (IsHexString(x) != is or not IsHexString(h)) {
                s.Fail("is hex " + h, "is");
            }
        }
        s.Nontrivial();
    });

    std::vector<std::size_t> const sizes{0, 1, 9, 10, 123456, (std::size_t)1 << 31, ((std::size_t)1 << 32) + 5, (std::size_t)1 << 53, ((std::size_t)1 << 62) + 1};
    std::vector<std::string> const inst{"", "i", "remote-execution", "a/b", "blob", "a/b/c", "Blobs", "uploads2"};
    hn::Enumerate("forms", 2 * 256, "digests with any first byte and 9 sizes, as text, JSON, and names of resources", [&](long i, hn::Shard& s) {
        bool native = i % 2 == 1;
        auto ht = native ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256;
        if (not s.Case((native ? "native " : "compatible ") + std::to_string(i / 2))) {
            return;
        }
        auto hash = trees::Hex(trees::Raw(std::to_string(i), native));
        hash[0] = "0123456789abcdef"[(i / 2) >> 4];
        hash[1] = "0123456789abcdef"[(i / 2) & 15];
        for (auto size : sizes) {
            for (bool tree : {false, true}) {
                auto d = ArtifactDigestFactory::Create(ht, hash, size, tree);
                if (not d or d->hash() != hash or d->size() != size or d->IsTree() != (tree and native)) {
                    s.Fail("create", "create");
                    continue;
                }
                for (auto type : {ObjectType::File, ObjectType::Executable, ObjectType::Symlink, ObjectType::Tree}) {
                    if (IsTreeObject(type) != tree) {
                        continue;
                    }
                    for (bool failed : {false, true}) {
                        Artifact::ObjectInfo o{.digest = *d, .type = type, .failed = failed};
                        auto str = o.ToString();
                        if (str != "[" + hash + ":" + std::to_string(size) + ":" + "fxlt"[type == ObjectType::File ? 0 : type == ObjectType::Executable ? 1 : type == ObjectType::Symlink ? 2 : 3] + "]" + (failed ? " FAILED" : "")) {
                            s.Fail("text " + str, "text");
                        }
                        auto back = Artifact::ObjectInfo::FromString(ht, str);
                        if (not back or not(back->digest == *d) or back->digest.size() != size or back->digest.IsTree() != d->IsTree() or back->type != type) {
                            s.Fail("from text " + str, "text");
                        }
                    }
                    Artifact::ObjectInfo o{.digest = *d, .type = type};
                    auto a = ArtifactDescription::CreateKnown(*d, type);
                    auto b = ArtifactDescription::FromJson(ht, a.ToJson());
                    if (not b or not(*b == a) or b->Id() != a.Id() or b->ToArtifact().Info() != std::optional{o} or b->ToArtifact().Info()->digest.size() != size) {
                        s.Fail("artifact from JSON " + a.ToJson().dump(), "json");
                    }
                }
                for (auto const& in : inst) {
                    auto rd = ByteStreamUtils::ReadRequest::ToString(in, *d);
                    auto r = ByteStreamUtils::ReadRequest::FromString(rd);
                    auto want = (in.empty() ? "" : in + "/") + "blobs/" + ArtifactDigestFactory::ToBazel(*d).hash() + "/" + std::to_string(size);
                    if (rd != want or not r or r->GetInstanceName() != in or not r->GetDigest(ht) or not(*r->GetDigest(ht) == *d) or r->GetDigest(ht)->size() != size) {
                        s.Fail("read resource " + rd, "read");
                    }
                    auto wr = ByteStreamUtils::WriteRequest::ToString(in, "some-uuid", *d);
                    auto w = ByteStreamUtils::WriteRequest::FromString(wr);
                    if (not w or w->GetInstanceName() != in or w->GetUUID() != "some-uuid" or not w->GetDigest(ht) or not(*w->GetDigest(ht) == *d) or w->GetDigest(ht)->size() != size) {
                        s.Fail("write resource " + wr, "write");
                    }
                    if (ByteStreamUtils::ReadRequest::FromString(wr) or ByteStreamUtils::WriteRequest::FromString(rd)) {
                        s.Fail("resource of the other kind: " + wr, "kind");
                    }
                }
                s.Nontrivial();
            }
        }
        // what is no hash
        for (int k = -2; k <= 2; ++k) {
            auto bad = k < 0 ? hash.substr((size_t)-k) : hash + std::string((size_t)k, 'a');
            if (k != 0 and ArtifactDigestFactory::Create(ht, bad, 1, false)) {
                s.Fail("accepted hash " + bad, "bad");
            }
        }
        for (size_t p : {size_t{0}, hash.size() / 2, hash.size() - 1}) {
            for (char c : {'g', ' ', '/', '\0', '-', 'x', '\xe4'}) {
                auto bad = hash;
                bad[p] = c;
                if (ArtifactDigestFactory::Create(ht, bad, 1, false)) {
                    s.Fail("accepted hash " + bad, "bad");
                }
            }
        }
        if (ArtifactDigestFactory::Create(native ? HashFunction::Type::PlainSHA256 : HashFunction::Type::GitSHA1, hash, 1, false)) {
            s.Fail("accepted hash of the other kind", "bad");
        }
    });
}

// cutting large files
void Chunks() {
    FileChunker::Initialize();
    std::vector<size_t> sizes{0, 1, 1000, 32767, 32768, 32769, 131071, 131072, 131073, 1048575, 1048576, 1048577, 2097151, 2097152, 2097153, 3145728, 4194304, 4200001, 6291455};
    if (hn::ctx().thorough) {
        for (size_t x = 20000; x < 8000000; x = x * 5 / 4 + 1) {
            sizes.push_back(x);
        }
    }
    hn::Enumerate("chunks", (long)sizes.size() * 5,
                  "files of 19 sizes (thorough: 46) around the sizes of pieces and buffers, 5 contents: cut into pieces of allowed "
                  "sizes which give the content, always the same; equal long parts are cut alike",
                  [&](long i, hn::Shard& s) {
                      auto size = sizes[(size_t)(i / 5)];
                      int pat = (int)(i % 5);
                      if (not s.Case("size " + std::to_string(size) + " pattern " + std::to_string(pat))) {
                          return;
                      }
                      auto data = Data(size, pat < 2 ? pat : 1);
                      if (pat == 2) {  // repeated
                          for (size_t k = 50000; k < size; ++k) {
                              data[k] = data[k - 50000];
                          }
                      }
                      if (pat == 3) {  // long plain middle part
                          for (size_t k = size / 4; k < size / 4 * 3; ++k) {
                              data[k] = 'a';
                          }
                      }
                      if (pat == 4) {
                          for (size_t k = 0; k < size; k += 3) {
                              data[k] = '\0';
                          }
                      }
                      auto cut = [&](std::string const& d) {
                          std::vector<std::string> r;
                          Put(Dir() + "/c", d);
                          FileChunker c{Dir() + "/c"};
                          if (not c.IsOpen()) {
                              s.Fail("not open", "open");
                              return r;
                          }
                          while (auto x = c.NextChunk()) {
                              r.push_back(*x);
                              if (r.size() > 100000) {
                                  break;
                              }
                          }
                          if (not c.Finished()) {
                              s.Fail("not finished", "finished");
                          }
                          return r;
                      };
                      auto a = cut(data);
                      std::string all;
                      for (size_t k = 0; k < a.size(); ++k) {
                          all += a[k];
                          if (a[k].empty() or a[k].size() > (1U << 20) or (k + 1 < a.size() and a[k].size() < (1U << 15))) {
                              s.Fail("piece of " + std::to_string(a[k].size()), "size");
                          }
                      }
                      if (all != data) {
                          s.Fail("pieces do not give the content", "content");
                      }
                      if (a.size() > 1) {
                          s.Nontrivial();
                          if (cut(data) != a) {
                              s.Fail("cut in another way", "again");
                          }
                          // after its first piece, the rest is cut as it was
                          auto rest = cut(data.substr(a[0].size()));
                          if (rest != std::vector<std::string>(a.begin() + 1, a.end())) {
                              s.Fail("rest cut in another way", "rest");
                          }
                          // something appended only changes the last pieces
                          auto more = cut(data + "x");
                          for (size_t k = 0; k + 2 < a.size(); ++k) {
                              if (more.size() <= k or more[k] != a[k]) {
                                  s.Fail("cut depends on what follows", "more");
                                  break;
                              }
                          }
                      }
                  });
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    LogConfig::SetSinks({});
    Contents();
    Readers();
    Texts();
    Chunks();
    return hn::Finish();
}
