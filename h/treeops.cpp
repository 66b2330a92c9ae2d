// C20: tree objects mean the same in every representation: overlays, git and
// compatible trees, rehashing, transfer between storages, git repositories
#include "h/build.hpp"
#include "src/buildtool/build_engine/expression/expression.hpp"
#include "src/buildtool/computed_roots/artifacts_root.hpp"
#include "src/buildtool/execution_api/git/git_api.hpp"
#include "src/buildtool/execution_api/utils/rehash_utils.hpp"
#include "src/buildtool/execution_api/utils/subobject.hpp"
#include "src/buildtool/execution_engine/tree_operations/tree_operations_utils.hpp"
#include "src/buildtool/file_system/git_repo.hpp"
#include "src/buildtool/storage/fs_utils.hpp"

using namespace bl;
using trees::D;
using trees::F;
using trees::L;
using trees::X;

namespace {
struct Env {
    std::string base;
    std::unique_ptr<Site> site[2];
    std::unique_ptr<trees::Repo> repo;
    std::unique_ptr<Site> gsite;  // native, backed by the repository
    long n = 0;
};
Env& E() {
    static Env e;
    static pid_t who = 0;
    if (who != getpid()) {
        who = getpid();
        for (auto& s : e.site) {
            s.release();
        }
        e.repo.release();
        e.gsite.release();
        e.base = trees::Dir(hn::ctx().scratch, "tro");
        fs::create_directories(e.base);
        for (int i = 0; i < 2; ++i) {
            e.site[i] = std::make_unique<Site>(e.base + "/s" + std::to_string(i), i == 1, "");
        }
    }
    return e;
}
Site& S(bool native) { return *E().site[native ? 1 : 0]; }

HashFunction Hf(bool native) { return HashFunction{native ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256}; }

std::string Bazel(Node const& n) {
    bazel_re::Directory d;
    for (auto const& [name, c] : n.ch) {
        if (c.k == 'l') {
            auto* s = d.add_symlinks();
            s->set_name(name);
            s->set_target(c.data);
            continue;
        }
        auto [h, sz] = Digest(c, false);
        bazel_re::Digest dg;
        dg.set_hash(h);
        dg.set_size_bytes((long)sz);
        if (c.k == 'd') {
            auto* s = d.add_directories();
            s->set_name(name);
            *s->mutable_digest() = dg;
        }
        else {
            auto* s = d.add_files();
            s->set_name(name);
            *s->mutable_digest() = dg;
            s->set_is_executable(c.k == 'x');
        }
    }
    return d.SerializeAsString();
}
std::string Data(Node const& n, bool native) {
    return n.k != 'd' ? n.data : native ? trees::TreeData(n) : Bazel(n);
}
ObjectType Ot(Node const& n) { return FromChar(Kind(n)); }

// put the object, and everything in it, into a storage
void Put(Site& site, Node const& n) {
    bool native = ProtocolTraits::IsNative(site.sc.hash_function.GetType());
    for (auto const& [_, c] : n.ch) {
        Put(site, c);
    }
    auto data = Data(n, native);
    auto const& cas = site.st.CAS();
    auto d = n.k == 'd' ? cas.StoreTree(data) : cas.StoreBlob(data, n.k == 'x');
    if (not d or d->hash() != Digest(n, native).first) {
        throw std::runtime_error("cannot store " + n.Show());
    }
}
Artifact::ObjectInfo Info(Node const& n, bool native) {
    auto [h, sz] = Digest(n, native);
    auto d = ArtifactDigestFactory::Create(Hf(native).GetType(), h, sz, n.k == 'd');
    if (not d) {
        throw std::runtime_error("digest");
    }
    return Artifact::ObjectInfo{.digest = *d, .type = Ot(n)};
}
// what is missing or wrong of it there
std::string Missing(Site& site, Node const& n, std::string const& p = "") {
    bool native = ProtocolTraits::IsNative(site.sc.hash_function.GetType());
    for (auto const& [name, c] : n.ch) {
        if (auto m = Missing(site, c, p + "/" + name); not m.empty()) {
            return m;
        }
    }
    auto i = Info(n, native);
    auto path = n.k == 'd' ? site.st.CAS().TreePath(i.digest) : site.st.CAS().BlobPath(i.digest, n.k == 'x');
    if (not path) {
        return n.Show() + " at '" + p + "' missing";
    }
    if (ReadAll(*path) != Data(n, native)) {
        return n.Show() + " at '" + p + "' has other content";
    }
    return "";
}
// remove leftovers
struct Scratch {
    std::string p;
    explicit Scratch(char const* what) {
        auto& e = E();
        p = e.base + "/" + what + std::to_string(e.n++);
        fs::create_directories(p);
    }
    ~Scratch() {
        std::error_code ec;
        fs::remove_all(p, ec);
    }
    Scratch(Scratch const&) = delete;
};

// ---- overlays -------------------------------------------------------------
// all trees with the given names over the given entries
std::vector<Node> Trees(std::vector<std::string> const& names, std::vector<Node> const& kinds) {
    std::vector<Node> r{D()};
    for (auto const& name : names) {
        std::vector<Node> more;
        for (auto const& t : r) {
            more.push_back(t);
            for (auto const& k : kinds) {
                auto c = t;
                c.ch[name] = k;
                more.push_back(c);
            }
        }
        r = more;
    }
    return r;
}
std::optional<Node> Overlay(Node const& a, Node const& b, bool disjoint) {
    Node r = b;
    for (auto const& [name, c] : a.ch) {
        auto it = r.ch.find(name);
        if (it == r.ch.end()) {
            r.ch[name] = c;
        }
        else if (c == it->second) {
        }
        else if (c.k == 'd' and it->second.k == 'd') {
            auto o = Overlay(c, it->second, disjoint);
            if (not o) {
                return std::nullopt;
            }
            it->second = *o;
        }
        else if (disjoint) {
            return std::nullopt;
        }
    }
    return r;
}
void Overlays() {
    std::vector<Node> leaves{F("0"), X("0"), L("0"), F("1")};
    std::vector<Node> kinds = leaves;
    kinds.push_back(D());
    for (auto const& l : leaves) {
        kinds.push_back(D({{"a", l}}));
    }
    kinds.push_back(D({{"a", F("0")}, {"b", X("0")}}));
    kinds.push_back(D({{"b", D({{"a", X("0")}})}}));
    if (hn::ctx().thorough) {
        kinds.push_back(L("1"));
        kinds.push_back(D({{"b", L("0")}}));
        kinds.push_back(D({{"a", D({{"a", F("0")}, {"b", X("0")}})}}));
        kinds.push_back(D({{"b", F("")}}));
    }
    auto ts = Trees({"a", "b"}, kinds);
    long n = (long)ts.size();
    hn::Enumerate("overlay", n * 2,
                  "all pairs of trees with two names over 11 (thorough: 15) entries (files, executables, links with "
                  "coinciding content, trees down to depth 3), overlays and disjoint overlays, both hash types",
                  [&](long i, hn::Shard& s) {
                      bool native = i % 2 == 1;
                      auto const& a = ts[(size_t)(i / 2)];
                      auto& site = S(native);
                      Put(site, a);
                      for (auto const& b : ts) {
                          for (int dj = 0; dj < 2; ++dj) {
                              auto id = a.Show() + (dj == 1 ? " disjoint " : " overlay ") + b.Show() +
                                        (native ? " native" : " compatible");
                              if (not s.Case(id)) {
                                  continue;
                              }
                              Put(site, b);
                              auto want = Overlay(a, b, dj == 1);
                              auto have = TreeOperationsUtils::ComputeTreeOverlay(*site.apis.local, Info(a, native),
                                                                                  Info(b, native), dj == 1);
                              if (not want) {
                                  if (have) {
                                      s.Fail(id + ": conflict accepted", "conflict");
                                  }
                                  continue;
                              }
                              s.Nontrivial();
                              if (not have) {
                                  s.Fail(id + ": rejected: " + have.error().substr(0, 200), "rejected");
                                  continue;
                              }
                              if (auto m = Wrong(*have, *want, native); not m.empty()) {
                                  s.Fail(id + ": " + m, "wrong");
                              }
                              else if (m = Missing(site, *want); not m.empty()) {
                                  s.Fail(id + ": " + m, "missing");
                              }
                          }
                      }
                  });
}

// ---- rehashing ------------------------------------------------------------
void Rehash() {
    auto sub = D({{"a", F("0")}});
    std::vector<Node> os{F(""),
                         X(""),
                         F("0"),
                         X("0"),
                         L("0"),
                         L("a/b"),
                         F(Bazel(sub)),
                         D(),
                         sub,
                         D({{"a", X("0")}}),
                         D({{"a", L("0")}}),
                         D({{"a", F("0")}, {"b", X("0")}}),
                         D({{"a", X("0")}, {"b", F("0")}, {"c", L("0")}}),
                         D({{"a", L("0")}, {"b", L("0")}}),
                         D({{"a", F("")}, {"b", D()}}),
                         D({{"a", D()}, {"b", F("")}}),
                         D({{"a", D()}, {"b", X("")}, {"c", D()}}),
                         D({{"a", sub}, {"b", F(Bazel(sub))}}),
                         D({{"a", F(Bazel(sub))}, {"b", sub}}),
                         D({{"a", sub}, {"b", D({{"a", X("0")}})}}),
                         D({{"a", D({{"a", sub}, {"b", D()}})}, {"b", sub}}),
                         D({{"a", F("1")}, {"a.b", F("2")}, {"ab", D({{"a", F("1")}})}}),
                         D({{"a", sub}, {"a.b", F("0")}, {"a-b", F("0")}})};
    if (hn::ctx().thorough) {
        os.push_back(X(Bazel(sub)));
        os.push_back(L("1"));
        os.push_back(F("1"));
        os.push_back(D({{"a", D({{"a", F("")}})}, {"b", D()}}));
        os.push_back(D({{"a", D({{"a", D()}})}, {"b", F(Bazel(D({{"a", D()}})))}}));
    }
    long n = (long)os.size();
    // n: native to compatible, c: compatible to native, g: from a git repository
    // histories: both one after the other, with collections, or at once
    std::vector<std::string> const hist{"12", "1g2", "1g1g2", "1gg2", "b", "121", "1g2g12"};
    hn::Enumerate("rehash", n * n * 3,
                  "all pairs of 23 (thorough: 28) objects with coinciding content, converted in 7 histories (one after the "
                  "other, again, at once, garbage collections in between) from native to compatible form, the reverse, "
                  "and from a git repository: kind, id and content",
                  [&](long i, hn::Shard& s) {
                      int mode = (int)(i % 3);
                      bool to_native = mode == 1;
                      auto const& o1 = os[(size_t)(i / 3 % n)];
                      auto const& o2 = os[(size_t)(i / 3 / n)];
                      for (auto const& h : hist) {
                          auto id = o1.Show() + " " + o2.Show() + " " + h +
                                    (mode == 0 ? " to compatible" : mode == 1 ? " to native" : " from git");
                          if (not s.Case(id)) {
                              continue;
                          }
                          Scratch dir("rh");
                          // one build root for both, as usual
                          Site src(dir.p + "/r", not to_native, "");
                          Site dst(dir.p + "/r", to_native, "");
                          RepositoryConfig rc;
                          auto& e = E();
                          if (mode == 2) {
                              if (not e.repo) {
                                  e.repo = std::make_unique<trees::Repo>(e.base + "/git");
                              }
                              e.repo->Put(o1);
                              e.repo->Put(o2);
                              if (not rc.SetGitCAS(e.repo->path, &src.sc)) {
                                  throw std::runtime_error("git cas");
                              }
                          }
                          auto run = [&](std::vector<Node> const& ns, std::string const& at, bool last) {
                              std::vector<Artifact::ObjectInfo> in;
                              for (auto const& o : ns) {
                                  if (mode != 2) {
                                      Put(src, o);
                                  }
                                  in.push_back(Info(o, not to_native));
                              }
                              auto r = mode == 2 ? RehashUtils::RehashGitDigest(in, src.sc, dst.sc, rc)
                                                 : RehashUtils::RehashDigest(in, src.sc, dst.sc, std::nullopt);
                              if (not r) {
                                  s.Fail(id + ": step " + at + " failed: " + r.error().substr(0, 200), "failed");
                                  return false;
                              }
                              for (size_t k = 0; k < ns.size(); ++k) {
                                  if (k >= r->size()) {
                                      s.Fail(id + ": step " + at + ": no result", "number");
                                      return false;
                                  }
                                  auto m = Wrong((*r)[k], ns[k], to_native);
                                  // looking at it would keep it alive
                                  if (m.empty() and last) {
                                      // what is in a compatible tree is not kept alive by using the tree
                                      bool old = not to_native and std::count(h.begin(), h.end(), 'g') > 1;
                                      auto o = ns[k];
                                      if (not old or o.k != 'd') {
                                          m = Missing(dst, o);
                                      }
                                  }
                                  if (not m.empty()) {
                                      s.Fail(id + ": step " + at + ": " + m, "wrong");
                                      return false;
                                  }
                                  s.Nontrivial();
                              }
                              return true;
                          };
                          for (size_t k = 0; k < h.size(); ++k) {
                              auto at = std::to_string(k + 1);
                              bool ok = true;
                              if (h[k] == 'g') {
                                  if (not GarbageCollector::TriggerGarbageCollection(src.sc)) {
                                      throw std::runtime_error("gc");
                                  }
                              }
                              else if (h[k] == 'b') {
                                  ok = run({o1, o2}, at, true);
                              }
                              else {
                                  ok = run({h[k] == '1' ? o1 : o2}, at, k + 1 == h.size());
                              }
                              if (not ok) {
                                  break;
                              }
                          }
                      }
                  });
}

// ---- transfer -------------------------------------------------------------
std::string Listing(Node const& n, bool native) {
    Json j = Json::object();
    for (auto const& [name, c] : n.ch) {
        auto [h, sz] = Digest(c, native);
        j[name] = "[" + h + ":" + (native ? "" : std::to_string(c.k == 'l' ? c.data.size() : sz)) + ":" + Kind(c) + "]";
    }
    return j.dump(2) + "\n";
}
std::optional<std::string> Dump(IExecutionApi const& api, Artifact::ObjectInfo const& i, bool raw, std::string const& at) {
    int fd = open(at.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    bool ok = api.RetrieveToFds({i}, {fd}, raw);
    close(fd);
    return ok ? std::optional{ReadAll(at)} : std::nullopt;
}
// the object following a path, as far as it exists
std::pair<Node, bool> Follow(Node n, std::vector<std::string> const& segs) {
    for (auto const& x : segs) {
        if (n.k != 'd' or n.ch.count(x) == 0) {
            return {n, false};
        }
        n = Node(n.ch.at(x));
    }
    return {n, true};
}
void Transfer() {
    auto sub = D({{"a", F("0")}});
    std::vector<Node> kinds{F(""),  F("0"), X("0"), L("0"), L("a/b"), D(), sub, D({{"a", X("0")}}), D({{"b", D({{"c", L("0")}})}}), D({{"b", D({{"b", D()}})}})};
    std::vector<std::string> names{"a", "b"};
    auto os = Trees(names, kinds);
    for (auto const& k : kinds) {
        os.push_back(k);
    }
    for (std::string const& nm : {"a b", ".git", "\xc3\xa4", "a\nb", "\"", "...", "A"}) {
        os.push_back(D({{nm, F("0")}, {"z", D({{nm, X("1")}})}}));
    }
    os.push_back(D({{"a", sub}, {"a.b", F("0")}, {"a-b", F("0")}, {"a0", X("0")}}));
    hn::Enumerate("transfer", (long)os.size() * 3,
                  "128 objects in a native or compatible storage or a git repository: installed, dumped, listed, read, "
                  "followed along all paths up to length 3, copied to another storage holding any part of it, availability",
                  [&](long i, hn::Shard& s) {
                      int mode = (int)(i % 3);
                      bool native = mode != 0;
                      auto const& o = os[(size_t)(i / 3)];
                      auto id0 = o.Show() + (mode == 0 ? " compatible" : mode == 1 ? " native" : " git");
                      Scratch dir("tf");
                      auto& e = E();
                      Site site(dir.p + "/r", native, "");
                      if (mode == 2) {
                          if (not e.repo) {
                              e.repo = std::make_unique<trees::Repo>(e.base + "/git");
                          }
                          e.repo->Put(o);
                          if (not site.rc.SetGitCAS(e.repo->path, &site.sc)) {
                              throw std::runtime_error("git cas");
                          }
                      }
                      // an API knowing the repositories
                      auto apis = ApiBundle::Create(&site.lc, &site.rctx, &site.rc);
                      auto const& api = *apis.local;
                      auto info = Info(o, native);
                      auto fresh = [&] {
                          if (mode != 2) {
                              Put(site, o);
                          }
                      };
                      if (s.Case(id0 + " unknown")) {
                          if (mode != 2 and native) {
                              // nothing there yet
                              if (api.IsAvailable(info.digest)) {
                                  s.Fail(id0 + ": available while it is not there", "avail");
                              }
                              auto m = api.GetMissingDigests({info.digest});
                              if (m.size() != 1) {
                                  s.Fail(id0 + ": not missing while it is not there", "avail");
                              }
                          }
                      }
                      fresh();
                      if (s.Case(id0 + " install")) {
                          s.Nontrivial();
                          auto at = dir.p + "/o/x";
                          if (not api.RetrieveToPaths({info}, {at})) {
                              s.Fail(id0 + ": cannot be installed", "install");
                          }
                          auto have = trees::Look(at);
                          auto want = Strip(o);
                          if (want.k == 'd' and want.ch.empty() and have.k == '-') {
                              have = want;
                          }
                          if (not(have == want)) {
                              s.Fail(id0 + ": installed as " + have.Show(), "install");
                          }
                      }
                      if (s.Case(id0 + " read")) {
                          s.Nontrivial();
                          auto raw = Dump(api, info, true, dir.p + "/dump");
                          if (not raw or *raw != Data(o, native)) {
                              s.Fail(id0 + ": raw dump " + (raw ? "differs" : "failed"), "raw");
                          }
                          auto txt = Dump(api, info, false, dir.p + "/dump");
                          auto want = o.k == 'd' ? Listing(o, native) : o.data;
                          if (not txt or *txt != want) {
                              s.Fail(id0 + ": dump " + (txt ? *txt + " instead of " + want : "failed"), "dump");
                          }
                          auto mem = api.RetrieveToMemory(info);
                          if (not mem or *mem != Data(o, native)) {
                              s.Fail(id0 + ": read to memory " + (mem ? "differs" : "failed"), "memory");
                          }
                      }
                      if (s.Case(id0 + " available")) {
                          if (not api.IsAvailable(info.digest) or not api.GetMissingDigests({info.digest}).empty()) {
                              s.Fail(id0 + ": not available", "avail");
                          }
                          if (mode == 2) {
                              // availability of the fallback makes it local
                              if (auto m = Missing(site, o); not m.empty()) {
                                  s.Fail(id0 + ": available, but " + m, "avail-git");
                              }
                          }
                      }
                      // copied to another one that already has a part of it
                      std::vector<Node> part{F("nothing"), o};
                      for (auto const& [_, c] : o.ch) {
                          part.push_back(c);
                          for (auto const& [_2, c2] : c.ch) {
                              part.push_back(c2);
                          }
                      }
                      for (size_t k = 0; k < part.size(); ++k) {
                          auto id = id0 + " copy over " + part[k].Show();
                          if (not s.Case(id)) {
                              continue;
                          }
                          s.Nontrivial();
                          Scratch d2("tc");
                          Site other(d2.p + "/r", native, "");
                          Put(other, part[k]);
                          Site from(d2.p + "/f", native, "");
                          std::unique_ptr<GitApi> git;
                          bool ok = false;
                          if (mode == 2) {
                              ok = GitApi{&site.rc}.RetrieveToCas({info}, *other.apis.local);
                          }
                          else {
                              ok = site.apis.local->RetrieveToCas({info}, *other.apis.local);
                          }
                          if (not ok) {
                              s.Fail(id + ": failed", "copy");
                          }
                          else if (auto m = Missing(other, o); not m.empty()) {
                              s.Fail(id + ": " + m, "copy");
                          }
                      }
                      // paths in it
                      if (mode == 2) {
                          return;
                      }
                      std::vector<std::string> alpha{"a", "b", "c"};
                      std::vector<std::vector<std::string>> paths{{}};
                      for (size_t k = 0; k < paths.size(); ++k) {
                          if (paths[k].size() < 3) {
                              for (auto const& x : alpha) {
                                  auto p = paths[k];
                                  p.push_back(x);
                                  paths.push_back(p);
                              }
                          }
                      }
                      for (auto const& p : paths) {
                          fs::path fp;
                          for (auto const& x : p) {
                              fp /= x;
                          }
                          auto id = id0 + " at '" + fp.string() + "'";
                          if (not s.Case(id)) {
                              continue;
                          }
                          auto [want, full] = Follow(o, p);
                          auto have = RetrieveSubPathId(info, apis, fp);
                          if (full) {
                              s.Nontrivial();
                          }
                          // the object as far as the path can be followed
                          if (not have) {
                              s.Fail(id + ": nothing", "subpath");
                          }
                          else if (auto m = Wrong(*have, want, native); not m.empty()) {
                              s.Fail(id + ": " + m, "subpath");
                          }
                      }
                  });
}

// ---- git repositories -----------------------------------------------------
void Git() {
    auto sub = D({{"a", F("0")}});
    std::vector<Node> kinds{F(""), F("0"), X("0"), L("0"), L("../up"), L("/abs"), D(), sub, D({{"a", X("0")}}), D({{"b", D({{"c", L("0")}})}}), D({{"b", D({{"b", D()}})}})};
    auto os = Trees({"a", "b"}, kinds);
    for (std::string const& nm : {"a b", ".git", ".gitignore", "\xc3\xa4", "a\nb", "\"", "...", "A", ".gitmodules", "git~1"}) {
        os.push_back(D({{nm, F("0")}, {"z", D({{nm, X("1")}})}}));
    }
    os.push_back(D({{".gitignore", F("*\n")}, {"a", F("0")}}));
    os.push_back(D({{"a", sub}, {"a.b", F("0")}, {"a-b", F("0")}, {"a0", X("0")}}));
    hn::Enumerate("git", (long)os.size(),
                  "156 directories imported into a git repository: the tree is exactly the directory; commit, tree and "
                  "every path in them are found, and nothing else; import again, fetch, keep",
                  [&](long i, hn::Shard& s) {
                      auto const& o = os[(size_t)i];
                      if (not s.Case(o.Show())) {
                          return;
                      }
                      s.Nontrivial();
                      auto id0 = o.Show();
                      Scratch dir("gt");
                      Site site(dir.p + "/r", true, "");
                      trees::Write(o, dir.p + "/src");
                      std::string err;
                      auto log = std::make_shared<GitRepo::anon_logger_t>([&err](auto const& m, bool) { err = m; });
                      auto tree = trees::TreeId(o);
                      fs::create_directories(site.sc.GitRoot());
                      if (not GitRepo::InitAndOpen(site.sc.GitRoot(), true)) {
                          throw std::runtime_error("init");
                      }
                      std::mutex mx;
                      for (int k = 0; k < 2; ++k) {
                          auto t = GitRepo::ImportToGit(site.sc, dir.p + "/src", "msg", &mx);
                          if (not t or *t != tree) {
                              s.Fail(id0 + ": imported as " + (t ? *t : "nothing: " + t.error().substr(0, 200)), "import");
                              return;
                          }
                      }
                      if (auto r = GitRepo::IsTreeInRepo(site.sc.GitRoot(), tree); not r or not *r) {
                          s.Fail(id0 + ": imported tree not found", "import");
                      }
                      // a repository of its own
                      auto own = GitRepo::InitAndOpen(dir.p + "/own", false);
                      if (not own) {
                          throw std::runtime_error("init");
                      }
                      auto commit = own->CommitDirectory(dir.p + "/src", "a message", log);
                      if (not commit) {
                          s.Fail(id0 + ": not committed: " + err.substr(0, 200), "commit");
                          return;
                      }
                      if (own->GetHeadCommit(log) != commit) {
                          s.Fail(id0 + ": not the head commit", "commit");
                      }
                      auto cas = GitCAS::Open(dir.p + "/own");
                      auto fake = GitRepo::Open(cas);
                      std::function<void(Node const&, std::string const&)> walk = [&](Node const& n, std::string const& p) {
                          auto want = trees::TreeId(n);
                          auto q = p.empty() ? std::string(".") : p;
                          if (n.k == 'd') {
                              auto c = fake->GetSubtreeFromCommit(*commit, q, log);
                              if (not c or *c != want) {
                                  s.Fail(id0 + ": subtree " + q + " of the commit is " + (c ? *c : "none"), "subtree");
                              }
                              auto t = fake->GetSubtreeFromTree(tree, q, log);
                              if (t != want) {
                                  s.Fail(id0 + ": subtree " + q + " of the tree is " + t.value_or("none"), "subtree");
                              }
                              if (fake->CheckTreeExists(want, log) != std::optional{true}) {
                                  s.Fail(id0 + ": tree at " + q + " does not exist", "exists");
                              }
                          }
                          else {
                              if (fake->CheckBlobExists(want, log) != std::optional{true}) {
                                  s.Fail(id0 + ": blob at " + q + " does not exist", "exists");
                              }
                              auto b = fake->TryReadBlob(want, log);
                              if (not b.first or b.second != n.data) {
                                  s.Fail(id0 + ": blob at " + q + " cannot be read", "read");
                              }
                          }
                          auto g = fake->GetObjectByPathFromTree(tree, q);
                          if (not g or g->id != want or g->type != Ot(n) or
                              g->symlink_content != (n.k == 'l' ? std::optional{n.data} : std::nullopt)) {
                              s.Fail(id0 + ": object at " + q + " is " + (g ? g->id : "none"), "object");
                          }
                          for (auto const& [name, c] : n.ch) {
                              walk(c, p.empty() ? name : p + "/" + name);
                          }
                          auto no = (p.empty() ? "" : p + "/") + std::string("no");
                          if (fake->GetObjectByPathFromTree(tree, no) or fake->GetSubtreeFromTree(tree, no, log) or
                              fake->GetSubtreeFromCommit(*commit, no, log)) {
                              s.Fail(id0 + ": object at " + no, "object");
                          }
                      };
                      walk(o, "");
                      auto none = trees::TreeId(D({{"not", F("there")}}));
                      auto noblob = trees::TreeId(F("not there"));
                      if (fake->CheckTreeExists(none, log) != std::optional{false} or
                          fake->CheckBlobExists(noblob, log) != std::optional{false} or
                          fake->CheckCommitExists(none, log) != std::optional{false} or
                          fake->CheckCommitExists(*commit, log) != std::optional{true}) {
                          s.Fail(id0 + ": wrong answer about existence", "exists");
                      }
                      if (auto b = fake->TryReadBlob(noblob, log); not b.first or b.second) {
                          s.Fail(id0 + ": blob that does not exist was read", "read");
                      }
                      if (auto c = fake->GetSubtreeFromCommit(none, ".", log); c or c.error() != GitLookupError::NotFound) {
                          s.Fail(id0 + ": unknown commit", "subtree");
                      }
                      // fetch it into another one, and keep it there
                      auto bare = GitRepo::InitAndOpen(dir.p + "/bare", true);
                      auto bcas = GitCAS::Open(dir.p + "/bare");
                      auto bfake = GitRepo::Open(bcas);
                      if (not bfake->LocalFetchViaTmpRepo(site.sc, dir.p + "/own", std::nullopt, log)) {
                          s.Fail(id0 + ": not fetched: " + err.substr(0, 200), "fetch");
                          return;
                      }
                      auto later = GitRepo::Open(GitCAS::Open(dir.p + "/bare"));
                      if (later->CheckCommitExists(*commit, log) != std::optional{true} or
                          later->CheckTreeExists(tree, log) != std::optional{true}) {
                          s.Fail(id0 + ": fetched, but not there", "fetch");
                      }
                      for (int k = 0; k < 2; ++k) {
                          auto real = GitRepo::Open(fs::path{dir.p + "/bare"});
                          auto tag = real->KeepTag(*commit, "keep", log);
                          if (not tag) {
                              s.Fail(id0 + ": commit not kept: " + err.substr(0, 200), "keep");
                          }
                          auto t2 = real->KeepTree(tree, "keep", log);
                          if (not t2) {
                              s.Fail(id0 + ": tree not kept: " + err.substr(0, 200), "keep");
                          }
                      }
                      // what is kept survives the pruning of everything else
                      auto cmd = "cd " + Quote(dir.p + "/bare") + " && git -c gc.auto=0 prune --expire=now >/dev/null 2>&1 && git fsck --strict --no-dangling >/dev/null 2>&1; git rev-parse -q --verify " + *commit + "^{tree}";
                      if (std::system("command -v git >/dev/null") == 0) {
                          FILE* f = popen(cmd.c_str(), "r");
                          char buf[100] = {};
                          auto* got = fgets(buf, 99, f);
                          pclose(f);
                          if (got == nullptr or std::string(buf).substr(0, 40) != tree) {
                              s.Fail(id0 + ": kept commit lost", "keep");
                          }
                      }
                  });
}

// ---- roots computed from stages -------------------------------------------
void Stages() {
    // stages: paths to entries
    std::vector<std::string> paths{"a", "a/a", "a/b", "a/b/c", "a-b", "b", "b/a", "c"};
    auto conflict = [](std::string const& p, std::string const& q) {
        return q.rfind(p + "/", 0) == 0 or p.rfind(q + "/", 0) == 0;
    };
    std::vector<Node> kinds{F("0"), X("0"), L("0"), D(), D({{"a", F("0")}, {"b", D({{"a", F("")}})}}), F("")};
    std::vector<std::map<std::string, Node>> stages{{}};
    size_t const max = hn::ctx().thorough ? 5 : 4;
    for (auto const& p : paths) {
        auto old = stages;
        for (auto const& st : old) {
            bool bad = st.size() >= max;
            for (auto const& [q, _] : st) {
                bad = bad or conflict(p, q);
            }
            if (bad) {
                continue;
            }
            for (size_t k = 0; k < kinds.size(); ++k) {
                // beyond two entries only some kinds
                if (st.size() >= 2 and (k + p.size()) % 3 != st.size() % 3) {
                    continue;
                }
                auto c = st;
                c[p] = kinds[k];
                stages.push_back(c);
            }
        }
    }
    hn::Enumerate("stages", (long)stages.size() * 2,
                  "all stages of up to 4 (thorough: 5) of 8 nested paths with 6 kinds of artifacts, native and converted "
                  "from compatible: the id of the tree",
                  [&](long i, hn::Shard& s) {
                      bool native = i % 2 == 0;
                      auto const& st = stages[(size_t)(i / 2)];
                      Node want = D();
                      Expression::map_t::underlying_map_t m;
                      std::string id;
                      for (auto const& [p, n] : st) {
                          Node* at = &want;
                          auto rest = p;
                          while (rest.find('/') != std::string::npos) {
                              at = &at->ch[rest.substr(0, rest.find('/'))];
                              at->k = 'd';
                              rest = rest.substr(rest.find('/') + 1);
                          }
                          at->ch[rest] = n;
                          id += p + ":" + n.Show() + " ";
                          auto info = Info(n, native);
                          m.emplace(p, ExpressionPtr{ArtifactDescription::CreateKnown(info.digest, info.type)});
                      }
                      id += native ? "native" : "compatible";
                      if (not s.Case(id)) {
                          return;
                      }
                      s.Nontrivial();
                      std::string err;
                      auto log = std::make_shared<AsyncMapConsumerLogger>([&err](auto const& msg, bool) { err = msg; });
                      std::optional<RehashUtils::Rehasher> rh;
                      std::unique_ptr<Scratch> dir;
                      std::unique_ptr<Site> src, dst;
                      if (not native) {
                          dir = std::make_unique<Scratch>("st");
                          src = std::make_unique<Site>(dir->p + "/r", false, "");
                          dst = std::make_unique<Site>(dir->p + "/r", true, "");
                          for (auto const& [p, n] : st) {
                              Put(*src, n);
                          }
                          rh.emplace(src->sc, dst->sc, std::nullopt);
                      }
                      auto t = ArtifactsRoot(ExpressionPtr{Expression::map_t{m}}, log, rh);
                      if (not t) {
                          s.Fail(id + ": failed: " + err.substr(0, 200), "failed");
                      }
                      else if (*t != trees::TreeId(want)) {
                          s.Fail(id + ": " + *t + " instead of " + trees::TreeId(want) + " " + want.Show(), "wrong");
                      }
                  });
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    LogConfig::SetSinks({});
    GitContext::Create();
    Overlays();
    Rehash();
    Transfer();
    Git();
    Stages();
    return hn::Finish();
}
