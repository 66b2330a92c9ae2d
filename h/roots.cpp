// C19: source roots. What a root shows of a source tree, for all small trees,
// in a directory and as a git tree, with and without "ignore-special".
#include "rt/harness.hpp"
#include "h/trees.hpp"
#include <optional>
#include "src/buildtool/common/artifact_description.hpp"
#include "src/buildtool/common/git_hashes_converter.hpp"
#include "src/buildtool/file_system/file_root.hpp"
#include "src/buildtool/file_system/git_context.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/storage/config.hpp"

namespace {
using namespace trees;
using Json = nlohmann::json;
using OJ = std::optional<Json>;  // nullopt: not specified

bool Special(Node const& n) { return n.k != 'f' and n.k != 'x' and n.k != 'd'; }
bool Invalid(Node const& n) { return n.k == 'p' or n.k == 's' or (n.k == 'l' and not NonUpwards(n.data)); }
bool DirectOk(Node const& d) {
    return std::none_of(d.ch.begin(), d.ch.end(), [](auto const& e) { return Invalid(e.second); });
}
bool DeepOk(Node const& d) {
    return DirectOk(d) and std::all_of(d.ch.begin(), d.ch.end(), [](auto const& e) {
               return e.second.k != 'd' or DeepOk(e.second);
           });
}
std::vector<std::string> Split(std::string const& p) {
    std::vector<std::string> r;
    size_t i = 0;
    while (i <= p.size()) {
        size_t j = std::min(p.find('/', i), p.size());
        r.push_back(p.substr(i, j - i));
        i = j + 1;
    }
    return r;
}

struct World {
    Node tree;
    bool git;
    bool ign;
};

// what is at the path. nullptr: nothing
Node const* Find(World const& w, std::string const& path, bool* unspec) {
    *unspec = false;
    Node const* n = &w.tree;
    if (path == ".") {
        return n;
    }
    bool top = true;
    for (auto const& s : Split(path)) {
        if (n->k == 'l' and not w.git) {
            *unspec = true;  // paths through links: left to the operating system
            return nullptr;
        }
        if (n->k != 'd' or (w.ign and Special(*n))) {
            return nullptr;
        }
        if (not top and not w.ign and not DirectOk(*n)) {
            *unspec = true;  // something below an invalid directory
        }
        auto it = n->ch.find(s);
        if (it == n->ch.end()) {
            return nullptr;
        }
        n = &it->second;
        top = false;
    }
    return w.ign and Special(*n) ? nullptr : n;
}

char const* const kOps[] = {"Exists",      "IsFile",        "IsSymlink", "IsDirectory", "IsBlob",
                            "ReadContent", "ReadDirectory", "BlobType",  "Artifact",    "ArtifactC"};
constexpr int kNOps = sizeof kOps / sizeof kOps[0];

Json Type(char k) {
    return k == 'f' ? "f" : k == 'x' ? "x" : k == 'l' ? "l" : "t";
}

// the listing a directory has to show
Json Listing(World const& w, Node const& d) {
    Json r{{"f", Json::array()}, {"l", Json::array()}, {"d", Json::array()}};
    for (auto const& [n, c] : d.ch) {
        if (w.ign and Special(c)) {
            continue;
        }
        r[c.k == 'd' ? "d" : c.k == 'l' ? "l" : "f"].push_back(n);
    }
    r["empty"] = r["f"].empty() and r["l"].empty() and r["d"].empty();
    r["tree"] = w.git and not w.ign ? Json{TreeId(d), TreeData(d).size()} : Json(nullptr);
    return r;
}

OJ Want(World const& w, std::string const& op, std::string const& path) {
    bool unspec = false;
    Node const* n = Find(w, path, &unspec);
    if (unspec) {
        return std::nullopt;
    }
    bool const real_special = [&] {  // a special entry which is hidden
        World v = w;
        v.ign = false;
        v.git = true;
        bool u = false;
        auto const* m = Find(v, path, &u);
        return m != nullptr and Special(*m);
    }();
    if (n != nullptr and Invalid(*n)) {
        // only listed, never used
        if (op == "IsFile" or op == "IsDirectory" or op == "IsBlob" or op == "IsSymlink") {
            return Json(false);
        }
        if ((op == "ReadContent" or op == "Artifact" or op == "ArtifactC") and w.git) {
            return Json(nullptr);
        }
        if (op == "Exists" and w.git and n->k == 'l') {
            return Json(false);
        }
        if (op == "ReadContent" and n->k == 'l') {
            return Json(nullptr);
        }
        return std::nullopt;
    }
    if (op == "Exists") {
        return Json(n != nullptr);
    }
    if (op == "IsFile") {
        return Json(n != nullptr and (n->k == 'f' or n->k == 'x'));
    }
    if (op == "IsSymlink") {
        return Json(n != nullptr and n->k == 'l');
    }
    if (op == "IsDirectory") {
        return Json(n != nullptr and n->k == 'd');
    }
    if (op == "IsBlob") {
        return Json(n != nullptr and n->k != 'd');
    }
    if (op == "ReadContent") {
        if (not w.git and w.ign and real_special) {
            return std::nullopt;  // never asked for
        }
        return n == nullptr or n->k == 'd' ? Json(nullptr) : Json(n->data);
    }
    if (op == "BlobType") {
        if (not w.git and w.ign and real_special) {
            return std::nullopt;
        }
        return n == nullptr or n->k == 'd' ? Json(nullptr) : Type(n->k);
    }
    if (op == "Artifact" or op == "ArtifactC") {
        if (not w.git) {
            return Json{{"type", "LOCAL"}, {"data", {{"path", path}, {"repository", "rep"}}}};
        }
        if (n == nullptr or n->k == 'd') {
            return Json(nullptr);
        }
        return Json{{"type", "KNOWN"},
                    {"data",
                     {{"id", op == "Artifact" ? Hex(GitRaw(n->data, false)) : Hex(Raw(n->data, false))},
                      {"file_type", Type(n->k)},
                      {"size", n->data.size()}}}};
    }
    // ReadDirectory
    if (not w.git and real_special) {
        return std::nullopt;
    }
    if (n == nullptr) {
        return Json("none");
    }
    if (n->k != 'd') {
        return Json("none");
    }
    if (not w.ign) {
        if (not DirectOk(*n)) {
            return w.git or std::any_of(n->ch.begin(), n->ch.end(),
                                        [](auto const& e) { return e.second.k == 'l' and Invalid(e.second); })
                       ? OJ{Json(nullptr)}
                       : std::nullopt;
        }
        if (w.git and not DeepOk(*n)) {
            return Json(nullptr);
        }
    }
    return Listing(w, *n);
}

template <class E>
Json Entries(E const& e) {
    Json r;
    auto list = [](auto it) {
        std::vector<std::string> v;
        auto const end = it.end();
        for (; it != end; ++it) {
            v.push_back(*it);
        }
        std::sort(v.begin(), v.end());
        return Json(v);
    };
    r["f"] = list(e.FilesIterator());
    r["l"] = list(e.SymlinksIterator());
    r["d"] = list(e.DirectoriesIterator());
    r["empty"] = e.Empty();
    r["tree"] = nullptr;
    auto t = e.AsKnownTree(HashFunction::Type::GitSHA1, "rep");
    if (t) {
        auto j = t->ToJson();
        r["tree"] = Json{j["data"]["id"], j["data"]["size"]};
        if (j["type"] != "KNOWN" or j["data"]["file_type"] != "t") {
            r["tree"] = j;
        }
    }
    if (e.AsKnownTree(HashFunction::Type::PlainSHA256, "rep")) {
        r["compatible tree"] = true;
    }
    for (auto const& n : {"a", "b", "nope", "lnk"}) {
        bool in = std::find(r["f"].begin(), r["f"].end(), n) != r["f"].end() or
                  std::find(r["l"].begin(), r["l"].end(), n) != r["l"].end();
        if (e.ContainsBlob(n) != in) {
            r["ContainsBlob differs"] = n;
        }
    }
    return r;
}

Json Get(FileRoot const& r, std::string const& op, std::string const& path) {
    if (op == "Exists") {
        return r.Exists(path);
    }
    if (op == "IsFile") {
        return r.IsFile(path);
    }
    if (op == "IsSymlink") {
        return r.IsSymlink(path);
    }
    if (op == "IsDirectory") {
        return r.IsDirectory(path);
    }
    if (op == "IsBlob") {
        return r.IsBlob(path);
    }
    if (op == "ReadContent") {
        auto c = r.ReadContent(path);
        return c ? Json(*c) : Json(nullptr);
    }
    if (op == "BlobType") {
        auto t = r.BlobType(path);
        return t ? Json(std::string(1, ToChar(*t))) : Json(nullptr);
    }
    if (op == "Artifact" or op == "ArtifactC") {
        auto a = r.ToArtifactDescription(
            op == "Artifact" ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256, path, "rep");
        if (not a) {
            return nullptr;
        }
        return a->ToJson();
    }
    auto e = r.ReadDirectory(path);
    return e ? Entries(*e) : Json(nullptr);
}

bool Agree(Json const& want, Json const& got) {
    if (want == "none") {
        return got.is_null() or got["empty"] == true;
    }
    return want == got;
}

struct Env {
    std::unique_ptr<Repo> repo;
    std::string base;
    long n = 0;
    StorageConfig Storage(std::string const& name) const {
        auto c = StorageConfig::Builder{}
                     .SetBuildRoot(base + "/" + name)
                     .SetNumGenerations(2)
                     .SetHashType(HashFunction::Type::GitSHA1)
                     .Build();
        if (not c) {
            throw std::runtime_error(c.error());
        }
        return *c;
    }
};
Env& E() {
    static Env e;
    static pid_t who = 0;
    if (who != getpid()) {
        who = getpid();
        e.base = Dir(hn::ctx().scratch, "roots");
        fs::create_directories(e.base);
        e.repo = std::make_unique<Repo>(e.base + "/git");
        e.n = 0;
    }
    return e;
}

std::string Show(World const& w) {
    return std::string(w.git ? "git" : "file") + (w.ign ? " ignore-special " : " ") + w.tree.Show();
}

void Compare(hn::Shard& s, World const& w, FileRoot const& r, std::string const& op, std::string const& path,
             std::string const& history) {
    auto want = Want(w, op, path);
    auto got = Get(r, op, path);
    if (not want) {
        return;
    }

    if (not want->is_null() and *want != Json(false) and *want != "none") {
        s.Nontrivial();
    }
    if (not Agree(*want, got)) {
        s.Fail(op + "(" + path + ")" + history + ": " + got.dump(-1, ' ', false, Json::error_handler_t::replace) +
                   ", expected " + want->dump(-1, ' ', false, Json::error_handler_t::replace),
               op);
    }
}

FileRoot Git(Node const& t, bool ign, StorageConfig const& sc) {
    auto id = E().repo->Put(t);
    auto r = FileRoot::FromGit(&sc, E().repo->path, id, ign);
    if (not r) {
        throw std::runtime_error("no root from git tree");
    }
    return *r;
}

// all queries, in one order and backwards
void Queries(hn::Shard& s, Node const& tree, std::vector<std::string> const& paths, bool with_fs) {
    auto& e = E();
    std::string at;
    if (with_fs) {
        at = e.base + "/t" + std::to_string(e.n++);
        Write(tree, at);
    }
    auto fresh = "m" + std::to_string(e.n++);
    StorageConfig const sc = e.Storage(fresh);
    for (int git = with_fs ? 0 : 1; git < 2; ++git) {
        for (int ign = 0; ign < 2; ++ign) {
            World w{tree, git == 1, ign == 1};
            if (not s.Case(Show(w))) {
                continue;
            }
            // a tree with a submodule cannot be a root, unless special entries are to be ignored
            if (git == 1 and ign == 0 and
                std::any_of(tree.ch.begin(), tree.ch.end(), [](auto const& c) { return c.second.k == 's'; })) {
                if (FileRoot::FromGit(&sc, e.repo->path, e.repo->Put(tree), false)) {
                    s.Fail("root with a submodule", "submodule");
                }
                continue;
            }
            for (int order = 0; order < (git == 1 ? 3 : 1); ++order) {
                FileRoot r = git == 1 ? Git(tree, w.ign, sc) : FileRoot(fs::path(at), w.ign);
                int total = (int)paths.size() * kNOps;
                for (int i = 0; i < total; ++i) {
                    int j = order == 0 ? i : order == 1 ? total - 1 - i : (i * 37 + 11) % total;
                    Compare(s, w, r, kOps[j % kNOps], paths[(size_t)(j / kNOps)], "");
                }
                if (order > 0) {
                    continue;
                }
                auto cd = r.ContentDescription();
                Json want = git == 1 ? Json{w.ign ? "git tree ignore-special" : "git tree", TreeId(tree)} : Json();
                if ((cd ? *cd : Json()) != want) {
                    s.Fail("content description " + (cd ? cd->dump() : "none"), "content");
                }
                if (r.GetTreeHash() != (git == 1 ? std::optional{TreeId(tree)} : std::nullopt)) {
                    s.Fail("tree hash", "hash");
                }
                if (git == 1 and not w.ign) {
                    // trees and blobs by id
                    for (auto const& p : paths) {
                        bool u = false;
                        auto const* n = Find(w, p, &u);
                        if (n == nullptr or n->k == 'p' or n->k == 's') {
                            continue;
                        }

                        if (n->k == 'd') {
                            for (int again = 0; again < 2; ++again) {
                                auto t = r.ReadTree(TreeId(*n));
                                if (t.has_value() != DeepOk(*n)) {
                                    s.Fail("ReadTree of " + p + (t ? " gives an invalid tree" : " fails"), "ReadTree");
                                }
                                else if (t) {
                                    std::map<std::string, std::string> es;
                                    for (auto const& [name, en] : *t) {
                                        es[name] = ToChar(en->Type()) + en->Hash();
                                    }
                                    std::map<std::string, std::string> ws;
                                    for (auto const& [name, c] : n->ch) {
                                        ws[name] = Type(c.k).get<std::string>() + Hex(NodeRaw(c));
                                    }
                                    if (es != ws) {
                                        s.Fail("ReadTree of " + p + " has other entries", "ReadTree");
                                    }
                                }
                            }
                        }
                        else {
                            auto id = Hex(GitRaw(n->data, false));
                            if (r.ReadBlob(id) != std::optional{n->data}) {
                                s.Fail("ReadBlob of " + p, "ReadBlob");
                            }
                            auto l = r.ReadBlob(id, true);
                            if (l != (NonUpwards(n->data) ? std::optional{n->data} : std::nullopt)) {
                                s.Fail("ReadBlob as symlink of " + p, "ReadBlob");
                            }
                        }
                    }
                }
            }
        }
    }
    if (with_fs) {
        fs::remove_all(at);
    }
    fs::remove_all(e.base + "/" + fresh);
}

std::vector<Node> Leaves() { return {F("up"), L("b"), L("../x"), X("up")}; }

// all directories over the given entries below each name
std::vector<Node> Dirs(std::vector<Node> const& a, std::vector<Node> const& b) {
    std::vector<Node> r;
    for (int i = -1; i < (int)a.size(); ++i) {
        for (int j = -1; j < (int)b.size(); ++j) {
            Node d = D();
            if (i >= 0) {
                d.ch["a"] = a[(size_t)i];
            }
            if (j >= 0) {
                d.ch["b"] = b[(size_t)j];
            }
            r.push_back(d);
        }
    }
    return r;
}

void Trees() {
    auto l = Leaves();
    auto d1 = Dirs(l, l);  // 25
    auto e2 = l;
    e2.insert(e2.end(), d1.begin(), d1.end());
    auto d2 = Dirs(e2, e2);  // 900
    std::vector<std::string> paths{".", "a", "b", "c", "a/a", "a/b", "b/a", "b/b", "a/a/a", "a/a/b", "b/a/b", "a/b/a", "a/c", "a/a/a/a"};
    hn::Enumerate("trees", (long)d2.size(),
                  "all trees over two names and two levels of directories of files, executables, valid and upwards "
                  "symbolic links, alone and in a root next to nothing, a file, an upwards link or above (thorough: next to "
                  "each of the 25 one-level directories); all queries for 14 paths in three orders; directory and git, with and without ignore-special",
                  [&](long i, hn::Shard& s) {
                      auto const& d = d2[(size_t)i];
                      Queries(s, d, paths, true);
                      std::vector<Node> more{D({{"a", d}}), D({{"a", d}, {"b", L("/abs")}}), D({{"a", d}, {"b", F("f")}}),
                                             D({{"a", L("b")}, {"b", d}}), D({{"a", D({{"a", d}})}}), D({{"a", D({{"a", d}})}, {"b", L("..")}})};
                      for (auto const& o : d1) {
                          if (hn::ctx().thorough) {
                              more.push_back(D({{"a", d}, {"b", o}}));
                          }
                      }
                      for (auto const& m : more) {
                          std::vector<std::string> p2{".", "a"};
                          for (auto const& p : {"a", "b", "a/a", "a/b", "b/a", "b/b", "a/a/b", "b/b/a", "c"}) {
                              p2.push_back("a/" + std::string(p));
                          }
                          Queries(s, m, p2, true);
                      }
                  });
}

// special entries of every kind and link targets at every depth
void Targets() {
    std::vector<std::string> targets{"a",       "a/b",   "./a",     "..",     "../a", "a/..",  "a/../..", "a/../../b",
                                     "/",       "/a",    "./..",    "a/./../b", "...", "..a",  "a/..b/../..", " ",
                                     "a//b",    "//a",   ".",       "./",     "a/",   "a/../", "./../a",  "a/b/../../..",
                                     "a/b/../..", "\xc3\xa4", "a\nb", "..\\a", "a/.../..", std::string(300, 'x'),
                                     std::string(200, 'd') + "/../../" + std::string(200, 'e')};
    std::vector<Node> specials;
    for (auto const& t : targets) {
        specials.push_back(L(t));
    }
    specials.push_back(Node{'p', "", {}});
    specials.push_back(Node{'s', "", {}});
    std::vector<std::string> paths{".", "a", "lnk", "a/f", "a/lnk", "a/a", "a/a/f", "a/a/lnk", "a/a/a", "a/a/a/f", "a/a/a/lnk", "f"};
    hn::Enumerate("special entries", (long)specials.size() * 5,
                  "31 link targets, a fifo and a submodule, in the root or one to three directories deep or at all "
                  "depths; all queries for 12 paths in three orders",
                  [&](long i, hn::Shard& s) {
                      auto const& sp = specials[(size_t)(i / 5)];
                      int where = (int)(i % 5);
                      Node t = D({{"f", F("3")}});
                      if (where >= 3) {
                          t.ch["lnk"] = sp;
                      }
                      for (int d = 2; d >= 0; --d) {
                          Node up = D({{"a", t}, {"f", F(std::to_string(d))}});
                          if (where == 4 or where == d) {
                              up.ch["lnk"] = sp;
                          }
                          t = up;
                      }
                      if (sp.k == 's') {
                          Queries(s, t, paths, false);
                      }
                      else if (sp.k == 'p') {
                          // no such entries in git
                          auto& e = E();
                          auto at = e.base + "/t" + std::to_string(e.n++);
                          Write(t, at);
                          for (int ign = 0; ign < 2; ++ign) {
                              World w{t, false, ign == 1};
                              if (s.Case(Show(w))) {
                                  FileRoot r(fs::path(at), w.ign);
                                  for (auto const& p : paths) {
                                      for (auto const* op : kOps) {
                                          Compare(s, w, r, op, p, "");
                                      }
                                  }
                              }
                          }
                          fs::remove_all(at);
                      }
                      else {
                          Queries(s, t, paths, true);
                      }
                  });
}

// the answer does not depend on what has been asked before
void Histories() {
    std::vector<Node> ts{
        D({{"a", D({{"b", D({{"f", F("1")}, {"l", L("../../x")}})}, {"f", F("2")}})}}),
        D({{"a", D({{"b", D({{"f", F("1")}})}, {"l", L("../x")}})}, {"b", D({{"f", F("1")}})}}),
        D({{"a", D({{"b", D({{"b", D({{"f", F("1")}, {"l", L("ok")}})}, {"f", X("f")}})}})}}),
        D({{"a", D({{"b", D({{"l", L("/x")}})}})}, {"b", D({{"l", L("/x")}})}, {"f", F("/x")}}),
        D({{"a", D({{"f", F("1")}})}, {"b", D({{"f", F("1")}})}, {"l", L("..")}}),
    };
    std::vector<std::string> paths{".", "a", "a/b", "b", "a/b/f", "a/b/l", "a/f", "a/b/b", "a/b/b/f"};
    std::vector<int> ops{0, 1, 5, 6, 8};
    struct Q {
        std::string op, path;
    };
    std::vector<Q> qs;
    for (auto const& p : paths) {
        for (int o : ops) {
            qs.push_back({kOps[o], p});
        }
    }
    long nq = (long)qs.size();
    hn::Enumerate("histories", (long)ts.size() * 2 * nq,
                  "five trees, git, with and without ignore-special: all sequences of three of 45 "
                  "queries on one root, and the second again on a root of the same storage",
                  [&](long i, hn::Shard& s) {
                      auto const& q1 = qs[(size_t)(i % nq)];
                      bool ign = (i / nq) % 2 == 1;
                      auto const& t = ts[(size_t)(i / nq / 2)];
                      World w{t, true, ign};
                      auto& e = E();
                      for (auto const& q2 : qs) {
                          if (not s.Case(Show(w) + " after " + q1.op + "(" + q1.path + "): " + q2.op + "(" + q2.path + ")")) {
                              continue;
                          }
                          auto fresh = "h" + std::to_string(e.n++);
                          StorageConfig const sc = e.Storage(fresh);
                          auto r = Git(t, ign, sc);
                          Compare(s, w, r, q1.op, q1.path, "");
                          Compare(s, w, r, q2.op, q2.path, " after " + q1.op + "(" + q1.path + ")");
                          for (auto const& q3 : qs) {
                              Compare(s, w, r, q3.op, q3.path, " after two queries");
                          }
                          auto r2 = Git(t, ign, sc);
                          Compare(s, w, r2, q2.op, q2.path, " on a new root of this storage after " + q1.op + "(" + q1.path + ")");
                          fs::remove_all(e.base + "/" + fresh);
                      }
                  });
}

// names of entries
void Names() {
    std::vector<std::string> names{"a b", "ä", "\xff\xfe", ".git", ".gitmodules", "...", "..a", "-", "a\nb", "a\tb", "\"q\"", "\\", "*", "~", "A", "a.", ".a", "a-b", "a0", "a.b", std::string(255, 'n'), "CON", "%41", "#", "100644 a"};
    hn::Enumerate("names", (long)names.size(),
                  "25 entry names, each as name of a file, of a directory and of a link, next to entries which git "
                  "sorts close to it",
                  [&](long i, hn::Shard& s) {
                      auto const& n = names[(size_t)i];
                      for (auto const& x : std::vector<Node>{F("c"), D({{n, X("in")}, {"a", F("in2")}}), L("ok")}) {
                          for (auto const& y : std::vector<Node>{F("o"), D({{"z", F("z")}})}) {
                              Node t = D({{n, x}, {"a", y}, {"a.", F("dot")}, {"a0", y}});
                              t.ch[n] = x;
                              Queries(s, t, {".", n, "a", "a.", "a0", n + "/" + n, n + "/a", "a/z", "a0/z"}, n.size() < 256);
                          }
                      }
                  });
}

// the root descriptions of a repository configuration
void Schemes() {
    hn::Enumerate("schemes", 1, "well-formed and malformed root descriptions, relative to one tree", [&](long, hn::Shard& s) {
        auto& e = E();
        StorageConfig const sc = e.Storage("schemes");
        Node t = D({{"f", F("1")}, {"l", L("f")}, {"d", D({{"x", X("2")}, {"l", L("../..")}})}});
        auto id = e.repo->Put(t);
        auto at = e.base + "/schemes-tree";
        Write(t, at);
        auto const& g = e.repo->path;
        struct C {
            Json j;
            char kind;  // f g a c, 0: error
            bool ign;
        };
        std::vector<C> cs{
            {Json{"file", at}, 'f', false},
            {Json{"file ignore-special", at}, 'f', true},
            {Json{"git tree", id, g}, 'g', false},
            {Json{"git tree ignore-special", id, g}, 'g', true},
            {Json{"git tree", id}, 'a', false},
            {Json{"git tree ignore-special", id}, 'a', true},
            {Json{"computed", "base", "m", "t", Json::object()}, 'c', false},
            {Json{"computed", "base", "m", "t", Json{{"V", 1}}}, 'c', false},
            {Json{"computed", "base", "m", "t"}, 0, false},
            {Json{"computed", "base", "m", 1, Json::object()}, 0, false},
            {Json{"computed", "base", "m", "t", Json::array()}, 0, false},
            {Json::array({"file"}), 0, false},
            {Json{"file", 1}, 0, false},
            {Json{"file", at, "x"}, 0, false},
            {Json::array({"file ignore-special"}), 0, false},
            {Json{"file ignore-special", 3}, 0, false},
            {Json::array({"git tree"}), 0, false},
            {Json{"git tree", 1}, 0, false},
            {Json{"git tree", id, 1}, 0, false},
            {Json{"git tree", id, g, "x"}, 0, false},
            {Json{"git tree", std::string(40, '0'), g}, 0, false},
            {Json{"git tree", "zz", g}, 0, false},
            {Json{"git tree", id, e.base + "/none"}, 0, false},
            {Json{"git tree ignore-special", std::string(40, '0'), g}, 0, false},
            {Json{"other", at}, 0, false},
            {Json::array(), 0, false},
            {Json("file"), 0, false},
            {Json{1, at}, 0, false},
            {Json(nullptr), 0, false},
            {Json{{"file", at}}, 0, false},
        };
        for (auto const& c : cs) {
            if (not s.Case(c.j.dump())) {
                continue;
            }

            auto r = FileRoot::ParseRoot(&sc, "rep", "workspace_root", c.j);
            if (r.has_value() != (c.kind != 0)) {
                s.Fail(r ? "accepted" : "rejected: " + r.error(), "accept");
                continue;
            }
            if (not r) {
                continue;
            }
            s.Nontrivial();
            auto const& root = r->first;
            if (root.IgnoreSpecial() != c.ign or root.IsAbsent() != (c.kind == 'a') or
                root.IsPrecomputed() != (c.kind == 'c')) {
                s.Fail("wrong kind of root", "kind");
            }
            if ((r->second.has_value()) != (c.kind == 'f')) {
                s.Fail("local path", "path");
            }
            if (c.kind == 'a') {
                if (root.GetAbsentTreeId() != std::optional{id} or root.Exists("f") or root.IsDirectory(".") or
                    root.ReadContent("f") or root.ToArtifactDescription(HashFunction::Type::GitSHA1, "f", "r")) {
                    s.Fail("absent root", "absent");
                }
                continue;
            }
            if (c.kind == 'c') {
                continue;
            }
            World w{t, c.kind == 'g', c.ign};
            for (auto const& p : {".", "f", "l", "d", "d/x", "d/l", "n"}) {
                for (auto const* op : kOps) {
                    Compare(s, w, root, op, p, "");
                }
            }
        }
        fs::remove_all(at);
    });
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    LogConfig::SetSinks({});

    GitContext::Create();
    Trees();
    Targets();
    Histories();
    Names();
    Schemes();
    return hn::Finish();
}
