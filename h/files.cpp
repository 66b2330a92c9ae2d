// C22: operations on files do exactly what they say, whatever is already
// there, and nothing else
#include "rt/harness.hpp"
#include "h/trees.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include "src/buildtool/file_system/file_system_manager.hpp"
#include "src/buildtool/file_system/jsonfs.hpp"
#include "src/buildtool/file_system/object_type.hpp"
#include "src/buildtool/logging/log_config.hpp"

namespace {
namespace fs = std::filesystem;
using trees::Node;
using FSM = FileSystemManager;

std::string Base() {
    static std::string d;
    static pid_t who = 0;
    if (who != getpid()) {
        who = getpid();
        d = trees::Dir(hn::ctx().scratch, "files");
        fs::create_directories(d);
    }
    return d;
}
void Clean(std::string const& d) {
    std::error_code ec;
    fs::remove_all(d, ec);
    if (mkdir(d.c_str(), 0755) != 0) {
        throw std::runtime_error("mkdir");
    }
}

std::vector<std::string> const kKinds{"none", "file", "exe", "readonly", "empty", "link", "dirlink", "dangling", "loop", "updir", "emptydir", "dir", "fifo", "hardlink", "linktosrc", "hardtosrc"};
// creates something at the place w/name
void Put(std::string const& w, std::string const& dir, std::string const& name, std::string const& kind) {
    auto at = w + "/" + dir + name;
    auto up = dir.empty() ? std::string{} : std::string{"../"};
    auto file = [&](std::string const& data, mode_t mode) {
        int fd = open(at.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600);
        if (fd < 0 or write(fd, data.data(), data.size()) != (ssize_t)data.size() or fchmod(fd, mode) != 0) {
            throw std::runtime_error("put " + at);
        }
        close(fd);
    };
    int e = 0;
    if (kind == "file") {
        file("data of " + name, 0644);
    }
    else if (kind == "exe") {
        file("code of " + name, 0755);
    }
    else if (kind == "readonly") {
        file("fixed " + name, 0444);
    }
    else if (kind == "empty") {
        file("", 0644);
    }
    else if (kind == "link") {
        e = symlink((up + "other").c_str(), at.c_str());
    }
    else if (kind == "dirlink") {
        e = symlink((up + "odir").c_str(), at.c_str());
    }
    else if (kind == "dangling") {
        e = symlink("nowhere/x", at.c_str());
    }
    else if (kind == "loop") {
        e = symlink(name.c_str(), at.c_str());
    }
    else if (kind == "updir") {
        e = symlink("/", at.c_str());
    }
    else if (kind == "emptydir" or kind == "dir") {
        e = mkdir(at.c_str(), 0755);
        if (kind == "dir") {
            trees::Write(trees::D({{"f", trees::F("in " + name)}, {"x", trees::X("run")}, {"l", trees::L((up + "../odir").c_str())}, {"d", trees::D({{"e", trees::D()}, {"g", trees::F("")}})}}), at);
        }
    }
    else if (kind == "fifo") {
        e = mkfifo(at.c_str(), 0644);
    }
    else if (kind == "hardlink") {
        e = link((w + "/other").c_str(), at.c_str());
    }
    else if (kind == "linktosrc") {
        e = symlink((w + "/src").c_str(), at.c_str());
    }
    else if (kind == "hardtosrc") {
        e = link((w + "/src").c_str(), at.c_str());
    }
    if (e != 0) {
        throw std::runtime_error("put " + kind + " at " + at);
    }
}
bool IsReg(Node const& n) { return n.k == 'f' or n.k == 'x'; }

struct Exp {
    int ok = -1;          // 1 yes 0 no -1 either
    Node tree;            // afterwards (if ok, or if not for ok==0)
    bool dst_any = false; // on failure the destination may be gone
};
struct Op {
    std::string name;
    bool uses_src;
    std::function<bool(std::string const& src, std::string const& dst)> run;
    // src and dst as they are, world without dst's place filled in
    std::function<void(Exp&, Node const& src, std::optional<Node>& dst, std::string const& sk, std::string const& dk)> want;
    int mode = -1;  // of the resulting file
    bool epoch = false;
    bool makes_parents = false;
    bool moves = false;
};

std::vector<Op> Ops() {
    std::vector<Op> r;
    auto removable = [](std::optional<Node> const& d) { return not d or IsReg(*d) or d->k == 'l'; };
    auto same = [](std::string const& dk) { return dk == "linktosrc" or dk == "hardtosrc"; };
    r.push_back({"create directory", false, [](auto const&, auto const& d) { return FSM::CreateDirectory(d); },
                 [](Exp& e, Node const&, std::optional<Node>& d, auto const&, auto const&) {
                     e.ok = not d or d->k == 'd';
                     if (not d) {
                         d = trees::D();
                     }
                 },
                 -1, false, true});
    r.push_back({"create directory exclusively", false, [](auto const&, auto const& d) { return FSM::CreateDirectoryExclusive(d); },
                 [](Exp& e, Node const&, std::optional<Node>& d, auto const&, auto const&) {
                     e.ok = not d;
                     if (not d) {
                         d = trees::D();
                     }
                 },
                 -1, false, true});
    r.push_back({"create file", false, [](auto const&, auto const& d) { return FSM::CreateFile(d); },
                 [](Exp& e, Node const&, std::optional<Node>& d, auto const&, auto const&) {
                     e.ok = not d or IsReg(*d);
                     if (not d) {
                         d = trees::F("");
                     }
                 }});
    r.push_back({"create file exclusively", false, [](auto const&, auto const& d) { return FSM::CreateFileExclusive(d); },
                 [](Exp& e, Node const&, std::optional<Node>& d, auto const&, auto const&) {
                     e.ok = not d;
                     if (not d) {
                         d = trees::F("");
                     }
                 }});
    for (auto const* to : {"a/b", "../../x", "/abs", "with space\n"}) {
        std::string t = to;
        for (int how = 0; how < 3; ++how) {
            r.push_back({(how == 0 ? "symlink to " : how == 1 ? "non-upwards symlink to " : "dated symlink to ") + t, false,
                         [=](auto const&, auto const& d) { return how == 0 ? FSM::CreateSymlink(t, d) : how == 1 ? FSM::CreateNonUpwardsSymlink(t, d) : FSM::CreateSymlinkAs<true>(t, d); },
                         [=](Exp& e, Node const&, std::optional<Node>& d, auto const&, auto const&) {
                             e.ok = removable(d) and (how != 1 or trees::NonUpwards(t));
                             if (e.ok == 1) {
                                 d = trees::L(t);
                             }
                         },
                         -1, how == 2, true});
        }
    }
    auto hard = [](Exp& e, Node const& s, std::optional<Node>& d, auto const& sk, auto const& dk, std::optional<char> as) {
        if (s.k == 'l' or s.k == 'p') {
            e.ok = d ? 0 : -1;  // links to links: left to the operating system
            if (d and as) {
                e.ok = -1;
            }
            return;
        }
        e.ok = IsReg(s) and not d;
        if (e.ok == 1) {
            d = s;
            if (as) {
                d->k = *as;
            }
        }
        else if (as) {
            e.ok = -1;  // permissions of the source changed in vain
        }
    };
    r.push_back({"hard link", true, [](auto const& s, auto const& d) { return FSM::CreateFileHardlink(s, d).has_value(); },
                 [=](Exp& e, Node const& s, std::optional<Node>& d, auto const& sk, auto const& dk) { hard(e, s, d, sk, dk, {}); }});
    r.push_back({"hard link as file", true, [](auto const& s, auto const& d) { return FSM::CreateFileHardlinkAs<true>(s, d, ObjectType::File); },
                 [=](Exp& e, Node const& s, std::optional<Node>& d, auto const& sk, auto const& dk) { hard(e, s, d, sk, dk, 'f'); }, 0444, true});
    r.push_back({"hard link as executable", true, [](auto const& s, auto const& d) { return FSM::CreateFileHardlinkAs<false>(s, d, ObjectType::Executable); },
                 [=](Exp& e, Node const& s, std::optional<Node>& d, auto const& sk, auto const& dk) { hard(e, s, d, sk, dk, 'x'); }, 0555});
    r.push_back({"hard link as tree", true, [](auto const& s, auto const& d) { return FSM::CreateFileHardlinkAs<false>(s, d, ObjectType::Tree) or FSM::CreateFileHardlinkAs<false>(s, d, ObjectType::Symlink); },
                 [=](Exp& e, Node const&, std::optional<Node>&, auto const&, auto const&) { e.ok = 0; }});
    r.push_back({"move without overwriting", true, [](auto const& s, auto const& d) { return FSM::Rename(s, d, true); },
                 [=](Exp& e, Node const& s, std::optional<Node>& d, auto const&, auto const&) {
                     e.ok = s.k != '-' and s.k != 'd' and not d ? (IsReg(s) ? 1 : -1) : 0;
                     if (e.ok == 1) {
                         d = s;
                     }
                 },
                 -1, false, false, true});
    r.push_back({"move", true, [](auto const& s, auto const& d) { return FSM::Rename(s, d); },
                 [=](Exp& e, Node const& s, std::optional<Node>& d, auto const& sk, auto const& dk) {
                     if (dk == "hardtosrc" or (sk == "hardlink" and dk == "hardlink")) {
                         return;  // both names stay, by the rules of the operating system
                     }
                     bool sd = s.k == 'd';
                     e.ok = s.k != '-' and (not d or (sd ? d->k == 'd' and d->ch.empty() : d->k != 'd'));
                     if (e.ok == 1) {
                         d = s;
                     }
                 },
                 -1, false, false, true});
    auto copy = [=](Exp& e, Node const& s, std::optional<Node>& d, std::string const&, std::string const& dk, bool low, std::optional<char> as) {
        if (same(dk)) {
            e.ok = -1;  // onto itself
            if (not low and IsReg(s)) {
                e.ok = 1;
                if (dk == "hardtosrc") {
                    d = s;
                }
                if (as) {
                    e.ok = -1;
                }
            }
            return;
        }
        if (s.k == 'l' or s.k == 'p') {
            e.ok = low ? -1 : 0;
            e.dst_any = true;
            return;
        }
        e.ok = IsReg(s) and removable(d);
        if (low and d and d->k == 'p') {
            e.ok = -1;
        }
        if (e.ok == 1) {
            // permissions of a plain copy: those of the source, or default
            d = Node{low ? 'f' : s.k, s.data, {}};
            if (as) {
                d->k = *as;
            }
        }
        else {
            e.dst_any = not d or d->k != 'd';
        }
    };
    for (bool low : {false, true}) {
        std::string how = low ? " (by a child process)" : "";
        r.push_back({"copy" + how, true, [=](auto const& s, auto const& d) { return FSM::CopyFile(s, d, low); },
                     [=](Exp& e, Node const& s, std::optional<Node>& d, auto const& sk, auto const& dk) { copy(e, s, d, sk, dk, low, {}); }});
        r.push_back({"copy as file" + how, true, [=](auto const& s, auto const& d) { return FSM::CopyFileAs<true, false>(s, d, ObjectType::File, low); },
                     [=](Exp& e, Node const& s, std::optional<Node>& d, auto const& sk, auto const& dk) { copy(e, s, d, sk, dk, low, 'f'); }, 0444, true});
        r.push_back({"copy as executable" + how, true, [=](auto const& s, auto const& d) { return FSM::CopyFileAs<false, true>(s, d, ObjectType::Executable, low); },
                     [=](Exp& e, Node const& s, std::optional<Node>& d, auto const& sk, auto const& dk) { copy(e, s, d, sk, dk, low, 'x'); }, 0755});
        r.push_back({"copy as tree" + how, true, [=](auto const& s, auto const& d) { return FSM::CopyFileAs<false, true>(s, d, ObjectType::Tree, low); },
                     [=](Exp& e, Node const&, std::optional<Node>&, auto const&, auto const&) { e.ok = 0; }});
    }
    r.push_back({"copy as symlink", true, [](auto const& s, auto const& d) { return FSM::CopyFileAs<true>(s, d, ObjectType::Symlink); },
                 [=](Exp& e, Node const& s, std::optional<Node>& d, auto const&, auto const& dk) {
                     if (dk == "linktosrc" or dk == "hardtosrc" or (d and d->k == 'p') or s.data.empty() or (d and d->k == 'd')) {
                         return;
                     }
                     e.dst_any = true;
                     e.ok = s.k == 'l' or IsReg(s);
                     if (e.ok == 1) {
                         d = trees::L(s.data);
                     }
                 },
                 -1, true, true});
    for (bool low : {false, true}) {
        for (std::string const data : {std::string{}, std::string{"new\0data", 8}}) {
            std::string how = (data.empty() ? " nothing" : " data") + std::string{low ? " (by a child process)" : ""};
            auto write = [=](Exp& e, std::optional<Node>& d, char as) {
                e.ok = removable(d);
                if (low and d and not(IsReg(*d))) {
                    e.ok = d->k == 'd' ? 0 : -1;  // only used for new files
                }
                if (e.ok == 1) {
                    d = Node{as, data, {}};
                }
            };
            auto keep = [=](Exp& e, std::optional<Node> const& d, std::string const& dk) {
                if (low and (dk == "hardlink" or dk == "hardtosrc")) {
                    e.ok = -1;
                }
            };
            r.push_back({"write" + how, false, [=](auto const&, auto const& d) { return FSM::WriteFile(data, d, low); },
                         [=](Exp& e, Node const&, std::optional<Node>& d, auto const&, auto const& dk) {
                             char as = low and d and d->k == 'x' ? 'x' : 'f';
                             write(e, d, as);
                             keep(e, d, dk);
                         },
                         -1, false, true});
            r.push_back({"write file" + how, false, [=](auto const&, auto const& d) { return FSM::WriteFileAs<false, true>(data, d, ObjectType::File, low); },
                         [=](Exp& e, Node const&, std::optional<Node>& d, auto const&, auto const& dk) {
                             write(e, d, 'f');
                             keep(e, d, dk);
                         },
                         0644, false, true});
            r.push_back({"write executable" + how, false, [=](auto const&, auto const& d) { return FSM::WriteFileAs<true, false>(data, d, ObjectType::Executable, low); },
                         [=](Exp& e, Node const&, std::optional<Node>& d, auto const&, auto const& dk) {
                             write(e, d, 'x');
                             keep(e, d, dk);
                         },
                         0555, true, true});
        }
    }
    r.push_back({"write tree", false, [](auto const&, auto const& d) { return FSM::WriteFileAs<true, false>("x", d, ObjectType::Tree); },
                 [=](Exp& e, Node const&, std::optional<Node>&, auto const&, auto const&) { e.ok = 0; }});
    r.push_back({"remove file", false, [](auto const&, auto const& d) { return FSM::RemoveFile(d); },
                 [=](Exp& e, Node const&, std::optional<Node>& d, auto const&, auto const&) {
                     e.ok = removable(d);
                     if (e.ok == 1) {
                         d.reset();
                     }
                 }});
    r.push_back({"remove directory", false, [](auto const&, auto const& d) { return FSM::RemoveDirectory(d); },
                 [=](Exp& e, Node const&, std::optional<Node>& d, auto const&, auto const&) {
                     e.ok = not d or d->k == 'd';
                     if (e.ok == 1) {
                         d.reset();
                     }
                 }});
    r.push_back({"copy directory", true, [](auto const& s, auto const& d) { return FSM::CopyDirectoryImpl(s, d); },
                 [=](Exp& e, Node const& s, std::optional<Node>& d, auto const&, auto const&) {
                     e.ok = s.k == 'd' and (not d or d->k == 'd');
                     if (s.k == 'd' and d and d->k == 'd' and not d->ch.empty() and not s.ch.empty()) {
                         e.ok = -1;  // merging
                         return;
                     }
                     if (e.ok == 1 and (not d or d->ch.empty())) {
                         d = s;
                     }
                 }});
    return r;
}

void Run() {
    auto ops = Ops();
    std::vector<std::string> const parents{"p/", "", "missing/", "lp/", "missing/deep/", "other/"};
    hn::Enumerate("operations", (long)(ops.size() * kKinds.size()), "each operation on each kind of source and each kind of destination (files, executables, read-only, empty, hard links, symbolic links of all sorts, directories, pipes, the source itself, nothing), in a directory that is there, missing, linked, or a file", [&](long i, hn::Shard& s) {
        auto const& op = ops[(size_t)i / kKinds.size()];
        auto const& dk = kKinds[(size_t)i % kKinds.size()];
        for (auto const& sk : kKinds) {
            if (sk == "linktosrc" or sk == "hardtosrc" or (not op.uses_src and sk != "file") or (dk == "hardtosrc" and (sk == "none" or sk == "dir" or sk == "emptydir"))) {
                continue;
            }
            if (sk == "fifo" and op.name.find("copy") == 0 and op.name.find("child") != std::string::npos) {
                continue;  // waits for a writer
            }
            if (dk == "fifo" and op.name.find("child") != std::string::npos) {
                continue;  // waits for a reader; only used for new files
            }
            for (auto const& parent : parents) {
                bool there = parent == "p/" or parent.empty() or parent == "lp/";
                if (not there and dk != "none") {
                    continue;
                }
                if (not s.Case(op.name + ": " + sk + " -> " + parent + dk)) {
                    continue;
                }
                s.Nontrivial();
                auto w = Base() + "/w";
                Clean(w);
                trees::Write(trees::D({{"odir", trees::D({{"inner", trees::F("keep")}})}, {"other", trees::F("other")}, {"p", trees::D()}, {"lp", trees::L("p")}}), w);
                Put(w, "", "src", sk);
                auto real = parent == "lp/" ? std::string{"p/"} : parent;
                if (there) {
                    Put(w, real, "dst", dk);
                }
                auto before = trees::Look(w);
                auto src = before.ch.contains("src") ? before.ch["src"] : Node{'-', "", {}};
                auto dir = [&](Node& t) -> Node* {
                    if (real.empty()) {
                        return &t;
                    }
                    return real == "p/" ? &t.ch["p"] : nullptr;
                };
                std::optional<Node> dst;
                if (there and dir(before)->ch.contains("dst")) {
                    dst = dir(before)->ch["dst"];
                }
                Exp e;
                auto nd = dst;
                op.want(e, src, nd, sk, dk);
                // the directory
                if (parent == "other/") {
                    // below a file nothing is, and nothing can be
                    e.ok = op.name.rfind("remove", 0) == 0 ? -1 : 0;
                }
                else if (not there and nd and not op.makes_parents and e.ok == 1 and op.name != "copy directory") {
                    e.ok = 0;
                }
                else if (not there and op.name == "copy directory") {
                    e.ok = -1;
                }
                else if (parent == "lp/" and op.makes_parents and e.ok == 1) {
                    e.ok = -1;  // a linked directory need not be accepted
                }
                if (dk == "loop" and op.name.rfind("copy", 0) == 0 and op.name.find("child") == std::string::npos and e.ok == 1) {
                    e.ok = -1;  // and a destination pointing to itself neither
                }
                if (not there and op.name.find("hard link as") == 0) {
                    e.ok = -1;  // permissions of the source changed in vain
                }
                bool ok = op.run(w + "/src", w + "/" + parent + "dst");
                auto after = trees::Look(w);
                s.Outcome(op.name + (ok ? " yes" : " no"));
                if (e.ok >= 0 and ok != (e.ok == 1)) {
                    s.Fail(op.name + " of " + sk + " to " + parent + dk + (ok ? " claims success" : " fails"), op.name + "/" + sk + "/" + dk);
                    continue;
                }
                auto want = before;
                if (ok and e.ok == 1) {
                    if (op.moves) {
                        want.ch.erase("src");
                    }
                    if (op.mode >= 0 and op.uses_src and op.name.find("hard link") == 0) {
                        want.ch["src"].k = nd->k;
                        if (sk == "hardlink") {
                            want.ch["other"].k = nd->k;
                        }
                    }
                    if (nd) {
                        if (parent == "missing/") {
                            want.ch["missing"] = trees::D({{"dst", *nd}});
                        }
                        else if (parent == "missing/deep/") {
                            want.ch["missing"] = trees::D({{"deep", trees::D({{"dst", *nd}})}});
                        }
                        else {
                            dir(want)->ch["dst"] = *nd;
                        }
                    }
                    else if (there) {
                        dir(want)->ch.erase("dst");
                    }
                }
                auto got = after;
                if (e.ok < 0 or (not ok and e.dst_any)) {
                    // only the destination is open
                    if (there) {
                        dir(want)->ch.erase("dst");
                        dir(got)->ch.erase("dst");
                    }
                    want.ch.erase("missing");
                    got.ch.erase("missing");
                    if (e.ok < 0 and (op.moves or op.name.find("hard link as") == 0 or dk == "hardtosrc" or dk == "linktosrc" or dk == "link" or dk == "hardlink" or sk == "link" or sk == "hardlink")) {
                        for (auto const* x : {"src", "other"}) {
                            want.ch.erase(x);
                            got.ch.erase(x);
                        }
                    }
                }
                else if (not ok and op.makes_parents) {
                    got.ch.erase("missing");
                }
                if (not(got == want)) {
                    s.Fail(op.name + " of " + sk + " to " + parent + dk + " leaves " + after.Show() + " instead of " + want.Show(), op.name + "/" + sk + "/" + dk);
                    continue;
                }
                if (ok and e.ok == 1 and nd) {
                    struct stat a {}, b {}, o {};
                    auto at = w + "/" + parent + "dst";
                    lstat(at.c_str(), &a);
                    if (op.mode >= 0 and (int)(a.st_mode & 0777) != op.mode) {
                        s.Fail(op.name + ": mode " + std::to_string(a.st_mode & 0777), "mode");
                    }
                    if (op.epoch and a.st_mtime != 0) {
                        s.Fail(op.name + ": time " + std::to_string(a.st_mtime), "time");
                    }
                    bool linked = lstat((w + "/src").c_str(), &b) == 0 and a.st_ino == b.st_ino;
                    lstat((w + "/other").c_str(), &o);
                    bool is_hard = op.name.find("hard link") == 0;
                    bool fresh = op.name.find("copy") == 0 or op.name.find("write") == 0 or op.name.find("symlink") != std::string::npos;
                    if ((is_hard and not linked) or (fresh and S_ISREG(a.st_mode) and (a.st_nlink != 1 or a.st_ino == o.st_ino) and dk != "hardtosrc")) {
                        s.Fail(op.name + " of " + sk + " to " + dk + ": link count " + std::to_string(a.st_nlink), "links");
                    }
                }
            }
        }
    });
}

void Kinds() {
    hn::Enumerate("kinds", (long)kKinds.size() + 512, "what every kind of entry, and files of all 512 modes, are taken for and read as", [&](long i, hn::Shard& s) {
        auto w = Base() + "/k";
        bool mode = i >= (long)kKinds.size();
        auto kind = mode ? std::string{"file"} : kKinds[(size_t)i];
        if (kind == "linktosrc" or kind == "hardtosrc" or not s.Case(mode ? "mode " + std::to_string(i - (long)kKinds.size()) : kind)) {
            return;
        }
        s.Nontrivial();
        Clean(w);
        trees::Write(trees::D({{"odir", trees::D({{"inner", trees::F("keep")}})}, {"other", trees::F("other")}}), w);
        Put(w, "", "e", kind);
        auto at = w + "/e";
        if (mode) {
            chmod(at.c_str(), (mode_t)(i - (long)kKinds.size()));
        }
        Node n = trees::Look(at);
        bool up = n.k == 'l' and not trees::NonUpwards(n.data);
        auto eq = [&](bool got, bool want, std::string const& what) {
            if (got != want) {
                s.Fail(kind + " is " + (got ? "" : "not ") + what, what);
            }
        };
        eq(FSM::Exists(at), n.k != '-', "there");
        eq(FSM::IsFile(at), IsReg(n), "a file");
        eq(FSM::IsDirectory(at), n.k == 'd', "a directory");
        eq(FSM::IsExecutable(at), n.k == 'x', "executable");
        eq(FSM::IsNonUpwardsSymlink(at), n.k == 'l' and not up, "a non-upwards link");
        eq(FSM::IsNonUpwardsSymlink(at, true), n.k == 'l', "a link");
        std::map<char, ObjectType> const types{{'f', ObjectType::File}, {'x', ObjectType::Executable}, {'l', ObjectType::Symlink}, {'d', ObjectType::Tree}};
        auto t = FSM::Type(at);
        auto tu = FSM::Type(at, true);
        if (t != (types.contains(n.k) and not up ? std::optional{types.at(n.k)} : std::nullopt) or tu != (types.contains(n.k) ? std::optional{types.at(n.k)} : std::nullopt)) {
            s.Fail(kind + ": wrong type", "type");
        }
        auto data = FSM::ReadFile(at);
        if (data != (IsReg(n) ? std::optional{n.data} : std::nullopt)) {
            s.Fail(kind + ": read as file", "read");
        }
        if (FSM::ReadSymlink(at) != (n.k == 'l' ? std::optional{n.data} : std::nullopt)) {
            s.Fail(kind + ": read as link", "readlink");
        }
        if (n.k != '-' and n.k != 'p') {
            auto c = types.contains(n.k) ? FSM::ReadContentAtPath(at, types.at(n.k)) : std::nullopt;
            if (c != (n.k == 'd' ? std::nullopt : std::optional{n.data})) {
                s.Fail(kind + ": content", "content");
            }
        }
        // as part of a directory
        for (int fl = 0; fl < 4; ++fl) {
            bool allow = fl & 1, ign = fl & 2;
            std::map<std::string, ObjectType> got;
            bool ok = FSM::ReadDirectory(w, [&](auto const& p, ObjectType ty) { return got.emplace(p.string(), ty).second; }, allow, ign);
            bool special = n.k == 'l' or n.k == 'p';
            bool want = not special or ign or (n.k == 'l' and (allow or not up));
            std::map<std::string, ObjectType> all{{"odir", ObjectType::Tree}, {"other", ObjectType::File}};
            if (n.k != '-' and not(special and ign) and types.contains(n.k)) {
                all["e"] = types.at(n.k);
            }
            if (ok != want or (ok and got != all)) {
                s.Fail(kind + " in a directory", "directory");
            }
        }
        std::map<std::string, bool> rec, wrec{{"odir", true}, {"odir/inner", false}, {"other", false}};
        if (n.k != '-') {
            wrec["e"] = n.k == 'd';
        }
        std::function<void(std::string const&, Node const&)> walk = [&](std::string const& p, Node const& x) {
            for (auto const& [nm, c] : x.ch) {
                wrec[p + "/" + nm] = c.k == 'd';
                walk(p + "/" + nm, c);
            }
        };
        walk("e", n);
        if (not FSM::ReadDirectoryEntriesRecursive(w, [&](auto const& p, bool d) { return rec.emplace(p.string(), d).second; }) or rec != wrec) {
            s.Fail(kind + ": entries of a directory", "recursive");
        }
        // leaving out directories of a name
        rec.clear();
        for (auto it = wrec.begin(); it != wrec.end();) {
            bool drop = it->first == "e/d" or it->first.rfind("e/d/", 0) == 0;
            it = drop ? wrec.erase(it) : std::next(it);
        }
        if (not FSM::ReadDirectoryEntriesRecursive(w, [&](auto const& p, bool d) { return rec.emplace(p.string(), d).second; }, {"d", "other", "f"}) or rec != wrec) {
            s.Fail(kind + ": entries without some directories", "recursive");
        }
    });
}

void Contents() {
    std::vector<size_t> sizes{0, 1, 255, 256, 257, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65536, 65537, 100000, 1 << 20};
    hn::Enumerate("contents", (long)sizes.size() * 3, "contents of sizes around multiples of buffers, of three patterns, written, copied and read in all ways", [&](long i, hn::Shard& s) {
        auto size = sizes[(size_t)i / 3];
        if (not s.Case(std::to_string(size) + " pattern " + std::to_string(i % 3))) {
            return;
        }
        s.Nontrivial();
        std::string data(size, '\0');
        unsigned x = 7;
        for (auto& c : data) {
            x = x * 1103515245U + 12345U;
            c = i % 3 == 0 ? (char)(x >> 16) : i % 3 == 1 ? '\n' : '\0';
        }
        auto w = Base() + "/c";
        Clean(w);
        bool ok = FSM::WriteFile(data, w + "/a") and FSM::WriteFile(data, w + "/b", true) and FSM::CopyFile(w + "/a", w + "/c") and FSM::CopyFile(w + "/b", w + "/d", true) and
                  FSM::CreateFileHardlink(w + "/a", w + "/e").has_value();
        if (not ok) {
            s.Fail("writing or copying failed", "fail");
        }
        for (auto const* f : {"a", "b", "c", "d", "e"}) {
            if (trees::Look(w + "/" + f).data != data or FSM::ReadFile(w + "/" + f) != std::optional{data}) {
                s.Fail(std::string{"content of "} + f, "content");
            }
        }
        // shorter content over longer
        if (size > 0) {
            ok = FSM::WriteFile("s", w + "/a") and FSM::WriteFile("s", w + "/b", true) and FSM::CopyFile(w + "/a", w + "/c") and FSM::CopyFile(w + "/a", w + "/d", true);
            for (auto const* f : {"a", "b", "c", "d"}) {
                ok = ok and trees::Look(w + "/" + f).data == "s";
            }
            if (not ok or trees::Look(w + "/e").data != data) {
                s.Fail("content replaced by shorter one", "shorter");
            }
        }
    });
}

void Links() {
    // chains and cycles of links
    int const n = 4;
    std::vector<std::string> const to{"l0", "l1", "l2", "l3", "f", "d", "gone", "d/l", "../w/l1"};
    long const per = (long)to.size();
    hn::Enumerate("links", per * per * per * per, "four links, each to any of them, to a file, a directory, a link in a directory, or nothing: following them ends, at what they lead to, or fails", [&](long i, hn::Shard& s) {
        std::vector<std::string> t;
        for (long x = i; (int)t.size() < n; x /= per) {
            t.push_back(to[(size_t)(x % per)]);
        }
        if (not s.Case(t[0] + " " + t[1] + " " + t[2] + " " + t[3])) {
            return;
        }
        alarm(5);
        auto b = Base() + "/l";
        static bool made = false;
        auto w = b + "/w";
        if (not made) {
            Clean(b);
            trees::Write(trees::D({{"w", trees::D({{"f", trees::F("x")}, {"d", trees::D({{"l", trees::L("../l2")}})}})}}), b);
            made = true;
        }
        for (int k = 0; k < n; ++k) {
            auto p = w + "/l" + std::to_string(k);
            unlink(p.c_str());
            if (symlink(t[(size_t)k].c_str(), p.c_str()) != 0) {
                throw std::runtime_error("symlink");
            }
        }
        // where it leads, if anywhere
        std::string at = "l0";
        std::set<std::string> seen;
        while (seen.insert(at).second) {
            if (at[0] == 'l') {
                at = t[(size_t)(at[1] - '0')];
            }
            else if (at == "d/l") {
                at = "l2";
            }
            else if (at == "../w/l1") {
                at = "l1";
            }
            else {
                break;
            }
        }
        bool ends = at == "f" or at == "d" or at == "gone";
        s.Nontrivial(true);
        fs::path p = w + "/l0";
        bool ok = FSM::ResolveSymlinks(&p);
        s.Outcome(ok ? "resolved" : "failed");
        if (ok != ends) {
            s.Fail(ends ? "not resolved" : "a cycle resolved to " + p.string(), "resolve");
        }
        else if (ok and p.lexically_normal() != fs::path(w + "/" + at).lexically_normal()) {
            s.Fail("resolved to " + p.string(), "resolve");
        }
    });
    hn::Enumerate("anchor", 5, "changing directories, nested, to missing ones: restored afterwards", [&](long i, hn::Shard& s) {
        if (not s.Case(std::to_string(i))) {
            return;
        }
        s.Nontrivial();
        auto w = Base() + "/a";
        Clean(w);
        fs::create_directories(w + "/x/y");
        std::vector<std::string> const dirs{w, w + "/x", w + "/x/y", w + "/missing", w};
        fs::current_path(w);
        {
            auto a = FSM::ChangeDirectory(dirs[(size_t)i]);
            if (fs::current_path() != (i == 3 ? fs::path(w) : fs::path(dirs[(size_t)i])) or a.GetRestorePath() != w) {
                s.Fail("not changed", "anchor");
            }
            {
                auto b = FSM::ChangeDirectory(w + "/x");
                if (fs::current_path() != w + "/x") {
                    s.Fail("not changed", "anchor");
                }
            }
            if (fs::current_path() != (i == 3 ? fs::path(w) : fs::path(dirs[(size_t)i]))) {
                s.Fail("not restored", "anchor");
            }
        }
        if (fs::current_path() != w) {
            s.Fail("not restored", "anchor");
        }
        fs::current_path("/");
    });
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    LogConfig::SetSinks({});
    umask(022);
    Kinds();
    Contents();
    Links();
    Run();
    return hn::Finish();
}
