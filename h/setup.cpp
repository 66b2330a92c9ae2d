// C23: setting up repositories yields the documented roots
#include "h/bazel_stub.hpp"
#include "h/trees.hpp"
#include "rt/harness.hpp"
#include <archive.h>
#include <archive_entry.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <set>
#include "src/buildtool/file_system/git_cas.hpp"
#include "src/buildtool/file_system/symlinks/resolve_symlinks_map.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/logging/log_sink_cmdline.hpp"
#include "src/buildtool/multithreading/task_system.hpp"
#include "src/buildtool/serve_api/remote/serve_api.hpp"
#include "src/buildtool/storage/garbage_collector.hpp"
#include "src/buildtool/storage/repository_garbage_collector.hpp"
#include "src/other_tools/just_mr/setup.hpp"

namespace {
using hn::Json;
using trees::D;
using trees::F;
using trees::L;
using trees::Node;
using trees::X;
namespace fs = std::filesystem;

// --- trees -------------------------------------------------------------------
Node Strip(Node const& n) {  // without special entries
    Node r = n;
    r.ch.clear();
    for (auto const& [name, c] : n.ch) {
        if (c.k == 'd' or c.k == 'f' or c.k == 'x') {
            r.ch[name] = Strip(c);
        }
    }
    return r;
}
bool AnyUpwards(Node const& n) {
    if (n.k == 'l') {
        return not trees::NonUpwards(n.data);
    }
    for (auto const& [name, c] : n.ch) {
        if (AnyUpwards(c)) {
            return true;
        }
    }
    return n.k == 's';
}
std::optional<Node> Sub(Node const& n, std::string const& path) {
    Node const* at = &n;
    for (auto const& p : fs::path(path)) {
        if (p.string().empty() or p == ".") {
            continue;
        }
        auto it = at->ch.find(p.string());
        if (at->k != 'd' or it == at->ch.end()) {
            return std::nullopt;
        }
        at = &it->second;
    }
    return *at;
}
using Path = std::vector<std::string>;

// Resolution of links. Links are taken for what they lead to in the unresolved
// tree; nothing if not confined, dangling, or never ending.
struct Resolver {
    Node const& root;
    bool complete;
    bool unspecified = false;

    static std::optional<Path> Join(Path p, std::string const& target) {
        if (not target.empty() and target[0] == '/') {
            return std::nullopt;
        }
        for (auto const& s : fs::path(target)) {
            if (s.string().empty() or s == ".") {
                continue;
            }
            if (s == "..") {
                if (p.empty()) {
                    return std::nullopt;
                }
                p.pop_back();
            }
            else {
                p.push_back(s.string());
            }
        }
        return p;
    }
    // where the path leads to, following links on the way (and at the end)
    std::optional<std::pair<Path, Node const*>> Follow(Path const& path, int fuel) {
        Path at;
        Node const* n = &root;
        for (size_t i = 0; i < path.size(); ++i) {
            if (n->k != 'd') {
                return std::nullopt;
            }
            auto it = n->ch.find(path[i]);
            if (it == n->ch.end()) {
                return std::nullopt;
            }
            if (it->second.k == 'l') {
                auto j = Join(at, it->second.data);
                if (not j or fuel == 0) {
                    return std::nullopt;
                }
                auto f = Follow(*j, fuel - 1);
                if (not f) {
                    return std::nullopt;
                }
                at = f->first;
                n = f->second;
            }
            else {
                at.push_back(path[i]);
                n = &it->second;
            }
        }
        return std::pair{at, n};
    }
    std::optional<Node> Resolve(Path const& at, Node const& n, std::set<Path> const& within) {
        if (n.k == 'd') {
            if (within.count(at) != 0) {
                return std::nullopt;  // contains itself
            }
            auto w = within;
            w.insert(at);
            auto r = D();
            for (auto const& [name, c] : n.ch) {
                auto p = at;
                p.push_back(name);
                auto e = Resolve(p, c, w);
                if (not e) {
                    return std::nullopt;
                }
                r.ch[name] = *e;
            }
            return r;
        }
        if (n.k != 'l') {
            return n;
        }
        auto dir = at;
        dir.pop_back();
        auto t = Join(dir, n.data);
        if (not t) {
            return std::nullopt;
        }
        if (not complete and trees::NonUpwards(n.data)) {
            return n;
        }
        if (not complete) {
            // links left in the tree on the way: not said what happens
            Node const* x = &root;
            for (auto const& s : *t) {
                auto it = x->ch.find(s);
                if (it == x->ch.end()) {
                    return std::nullopt;
                }
                x = &it->second;
                if (x->k == 'l') {
                    unspecified = true;
                }
            }
        }
        auto f = Follow(*t, 20);
        if (not f) {
            return std::nullopt;
        }
        return Resolve(f->first, *f->second, within);
    }
    std::optional<Node> Run() { return Resolve({}, root, {}); }
    // Whether an entry needs, on the way to where it leads, a directory by
    // another name that contains it
    bool Loops(Path const& at, std::vector<Path>* stack) {
        if (std::find(stack->begin(), stack->end(), at) != stack->end()) {
            return true;
        }
        stack->push_back(at);
        Node const* n = &root;
        for (auto const& c : at) {
            auto it = n->k != 'd' ? n->ch.end() : n->ch.find(c);
            n = it == n->ch.end() ? nullptr : &it->second;
            if (n == nullptr) {
                break;
            }
        }
        bool r = false;
        Path p = at;
        if (n == nullptr) {
            p.pop_back();
            r = Loops(p, stack);
            auto f = Follow(at, 20);
            if (f and not r) {
                p = f->first;
                n = f->second;
            }
        }
        if (n != nullptr and n->k == 'd') {
            for (auto const& [name, c] : n->ch) {
                auto e = p;
                e.push_back(name);
                r = r or Loops(e, stack);
            }
        }
        else if (n != nullptr and n->k == 'l' and (complete or not trees::NonUpwards(n->data))) {
            p.pop_back();
            if (auto t = Join(p, n->data)) {
                r = Loops(*t, stack);
            }
        }
        stack->pop_back();
        return r;
    }
    bool Loops() {
        std::vector<Path> stack;
        return Loops({}, &stack);
    }
};

// --- archives ----------------------------------------------------------------
struct Entry {
    std::string path;
    Node node;
};
void Flat(Node const& n, std::string const& at, std::vector<Entry>* out) {
    for (auto const& [name, c] : n.ch) {
        out->push_back({at + name, c});
        if (c.k == 'd') {
            Flat(c, at + name + "/", out);
        }
    }
}
void Pack(std::string const& file, std::string const& kind, std::vector<Entry> const& es) {
    auto* a = archive_write_new();
    bool ok = true;
    if (kind == "zip") {
        ok = archive_write_set_format_zip(a) == ARCHIVE_OK;
    }
    else if (kind == "7z") {
        ok = archive_write_set_format_7zip(a) == ARCHIVE_OK;
    }
    else {
        ok = archive_write_set_format_pax_restricted(a) == ARCHIVE_OK;
        if (kind == "gz") {
            ok = ok and archive_write_add_filter_gzip(a) == ARCHIVE_OK and archive_write_set_filter_option(a, "gzip", "timestamp", nullptr) == ARCHIVE_OK;
        }
        if (kind == "bz2") {
            ok = ok and archive_write_add_filter_bzip2(a) == ARCHIVE_OK;
        }
        if (kind == "xz") {
            ok = ok and archive_write_add_filter_xz(a) == ARCHIVE_OK;
        }
    }
    ok = ok and archive_write_open_filename(a, file.c_str()) == ARCHIVE_OK;
    for (auto const& e : es) {
        auto* x = archive_entry_new();
        archive_entry_set_pathname(x, e.path.c_str());
        archive_entry_set_mtime(x, 1000000000, 0);
        switch (e.node.k) {
            case 'd':
                archive_entry_set_filetype(x, AE_IFDIR);
                archive_entry_set_perm(x, 0755);
                break;
            case 'l':
                archive_entry_set_filetype(x, AE_IFLNK);
                archive_entry_set_symlink(x, e.node.data.c_str());
                archive_entry_set_perm(x, 0777);
                break;
            case 'h':
                archive_entry_set_filetype(x, AE_IFREG);
                archive_entry_set_hardlink(x, e.node.data.c_str());
                break;
            case 'p':
                archive_entry_set_filetype(x, AE_IFIFO);
                archive_entry_set_perm(x, 0644);
                break;
            default:
                archive_entry_set_filetype(x, AE_IFREG);
                archive_entry_set_perm(x, e.node.k == 'x' ? 0755 : 0644);
                archive_entry_set_size(x, (la_int64_t)e.node.data.size());
        }
        ok = ok and archive_write_header(a, x) == ARCHIVE_OK;
        if (e.node.k == 'f' or e.node.k == 'x') {
            ok = ok and archive_write_data(a, e.node.data.data(), e.node.data.size()) == (la_ssize_t)e.node.data.size();
        }
        archive_entry_free(x);
    }
    ok = ok and archive_write_close(a) == ARCHIVE_OK;
    std::string msg = ok ? "" : archive_error_string(a) == nullptr ? "?" : archive_error_string(a);
    archive_write_free(a);
    if (not ok) {
        throw std::runtime_error("packing " + file + ": " + msg);
    }
}

// --- the sources -------------------------------------------------------------
Node const& Plain() {
    static Node const t = D({{"a", F("a")},
                             {"x", X("x")},
                             {"l", L("d/f")},
                             {"d", D({{"f", F("f")}, {"l2", L("s/../f")}, {"s", D({{"g", X("g")}, {"a", F("a")}})}})},
                             {".gitignore", F("a\nd\n*.o\n")},
                             {".gitattributes", F("* text eol=crlf\n* ident\n")},
                             {"t.o", F("")},
                             {"crlf", F("a\r\n$Id$\nb\n")},
                             {"n s\t", F("name")},
                             {"a.b", D({{"f", F("f")}})},
                             {"a0", F("sorted")}});
    return t;
}
Node const& Other() {
    static Node const t = D({{"a", F("other")}, {"d", D({{"f", F("f")}, {"new", F("n")}})}, {"x", F("x")}});
    return t;
}
Node const& Links() {  // all confined
    static Node const t = D({{"c", F("c")},
                             {"d", D({{"up", L("../c")}, {"f", X("f")}, {"ud", L("../s/t")}})},
                             {"dl", L("d")},
                             {"s", D({{"t", D({{"u", L("../../d/f")}, {"v", L("w")}, {"w", F("w")}})}})}});
    return t;
}
Node const& Bad(int i) {
    static std::vector<Node> const ts = {
        D({{"c", F("c")}, {"d", D({{"up", L("../nothing")}})}}),
        D({{"c", F("c")}, {"d", D({{"up", L("../../c")}})}}),
        D({{"c", F("c")}, {"d", D({{"abs", L("/etc/hostname")}})}}),
        D({{"c", F("c")}, {"d", D({{"self", L("..")}})}}),
        D({{"c", F("c")}, {"d", L("d")}}),
    };
    return ts[(size_t)i];
}

std::string Sha(std::string const& file, int bits) {
    auto d = trees::Look(file).data;
    unsigned char md[64];
    unsigned n = 0;
    EVP_Digest(d.data(), d.size(), md, &n, bits == 256 ? EVP_sha256() : EVP_sha512(), nullptr);
    return trees::Hex({reinterpret_cast<char*>(md), n});
}
std::string BlobId(std::string const& data) { return trees::Hex(trees::GitRaw(data, false)); }

struct Commit {
    std::string id;
    Node tree;
};
struct Sources {
    std::string at;
    std::map<std::string, std::string> content;  // file -> git blob id
    Commit c1, c2, c3, sub;
    explicit Sources(std::string a) : at(std::move(a)) {
        fs::create_directories(at);
        trees::Write(Plain(), at + "/plain");
        fs::create_directory(at + "/plain/empty");
        trees::Write(Links(), at + "/links");
        for (int i = 0; i < 5; ++i) {
            trees::Write(Bad(i), at + "/bad" + std::to_string(i));
        }
        trees::Write(D({{"f", F("f")}, {"p", Node{'p', "", {}}}}), at + "/special");
        fs::create_symlink("plain", at + "/plainlink");
        std::vector<Entry> es;
        Flat(Plain(), "", &es);
        es.push_back({"empty", D()});
        for (auto const* k : {"gz", "bz2", "xz", "tar", "zip", "7z"}) {
            Pack(at + "/plain." + k, k, es);
        }
        for (auto& e : es) {  // with a leading "./", directories not listed
            e.path = "./" + e.path;
        }
        es.erase(std::remove_if(es.begin(), es.end(), [](auto const& e) { return e.node.k == 'd' and e.path != "./empty"; }), es.end());
        Pack(at + "/dot.tar", "tar", es);
        es.clear();
        Flat(Other(), "", &es);
        Pack(at + "/other.gz", "gz", es);
        es.clear();
        Flat(Links(), "", &es);
        Pack(at + "/links.gz", "gz", es);
        Pack(at + "/links.zip", "zip", es);
        for (int i = 0; i < 5; ++i) {
            es.clear();
            Flat(Bad(i), "", &es);
            Pack(at + "/bad" + std::to_string(i) + ".tar", "tar", es);
        }
        Pack(at + "/hard.tar", "tar", {{"a", F("hl")}, {"b", Node{'h', "a", {}}}});
        Pack(at + "/empty.tar", "tar", {});
        trees::Write(F("foreign"), at + "/ff");
        trees::Write(F(std::string("\0bin\r\n", 6)), at + "/fb");
        fs::create_directories(at + "/dist");
        fs::copy_file(at + "/plain.gz", at + "/dist/theplain");
        fs::copy_file(at + "/ff", at + "/dist/wrong");  // another content by that name
        trees::Write(F("foreign"), at + "/dist/onlyhere");
        for (auto const& e : fs::directory_iterator(at)) {
            if (e.is_regular_file()) {
                content[e.path().filename().string()] = BlobId(trees::Look(e.path().string()).data);
            }
        }
        // git repositories
        trees::Repo r{at + "/r.git"};
        c1 = MakeCommit(r, Plain(), "");
        c2 = MakeCommit(r, Other(), c1.id);
        c3 = MakeCommit(r, Links(), c1.id);
        auto with_sub = Other();
        with_sub.ch["sub"] = Node{'s', "", {}};
        sub = MakeCommit(r, with_sub, c1.id);
        Ref(at + "/r.git", "main", c2.id);
        Ref(at + "/r.git", "other", c3.id);
        Ref(at + "/r.git", "sub", sub.id);
        // a work tree, of a commit, with further changes
        trees::Write(Other(), at + "/wc");
        git_repository* wc = nullptr;
        if (git_repository_init(&wc, (at + "/wc").c_str(), 0) != 0) {
            throw std::runtime_error("cannot create work tree");
        }
        git_repository_free(wc);
        fs::remove_all(at + "/wc/.git/objects");
        fs::copy(at + "/r.git/objects", at + "/wc/.git/objects", fs::copy_options::recursive);
        wctree = D({{"p", Plain()}, {"k", Links()}, {"a", F("top")}, {"b", D({{"c", D({{"f", F("f")}})}})}});
        {
            trees::Repo tmp{at + "/tmp.git"};
            auto c = MakeCommit(tmp, wctree, "");
            fs::copy(at + "/tmp.git/objects", at + "/wc/.git/objects", fs::copy_options::recursive | fs::copy_options::skip_existing);
            std::ofstream(at + "/wc/.git/HEAD") << c.id << "\n";
        }
        fs::remove_all(at + "/tmp.git");
        fs::create_directory(at + "/home");
        std::ofstream(at + "/home/.gitconfig") << "[url \"" << at << "/\"]\n\tinsteadOf = vrf://\n";
        trees::Write(D({{"p", D()}, {"k", D()}, {"b", D({{"c", D({{"changed", F("")}})}})}, {"untracked", D({{"f", F("u")}})}}), at + "/wc");
    }
    Node wctree;
    static Commit MakeCommit(trees::Repo& r, Node const& t, std::string const& parent) {
        auto tree = r.Put(t);
        auto data = "tree " + tree + "\n" + (parent.empty() ? "" : "parent " + parent + "\n") +
                    "author A <a@example.org> 1000000000 +0000\ncommitter A <a@example.org> 1000000000 +0000\n\nmessage\n";
        git_oid oid;
        if (git_odb_write(&oid, r.odb, data.data(), data.size(), GIT_OBJECT_COMMIT) != 0) {
            throw std::runtime_error("cannot write commit");
        }
        char buf[64];
        git_oid_tostr(buf, 41, &oid);
        return {buf, t};
    }
    static void Ref(std::string const& repo, std::string const& name, std::string const& id) {
        fs::create_directories(repo + "/refs/heads");
        std::ofstream(repo + "/refs/heads/" + name) << id << "\n";
    }
    void Gone() const { fs::rename(at, at + ".gone"); }
    void Back() const { fs::rename(at + ".gone", at); }
    void Back2() const {
        if (not There()) {
            Back();
        }
    }
    [[nodiscard]] bool There() const { return fs::exists(at); }
};

// --- descriptions of roots ---------------------------------------------------
struct Root {
    std::string name;
    Json desc;
    char kind = 'g';           // g: git tree, s: git tree ignoring special entries, p: path, q: path ignoring, a: absent, z: absent ignoring, j: as given
    std::optional<Node> want;  // the tree; none: must fail
    bool may_fail = false;     // ... or fail
    bool offline = true;       // known once set up
    Json given{};
};

std::vector<Root> Roots(Sources const& s) {
    std::vector<Root> r;
    auto P = [](std::string const& t) { return Json::parse(t); };
    auto plain = Plain();
    auto packed = plain;
    packed.ch["empty"] = D();
    // directories
    auto file = [&](std::string const& path, Json const& pragma) {
        Json j{{"type", "file"}, {"path", path}};
        if (not pragma.is_null()) {
            j["pragma"] = pragma;
        }
        return j;
    };
    auto git = P(R"({"to_git":true})");
    auto ign = P(R"({"special":"ignore"})");
    auto igng = P(R"({"special":"ignore","to_git":true})");
    auto part = P(R"({"special":"resolve-partially"})");
    auto comp = P(R"({"special":"resolve-completely"})");
    auto add = [&](std::string const& n, Json const& d, char k, std::optional<Node> w, bool may_fail = false, bool offline = true) {
        r.push_back({n, d, k, std::move(w), may_fail, offline, {}});
    };
    add("file", file(s.at + "/plain", {}), 'p', packed, false, false);
    add("file relative", file("plain", {}), 'p', packed, false, false);
    add("file ignore", file("links", ign), 'q', Links(), false, false);
    add("file to_git", file("plain", git), 'g', packed, false, false);
    add("file to_git false", file("plain", P(R"({"to_git":false})")), 'p', packed, false, false);
    add("file to_git link", file("plainlink", git), 'g', packed, true, false);
    add("file to_git subdir", file("plain/d", git), 'g', plain.ch.at("d"), false, false);
    add("file to_git links", file("links", git), 'g', Links(), true, false);
    add("file to_git ignore", file("links", igng), 's', Links(), false, false);
    add("file to_git ignore special", file("special", igng), 's', D({{"f", F("f")}}), false, false);
    add("file to_git special", file("special", git), 'g', std::nullopt, false, false);
    add("file partially", file("links", part), 'g', Resolver{Links(), false}.Run(), false, false);
    add("file completely", file("links", comp), 'g', Resolver{Links(), true}.Run(), false, false);
    for (int i = 0; i < 5; ++i) {
        auto n = "bad" + std::to_string(i);
        add("file partially " + n, file(n, part), 'g', Resolver{Bad(i), false}.Run(), false, false);
        add("file completely " + n, file(n, comp), 'g', Resolver{Bad(i), true}.Run(), false, false);
    }
    add("file nothing", file("nothing", git), 'g', std::nullopt, false, false);
    // directories in a repository: as committed
    add("repo", file("wc", git), 'g', s.wctree, false, false);
    add("repo subdir", file("wc/b/c", git), 'g', D({{"f", F("f")}}), false, false);
    add("repo plain", file("wc/p", git), 'g', plain, false, false);
    add("repo links", file("wc/k", git), 'g', Links(), true, false);
    add("repo ignore", file("wc/k", igng), 's', Links(), false, false);
    add("repo partially", file("wc/k", part), 'g', Resolver{Links(), false}.Run(), false, false);
    add("repo completely", file("wc/k", comp), 'g', Resolver{Links(), true}.Run(), false, false);
    add("repo untracked", file("wc/untracked", git), 'g', D({{"f", F("u")}}), true, false);
    add("repo as is", file("wc/b", {}), 'p', D({{"c", D({{"changed", F("")}})}}), false, false);
    add("file to_git absent", file("plain", P(R"({"to_git":true,"absent":true})")), 'a', packed, false, false);
    add("repo absent", file("wc/p", P(R"({"to_git":true,"absent":true})")), 'a', plain, false, false);
    add("file completely absent", file("links", P(R"({"special":"resolve-completely","absent":true})")), 'a', Resolver{Links(), true}.Run(), false, false);
    // archives
    auto arch = [&](std::string const& type, std::string const& f, Json const& more) {
        Json j{{"type", type}, {"content", s.content.at(f)}, {"fetch", "file://" + s.at + "/" + f}};
        j.update(more);
        return j;
    };
    for (auto const* k : {"gz", "bz2", "xz", "tar"}) {
        add(std::string("archive ") + k, arch("archive", std::string("plain.") + k, Json::object()), 'g', packed);
    }
    add("archive dot", arch("archive", "dot.tar", Json::object()), 'g', packed);
    add("zip", arch("zip", "plain.zip", Json::object()), 'g', packed);
    add("zip 7z", arch("zip", "plain.7z", Json::object()), 'g', packed);
    add("archive zip", arch("archive", "plain.zip", Json::object()), 'g', packed, true);
    add("zip tar", arch("zip", "plain.tar", Json::object()), 'g', packed, true);
    add("archive file", arch("archive", "ff", Json::object()), 'g', std::nullopt);
    add("archive empty", arch("archive", "empty.tar", Json::object()), 'g', D(), true);
    add("archive hard links", arch("archive", "hard.tar", Json::object()), 'g', D({{"a", F("hl")}, {"b", F("hl")}}));
    add("archive subdir", arch("archive", "plain.gz", P(R"({"subdir":"d"})")), 'g', plain.ch.at("d"));
    add("archive subdir 2", arch("archive", "plain.gz", P(R"({"subdir":"./d/../d/s"})")), 'g', plain.ch.at("d").ch.at("s"));
    add("archive subdir up", arch("archive", "plain.gz", P(R"({"subdir":"../x"})")), 'g', std::nullopt);
    add("archive subdir missing", arch("archive", "plain.gz", P(R"({"subdir":"zz"})")), 'g', std::nullopt);
    add("archive subdir file", arch("archive", "plain.gz", P(R"({"subdir":"a"})")), 'g', std::nullopt);
    add("archive other", arch("archive", "other.gz", Json::object()), 'g', Other());
    add("archive other subdir", arch("archive", "other.gz", P(R"({"subdir":"d"})")), 'g', Other().ch.at("d"));
    add("archive ignore", arch("archive", "plain.gz", P(R"({"pragma":{"special":"ignore"}})")), 's', packed);
    add("archive ignore subdir", arch("archive", "plain.gz", P(R"({"pragma":{"special":"ignore"},"subdir":"d"})")), 's', plain.ch.at("d"));
    add("archive partially plain", arch("archive", "plain.gz", P(R"({"pragma":{"special":"resolve-partially"}})")), 'g', packed);
    add("archive completely plain", arch("archive", "plain.gz", P(R"({"pragma":{"special":"resolve-completely"}})")), 'g', Resolver{packed, true}.Run());
    add("archive links", arch("archive", "links.gz", Json::object()), 'g', Links(), true);
    for (auto const* f : {"links.gz", "links.zip"}) {
        std::string ty = f == std::string("links.gz") ? "archive" : "zip";
        add(ty + " links ignore", arch(ty, f, P(R"({"pragma":{"special":"ignore"}})")), 's', Links());
        add(ty + " links partially", arch(ty, f, P(R"({"pragma":{"special":"resolve-partially"}})")), 'g', Resolver{Links(), false}.Run());
        add(ty + " links completely", arch(ty, f, P(R"({"pragma":{"special":"resolve-completely"}})")), 'g', Resolver{Links(), true}.Run());
    }
    add("archive links ignore subdir", arch("archive", "links.gz", P(R"({"pragma":{"special":"ignore"},"subdir":"d"})")), 's', Links().ch.at("d"));
    add("archive links partially subdir", arch("archive", "links.gz", P(R"({"pragma":{"special":"resolve-partially"},"subdir":"s"})")), 'g', std::nullopt, true);
    r.back().want = Sub(*Resolver{Links(), false}.Run(), "s");
    add("archive links completely subdir t", arch("archive", "links.gz", P(R"({"pragma":{"special":"resolve-completely"},"subdir":"s"})")), 'g', std::nullopt, true);
    r.back().want = Sub(*Resolver{Links(), true}.Run(), "s");
    for (int i = 0; i < 5; ++i) {
        auto n = "bad" + std::to_string(i);
        add("archive partially " + n, arch("archive", n + ".tar", P(R"({"pragma":{"special":"resolve-partially"}})")), 'g', Resolver{Bad(i), false}.Run());
        add("archive completely " + n, arch("archive", n + ".tar", P(R"({"pragma":{"special":"resolve-completely"}})")), 'g', Resolver{Bad(i), true}.Run());
        add("archive ignore " + n, arch("archive", n + ".tar", P(R"({"pragma":{"special":"ignore"}})")), 's', Bad(i));
    }
    add("archive sums", arch("archive", "other.gz", Json{{"sha256", Sha(s.at + "/other.gz", 256)}, {"sha512", Sha(s.at + "/other.gz", 512)}}), 'g', Other());
    add("archive wrong sha256", arch("archive", "other.gz", Json{{"sha256", Sha(s.at + "/plain.gz", 256)}}), 'g', Other(), true);
    add("archive wrong sha512", arch("archive", "other.gz", Json{{"sha512", Sha(s.at + "/plain.gz", 512)}}), 'g', Other(), true);
    add("archive mirror", arch("archive", "other.gz", Json{{"fetch", "file://" + s.at + "/missing"}, {"mirrors", Json::array({"file://" + s.at + "/alsomissing", "file://" + s.at + "/other.gz"})}}), 'g', Other());
    add("archive wrong content", arch("archive", "other.gz", Json{{"fetch", "file://" + s.at + "/plain.gz"}}), 'g', Other(), true);
    add("archive missing", arch("archive", "other.gz", Json{{"fetch", "file://" + s.at + "/missing"}}), 'g', Other(), true);
    add("archive distfile", arch("archive", "plain.gz", Json{{"fetch", "file://" + s.at + "/missing"}, {"distfile", "theplain"}}), 'g', packed);
    add("archive distfile wrong", arch("archive", "plain.gz", Json{{"distfile", "wrong"}}), 'g', packed);
    add("archive absent", arch("archive", "plain.gz", P(R"({"pragma":{"absent":true}})")), 'a', packed, true);
    add("archive absent subdir", arch("archive", "plain.gz", P(R"({"pragma":{"absent":true},"subdir":"d"})")), 'a', plain.ch.at("d"), true);
    // foreign files
    add("foreign", arch("foreign file", "ff", P(R"({"name":"n"})")), 'g', D({{"n", F("foreign")}}));
    add("foreign other name", arch("foreign file", "ff", P(R"({"name":"m"})")), 'g', D({{"m", F("foreign")}}));
    add("foreign exec", arch("foreign file", "ff", P(R"({"name":"n","executable":true})")), 'g', D({{"n", X("foreign")}}));
    add("foreign binary", arch("foreign file", "fb", P(R"({"name":"n"})")), 'g', D({{"n", F(std::string("\0bin\r\n", 6))}}));
    add("foreign subdir", arch("foreign file", "ff", P(R"({"name":"d/n"})")), 'g', std::nullopt);
    add("foreign up", arch("foreign file", "ff", P(R"({"name":".."})")), 'g', std::nullopt);
    add("foreign onlyhere", arch("foreign file", "ff", Json{{"name", "n"}, {"fetch", "file://" + s.at + "/missing/onlyhere"}}), 'g', D({{"n", F("foreign")}}));
    add("foreign absent", arch("foreign file", "ff", P(R"({"name":"n","pragma":{"absent":true}})")), 'a', D({{"n", F("foreign")}}), true);
    // git repositories
    auto gitr = [&](Commit const& c, std::string const& branch, Json const& more) {
        Json j{{"type", "git"}, {"repository", s.at + "/r.git"}, {"branch", branch}, {"commit", c.id}};
        j.update(more);
        return j;
    };
    auto addl = [&](std::string const& n, Json const& d, char k, std::optional<Node> w, bool may_fail = false) {
        add(n, d, k, w, may_fail, false);  // used from where it is
        auto at = d["repository"].get<std::string>();
        if (at.rfind(s.at + "/", 0) != 0) {
            return;
        }
        auto e = d;  // fetched
        e["inherit env"] = Json::array({"HOME"});
        e["repository"] = "vrf://" + at.substr(s.at.size() + 1);
        for (auto& m : e["mirrors"]) {
            m = "vrf://" + m.get<std::string>().substr(s.at.size() + 1);
        }
        if (e["mirrors"].is_null()) {
            e.erase("mirrors");
        }
        add("fetched " + n, e, k, w, may_fail, true);
    };
    addl("git 1", gitr(s.c1, "main", Json::object()), 'g', plain);
    addl("git 1 other branch", gitr(s.c1, "other", Json::object()), 'g', plain);
    addl("git 2", gitr(s.c2, "main", Json::object()), 'g', Other());
    addl("git url", gitr(s.c2, "main", Json{{"repository", "file://" + s.at + "/r.git"}}), 'g', Other());
    addl("git relative", gitr(s.c2, "main", Json{{"repository", "./r.git"}}), 'g', Other());
    addl("git 3", gitr(s.c3, "other", Json::object()), 'g', Links(), true);
    addl("git 3 ignore", gitr(s.c3, "other", P(R"({"pragma":{"special":"ignore"}})")), 's', Links());
    addl("git 3 ignore subdir", gitr(s.c3, "other", P(R"({"pragma":{"special":"ignore"},"subdir":"d"})")), 's', Links().ch.at("d"));
    addl("git submodule", gitr(s.sub, "sub", Json::object()), 'g', s.sub.tree, true);
    addl("git submodule ignore", gitr(s.sub, "sub", P(R"({"pragma":{"special":"ignore"}})")), 's', s.sub.tree);
    addl("git 1 subdir", gitr(s.c1, "main", P(R"({"subdir":"d"})")), 'g', plain.ch.at("d"));
    addl("git 1 subdir 2", gitr(s.c1, "main", P(R"({"subdir":"d/s"})")), 'g', plain.ch.at("d").ch.at("s"));
    addl("git 2 subdir", gitr(s.c2, "main", P(R"({"subdir":"./d"})")), 'g', Other().ch.at("d"));
    addl("git subdir missing", gitr(s.c1, "main", P(R"({"subdir":"zz"})")), 'g', std::nullopt);
    addl("git subdir file", gitr(s.c1, "main", P(R"({"subdir":"a"})")), 'g', std::nullopt);
    addl("git mirror", gitr(s.c2, "main", Json{{"repository", s.at + "/missing.git"}, {"mirrors", Json::array({s.at + "/alsomissing", s.at + "/r.git"})}}), 'g', Other());
    addl("git wrong branch", gitr(s.c3, "main", Json::object()), 'g', Links(), true);
    addl("git missing branch", gitr(s.c1, "nobranch", Json::object()), 'g', plain, true);
    addl("git missing repository", gitr(s.c1, "main", Json{{"repository", s.at + "/missing.git"}}), 'g', plain, true);
    addl("git unknown commit", gitr({std::string(40, '1'), {}}, "main", Json::object()), 'g', std::nullopt);
    addl("git commit is a tree", gitr({trees::TreeId(plain), {}}, "main", Json::object()), 'g', std::nullopt);
    addl("git absent", gitr(s.c1, "main", P(R"({"pragma":{"absent":true}})")), 'a', plain, true);
    addl("git absent subdir", gitr(s.c1, "main", P(R"({"pragma":{"absent":true},"subdir":"d"})")), 'a', plain.ch.at("d"), true);
    // git trees
    auto tree = [&](Node const& t, Json const& cmd, Json const& more) {
        Json j{{"type", "git tree"}, {"id", trees::TreeId(t)}, {"cmd", cmd}};
        j.update(more);
        return j;
    };
    auto sh = [](std::string const& c) { return Json::array({"sh", "-c", c}); };
    auto cp = [&](std::string const& what, std::string const& to) { return sh("mkdir -p " + to + " && cp -a " + s.at + "/" + what + "/. " + to + "/."); };
    add("tree structure", P(R"({"type":"tree structure","repo":"zz"})"), 'j', D());
    r.back().given = P(R"(["tree structure","zz"])");
    add("tree structure no repo", P(R"({"type":"tree structure"})"), 'j', std::nullopt);
    add("tree structure wrong repo", P(R"({"type":"tree structure","repo":["zz"]})"), 'j', std::nullopt);
    add("computed wrong target", P(R"({"type":"computed","repo":"zz","target":"t"})"), 'j', std::nullopt);
    add("computed no config", P(R"({"type":"computed","repo":"zz","target":["","t"]})"), 'j', D());
    r.back().given = P(R"(["computed","zz","","t",{}])");
    auto env = Json{{"env", {{"PATH", "/usr/bin:/bin"}}}};
    add("tree", tree(packed, cp("plain", "."), env), 'g', packed);
    add("tree deep", tree(packed, cp("plain", "some/dir"), env), 'g', packed);
    add("tree part", tree(plain.ch.at("d").ch.at("s"), cp("plain", "."), env), 'g', plain.ch.at("d").ch.at("s"));
    add("tree wrong", tree(Other(), cp("plain", "."), env), 'g', Other(), true);
    add("tree failing", tree(packed, sh("false"), env), 'g', packed, true);
    add("tree env", tree(D({{"o", F("v")}}), sh("printf %s $V > o"), P(R"({"env":{"PATH":"/usr/bin:/bin","V":"v"}})")), 'g', D({{"o", F("v")}}));
    add("tree fails but there", tree(packed, sh("cp -a " + s.at + "/plain/. . ; false"), env), 'g', packed, true);
    add("tree links", tree(Links(), cp("links", "."), env), 'g', Links(), true);
    add("tree links ignore", tree(Links(), cp("links", "."), Json{{"env", env["env"]}, {"pragma", ign}}), 's', Links());
    add("tree absent", tree(packed, cp("plain", "."), Json{{"env", env["env"]}, {"pragma", {{"absent", true}}}}), 'a', packed);
    add("tree of blob", tree(F("x"), sh("printf x > x"), env), 'g', std::nullopt);
    // roots to be computed later
    r.push_back({"computed", P(R"({"type":"computed","repo":"zz","target":["m","t"],"config":{"c":[1]}})"), 'j', D(), false, false,
                 P(R"(["computed","zz","m","t",{"c":[1]}])")});
    return r;
}

// --- setting up --------------------------------------------------------------
struct Place {
    std::string at;
    std::string src;
    StorageConfig sc;
    std::size_t jobs;
    Place(std::string a, std::string s, std::size_t j) : at(std::move(a)), src(std::move(s)), sc(Config(at)), jobs(j) {}
    static StorageConfig Config(std::string const& at) {
        auto c = StorageConfig::Builder{}.SetBuildRoot(at).SetNumGenerations(2).SetHashType(HashFunction::Type::GitSHA1).Build();
        if (not c) {
            throw std::runtime_error(c.error());
        }
        return *c;
    }
    std::optional<Json> Setup(Json const& config, std::optional<std::string> main = std::nullopt, bool all = false, bool fetch_absent = false,
                              bool serve = false) {
        auto st = Storage::Create(&sc);
        MultiRepoCommonArguments c;
            setenv("HOME", (src + "/home").c_str(), 1);
        // without the sources, commands and fetches still start somewhere
        c.just_mr_paths->setup_root = fs::exists(src) ? src : at;
        c.just_mr_paths->workspace_root = std::nullopt;
        c.just_mr_paths->root = at;
        c.just_mr_paths->distdirs = {src + "/dist"};
        c.local_launcher = std::vector<std::string>{"env", "--"};
        c.git_path = "git";
        c.jobs = jobs;
        c.main = std::move(main);
        c.fetch_absent = fetch_absent;
        if (serve) {
            c.remote_serve_address = "127.0.0.1:1";
        }
        MultiRepoSetupArguments a;
        a.sub_all = all;
        auto cfg = std::make_shared<Configuration>(Expression::FromJson(config));
        auto r = MultiRepoSetup(cfg, c, a, {}, {}, {}, sc, st, false, "just-mr");
        if (not r) {
            return std::nullopt;
        }
        return Json::parse(trees::Look(r->first.string()).data, nullptr, false);
    }
};

// reads a tree from a repository, by means of our own
std::optional<Node> ReadTree(git_repository* r, git_oid const* oid) {
    git_tree* t = nullptr;
    if (git_tree_lookup(&t, r, oid) != 0) {
        return std::nullopt;
    }
    auto n = D();
    bool ok = true;
    for (size_t i = 0; ok and i < git_tree_entrycount(t); ++i) {
        auto const* e = git_tree_entry_byindex(t, i);
        auto mode = git_tree_entry_filemode_raw(e);
        Node c;
        if (mode == GIT_FILEMODE_TREE) {
            auto s = ReadTree(r, git_tree_entry_id(e));
            ok = s.has_value();
            c = s.value_or(D());
        }
        else if (mode == GIT_FILEMODE_COMMIT) {
            c = Node{'s', "", {}};
        }
        else {
            git_blob* b = nullptr;
            ok = git_blob_lookup(&b, r, git_tree_entry_id(e)) == 0;
            if (ok) {
                c = Node{mode == GIT_FILEMODE_BLOB_EXECUTABLE ? 'x' : mode == GIT_FILEMODE_LINK ? 'l' : mode == GIT_FILEMODE_BLOB ? 'f' : '?',
                         std::string(static_cast<char const*>(git_blob_rawcontent(b)), (size_t)git_blob_rawsize(b)),
                         {}};
                git_blob_free(b);
            }
        }
        n.ch[git_tree_entry_name(e)] = c;
    }
    git_tree_free(t);
    return ok ? std::optional{n} : std::nullopt;
}
std::optional<Node> ReadTree(std::string const& id, std::string const& repo) {
    git_repository* r = nullptr;
    git_oid oid;
    if (git_oid_fromstr(&oid, id.c_str()) != 0 or git_repository_open_ext(&r, repo.c_str(), GIT_REPOSITORY_OPEN_NO_SEARCH, nullptr) != 0) {
        return std::nullopt;
    }
    auto n = ReadTree(r, &oid);
    git_repository_free(r);
    return n;
}

Node Tidy(Node n) {  // no empty directories
    for (auto it = n.ch.begin(); it != n.ch.end();) {
        it->second = Tidy(it->second);
        it = it->second.k == 'd' and it->second.ch.empty() ? n.ch.erase(it) : std::next(it);
    }
    return n;
}

// what is wrong with this as the root
std::string Wrong(Root const& r, Json const& ws) {
    if (r.kind == 'j' and r.want) {
        return ws == r.given ? "" : "is " + ws.dump() + " instead of " + r.given.dump();
    }
    if (not r.want) {
        return "is " + ws.dump() + " but cannot be set up";
    }
    auto str = [&](size_t i) { return ws.is_array() and ws.size() > i and ws[i].is_string() ? ws[i].get<std::string>() : std::string{}; };
    std::string marker = r.kind == 'g' or r.kind == 'a' ? "git tree" : r.kind == 'p' ? "file" : r.kind == 'q' ? "file ignore-special" : "git tree ignore-special";
    bool absent = r.kind == 'a' or r.kind == 'z';
    if (r.kind == 's' and str(0) == "git tree" and ws.size() == 3) {
        auto got = ReadTree(str(1), str(2));  // special entries left out already
        return got and *got == Strip(*r.want) ? "" : "is " + ws.dump() + " with " + (got ? got->Show() : "?") + " instead of " + Strip(*r.want).Show();
    }
    size_t n = r.kind == 'p' or r.kind == 'q' or absent ? 2 : 3;
    if (str(0) != marker or ws.size() != n) {
        return "is " + ws.dump() + " but should be a \"" + marker + "\"" + (absent ? " (absent)" : "");
    }
    if (r.kind == 'p' or r.kind == 'q') {
        auto got = trees::Look(str(1));
        return str(1)[0] == '/' and got == *r.want ? "" : "is " + ws.dump() + " with " + got.Show() + " instead of " + r.want->Show();
    }
    if (absent) {
        return str(1) == trees::TreeId(*r.want) ? "" : "is " + ws.dump() + " instead of " + trees::TreeId(*r.want);
    }
    auto got = ReadTree(str(1), str(2));
    if (not got) {
        return "is " + ws.dump() + ", which cannot be read";
    }
    if (r.kind == 's' ? Strip(*got) == Strip(*r.want) : *got == *r.want) {
        return "";
    }
    return "is " + ws.dump() + " with " + got->Show() + " instead of " + r.want->Show();
}

Sources& Src() {
    static Sources* s = nullptr;
    static pid_t pid = 0;
    if (pid != getpid()) {
        pid = getpid();
        auto at = trees::Dir(hn::ctx().scratch, "src");
        fs::remove_all(at);  // of an earlier process with this id
        fs::remove_all(at + ".gone");
        s = new Sources{at};
    }
    if (not s->There()) {
        s->Back();
    }
    return *s;
}
Json One(Root const& r) { return Json{{"repositories", {{"r", {{"repository", r.desc}}}, {"zz", {{"repository", {{"type", "file"}, {"path", "."}}}}}}}}; }

void Singles() {
    auto count = (long)Roots(Src()).size();
    hn::Enumerate("singles", count, "each of the descriptions of roots: set up, again, without the sources, after one and two collections of repositories", [&](long i, hn::Shard& s) {
        auto& src = Src();
        auto r = Roots(src)[(size_t)i];
        if (not s.Case(r.name)) {
            return;
        }
        auto at = trees::Dir(hn::ctx().scratch, "place");
        fs::create_directories(at);
        Place p{at, src.at, 2};
        std::optional<Json> last;
        auto look = [&](std::string const& when, bool must) {
            auto got = p.Setup(One(r), "r");
            s.Nontrivial(got.has_value());
            if (not got) {
                if (must and r.want) {
                    s.Fail(r.name + ", " + when + ": fails", r.name + "/fails");
                }
                return;
            }
            auto ws = got->value("/repositories/r/workspace_root"_json_pointer, Json{});
            auto w = Wrong(r, ws);
            if (not w.empty()) {
                s.Fail(r.name + ", " + when + ": " + w, r.name + "/wrong");
            }
            last = ws;
        };
        look("first", not r.may_fail);
        look("again", not r.may_fail);
        bool known = last.has_value();
        src.Gone();
        if (r.offline) {
            look("offline", known);
        }
        if (not RepositoryGarbageCollector::TriggerGarbageCollection(p.sc)) {
            s.Fail(r.name + ": collection fails", "gc");
        }
        if (r.offline) {
            look("offline after a collection", known);
            RepositoryGarbageCollector::TriggerGarbageCollection(p.sc);
            look("offline after another collection", known);
            RepositoryGarbageCollector::TriggerGarbageCollection(p.sc);
            RepositoryGarbageCollector::TriggerGarbageCollection(p.sc);
            look("offline after two collections", false);
        }
        else {
            RepositoryGarbageCollector::TriggerGarbageCollection(p.sc);
        }
        src.Back();
        look("back", not r.may_fail);
        fs::remove_all(at);
    });
}
// --- two roots ---------------------------------------------------------------
Json Two(Root const& a, Root const& b) {
    return Json{{"repositories",
                 {{"a", {{"repository", a.desc}, {"bindings", {{"b", "b"}}}}}, {"b", {{"repository", b.desc}}}, {"zz", {{"repository", {{"type", "file"}, {"path", "."}}}}}}}};
}
// the roots related to each other, by content or origin
bool Core(Root const& r) {
    static std::set<std::string> const names = {
        "file to_git", "file to_git links", "file to_git ignore", "file partially", "file completely", "file to_git subdir", "repo plain", "repo links", "repo partially", "repo completely",
        "archive gz", "archive tar", "zip", "archive subdir", "archive other", "archive other subdir", "archive ignore", "archive ignore subdir", "archive completely plain", "archive links ignore",
        "archive links partially", "archive links completely", "archive links completely subdir t", "zip links partially", "archive links partially subdir", "archive wrong content", "archive absent",
        "archive absent subdir", "zip tar", "archive zip", "archive file", "foreign", "foreign other name", "foreign exec", "foreign onlyhere", "fetched git 1", "fetched git 1 other branch", "git 1", "fetched git 2",
        "fetched git 3", "fetched git 3 ignore", "fetched git 3 ignore subdir", "fetched git 1 subdir", "fetched git 2 subdir", "fetched git subdir file", "fetched git absent subdir", "fetched git wrong branch",
        "fetched git commit is a tree", "tree", "tree part", "tree deep", "tree links", "tree links ignore", "tree absent", "tree wrong", "tree of blob", "computed"};
    return names.count(r.name) != 0;
}
void Judge(hn::Shard& s, Root const& r, std::optional<Json> const& got, std::string const& repo, bool must, std::string const& when, std::string const& part) {
    s.Nontrivial(got.has_value());
    if (not got) {
        if (must and r.want) {
            s.Fail(when + ": " + r.name + " fails", part + r.name + "/fails");
        }
        return;
    }
    auto w = Wrong(r, got->value(Json::json_pointer("/repositories/" + repo + "/workspace_root"), Json{}));
    if (not w.empty()) {
        s.Fail(when + ": " + r.name + " " + w, part + r.name + "/wrong");
    }
}
void Pairs() {
    std::vector<size_t> pick;
    {
        auto rs = Roots(Src());
        for (size_t i = 0; i < rs.size(); ++i) {
            if (hn::ctx().thorough or Core(rs[i])) {
                pick.push_back(i);
            }
        }
    }
    auto n = (long)pick.size();
    hn::Enumerate("pairs", n * n, "all ordered pairs of descriptions of roots, one set up after the other, and both at once, with one and four threads", [&](long i, hn::Shard& s) {
        auto& src = Src();
        static std::vector<Root> rs;
        if (rs.empty()) {
            rs = Roots(src);
        }
        auto const& a = rs[pick[(size_t)(i / n)]];
        auto const& b = rs[pick[(size_t)(i % n)]];
        if (not s.Case(a.name + " then " + b.name)) {
            return;
        }
        auto at = trees::Dir(hn::ctx().scratch, "place");
        fs::create_directories(at);
        {
            Place p{at, src.at, 2};
            auto first = p.Setup(One(a), "r");
            Judge(s, a, first, "r", not a.may_fail, "first", "");
            Judge(s, b, p.Setup(One(b), "r"), "r", not b.may_fail, "after " + a.name, "");
            src.Gone();
            if (a.offline) {
                Judge(s, a, p.Setup(One(a), "r"), "r", first.has_value(), "offline, after " + b.name, "");
            }
            src.Back();
        }
        fs::remove_all(at);
        if (not a.want or not b.want) {
            return;
        }
        for (size_t jobs : {1, 4}) {
            fs::create_directories(at);
            Place p{at, src.at, jobs};
            auto both = p.Setup(Two(a, b), "a");
            auto when = "together, " + std::to_string(jobs) + " jobs";
            bool must = not a.may_fail and not b.may_fail;
            Judge(s, a, both, "a", must, when + " with " + b.name, "");
            if (both) {
                Judge(s, b, both, "b", must, when + " with " + a.name, "");
            }
            fs::remove_all(at);
        }
    });
}

// --- histories ---------------------------------------------------------------
void Histories() {
    std::vector<std::vector<std::string>> const kinds = {
        {"archive gz", "archive subdir", "archive completely plain"},
        {"archive links partially", "archive links completely", "archive links ignore"},
        {"fetched git 1", "fetched git 1 subdir", "fetched git 2 subdir"},
        {"tree", "tree part", "foreign"},
        {"archive wrong content", "archive other", "archive other subdir"},
        {"tree wrong", "fetched git 2", "archive other"},
    };
    int const depth = hn::ctx().thorough ? 5 : 4;
    int const ops = 3 + 4;
    long per = 1;
    for (int i = 0; i < depth; ++i) {
        per *= ops;
    }
    hn::Enumerate("histories", per * (long)kinds.size(),
                  "all histories of setting up related roots, losing and getting back the sources, collecting repositories, collecting the storage, and packing the git cache", [&](long i, hn::Shard& s) {
        auto& src = Src();
        static std::map<std::string, Root> rs;
        if (rs.empty()) {
            for (auto& r : Roots(src)) {
                rs.emplace(r.name, r);
            }
        }
        auto const& use = kinds[(size_t)(i / per)];
        std::vector<int> h;
        for (long x = i % per, j = 0; j < depth; ++j, x /= ops) {
            h.push_back((int)(x % ops));
        }
        // only histories ending in a set up
        if (h.back() >= 3) {
            return;
        }
        std::string name;
        for (int o : h) {
            name += (name.empty() ? "" : "; ") + (o < 3 ? use[(size_t)o] : std::vector<std::string>{"gone or back", "collect repositories", "collect storage", "pack"}[(size_t)o - 3]);
        }
        if (not s.Case(name)) {
            return;
        }
        auto at = trees::Dir(hn::ctx().scratch, "place");
        fs::create_directories(at);
        {
            Place p{at, src.at, 2};
            bool there = true;
            std::map<int, int> age;  // collections since last set up
            for (int o : h) {
                if (o < 3) {
                    auto const& r = rs.at(use[(size_t)o]);
                    bool known = age.count(o) != 0 and age[o] <= 1;
                    auto got = p.Setup(One(r), "r");
                    Judge(s, r, got, "r", known or (there and not r.may_fail), there ? "at the end" : known ? "at the end, offline, known" : "at the end, offline", "");
                    if (got) {
                        age[o] = 0;
                    }
                }
                else if (o == 3) {
                    there ? src.Gone() : src.Back();
                    there = not there;
                }
                else if (o == 4) {
                    if (not RepositoryGarbageCollector::TriggerGarbageCollection(p.sc)) {
                        s.Fail("collection fails", "gc");
                    }
                    for (auto& [k, v] : age) {
                        ++v;
                    }
                }
                else if (o == 5) {
                    if (not GarbageCollector::TriggerGarbageCollection(p.sc)) {
                        s.Fail("collection of the storage fails", "gc");
                    }
                }
                else {
                    auto git = p.sc.GitRoot();
                    if (fs::exists(git)) {
                        if (system(("git -C " + git.string() + " -c safe.directory='*' gc -q --prune=now >/dev/null 2>&1").c_str()) != 0) {
                            s.Fail("cannot pack " + git.string(), "pack");
                        }
                    }
                }
            }
        }
        src.Back2();
        fs::remove_all(at);
    });
}

// --- resolving links -----------------------------------------------------------
std::string Rel(std::string const& target, int up) {  // target from a directory that deep
    std::string r;
    for (int i = 0; i < up; ++i) {
        r += "../";
    }
    return r + target;
}
void Resolving() {
    std::vector<std::string> const top = {"f", "d", "d/f", "d/e", "d/e/g", "a", "b", "d/c", "a/f", "b/c", "a/e/g", "zz", ".", "d/../f", "../f", "/f"};
    auto const deep = hn::ctx().thorough ? top : std::vector<std::string>{"f", "d", "d/f", "d/e", "a", "a/e", "d/c", "."};
    auto const at2 = hn::ctx().thorough ? top : std::vector<std::string>{"f", "d/e", "d/f", "a", "b", "d/c", "zz", "../f"};
    auto na = (long)top.size();
    auto nc = (long)at2.size();
    auto ng = (long)deep.size();
    hn::Enumerate("resolve", na * na * nc * ng, "trees with four links, in three directories, with all combinations of targets; resolved partially and completely, in one repository and from one to another", [&](long i, hn::Shard& s) {
        auto a = top[(size_t)(i % na)];
        auto b = top[(size_t)(i / na % na)];
        auto c = Rel(at2[(size_t)(i / na / na % nc)], 1);
        auto g = Rel(deep[(size_t)(i / na / na / nc)], 2);
        auto t = D({{"a", L(a)}, {"b", L(b)}, {"f", F("top")}, {"d", D({{"c", L(c)}, {"f", F("f")}, {"e", D({{"g", L(g)}, {"x", X("x")}})}})}});
        static trees::Repo* from = nullptr;
        static GitCASPtr from_cas;
        static GitCASPtr to_cas;
        static std::string to;
        if (from == nullptr) {
            to = trees::Dir(hn::ctx().scratch, "to.git");
            auto at = trees::Dir(hn::ctx().scratch, "from.git");
            fs::remove_all(at);
            fs::remove_all(to);
            from = new trees::Repo{at};
            trees::Repo make{to};
            from_cas = GitCAS::Open(from->path);
            to_cas = GitCAS::Open(to);
        }
        auto id = from->Put(t);
        for (int m = 0; m < 4; ++m) {
            bool complete = (m & 1) != 0;
            bool same = (m & 2) != 0;
            if (not s.Case(t.Show() + (complete ? " completely" : " partially") + (same ? " in place" : " to another"))) {
                continue;
            }
            Resolver ref{t, complete};
            auto want = ref.Run();
            std::optional<std::string> got;
            {
                auto map = CreateResolveSymlinksMap();
                TaskSystem ts{1};
                map.ConsumeAfterKeysReady(
                    &ts,
                    {GitObjectToResolve(id, ".", complete ? PragmaSpecial::ResolveCompletely : PragmaSpecial::ResolvePartially, std::nullopt, from_cas, same ? from_cas : to_cas)},
                    [&](auto const& v) { got = v[0]->id; }, [](auto const&, bool) {});
            }
            s.Nontrivial(got.has_value());
            if (ref.unspecified) {
                continue;
            }
            if (want and not got) {
                s.Fail("cannot be resolved, should be " + want->Show(), ref.Loops() ? "a directory on the way contains the link" : complete ? "complete/fails" : "partial/fails");
            }
            else if (got) {
                auto r = ReadTree(*got, same ? from->path : to);
                if (not want or not r or *r != *want) {
                    s.Fail("resolved to " + (r ? r->Show() : "something unreadable") + " instead of " + (want ? want->Show() : "being rejected"), complete ? "complete/wrong" : "partial/wrong");
                }
            }
        }
    });
}

// --- configurations ------------------------------------------------------------
// outcome of a set up in a process of its own: crash or hang, failure, or result
struct Outcome {
    bool dead = false;
    std::optional<Json> got;
};
Outcome Apart(std::function<std::optional<Json>()> const& f) {
    int fd[2];
    if (pipe(fd) != 0) {
        throw std::runtime_error("pipe");
    }
    auto pid = fork();
    if (pid == 0) {
        close(fd[0]);
        alarm(20);
        std::optional<Json> r;
        try {
            r = f();
        } catch (std::exception const&) {  // reported by main
        }
        auto d = r ? r->dump() : std::string{"-"};
        size_t done = 0;
        while (done < d.size()) {
            auto n = write(fd[1], d.data() + done, d.size() - done);
            if (n <= 0) {
                _exit(3);
            }
            done += (size_t)n;
        }
        _exit(0);
    }
    close(fd[1]);
    std::string d;
    char buf[65536];
    for (ssize_t n = 0; (n = read(fd[0], buf, sizeof buf)) > 0;) {
        d.append(buf, (size_t)n);
    }
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (not WIFEXITED(st) or WEXITSTATUS(st) != 0) {
        return {true, {}};
    }
    return {false, d == "-" ? std::nullopt : std::optional{Json::parse(d)}};
}

// which root a repository has: the index of its description, or none
std::optional<int> RootOf(std::vector<int> const& desc, int r) {  // descriptions 3, 4, 5 refer to others
    for (int i = 0; i < 4; ++i) {
        auto d = desc[(size_t)r];
        if (d < 3 or d > 5) {
            return d;
        }
        r = d - 3;
    }
    return std::nullopt;
}
void Configs() {
    int const nd = 8;
    int const nx = 5;
    int const nc = hn::ctx().thorough ? nx : 1;
    std::vector<int> const third = hn::ctx().thorough ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<int>{0, 1, 3, 7};
    long const count = (long)(nd * nx) * (nd * nx) * ((long)third.size() * nc);
    hn::Enumerate("configurations", count, "all configurations of three repositories out of eight descriptions and five sets of further fields; main given, in the configuration, by default, or all", [&](long i, hn::Shard& s) {
        auto& src = Src();
        static std::vector<Root> rs;
        if (rs.empty()) {
            for (auto const& r : Roots(src)) {
                if (r.name == "file" or r.name == "archive other subdir" or r.name == "foreign") {
                    rs.push_back(r);
                }
            }
        }
        std::vector<int> d(3);
        std::vector<int> x(3);
        long y = i;
        for (int r = 0; r < 3; ++r) {
            auto kinds = r == 2 ? (long)third.size() : nd;
            d[(size_t)r] = r == 2 ? third[(size_t)(y % kinds)] : (int)(y % kinds);
            y /= kinds;
            auto n = r == 2 ? nc : nx;
            x[(size_t)r] = (int)(y % n);
            y /= n;
        }
        std::string const names = "abc";
        auto name = [&](int r) { return std::string(1, names[(size_t)(r % 3)]); };
        Json repos = Json::object();
        for (int r = 0; r < 3; ++r) {
            auto k = d[(size_t)r];
            Json desc = k < 3    ? rs[(size_t)k].desc
                        : k < 6  ? Json(name(k - 3))
                        : k == 6 ? Json{{"type", "computed"}, {"repo", "b"}, {"target", {"", "t"}}}
                                 : Json{{"type", "tree structure"}, {"repo", "c"}};
            Json j{{"repository", desc}};
            switch (x[(size_t)r]) {
                case 1: j["bindings"] = {{"x", name(r + 1)}}; break;
                case 2: j["target_root"] = name(r + 1); break;
                case 3:
                    j["rule_root"] = name(r);
                    j["expression_root"] = name(r + 2);
                    j["target_file_name"] = "T";
                    break;
                case 4:
                    j["bindings"] = {{"x", "a"}, {"y", "c"}};
                    j["rule_file_name"] = "R";
                    j["expression_file_name"] = "E";
                    j["ignored"] = "i";
                    break;
                default: break;
            }
            repos[name(r)] = j;
        }
        for (int mode = 0; mode < 4; ++mode) {
            Json cfg{{"repositories", repos}};
            int main = 0;
            std::optional<std::string> arg;
            if (mode == 1 or mode == 2) {
                cfg["main"] = "b";
                main = 1;
            }
            if (mode == 2) {
                arg = "c";
                main = 2;
            }
            if (not s.Case(cfg.dump() + (mode == 2 ? " main c" : mode == 3 ? " all" : ""))) {
                continue;
            }
            // reachable ones, and all those with their root needed
            std::set<int> reach;
            std::set<int> needed;
            auto value = [&](int r, char const* k) -> std::optional<int> {
                auto const& j = repos[name(r)];
                return j.contains(k) ? std::optional{(int)names.find(j[k].get<std::string>())} : std::nullopt;
            };
            std::vector<int> todo{main};
            if (mode == 3) {
                todo = {0, 1, 2};
            }
            while (not todo.empty()) {
                auto r = todo.back();
                todo.pop_back();
                if (not reach.insert(r).second) {
                    continue;
                }
                needed.insert(r);
                auto computed = [&](int q) {
                    if (auto k = RootOf(d, q)) {
                        if (*k >= 6) {
                            todo.push_back(*k - 5);
                        }
                    }
                };
                computed(r);
                if (repos[name(r)].contains("bindings")) {
                    for (auto const& [k, v] : repos[name(r)]["bindings"].items()) {
                        todo.push_back((int)names.find(v.get<std::string>()));
                    }
                }
                for (auto const* k : {"target_root", "rule_root", "expression_root"}) {
                    if (auto v = value(r, k)) {
                        needed.insert(*v);
                        computed(*v);
                    }
                }
            }
            bool ok = true;
            for (int r : needed) {
                ok = ok and RootOf(d, r).has_value();
            }
            // roots computed from themselves: not said when to be rejected
            bool cyclic = false;
            for (int r = 0; r < 3; ++r) {
                int at = r;
                for (int k = 0; k < 4; ++k) {
                    auto q = RootOf(d, at);
                    at = q and *q >= 6 ? *q - 5 : -1;
                    if (at < 0) {
                        break;
                    }
                }
                cyclic = cyclic or at >= 0;
            }
            auto out = Apart([&]() -> std::optional<Json> {
                auto at = trees::Dir(hn::ctx().scratch, "place");
                fs::create_directories(at);
                std::optional<Json> got;
                {
                    Place p{at, src.at, 1};
                    got = p.Setup(cfg, arg, mode == 3);
                    // check while the trees are there
                    if (got) {
                        for (int r : reach) {
                            auto k = RootOf(d, r);
                            if (k and *k < 3) {
                                auto w = Wrong(rs[(size_t)*k], got->value(Json::json_pointer("/repositories/" + name(r) + "/workspace_root"), Json{}));
                                if (not w.empty()) {
                                    (*got)["wrong"] = "the root of " + name(r) + " " + w;
                                }
                            }
                        }
                    }
                }
                fs::remove_all(at);
                return got;
            });
            if (out.dead) {
                s.Fail("crashes, or does not end", "config/dead");
                continue;
            }
            s.Nontrivial(out.got.has_value());
            if (cyclic and (not ok or not out.got)) {
                continue;
            }
            if (out.got.has_value() != ok) {
                s.Fail(ok ? "fails" : "is accepted: " + out.got->dump(), ok ? "config/fails" : "config/accepted");
                continue;
            }
            if (not ok) {
                continue;
            }
            auto got = *out.got;
            if (got.contains("wrong")) {
                s.Fail(got["wrong"].get<std::string>(), "config/root");
                continue;
            }
            // the roots as given, everything else follows
            Json want = Json::object();
            want["repositories"] = Json::object();
            if (mode == 1 or mode == 2) {
                want["main"] = name(main);
            }
            auto root = [&](int r) -> Json {
                auto k = *RootOf(d, r);
                if (k == 6) {
                    return Json::array({"computed", "b", "", "t", Json::object()});
                }
                if (k == 7) {
                    return Json::array({"tree structure", "c"});
                }
                if (k == 0) {
                    return Json::array({"file", src.at + "/plain"});
                }
                return Json::array({"git tree", trees::TreeId(*rs[(size_t)k].want), got.value(Json::json_pointer("/repositories/" + name(main) + "/none"), trees::Dir(hn::ctx().scratch, "place"))});
            };
            for (int r : reach) {
                auto& j = want["repositories"][name(r)];
                j["workspace_root"] = root(r);
                for (auto const* k : {"bindings", "target_file_name", "rule_file_name", "expression_file_name"}) {
                    if (repos[name(r)].contains(k)) {
                        j[k] = repos[name(r)][k];
                    }
                }
                for (auto const* k : {"target_root", "rule_root", "expression_root"}) {
                    if (auto v = value(r, k)) {
                        j[k] = root(*v);
                    }
                }
            }
            // where trees are kept is left open
            std::function<void(Json&)> strip = [&](Json& j) {
                if (j.is_array() and j.size() == 3 and j[0] == "git tree") {
                    j[2] = "";
                }
                else if (j.is_structured()) {
                    for (auto& e : j) {
                        strip(e);
                    }
                }
            };
            strip(got);
            strip(want);
            if (got != want) {
                s.Fail("is " + got.dump() + " instead of " + want.dump(), "config/differs");
            }
        }
    });
}

// wrong values anywhere: never a crash
void Malformed() {
    auto& src0 = Src();
    std::vector<std::pair<std::string, Json>> bases;
    {
        std::set<std::string> const take = {"file to_git", "file completely", "file to_git absent", "archive mirror", "archive distfile", "archive sums", "archive ignore subdir", "zip", "foreign exec", "git 1 subdir", "fetched git mirror",
                                            "git 3 ignore", "fetched git absent subdir", "tree env", "tree links ignore", "computed", "tree structure"};
        for (auto const& r : Roots(src0)) {
            if (take.count(r.name) != 0) {
                bases.emplace_back(r.name, Json{{"main", "r"},
                                                {"repositories",
                                                 {{"r", {{"repository", r.desc}, {"bindings", {{"z", "zz"}}}, {"target_root", "zz"}, {"rule_file_name", "R"}}}, {"zz", {{"repository", {{"type", "file"}, {"path", "."}}}}}}}});
            }
        }
        bases.emplace_back("distdir", Json{{"main", "r"},
                                           {"repositories",
                                            {{"r", {{"repository", {{"type", "distdir"}, {"repositories", {"x", "zz", "y"}}, {"pragma", {{"absent", false}}}}}}},
                                             {"x", {{"repository", "y"}}},
                                             {"y", {{"repository", {{"type", "archive"}, {"content", src0.content.at("other.gz")}, {"fetch", "file://" + src0.at + "/other.gz"}}}}},
                                             {"zz", {{"repository", {{"type", "file"}, {"path", "."}}}}}}}});
    }
    std::vector<Json> const values = {nullptr, 5, -1.5, true, false, "", "x", "r", Json::array(), Json::array({1}), Json::array({"r", "zz"}), Json::array({nullptr}), Json::object(), Json{{"k", 1}}, Json{{"r", "r"}}, "./\xc3\xa9/..", std::string(40, 'a')};
    struct Spot {
        size_t base;
        Json::json_pointer at;
    };
    std::vector<Spot> spots;
    for (size_t b = 0; b < bases.size(); ++b) {
        std::function<void(Json const&, Json::json_pointer const&)> go = [&](Json const& j, Json::json_pointer const& at) {
            if (not at.empty()) {
                spots.push_back({b, at});
            }
            if (j.is_object()) {
                for (auto const& [k, v] : j.items()) {
                    go(v, at / k);
                }
            }
            if (j.is_array()) {
                for (size_t k = 0; k < j.size(); ++k) {
                    go(j[k], at / k);
                }
            }
        };
        go(bases[b].second, Json::json_pointer{});
    }
    auto nv = (long)values.size() + 1;
    hn::Enumerate("malformed", (long)spots.size() * nv, "every value of configurations with roots of each type replaced by each of some values, or removed: accepted or rejected, but no crash", [&](long i, hn::Shard& s) {
        auto& src = Src();
        auto const& spot = spots[(size_t)(i / nv)];
        auto v = (size_t)(i % nv);
        auto text = bases[spot.base].second.dump();
        for (size_t at = 0; (at = text.find(src0.at, at)) != std::string::npos; at += src.at.size()) {
            text.replace(at, src0.at.size(), src.at);
        }
        auto cfg = Json::parse(text);
        if (v < values.size()) {
            cfg[spot.at] = values[v];
        }
        else if (cfg[spot.at.parent_pointer()].is_object()) {
            cfg[spot.at.parent_pointer()].erase(spot.at.back());
        }
        else {
            return;
        }
        if (not s.Case(bases[spot.base].first + " " + spot.at.to_string() + " " + (v < values.size() ? values[v].dump() : "removed"))) {
            return;
        }
        auto out = Apart([&]() {
            auto at = trees::Dir(hn::ctx().scratch, "place");
            fs::create_directories(at);
            std::optional<Json> got;
            {
                Place p{at, src.at, 1};
                got = p.Setup(cfg, std::nullopt, true);
            }
            fs::remove_all(at);
            return got;
        });
        s.Nontrivial(not out.got);
        if (out.dead) {
            s.Fail("crashes, or does not end", "malformed/dead/" + bases[spot.base].first + spot.at.to_string());
        }
        auto out2 = Apart([&]() {
            auto at = trees::Dir(hn::ctx().scratch, "place");
            fs::create_directories(at);
            std::optional<Json> got;
            {
                Place p{at, src.at, 1};
                got = p.Setup(cfg);
            }
            fs::remove_all(at);
            return got;
        });
        if (out2.dead) {
            s.Fail("crashes, or does not end (main only)", "malformed/dead/" + bases[spot.base].first + spot.at.to_string());
        }
    });
}

// archives only write into the directory they are unpacked to
void Contained() {
    struct A {
        std::string name;
        std::vector<Entry> es;
    };
    std::vector<A> as;
    for (auto const* kind : {"gz", "zip", "7z"}) {
        std::string k = kind;
        as.push_back({k + " up", {{"../out", F("o")}}});
        as.push_back({k + " up inside", {{"d", D()}, {"d/../../out", F("o")}}});
        as.push_back({k + " absolute", {{"@/out", F("o")}}});
        as.push_back({k + " link", {{"l", L("@")}, {"l/out", F("o")}}});
        as.push_back({k + " link up", {{"l", L("..")}, {"l/out", F("o")}}});
        as.push_back({k + " link file", {{"l", L("@/keep")}, {"l", F("o")}}});
        as.push_back({k + " link dir", {{"d", D()}, {"d/l", L("../..")}, {"d/l/out", F("o")}}});
        if (k == "gz") {
            as.push_back({k + " hard", {{"h", Node{'h', "@/keep", {}}}, {"h", F("o")}}});
            as.push_back({k + " hard up", {{"h", Node{'h', "../keep", {}}}}});
        }
    }
    std::vector<std::string> const pragmas = {"", "ignore", "resolve-partially", "resolve-completely"};
    hn::Enumerate("contained", (long)(as.size() * pragmas.size()), "archives with entries leading out of the directory: nothing is created or changed outside of the build root", [&](long i, hn::Shard& s) {
        auto a = as[(size_t)i / pragmas.size()];
        auto pragma = pragmas[(size_t)i % pragmas.size()];
        if (not s.Case(a.name + " " + pragma)) {
            return;
        }
        auto top = trees::Dir(hn::ctx().scratch, "contained");
        fs::create_directories(top + "/outside");
        fs::create_directories(top + "/root");
        fs::create_directories(top + "/src/home");
        std::ofstream(top + "/outside/keep") << "keep";
        std::ofstream(top + "/keep") << "keep";
        for (auto& e : a.es) {
            if (e.path[0] == '@') {
                e.path = top + "/outside" + e.path.substr(1);
            }
            if (e.node.data[0] == '@' and (e.node.k == 'l' or e.node.k == 'h')) {
                e.node.data = top + "/outside" + e.node.data.substr(1);
            }
        }
        auto kind = a.name.substr(0, a.name.find(' '));
        Pack(top + "/src/x", kind, a.es);
        Json desc{{"type", kind == "gz" ? "archive" : "zip"}, {"content", BlobId(trees::Look(top + "/src/x").data)}, {"fetch", "file://" + top + "/src/x"}};
        if (not pragma.empty()) {
            desc["pragma"]["special"] = pragma;
        }
        std::optional<Json> got;
        {
            Place p{top + "/root", top + "/src", 1};
            got = p.Setup(One({"", desc, 'g', {}, false, true, {}}), "r");
        }
        s.Nontrivial(true);
        auto want = D({{"keep", F("keep")}});
        if (trees::Look(top + "/outside") != want) {
            s.Fail("outside is now " + trees::Look(top + "/outside").Show(), "contained/outside");
        }
        std::set<std::string> names;
        for (auto const& e : fs::directory_iterator(top)) {
            names.insert(e.path().filename().string());
        }
        if (names != std::set<std::string>{"outside", "root", "src", "keep"} or trees::Look(top + "/keep") != F("keep")) {
            s.Fail("files outside created or changed", "contained/up");
        }
        // nothing by that name within the build root, other than in objects
        for (auto const& e : fs::recursive_directory_iterator(top + "/root")) {
            if (e.path().filename() == "out" and got == std::nullopt) {
                s.Fail("left over: " + e.path().string(), "contained/left");
            }
        }
        fs::remove_all(top);
    });
}

// distribution directories
void Distdirs() {
    hn::Enumerate("distdirs", 4 * 4 * 4 * 4, "distribution directories for all lists of up to three repositories", [&](long i, hn::Shard& s) {
        auto& src = Src();
        std::map<std::string, Root> rs;
        for (auto& r : Roots(src)) {
            rs.emplace(r.name, r);
        }
        std::vector<std::string> const names = {"", "archive gz", "foreign", "archive distfile"};
        std::vector<std::string> list;
        for (long x = i % 64, j = 0; j < 3; ++j, x /= 4) {
            if (x % 4 != 0) {
                list.push_back(names[(size_t)(x % 4)]);
            }
        }
        int form = (int)(i / 64);  // plain, through a reference, absent, and gone afterwards
        Json repos{{"r", {{"repository", {{"type", "distdir"}, {"repositories", Json::array()}}}}}};
        std::map<std::string, std::string> want;
        for (auto const& n : list) {
            repos[n]["repository"] = rs.at(n).desc;
            auto key = n;
            if (form == 1) {
                key = "ref " + n;
                repos[key]["repository"] = n;
            }
            repos["r"]["repository"]["repositories"].push_back(key);
            if (n != "foreign") {
                want[n == "archive distfile" ? "theplain" : "plain.gz"] = "plain.gz";
            }
        }
        if (form == 2) {
            repos["r"]["repository"]["pragma"]["absent"] = true;
        }
        if (not s.Case(repos.dump())) {
            return;
        }
        auto t = D();
        for (auto const& [n, f] : want) {
            t.ch[n] = F(trees::Look(src.at + "/" + f).data);
        }
        auto at = trees::Dir(hn::ctx().scratch, "place");
        fs::create_directories(at);
        {
            Place p{at, src.at, 2};
            Root r{"distdir", {}, form == 2 ? 'a' : 'g', t, false, true, {}};
            Json cfg{{"repositories", repos}};
            Judge(s, r, p.Setup(cfg, "r"), "r", true, "first", "");
            Judge(s, r, p.Setup(cfg, "r"), "r", true, "again", "");
            src.Gone();
            Judge(s, r, p.Setup(cfg, "r"), "r", true, "offline", "");
            RepositoryGarbageCollector::TriggerGarbageCollection(p.sc);
            Judge(s, r, p.Setup(cfg, "r"), "r", true, "offline, after a collection", "");
            src.Back();
        }
        fs::remove_all(at);
    });
}

// --- with a server ---------------------------------------------------------------
class Server final : public RootServer {
  public:
    Server(Sources const& s, bool known) : s_{s}, known_{known} {
        for (auto const* f : {"plain.gz", "plain.tar", "plain.zip", "other.gz", "links.gz", "links.zip"}) {
            archives_[s.content.at(f)] = f[0] == 'o' ? Other() : f[0] == 'l' ? Links() : Plain();
            if (f[0] == 'p') {
                archives_[s.content.at(f)].ch["empty"] = D();
            }
        }
    }
    static auto Give(std::optional<Node> const& n) -> result_t {
        if (not n or n->k != 'd') {
            return unexpected{GitLookupError::NotFound};
        }
        return ServedTree{trees::TreeId(*n), std::nullopt};
    }
    auto Commit(std::string const& c, std::string const& subdir, bool) -> result_t final {
        for (auto const* x : {&s_.c1, &s_.c2, &s_.c3}) {
            if (known_ and x->id == c) {
                return Give(Sub(x->tree, subdir));
            }
        }
        return unexpected{GitLookupError::NotFound};
    }
    auto Archive(std::string const& c, std::string const&, std::string const& subdir, std::optional<PragmaSpecial> const& p, bool) -> result_t final {
        auto it = archives_.find(c);
        if (not known_ or it == archives_.end()) {
            return unexpected{GitLookupError::NotFound};
        }
        auto t = std::optional{it->second};
        if (p == PragmaSpecial::Ignore) {
            t = Strip(*t);
        }
        else if (p) {
            t = Resolver{*t, p == PragmaSpecial::ResolveCompletely}.Run();
        }
        return t ? Give(Sub(*t, subdir)) : Give(std::nullopt);
    }
    auto ForeignFile(std::string const& c, std::string const& name, bool x) -> result_t final {
        if (known_ and c == s_.content.at("ff")) {
            return Give(D({{name, x ? X("foreign") : F("foreign")}}));
        }
        return unexpected{GitLookupError::NotFound};
    }
    auto HasRoot(std::string const& id) -> std::optional<bool> final {
        asked_.insert(id);
        return known_ or uploaded_.count(id) != 0;
    }
    auto Upload(ArtifactDigest const& d, fs::path const& repo) -> bool final {
        // only what is there
        if (not ReadTree(d.hash(), repo.string())) {
            bad_ = d.hash();
            return false;
        }
        uploaded_.insert(d.hash());
        return true;
    }
    std::set<std::string> asked_;
    std::set<std::string> uploaded_;
    std::string bad_;

  private:
    Sources const& s_;
    bool known_;
    std::map<std::string, Node> archives_;
};
void Serving() {
    auto count = (long)Roots(Src()).size();
    hn::Enumerate("serve", count * 3, "each of the descriptions of roots, with a server knowing all or nothing, or fetching what is absent", [&](long i, hn::Shard& s) {
        auto& src = Src();
        auto r = Roots(src)[(size_t)(i / 3)];
        auto mode = i % 3;
        if (not s.Case(r.name + std::vector<std::string>{", a server knowing all", ", a server knowing nothing", ", fetching absent ones"}[(size_t)mode])) {
            return;
        }
        auto at = trees::Dir(hn::ctx().scratch, "place");
        fs::create_directories(at);
        {
            Place p{at, src.at, 2};
            if (mode == 2) {
                if (r.kind == 'a') {
                    r.kind = 'g';
                    r.may_fail = false;
                }
                auto got = p.Setup(One(r), "r", false, true);
                Judge(s, r, got, "r", not r.may_fail, "fetching absent ones", "");
                if (r.offline) {
                    src.Gone();
                    Judge(s, r, p.Setup(One(r), "r", false, true), "r", got.has_value(), "fetching absent ones, offline", "");
                    src.Back();
                }
            }
            else {
                auto server = std::make_shared<Server>(src, mode == 0);
                ServeApi::at_address = server;
                bool must = r.kind == 'a' ? mode == 0 : not r.may_fail;
                auto first = p.Setup(One(r), "r", false, false, true);
                Judge(s, r, first, "r", must, "first", "");
                Judge(s, r, p.Setup(One(r), "r", false, false, true), "r", must or first, "again", "");
                if (not server->bad_.empty()) {
                    s.Fail("upload of " + server->bad_ + ", which is not there", r.name + "/upload");
                }
                if (r.kind == 'a' and mode == 1 and r.want) {
                    // known by other means: provided to the server
                    auto local = r;
                    local.kind = 'g';
                    local.desc["pragma"].erase("absent");
                    ServeApi::at_address.reset();
                    auto l = p.Setup(One(local), "r");
                    Judge(s, local, l, "r", true, "locally", "");
                    ServeApi::at_address = server;
                    Judge(s, r, p.Setup(One(r), "r", false, false, true), "r", l.has_value(), "known locally", "");
                    if (l and r.desc["type"] != "foreign file" and server->uploaded_.count(trees::TreeId(*r.want)) == 0) {
                        s.Fail("the root is not provided to the server", r.name + "/provide");
                    }
                }
                ServeApi::at_address.reset();
            }
        }
        fs::remove_all(at);
    });
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(getenv("DBG") != nullptr ? LogLevel::Debug : LogLevel::Error);
    if (getenv("DBG") == nullptr) {
        LogConfig::SetSinks({});
    }
    else {
        LogConfig::SetSinks({LogSinkCmdLine::CreateFactory(false)});
    }
    umask(022);
    Singles();
    Pairs();
    Histories();
    Resolving();
    Configs();
    Malformed();
    Contained();
    Distdirs();
    Serving();
    return hn::Finish();
}
