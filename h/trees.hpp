// Source trees as plain values, with writers to the file system and to a git
// object database that do not use the code under test.
#ifndef VERIF_TREES_HPP
#define VERIF_TREES_HPP
#include <fcntl.h>
#include <git2.h>
#include <openssl/evp.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace trees {
namespace fs = std::filesystem;

inline std::string Raw(std::string const& data, bool sha1) {
    unsigned char md[64];
    unsigned n = 0;
    EVP_Digest(data.data(), data.size(), md, &n, sha1 ? EVP_sha1() : EVP_sha256(), nullptr);
    return {reinterpret_cast<char*>(md), n};
}
inline std::string Hex(std::string const& raw) {
    std::string r;
    static char const* hx = "0123456789abcdef";
    for (unsigned char c : raw) {
        r += hx[c >> 4];
        r += hx[c & 15];
    }
    return r;
}
inline std::string GitRaw(std::string const& data, bool tree) {
    return Raw((tree ? "tree " : "blob ") + std::to_string(data.size()) + std::string(1, '\0') + data, true);
}

// f file, x executable, l symbolic link, d directory, p fifo, s submodule
struct Node {
    char k = 'd';
    std::string data;
    std::map<std::string, Node> ch;
    [[nodiscard]] std::string Show() const {
        if (k == 'd') {
            std::string r = "{";
            for (auto const& [n, c] : ch) {
                r += (r.size() > 1 ? "," : "") + n + ":" + c.Show();
            }
            return r + "}";
        }
        return std::string(1, k) + (k == 'p' || k == 's' ? "" : "'" + data + "'");
    }
    bool operator==(Node const& o) const { return k == o.k && data == o.data && ch == o.ch; }
};
inline Node F(std::string d) { return Node{'f', std::move(d), {}}; }
inline Node X(std::string d) { return Node{'x', std::move(d), {}}; }
inline Node L(std::string d) { return Node{'l', std::move(d), {}}; }
inline Node D(std::map<std::string, Node> c = {}) { return Node{'d', "", std::move(c)}; }

// target stays below the place of the link, reading it segment by segment
inline bool NonUpwards(std::string const& t) {
    if (not t.empty() and t[0] == '/') {
        return false;
    }
    int depth = 0;
    size_t i = 0;
    while (i <= t.size()) {
        size_t j = t.find('/', i);
        if (j == std::string::npos) {
            j = t.size();
        }
        auto s = t.substr(i, j - i);
        if (s == "..") {
            if (--depth < 0) {
                return false;
            }
        }
        else if (not s.empty() and s != ".") {
            ++depth;
        }
        i = j + 1;
    }
    return true;
}

inline std::string TreeData(Node const& n);
inline std::string NodeRaw(Node const& n) {
    if (n.k == 'd') {
        return GitRaw(TreeData(n), true);
    }
    if (n.k == 's') {
        return Raw("a commit", true);
    }
    return GitRaw(n.data, false);
}
inline std::string TreeData(Node const& n) {
    std::vector<std::pair<std::string, Node const*>> es;
    for (auto const& [name, c] : n.ch) {
        es.emplace_back(name + (c.k == 'd' ? "/" : ""), &c);
    }
    std::sort(es.begin(), es.end());
    std::string r;
    for (auto const& [name, c] : es) {
        auto nm = c->k == 'd' ? name.substr(0, name.size() - 1) : name;
        char const* mode = c->k == 'd'   ? "40000 "
                           : c->k == 'x' ? "100755 "
                           : c->k == 'l' ? "120000 "
                           : c->k == 's' ? "160000 "
                                         : "100644 ";
        r += mode + nm + std::string(1, '\0') + NodeRaw(*c);
    }
    return r;
}
inline std::string TreeId(Node const& n) { return Hex(NodeRaw(n)); }

// an own git repository
struct Repo {
    git_repository* r = nullptr;
    git_odb* odb = nullptr;
    std::string path;
    std::map<std::string, bool> done;
    explicit Repo(std::string p) : path(std::move(p)) {
        git_libgit2_init();
        git_libgit2_opts(GIT_OPT_ENABLE_FSYNC_GITDIR, 0);
        if (git_repository_init(&r, path.c_str(), 1) != 0 or git_repository_odb(&odb, r) != 0) {
            throw std::runtime_error("cannot create the git repository");
        }
    }
    ~Repo() {
        git_odb_free(odb);
        git_repository_free(r);
    }
    Repo(Repo const&) = delete;
    std::string Put(std::string const& data, git_object_t t) {
        auto id = Hex(GitRaw(data, t == GIT_OBJECT_TREE));
        if (done.size() > 200000) {
            done.clear();
        }
        if (done[id]) {
            return id;
        }
        git_oid oid;
        if (git_odb_write(&oid, odb, data.data(), data.size(), t) != 0) {
            throw std::runtime_error("cannot write git object");
        }
        char buf[64];
        git_oid_tostr(buf, 41, &oid);
        if (id != buf) {
            throw std::runtime_error("git object id");
        }
        done[id] = true;
        return id;
    }
    std::string Put(Node const& n) {
        if (n.k == 'd') {
            for (auto const& [name, c] : n.ch) {
                if (c.k != 's') {
                    Put(c);
                }
            }
            return Put(TreeData(n), GIT_OBJECT_TREE);
        }
        return Put(n.data, GIT_OBJECT_BLOB);
    }
};

// file-system access without the code under test
inline void Write(Node const& n, std::string const& at) {
    switch (n.k) {
        case 'd':
            if (mkdir(at.c_str(), 0755) != 0 and errno != EEXIST) {
                throw std::runtime_error("mkdir " + at);
            }
            for (auto const& [name, c] : n.ch) {
                Write(c, at + "/" + name);
            }
            break;
        case 'l':
            if (symlink(n.data.c_str(), at.c_str()) != 0) {
                throw std::runtime_error("symlink " + at);
            }
            break;
        case 'p':
            if (mkfifo(at.c_str(), 0644) != 0) {
                throw std::runtime_error("mkfifo " + at);
            }
            break;
        default: {
            int fd = open(at.c_str(), O_WRONLY | O_CREAT | O_EXCL, n.k == 'x' ? 0755 : 0644);
            if (fd < 0 or write(fd, n.data.data(), n.data.size()) != (ssize_t)n.data.size()) {
                throw std::runtime_error("write " + at);
            }
            close(fd);
        }
    }
}
// what is there; kind '-' if nothing
inline Node Look(std::string const& at) {
    struct stat st {};
    if (lstat(at.c_str(), &st) != 0) {
        return Node{'-', "", {}};
    }
    if (S_ISDIR(st.st_mode)) {
        Node n{'d', "", {}};
        for (auto const& e : fs::directory_iterator(at)) {
            n.ch[e.path().filename().string()] = Look(e.path().string());
        }
        return n;
    }
    if (S_ISLNK(st.st_mode)) {
        return L(fs::read_symlink(at).string());
    }
    if (S_ISREG(st.st_mode)) {
        std::ifstream in(at, std::ios::binary);
        std::string d((std::istreambuf_iterator<char>(in)), {});
        return Node{(st.st_mode & 0111) != 0 ? 'x' : 'f', d, {}};
    }
    return Node{S_ISFIFO(st.st_mode) ? 'p' : '?', "", {}};
}
inline std::string Dir(std::string const& base, char const* what) {
    auto p = base + "/" + what + "-" + std::to_string(getpid());
    return p;
}
}  // namespace trees
#endif
