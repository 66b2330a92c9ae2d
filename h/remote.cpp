// C27: remote execution, client and server
#include "h/remote.hpp"
#include <csignal>
#include <set>
#include <sstream>
#include "src/buildtool/logging/log_sink_cmdline.hpp"

using namespace rx;
using trees::D;
using trees::F;
using trees::L;
using trees::X;
using CF = IExecutionAction::CacheFlag;

namespace {
struct Env {
    std::string base;
    long n = 0;
    std::string Fresh() {
        auto d = base + "/c" + std::to_string(n++);
        fs::remove_all(d);
        fs::create_directories(d);
        return d;
    }
};
Env& E() {
    static Env e;
    static pid_t who = 0;
    if (who != getpid()) {
        who = getpid();
        e.base = trees::Dir(hn::ctx().scratch, "rem");
        fs::remove_all(e.base);
        fs::create_directories(e.base);
    }
    return e;
}
struct Dir {
    std::string path = E().Fresh();
    ~Dir() {
        std::error_code ec;
        fs::remove_all(path, ec);
    }
};
std::map<std::string, std::string> const kPath{{"PATH", "/usr/bin:/bin"}};

// ------------------------------------------------------------- builds
Json Action(std::vector<std::string> const& outs, std::vector<std::string> const& dirs, std::string const& script,
            std::map<std::string, Json> const& in, std::string const& cwd = "") {
    Json j;
    j["output"] = outs;
    j["output_dirs"] = dirs;
    j["command"] = {"sh", "-c", script};
    j["env"] = kPath;
    j["input"] = in;
    if (not cwd.empty()) {
        j["cwd"] = cwd;
    }
    return j;
}
struct Example {
    std::string name;
    Graph g;
    std::map<std::string, Json> want;
    bool big = false;
};
std::vector<Example> const& Examples() {
    static std::vector<Example> r = [] {
        std::vector<Example> v;
        {
            Example e{"sources", {}, {{"f", Local("f")}, {"x", Local("x")}, {"l", Local("l")}, {"d/g", Local("g")}}};
            v.push_back(e);
        }
        {
            Example e{"one action", {}, {{"o", Out("a", "o")}, {"ox", Out("a", "ox")}, {"l", Out("a", "l")}, {"d", Out("a", "d")}}};
            e.g.actions["a"] = Action({"o", "ox", "l"}, {"d"},
                                      "cat f x > o; cat f x > ox; chmod +x ox; ln -s o l; mkdir -p d/s/e; cp o d/o; cp ox "
                                      "d/s/ox; cp ox d/s/p; chmod -x d/s/p; ln -s s/ox d/l",
                                      {{"f", Local("f")}, {"x", Local("x")}});
            v.push_back(e);
        }
        {
            Example e{"empty things", {}, {{"o", Out("a", "o")}, {"d", Out("a", "d")}, {"t", TreeOf("t")}, {"e", Out("b", "e")}}};
            e.g.actions["a"] = Action({"o"}, {"d"}, ": > o; mkdir -p d", {{"z", Local("z")}});
            e.g.trees["t"] = Json::object();
            e.g.actions["b"] = Action({}, {"e"}, "mkdir -p e/e; cp -r i/d e/f; cp i/z e/g", {{"i/d", Out("a", "d")}, {"i/z", Local("z")}, {"i/t", TreeOf("t")}});
            v.push_back(e);
        }
        {
            Example e{"chain", {}, {{"r", Out("c", "r")}, {"s/t", Out("b", "t")}}};
            e.g.actions["a"] = Action({"o"}, {"d"}, "echo $(cat f) > o; mkdir -p d/n; cp f d/n/f; ln -s f d/n/l", {{"f", Local("f")}});
            e.g.trees["t"] = Json{{"p/o", Out("a", "o")}, {"q", Out("a", "d")}, {"x", Local("x")}};
            e.g.actions["b"] = Action({}, {"t"}, "mkdir -p t; cp -RP w/. t/", {{"w", TreeOf("t")}});
            e.g.overlays["v"] = Json{{"trees", {TreeOf("t"), Out("b", "t")}}, {"disjoint", false}};
            e.g.actions["c"] = Action({"r"}, {}, "x=$(find . | sort); echo $x > r; cat in/p/o >> r",
                                      {{"in", OverlayOf("v")}, {"x", Local("x")}});
            v.push_back(e);
        }
        {
            Example e{"working directory", {}, {{"o", Out("a", "o")}, {"p", Out("a", "p")}}};
            e.g.actions["a"] = Action({"../o", "p"}, {}, "cat in > ../o; echo p > p; chmod +x p", {{"w/in", Local("f")}}, "w");
            e.want = {{"o", Out("a", "../o")}, {"p", Out("a", "p")}};
            v.push_back(e);
        }
        {
            Example e{"failing", {}, {{"o", Out("a", "o")}}};
            e.g.actions["a"] = Action({"o"}, {}, "echo x > o; echo out; echo err >&2; exit 3", {{"f", Local("f")}});
            v.push_back(e);
        }
        {
            Example e{"may fail", {}, {{"o", Out("a", "o")}, {"p", Out("b", "p")}}};
            e.g.actions["a"] = Action({"o"}, {}, "echo x > o; exit 3", {{"f", Local("f")}});
            e.g.actions["a"]["may_fail"] = "failed but fine";
            e.g.actions["b"] = Action({"p"}, {}, "cat o > p", {{"o", Out("a", "o")}});
            v.push_back(e);
        }
        {
            Example e{"output missing", {}, {{"o", Out("a", "o")}}};
            e.g.actions["a"] = Action({"o", "q"}, {}, "echo x > o", {{"f", Local("f")}});
            v.push_back(e);
        }
        {
            Example e{"not cached", {}, {{"o", Out("a", "o")}}};
            e.g.actions["a"] = Action({"o"}, {}, "cat f > o", {{"f", Local("f")}});
            e.g.actions["a"]["no_cache"] = true;
            v.push_back(e);
        }
        {
            Example e{"several directories", {}, {{"1", Out("a", "d1")}, {"2", Out("a", "d2")}, {"3", Out("a", "d3")}, {"4", Out("a", "d4")}}};
            e.g.actions["a"] = Action({}, {"d1", "d2", "d3", "d4"}, "mkdir -p d1 d2 d3 d4/s; cp f d1/a; cp f d2/b; cp f d3/a; cp f d4/s/c; chmod +x d3/a", {{"f", Local("f")}});
            v.push_back(e);
        }
        {
            // only the older protocol tells directories from files
            Example e{"directories in place", {}, {{"1", Out("a", "d1")}, {"2", Out("a", "d2/e")}, {"3", Out("a", "f/x")}}};
            e.g.actions["a"] = Action({"f/x"}, {"d1", "d2/e"}, "cp f/y d1/a; cp f/y d2/e/b; echo > f/x", {{"f/y", Local("f")}});
            v.push_back(e);
        }
        {
            Example e{"given blobs", {}, {{"o", Out("a", "o")}}};
            e.g.blobs = {"blob one", "blob two", ""};
            auto known = [](std::string const& s) {
                return Json{{"type", "KNOWN"}, {"data", {{"id", trees::Hex(trees::GitRaw(s, false))}, {"size", s.size()}, {"file_type", "f"}}}};
            };
            e.g.actions["a"] = Action({"o"}, {}, "cat 1 2 3 > o", {{"1", known("blob one")}, {"2", known("blob two")}, {"3", known("")}});
            v.push_back(e);
        }
        {
            Example e{"large", {}, {{"o", Out("b", "o")}, {"p", Out("a", "p")}, {"d", Out("a", "d")}}, true};
            e.g.actions["a"] = Action({"p"}, {"d"}, "head -c 5000000 /dev/zero | tr '\\0' a > p; mkdir -p d; cat p f > d/q; cp f d/r", {{"f", Local("f")}});
            e.g.actions["b"] = Action({"o"}, {}, "cat p d/q | wc -c > o; cat big | wc -c >> o", {{"p", Out("a", "p")}, {"d", Out("a", "d")}, {"big", Local("big")}});
            v.push_back(e);
        }
        return v;
    }();
    return r;
}
void Sources(std::string const& at, bool big) {
    auto n = D({{"f", F("content of f\n")}, {"x", X("#!/bin/sh\n")}, {"l", L("f")}, {"g", X("content of f\n")}, {"z", F("")}});
    if (big) {
        n.ch["big"] = F(std::string(4500000, 'b'));
    }
    trees::Write(n, at);
}
struct Got {
    bool ok = false, failed = false;
    std::string infos;
    Node staged;
    std::string modes;
    int executed = 0, cached = 0;
    bool operator==(Got const& o) const {
        return ok == o.ok and failed == o.failed and infos == o.infos and staged == o.staged and modes == o.modes;
    }
    [[nodiscard]] std::string Show() const {
        auto s = staged.Show();
        return not ok ? "a failure"
                      : std::string(failed ? "(failed) " : "") + infos + " installing " +
                            (s.size() > 300 ? s.substr(0, 300) + "..." : s) + " modes " + modes + " executed " + std::to_string(executed) +
                            " cached " + std::to_string(cached);
    }
};
std::string Modes(std::string const& at) {
    std::set<std::string> r;
    for (auto const& e : fs::recursive_directory_iterator(at)) {
        if (not e.is_symlink()) {
            std::ostringstream o;
            o << e.path().lexically_relative(at).string() << ":" << std::oct << (int)e.status().permissions();
            r.insert(o.str());
        }
    }
    std::string s;
    for (auto const& x : r) {
        s += x + " ";
    }
    return s;
}
// builds and installs
Got Run(Site& site, Example const& x, std::string const& stage) {
    Got g;
    fs::remove_all(stage);
    auto r = bl::Build(site, x.g, x.want, stage);
    g.ok = r.ok;
    if (r.ok) {
        g.failed = r.failed;
        for (auto const& [p, i] : r.infos) {
            g.infos += p + "=" + i.ToString() + " ";
        }
        g.staged = trees::Look(stage);
        g.modes = Modes(stage);
        g.executed = r.executed;
        g.cached = r.cached;
    }
    return g;
}
Got Expected(Example const& x, bool native) {
    static std::map<std::string, Got> cache;
    auto key = x.name + (native ? "n" : "c");
    if (auto it = cache.find(key); it != cache.end()) {
        return it->second;
    }
    Dir d;
    Sources(d.path + "/src", x.big);
    Site local(d.path + "/local", native, d.path + "/src");
    auto g = Run(local, x, d.path + "/out");
    return cache[key] = g;
}
bool Usable(Example const& x, bool native, Caps const& c = {}) {
    bool old = (native or c.high == 0) and c.low < 1;
    return (native or x.name != "given blobs") and (old or x.name != "directories in place");
}

std::vector<Caps> AllCaps() {
    std::vector<Caps> r{{}};
    for (long b : {0L, 1L, 20L, 1000000000L}) {
        Caps c;
        c.max_batch = b;
        r.push_back(c);
    }
    for (auto [lo, hi] : std::vector<std::pair<int, int>>{{0, 0}, {1, 1}, {0, 3}}) {
        Caps c;
        c.low = lo;
        c.high = hi;
        r.push_back(c);
    }
    Caps sp;
    sp.split = sp.splice = true;
    r.push_back(sp);
    sp.splice = false;
    r.push_back(sp);
    Caps none;
    none.none = true;
    r.push_back(none);
    return r;
}

void Builds() {
    auto const& xs = Examples();
    auto caps = AllCaps();
    hn::Enumerate("builds", (long)(xs.size() * caps.size()) * 2,
                  "13 action graphs, both hash types, 11 sets of capabilities announced by the server: building and "
                  "installing, again, again with a new client, and with a client that has everything locally, gives "
                  "what a local build gives",
                  [&](long i, hn::Shard& s) {
                      bool native = i % 2 == 1;
                      auto const& x = xs[(size_t)(i / 2) % xs.size()];
                      auto const& c = caps[(size_t)(i / 2) / xs.size()];
                      if (not Usable(x, native, c)) {
                          return;
                      }
                      if (not s.Case(x.name + (native ? " native " : " compatible ") + c.Show())) {
                          return;
                      }
                      auto want = Expected(x, native);
                      Dir d;
                      Sources(d.path + "/src", x.big);
                      Server srv(d.path + "/server", native, c);
                      auto cl = Client(d.path + "/client", native, d.path + "/src");
                      auto g1 = Run(*cl, x, d.path + "/out");
                      auto all = g1.executed + g1.cached;
                      if (not(g1 == want) or g1.executed != want.executed or g1.cached != want.cached) {
                          s.Fail("gives " + g1.Show() + "  instead of  " + want.Show(), "first " + x.name);
                          return;
                      }
                      s.Nontrivial(g1.ok);
                      if (not g1.ok) {
                          return;
                      }
                      bool rerun = x.name == "may fail" or x.name == "not cached";
                      auto g2 = Run(*cl, x, d.path + "/out");
                      if (not(g2 == want) or (not rerun and (g2.executed != 0 or g2.cached != all))) {
                          s.Fail("the second time gives " + g2.Show() + "  instead of  " + want.Show(), "second " + x.name);
                      }
                      auto c2 = Client(d.path + "/client2", native, d.path + "/src");
                      auto g3 = Run(*c2, x, d.path + "/out");
                      if (not(g3 == want) or (not rerun and (g3.executed != 0 or g3.cached != all))) {
                          s.Fail("another client gets " + g3.Show() + "  instead of  " + want.Show(), "other " + x.name);
                      }
                      // a local build first, then the remote one
                      Server srv2(d.path + "/server2", native, c, "server:2");
                      auto c3 = Client(d.path + "/client3", native, d.path + "/src", 1, "server:2");
                      {
                          Site l(d.path + "/client3", native, d.path + "/src");
                          (void)Run(l, x, d.path + "/out");
                      }
                      auto g4 = Run(*c3, x, d.path + "/out");
                      if (not(g4 == want)) {
                          s.Fail("after a local build, gives " + g4.Show() + "  instead of  " + want.Show(), "local " + x.name);
                      }
                  });
}

// one call does not go well
std::vector<Fault> Faults() {
    using W = Fault::Where;
    std::vector<Fault> r;
    for (auto code : {StatusCode::UNAVAILABLE, StatusCode::INTERNAL, StatusCode::NOT_FOUND}) {
        r.push_back({W::Before, code, 0});
        r.push_back({W::After, code, 0});
        r.push_back({W::Stream, code, 0});
        r.push_back({W::Stream, code, 1});
    }
    return r;
}
bool Streams(std::string const& m) {
    return m == "ByteStream.Read" or m == "ByteStream.Write" or m == "Execution.Execute" or m == "Execution.WaitExecution";
}
void BuildFaults() {
    auto const& xs = Examples();
    auto fl = Faults();
    struct It {
        std::size_t x;
        bool native;
        std::size_t f;
        unsigned attempts;
        long batch;
    };
    std::vector<It> its;
    for (std::size_t x = 0; x < xs.size(); ++x) {
        for (bool n : {false, true}) {
            for (std::size_t f = 0; f < fl.size(); ++f) {
                for (unsigned a : {1U, 3U}) {
                    if (Usable(xs[x], n) and (not xs[x].big or f < 4)) {
                        its.push_back({x, n, f, a, -1});
                        if (a == 1 and f < 4) {
                            its.push_back({x, n, f, a, 20});
                        }
                    }
                }
            }
        }
    }
    hn::Enumerate("faults", (long)its.size(),
                  "13 action graphs, both hash types: for every call the client makes, the call not done, its reply lost, or "
                  "the stream cut at the start or after one message, with three status codes, one or three attempts: the "
                  "build fails or gives what it should, the next build gives what it should, and with several attempts "
                  "a call that is unavailable once does no harm unless it is a byte stream",
                  [&](long i, hn::Shard& s) {
                      auto const& it = its[(size_t)i];
                      auto const& x = xs[it.x];
                      auto const& f = fl[it.f];
                      auto want = Expected(x, it.native);
                      for (long k = 0;; ++k) {
                          auto desc = x.name + (it.native ? " native" : " compatible") + " call " + std::to_string(k) + " " +
                                      rx::Show(f) + " attempts " + std::to_string(it.attempts) +
                                      (it.batch < 0 ? "" : " batch " + std::to_string(it.batch));
                          if (not s.Case(desc)) {
                              if (k > 400) {
                                  break;
                              }
                              continue;
                          }
                          Dir d;
                          Sources(d.path + "/src", x.big);
                          Caps c;
                          c.max_batch = it.batch;
                          Server srv(d.path + "/server", it.native, c);
                          auto cl = Client(d.path + "/client", it.native, d.path + "/src", it.attempts);
                          Calls calls;
                          calls.at[k] = f;
                          calls.Install();
                          auto g = Run(*cl, x, d.path + "/out");
                          calls.Remove();
                          if (calls.hit == 0) {
                              break;
                          }
                          auto m = calls.made[(size_t)k];
                          if (f.where == Fault::Where::Stream and not Streams(m)) {
                              continue;
                          }
                          s.Outcome(m + (g.ok ? " ok" : " failed"));
                          if (g.ok and not(g == want)) {
                              s.Fail(m + ": gives " + g.Show() + "  instead of  " + want.Show(), "wrong " + m);
                          }
                          if (not g.ok and want.ok and it.attempts > 1 and f.code == StatusCode::UNAVAILABLE and
                              m.substr(0, 10) != "ByteStream") {
                              s.Fail(m + ": the build fails though the call would have succeeded when tried again", "retry " + m);
                          }
                          s.Nontrivial(not g.ok);
                          // the same once more, nothing failing
                          auto g2 = Run(*cl, x, d.path + "/out");
                          if (not(g2 == want)) {
                              s.Fail(m + ": the next build gives " + g2.Show() + "  instead of  " + want.Show(), "next " + m);
                          }
                      }
                  });
}
// ----------------------------------------------------------- transfer
struct Obj {
    std::string data;
    char kind = 'f';  // f, x, t
    char from = 'm';  // memory, file, temporary file
};
struct Lab {
    Dir d;
    bool native;
    Server srv;
    std::unique_ptr<Site> cl;
    TmpDir::Ptr tmp;
    long n = 0;
    Lab(bool nat, Caps const& c, unsigned attempts = 1)
        : native(nat), srv(d.path + "/server", nat, c), cl(Client(d.path + "/client", nat, "", attempts)) {
        tmp = cl->apis.remote->GetTempSpace();
    }
    [[nodiscard]] HashFunction H() const { return srv.sc.hash_function; }
    [[nodiscard]] std::string Id(std::string const& data, bool tree) const {
        return trees::Hex(native ? trees::GitRaw(data, tree) : trees::Raw(data, false));
    }
    [[nodiscard]] ArtifactDigest Digest(std::string const& data, bool tree) const {
        auto r = ArtifactDigestFactory::Create(H().GetType(), Id(data, tree), data.size(), tree);
        if (not r) {
            throw std::runtime_error(r.error());
        }
        return *r;
    }
    [[nodiscard]] re::Digest Wire(std::string const& data, bool tree) const {
        re::Digest r;
        r.set_hash((native ? tree ? "74" : "62" : "") + Id(data, tree));
        r.set_size_bytes((long)data.size());
        return r;
    }
    [[nodiscard]] Artifact::ObjectInfo Info(Obj const& o) const {
        return {Digest(o.data, o.kind == 't'),
                o.kind == 't' ? ObjectType::Tree : o.kind == 'x' ? ObjectType::Executable : ObjectType::File, false};
    }
    ArtifactBlob Blob(Obj const& o) {
        auto type = Info(o).type;
        auto r = [&]() -> expected<ArtifactBlob, std::string> {
            if (o.from == 'm') {
                return ArtifactBlob::FromMemory(H(), type, o.data);
            }
            if (o.from == 'f') {
                auto p = d.path + "/given" + std::to_string(n++);
                std::ofstream{p, std::ios::binary} << o.data;
                return ArtifactBlob::FromFile(H(), type, p);
            }
            return ArtifactBlob::FromTempFile(H(), type, tmp, o.data);
        }();
        if (not r) {
            throw std::runtime_error(r.error());
        }
        return *r;
    }
    bool Put(std::vector<Obj> const& os, bool skip = false) {
        std::unordered_set<ArtifactBlob> s;
        for (auto const& o : os) {
            s.insert(Blob(o));
        }
        return cl->apis.remote->Upload(std::move(s), skip);
    }
    // straight into the server's storage
    void Give(Obj const& o) {
        auto ok = o.kind == 't' ? srv.st.CAS().StoreTree(o.data) : srv.st.CAS().StoreBlob(o.data, o.kind == 'x');
        if (not ok) {
            throw std::runtime_error("cannot store");
        }
    }
};
std::string Text(std::size_t n, unsigned seed) {
    std::string r(n, '\0');
    std::uint64_t x = seed * 2654435761U + 12345;
    for (auto& c : r) {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        c = (char)(x >> 56);
    }
    return r;
}
// a git tree of files with the given contents
std::string TreeText(std::vector<std::pair<std::string, std::string>> const& files) {
    std::string r;
    for (auto const& [n, c] : files) {
        r += "100644 " + n + std::string(1, '\0') + trees::GitRaw(c, false);
    }
    return r;
}
std::string FdRead(IExecutionApi const& api, Lab& l, Artifact::ObjectInfo const& info, bool raw, bool* ok) {
    auto p = l.d.path + "/fd";
    {
        auto* f = std::fopen(p.c_str(), "w");
        *ok = api.RetrieveToFds({info}, {fileno(f)}, raw, nullptr);
        std::fclose(f);
    }
    return ReadAll(p);
}
std::vector<std::size_t> Sizes(bool all) {
    std::size_t const m = 3UL * 1024 * 1024;  // the limit on messages
    std::vector<std::size_t> r{0, 1, 19, 20, 21, 1000, 65535, 65536, 65537};
    for (auto x : {m - 200, m - 100, m - 60, m - 1, m, m + 1, 4UL * 1024 * 1024, 4UL * 1024 * 1024 + 1, 9UL * 1000 * 1000}) {
        if (all) {
            r.push_back(x);
        }
    }
    return r;
}
std::vector<Caps> TransferCaps(bool all) {
    std::vector<Caps> r{{}};
    for (long b : all ? std::vector<long>{1L, 20L, 65536L, 1000000000L} : std::vector<long>{20L}) {
        Caps c;
        c.max_batch = b;
        r.push_back(c);
    }
    Caps c;
    c.split = c.splice = true;
    r.push_back(c);
    return r;
}
void ReadBack(hn::Shard& s, Lab& l, std::vector<Obj> const& os, std::string const& what) {
    auto& api = *l.cl->apis.remote;
    std::unordered_set<ArtifactDigest> all;
    std::vector<Artifact::ObjectInfo> infos;
    std::vector<fs::path> to;
    std::vector<Obj const*> files;
    std::vector<Artifact::ObjectInfo> finfos;
    for (auto const& o : os) {
        auto i = l.Info(o);
        all.insert(i.digest);
        infos.push_back(i);
        auto st = Stored(l.srv.sc, o.kind == 't' and l.native, l.Id(o.data, o.kind == 't' and l.native));
        if (not st or *st != o.data) {
            s.Fail(what + ": on the server is " + (st ? "other content" : "nothing"), "stored");
        }
        if (not api.IsAvailable(i.digest)) {
            s.Fail(what + ": said not to be available", "available");
        }
        auto m = api.RetrieveToMemory(i);
        if (not m or *m != o.data) {
            s.Fail(what + ": read to memory as " + (m ? std::to_string(m->size()) + " bytes" : "nothing"), "memory");
        }
        bool ok = false;
        auto f = FdRead(api, l, i, true, &ok);
        if (not ok or f != o.data) {
            s.Fail(what + ": written to a descriptor as " + (ok ? std::to_string(f.size()) + " bytes" : "nothing"), "fd");
        }
        if (o.kind != 't') {
            to.emplace_back(l.d.path + "/out/" + std::to_string(to.size()));
            files.push_back(&o);
            finfos.push_back(i);
        }
    }
    auto absent = l.Digest("absent", false);
    if (api.IsAvailable(absent) or api.RetrieveToMemory({absent, ObjectType::File, false})) {
        s.Fail(what + ": an object never given is said to be available", "absent");
    }
    all.insert(absent);
    auto missing = api.GetMissingDigests(all);
    if (missing != std::unordered_set<ArtifactDigest>{absent}) {
        s.Fail(what + ": " + std::to_string(missing.size()) + " objects said to be missing where one is", "missing");
    }
    fs::remove_all(l.d.path + "/out");
    if (not api.RetrieveToPaths(finfos, to)) {
        s.Fail(what + ": cannot be installed", "paths");
    }
    else {
        for (std::size_t k = 0; k < files.size(); ++k) {
            auto got = trees::Look(to[k].string());
            if (not(got == (files[k]->kind == 'x' ? X(files[k]->data) : F(files[k]->data)))) {
                s.Fail(what + ": installed with other content or mode", "paths");
            }
        }
    }
    for (int how = 0; how < 4; ++how) {
        fs::remove_all(l.d.path + "/other");
        Site other(l.d.path + "/other", l.native, "");
        auto& oapi = *other.apis.local;
        bool ok = how == 0 ? api.RetrieveToCas(infos, oapi) : api.ParallelRetrieveToCas(infos, oapi, how == 2 ? 3 : 1, how != 1);
        if (not ok) {
            s.Fail(what + ": cannot be fetched, way " + std::to_string(how), "cas");
            continue;
        }
        for (auto const& o : os) {
            auto st = Stored(other.sc, o.kind == 't' and l.native, l.Id(o.data, o.kind == 't' and l.native));
            if (not st or *st != o.data) {
                s.Fail(what + ": fetched, way " + std::to_string(how) + ", but " + (st ? "other content" : "absent"), "cas");
            }
        }
    }
}
std::string ShowAll(std::vector<Obj> const& os) {
    std::string r;
    for (auto const& o : os) {
        r += std::string(1, o.kind) + o.from + std::to_string(o.data.size()) + " ";
    }
    return r;
}
void Transfer() {
    auto sizes = Sizes(true);
    auto small = Sizes(false);
    std::vector<std::vector<Obj>> sets;
    for (auto n : sizes) {
        for (char k : {'f', 'x'}) {
            for (char f : {'m', 'f', 't'}) {
                if (not hn::ctx().thorough and n > 100000 and (k == 'f') != (f == 'f')) {
                    continue;
                }
                sets.push_back({{Text(n, 1), k, f}});
            }
        }
        // the same content as a file and as an executable
        sets.push_back({{Text(n, 1), 'f', 'm'}, {Text(n, 1), 'x', 'f'}});
    }
    for (auto a : sizes) {
        for (auto b : sizes) {
            if (a <= b and (a < 100 or b > 65537) and
                (hn::ctx().thorough or b < 100000 or a == 1 or a == 1000 or (a > 65537 and a < 3145728 and b > 3145728 and b < 5000000))) {
                sets.push_back({{Text(a, 1), 'f', 'm'}, {Text(b, 2), 'x', 'f'}});
            }
        }
    }
    for (std::size_t n : {3UL, 7UL, 40UL}) {
        for (std::size_t z : {1UL, 7UL, 10UL, 20UL, 300000UL}) {
            if (n * z > 3000000 and n != 40) {
                continue;
            }
            std::vector<Obj> v;
            for (unsigned k = 0; k < n; ++k) {
                v.push_back({std::to_string(k) + Text(z, k), k % 3 == 0 ? 'x' : 'f', k % 2 == 0 ? 'm' : 'f'});
            }
            sets.push_back(v);
        }
    }
    auto caps = TransferCaps(hn::ctx().thorough);
    hn::Enumerate("transfer", (long)(sets.size() * caps.size()) * 4,
                  "sets of up to 40 objects of 18 sizes (around the batch and message limits and the chunk size), files and "
                  "executables, in memory, in files, in temporary files, sent with and without asking what is missing, to "
                  "servers announcing different limits: all arrive and come back right, in every way of fetching",
                  [&](long i, hn::Shard& s) {
                      bool native = i % 2 == 1, skip = i / 2 % 2 == 1;
                      auto const& os = sets[(size_t)(i / 4) % sets.size()];
                      auto const& c = caps[(size_t)(i / 4) / sets.size()];
                      auto what = ShowAll(os) + (native ? "native " : "compatible ") + (skip ? "unasked " : "") + c.Show();
                      if (not s.Case(what)) {
                          return;
                      }
                      Lab l(native, c);
                      auto before = Objects(l.srv.sc).size();
                      if (not l.Put(os, skip)) {
                          s.Fail("the upload fails", "upload");
                      }
                      std::set<std::string> ids;
                      for (auto const& o : os) {
                          ids.insert(l.Id(o.data, false));
                      }
                      if (Objects(l.srv.sc).size() != ids.size() + before) {
                          std::string names;
                          for (auto const& o : Objects(l.srv.sc)) {
                              names += " " + fs::path(o).filename().string() + ":" + ReadAll(o).substr(0, 40);
                          }
                          s.Fail("there are " + std::to_string(Objects(l.srv.sc).size()) + " objects on the server:" + names, "number");
                      }
                      ReadBack(s, l, os, "object");
                      s.Nontrivial(os.size() > 1);
                      before = Objects(l.srv.sc).size();
                      if (not l.Put(os, skip) or Objects(l.srv.sc).size() != before) {
                          s.Fail("uploading again fails or adds something", "again");
                      }
                  });
    // trees
    std::vector<std::vector<Obj>> ts;
    for (std::size_t n : {0UL, 1UL, 2UL, 30UL, 1000UL, 50000UL}) {
        std::vector<std::pair<std::string, std::string>> f;
        std::vector<Obj> v;
        for (unsigned k = 0; k < n; ++k) {
            auto name = std::to_string(100000 + k);
            auto content = "content " + std::to_string(k % 50);
            f.emplace_back(name, content);
            if (k < 50) {
                v.push_back({content, 'f', 'm'});
            }
        }
        auto t = TreeText(f);
        v.push_back({t, 't', 'm'});
        auto up = "40000 d" + std::string(1, '\0') + trees::GitRaw(t, true);
        v.push_back({up, 't', 'f'});
        v.push_back({"40000 e" + std::string(1, '\0') + trees::GitRaw(up, true), 't', 't'});
        ts.push_back(v);
    }
    hn::Enumerate("trees", (long)(ts.size() * caps.size()) * 2,
                  "trees of trees of up to 50000 files: uploaded part by part they arrive and come back right; a tree of which "
                  "something is missing is refused",
                  [&](long i, hn::Shard& s) {
                      bool skip = i % 2 == 1;
                      auto const& os = ts[(size_t)(i / 2) % ts.size()];
                      auto const& c = caps[(size_t)(i / 2) / ts.size()];
                      if (not s.Case(ShowAll({os[os.size() - 3], os[os.size() - 2]}) + (skip ? "unasked " : "") + c.Show())) {
                          return;
                      }
                      Lab l(true, c);
                      std::vector<Obj> blobs(os.begin(), os.end() - 3);
                      if (l.Put({os[os.size() - 2]}, skip) or
                          Stored(l.srv.sc, true, l.Id(os[os.size() - 2].data, true))) {
                          s.Fail("a tree that lacks its entries is taken", "incomplete");
                      }
                      if (not blobs.empty() and not l.Put(blobs, skip)) {
                          s.Fail("the upload of the files fails", "files");
                      }
                      for (std::size_t k = os.size() - 3; k < os.size(); ++k) {
                          if (not l.Put({os[k]}, skip)) {
                              s.Fail("the upload of a tree fails", "tree");
                          }
                      }
                      ReadBack(s, l, os, "object");
                      s.Nontrivial(not blobs.empty());
                      // only the topmost tree asked for
                      for (int how = 0; how < 4; ++how) {
                          fs::remove_all(l.d.path + "/other");
                          Site other(l.d.path + "/other", true, "");
                          auto& api = *l.cl->apis.remote;
                          std::vector<Artifact::ObjectInfo> infos{l.Info(os.back())};
                          bool ok = how == 0 ? api.RetrieveToCas(infos, *other.apis.local)
                                             : api.ParallelRetrieveToCas(infos, *other.apis.local, how == 2 ? 3 : 1, how != 1);
                          bool all = true;
                          for (auto const& o : os) {
                              auto st = Stored(other.sc, o.kind == 't', l.Id(o.data, o.kind == 't'));
                              all = all and st and *st == o.data;
                          }
                          if (not ok or not all) {
                              s.Fail("fetching the tree, way " + std::to_string(how) + (ok ? ", leaves something out" : ", fails"), "fetch");
                          }
                      }
                  });
}

// ------------------------------------------------------------- corrupt
// the server's answers carry other data than asked for
void Corrupt() {
    std::vector<std::string> const ways{"changed", "cut", "longer", "empty", "another object's", "the next one's", "absent"};
    std::vector<std::size_t> const sizes{1, 20, 70000, 3145729};
    auto caps = TransferCaps(false);
    hn::Enumerate("corrupt", (long)(ways.size() * sizes.size() * caps.size()) * 6,
                  "one of the answers (batch or stream) of the server carries changed, cut, longer, no, or another object's data: "
                  "reading, installing and fetching fail or give the right content, and report success only when everything "
                  "is there",
                  [&](long i, hn::Shard& s) {
                      bool native = i % 2 == 1;
                      int which = (int)(i / 2 % 3);
                      i /= 6;
                      auto const& way = ways[(size_t)i % ways.size()];
                      i /= (long)ways.size();
                      auto n = sizes[(size_t)i % sizes.size()];
                      auto const& c = caps[(size_t)i / sizes.size()];
                      auto what = way + " " + std::to_string(n) + " message " + std::to_string(which) + (native ? " native " : " compatible ") + c.Show();
                      if (not s.Case(what)) {
                          return;
                      }
                      Lab l(native, c);
                      std::vector<Obj> os{{Text(n, 1), 'f'}, {Text(n, 2), 'x'}, {Text(n + 1, 3), 'f'}};
                      for (auto const& o : os) {
                          l.Give(o);
                      }
                      std::vector<Artifact::ObjectInfo> infos;
                      for (auto const& o : os) {
                          infos.push_back(l.Info(o));
                      }
                      int seen = 0;
                      auto change = [&](std::string* d) {
                          if (seen++ != which) {
                              return;
                          }
                          if (way == "changed") {
                              (*d)[d->size() / 2] = (char)((*d)[d->size() / 2] ^ 1);
                          }
                          else if (way == "cut") {
                              d->pop_back();
                          }
                          else if (way == "longer") {
                              *d += "x";
                          }
                          else if (way == "empty") {
                              d->clear();
                          }
                          else if (way == "another object's") {
                              *d = "some other data";
                          }
                          else if (way == "the next one's") {
                              *d = *d == os[0].data ? os[1].data : os[0].data;
                          }
                      };
                      std::mutex m;
                      grpc::Wire::Get().mutate = [&](std::string const& name, google::protobuf::Message* msg) {
                          std::unique_lock lock{m};
                          if (auto* b = dynamic_cast<re::BatchReadBlobsResponse*>(msg)) {
                              for (auto& r : *b->mutable_responses()) {
                                  if (way == "absent" and seen == which) {
                                      ++seen;
                                      b->mutable_responses()->RemoveLast();
                                      return;
                                  }
                                  change(r.mutable_data());
                              }
                          }
                          if (auto* b = dynamic_cast<google::bytestream::ReadResponse*>(msg)) {
                              change(b->mutable_data());
                          }
                          (void)name;
                      };
                      auto& api = *l.cl->apis.remote;
                      for (std::size_t k = 0; k < os.size(); ++k) {
                          seen = 0;
                          auto r = api.RetrieveToMemory(infos[k]);
                          s.Outcome(r ? "memory" : "no memory");
                          if (r and *r != os[k].data) {
                              s.Fail("wrong data read to memory", "memory");
                          }
                      }
                      seen = 0;
                      std::vector<fs::path> to;
                      for (std::size_t k = 0; k < os.size(); ++k) {
                          to.emplace_back(l.d.path + "/out/" + std::to_string(k));
                      }
                      if (api.RetrieveToPaths(infos, to)) {
                          s.Outcome("installed");
                          for (std::size_t k = 0; k < os.size(); ++k) {
                              if (not fs::exists(to[k]) or ReadAll(to[k].string()) != os[k].data) {
                                  s.Fail("wrong data installed", "paths");
                              }
                          }
                      }
                      else {
                          s.Nontrivial(true);
                      }
                      for (int how = 0; how < 4; ++how) {
                          fs::remove_all(l.d.path + "/other");
                          Site other(l.d.path + "/other", native, "");
                          auto& oapi = *other.apis.local;
                          seen = 0;
                          bool ok = how == 0 ? api.RetrieveToCas(infos, oapi) : api.ParallelRetrieveToCas(infos, oapi, how == 2 ? 3 : 1, how != 1);
                          s.Outcome(ok ? "fetched" : "not fetched");
                          for (auto const& o : os) {
                              auto st = Stored(other.sc, false, l.Id(o.data, false));
                              if (st and *st != o.data) {
                                  s.Fail("wrong data stored", "cas");
                              }
                              if (ok and not st) {
                                  s.Fail("fetching, way " + std::to_string(how) + ", is reported to have succeeded, but an object is absent", "cas absent");
                              }
                          }
                      }
                      grpc::Wire::Get().mutate = nullptr;
                  });
}

// -------------------------------------------------------------- server
void Direct_() {
    struct Bad {
        std::string name;
        std::function<void(re::Digest*)> change;
        bool stores;  // the data may be stored under its own name
    };
    std::vector<Bad> const bads{
        {"right", [](re::Digest*) {}, true},
        {"wrong hash", [](re::Digest* d) { auto h = d->hash(); h.back() = h.back() == '0' ? '1' : '0'; d->set_hash(h); }, true},
        {"size one less", [](re::Digest* d) { d->set_size_bytes(d->size_bytes() - 1); }, true},
        {"size one more", [](re::Digest* d) { d->set_size_bytes(d->size_bytes() + 1); }, true},
        {"hash too short", [](re::Digest* d) { auto h = d->hash(); h.pop_back(); d->set_hash(h); }, false},
        {"hash too long", [](re::Digest* d) { d->set_hash(d->hash() + "0"); }, false},
        {"hash with other characters", [](re::Digest* d) { auto h = d->hash(); h[5] = 'g'; d->set_hash(h); }, false},
        {"hash with a slash", [](re::Digest* d) { auto h = d->hash(); h[5] = '/'; d->set_hash(h); }, false},
        {"hash with dots", [](re::Digest* d) { auto h = d->hash(); h.replace(2, 6, "../../"); d->set_hash(h); }, false},
        {"hash of upper case", [](re::Digest* d) { auto h = d->hash(); for (auto& c : h) { c = (char)std::toupper(c); } d->set_hash(h); }, false},
        {"no hash", [](re::Digest* d) { d->set_hash(""); }, false},
        {"other kind", [](re::Digest* d) { auto h = d->hash(); h.replace(0, 2, h.substr(0, 2) == "62" ? "74" : "62"); d->set_hash(h); }, true},
    };
    std::vector<std::size_t> const chunks{0, 1, 2, 3, 7, 100};
    std::vector<std::size_t> const sizes{1, 2, 10, 99};
    hn::Enumerate("requests", (long)(bads.size() * sizes.size()) * 2,
                  "uploads (in a batch, alone and after and before good ones; as a stream cut in all ways into messages, "
                  "unfinished, with data missing, doubled or exchanged) with right and wrong digests: what is not the "
                  "announced object is refused, nothing is stored under a name that is not its own",
                  [&](long i, hn::Shard& s) {
                      bool native = i % 2 == 1;
                      auto const& b = bads[(size_t)(i / 2) % bads.size()];
                      auto n = sizes[(size_t)(i / 2) / bads.size()];
                      if (not s.Case(b.name + " " + std::to_string(n) + (native ? " native" : " compatible"))) {
                          return;
                      }
                      if (not native and b.name == "other kind") {
                          return;
                      }
                      // in native mode, size 0 means it is not known
                      bool right = b.name == "right" or (native and n == 1 and b.name == "size one less");
                      auto data = Text(n, 9);
                      auto Names = [&](Lab& l, std::string const& how) {
                          for (auto const& p : Objects(l.srv.sc)) {
                              auto q = fs::path(p);
                              auto id = q.parent_path().filename().string() + q.filename().string();
                              bool tree = q.parent_path().parent_path().filename() == "cast" or
                                          p.find("/cast/") != std::string::npos;
                              if (l.Id(ReadAll(p), tree and native) != id) {
                                  s.Fail(how + ": stored under a name not its own: " + p, "name");
                              }
                          }
                      };
                      grpc::ServerContext ctx;
                      for (int pos = 0; pos < 3; ++pos) {
                          Lab l(native, {});
                          re::BatchUpdateBlobsRequest q;
                          re::BatchUpdateBlobsResponse r;
                          for (int k = 0; k < 3; ++k) {
                              auto* x = q.add_requests();
                              auto c = k == pos ? data : "good " + std::to_string(k);
                              *x->mutable_digest() = l.Wire(c, false);
                              x->set_data(c);
                              if (k == pos) {
                                  b.change(x->mutable_digest());
                              }
                          }
                          auto st = l.srv.cas.BatchUpdateBlobs(&ctx, &q, &r);
                          bool taken = st.ok();
                          for (auto const& x : r.responses()) {
                              if (x.digest().hash() == q.requests(pos).digest().hash() and x.status().code() != 0) {
                                  taken = false;
                              }
                          }
                          if (taken != right) {
                              s.Fail("in a batch, at " + std::to_string(pos) + (taken ? ": taken" : ": refused"), "batch");
                          }
                          Names(l, "batch");
                          auto st1 = Stored(l.srv.sc, false, l.Id(data, false));
                          if (b.name == "right" and (not st1 or *st1 != data)) {
                              s.Fail("not stored", "batch");
                          }
                          re::FindMissingBlobsRequest fq;
                          re::FindMissingBlobsResponse fr;
                          *fq.add_blob_digests() = q.requests(pos).digest();
                          auto fst = l.srv.cas.FindMissingBlobs(&ctx, &fq, &fr);
                          bool same = b.name == "right" or b.name.substr(0, 4) == "size";
                          if (fst.ok() and fr.missing_blob_digests_size() == 0 and not same) {
                              s.Fail("said to be there", "find");
                          }
                          re::BatchReadBlobsRequest rq;
                          re::BatchReadBlobsResponse rr;
                          *rq.add_digests() = q.requests(pos).digest();
                          auto rst = l.srv.cas.BatchReadBlobs(&ctx, &rq, &rr);
                          if (rst.ok() and rr.responses_size() == 1 and rr.responses(0).status().code() == 0 and
                              (not same or rr.responses(0).data() != data)) {
                              s.Fail("read", "read");
                          }
                          s.Nontrivial(not taken);
                      }
                      // as a stream
                      struct Way {
                          std::string name;
                          bool good;
                      };
                      for (auto const& w : std::vector<Way>{{"all", true}, {"no end", true}, {"first missing", false}, {"last missing", false},
                                                            {"last twice", false}, {"order", false}, {"only name", false}}) {
                          for (auto ch : chunks) {
                              Lab l(native, {});
                              auto d = l.Wire(data, false);
                              b.change(&d);
                              auto name = "inst/uploads/aaaaaaaa-aaaa-4aaa-8aaa-aaaaaaaaaaaa/blobs/" + d.hash() + "/" + std::to_string(d.size_bytes());
                              std::vector<std::string> parts;
                              if (ch == 0) {
                                  parts = {"", data};
                              }
                              else {
                                  for (std::size_t k = 0; k < data.size(); k += ch) {
                                      parts.push_back(data.substr(k, ch));
                                  }
                              }
                              if (w.name == "first missing") {
                                  parts.erase(parts.begin());
                              }
                              else if (w.name == "last missing") {
                                  parts.pop_back();
                              }
                              else if (w.name == "last twice") {
                                  parts.push_back(parts.back());
                              }
                              else if (w.name == "order") {
                                  std::reverse(parts.begin(), parts.end());
                              }
                              else if (w.name == "only name") {
                                  parts = {""};
                              }
                              std::string all;
                              for (auto const& p : parts) {
                                  all += p;
                              }
                              grpc::ServerReader<google::bytestream::WriteRequest> rd;
                              long off = 0;
                              for (std::size_t k = 0; k < parts.size(); ++k) {
                                  google::bytestream::WriteRequest q;
                                  if (k == 0 or ch % 2 == 0) {
                                      q.set_resource_name(name);
                                  }
                                  q.set_write_offset(off);
                                  q.set_data(parts[k]);
                                  off += (long)parts[k].size();
                                  q.set_finish_write(w.name != "no end" and k + 1 == parts.size());
                                  rd.in.push_back(q);
                              }
                              google::bytestream::WriteResponse r;
                              auto st = l.srv.bs.Write(&ctx, &rd, &r);
                              bool good = right and all == data;
                              if (st.ok() != good) {
                                  s.Fail("stream " + w.name + " in parts of " + std::to_string(ch) + (st.ok() ? ": taken" : ": refused"), "stream");
                              }
                              if (st.ok() and r.committed_size() != (long)data.size()) {
                                  s.Fail("stream: committed size " + std::to_string(r.committed_size()), "committed");
                              }
                              Names(l, "stream");
                              auto st1 = Stored(l.srv.sc, false, l.Id(data, false));
                              if (good and (not st1 or *st1 != data)) {
                                  s.Fail("stream: not stored", "stream");
                              }
                              if (not good) {
                                  continue;
                              }
                              for (long o = 0; o <= (long)data.size(); ++o) {
                                  google::bytestream::ReadRequest rq;
                                  rq.set_resource_name("inst/blobs/" + d.hash() + "/" + std::to_string(d.size_bytes()));
                                  rq.set_read_offset(o);
                                  grpc::ServerWriter<google::bytestream::ReadResponse> wr;
                                  auto rs = l.srv.bs.Read(&ctx, &rq, &wr);
                                  std::string got;
                                  for (auto const& x : wr.out) {
                                      google::bytestream::ReadResponse p;
                                      p.ParseFromString(x);
                                      got += p.data();
                                  }
                                  if (not rs.ok() or got != data.substr((size_t)o)) {
                                      s.Fail("read from " + std::to_string(o) + " on gives " + std::to_string(got.size()) + " bytes", "offset");
                                  }
                              }
                          }
                      }
                  });
    // splitting and putting together
    hn::Enumerate("splitting", 2 * 7 * 4,
                  "objects of seven sizes split by the server; put together from the parts; with a part left out, doubled, "
                  "exchanged, unknown, or under another name: refused and not stored",
                  [&](long i, hn::Shard& s) {
                      bool native = i % 2 == 1;
                      std::vector<std::size_t> const ns{0, 1, 1000, 8193, 70000, 200000, 3000000};
                      auto n = ns[(size_t)(i / 2) % ns.size()];
                      int kind = (int)(i / 14);
                      if (not s.Case(std::to_string(n) + (native ? " native " : " compatible ") + std::to_string(kind))) {
                          return;
                      }
                      std::string data;
                      bool tree = kind == 3;
                      Lab l(native, {});
                      if (tree) {
                          if (not native) {
                              return;
                          }
                          std::vector<std::pair<std::string, std::string>> f;
                          for (std::size_t k = 0; k < n / 34; ++k) {
                              f.emplace_back(std::to_string(1000000 + k), "content " + std::to_string(k % 50));
                          }
                          for (int k = 0; k < 50; ++k) {
                              l.Give({"content " + std::to_string(k)});
                          }
                          data = TreeText(f);
                      }
                      else {
                          data = kind == 0 ? Text(n, 4) : kind == 1 ? std::string(n, 'z') : Text(n / 2, 5) + Text(n - n / 2, 5);
                      }
                      l.Give({data, tree ? 't' : 'f'});
                      grpc::ServerContext ctx;
                      re::SplitBlobRequest q;
                      re::SplitBlobResponse r;
                      *q.mutable_blob_digest() = l.Wire(data, tree);
                      auto st = l.srv.cas.SplitBlob(&ctx, &q, &r);
                      if (not st.ok()) {
                          s.Fail("cannot be split: " + st.error_message(), "split");
                          return;
                      }
                      std::vector<re::Digest> ch(r.chunk_digests().begin(), r.chunk_digests().end());
                      std::string sum;
                      std::vector<std::string> parts;
                      for (auto const& c : ch) {
                          auto p = Stored(l.srv.sc, false, native ? c.hash().substr(2) : c.hash());
                          if (not p or (native and c.hash().substr(0, 2) != "62")) {
                              s.Fail("a part is not stored", "part");
                              return;
                          }
                          parts.push_back(*p);
                          sum += *p;
                      }
                      s.Nontrivial(ch.size() > 1);
                      if (sum != data) {
                          s.Fail("the parts do not make up the object", "sum");
                      }
                      // at another server that has the parts only
                      auto Splice = [&](std::string const& name, std::vector<re::Digest> const& list, re::Digest const& id, bool good,
                                        int absent = -1) {
                          Lab o(native, {});
                          if (tree) {
                              for (int k = 0; k < 50; ++k) {
                                  o.Give({"content " + std::to_string(k)});
                              }
                          }
                          for (std::size_t k = 0; k < parts.size(); ++k) {
                              if (absent < 0 or parts[k] != parts[(size_t)absent]) {
                                  o.Give({parts[k]});
                              }
                          }
                          re::SpliceBlobRequest sq;
                          re::SpliceBlobResponse sr;
                          *sq.mutable_blob_digest() = id;
                          for (auto const& c : list) {
                              *sq.add_chunk_digests() = c;
                          }
                          auto ss = o.srv.cas.SpliceBlob(&ctx, &sq, &sr);
                          bool ok = ss.ok() and sr.has_blob_digest();
                          if (ok != good) {
                              s.Fail(name + (ok ? ": put together" : ": refused: " + ss.error_message()), "splice " + name);
                          }
                          auto got = Stored(o.srv.sc, tree, native ? id.hash().substr(2) : id.hash());
                          if (good ? not got or *got != data : got and o.Id(*got, tree) != (native ? id.hash().substr(2) : id.hash())) {
                              s.Fail(name + ": stored wrongly", "stored " + name);
                          }
                          if (not good and got and id.hash() != l.Wire(data, tree).hash()) {
                              s.Fail(name + ": stored", "stored " + name);
                          }
                      };
                      auto id = l.Wire(data, tree);
                      Splice("right", ch, id, true);
                      auto other = id;
                      {
                          auto h = other.hash();
                          h.back() = h.back() == '0' ? '1' : '0';
                          other.set_hash(h);
                      }
                      Splice("other name", ch, other, false);
                      for (std::size_t k = 0; k < std::min<std::size_t>(ch.size(), 6); ++k) {
                          auto c = ch;
                          c.erase(c.begin() + (long)k);
                          if (not parts[k].empty() and ch.size() > 1) {
                              Splice("one left out", c, id, false);
                              Splice("one absent", ch, id, false, (int)k);
                              c = ch;
                              c.insert(c.begin() + (long)k, ch[k]);
                              Splice("one twice", c, id, false);
                          }
                          if (k + 1 < ch.size() and parts[k] + parts[k + 1] != parts[k + 1] + parts[k]) {
                              c = ch;
                              std::swap(c[k], c[k + 1]);
                              Splice("exchanged", c, id, false);
                          }
                      }
                  });
}

// builds where one of the answers carries other data
void Wrong() {
    auto const& xs = Examples();
    std::vector<std::string> const ways{"changed", "absent", "not found", "exchanged"};
    std::vector<long> const batches{-1, 20};
    hn::Enumerate("wrong answers", (long)(xs.size() * ways.size() * batches.size()) * 2,
                  "13 action graphs: for each object the server sends during a build by a new client after one by another, the "
                  "object's data changed, left out, reported absent, or exchanged with another's: the build fails or gives "
                  "what it should",
                  [&](long i, hn::Shard& s) {
                      bool native = i % 2 == 1;
                      i /= 2;
                      auto const& x = xs[(size_t)i % xs.size()];
                      i /= (long)xs.size();
                      auto const& way = ways[(size_t)i % ways.size()];
                      Caps c;
                      c.max_batch = batches[(size_t)i / ways.size()];
                      if (not Usable(x, native)) {
                          return;
                      }
                      auto want = Expected(x, native);
                      for (bool again : {false, true}) {
                          // large objects come in many messages
                          for (int k = 0; not x.big or k < 6; ++k) {
                              if (not s.Case(x.name + (native ? " native " : " compatible ") + way + " " + std::to_string(k) +
                                             " batch " + std::to_string(c.max_batch) + (again ? " cached" : ""))) {
                                  if (k > 200) {
                                      break;
                                  }
                                  continue;
                              }
                              Dir d;
                              Sources(d.path + "/src", x.big);
                              Server srv(d.path + "/server", native, c);
                              if (again) {
                                  auto cl = Client(d.path + "/client0", native, d.path + "/src");
                                  (void)Run(*cl, x, d.path + "/out");
                              }
                              auto cl = Client(d.path + "/client", native, d.path + "/src");
                              int seen = 0;
                              std::string last = "nothing yet";
                              std::mutex m;
                              grpc::Wire::Get().mutate = [&](std::string const&, google::protobuf::Message* msg) {
                                  std::unique_lock lock{m};
                                  auto change = [&](std::string* data) {
                                      auto old = *data;
                                      if (seen++ == k) {
                                          if (way == "changed" and not data->empty()) {
                                              data->back() = (char)(data->back() ^ 1);
                                          }
                                          else if (way == "exchanged") {
                                              *data = last;
                                          }
                                          else {
                                              data->clear();
                                          }
                                      }
                                      last = old;
                                  };
                                  if (auto* b = dynamic_cast<re::BatchReadBlobsResponse*>(msg)) {
                                      for (int n = 0; n < b->responses_size(); ++n) {
                                          if (seen == k and way == "absent") {
                                              ++seen;
                                              b->mutable_responses()->DeleteSubrange(n, 1);
                                              --n;
                                          }
                                          else if (seen == k and way == "not found") {
                                              ++seen;
                                              b->mutable_responses(n)->clear_data();
                                              b->mutable_responses(n)->mutable_status()->set_code(StatusCode::NOT_FOUND);
                                          }
                                          else {
                                              change(b->mutable_responses(n)->mutable_data());
                                          }
                                      }
                                  }
                                  if (auto* b = dynamic_cast<google::bytestream::ReadResponse*>(msg)) {
                                      change(b->mutable_data());
                                  }
                              };
                              auto g = Run(*cl, x, d.path + "/out");
                              grpc::Wire::Get().mutate = nullptr;
                              if (seen <= k) {
                                  break;
                              }
                              s.Outcome(g.ok ? "ok" : "failed");
                              s.Nontrivial(not g.ok);
                              if (g.ok and not(g == want)) {
                                  s.Fail("gives " + g.Show() + "  instead of  " + want.Show(), "wrong " + x.name);
                              }
                              auto g2 = Run(*cl, x, d.path + "/out");
                              if (not(g2 == want)) {
                                  s.Fail("the next build gives " + g2.Show() + "  instead of  " + want.Show(), "next " + x.name);
                              }
                          }
                      }
                  });
}

// ------------------------------------------------------------ actions
struct Script {
    std::string name;
    std::vector<std::string> outs, dirs;
    std::string sh;
    std::string cwd;
};
struct Seen {
    bool none = true, cached = false, ran = false, up = false;
    int exit = 0;
    std::string out, err, arts;
    bool operator==(Seen const&) const = default;
    [[nodiscard]] std::string Show() const {
        return none ? std::string("no response") + (ran ? " (run)" : "")
                    : "exit " + std::to_string(exit) + (cached ? " cached" : "") + (ran ? " run" : "") +
                          (up ? " upwards" : "") + " out '" + out + "' err '" + err + "' artifacts " + arts;
    }
};
void Actions() {
    std::vector<Script> const sc{
        {"file", {"o"}, {}, "cat f > o; echo hello; echo oops >&2", ""},
        {"tree", {}, {"d"}, "mkdir -p d/e; cp f d/e/g; ln -s e/g d/l; cp f d/x; chmod +x d/x", ""},
        {"empty", {"o"}, {"d"}, ": > o; mkdir -p d; echo", ""},
        {"links", {"o", "l"}, {}, "echo x > o; ln -s o l", ""},
        {"upwards", {"l"}, {}, "ln -s ../../x l", ""},
        {"upwards inside", {}, {"d"}, "mkdir -p d/e; ln -s ../../x d/e/l", ""},
        {"fails", {"o"}, {}, "echo x > o; echo why >&2; exit 7", ""},
        {"fails without output", {"o"}, {}, "exit 1", ""},
        {"lacks an output", {"o", "p"}, {}, "echo x > o", ""},
        {"lacks a directory", {"o"}, {"d/e"}, "echo x > o", ""},
        {"elsewhere", {"o"}, {"e"}, "cat ../f > o; mkdir -p e; cp o e/p", "w"},
        {"elsewhere above", {"../o"}, {}, "cat ../f > ../o", "w/v"},
        {"link to directory", {"o"}, {"d"}, "mkdir e; echo > o; ln -s e d", ""},
        {"directory for a file", {"o"}, {}, "mkdir o; echo > o/x", ""},
        {"file for a directory", {}, {"d"}, "rmdir d 2>/dev/null; echo > d", ""},
        {"much output", {"o"}, {}, "echo > o; head -c 4000000 /dev/zero | tr '\\0' a; echo e >&2", ""},
        {"large", {"o"}, {"d"}, "head -c 4300000 /dev/zero > o; mkdir -p d; cp o d/x", ""},
    };
    std::vector<CF> const flags{CF::CacheOutput, CF::DoNotCacheOutput, CF::FromCacheOnly, CF::PretendCached};
    std::vector<std::pair<int, int>> const versions{{-1, -1}, {0, 0}, {1, 1}};
    hn::Enumerate("actions", (long)(sc.size() * versions.size()) * 2 * 64,
                  "17 actions (files, directories, links, failing, lacking outputs, outputs of other kinds, working directories, "
                  "large), all sequences of three executions with the four cache flags, both hash types, protocol versions "
                  "2.0, 2.1 and both: run, cached, exit code, outputs and artifacts are as with a local execution of the same",
                  [&](long i, hn::Shard& s) {
                      int fl = (int)(i % 64);
                      i /= 64;
                      bool native = i % 2 == 1;
                      i /= 2;
                      auto const& x = sc[(size_t)i % sc.size()];
                      Caps c;
                      std::tie(c.low, c.high) = versions[(size_t)i / sc.size()];
                      std::string fn;
                      for (int k = 0, f = fl; k < 3; ++k, f /= 4) {
                          fn += std::to_string(f % 4);
                      }
                      if (not s.Case(x.name + (native ? " native " : " compatible ") + c.Show() + " flags " + fn)) {
                          return;
                      }
                      if ((x.name == "large" or x.name == "much output") and fl % 4 != 0) {
                          return;
                      }
                      Dir d;
                      Server srv(d.path + "/server", native, c);
                      auto cl = Client(d.path + "/client", native);
                      Site loc(d.path + "/local", native, "");
                      // the protocol the client speaks decides on what the outputs are
                      bool legacy = (native or c.high == 0) and c.low < 1;
                      // by the newer protocol, the kinds of outputs are not known and directories are not made
                      if (not legacy and (x.name.find("directory") != std::string::npos)) {
                          return;
                      }
                      auto Root = [&](IExecutionApi const& api, Storage const& st) {
                          auto f = st.CAS().StoreBlob(std::string("input\n"), false);
                          ArtifactDigest r;
                          if (native) {
                              r = *st.CAS().StoreTree(TreeText({{"f", "input\n"}}));
                          }
                          else {
                              re::Directory m;
                              auto* n = m.add_files();
                              n->set_name("f");
                              *n->mutable_digest() = ArtifactDigestFactory::ToBazel(*f);
                              r = *st.CAS().StoreTree(m.SerializeAsString());
                          }
                          (void)api;
                          return r;
                      };
                      auto Do = [&](IExecutionApi const& api, ArtifactDigest const& root, CF flag, std::string const& log, bool force) {
                          Seen r;
                          auto env = kPath;
                          env["LOG"] = log;
                          auto before = fs::exists(log) ? fs::file_size(log) : 0;
                          auto a = api.CreateAction(root, {"sh", "-c", "echo >> $LOG; " + x.sh}, x.cwd, x.outs, x.dirs, env, {}, force);
                          if (a == nullptr) {
                              return r;
                          }
                          a->SetCacheFlag(flag);
                          auto p = a->Execute(nullptr);
                          r.ran = fs::exists(log) and fs::file_size(log) > before;
                          if (p == nullptr) {
                              return r;
                          }
                          r.none = false;
                          r.cached = p->IsCached();
                          r.exit = p->ExitCode();
                          r.out = p->StdOut();
                          r.err = p->StdErr();
                          if (r.out.size() > 100) {
                              r.out = trees::Hex(trees::Raw(r.out, true));
                          }
                          auto arts = p->Artifacts();
                          if (not arts) {
                              r.arts = "none";
                          }
                          else {
                              std::map<std::string, std::string> m;
                              for (auto const& [n, o] : **arts) {
                                  m[n] = o.ToString();
                              }
                              for (auto const& [n, o] : m) {
                                  r.arts += n + "=" + o + " ";
                              }
                          }
                          auto up = p->HasUpwardsSymlinks();
                          r.up = up and *up;
                          return r;
                      };
                      auto rr = Root(*cl->apis.remote, srv.st);
                      auto lr = Root(*loc.apis.local, loc.st);
                      for (int k = 0, f = fl; k < 3; ++k, f /= 4) {
                          auto flag = flags[(size_t)f % 4];
                          auto got = Do(*cl->apis.remote, rr, flag, d.path + "/log1", false);
                          auto want = Do(*loc.apis.local, lr, flag, d.path + "/log2", legacy);
                          s.Outcome(want.none ? "none" : want.cached ? "cached" : want.exit != 0 ? "failed" : "run");
                          s.Nontrivial(want.cached);
                          if (not(got == want)) {
                              s.Fail("execution " + std::to_string(k) + ": " + got.Show() + "  instead of  " + want.Show(), x.name);
                          }
                      }
                  });
}

// -------------------------------------------------------- lost objects
// objects vanish from the server between two builds
void Lost() {
    auto const& xs = Examples();
    hn::Enumerate("lost", (long)xs.size() * 2,
                  "after a build by one client, each object of the server in turn is gone: a client that starts anew fails or "
                  "builds what it should; and so does the first client",
                  [&](long i, hn::Shard& s) {
                      bool native = i % 2 == 1;
                      auto const& x = xs[(size_t)i / 2];
                      if (not Usable(x, native)) {
                          return;
                      }
                      auto want = Expected(x, native);
                      Dir d;
                      Sources(d.path + "/src", x.big);
                      {
                          Server srv(d.path + "/server", native);
                          auto cl = Client(d.path + "/client", native, d.path + "/src");
                          (void)Run(*cl, x, d.path + "/out");
                      }
                      auto objects = Objects(MakeConfig(d.path + "/server", native));
                      for (std::size_t k = 0; k < objects.size(); ++k) {
                          for (bool fresh : {true, false}) {
                              auto rel = fs::path(objects[k]).lexically_relative(d.path + "/server").string();
                              if (not s.Case(x.name + (native ? " native " : " compatible ") + std::to_string(k) + (fresh ? " new client" : " same client"))) {
                                  continue;
                              }
                              Dir e;
                              fs::copy(d.path + "/server", e.path + "/server", fs::copy_options::recursive | fs::copy_options::copy_symlinks);
                              if (not fresh) {
                                  fs::copy(d.path + "/client", e.path + "/client", fs::copy_options::recursive | fs::copy_options::copy_symlinks);
                              }
                              fs::remove(e.path + "/server/" + rel);
                              Server srv(e.path + "/server", native);
                              auto cl = Client(e.path + "/client", native, d.path + "/src");
                              for (int round = 0; round < 2; ++round) {
                                  auto g = Run(*cl, x, e.path + "/out");
                                  s.Outcome(g.ok ? g.executed != 0 ? "built again" : "cached" : "failed");
                                  if (g.ok and not(g == want)) {
                                      s.Fail("without " + rel + " gives " + g.Show() + "  instead of  " + want.Show(), "lost");
                                  }
                                  s.Nontrivial(g.executed != 0 or not g.ok);
                              }
                          }
                      }
                  });
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    std::signal(SIGPIPE, SIG_DFL);
    GitContext::Create();
    LogConfig::SetLogLimit(std::getenv("VERIF_LOG") != nullptr ? LogLevel::Debug : LogLevel::Error);
    if (std::getenv("VERIF_LOG") == nullptr) {
        LogConfig::SetSinks({});
    }
    else {
        LogConfig::SetSinks({LogSinkCmdLine::CreateFactory(false)});
    }
    auto const* set = std::getenv("VERIF_SET");
    if (set == nullptr or std::string{set} == "builds") {
        Builds();
        BuildFaults();
        Wrong();
        Lost();
        Actions();
    }
    if (set == nullptr or std::string{set} == "transfer") {
        Transfer();
        Corrupt();
        Direct_();
    }
    return hn::Finish();
}
