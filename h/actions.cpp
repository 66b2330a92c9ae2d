// C25: outcome of actions run locally, through the execution API
#include "h/build.hpp"

using namespace bl;
using trees::D;
using trees::F;
using trees::L;
using trees::X;
using CF = IExecutionAction::CacheFlag;

namespace {
struct Env {
    std::string base;
    std::unique_ptr<Site> site[2];
    long n = 0;
};
Env& E() {
    static Env e;
    static pid_t who = 0;
    if (who != getpid()) {
        who = getpid();
        e.site[0].release();
        e.site[1].release();
        e.base = trees::Dir(hn::ctx().scratch, "act");
        fs::create_directories(e.base);
        for (int i = 0; i < 2; ++i) {
            e.site[i] = std::make_unique<Site>(e.base + "/s" + std::to_string(i), i == 1, "");
        }
    }
    return e;
}

struct Decl {
    std::string path;
    bool dir;
};

bool Valid(Node const& n, bool native) {
    if (n.k == 'l') {
        return not native or trees::NonUpwards(n.data);
    }
    if (n.k == 'd') {
        for (auto const& [name, c] : n.ch) {
            if (not Valid(c, native)) {
                return false;
            }
        }
        return true;
    }
    return n.k == 'f' or n.k == 'x';
}
bool HasUp(Node const& n) {
    if (n.k == 'l') {
        return not trees::NonUpwards(n.data);
    }
    for (auto const& [name, c] : n.ch) {
        if (HasUp(c)) {
            return true;
        }
    }
    return false;
}
// outputs are declared as paths, be they files or directories
bool g_paths = false;
bool Fits(Node const& n, bool dir, bool native) {
    return Valid(n, native) and (g_paths or n.k == 'l' or (n.k == 'd') == dir);
}

struct Act {
    std::vector<std::pair<Decl, Node>> outs;
    std::string cwd;
    int exit = 0;  // negative: signal
    std::string out, err;
};
std::string Show(Act const& a, bool native) {
    std::string r = native ? "native" : "compatible";
    for (auto const& [d, n] : a.outs) {
        r += " " + std::string(d.dir ? "dir " : "file ") + d.path + "=" + n.Show();
    }
    return r + " cwd=" + a.cwd + " exit=" + std::to_string(a.exit);
}

void CheckArtifacts(hn::Shard& s, Act const& a, bool native, IExecutionResponse& resp, Site& site,
                    std::string const& what, bool& complete) {
    auto arts = resp.Artifacts();
    if (not arts) {
        s.Fail(what + ": no artifacts: " + arts.error(), "artifacts");
        return;
    }
    bool all = true;
    for (auto const& [d, n] : a.outs) {
        all = all and Fits(n, d.dir, native);
    }
    std::size_t found = 0;
    auto& e = E();
    for (auto const& [d, n] : a.outs) {
        auto it = (*arts)->find(d.path);
        if (it == (*arts)->end()) {
            if (all) {
                s.Fail(what + ": output " + d.path + " not reported", "missing");
            }
            continue;
        }
        ++found;
        if (not Fits(n, d.dir, native)) {
            s.Fail(what + ": reported an output that is none at " + d.path, "invalid");
            continue;
        }
        if (auto w = Wrong(it->second, n, native); not w.empty()) {
            s.Fail(what + ": " + d.path + " has " + w, "digest");
            continue;
        }
        if (it->second.failed) {
            s.Fail(what + ": marked as failed", "failed");
        }
        // and it can be obtained
        auto at = e.base + "/o" + std::to_string(e.n++);
        bool got = site.apis.local->RetrieveToPaths({it->second}, {at}, nullptr);
        auto have = got ? trees::Look(at) : Node{'-', "", {}};
        if (have.k == '-' and n.k == 'd') {
            have = D();
        }
        if (not got or not(have == Strip(n))) {
            s.Fail(what + ": installing " + d.path + " gives " + have.Show() + " instead of " + n.Show(), "content");
        }
        fs::remove_all(at);
        s.Nontrivial();
    }
    if (found != (*arts)->size()) {
        s.Fail(what + ": reported more than the outputs", "more");
    }
    bool up = false;
    for (auto const& [d, n] : a.outs) {
        up = up or HasUp(n);
    }
    if (all and not native) {
        auto u = resp.HasUpwardsSymlinks();
        if (not u or *u != up) {
            s.Fail(what + ": upwards links " + (u ? "wrongly reported" : "not determined: " + u.error()), "upwards");
        }
    }
    complete = all;
}

// the action under all cache flags, several times
void RunAct(hn::Shard& s, Act const& a, bool native, std::vector<CF> const& flags) {
    auto& e = E();
    auto& site = *e.site[native ? 1 : 0];
    auto log = e.base + "/log";
    auto mark = std::to_string(e.n++);
    { std::ofstream out(log, std::ios::trunc); }
    std::string script = "echo x >> " + Quote(log) + "\n: " + mark + "\n";
    std::vector<std::string> files, dirs;
    for (auto const& [d, n] : a.outs) {
        (d.dir ? dirs : files).push_back(d.path);
        script += Make(n, d.path);
    }
    script += "printf %s " + Quote(a.out) + "\nprintf %s " + Quote(a.err) + " >&2\n";
    script += a.exit < 0 ? "kill -" + std::to_string(-a.exit) + " $$\n" : "exit " + std::to_string(a.exit) + "\n";
    auto root = site.apis.local->UploadTree({});
    if (not root) {
        s.Fail("cannot upload the empty tree", "upload");
        return;
    }
    int runs = 0;
    bool stored = false;
    std::string id_cached, id_not;
    bool all = true;
    for (auto const& [d, n] : a.outs) {
        all = all and Fits(n, d.dir, native);
    }
    std::string hist;
    for (auto f : flags) {
        hist += f == CF::CacheOutput ? 'c' : f == CF::DoNotCacheOutput ? 'n' : f == CF::FromCacheOnly ? 'o' : 'p';
        std::vector<std::string> all_paths = files;
        all_paths.insert(all_paths.end(), dirs.begin(), dirs.end());
        auto const& local = dynamic_cast<LocalApi const&>(*site.apis.local);
        std::vector<std::string> const cmd{"sh", "-c", script};
        std::map<std::string, std::string> const env{{"PATH", "/usr/bin:/bin"}};
        std::map<std::string, std::string> const none;
        auto act = g_paths ? local.CreateAction(*root, cmd, a.cwd, all_paths, env, none)
                           : local.CreateAction(*root, cmd, a.cwd, files, dirs, env, none, false);
        act->SetCacheFlag(f);
        auto resp = act->Execute(nullptr);
        bool hit = stored and (f == CF::CacheOutput or f == CF::FromCacheOnly);
        bool run = not hit and f != CF::FromCacheOnly;
        runs += run ? 1 : 0;
        auto have = (int)fs::file_size(log) / 2;
        if (have != runs) {
            s.Fail("after " + hist + ": run " + std::to_string(have) + " times instead of " + std::to_string(runs), "runs");
            runs = have;
        }
        if (not hit and not run) {
            if (resp) {
                s.Fail("after " + hist + ": answered from the cache without an entry", "cache-only");
            }
            continue;
        }
        if (not resp) {
            s.Fail("after " + hist + ": no response", "response");
            continue;
        }
        if (resp->ExitCode() != (a.exit < 0 ? 128 - a.exit : a.exit)) {
            s.Fail("after " + hist + ": exit code " + std::to_string(resp->ExitCode()), "exit");
        }
        if (resp->IsCached() != (hit or f == CF::PretendCached)) {
            s.Fail("after " + hist + ": cached " + (resp->IsCached() ? "true" : "false"), "cached");
        }
        if (resp->StdOut() != a.out or resp->StdErr() != a.err or resp->HasStdOut() == a.out.empty() or
            resp->HasStdErr() == a.err.empty()) {
            s.Fail("after " + hist + ": stdout or stderr", "stdout");
        }
        auto od = resp->StdOutDigest();
        auto ed = resp->StdErrDigest();
        if (not od or not ed or not Wrong({*od, ObjectType::File}, F(a.out), native).empty() or
            not Wrong({*ed, ObjectType::File}, F(a.err), native).empty()) {
            s.Fail("after " + hist + ": digest of stdout or stderr", "stdout");
        }
        auto& id = f == CF::DoNotCacheOutput ? id_not : id_cached;
        if (id.empty()) {
            id = resp->ActionDigest();
        }
        if (id != resp->ActionDigest() or id_not == id_cached) {
            s.Fail("after " + hist + ": action digest", "id");
        }
        bool complete = false;
        CheckArtifacts(s, a, native, *resp, site, "after " + hist, complete);
        if (f == CF::CacheOutput and run and a.exit == 0 and all) {
            stored = true;
        }
    }
    // nothing is left behind
    std::error_code ec;
    for (auto const& d : fs::directory_iterator(site.sc.ExecutionRoot(), ec)) {
        s.Fail("execution directory left: " + d.path().string(), "left");
        fs::remove_all(d.path());
        break;
    }
}

std::vector<Node> Kinds() {
    return {Node{'-', "", {}},
            F(""),
            F("c"),
            X("c"),
            X(""),
            L("ok"),
            L("a/../b"),
            L("./x"),
            L(".."),
            L("../x"),
            L("a/../../b"),
            L("/abs"),
            Node{'p', "", {}},
            D(),
            D({{"f", F("1")}}),
            D({{"e", D()}}),
            D({{"f", F("1")}, {"x", X("1")}, {"l", L("f")}, {"d", D({{"f", X("2")}, {"l", L("f")}})}}),
            D({{"l", L("..")}}),
            D({{"d", D({{"l", L("../f")}})}, {"f", F("1")}}),
            D({{"d", D({{"l", L("/")}})}}),
            D({{"d", D({{"p", Node{'p', "", {}}}})}, {"f", F("1")}}),
            D({{"a.b", F("1")}, {"a", D({{"z", F("1")}})}, {"a-b", F("1")}, {"ab", X("1")}})};
}

void Outputs() {
    auto ks = Kinds();
    struct Place {
        std::string path, cwd;
    };
    std::vector<Place> places{{"o", ""}, {"d/e/o", ""}, {"o", "w/v"}, {"../o", "w"}, {"d/o", "w"}};
    std::vector<int> exits{0, 1, 255, -9};
    std::vector<std::vector<CF>> flags{
        {CF::FromCacheOnly, CF::CacheOutput, CF::CacheOutput, CF::FromCacheOnly, CF::DoNotCacheOutput, CF::PretendCached},
        {CF::DoNotCacheOutput, CF::FromCacheOnly, CF::DoNotCacheOutput, CF::CacheOutput, CF::CacheOutput},
        {CF::PretendCached, CF::FromCacheOnly, CF::PretendCached, CF::CacheOutput, CF::FromCacheOnly}};
    for (int pm = 0; pm < 2; ++pm)
    hn::Enumerate(pm == 0 ? "outputs" : "output paths", (long)ks.size() * 2 * 2,
                  "22 kinds of things an action may leave, declared as file or directory (or as path), in five places, four exit "
                  "codes, both hash types; three sequences of all the cache flags",
                  [&](long i, hn::Shard& s) {
                      auto const& n = ks[(size_t)(i / 4)];
                      bool dir = i % 2 == 1;
                      bool native = (i / 2) % 2 == 1;
                      g_paths = pm == 1;
                      if (g_paths and dir) {
                          return;
                      }
                      for (auto const& p : places) {
                          for (int x : exits) {
                              for (size_t f = 0; f < flags.size(); ++f) {
                                  if (not hn::ctx().thorough and f > 0 and (&p != places.data() or (x != 0 and x != 1))) {
                                      continue;
                                  }
                                  Node m = n.k == '-' and dir ? D() : n;  // the directory is created
                                  Act a{{{{p.path, dir}, m}}, p.cwd, x, "out", x == 0 ? "" : "err\n"};
                                  if (s.Case(Show(a, native) + " flags " + std::to_string(f))) {
                                      RunAct(s, a, native, flags[f]);
                                  }
                              }
                          }
                      }
                  });
}

void Several() {
    std::vector<Node> ks{Node{'-', "", {}}, F("c"), X("c"), L("ok"), L("../x"), D({{"f", F("c")}}), D({{"l", L("..")}})};
    std::vector<std::pair<std::vector<Decl>, std::string>> decls{
        {{{"a", false}, {"b", false}}, ""},      {{{"b", false}, {"a", false}}, ""},
        {{{"a", false}, {"b", true}}, ""},       {{{"a", true}, {"b", false}}, ""},
        {{{"a", true}, {"b", true}}, ""},        {{{"d/a", false}, {"d/b", false}}, "w"},
        {{{"d/a", false}, {"d/b", true}}, "w"},  {{{"../a", false}, {"a", true}}, "w"}};
    long n = (long)ks.size();
    hn::Enumerate("several outputs", n * n * 2,
                  "two outputs, each one of 7 kinds, declared in 8 ways, exit code 0 and 1, both hash types",
                  [&](long i, hn::Shard& s) {
                      bool native = i % 2 == 1;
                      g_paths = false;
                      auto const& n1 = ks[(size_t)((i / 2) % n)];
                      auto const& n2 = ks[(size_t)(i / 2 / n)];
                      for (auto const& [d, cwd] : decls) {
                          for (int x = 0; x < 2; ++x) {
                              Act a{{}, cwd, x, "", "e"};
                              a.outs.push_back({d[0], n1.k == '-' and d[0].dir ? D() : n1});
                              a.outs.push_back({d[1], n2.k == '-' and d[1].dir ? D() : n2});
                              if (s.Case(Show(a, native))) {
                                  RunAct(s, a, native, {CF::CacheOutput, CF::CacheOutput, CF::FromCacheOnly});
                              }
                          }
                      }
                  });
}

// command line, environment, exit code, standard output
void Commands() {
    struct C {
        std::vector<std::string> cmd;
        std::map<std::string, std::string> env;
        std::string out, err;
        int exit;
    };
    std::vector<C> cs;
    std::vector<std::string> vals{"", "a b", "'", "\"", "\\", "$X", "*", "a\nb", "ä", "-n", "--", "=", "a=b", ";", "`x`", "#", " ", "~", std::string(3000, 'l')};
    for (auto const& v : vals) {
        cs.push_back({{"/usr/bin/printf", "%s|", v, "x", v}, {}, v + "|x|" + v + "|", "", 0});
        cs.push_back({{"/usr/bin/env", "-0"}, {{"V", v}, {"A", "1"}}, "A=1" + std::string(1, '\0') + "V=" + v + std::string(1, '\0'), "", 0});
        cs.push_back({{"sh", "-c", "printf %s \"$0\" >&2", v}, {{"PATH", "/bin"}}, "", v, 0});
    }
    cs.push_back({{"/usr/bin/env"}, {}, "", "", 0});
    for (int x = 0; x < 256; ++x) {
        cs.push_back({{"sh", "-c", "exit " + std::to_string(x)}, {{"PATH", "/bin"}}, "", "", x});
    }
    for (int sig : {1, 2, 3, 6, 9, 11, 13, 14, 15}) {
        cs.push_back({{"sh", "-c", "ulimit -c 0; kill -" + std::to_string(sig) + " $$"}, {{"PATH", "/bin"}}, "", "", 128 + sig});
    }
    for (int n : {1, 4095, 4096, 4097, 65536, 200000}) {
        cs.push_back({{"sh", "-c", "head -c " + std::to_string(n) + " /dev/zero | tr '\\000' x"}, {{"PATH", "/usr/bin:/bin"}}, std::string((size_t)n, 'x'), "", 0});
        cs.push_back({{"sh", "-c", "head -c " + std::to_string(n) + " /dev/zero >&2"}, {{"PATH", "/usr/bin:/bin"}}, "", std::string((size_t)n, '\0'), 0});
    }
    cs.push_back({{"sh", "-c", "cat; echo end"}, {{"PATH", "/usr/bin:/bin"}}, "end\n", "", 0});
    cs.push_back({{"/nonexistent/tool"}, {}, "", "*", 127});
    cs.push_back({{"/"}, {}, "", "*", 126});
    hn::Enumerate("commands", (long)cs.size() * 2,
                  "20 values as arguments, environment values and output, exact environment, all exit codes, signals, "
                  "output sizes, empty standard input, missing tools; both hash types, run and from cache",
                  [&](long i, hn::Shard& s) {
                      auto const& c = cs[(size_t)(i / 2)];
                      bool native = i % 2 == 1;
                      auto& e = E();
                      auto& site = *e.site[native ? 1 : 0];
                      if (not s.Case(Json(c.cmd).dump(-1, ' ', false, Json::error_handler_t::replace).substr(0, 200) + (c.env.count("V") != 0 ? Json(c.env.at("V")).dump(-1, ' ', false, Json::error_handler_t::replace).substr(0, 60) : "") +
                                      (native ? " native" : " compatible"))) {
                          return;
                      }
                      auto root = site.apis.local->UploadTree({});
                      for (int round = 0; round < 2; ++round) {
                          auto act = site.apis.local->CreateAction(*root, c.cmd, "", {}, {"d"}, c.env, {}, false);
                          act->SetCacheFlag(CF::CacheOutput);
                          auto r = act->Execute(nullptr);
                          if (not r) {
                              s.Fail("no response", "response");
                              return;
                          }
                          s.Check(r->ExitCode() == c.exit, "exit code " + std::to_string(r->ExitCode()), "exit");
                          s.Check(r->StdOut() == c.out, "stdout " + r->StdOut().substr(0, 100), "stdout");
                          s.Check(c.err == "*" or r->StdErr() == c.err, "stderr " + r->StdErr().substr(0, 100), "stderr");
                          s.Check(r->IsCached() == (round == 1 and c.exit == 0), "cached", "cached");
                          s.Nontrivial();
                      }
                  });
}

// everything that makes an action another one
void Identity() {
    struct V {
        Node in = D();
        std::string out = "o";
        bool dir = false;
        std::string extra_out;
        std::string cwd;
        std::map<std::string, std::string> env{{"PATH", "/bin"}}, props;
        std::vector<std::string> arg{"sh", "-c", "", "x", "y"};
        std::chrono::milliseconds timeout = IExecutionAction::kDefaultTimeout;
    };
    std::vector<V> vs(1);
    auto add = [&](auto f) {
        V v;
        f(v);
        vs.push_back(v);
    };
    add([](V& v) { v.in = D({{"a", F("1")}}); });
    add([](V& v) { v.in = D({{"a", F("2")}}); });
    add([](V& v) { v.in = D({{"a", X("1")}}); });
    add([](V& v) { v.in = D({{"a", L("1")}}); });
    add([](V& v) { v.in = D({{"b", F("1")}}); });
    add([](V& v) { v.in = D({{"a", D({{"a", F("1")}})}}); });
    add([](V& v) { v.in = D({{"a", D()}}); });
    add([](V& v) { v.out = "p"; });
    add([](V& v) { v.dir = true; });
    add([](V& v) { v.extra_out = "p"; });
    add([](V& v) { v.cwd = "w"; });
    add([](V& v) { v.env["V"] = ""; });
    add([](V& v) { v.env["V"] = "1"; });
    add([](V& v) { v.env["W"] = "1"; });
    add([](V& v) { v.env["V"] = "1\nW=1"; });
    add([](V& v) { v.env["V"] = "1", v.env["W"] = "1"; });
    add([](V& v) { v.props["V"] = "1"; });
    add([](V& v) { v.props["V"] = "2"; });
    add([](V& v) { v.arg = {"sh", "-c", "", "x y"}; });
    add([](V& v) { v.arg = {"sh", "-c", "", "xy"}; });
    add([](V& v) { v.arg = {"sh", "-c", "", "x", "", "y"}; });
    add([](V& v) { v.arg = {"sh", "-c", "", "y", "x"}; });
    add([](V& v) { v.arg = {"sh", "-c", "", "x", "y", ""}; });
    long n = (long)vs.size();
    hn::Enumerate("identity", n * n * 2,
                  "all pairs of 23 actions that differ in inputs, outputs, working directory, environment, properties "
                  "or arguments: the second is not answered from the entry of the first, the same one is",
                  [&](long i, hn::Shard& s) {
                      bool native = i % 2 == 1;
                      long x = (i / 2) % n, y = i / 2 / n;
                      if (not s.Case(std::to_string(x) + " then " + std::to_string(y) + (native ? " native" : " compatible"))) {
                          return;
                      }
                      auto& e = E();
                      auto& site = *e.site[native ? 1 : 0];
                      auto mark = std::to_string(e.n++);
                      std::string id[2];
                      bool cached[2];
                      for (int k = 0; k < 2; ++k) {
                          auto v = vs[(size_t)(k == 0 ? x : y)];
                          v.arg[2] = ": " + mark + "\n" + "[ -e o ] || echo > o\n[ -e p ] || echo > p\n";
                          auto dg = Digest(v.in, native);
                          std::function<void(Node const&)> put = [&](Node const& m) {
                              for (auto const& [nm, c] : m.ch) {
                                  put(c);
                              }
                              if (m.k == 'd') {
                                  std::string data = native ? trees::TreeData(m) : "";
                                  if (native) {
                                      (void)site.st.CAS().StoreTree(data);
                                  }
                                  else {
                                      bazel_re::Directory d;
                                      for (auto const& [nm, c] : m.ch) {
                                          auto [h, sz] = Digest(c, false);
                                          if (c.k == 'l') {
                                              auto* q = d.add_symlinks();
                                              q->set_name(nm);
                                              q->set_target(c.data);
                                          }
                                          else if (c.k == 'd') {
                                              auto* q = d.add_directories();
                                              q->set_name(nm);
                                              q->mutable_digest()->set_hash(h);
                                              q->mutable_digest()->set_size_bytes((long)sz);
                                          }
                                          else {
                                              auto* q = d.add_files();
                                              q->set_name(nm);
                                              q->mutable_digest()->set_hash(h);
                                              q->mutable_digest()->set_size_bytes((long)sz);
                                              q->set_is_executable(c.k == 'x');
                                          }
                                      }
                                      (void)site.st.CAS().StoreTree(d.SerializeAsString());
                                  }
                              }
                              else {
                                  (void)site.st.CAS().StoreBlob(m.data, m.k == 'x');
                              }
                          };
                          put(v.in);
                          auto root = ArtifactDigestFactory::Create(site.sc.hash_function.GetType(), dg.first, dg.second, true);
                          std::vector<std::string> files, dirs;
                          (v.dir ? dirs : files).push_back(v.out);
                          if (not v.extra_out.empty()) {
                              files.push_back(v.extra_out);
                          }
                          auto act = site.apis.local->CreateAction(*root, v.arg, v.cwd, files, dirs, v.env, v.props, false);
                          act->SetCacheFlag(CF::CacheOutput);
                          auto r = act->Execute(nullptr);
                          if (not r) {
                              s.Fail("no response", "response");
                              return;
                          }
                          id[k] = r->ActionDigest();
                          cached[k] = r->IsCached();
                      }
                      s.Check(not cached[0], "first one from cache", "first");
                      s.Check((id[0] == id[1]) == (x == y), "action digests " + id[0] + " " + id[1], "id");
                      s.Check(cached[1] == (x == y), x == y ? "same action not from cache" : "answered by the entry of another action", "cached");
                      s.Nontrivial();
                  });
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    LogConfig::SetSinks({});
    signal(SIGPIPE, SIG_DFL);  // inherited by the actions
    GitContext::Create();
    Outputs();
    Several();
    Commands();
    Identity();
    return hn::Finish();
}
