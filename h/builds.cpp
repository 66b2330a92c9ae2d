// C26: builds of action graphs with the real graph traverser, executor, local
// execution and caches, on the real file system
#include "h/build.hpp"

using namespace bl;
using trees::D;
using trees::F;
using trees::L;
using trees::X;

namespace {
struct Env {
    std::string base;
    long n = 0;
};
Env& E() {
    static Env e;
    static pid_t who = 0;
    if (who != getpid()) {
        who = getpid();
        e.base = trees::Dir(hn::ctx().scratch, "bld");
        fs::create_directories(e.base);
    }
    return e;
}
std::map<std::string, std::string> const kEnv{{"PATH", "/usr/bin:/bin"}};

Json Action(std::vector<std::string> const& outs, std::vector<std::string> const& dirs, std::string const& script,
            std::map<std::string, Json> const& in, std::string const& cwd = "") {
    Json j;
    j["output"] = outs;
    j["output_dirs"] = dirs;
    j["command"] = {"sh", "-c", script};
    j["env"] = kEnv;
    j["input"] = in;
    if (not cwd.empty()) {
        j["cwd"] = cwd;
    }
    return j;
}

// adds an artifact at a path; false on conflict
bool Insert(Node& root, std::string const& path, Node const& what, std::map<std::string, bool>& closed) {
    Node* cur = &root;
    std::string at;
    size_t i = 0;
    for (;;) {
        auto j = path.find('/', i);
        auto seg = path.substr(i, j == std::string::npos ? j : j - i);
        at += (at.empty() ? "" : "/") + seg;
        if (j == std::string::npos) {
            if (cur->ch.count(seg) != 0) {
                return false;
            }
            cur->ch[seg] = what;
            closed[at] = true;
            return true;
        }
        if (closed.count(at) != 0) {
            return false;
        }
        if (cur->ch.count(seg) == 0) {
            cur->ch[seg] = D();
        }
        cur = &cur->ch[seg];
        i = j + 1;
    }
}
// what find reports
void List(Node const& n, std::string const& at, std::vector<std::string>& out) {
    for (auto const& [name, c] : n.ch) {
        auto p = at.empty() ? name : at + "/" + name;
        switch (c.k) {
            case 'd':
                out.push_back("d " + p);
                List(c, p, out);
                break;
            case 'l':
                out.push_back("l " + p + " " + c.data);
                break;
            default:
                out.push_back(std::string(1, c.k) + " " + p + "=" + c.data);
        }
    }
}
std::string const kFind =
    "find . -mindepth 1 \\( -type d -printf 'd %P\\n' \\) -o \\( -type l -printf 'l %P %l\\n' \\) -o "
    "\\( -type f -perm /111 -printf 'x %P=' -exec cat {} \\; -printf '\\n' \\) -o "
    "\\( -type f -printf 'f %P=' -exec cat {} \\; -printf '\\n' \\)";

// the directory an action is run in
void Staging() {
    // artifacts, with the value each of them has
    struct A {
        Json j;
        Node n;
    };
    Node t0 = D(), t1 = D({{"p", F("F")}}), t2 = D({{"p", D({{"q", X("X")}})}, {"r", L("f")}}), t3 = D({{"n", t2}, {"e", t0}});
    std::vector<A> as{{Local("f"), F("F")}, {Local("x"), X("X")}, {Local("l"), L("f")}, {TreeOf("t0"), t0},
                      {TreeOf("t1"), t1},   {TreeOf("t2"), t2},   {TreeOf("t3"), t3}};
    std::vector<std::string> paths{"a", "a/b", "a/b/c", "b"};
    struct Set {
        std::map<std::string, int> in;
    };
    std::vector<Set> sets{{}};
    for (int i = -1; i < 7; ++i) {
        for (int j = -1; j < 7; ++j) {
            for (int k = -1; k < 7; ++k) {
                for (int l = -1; l < 7; ++l) {
                    int ix[] = {i, j, k, l};
                    Set s;
                    for (int q = 0; q < 4; ++q) {
                        if (ix[q] >= 0) {
                            s.in[paths[(size_t)q]] = ix[q];
                        }
                    }
                    if (not s.in.empty() and s.in.size() <= (hn::ctx().thorough ? 4U : 2U)) {
                        sets.push_back(s);
                    }
                    if (s.in.size() == 3 and not hn::ctx().thorough and i >= 0 and l >= 0 and (i + l) % 2 == 0 and j > 3) {
                        sets.push_back(s);
                    }
                }
            }
        }
    }
    for (int i = 3; i < 7; ++i) {
        sets.push_back(Set{{{".", i}}});
        sets.push_back(Set{{{"", i}}});
    }
    struct O {
        std::string out, dir, cwd, up;
    };
    std::vector<O> os{{"o", "", "", ""}, {"z/o", "", "", ""}, {"a/o", "a/d", "", ""}, {"w/v/o", "", "w/v", "../../"}, {"o", "w/d", "w", "../"}, {"a/o", "", "a", "../"}};
    hn::Enumerate("staging", (long)sets.size() * 2,
                  "all sets of up to 2 (thorough: 4) inputs at 4 paths out of a file, an executable, a link and 4 "
                  "trees, and trees as the whole input, with 6 ways to declare outputs and working directory, both "
                  "hash types: the action sees exactly these, and conflicting inputs are rejected",
                  [&](long i, hn::Shard& s) {
                      auto& e = E();
                      bool native = i % 2 == 1;
                      auto const& set = sets[(size_t)(i / 2)];
                      static std::unique_ptr<Site> site[2];
                      static pid_t who = 0;
                      auto src = e.base + "/src";
                      if (who != getpid()) {
                          who = getpid();
                          trees::Write(D({{"f", F("F")}, {"x", X("X")}, {"l", L("f")}}), src);
                          for (int k = 0; k < 2; ++k) {
                              site[k].release();
                              site[k] = std::make_unique<Site>(e.base + "/st" + std::to_string(k), k == 1, src);
                          }
                      }
                      for (size_t oi = 0; oi < os.size(); ++oi) {
                          auto const& o = os[oi];
                          std::string desc = native ? "native" : "compatible";
                          for (auto const& [p, a] : set.in) {
                              desc += " " + p + "=" + as[(size_t)a].n.Show();
                          }
                          if (not s.Case(desc + " variant " + std::to_string(oi))) {
                              continue;
                          }
                          Graph g;
                          g.trees["t0"] = Json::object();
                          g.trees["t1"] = Json{{"p", Local("f")}};
                          g.trees["t2"] = Json{{"p/q", Local("x")}, {"r", Local("l")}};
                          g.trees["t3"] = Json{{"n", TreeOf("t2")}, {"e", TreeOf("t0")}};
                          std::map<std::string, Json> in;
                          Node root = D();
                          std::map<std::string, bool> closed;
                          bool fine = true;
                          for (auto const& [p, a] : set.in) {
                              in[p] = as[(size_t)a].j;
                          }
                          if (set.in.size() == 1 and (set.in.begin()->first == "." or set.in.begin()->first.empty())) {
                              root = as[(size_t)set.in.begin()->second].n;
                          }
                          else {
                              for (auto const& [p, a] : set.in) {
                                  fine = fine and Insert(root, p, as[(size_t)a].n, closed);
                              }
                          }
                          // the tree of the inputs itself, as artifact
                          Node inputs = root;
                          // directories of outputs
                          auto dirs = [&](std::string const& p) {
                              Node* cur = &root;
                              size_t b = 0;
                              while (b < p.size()) {
                                  auto j = p.find('/', b);
                                  auto seg = p.substr(b, j == std::string::npos ? j : j - b);
                                  if (cur->ch.count(seg) == 0) {
                                      cur->ch[seg] = D();
                                  }
                                  cur = &cur->ch[seg];
                                  if (cur->k != 'd') {
                                      return false;
                                  }
                                  b = j == std::string::npos ? p.size() : j + 1;
                              }
                              return true;
                          };
                          bool runs = fine;
                          auto parent = [](std::string const& p) {
                              return p.find('/') == std::string::npos ? std::string() : p.substr(0, p.rfind('/'));
                          };
                          if (fine) {
                              runs = dirs(o.cwd) and dirs(parent(o.out)) and dirs(o.dir);
                          }
                          std::string out_rel = o.cwd.empty() ? o.out
                                                : o.out.rfind(o.cwd + "/", 0) == 0 ? o.out.substr(o.cwd.size() + 1)
                                                                                    : o.up + o.out;
                          auto mark = std::to_string(e.n++);
                          g.actions["a"] = Action({o.out}, o.dir.empty() ? std::vector<std::string>{} : std::vector<std::string>{o.dir},
                                                  ": " + mark + "\nx=\"$(" + (o.up.empty() ? "" : "cd " + o.up + " && ") + kFind + ")\"\nprintf '%s' \"$x\" > " + out_rel,
                                                  in, o.cwd);
                          auto stage = e.base + "/out" + std::to_string(e.n++);
                          auto& st = *site[native ? 1 : 0];
                          auto r = Build(st, g, {{"o", Out("a", o.out)}}, stage);
                          if (r.ok != runs) {
                              s.Fail(r.ok ? "built, though inputs are in conflict" : "build failed", "ok");
                          }
                          else if (runs) {
                              std::vector<std::string> want;
                              List(root, "", want);
                              std::sort(want.begin(), want.end());
                              std::vector<std::string> have;
                              auto got = trees::Look(stage);
                              std::istringstream is(got.ch.count("o") != 0 ? got.ch["o"].data : "");
                              std::string line;
                              while (std::getline(is, line)) {
                                  have.push_back(line);
                              }
                              std::sort(have.begin(), have.end());
                              if (have != want) {
                                  s.Fail("action saw " + Json(have).dump() + " instead of " + Json(want).dump(), "see");
                              }
                              s.Nontrivial();
                          }
                          fs::remove_all(stage);
                          // the same as a tree
                          if (oi == 0 and not(set.in.size() == 1 and set.in.begin()->first.size() < 2 and set.in.begin()->first != "a" and set.in.begin()->first != "b")) {
                              g.actions.clear();
                              g.trees["in"] = in;
                              if (set.in.empty()) {
                                  g.trees["in"] = Json::object();
                              }
                              auto rt = Build(st, g, {{"t", TreeOf("in")}}, stage);
                              if (rt.ok != fine) {
                                  s.Fail(rt.ok ? "tree built, though entries are in conflict" : "no tree", "tree");
                              }
                              else if (fine) {
                                  if (auto w = Wrong(rt.infos.at("t"), inputs, native); not w.empty()) {
                                      s.Fail("tree: " + w, "tree");
                                  }
                                  auto got = trees::Look(stage + "/t");
                                  if (not((got.k == '-' ? D() : got) == Strip(inputs))) {
                                      s.Fail("tree installed as " + got.Show(), "tree");
                                  }
                              }
                              fs::remove_all(stage);
                          }
                      }
                  });
}

// --- histories of builds ---------------------------------------------------
struct State {
    int s1 = 0, s2 = 0;
    bool x = false;
};
struct World {
    bool native = true;
    bool git = false;
    std::string dir;
    std::unique_ptr<Site> site;
    State st;
    // model of the action cache: key -> age
    std::map<std::string, int> cache;
    [[nodiscard]] std::string Log() const { return dir + "/log"; }
    void Sources() const {
        auto w = [&](char const* n, int v, bool x) {
            auto p = dir + "/src/" + n;
            fs::remove(p);
            trees::Write(x ? X(std::to_string(v)) : F(std::to_string(v)), p);
        };
        w("s1", st.s1, false);
        w("s2", st.s2, st.x);
    }
    void Open() { site = std::make_unique<Site>(dir + "/store", native, dir + "/src"); }
};

Graph TheGraph(World const& w, bool fatal) {
    auto log = [&](char const* n) { return "echo " + std::string(n) + " >> " + w.Log() + "\n"; };
    Graph g;
    g.actions["A"] = Action({"o"}, {}, log("A") + "cat i > o", {{"i", Local("s1")}});
    g.actions["B"] = Action({"k/o"}, {"d"},
                            log("B") + "cat i/a j > k/o; mkdir -p d/e; if [ -x j ]; then cat j > d/e/x; chmod +x d/e/x; fi; cp j d/c; ln -s c d/l",
                            {{"i/a", Out("A", "o")}, {"j", Local("s2")}});
    g.actions["C"] = Action({"o"}, {}, log("C") + "cat a > o", {{"a", Out("A", "o")}});
    g.actions["C"]["no_cache"] = true;
    g.actions["F"] = Action({"o"}, {}, log("F") + "cat j > o\nexit $(cat j)", {{"j", Local("s2")}});
    if (not fatal) {
        g.actions["F"]["may_fail"] = "may fail";
    }
    g.trees["T"] = Json{{"x/a", Out("A", "o")}, {"y", Out("F", "o")}};
    g.trees["U"] = Json{{"c", Out("A", "o")}, {"z", Local("s2")}};
    g.overlays["O"] = Json::object();
    g.overlays["O"] = Json{{"trees", {Out("B", "d"), TreeOf("U")}}, {"disjoint", false}};
    g.actions["G"] = Action({"o"}, {}, log("G") + "find t d -type f | sort > o", {{"t", TreeOf("T")}, {"d", Out("B", "d")}, {"v", OverlayOf("O")}});
    return g;
}
// what they have to be
std::map<std::string, Node> Values(State const& st) {
    auto a = std::to_string(st.s1), j = std::to_string(st.s2);
    Node jn = st.x ? X(j) : F(j);
    std::map<std::string, Node> r;
    r["A"] = F(a);
    r["B"] = F(a + j);
    Node d = D({{"c", jn}, {"e", D()}, {"l", L("c")}});
    if (st.x) {
        d.ch["e"].ch["x"] = X(j);
    }
    r["d"] = d;
    r["C"] = F(a);
    r["F"] = F(j);
    r["T"] = D({{"x", D({{"a", F(a)}})}, {"y", F(j)}});
    r["U"] = D({{"c", F(a)}, {"z", jn}});
    Node o = d;
    o.ch["c"] = F(a);
    o.ch["z"] = jn;
    r["O"] = o;
    r["G"] = F(std::string("d/c\n") + (st.x ? "d/e/x\n" : "") + "t/x/a\nt/y\n");
    return r;
}

// runs one build and judges it
void Judge(hn::Shard& s, World& w, int what, std::string const& hist) {
    bool fatal = what == 2;
    auto g = TheGraph(w, fatal);
    std::map<std::string, Json> want;
    std::vector<std::string> order;  // actions needed
    if (what == 1) {
        want = {{"b", Out("B", "k/o")}, {"in/a", Out("A", "o")}};
        order = {"A", "B"};
    }
    else if (what == 3) {
        want = {{"u", TreeOf("U")}, {"s", Local("s2")}};
        order = {"A"};
    }
    else {
        want = {{"a", Out("A", "o")}, {"b", Out("B", "k/o")}, {"d", Out("B", "d")}, {"c", Out("C", "o")}, {"f", Out("F", "o")},
                {"t", TreeOf("T")},   {"o", OverlayOf("O")},  {"g", Out("G", "o")}};
        order = {"A", "B", "C", "F", "G"};
    }
    auto v = Values(w.st);
    std::string sx = w.st.x ? "x" : "f";
    std::map<std::string, std::string> key{{"A", "A" + std::to_string(w.st.s1)},
                                           {"B", "B" + std::to_string(w.st.s1) + std::to_string(w.st.s2) + sx},
                                           {"F", "F" + std::to_string(w.st.s2) + sx},
                                           {"G", "G" + std::to_string(w.st.s1) + std::to_string(w.st.s2) + sx}};
    bool fails = w.st.s2 != 0;
    std::multiset<std::string> expect;
    for (auto const& a : order) {
        if (a == "C") {
            expect.insert(a);
            continue;
        }
        if (a == "G" and fatal and fails) {
            continue;
        }
        auto it = w.cache.find(key[a]);
        if (it != w.cache.end()) {
            it->second = 0;
        }
        else {
            expect.insert(a);
            if (not(a == "F" and fails)) {
                w.cache[key[a]] = 0;
            }
        }
    }
    { std::ofstream out(w.Log(), std::ios::trunc); }
    auto stage = w.dir + "/out";
    fs::remove_all(stage);
    auto r = Build(*w.site, g, want, stage, std::nullopt, 2);
    std::multiset<std::string> runs;
    {
        std::ifstream in(w.Log());
        std::string l;
        while (std::getline(in, l)) {
            runs.insert(l);
        }
    }
    bool should = not(fatal and fails);
    if (not should) {
        // independent actions may or may not have been run; at most once, and
        // those which were are cached
        for (auto const& a : order) {
            auto n = runs.count(a);
            bool cached = expect.count(a) == 0;
            if (n > 1 or (cached and n > 0)) {
                s.Fail(hist + ": action " + a + " run " + std::to_string(n) + " times", "runs");
            }
            if (a != "C" and a != "F" and not cached and n == 0) {
                w.cache.erase(key[a]);
            }
        }
    }
    else if (runs != expect) {
        std::string m;
        for (auto const& a : runs) {
            m += a;
        }
        m += " instead of ";
        for (auto const& a : expect) {
            m += a;
        }
        s.Fail(hist + ": actions run: " + m, "runs");
    }
    if (r.ok != should) {
        s.Fail(hist + (r.ok ? ": build succeeded" : ": build failed"), "ok");
        return;
    }
    if (not should) {
        return;
    }
    s.Nontrivial();
    if (r.executed != (int)expect.size() or r.cached != (int)(order.size() - expect.size())) {
        s.Fail(hist + ": counted " + std::to_string(r.executed) + " executed and " + std::to_string(r.cached) + " cached", "count");
    }
    bool any_failed = (what == 0) and fails;
    if (r.failed != any_failed) {
        s.Fail(hist + ": failed artifacts " + (r.failed ? "reported" : "not reported"), "failed");
    }
    Node tree = D();
    std::map<std::string, bool> closed;
    for (auto const& [p, j] : want) {
        auto t = j["type"].get<std::string>();
        auto id = t == "LOCAL" ? "" : j["data"]["id"].get<std::string>();
        auto const n = t == "LOCAL" ? (w.st.x ? X(std::to_string(w.st.s2)) : F(std::to_string(w.st.s2)))
                                    : v.at(id == "B" and j["data"]["path"] == "d" ? "d" : id);
        Insert(tree, p, n, closed);
        auto const& info = r.infos.at(p);
        if (auto m = Wrong(info, n, w.native); not m.empty()) {
            s.Fail(hist + ": " + p + ": " + m, "digest");
        }
        bool f = any_failed and (id == "F" or id == "T" or id == "G");
        if (info.failed != f) {
            s.Fail(hist + ": " + p + (f ? " not" : "") + " marked as failed", "mark");
        }
    }
    if (auto have = trees::Look(stage); not(have == Strip(tree))) {
        s.Fail(hist + ": installed " + have.Show() + " instead of " + tree.Show(), "install");
    }
}

void Histories() {
    // 1 2 x: edit; A: build all, B: part, H: all, failure of F fatal, T: trees; g: gc
    std::string const ops = "12xABHTg";
    int depth = hn::ctx().thorough ? 6 : 5;
    std::vector<std::string> seqs;
    std::function<void(std::string)> gen = [&](std::string const& p) {
        if (not p.empty() and (p.back() == 'A' or p.back() == 'B' or p.back() == 'H' or p.back() == 'T') and (int)p.size() >= depth - 1) {
            seqs.push_back(p);
        }
        if ((int)p.size() == depth) {
            return;
        }
        for (char c : ops) {
            if ((c == '1' or c == '2' or c == 'x') and not p.empty()) {
                char b = p.back();
                if ((b == '1' or b == '2' or b == 'x') and b >= c) {
                    continue;  // edits commute and cancel
                }
            }
            if (not hn::ctx().thorough and (c == 'H' or c == 'T') and p.find_first_of("HT") != std::string::npos) {
                continue;  // at most one of these
            }
            if (not hn::ctx().thorough and c == 'g' and p.find('g') != std::string::npos and p.back() != 'g') {
                continue;  // one or two collections, next to each other
            }
            if (not hn::ctx().thorough and p.size() >= 3 and c == p.back() and c == p[p.size() - 2]) {
                continue;
            }
            if (c == 'g' and (p.empty() or (p.find_first_of("ABHT") == std::string::npos))) {
                continue;
            }
            // not three collections in a row
            if (c == 'g' and p.size() >= 2 and p[p.size() - 1] == 'g' and p[p.size() - 2] == 'g') {
                continue;
            }
            gen(p + c);
        }
    };
    gen("");
    // only maximal ones: a sequence which is a prefix of another is covered
    std::sort(seqs.begin(), seqs.end());
    std::vector<std::string> max;
    for (size_t i = 0; i < seqs.size(); ++i) {
        if (i + 1 < seqs.size() and seqs[i + 1].rfind(seqs[i], 0) == 0) {
            continue;
        }
        max.push_back(seqs[i]);
    }
    hn::Enumerate("histories", (long)max.size(),
                  "all sequences of up to 5 (thorough: 6) edits of two sources (content, executable), builds of "
                  "everything or parts of a graph of actions, trees and an overlay (cached, not cached, allowed to "
                  "fail, failing) and garbage collections; alternating hash type (quick: one build with fatal failure or of "
                  "trees, collections next to each other)",
                  [&](long i, hn::Shard& s) {
                      auto& e = E();
                      auto const& q = max[(size_t)i];
                      bool native = i % 2 == 0;
                      if (not s.Case(q + (native ? " native" : " compatible"))) {
                          return;
                      }
                      World w;
                      w.native = native;
                      w.dir = e.base + "/h" + std::to_string(e.n++);
                      fs::create_directories(w.dir + "/src");
                      w.Sources();
                      w.Open();
                      std::string hist;
                      for (char c : q) {
                          hist += c;
                          switch (c) {
                              case '1':
                                  w.st.s1 = 1 - w.st.s1;
                                  w.Sources();
                                  break;
                              case '2':
                                  w.st.s2 = 1 - w.st.s2;
                                  w.Sources();
                                  break;
                              case 'x':
                                  w.st.x = not w.st.x;
                                  w.Sources();
                                  break;
                              case 'g': {
                                  auto sc = w.site->sc;
                                  w.site.reset();
                                  if (not GarbageCollector::TriggerGarbageCollection(sc, false)) {
                                      s.Fail(hist + ": garbage collection failed", "gc");
                                  }
                                  for (auto it = w.cache.begin(); it != w.cache.end();) {
                                      it = ++it->second >= 2 ? w.cache.erase(it) : std::next(it);
                                  }
                                  w.Open();
                                  break;
                              }
                              default:
                                  Judge(s, w, c == 'A' ? 0 : c == 'B' ? 1 : c == 'H' ? 2 : 3, hist);
                          }
                      }
                      fs::remove_all(w.dir);
                  });
}

// --- rebuilding ------------------------------------------------------------
void Rebuilds() {
    // three actions whose outputs depend on a file outside: which ones are
    // flaky, which are in the cache, which are tainted
    hn::Enumerate("rebuild", 512 * 2,
                  "three actions (two outputs each, the third depending on the first two), each flaky in its first, "
                  "second or no output, cached before or not: a rebuild runs each of them, reports exactly those "
                  "outputs that differ and those not cached, and leaves the cache as it was",
                  [&](long i, hn::Shard& s) {
                      auto& e = E();
                      bool native = i % 2 == 1;
                      long q = i / 2;
                      int fl[3] = {(int)(q % 4), (int)(q / 4 % 4), (int)(q / 16 % 4)};
                      int pre = (int)(q / 64);  // which are built before
                      if (not s.Case("flaky " + std::to_string(fl[0]) + std::to_string(fl[1]) + std::to_string(fl[2]) + " built before " +
                                      std::to_string(pre) + (native ? " native" : " compatible"))) {
                          return;
                      }
                      auto dir = e.base + "/r" + std::to_string(e.n++);
                      fs::create_directories(dir + "/src");
                      trees::Write(F("s"), dir + "/src/s");
                      auto set = [&](int v) {
                          std::ofstream out(dir + "/ext", std::ios::trunc);
                          out << v;
                      };
                      set(1);
                      Graph g;
                      for (int a = 0; a < 3; ++a) {
                          std::map<std::string, Json> in{{"s", Local("s")}};
                          if (a == 2) {
                              in["a"] = Out("0", "p");
                              in["b"] = Out("1", "q");
                          }
                          auto val = [&](int bit) { return (fl[a] & bit) != 0 ? "cat " + dir + "/ext" : std::string("echo same"); };
                          auto id = std::to_string(a);
                          g.actions[id] = Action({"p"}, {"q"}, "echo " + id + " >> " + dir + "/log\n" + val(1) + " > p\n" + val(2) + " > q/f\n", in);
                      }
                      Site site(dir + "/store", native, dir + "/src");
                      bool cached[3] = {};
                      for (int a = 0; a < 3; ++a) {
                          if ((pre & (1 << a)) != 0) {
                              auto r = Build(site, g, {{"o", Out(std::to_string(a), "p")}}, std::nullopt);
                              s.Check(r.ok, "build failed", "ok");
                              cached[a] = true;
                              if (a == 2) {
                                  cached[0] = cached[1] = true;
                              }
                          }
                      }
                      set(2);
                      { std::ofstream out(dir + "/log", std::ios::trunc); }
                      std::map<std::string, Json> want;
                      for (int a = 0; a < 3; ++a) {
                          want["p" + std::to_string(a)] = Out(std::to_string(a), "p");
                          want["q" + std::to_string(a)] = Out(std::to_string(a), "q");
                      }
                      auto r = Build(site, g, want, dir + "/out", dir + "/flaky");
                      if (not r.ok) {
                          s.Fail("rebuild failed", "ok");
                          fs::remove_all(dir);
                          return;
                      }
                      auto log = ReadAll(dir + "/log");
                      std::sort(log.begin(), log.end());
                      if (log != "\n\n\n012") {
                          s.Fail("actions run in the rebuild: " + log, "runs");
                      }
                      // the third has other inputs if one of those it uses changed
                      bool in_changed = (fl[0] & 1) != 0 or (fl[1] & 2) != 0;
                      std::map<std::string, std::string> flaky;
                      std::set<std::string> missing;
                      for (int a = 0; a < 3; ++a) {
                          auto id = std::to_string(a);
                          bool entry = cached[a] and not(a == 2 and in_changed);
                          if (not entry) {
                              missing.insert(id);
                              continue;
                          }
                          for (int b = 1; b <= 2; ++b) {
                              if ((fl[a] & b) != 0) {
                                  flaky[id] += b == 1 ? "p" : "q";
                              }
                          }
                      }
                      std::map<std::string, std::string> have;
                      for (auto const& [id, m] : r.flaky["flaky actions"].items()) {
                          for (auto const& [p, x] : m.items()) {
                              have[id] += p;
                              auto n = [&](char const* v) { return p == "p" ? F(v) : D({{"f", F(v)}}); };
                              for (auto const* k : {"rebuilt", "cached"}) {
                                  auto d = Digest(n(k[0] == 'r' ? "2" : "1"), native);
                                  if (x[k]["id"] != d.first) {
                                      s.Fail("flaky output " + id + p + " reported with " + x.dump(), "values");
                                  }
                              }
                          }
                      }
                      std::set<std::string> hm;
                      std::size_t nm = 0;
                      for (auto const& m : r.flaky["cache misses"]) {
                          hm.insert(m.get<std::string>());
                          ++nm;
                      }
                      if (have != flaky) {
                          s.Fail("flaky outputs reported: " + Json(have).dump() + " instead of " + Json(flaky).dump(), "flaky");
                      }
                      if (hm != missing or nm != hm.size()) {
                          s.Fail("cache misses reported: " + Json(hm).dump() + " instead of " + Json(missing).dump(), "misses");
                      }
                      for (int a = 0; a < 3; ++a) {
                          for (int b = 1; b <= 2; ++b) {
                              auto p = (b == 1 ? "p" : "q") + std::to_string(a);
                              auto v = (fl[a] & b) != 0 ? "2" : "same\n";
                              if (auto m = Wrong(r.infos.at(p), b == 1 ? F(v) : D({{"f", F(v)}}), native); not m.empty()) {
                                  s.Fail("result " + p + ": " + m, "result");
                              }
                          }
                      }
                      // another build uses the cached values again
                      set(3);
                      { std::ofstream out(dir + "/log", std::ios::trunc); }
                      auto r2 = Build(site, g, want, std::nullopt);
                      log = ReadAll(dir + "/log");
                      for (int a = 0; a < 3; ++a) {
                          auto id = std::to_string(a);
                          bool ran = log.find(id) != std::string::npos;
                          bool other = (not cached[0] and (fl[0] & 1) != 0) or (not cached[1] and (fl[1] & 2) != 0);
                          bool entry = cached[a] and not(a == 2 and other);
                          if (ran == entry) {
                              s.Fail("action " + id + (ran ? " run again" : " not run") + " after a rebuild", "after");
                          }
                          for (int b = 1; b <= 2 and r2.ok; ++b) {
                              auto p = (b == 1 ? "p" : "q") + std::to_string(a);
                              auto v = (fl[a] & b) == 0 ? "same\n" : entry ? "1" : "3";
                              if (auto m = Wrong(r2.infos.at(p), b == 1 ? F(v) : D({{"f", F(v)}}), native); not m.empty()) {
                                  s.Fail("result after a rebuild " + p + ": " + m, "result");
                              }
                          }
                      }
                      s.Check(r2.ok, "build after a rebuild failed", "ok");
                      s.Nontrivial();
                      fs::remove_all(dir);
                  });
}


// sources from git repositories
void GitSources() {
    std::vector<Node> roots{
        D({{"f", F("1")}}),
        D({{"x", X("1")}, {"l", L("x")}}),
        D({{"d", D({{"f", F("1")}, {"x", X("2")}})}, {"e", D()}}),
        D({{"a", D({{"b", D({{"c", F("1")}})}})}}),
        D({{"a", D({{"f", F("1")}})}, {"b", D({{"f", F("1")}})}}),
        D({{"f", F("")}, {"x", X("")}}),
        D({{"l", L("1")}, {"f", F("1")}, {"x", X("1")}}),
        D({{"a", D({{"f", F("1")}, {"g", L("f")}})}, {"b", D({{"f", X("1")}})}, {"c", F("3")}}),
    };
    struct Case {
        int root;
        unsigned have;
        int gone;   // object missing in the repository
        int where;  // 0: main repository, 1: another one, 2: only in the common git CAS, 3: nowhere
        bool native;
    };
    struct Obj {
        std::string path;
        Node n;
    };
    std::vector<std::vector<Obj>> objs;
    std::vector<Case> cases;
    for (size_t r = 0; r < roots.size(); ++r) {
        std::vector<Obj> os;
        std::function<void(Node const&, std::string const&)> walk = [&](Node const& n, std::string const& at) {
            os.push_back({at, n});
            for (auto const& [name, c] : n.ch) {
                walk(c, at.empty() ? name : at + "/" + name);
            }
        };
        walk(roots[r], "");
        objs.push_back(os);
        for (unsigned have = 0; have < (1U << os.size()); ++have) {
            for (int where = 0; where < 4; ++where) {
                for (bool native : {true, false}) {
                    if (not native and (where == 1 or where == 2 or (have & 1U) != 0)) {
                        continue;
                    }
                    if (os.size() > 6 and (have & (have - 1)) != 0 and not hn::ctx().thorough) {
                        continue;
                    }
                    cases.push_back({(int)r, have, -1, where, native});
                    if (where == 0 and (have & (have - 1)) == 0) {
                        for (size_t k = 1; k < os.size(); ++k) {
                            cases.push_back({(int)r, have, (int)k, where, native});
                        }
                    }
                }
            }
        }
    }
    hn::Enumerate("git-sources", (long)cases.size(),
                  "sources from git: 8 trees, any of their objects already in the CAS, from the main, another or no "
                  "repository, any object missing there: files, trees and what actions see",
                  [&](long i, hn::Shard& s) {
                      auto& e = E();
                      auto const& c = cases[(size_t)i];
                      auto const& root = roots[(size_t)c.root];
                      auto const& os = objs[(size_t)c.root];
                      auto ht = c.native ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256;
                      for (int variant = 0; variant < 4; ++variant) {
                          std::string id = root.Show() + " have " + std::to_string(c.have) + " gone " +
                                           std::to_string(c.gone) + " where " + std::to_string(c.where) +
                                           (c.native ? " native" : " compatible") + " variant " + std::to_string(variant);
                          if (not s.Case(id)) {
                              continue;
                          }
                          auto dir = e.base + "/g" + std::to_string(e.n++);
                          fs::create_directories(dir);
                          trees::Repo repo(dir + "/git");
                          auto rid = repo.Put(root);
                          Site site(dir + "/store", c.native, "");
                          auto fr = FileRoot::FromGit(&site.sc, dir + "/git", rid);
                          if (not fr) {
                              throw std::runtime_error("root");
                          }
                          // what git objects are in compatible mode is remembered with the repository, for the whole process
                          std::string rn = c.where == 1 or not c.native ? "r" : "";
                          if (c.where < 2) {
                              site.rc.SetInfo(rn, RepositoryConfig::RepositoryInfo{*fr});
                          }
                          if (c.where == 2 and not site.rc.SetGitCAS(dir + "/git", &site.sc)) {
                              throw std::runtime_error("cas");
                          }
                          std::set<std::string> have;
                          std::function<void(Node const&)> put = [&](Node const& n) {
                              for (auto const& [name, k] : n.ch) {
                                  put(k);
                              }
                              have.insert(Digest(n, c.native).first);
                              auto ok = n.k == 'd' ? (c.native ? site.st.CAS().StoreTree(trees::TreeData(n)).has_value() : true)
                                                   : site.st.CAS().StoreBlob(n.data, n.k == 'x').has_value();
                              if (not ok) {
                                  throw std::runtime_error("store");
                              }
                          };
                          for (size_t k = 0; k < os.size(); ++k) {
                              if ((c.have & (1U << k)) != 0) {
                                  put(os[k].n);
                              }
                          }
                          Graph g;
                          std::vector<std::pair<std::string, Node>> all;
                          bool described = true;
                          for (auto const& o : os) {
                              std::optional<ArtifactDescription> a;
                              if (o.n.k == 'd') {
                                  auto es = fr->ReadDirectory(o.path.empty() ? "." : o.path);
                                  if (es) {
                                      a = es->AsKnownTree(ht, rn);
                                  }
                                  if (not c.native) {
                                      if (a) {
                                          s.Fail(id + ": git tree used in compatible mode", "compat");
                                      }
                                      continue;
                                  }
                              }
                              else {
                                  a = fr->ToArtifactDescription(ht, o.path, rn);
                              }
                              if (not a) {
                                  s.Fail(id + ": no artifact for " + o.path, "desc");
                                  described = false;
                                  continue;
                              }
                              g.direct.emplace(o.path, *a);
                              all.emplace_back(o.path, o.n);
                          }
                          if (not described) {
                              continue;
                          }
                          if (c.gone >= 0) {
                              auto h = trees::TreeId(os[(size_t)c.gone].n);
                              fs::remove(dir + "/git/objects/" + h.substr(0, 2) + "/" + h.substr(2));
                          }
                          // 0: all of them, 1: the whole, 2: the files, 3: an action using all of them
                          std::map<std::string, Json> want;
                          std::map<std::string, Node> values;
                          Node seen = D();
                          size_t n = 0;
                          for (auto const& [p, v] : all) {
                              auto at = "n" + std::to_string(n++);
                              if (variant == 0 or (variant == 1 and p.empty()) or (variant == 2 and v.k != 'd')) {
                                  want[at] = Direct(p);
                                  values[at] = v;
                              }
                              if (variant == 3) {
                                  g.direct_inputs["a"]["in/" + at] = p;
                                  seen.ch[at] = v;
                                  values[at] = v;
                              }
                          }
                          if (variant == 3) {
                              g.actions["a"] = Action({"o"}, {}, "cd in && (" + kFind + ") > ../o", {});
                              want["o"] = Out("a", "o");
                          }
                          if (want.empty()) {
                              fs::remove_all(dir);
                              continue;
                          }
                          // can it be done?
                          bool possible = true;
                          std::function<bool(Node const&)> avail = [&](Node const& v) {
                              if (have.count(Digest(v, c.native).first) != 0) {
                                  return true;
                              }
                              if (c.where == 3 or (c.gone >= 0 and trees::TreeId(v) == trees::TreeId(os[(size_t)c.gone].n))) {
                                  return false;
                              }
                              for (auto const& [name, k] : v.ch) {
                                  if (not avail(k)) {
                                      return false;
                                  }
                              }
                              return true;
                          };
                          for (auto const& [at, v] : values) {
                              possible = possible and avail(v);
                          }
                          auto stage = dir + "/out";
                          auto r = Build(site, g, want, stage);
                          if (r.ok and not possible and c.where == 3) {
                              s.Fail(id + ": built without sources", "no-source");
                          }
                          if (not r.ok and possible and c.gone < 0) {
                              s.Fail(id + ": failed", "failed");
                          }
                          if (r.ok) {
                              s.Nontrivial();
                              auto got = trees::Look(stage);
                              if (variant == 3) {
                                  std::vector<std::string> w, h;
                                  List(seen, "", w);
                                  std::istringstream is(got.ch.count("o") != 0 ? got.ch["o"].data : "");
                                  std::string line;
                                  while (std::getline(is, line)) {
                                      h.push_back(line);
                                  }
                                  std::sort(w.begin(), w.end());
                                  std::sort(h.begin(), h.end());
                                  if (w != h) {
                                      s.Fail(id + ": action saw " + Json(h).dump() + " instead of " + Json(w).dump(), "see");
                                  }
                              }
                              else {
                                  for (auto const& [at, v] : values) {
                                      if (auto m = Wrong(r.infos.at(at), v, c.native); not m.empty()) {
                                          s.Fail(id + ": " + at + ": " + m, "info");
                                      }
                                      auto h = got.ch.count(at) != 0 ? got.ch[at] : D();
                                      if (not(h == Strip(v))) {
                                          s.Fail(id + ": installed " + h.Show() + " for " + v.Show(), "installed");
                                      }
                                  }
                              }
                          }
                          fs::remove_all(dir);
                      }
                  });
}

// --- installing over what is there ----------------------------------------
void Installs() {
    std::vector<Node> arts{F("new"), X("new"), L("other"), L("new-dangling"), D({{"f", F("new")}, {"x", X("new")}}),
                           D({{"f", F("new")}, {"d", D({{"f", X("new")}, {"l", L("f")}})}, {"l", L("f")}})};
    std::vector<Node> old{Node{'-', "", {}},
                          F("old"),
                          X("old"),
                          L("../keep/f"),
                          L("../keep/x"),
                          L("../keep/d"),
                          L("nothing"),
                          L("other"),
                          D(),
                          D({{"f", F("old")}, {"x", F("old")}, {"l", F("old")}}),
                          D({{"f", L("../../keep/f")}, {"x", L("../../keep/x")}, {"l", L("../../keep/f")}}),
                          D({{"f", X("old")}, {"d", D({{"f", L("../../../keep/f")}, {"l", L("../../../keep/d")}, {"s", F("stale")}})}, {"l", L("x")}}),
                          D({{"d", L("../../keep/d")}, {"s", F("stale")}})};
    hn::Enumerate("install", (long)(arts.size() * old.size() * 2),
                  "six artifacts (file, executable, links, trees) installed where 13 kinds of things are, twice, at two "
                  "paths, both hash types",
                  [&](long i, hn::Shard& s) {
                      auto& e = E();
                      bool native = i % 2 == 1;
                      auto const& art = arts[(size_t)(i / 2) % arts.size()];
                      auto const& was = old[(size_t)(i / 2) / arts.size()];
                      for (std::string const& path : {std::string("o"), std::string("p/o")}) {
                          if (not s.Case(art.Show() + " over " + was.Show() + " at " + path + (native ? " native" : " compatible"))) {
                              continue;
                          }
                          auto dir = e.base + "/i" + std::to_string(e.n++);
                          fs::create_directories(dir + "/src");
                          Site site(dir + "/store", native, dir + "/src");
                          Graph g;
                          g.actions["a"] = Action(art.k == 'd' ? std::vector<std::string>{} : std::vector<std::string>{"q"},
                                                  art.k == 'd' ? std::vector<std::string>{"q"} : std::vector<std::string>{}, Make(art, "q"), {});
                          // as deep as the links expect
                          auto stage = path == "o" ? dir + "/out" : dir + "/v";
                          auto base = path == "o" ? stage : stage + "/p";
                          fs::create_directories(base);
                          Node keep = D({{"f", F("keep")}, {"x", X("keep")}, {"d", D({{"f", F("keep")}, {"l", F("keep")}})}});
                          trees::Write(keep, fs::path(base).parent_path().string() + "/keep");
                          if (was.k != '-') {
                              trees::Write(was, base + "/o");
                          }
                          trees::Write(F("stays"), base + "/n");
                          // through a link to a directory things are written there: that is the place asked for
                          bool via = was.k == 'l' and was.data == "../keep/d" and art.k == 'd';
                          bool via2 = was.k == 'd' and was.ch.count("d") != 0 and was.ch.at("d").k == 'l' and art.k == 'd' and art.ch.count("d") != 0;
                          for (int round = 0; round < 2; ++round) {
                              auto r = Build(site, g, {{path, Out("a", "q")}}, stage);
                              auto have = trees::Look(base + "/o");
                              if (r.ok) {
                                  s.Nontrivial();
                                  // everything of the artifact is there as it should be
                                  std::function<bool(Node const&, Node const&)> covers = [&](Node const& h, Node const& n) {
                                      if (n.k != 'd') {
                                          return h == n;
                                      }
                                      for (auto const& [name, c] : n.ch) {
                                          auto it = h.ch.find(name);
                                          if (it == h.ch.end() or not covers(it->second, c)) {
                                              return false;
                                          }
                                      }
                                      return h.k == 'd';
                                  };
                                  if (not via and not via2 and not covers(have, art)) {
                                      s.Fail("installed, but there is " + have.Show(), "installed");
                                  }
                              }
                              else {
                                  // a directory is not replaced by a file, nor the other way round
                                  bool mixed = (was.k == 'd') != (art.k == 'd') or was.k == 'd';
                                  if (was.k == '-' or not mixed) {
                                      s.Fail("not installed over " + was.Show(), "not");
                                  }
                              }
                              if (not via and not via2) {
                                  if (auto k = trees::Look(fs::path(base).parent_path().string() + "/keep"); not(k == keep)) {
                                      s.Fail("changed something outside: " + k.Show(), "outside");
                                  }
                              }
                              if (not(trees::Look(base + "/n") == F("stays"))) {
                                  s.Fail("changed another file", "outside");
                              }
                          }
                          // the cache still has what it had
                          auto r = Build(site, g, {{"z", Out("a", "q")}}, dir + "/again");
                          if (not r.ok or not(trees::Look(dir + "/again/z") == art) or r.executed != 0) {
                              s.Fail("cache changed by the installation", "cache");
                          }
                          fs::remove_all(dir);
                      }
                  });
}

// modified installed files do not affect the cache
void Modify() {
    std::vector<std::string> cmds{"echo y >> out/f", "echo y > out/f", "chmod 777 out/f", "chmod 000 out/x", "rm -f out/f", "mv out/f out/g", "echo y >> out/x", "echo y > out/d/f", "chmod -R 777 out/d", "rm -rf out", "touch -d 2001-01-01 out/f", "truncate -s 0 out/x"};
    hn::Enumerate("modified", (long)cmds.size() * 2, "12 modifications of installed artifacts between two installations", [&](long i, hn::Shard& s) {
        auto& e = E();
        bool native = i % 2 == 1;
        auto const& c = cmds[(size_t)(i / 2)];
        if (not s.Case(c + (native ? " native" : " compatible"))) {
            return;
        }
        auto dir = e.base + "/m" + std::to_string(e.n++);
        fs::create_directories(dir + "/src");
        Site site(dir + "/store", native, dir + "/src");
        Graph g;
        g.actions["a"] = Action({"f", "x"}, {"d"}, "echo 1 > f\necho 2 > x\nchmod +x x\necho 3 > d/f\nln -s f d/l", {});
        std::map<std::string, Json> want{{"f", Out("a", "f")}, {"x", Out("a", "x")}, {"d", Out("a", "d")}};
        Node full = D({{"f", F("1\n")}, {"x", X("2\n")}, {"d", D({{"f", F("3\n")}, {"l", L("f")}})}});
        auto r = Build(site, g, want, dir + "/out");
        s.Check(r.ok and trees::Look(dir + "/out") == full, "first", "first");
        if (system(("cd " + dir + " && " + c).c_str()) != 0) {
            s.Fail("cannot " + c, "cmd");
        }
        auto r2 = Build(site, g, want, dir + "/again");
        s.Check(r2.ok and r2.executed == 0 and trees::Look(dir + "/again") == full, "second installation " + trees::Look(dir + "/again").Show(), "second");
        auto r3 = Build(site, g, want, dir + "/out");
        auto have = trees::Look(dir + "/out");
        have.ch.erase("g");
        s.Check(r3.ok and have == full, "repaired installation " + have.Show(), "repair");
        s.Nontrivial();
        fs::remove_all(dir);
    });
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    LogConfig::SetSinks({});
    signal(SIGPIPE, SIG_DFL);
    GitContext::Create();
    Staging();
    Histories();
    Rebuilds();
    GitSources();
    Installs();
    Modify();
    return hn::Finish();
}
