// C08: action graphs: identifiers name exactly what they describe, and every
// description survives being written to a graph file and read back
#include "rt/harness.hpp"
#include <fstream>
#include <map>
#include <memory>
#include "src/buildtool/build_engine/target_map/result_map.hpp"
#include "src/buildtool/common/action_description.hpp"
#include "src/buildtool/common/artifact_description.hpp"
#include "src/buildtool/common/artifact_digest_factory.hpp"
#include "src/buildtool/common/statistics.hpp"
#include "src/buildtool/common/tree.hpp"
#include "src/buildtool/common/tree_overlay.hpp"
#include "src/buildtool/execution_engine/dag/dag.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/progress_reporting/progress.hpp"

namespace {
using hn::Json;
using BuildMaps::Base::EntityName;
using BuildMaps::Target::ConfiguredTarget;
using BuildMaps::Target::ResultTargetMap;

auto const kNative = HashFunction::Type::GitSHA1;
auto const kCompat = HashFunction::Type::PlainSHA256;

// What an artifact is, as told to the harness
struct Art {
    std::string kind, a, b;  // path/repo, action/path, hash/-, id/-
    std::size_t size = 0;
    char type = 'f';
    std::optional<std::string> repo;
    [[nodiscard]] std::string What() const {
        if (kind == "KNOWN") {
            return "KNOWN|" + a + "|" + std::to_string(size) + "|" + type;
        }
        return Json({kind, a, b}).dump();
    }
    [[nodiscard]] Json J() const {
        if (kind == "LOCAL") {
            return {{"type", "LOCAL"}, {"data", {{"path", a}, {"repository", b}}}};
        }
        if (kind == "KNOWN") {
            return {{"type", "KNOWN"}, {"data", {{"id", a}, {"size", size}, {"file_type", std::string(1, type)}}}};
        }
        if (kind == "ACTION") {
            return {{"type", "ACTION"}, {"data", {{"id", a}, {"path", b}}}};
        }
        return {{"type", kind}, {"data", {{"id", a}}}};
    }
};
ObjectType Type(char c) {
    return c == 'x' ? ObjectType::Executable : c == 't' ? ObjectType::Tree : c == 'l' ? ObjectType::Symlink : ObjectType::File;
}
std::optional<ArtifactDescription> Make(Art const& a, HashFunction::Type t) {
    if (a.kind == "LOCAL") {
        return ArtifactDescription::CreateLocal(a.a, a.b);
    }
    if (a.kind == "KNOWN") {
        auto d = ArtifactDigestFactory::Create(t, a.a, a.size, a.type == 't');
        if (not d) {
            return std::nullopt;
        }
        return ArtifactDescription::CreateKnown(*d, Type(a.type), a.repo);
    }
    if (a.kind == "ACTION") {
        return ArtifactDescription::CreateAction(a.a, a.b);
    }
    if (a.kind == "TREE") {
        return ArtifactDescription::CreateTree(a.a);
    }
    return ArtifactDescription::CreateTreeOverlay(a.a);
}
std::string Hash(HashFunction::Type t, char c) { return std::string(t == kNative ? 40 : 64, c); }

std::vector<Art> Alphabet(HashFunction::Type t) {
    std::vector<Art> r;
    std::vector<std::string> names{"", "a", "b", "a/b", "ab", "a\"b", "a\\", "a\n", "ä", "TREE", "a b", ".", "../a"};
    for (auto const& x : names) {
        for (auto const& y : names) {
            r.push_back({"LOCAL", x, y, 0, 'f', {}});
            r.push_back({"ACTION", y, x, 0, 'f', {}});
        }
        r.push_back({"TREE", x, "", 0, 'f', {}});
        r.push_back({"TREE_OVERLAY", x, "", 0, 'f', {}});
    }
    for (auto const& h : {Hash(t, 'a'), Hash(t, 'b'), Hash(t, 'a').substr(1) + "b"}) {
        for (std::size_t size : {std::size_t{0}, std::size_t{1}, std::size_t{10}, std::size_t{1} << 33}) {
            for (char c : {'f', 'x', 't', 'l'}) {
                if (size == 0 and c == 't') {
                    continue;
                }
                for (int repo = 0; repo < 2; ++repo) {
                    r.push_back({"KNOWN", h, "", size, c, repo == 0 ? std::nullopt : std::optional<std::string>{"r"}});
                }
            }
        }
    }
    return r;
}

bool Same(hn::Shard& s, Art const& a, ArtifactDescription const& d, bool read) {
    auto x = d.ToArtifact();
    bool ok = x.Id() == d.Id();
    ok = ok and d.IsKnown() == (a.kind == "KNOWN") and d.IsTree() == (a.kind == "TREE") and d.IsTreeOverlay() == (a.kind == "TREE_OVERLAY");
    ok = ok and x.FilePath().has_value() == (a.kind == "LOCAL") and x.Info().has_value() == (a.kind == "KNOWN");
    if (ok and a.kind == "LOCAL") {
        ok = x.FilePath()->string() == a.a and x.Repository() == a.b;
    }
    if (ok and a.kind == "KNOWN") {
        ok = x.Digest()->hash() == a.a and x.Digest()->size() == a.size and *x.Type() == Type(a.type) and
             not x.Info()->failed and (read or x.Repository() == a.repo.value_or(""));
    }
    ok = ok and d.ToJson() == a.J();
    if (not ok) {
        s.Fail("description of " + a.What() + " says " + d.ToJson().dump(), "says");
    }
    return ok;
}

void Artifacts() {
    for (auto t : {kNative, kCompat}) {
        auto all = Alphabet(t);
        hn::Enumerate(t == kNative ? "artifacts" : "artifacts-compatible", (long)all.size(),
                      "all artifacts of the alphabet (names with quotes, separators, controls, non-ASCII; sizes beyond 32 bit), each against all others", [&](long i, hn::Shard& s) {
                          auto const& a = all[(size_t)i];
                          if (not s.Case(a.What() + (a.repo ? " in " + *a.repo : ""))) {
                              return;
                          }
                          s.Nontrivial();
                          auto d = Make(a, t);
                          if (not d) {
                              s.Fail("cannot be described", "make");
                              return;
                          }
                          Same(s, a, *d, false);
                          auto r = ArtifactDescription::FromJson(t, Json::parse(d->ToJson().dump()));
                          if (not r or r->Id() != d->Id() or not(*r == *d)) {
                              s.Fail("changes when written and read back", "roundtrip");
                          }
                          else {
                              Same(s, a, *r, true);
                          }
                          for (auto const& b : all) {
                              auto e = Make(b, t);
                              if ((e->Id() == d->Id()) != (a.What() == b.What()) or (*e == *d) != (a.What() == b.What()) or (*e != *d) == (a.What() == b.What())) {
                                  s.Fail(a.What() + " and " + b.What() + " have identifiers " + d->Id() + " and " + e->Id(), "id");
                                  break;
                              }
                          }
                      });
    }
}

std::vector<Json> const& Values() {
    static std::vector<Json> const v{nullptr, true, false, 0, 1, 2.5, "", "a", "f", "ft", Json::array(), Json::object(), Json::array({"a"}), Json::array({1}),
                                     Json{{"a", "b"}}, Json{{"a", 1}}, Json{{"a", nullptr}}};
    return v;
}
bool Hex(Json const& j, std::size_t n) {
    return j.is_string() and j.get<std::string>().size() == n and j.get<std::string>().find_first_not_of("0123456789abcdefABCDEF") == std::string::npos;
}
// 1 well-formed, 0 not, -1 not specified
int WellFormed(Json const& j, HashFunction::Type t) {
    if (not j.is_object() or not j.contains("type") or not j["type"].is_string() or not j.contains("data")) {
        return 0;
    }
    auto const& d = j["data"];
    auto type = j["type"].get<std::string>();
    auto str = [&](char const* k) { return d.is_object() and d.contains(k) and d[k].is_string(); };
    if (type == "LOCAL") {
        return str("path") and str("repository");
    }
    if (type == "ACTION") {
        return str("id") and str("path");
    }
    if (type == "TREE" or type == "TREE_OVERLAY") {
        return str("id");
    }
    if (type == "KNOWN") {
        if (not d.is_object() or not d.contains("id") or not d.contains("size") or not Hex(d["id"], t == kNative ? 40 : 64) or not str("file_type") or
            d["file_type"].get<std::string>().size() != 1) {
            return 0;
        }
        if (not d["size"].is_number_unsigned()) {
            return d["size"].is_number() or d["size"].is_boolean() ? -1 : 0;
        }
        return std::string{"fxtl"}.find(d["file_type"].get<std::string>()) == std::string::npos ? -1 : 1;
    }
    return 0;
}

void Malformed() {
    for (auto t : {kNative, kCompat}) {
        std::vector<Art> base{{"LOCAL", "p", "r", 0, 'f', {}}, {"ACTION", "i", "p", 0, 'f', {}}, {"TREE", "i", "", 0, 'f', {}}, {"TREE_OVERLAY", "i", "", 0, 'f', {}}, {"KNOWN", Hash(t, 'c'), "", 3, 'f', {}}, {"KNOWN", Hash(t, 'c'), "", 3, 't', {}}};
        hn::Enumerate(t == kNative ? "malformed" : "malformed-compatible", (long)base.size(),
                      "artifact descriptions with any one or two fields missing or replaced by values of any kind, by each other's kinds, by hashes of another length or with other characters", [&](long i, hn::Shard& s) {
                          auto j0 = base[(size_t)i].J();
                          auto check = [&](Json const& j) {
                              if (not s.Case(j.dump())) {
                                  return;
                              }
                              s.Nontrivial();
                              auto want = WellFormed(j, t);
                              auto r = ArtifactDescription::FromJson(t, j);
                              s.Outcome(r ? "accepted" : "rejected");
                              if (want >= 0 and r.has_value() != (want == 1)) {
                                  s.Fail(std::string{r ? "accepted" : "rejected"} + ": " + j.dump(), "accept");
                              }
                              else if (want == 1) {
                                  auto back = j;
                                  for (auto it = back["data"].begin(); it != back["data"].end();) {
                                      it = j0["data"].contains(it.key()) or back["type"] != j0["type"] ? std::next(it) : back["data"].erase(it);
                                  }
                                  if (back["type"] == j0["type"] and back["type"] != "KNOWN" and r->ToJson() != back) {
                                      s.Fail("read as " + r->ToJson().dump(), "read");
                                  }
                              }
                          };
                          std::vector<Json> vals = Values();
                          for (auto const* x : {"LOCAL", "KNOWN", "ACTION", "TREE", "TREE_OVERLAY", "tree", "KNOWN "}) {
                              vals.push_back(x);
                          }
                          for (auto const& h : {Hash(kNative, 'd'), Hash(kCompat, 'd'), Hash(t, 'd').substr(1), Hash(t, 'd') + "d", Hash(t, 'g'), Hash(t, 'd').substr(1) + " ", Hash(t, 'd').substr(2) + "0x", "-" + Hash(t, 'd').substr(1)}) {
                              vals.push_back(h);
                          }
                          std::vector<std::string> keys{"/type", "/data"};
                          for (auto const& [k, v] : j0["data"].items()) {
                              keys.push_back("/data/" + k);
                          }
                          auto edits = [&](Json const& j, std::string const& key) {
                              std::vector<Json> r;
                              Json::json_pointer p{key};
                              if (not p.parent_pointer().empty() and (not j.contains("data") or not j["data"].is_object())) {
                                  return r;
                              }
                              auto x = j;
                              x[p.parent_pointer()].erase(p.back());
                              r.push_back(x);
                              for (auto const& v : vals) {
                                  x[p] = v;
                                  r.push_back(x);
                              }
                              return r;
                          };
                          check(j0);
                          for (auto const& v : vals) {
                              check(v);
                          }
                          for (auto const& k1 : keys) {
                              for (auto const& j1 : edits(j0, k1)) {
                                  check(j1);
                                  for (auto const& k2 : keys) {
                                      if (k1 < k2) {
                                          for (auto const& j2 : edits(j1, k2)) {
                                              check(j2);
                                          }
                                      }
                                  }
                              }
                          }
                      });
    }
}

// actions
struct Act {
    std::vector<std::string> outs, dirs, cmd;
    std::string cwd;
    std::map<std::string, std::string> env, props;
    std::optional<std::string> may_fail;
    bool no_cache = false;
    double scale = 1.0;
    std::map<std::string, int> ins;  // path -> artifact number
};
std::vector<Art> const& Inputs() {
    static std::vector<Art> const v{{"LOCAL", "p", "r", 0, 'f', {}}, {"ACTION", "i", "p", 0, 'f', {}}, {"TREE", "i", "", 0, 'f', {}}, {"TREE_OVERLAY", "i", "", 0, 'f', {}}, {"KNOWN", Hash(kNative, 'c'), "", 3, 't', {}}};
    return v;
}
ActionDescription Make(Act const& a, std::string const& id) {
    ActionDescription::inputs_t in;
    for (auto const& [p, k] : a.ins) {
        in.emplace(p, *Make(Inputs()[(size_t)k], kNative));
    }
    return ActionDescription{a.outs, a.dirs, Action{id, a.cmd, a.cwd, a.env, a.may_fail, a.no_cache, a.scale, a.props}, in};
}
bool Same(ActionDescription const& d, Act const& a, std::string const& id) {
    auto const& g = d.GraphAction();
    bool ok = d.Id() == id and g.Id() == id and d.OutputFiles() == a.outs and d.OutputDirs() == a.dirs and g.Command() == a.cmd and g.Cwd() == a.cwd and g.Env() == a.env and
              g.ExecutionProperties() == a.props and g.MayFail() == a.may_fail and g.NoCache() == a.no_cache and g.TimeoutScale() == a.scale and
              not g.IsTreeAction() and not g.IsTreeOverlayAction() and d.Inputs().size() == a.ins.size();
    for (auto const& [p, k] : a.ins) {
        ok = ok and d.Inputs().contains(p) and d.Inputs().at(p).ToJson() == Inputs()[(size_t)k].J();
    }
    return ok;
}
using Names = std::vector<std::string>;
std::vector<Names> const kOuts{{}, {"a"}, {"a", "b"}, {"b", "a"}, {"d/\"x"}};
std::vector<Names> const kCmds{{"c"}, {"c", ""}, {"c", "ä", "\n"}};
std::vector<std::map<std::string, std::string>> const kMaps{{}, {{"K", "v"}}, {{"", ""}, {"K", "w"}}};
std::vector<std::map<std::string, int>> const kIns{{}, {{"x", 0}}, {{"x", 1}, {"y", 2}}, {{"", 3}, {"x/y", 4}}, {{"x", 0}, {"y", 0}}};

void Actions() {
    hn::Enumerate("actions", (long)(kOuts.size() * kOuts.size() * kCmds.size()), "actions over all combinations of outputs, output directories, commands, working directories, environments, properties, inputs, failure, cache and timeout settings", [&](long i, hn::Shard& s) {
        Act a;
        a.outs = kOuts[(size_t)i % kOuts.size()];
        a.dirs = kOuts[(size_t)i / kOuts.size() % kOuts.size()];
        a.cmd = kCmds[(size_t)i / kOuts.size() / kOuts.size()];
        if (a.outs.empty() and a.dirs.empty()) {
            return;
        }
        for (auto const& cwd : {"", "w", "w/\\"}) {
            for (auto const& env : kMaps) {
                for (auto const& props : kMaps) {
                    for (auto const& mf : {std::optional<std::string>{}, std::optional<std::string>{""}, std::optional<std::string>{"m"}}) {
                        for (bool nc : {false, true}) {
                            for (double sc : {1.0, 0.0, 0.5, 10.0, 1.0 / 3.0, 1e30}) {
                                for (size_t in = 0; in < kIns.size(); ++in) {
                                    a.cwd = cwd;
                                    a.env = env;
                                    a.props = props;
                                    a.may_fail = mf;
                                    a.no_cache = nc;
                                    a.scale = sc;
                                    a.ins = kIns[in];
                                    auto d = Make(a, "id");
                                    if (not s.Case(d.ToJson().dump())) {
                                        continue;
                                    }
                                    s.Nontrivial();
                                    if (not Same(d, a, "id")) {
                                        s.Fail("not as given", "given");
                                    }
                                    auto r = ActionDescription::FromJson(kNative, "id", Json::parse(d.ToJson().dump()));
                                    if (not r or not Same(**r, a, "id") or (*r)->ToJson() != d.ToJson()) {
                                        s.Fail("changes when written and read back", "roundtrip");
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    hn::Enumerate("action-forms", 1, "action descriptions with any one or two fields missing or replaced by values of any kind", [&](long, hn::Shard& s) {
        Act a;
        a.outs = {"a"};
        a.dirs = {"d"};
        a.cmd = {"c"};
        a.cwd = "w";
        a.env = a.props = {{"K", "v"}};
        a.may_fail = "m";
        a.no_cache = true;
        a.scale = 2;
        a.ins = {{"x", 0}};
        auto j0 = Make(a, "id").ToJson();
        auto strs = [](Json const& j) { return j.is_array() and std::all_of(j.begin(), j.end(), [](auto const& x) { return x.is_string(); }); };
        auto map = [](Json const& j) { return j.is_object() and std::all_of(j.begin(), j.end(), [](auto const& x) { return x.is_string(); }); };
        auto want = [&](Json const& j) -> int {
            if (not j.is_object()) {
                return 0;
            }
            auto get = [&](char const* k, Json const& d) { return j.contains(k) ? j[k] : d; };
            auto o = get("output", Json::array());
            auto d = get("output_dirs", Json::array());
            auto c = get("command", Json::array());
            if (not strs(o) or not strs(d)) {
                // a list that is none is ignored if the other one gives outputs
                return (strs(o) and not o.empty()) or (strs(d) and not d.empty()) ? -1 : 0;
            }
            if ((o.empty() and d.empty()) or not strs(c) or c.empty()) {
                return 0;
            }
            if (not get("cwd", "").is_string() or not map(get("env", Json::object())) or not map(get("execution properties", Json::object())) or
                not get("no_cache", false).is_boolean() or not(get("may_fail", nullptr).is_null() or get("may_fail", nullptr).is_string()) or
                not get("input", Json::object()).is_object()) {
                return 0;
            }
            for (auto const& x : get("input", Json::object())) {
                if (WellFormed(x, kNative) != 1) {
                    return 0;
                }
            }
            auto sc = get("timeout scaling", 1.0);
            return sc.is_number() ? 1 : 0;
        };
        auto check = [&](Json const& j) {
            if (not s.Case(j.dump())) {
                return;
            }
            s.Nontrivial();
            auto w = want(j);
            auto r = ActionDescription::FromJson(kNative, "id", j);
            s.Outcome(r ? "accepted" : "rejected");
            if (w >= 0 and r.has_value() != (w == 1)) {
                s.Fail(std::string{r ? "accepted" : "rejected"} + ": " + j.dump(), "accept");
            }
            if (r and w == 1) {
                auto o = (*r)->ToJson();
                for (auto const& [k, v] : j.items()) {
                    bool plain = v.empty() or (k == "no_cache" and v == false) or (k == "cwd" and v == "") or (k == "timeout scaling" and v == 1);
                    if (k == "zz" ? o.contains(k) : plain and k != "may_fail" ? o.contains(k) : (v.is_null() ? o.contains(k) : not o.contains(k) or o[k] != v)) {
                        s.Fail(k + " of " + j.dump() + " read as " + o.dump(), "read");
                    }
                }
                for (auto const& [k, v] : o.items()) {
                    if (not j.contains(k)) {
                        s.Fail(k + " invented for " + j.dump(), "read");
                    }
                }
            }
        };
        auto vals = Values();
        vals.push_back(Json{{"a", Inputs()[1].J()}});
        vals.push_back(Json{{"a", Json{{"type", "LOCAL"}}}});
        vals.push_back(Json::array({"a", "b"}));
        vals.push_back(Json::array({"a", 1}));
        std::vector<std::string> keys{"zz"};
        for (auto const& [k, v] : j0.items()) {
            keys.push_back(k);
        }
        auto edits = [&](Json const& j, std::string const& k) {
            std::vector<Json> r;
            auto x = j;
            x.erase(k);
            r.push_back(x);
            for (auto const& v : vals) {
                x[k] = v;
                r.push_back(x);
            }
            return r;
        };
        check(j0);
        for (auto const& v : vals) {
            check(v);
        }
        for (auto const& k1 : keys) {
            for (auto const& j1 : edits(j0, k1)) {
                check(j1);
                for (auto const& k2 : keys) {
                    if (k1 < k2) {
                        for (auto const& j2 : edits(j1, k2)) {
                            check(j2);
                        }
                    }
                }
            }
        }
    });
}

void Trees() {
    // all maps from up to two of three paths, all lists of up to three
    auto const& arts = Inputs();
    std::vector<std::map<std::string, int>> maps;
    int const n = (int)arts.size();
    for (int x = -1; x < n; ++x) {
        for (int y = -1; y < n; ++y) {
            for (int z = -1; z < n; ++z) {
                std::map<std::string, int> m;
                if (x >= 0) {
                    m["a"] = x;
                }
                if (y >= 0) {
                    m["a/b"] = y;
                }
                if (z >= 0) {
                    m["\""] = z;
                }
                maps.push_back(m);
            }
        }
    }
    auto tree = [&](std::map<std::string, int> const& m) {
        ActionDescription::inputs_t in;
        for (auto const& [p, k] : m) {
            in.emplace(p, *Make(arts[(size_t)k], kNative));
        }
        return Tree{std::move(in)};
    };
    std::vector<Tree> all;
    for (auto const& m : maps) {
        all.push_back(tree(m));
    }
    hn::Enumerate("trees", (long)maps.size(), "all trees with up to three entries of all kinds, each against all others", [&](long i, hn::Shard& s) {
        auto const& t = all[(size_t)i];
        if (not s.Case(Json(maps[(size_t)i]).dump())) {
            return;
        }
        s.Nontrivial();
        auto j = Json::object();
        for (auto const& [p, k] : maps[(size_t)i]) {
            j[p] = arts[(size_t)k].J();
        }
        auto is = [&](Tree const& x) {
            auto a = x.Action();
            return x.ToJson() == j and x.Id() == t.Id() and x.Inputs() == t.Inputs() and x.Output() == ArtifactDescription::CreateTree(t.Id()) and x.Output().IsTree() and
                   a.GraphAction().IsTreeAction() and not a.GraphAction().IsTreeOverlayAction() and a.Inputs() == t.Inputs() and a.Id() == t.Id();
        };
        if (not is(t)) {
            s.Fail("tree says " + t.ToJson().dump(), "says");
        }
        auto r = Tree::FromJson(kNative, t.Id(), Json::parse(t.ToJson().dump()));
        if (not r or not is(**r)) {
            s.Fail("changes when written and read back", "roundtrip");
        }
        for (size_t k = 0; k < all.size(); ++k) {
            if ((all[k].Id() == t.Id()) != (k == (size_t)i)) {
                s.Fail("same identifier as another tree: " + all[k].ToJson().dump(), "id");
            }
        }
    });
    std::vector<std::vector<int>> lists{{}};
    for (size_t k = 0; k < lists.size() and lists[k].size() < 3; ++k) {
        for (int x = 0; x < n; ++x) {
            auto l = lists[k];
            l.push_back(x);
            lists.push_back(l);
        }
    }
    // a long list: order by number, not by name
    lists.emplace_back();
    for (int x = 0; x < 12; ++x) {
        lists.back().push_back(x % n);
    }
    auto overlay = [&](std::vector<int> const& l, bool disjoint) {
        TreeOverlay::to_overlay_t v;
        for (int k : l) {
            v.push_back(*Make(arts[(size_t)k], kNative));
        }
        return TreeOverlay{v, disjoint};
    };
    std::vector<TreeOverlay> ov;
    for (auto const& l : lists) {
        ov.push_back(overlay(l, false));
        ov.push_back(overlay(l, true));
    }
    hn::Enumerate("overlays", (long)ov.size(), "all overlays of up to three artifacts and one of twelve, disjoint or not, each against all others", [&](long i, hn::Shard& s) {
        auto const& l = lists[(size_t)i / 2];
        bool dis = i % 2 == 1;
        if (not s.Case(Json(l).dump() + (dis ? " disjoint" : ""))) {
            return;
        }
        s.Nontrivial();
        auto const& t = ov[(size_t)i];
        auto j = Json{{"trees", Json::array()}, {"disjoint", dis}};
        for (int k : l) {
            j["trees"].push_back(arts[(size_t)k].J());
        }
        auto is = [&](TreeOverlay const& x) {
            auto a = x.Action();
            // inputs in order of their names are the layers in order
            std::map<std::string, ArtifactDescription> in;
            for (auto const& [p, d] : x.Inputs()) {
                in.emplace(p, d);
            }
            bool ok = in.size() == l.size();
            size_t k = 0;
            for (auto const& [p, d] : in) {
                ok = ok and k < l.size() and d.ToJson() == arts[(size_t)l[k]].J();
                ++k;
            }
            return ok and x.ToJson() == j and x.Id() == t.Id() and x.Output() == ArtifactDescription::CreateTreeOverlay(t.Id()) and x.Output().IsTreeOverlay() and
                   a.GraphAction().IsTreeOverlayAction() and not a.GraphAction().IsTreeAction() and a.GraphAction().IsOverlayDisjoint() == dis and a.Inputs() == x.Inputs() and a.Id() == t.Id();
        };
        if (not is(t)) {
            s.Fail("overlay says " + t.ToJson().dump(), "says");
        }
        auto r = TreeOverlay::FromJson(kNative, t.Id(), Json::parse(t.ToJson().dump()));
        if (not r or not is(**r)) {
            s.Fail("changes when written and read back", "roundtrip");
        }
        for (size_t k = 0; k < ov.size(); ++k) {
            if ((ov[k].Id() == t.Id()) != (k == (size_t)i)) {
                s.Fail("same identifier as another overlay: " + ov[k].ToJson().dump(), "id");
            }
        }
        for (auto const& x : all) {
            if (x.Id() == t.Id()) {
                s.Fail("same identifier as a tree", "id");
            }
        }
    });
}

// collections of analysed targets
struct Tgt {
    int name = 0, conf = 0;
    std::vector<int> acts, blobs, trees, overlays;
};
void Results() {
    std::vector<ActionDescription::Ptr> acts;
    for (int k = 0; k < 4; ++k) {
        Act a;
        a.cmd = {"c" + std::to_string(k)};
        if (k == 2) {
            a.dirs = {"dir", "dir2"};
        }
        else {
            a.outs = {"o" + std::to_string(k), "p"};
            if (k == 3) {
                a.dirs = {"d"};
            }
        }
        a.ins = kIns[(size_t)k];
        // listed in an order other than that of the identifiers
        acts.push_back(std::make_shared<ActionDescription>(Make(a, std::string(1, (char)("caedb"[k])) + "id")));
    }
    std::vector<std::string> const blobs{"b2", "b1", ""};
    std::vector<Tree::Ptr> trees;
    std::vector<TreeOverlay::Ptr> ovs;
    for (int k = 0; k < 2; ++k) {
        ActionDescription::inputs_t in;
        in.emplace("x", *Make(Inputs()[(size_t)k], kNative));
        trees.push_back(std::make_shared<Tree>(std::move(in)));
        ovs.push_back(std::make_shared<TreeOverlay>(TreeOverlay::to_overlay_t{*Make(Inputs()[(size_t)k], kNative)}, k == 1));
    }
    std::vector<EntityName> names{EntityName{"r", "m", "n"}, EntityName{"r", "m", "o"}};
    std::vector<Configuration> confs{Configuration{}, Configuration{Expression::FromJson(R"({"K": "v"})"_json)}};
    // contents of a target
    std::vector<Tgt> contents;
    for (auto const& al : std::vector<std::vector<int>>{{}, {0}, {1, 0}, {2}, {3, 2}, {0, 0}}) {
        for (int rest = 0; rest < 3; ++rest) {
            Tgt t;
            t.acts = al;
            if (rest == 1) {
                t.blobs = {0, 1, 0};
                t.trees = {1};
                t.overlays = {0, 1};
            }
            if (rest == 2) {
                t.blobs = {2};
                t.trees = {0, 1};
                t.overlays = {1};
            }
            contents.push_back(t);
        }
    }
    auto const n = (long)contents.size();
    long const third = hn::ctx().thorough ? n : 6;
    hn::Enumerate("results", n * n, "collections of up to three analysed targets (two names, two configurations, the same one again) sharing actions, blobs, trees and overlays; in all orders of adding; jobs 1, 3", [&](long i, hn::Shard& s) {
        for (long k = -1; k < third; ++k) {
            for (int who = 0; who < 8; ++who) {
                std::vector<Tgt> ts{contents[(size_t)(i % n)], contents[(size_t)(i / n)]};
                ts[0].name = 0;
                ts[1].name = who & 1;
                ts[1].conf = (who >> 1) & 1;
                if (k >= 0) {
                    ts.push_back(contents[(size_t)((k * 5 + 1) % n)]);
                    ts[2].name = 1 - (who >> 2);
                    ts[2].conf = 1;
                }
                else if (who >= 4) {
                    continue;
                }
                if (not s.Case(std::to_string(i) + "," + std::to_string(k) + "," + std::to_string(who))) {
                    continue;
                }
                s.Nontrivial();
                // expected
                std::map<std::pair<int, int>, Tgt> kept;
                for (auto const& t : ts) {
                    kept.emplace(std::make_pair(t.name, t.conf), t);
                }
                std::map<std::string, int> ea;
                std::map<std::string, std::vector<std::pair<std::pair<int, int>, int>>> eo;
                std::set<std::string> eb;
                std::set<std::string> et, eov;
                for (auto const& [w, t] : kept) {
                    int pos = 0;
                    for (int a : t.acts) {
                        ea[acts[(size_t)a]->Id()] = a;
                        eo[acts[(size_t)a]->Id()].emplace_back(w, pos++);
                    }
                    for (int a : t.overlays) {
                        eo[ovs[(size_t)a]->Id()].emplace_back(w, pos++);
                        eov.insert(ovs[(size_t)a]->Id());
                    }
                    for (int a : t.blobs) {
                        eb.insert(blobs[(size_t)a]);
                    }
                    for (int a : t.trees) {
                        et.insert(trees[(size_t)a]->Id());
                    }
                }
                for (auto& [id, v] : eo) {
                    std::sort(v.begin(), v.end());
                }
                for (std::size_t jobs : {1, 3}) {
                    ResultTargetMap m{jobs};
                    std::map<std::pair<int, int>, AnalysedTargetPtr> first;
                    for (auto const& t : ts) {
                        auto pick = [](auto const& from, auto const& idx) {
                            std::remove_cvref_t<decltype(from)> r;
                            for (int x : idx) {
                                r.push_back(from[(size_t)x]);
                            }
                            return r;
                        };
                        auto at = std::make_shared<AnalysedTarget const>(
                            TargetResult{.artifact_stage = Expression::kEmptyMapExpr, .provides = Expression::kEmptyMapExpr, .runfiles = Expression::kEmptyMapExpr},
                            pick(acts, t.acts), pick(blobs, t.blobs), pick(trees, t.trees), pick(ovs, t.overlays), std::unordered_set<std::string>{}, std::set<std::string>{}, std::set<std::string>{},
                            TargetGraphInformation{std::make_shared<ConfiguredTarget>(ConfiguredTarget{names[(size_t)t.name], confs[(size_t)t.conf]}), {}, {}, {}});
                        auto got = m.Add(names[(size_t)t.name], confs[(size_t)t.conf], at, std::nullopt, t.name == 1);
                        auto it = first.emplace(std::make_pair(t.name, t.conf), at).first;
                        if (got != it->second) {
                            s.Fail("Add does not give the target of the collection", "add");
                        }
                    }
                    std::vector<std::string> wt, we, wg;
                    for (auto const& [w, t] : kept) {
                        auto ct = ConfiguredTarget{names[(size_t)w.first], confs[(size_t)w.second]};
                        wt.push_back(ct.ToString());
                        if (w.first == 1) {
                            we.push_back(ct.ToString());
                        }
                    }
                    std::sort(wt.begin(), wt.end());
                    std::sort(we.begin(), we.end());
                    auto strs = [](auto const& v) {
                        std::vector<std::string> r;
                        for (auto const& x : v) {
                            r.push_back(x.ToString());
                        }
                        return r;
                    };
                    if (strs(m.ConfiguredTargets()) != wt) {
                        s.Fail("configured targets", "targets");
                    }
                    if (strs(m.ExportTargets()) != we) {
                        s.Fail("export targets", "exports");
                    }
                    auto graph = m.ConfiguredTargetsGraph();
                    for (auto const& [x, y] : graph.items()) {
                        wg.push_back(x);
                    }
                    std::sort(wg.begin(), wg.end());
                    if (wg != wt) {
                        s.Fail("target graph", "targets");
                    }
                    for (auto const& a : acts) {
                        auto g = m.GetAction(a->Id());
                        if (g.has_value() != ea.contains(a->Id()) or (g and *g != a)) {
                            s.Fail("GetAction " + a->Id(), "getaction");
                        }
                    }
                    Statistics stats{};
                    Progress progress{};
                    auto r = m.ToResult(&stats, &progress);
                    auto ids = [](auto const& v) {
                        std::vector<std::string> r;
                        for (auto const& x : v) {
                            r.push_back(x->Id());
                        }
                        return r;
                    };
                    std::vector<std::string> wa;
                    for (auto const& [id, x] : ea) {
                        wa.push_back(id);
                    }
                    if (ids(r.actions) != wa or r.blobs != std::vector<std::string>(eb.begin(), eb.end()) or ids(r.trees) != std::vector<std::string>(et.begin(), et.end()) or
                        ids(r.tree_overlays) != std::vector<std::string>(eov.begin(), eov.end())) {
                        s.Fail("result has actions " + Json(ids(r.actions)).dump() + " blobs " + Json(r.blobs).dump() + " and " + std::to_string(r.trees.size()) + " trees, " + std::to_string(r.tree_overlays.size()) + " overlays", "result");
                        continue;
                    }
                    // where things come from, and what they are called
                    auto const& om = progress.OriginMap();
                    bool ok = om.size() == eo.size();
                    for (auto const& [id, v] : eo) {
                        ok = ok and om.contains(id) and om.at(id).size() == v.size();
                        std::vector<std::pair<std::string, int>> x, y;
                        for (size_t q = 0; ok and q < v.size(); ++q) {
                            x.emplace_back(om.at(id)[q].first.ToString(), (int)om.at(id)[q].second);
                            y.emplace_back(ConfiguredTarget{names[(size_t)v[q].first.first], confs[(size_t)v[q].first.second]}.ToString(), v[q].second);
                        }
                        std::sort(x.begin(), x.end());
                        std::sort(y.begin(), y.end());
                        ok = ok and x == y;
                    }
                    if (not ok) {
                        s.Fail("origins", "origins");
                    }
                    ok = progress.OutputMap().size() == ea.size();
                    for (auto const& [id, x] : ea) {
                        auto const& a = *acts[(size_t)x];
                        ok = ok and progress.OutputMap().contains(id) and progress.OutputMap().at(id) == (a.OutputFiles().empty() ? a.OutputDirs()[0] : a.OutputFiles()[0]);
                    }
                    if (not ok) {
                        s.Fail("names of actions", "names");
                    }
                    // the graph file
                    auto j = Json::parse(m.ToJson<true>(&stats, &progress).dump());
                    auto plain = m.ToJson<false>(&stats, &progress);
                    auto bare = j;
                    bool orig = true;
                    for (auto& [id, a] : bare["actions"].items()) {
                        orig = orig and a.contains("origins") and a["origins"].size() == eo[id].size();
                        std::multiset<std::string> x, y;
                        for (auto const& o : a["origins"]) {
                            x.insert(o.dump());
                        }
                        for (auto const& [w, pos] : eo[id]) {
                            y.insert(Json{{"target", names[(size_t)w.first].ToJson()}, {"subtask", pos}, {"config", confs[(size_t)w.second].ToJson()}}.dump());
                        }
                        orig = orig and x == y;
                        a.erase("origins");
                    }
                    if (not orig) {
                        s.Fail("origins in the graph file", "fileorigins");
                    }
                    if (bare != plain) {
                        s.Fail("graph file with and without origins", "plain");
                    }
                    ok = j["actions"].size() == ea.size() and j["trees"].size() == et.size() and j["blobs"] == Json(eb) and
                         (eov.empty() ? not j.contains("tree_overlays") : j["tree_overlays"].size() == eov.size());
                    for (auto const& [id, x] : ea) {
                        auto a = ok and j["actions"].contains(id) ? ActionDescription::FromJson(kNative, id, j["actions"][id]) : std::nullopt;
                        ok = a and (*a)->ToJson() == acts[(size_t)x]->ToJson() and (*a)->Id() == id;
                    }
                    for (auto const& t : trees) {
                        ok = ok and j["trees"].contains(t->Id()) == et.contains(t->Id());
                        if (ok and et.contains(t->Id())) {
                            ok = j["trees"][t->Id()] == t->ToJson();
                        }
                    }
                    for (auto const& t : ovs) {
                        if (ok and eov.contains(t->Id())) {
                            ok = j["tree_overlays"].contains(t->Id()) and j["tree_overlays"][t->Id()] == t->ToJson();
                        }
                    }
                    if (not ok) {
                        s.Fail("graph file " + j.dump(), "file");
                    }
                }
            }
        }
    });
}

// the dependency graph
void Dag() {
    struct A {
        std::string id;
        std::vector<std::string> outs, dirs;
        std::vector<Art> ins;
        int kind = 0;  // 0 action, 1 tree, 2 overlay, 3 no command, 4 no outputs
    };
    Art const l0{"LOCAL", "p", "r", 0, 'f', {}};
    auto out = [](std::string const& id, std::string const& p) { return Art{"ACTION", id, p, 0, 'f', {}}; };
    std::vector<A> pool{
        {"A", {"x"}, {}, {l0}, 0},
        {"A", {"x"}, {}, {}, 0},
        {"A", {"y"}, {}, {}, 0},
        {"A", {}, {"x"}, {}, 0},
        {"B", {"x", "y"}, {}, {out("A", "x"), out("A", "y")}, 0},
        {"B", {"x", "x"}, {}, {}, 0},
        {"C", {"x"}, {"d"}, {out("A", "x"), out("B", "x"), l0}, 0},
        {"C", {}, {"d"}, {{"TREE", "T", "", 0, 'f', {}}, {"TREE_OVERLAY", "T", "", 0, 'f', {}}}, 0},
        {"T", {}, {}, {out("A", "x"), l0}, 1},
        {"T", {}, {}, {out("B", "x"), {"TREE", "T", "", 0, 'f', {}}}, 2},
        {"D", {"x"}, {}, {l0}, 3},
        {"E", {}, {}, {l0}, 4},
        {"F", {"x"}, {}, {out("F", "x"), out("A", "x"), out("A", "x")}, 0},
    };
    long const n = (long)pool.size();
    hn::Enumerate("dag", n * n * n, "all sequences of three actions, trees and overlays out of 13 that share, repeat, contradict or depend on each other", [&](long i, hn::Shard& s) {
        std::vector<int> seq{(int)(i % n), (int)(i / n % n), (int)(i / n / n)};
        if (not s.Case(Json(seq).dump())) {
            return;
        }
        s.Nontrivial();
        DependencyGraph g;
        std::map<std::string, std::string> builder;  // artifact id -> action
        struct Seen {
            std::vector<std::pair<std::string, std::string>> outs, dirs, deps;
        };
        std::map<std::string, Seen> seen;
        std::map<std::string, std::multiset<std::string>> consumers;
        std::set<std::string> arts;
        for (int k : seq) {
            auto const& a = pool[(size_t)k];
            ActionDescription::inputs_t in;
            int c = 0;
            for (auto const& x : a.ins) {
                in.emplace("in" + std::to_string(c++), *Make(x, kNative));
            }
            auto act = a.kind == 1 ? Action::CreateTreeAction(a.id) : a.kind == 2 ? Action::CreateTreeOverlayAction(a.id, false)
                                                                                  : Action{a.id, a.kind == 3 ? Names{} : Names{"c"}, {}};
            ActionDescription d{a.outs, a.dirs, act, in};
            bool bad = a.kind >= 3;
            std::vector<std::pair<std::string, std::string>> outs, dirs;
            if (a.kind == 1) {
                dirs.emplace_back("", ArtifactDescription::CreateTree(a.id).Id());
            }
            if (a.kind == 2) {
                dirs.emplace_back("", ArtifactDescription::CreateTreeOverlay(a.id).Id());
            }
            for (auto const& x : a.outs) {
                outs.emplace_back(x, ArtifactDescription::CreateAction(a.id, x).Id());
            }
            for (auto const& x : a.dirs) {
                dirs.emplace_back(x, ArtifactDescription::CreateAction(a.id, x).Id());
            }
            auto b = builder;
            for (auto const& v : {outs, dirs}) {
                for (auto const& [p, id] : v) {
                    bad = bad or not b.emplace(id, a.id).second;
                }
            }
            bool ok = g.Add(std::vector<ActionDescription>{d});
            if (ok == bad) {
                s.Fail(std::string{ok ? "accepted" : "rejected"} + " action " + std::to_string(k), "accept");
                return;
            }
            s.Outcome(ok ? "accepted" : "rejected");
            if (not ok) {
                return;  // what a refused graph looks like is of no matter
            }
            builder = b;
            auto& se = seen[a.id];
            for (auto const& x : outs) {
                se.outs.push_back(x);
                arts.insert(x.second);
            }
            for (auto const& x : dirs) {
                se.dirs.push_back(x);
                arts.insert(x.second);
            }
            for (auto const& [p, x] : in) {
                se.deps.emplace_back(p, x.Id());
                consumers[x.Id()].insert(a.id);
                arts.insert(x.Id());
            }
        }
        auto ids = g.ArtifactIdentifiers();
        if (std::set<std::string>(ids.begin(), ids.end()) != arts) {
            s.Fail("artifacts of the graph", "artifacts");
        }
        auto named = [](auto const& v) {
            std::multiset<std::pair<std::string, std::string>> r;
            for (auto const& x : v) {
                r.emplace(x.path, x.node->Content().Id());
            }
            return r;
        };
        using MS = std::multiset<std::pair<std::string, std::string>>;
        for (auto const& [id, se] : seen) {
            auto const* node = g.ActionNodeWithId(id);
            if (node == nullptr or node->Content().Id() != id or named(node->OutputFiles()) != MS(se.outs.begin(), se.outs.end()) or
                named(node->OutputDirs()) != MS(se.dirs.begin(), se.dirs.end()) or named(node->Dependencies()) != MS(se.deps.begin(), se.deps.end())) {
                s.Fail("node of action " + id, "action");
            }
            else {
                Names p;
                for (auto const& x : se.outs) {
                    p.push_back(x.first);
                }
                if (node->OutputFilePaths() != p or node->DependencyPaths().size() != se.deps.size() or node->OutputDirPaths().size() != se.dirs.size()) {
                    s.Fail("paths of action " + id, "paths");
                }
            }
        }
        for (auto const& id : arts) {
            auto const* node = g.ArtifactNodeWithId(id);
            if (node == nullptr or node->Content().Id() != id or node->HasBuilderAction() != builder.contains(id) or
                (builder.contains(id) and (node->BuilderActionNode() == nullptr or node->BuilderActionNode() != g.ActionNodeWithId(builder[id])))) {
                s.Fail("node of artifact " + id, "artifact");
                continue;
            }
            std::multiset<std::string> c;
            for (auto const& p : node->Parents()) {
                c.insert(p->Content().Id());
            }
            if (c != consumers[id]) {
                s.Fail("consumers of an artifact", "consumers");
            }
        }
        if (g.ActionNodeWithId("Z") != nullptr or g.ArtifactNodeWithId("Z") != nullptr) {
            s.Fail("nodes invented", "none");
        }
    });
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    LogConfig::SetSinks({});
    Artifacts();
    Malformed();
    Actions();
    Trees();
    Results();
    Dag();
    return hn::Finish();
}
