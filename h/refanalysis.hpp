// Reference analysis of targets, written from doc/concepts (overview,
// configuration, rules, built-in-rules, anonymous-targets, target-cache):
// every target is analysed in its full configuration, functionally, without
// any sharing between configurations.
#ifndef VERIF_H_REFANALYSIS_HPP
#define VERIF_H_REFANALYSIS_HPP
#include <set>
#include "h/refeval.hpp"

namespace refana {
using refeval::Env;
using refeval::Err;
using refeval::HasName;
using refeval::IsMap;
using refeval::IsSpecial;
using refeval::J;
using refeval::Str;

// Contents by number, so that references to actions, trees, nodes, and so on
// stay small. Shared by both sides.
struct Interned {
    std::map<std::string, int> id;
    std::vector<std::string> text;
    int operator()(std::string const& s) {
        auto [it, fresh] = id.emplace(s, (int)text.size());
        if (fresh) {
            text.push_back(s);
        }
        return it->second;
    }
};
inline Interned& In() {
    static Interned i;
    return i;
}
inline J Special(std::string const& kind, J const& content) {
    return J{{"@", kind + ":" + std::to_string(In()(content.dump()))}};
}
inline bool IsKind(J const& v, std::string const& kind) {
    return IsSpecial(v) and v["@"].get<std::string>().starts_with(kind + ":");
}
inline J Content(J const& v) {
    auto s = v["@"].get<std::string>();
    return J::parse(In().text.at((size_t)std::stol(s.substr(s.find(':') + 1))));
}
inline bool IsArt(J const& v) { return IsKind(v, "art"); }
inline J Local(std::string const& repo, std::string const& path) {
    return Special("art", J::array({"L", repo, path}));
}
inline J Known(std::string const& type, std::string const& content) {
    return Special("art", J::array({"K", type, content}));
}
inline J TreeOf(J const& stage) { return Special("art", J::array({"T", stage})); }
inline J OverlayOf(J const& trees, bool disjoint) {
    return Special("art", J::array({"O", trees, disjoint}));
}
// target name: [repository, module, name, kind]
inline J Name(std::string const& repo, std::string const& module, std::string const& name, std::string const& kind = "") {
    return Special("name", J::array({"t", repo, module, name, kind}));
}

inline std::string Norm(std::string const& p) { return refeval::Render(refeval::Parse(p)); }
inline std::string NormModule(std::string const& m) {
    auto p = refeval::Parse("/" + m);
    p.abs = false;
    auto s = refeval::Render(p);
    return s == "." ? "" : s;
}

// A stage as a set of paths: normalized, inside, no path below another, no
// two different artifacts at the same place.
inline J Stage(J const& m) {
    refeval::Map(m);
    J r = J::object();
    for (auto const& [k, v] : m.items()) {
        if (not IsArt(v)) {
            throw Err{};
        }
        auto n = Norm(k);
        if (r.contains(n) and r[n] != v) {
            throw Err{};
        }
        r[n] = v;
    }
    return r;
}
inline void NoTreeConflict(J const& m) {
    std::map<std::string, J> seen;
    for (auto const& [k, v] : m.items()) {
        auto p = refeval::Parse(k);
        if (p.abs or (not p.c.empty() and p.c[0] == "..")) {
            throw Err{};
        }
        auto n = refeval::Render(p);
        if (seen.count(n) != 0 and seen.at(n) != v) {
            throw Err{};
        }
        seen[n] = v;
    }
    for (auto const& [n, v] : seen) {
        if (n == "." and seen.size() > 1) {
            throw Err{};
        }
        for (auto i = n.find('/'); i != std::string::npos; i = n.find('/', i + 1)) {
            if (seen.count(n.substr(0, i)) != 0) {
                throw Err{};
            }
        }
    }
}
inline J StageChecked(J const& m) {
    auto r = Stage(m);
    NoTreeConflict(r);
    return r;
}
inline J Overlay(J a, J const& b) {
    for (auto const& [k, v] : b.items()) {
        a[k] = v;
    }
    return a;
}
inline J DisjointUnion(J a, J const& b) {
    for (auto const& [k, v] : b.items()) {
        if (a.contains(k) and a[k] != v) {
            throw Err{};
        }
        a[k] = v;
    }
    return a;
}
// the working directory exists in the action
inline J WithDir(std::string const& cwd, J inputs) {
    auto c = refeval::Parse(cwd);
    if (c.c.empty()) {
        return inputs;
    }
    for (auto const& [k, v] : inputs.items()) {
        auto p = refeval::Parse(k);
        auto n = std::min(p.c.size(), c.c.size());
        if (std::equal(p.c.begin(), p.c.begin() + (long)n, c.c.begin())) {
            return inputs;  // below, at, or above the directory
        }
    }
    inputs[refeval::Render(c)] = TreeOf(J::object());
    return inputs;
}

struct Analysis {
    J artifacts = J::object();
    J runfiles = J::object();
    J provides = J::object();
    std::set<std::string> vars;
    std::set<std::string> tainted;
    std::set<std::string> implied;
};

struct Repo {
    std::map<std::string, J> targets;  // by module
    std::map<std::string, J> rules;
    std::map<std::string, J> exprs;
    std::map<std::string, char> files;  // path -> 'f' file, 'd' directory, 'l' link
    std::map<std::string, std::string> bindings;
};

class World {
  public:
    std::map<std::string, Repo> repos;

    // actions created by the analysis of everything reachable, since cleared
    std::set<std::string> actions;

    using Dep = std::map<std::pair<std::string, std::string>, Analysis const*>;

    Analysis const& Analyse(J const& name, Env const& config) {
        auto key = name.dump() + J(config).dump();
        auto it = memo_.find(key);
        if (it == memo_.end()) {
            memo_.emplace(key, Entry{});  // a cycle is an error
            Entry e;
            auto outer = std::move(actions);
            actions.clear();
            try {
                e.result = Compute(name, config);
                e.ok = true;
            } catch (Err const& x) {
                e.error = x.msg;
            } catch (J::exception const&) {
            }
            e.actions = actions;
            actions = std::move(outer);
            it = memo_.insert_or_assign(key, std::move(e)).first;
        }
        actions.insert(it->second.actions.begin(), it->second.actions.end());
        if (not it->second.ok) {
            throw Err{it->second.error};
        }
        return it->second.result;
    }
    void Forget() { memo_.clear(); }

    // ------------------------------------------------------------- names
    J ParseName(J const& v, J const& current) {
        auto cur = Content(current);
        std::string repo = cur[1];
        std::string module = cur[2];
        if (v.is_string()) {
            return Name(repo, module, v);
        }
        if (not v.is_array()) {
            throw Err{};
        }
        if (v.size() == 2) {
            return Name(repo, NormModule(Str(v[0])), Str(v[1]));
        }
        if (v.size() < 3) {
            throw Err{};
        }
        auto h = Str(v[0]);
        if (h == "./" and v.size() == 3) {
            auto p = refeval::Parse(refeval::Concat(module, Str(v[1])));
            if (p.abs) {
                // an absolute path as relative module: taken from the root
                p.abs = false;
            }
            if (not p.c.empty() and p.c[0] == "..") {
                throw Err{};
            }
            auto m = refeval::Render(p);
            return Name(repo, m == "." ? "" : m, Str(v[2]));
        }
        if (h == "@" and v.size() == 4) {
            auto const& b = repos.at(repo).bindings;
            auto it = b.find(Str(v[1]));
            if (it == b.end()) {
                throw Err{};
            }
            return Name(it->second, NormModule(Str(v[2])), Str(v[3]));
        }
        if ((h == "FILE" or h == "TREE" or h == "GLOB" or h == "SYMLINK") and v.size() == 3) {
            if (not v[1].is_null() and Str(v[1]) != "." and Str(v[1]) != module) {
                throw Err{};
            }
            return Name(repo, module, Str(v[2]), h);
        }
        throw Err{};
    }

  private:
    struct Entry {
        Analysis result;
        std::set<std::string> actions;
        bool ok = false;
        std::string error;
    };
    std::map<std::string, Entry> memo_;

    static std::vector<std::string> Strings(J const& l) {
        std::vector<std::string> r;
        for (auto const& x : refeval::List(l)) {
            r.push_back(Str(x));
        }
        return r;
    }
    static Env Restrict(Env const& c, std::vector<std::string> const& vars) {
        Env r;
        for (auto const& v : vars) {
            auto it = c.find(v);
            r[v] = it == c.end() ? J{} : it->second;
        }
        return r;
    }
    static Env Update(Env c, J const& m) {
        for (auto const& [k, v] : m.items()) {
            c[k] = v;
        }
        return c;
    }
    static J FieldOf(J const& d, char const* k, J dflt) { return d.contains(k) ? d[k] : std::move(dflt); }

    static J const& ObjectOf(J const& d, char const* k) {
        static J const kNone = J::object();
        if (not d.contains(k)) {
            return kNone;
        }
        if (not refeval::IsMap(d.at(k))) {
            throw Err{};
        }
        return d.at(k);
    }

    // --------------------------------------------------- evaluation contexts
    struct Ctx : refeval::Ref {
        World* w = nullptr;
        bool main = false;
        bool field = false;
        bool names = false;  // outs, runfiles
        bool call = false;
        J imports = J::object();  // name -> expression name
        std::map<std::string, J> const* params = nullptr;
        Dep const* deps = nullptr;
        J current;
        std::set<std::string> const* rule_taint = nullptr;

        Analysis const& DepOf(J const& name, J const& transition) {
            auto it = deps->find({name.dump(), transition.dump()});
            if (it == deps->end()) {
                throw Err{};
            }
            return *it->second;
        }
        Analysis const& ObtainDep(J const& e, Env const& env) {
            auto d = Arg(e, "dep", env);
            if (not IsKind(d, "name")) {
                throw Err{};
            }
            return DepOf(d, Arg(e, "transition", env, J::object({{"type", "empty_map"}})));
        }
        J Arg0(J const& e, char const* k, Env const& env, J const& dflt) {
            return e.contains(k) ? E(e[k], env) : dflt;
        }
        static std::vector<std::string> Paths(J const& l) {
            std::set<std::string> r;
            for (auto const& x : Strings(l)) {
                r.insert(Norm(x));
            }
            return {r.begin(), r.end()};
        }
        static void NonUpwards(std::string const& p) {
            auto x = refeval::Parse(p);
            if (x.abs or (not x.c.empty() and x.c[0] == "..")) {
                throw Err{};
            }
        }
        J Extra(std::string const& t, J const& e, Env const& env) override {
            if (names and (t == "outs" or t == "runfiles")) {
                auto n = w->ParseName(Arg(e, "dep", env), current);
                auto const& a = DepOf(n, Arg(e, "transition", env, J::object({{"type", "empty_map"}})));
                J r = J::array();
                for (auto const& [k, v] : (t == "outs" ? a.artifacts : a.runfiles).items()) {
                    r.push_back(k);
                }
                return r;
            }
            if (call and t == "CALL_EXPRESSION") {
                auto n = Str(e.contains("name") ? e["name"] : J{});
                if (not imports.contains(n)) {
                    throw Err{};
                }
                auto id = imports[n];
                auto c = Content(id);
                auto const& x = w->repos.at(c[1]).exprs.at(c[2]).at(c[3].get<std::string>());
                Ctx sub = *this;
                sub.imports = w->Imports(x, id);
                return sub.E(x.at("expression"), Restrict(env, Strings(FieldOf(x, "vars", J::array()))));
            }
            if (field and t == "FIELD") {
                auto it = params->find(Str(Arg(e, "name", env)));
                if (it == params->end()) {
                    throw Err{};
                }
                return it->second;
            }
            if (not main) {
                throw Err{};
            }
            if (t == "DEP_ARTIFACTS") {
                return ObtainDep(e, env).artifacts;
            }
            if (t == "DEP_RUNFILES") {
                return ObtainDep(e, env).runfiles;
            }
            if (t == "DEP_PROVIDES") {
                auto const& p = ObtainDep(e, env).provides;
                auto k = Str(Arg(e, "provider", env));
                if (p.contains(k) and not p[k].is_null()) {
                    return p[k];
                }
                return Arg(e, "default", env, J::array());
            }
            if (t == "ACTION") {
                return Action(e, env);
            }
            if (t == "BLOB") {
                return Known("f", Str(Arg0(e, "data", env, "")));
            }
            if (t == "SYMLINK") {
                auto d = Str(Arg0(e, "data", env, ""));
                NonUpwards(d);
                return Known("l", d);
            }
            if (t == "TREE") {
                return TreeOf(StageChecked(Arg0(e, "$1", env, J::object())));
            }
            if (t == "TREE_OVERLAY" or t == "DISJOINT_TREE_OVERLAY") {
                J l = J::array();
                for (auto const& x : refeval::List(Arg0(e, "$1", env, J::array()))) {
                    l.push_back(TreeOf(StageChecked(x)));
                }
                return OverlayOf(l, t != "TREE_OVERLAY");
            }
            if (t == "VALUE_NODE") {
                auto v = Arg0(e, "$1", env, J{});
                if (not IsSpecial(v) or v["@"].get<std::string>().find("res:") == std::string::npos) {
                    throw Err{};
                }
                return Special(HasName(v) ? "name-node" : "node", J::array({"v", v}));
            }
            if (t == "ABSTRACT_NODE") {
                auto type = Str(Arg0(e, "node_type", env, J{}));
                auto sf = refeval::Map(Arg0(e, "string_fields", env, J::object()));
                auto tf = refeval::Map(Arg0(e, "target_fields", env, J::object()));
                for (auto const& [k, v] : sf.items()) {
                    Strings(v);
                    if (tf.contains(k)) {
                        throw Err{};
                    }
                }
                for (auto const& [k, v] : tf.items()) {
                    for (auto const& x : refeval::List(v)) {
                        if (not IsNode(x)) {
                            throw Err{};
                        }
                    }
                }
                return Special(HasName(tf) ? "name-node" : "node", J::array({"a", type, sf, tf}));
            }
            if (t == "RESULT") {
                auto p = refeval::Map(Arg0(e, "provides", env, J::object()));
                auto a = StageChecked(Arg0(e, "artifacts", env, J::object()));
                auto r = StageChecked(Arg0(e, "runfiles", env, J::object()));
                return Special(HasName(p) ? "name-res" : "res", J{{"artifacts", a}, {"runfiles", r}, {"provides", p}});
            }
            throw Err{};
        }
        static bool IsNode(J const& v) { return IsKind(v, "node") or IsKind(v, "name-node"); }
        // the strings the rule itself is tainted with
        bool Taints(J const& e, char const* k) {
            auto l = Strings(e.contains(k) ? e[k] : J::array());
            for (auto const& x : l) {
                if (rule_taint->count(x) == 0) {
                    throw Err{};
                }
            }
            return not l.empty();
        }
        static J StringMap(J const& m) {
            refeval::Map(m);
            for (auto const& [k, v] : m.items()) {
                Str(v);
            }
            return m;
        }
        J Action(J const& e, Env const& env) {
            auto inputs = StageChecked(Arg0(e, "inputs", env, J::object()));
            auto outs_l = Strings(Arg0(e, "outs", env, J::array()));
            auto dirs_l = Strings(Arg0(e, "out_dirs", env, J::array()));
            auto cmd = Strings(Arg0(e, "cmd", env, J::array()));
            auto cwd = Str(Arg0(e, "cwd", env, ""));
            NonUpwards(cwd);
            auto envm = StringMap(Arg0(e, "env", env, J::object()));
            if (cmd.empty()) {
                throw Err{};
            }
            J fail;
            if (Taints(e, "may_fail")) {
                fail = Str(Arg0(e, "fail_message", env, "action failed"));
            }
            bool no_cache = Taints(e, "no_cache");
            auto scale = Arg0(e, "timeout scaling", env, 1.0);
            auto props = Arg0(e, "execution properties", env, J::object());
            return w->MakeAction(outs_l, dirs_l, cmd, cwd, envm, fail, no_cache, scale, props, inputs);
        }
    };

    J MakeAction(std::vector<std::string> const& outs_l, std::vector<std::string> const& dirs_l,
                 std::vector<std::string> const& cmd, std::string const& cwd, J const& env, J const& fail,
                 bool no_cache, J scale, J props, J const& inputs) {
        auto outs = Ctx::Paths(J(outs_l));
        auto dirs = Ctx::Paths(J(dirs_l));
        if (outs.empty() and dirs.empty()) {
            throw Err{};
        }
        for (auto const& o : outs) {
            if (std::find(dirs.begin(), dirs.end(), o) != dirs.end()) {
                throw Err{};
            }
        }
        if (scale.is_null()) {
            scale = 1.0;
        }
        if (not scale.is_number()) {
            throw Err{};
        }
        if (props.is_null()) {
            props = J::object();
        }
        auto p = Ctx::StringMap(props);
        J a{{"outs", outs}, {"dirs", dirs}, {"cmd", cmd}, {"cwd", cwd}, {"env", env}, {"fail", fail},
            {"no_cache", no_cache}, {"scale", scale.get<double>()}, {"props", p}, {"inputs", WithDir(cwd, inputs)}};
        actions.insert(a.dump());
        auto id = In()(a.dump());
        J r = J::object();
        for (auto const* l : {&outs_l, &dirs_l}) {
            for (auto const& o : *l) {
                r[o] = Special("art", J::array({"A", id, Norm(o)}));
            }
        }
        return r;
    }

    J Imports(J const& x, J const& id) {
        J r = J::object();
        for (auto const& [k, v] : ObjectOf(x, "imports").items()) {
            r[k] = ParseName(v, id);
            auto c = Content(r[k]);
            if (c[4] != "" or not repos.count(c[1]) or not repos.at(c[1]).exprs.count(c[2]) or
                not repos.at(c[1]).exprs.at(c[2]).contains(c[3].get<std::string>())) {
                throw Err{};
            }
            Imports(repos.at(c[1]).exprs.at(c[2]).at(c[3].get<std::string>()), r[k]);
        }
        return r;
    }

    // -------------------------------------------------------------- targets
    static void CheckTaint(std::set<std::string> const& own, std::vector<Analysis const*> const& deps) {
        for (auto const* d : deps) {
            if (not std::includes(own.begin(), own.end(), d->tainted.begin(), d->tainted.end())) {
                throw Err{};
            }
        }
    }
    static void AddImplied(Analysis* a, std::vector<Analysis const*> const& deps) {
        for (auto const* d : deps) {
            a->implied.insert(d->implied.begin(), d->implied.end());
        }
    }
    static void AddVars(Analysis* a, Analysis const& d, J const& transition) {
        for (auto const& v : d.vars) {
            if (not transition.contains(v)) {
                a->vars.insert(v);
            }
        }
    }
    std::set<std::string> TaintOf(J const& desc, Env const& param_config) {
        Ctx c;
        std::set<std::string> r;
        for (auto const& x : Strings(c.E(FieldOf(desc, "tainted", J::array()), param_config))) {
            r.insert(x);
        }
        return r;
    }

    Analysis Compute(J const& name, Env const& config) {
        if (not IsKind(name, "name")) {
            throw Err{};
        }
        auto n = Content(name);
        if (n[0] == "anon") {
            return Anonymous(name, n[1], n[2], config);
        }
        std::string repo = n[1];
        std::string module = n[2];
        std::string target = n[3];
        std::string kind = n[4];
        if (not repos.count(repo)) {
            throw Err{};
        }
        auto const& r = repos.at(repo);
        if (kind == "TREE") {
            return SourceTree(r, repo, module, target);
        }
        if (kind == "GLOB") {
            Analysis a;
            for (auto const& [f, k] : r.files) {
                auto pre = module.empty() ? "" : module + "/";
                if (k != 'd' and f.size() > pre.size() and f.starts_with(pre) and f.find('/', pre.size()) == std::string::npos and
                    Matches(target, f.substr(pre.size()))) {
                    a.artifacts[f.substr(pre.size())] = Local(repo, f);
                }
            }
            a.runfiles = a.artifacts;
            return a;
        }
        if (kind == "FILE" or kind == "SYMLINK") {
            // a reference by the wrong one of the two kinds is not specified
            return Source(r, repo, module, target, 0);
        }
        if (not r.targets.count(module)) {
            throw Err{};
        }
        auto const& targets = r.targets.at(module);
        if (not targets.contains(target)) {
            return Source(r, repo, module, target, 0);
        }
        auto const& desc = targets[target];
        if (not desc.contains("type")) {
            throw Err{};
        }
        auto type = desc["type"];
        if (type.is_string()) {
            static std::map<std::string, Analysis (World::*)(J const&, J const&, Env const&)> const kBuiltin{
                {"install", &World::Install},
                {"generic", &World::Generic},
                {"file_gen", &World::BlobGen},
                {"symlink", &World::BlobGen},
                {"tree", &World::TreeRule},
                {"tree_overlay", &World::TreeRule},
                {"disjoint_tree_overlay", &World::TreeRule},
                {"configure", &World::Configure},
                {"export", &World::Export}};
            auto it = kBuiltin.find(type);
            if (it != kBuiltin.end()) {
                return (this->*(it->second))(name, desc, config);
            }
        }
        auto rule = ParseName(type, name);
        Params p;
        p.vars = Strings(FieldOf(desc, "arguments_config", J::array()));
        p.desc = desc;
        p.current = name;
        p.tainted = FieldOf(desc, "tainted", J::array());
        return UserRule(rule, p, config);
    }

    Analysis Source(Repo const& r, std::string const& repo, std::string const& module, std::string const& target, char kind) {
        auto p = refeval::Parse(target);
        if (p.abs or (not p.c.empty() and p.c[0] == "..")) {
            throw Err{};
        }
        // a file is named by a path that ends in its name
        if (refeval::FileName(target) == "" or refeval::FileName(target) == "." or refeval::FileName(target) == "..") {
            throw Err{};
        }
        auto n = refeval::Render(p);
        auto path = module.empty() ? n : module + "/" + n;
        auto it = r.files.find(path);
        if (it == r.files.end() or it->second == 'd' or (kind == 'f' and it->second != 'f') or (kind == 'l' and it->second != 'l')) {
            throw Err{};
        }
        Analysis a;
        a.artifacts = J{{n, Local(repo, path)}};
        a.runfiles = a.artifacts;
        return a;
    }
    // shell pattern
    static bool Matches(std::string_view p, std::string_view n) {
        if (p.empty()) {
            return n.empty();
        }
        if (p[0] == '*') {
            return Matches(p.substr(1), n) or (not n.empty() and Matches(p, n.substr(1)));
        }
        if (n.empty()) {
            return false;
        }
        if (p[0] == '[') {
            auto end = p.find(']', 2);
            if (end != std::string_view::npos) {
                auto set = p.substr(1, end - 1);
                bool neg = set[0] == '!';
                set.remove_prefix(neg ? 1 : 0);
                bool in = false;
                for (size_t i = 0; i < set.size(); ++i) {
                    if (i + 2 < set.size() and set[i + 1] == '-') {
                        in = in or (set[i] <= n[0] and n[0] <= set[i + 2]);
                        i += 2;
                    }
                    else {
                        in = in or set[i] == n[0];
                    }
                }
                return in != neg and Matches(p.substr(end + 1), n.substr(1));
            }
        }
        if (p[0] == '\\' and p.size() > 1) {
            p.remove_prefix(1);
        }
        else if (p[0] == '?') {
            return Matches(p.substr(1), n.substr(1));
        }
        return p[0] == n[0] and Matches(p.substr(1), n.substr(1));
    }
    J DirTree(Repo const& r, std::string const& repo, std::string const& path) {
        J m = J::object();
        for (auto const& [f, k] : r.files) {
            auto pre = path.empty() ? "" : path + "/";
            if (f.size() > pre.size() and f.starts_with(pre) and f.find('/', pre.size()) == std::string::npos) {
                m[f.substr(pre.size())] = k == 'd' ? DirTree(r, repo, f) : Local(repo, f);
            }
        }
        return TreeOf(m);
    }
    Analysis SourceTree(Repo const& r, std::string const& repo, std::string const& module, std::string const& target) {
        auto path = NormModule(module + "/" + target);
        if (not path.empty() and (not r.files.count(path) or r.files.at(path) != 'd')) {
            throw Err{"unspecified"};
        }
        Analysis a;
        a.artifacts = J{{target, DirTree(r, repo, path)}};
        a.runfiles = a.artifacts;
        return a;
    }

    Analysis Anonymous(J const& name, J const& rule_map, J const& node, Env const& config) {
        auto c = Content(node);
        if (c[0] == "v") {
            auto res = Content(c[1]);
            Analysis a;
            a.artifacts = res["artifacts"];
            a.runfiles = res["runfiles"];
            a.provides = res["provides"];
            return a;
        }
        if (not rule_map.contains(c[1].get<std::string>())) {
            throw Err{};
        }
        Params p;
        p.anonymous = true;
        p.strings = c[2];
        p.targets = c[3];
        p.rule_map = rule_map;
        p.current = name;
        p.tainted = J::array();
        return UserRule(rule_map[c[1].get<std::string>()], p, config);
    }

    struct Params {
        std::vector<std::string> vars;
        J desc = J::object();
        J current;
        J tainted;
        bool anonymous = false;
        J strings;
        J targets;
        J rule_map;
        J Field(std::string const& k, bool target) const {
            if (not anonymous) {
                return desc.contains(k) ? desc[k] : J::array();
            }
            auto const& mine = target ? targets : strings;
            auto const& other = target ? strings : targets;
            if (other.contains(k)) {
                throw Err{};
            }
            auto v = mine.contains(k) ? mine[k] : J::array();
            if (not target) {
                return v;
            }
            J l = J::array();
            for (auto const& n : v) {
                l.push_back(Special("name", J::array({"anon", rule_map, n})));
            }
            return l;
        }
    };
    static J Transition(Ctx& c, J const& rule, std::string const& field, Env const& env) {
        auto const& all = FieldOf(rule, "config_transitions", J::object());
        if (not all.contains(field)) {
            return J::array({J::object()});
        }
        auto t = refeval::List(c.E(all[field], env));
        for (auto const& x : t) {
            refeval::Map(x);
        }
        return t;
    }

    void CheckRule(J const& rule, J const& id) {
        std::set<std::string> seen{"arguments_config", "tainted", "type"};
        std::set<std::string> tf;
        for (auto const* k : {"target_fields", "string_fields", "config_fields"}) {
            std::set<std::string> here;
            for (auto const& x : Strings(FieldOf(rule, k, J::array()))) {
                here.insert(x);
            }
            for (auto const& x : here) {
                if (not seen.insert(x).second) {
                    throw Err{};
                }
                if (std::string{k} == "target_fields") {
                    tf.insert(x);
                }
            }
        }
        for (auto const* k : {"implicit", "anonymous"}) {
            for (auto const& [x, v] : ObjectOf(rule, k).items()) {
                if (not seen.insert(x).second) {
                    throw Err{};
                }
                tf.insert(x);
                if (std::string{k} == "implicit") {
                    for (auto const& t : refeval::List(v)) {
                        ParseName(t, id);
                    }
                }
                else {
                    Str(v.at("target"));
                    Str(v.at("provider"));
                    for (auto const& [y, n] : v.at("rule_map").items()) {
                        ParseName(n, id);
                    }
                }
            }
        }
        for (auto const& [x, v] : ObjectOf(rule, "config_transitions").items()) {
            if (tf.count(x) == 0) {
                throw Err{};
            }
        }
        for (auto const& [x, v] : ObjectOf(rule, "anonymous").items()) {
            auto t = v["target"].get<std::string>();
            if (tf.count(t) == 0 or FieldOf(rule, "anonymous", J::object()).contains(t)) {
                throw Err{"unspecified"};
            }
        }
    }

    Analysis UserRule(J const& rule_id, Params const& p, Env const& config) {
        auto rc = Content(rule_id);
        if (rc[0] != "t" or rc[4] != "" or not repos.count(rc[1]) or not repos.at(rc[1]).rules.count(rc[2])) {
            throw Err{};
        }
        auto const& rules = repos.at(rc[1]).rules.at(rc[2]);
        if (not rules.contains(rc[3].get<std::string>())) {
            throw Err{};
        }
        auto const& rule = rules[rc[3].get<std::string>()];
        CheckRule(rule, rule_id);
        auto imports = Imports(rule, rule_id);
        auto config_vars = Strings(FieldOf(rule, "config_vars", J::array()));
        auto param_config = Restrict(config, p.vars);
        auto rule_config = Restrict(config, config_vars);

        std::map<std::string, J> params;
        Ctx plain;
        plain.w = this;
        for (auto const& f : Strings(FieldOf(rule, "config_fields", J::array()))) {
            auto v = plain.E(p.Field(f, false), param_config);
            Strings(v);
            params[f] = v;
        }
        auto cfg_params = params;
        Ctx trans;
        trans.w = this;
        trans.field = true;
        trans.params = &cfg_params;
        trans.call = true;
        trans.imports = imports;

        Analysis a;
        a.vars.insert(p.vars.begin(), p.vars.end());
        a.vars.insert(config_vars.begin(), config_vars.end());
        Dep deps;
        std::vector<Analysis const*> all;
        std::map<std::string, std::vector<std::pair<J, J>>> by_field;  // (name, transition)
        auto request = [&](std::string const& field, J const& names, J const& ts) {
            for (auto const& t : ts) {
                for (auto const& n : names) {
                    by_field[field].emplace_back(n, t);
                }
            }
        };
        auto resolve = [&](std::string const& field) {
            for (auto const& [n, t] : by_field[field]) {
                auto const& d = Analyse(n, Update(config, t));
                deps[{n.dump(), t.dump()}] = &d;
                all.push_back(&d);
                AddVars(&a, d, t);
            }
        };
        for (auto const& f : Strings(FieldOf(rule, "target_fields", J::array()))) {
            if (params.count(f)) {
                continue;
            }
            auto ts = Transition(trans, rule, f, rule_config);
            auto v = refeval::List(plain.E(p.Field(f, true), param_config));
            J names = J::array();
            for (auto const& x : v) {
                names.push_back(p.anonymous ? x : ParseName(x, p.current));
            }
            params[f] = names;
            request(f, names, ts);
        }
        for (auto const& [f, l] : ObjectOf(rule, "implicit").items()) {
            auto ts = Transition(trans, rule, f, rule_config);
            J names = J::array();
            for (auto const& x : l) {
                names.push_back(ParseName(x, rule_id));
            }
            params[f] = names;
            request(f, names, ts);
        }
        std::map<std::string, J> anon_ts;
        for (auto const& [f, d] : ObjectOf(rule, "anonymous").items()) {
            anon_ts[f] = Transition(trans, rule, f, rule_config);
        }
        std::vector<std::string> fields;
        for (auto const& [f, l] : by_field) {
            fields.push_back(f);
        }
        for (auto const& f : fields) {
            resolve(f);
        }
        for (auto const& [f, d] : ObjectOf(rule, "anonymous").items()) {
            J names = J::array();
            J rule_map = J::object();
            for (auto const& [k, v] : d["rule_map"].items()) {
                rule_map[k] = ParseName(v, rule_id);
            }
            for (auto const& [n, t] : by_field[d["target"].get<std::string>()]) {
                auto const& prov = deps.at({n.dump(), t.dump()})->provides;
                auto pr = d["provider"].get<std::string>();
                if (not prov.contains(pr)) {
                    throw Err{};
                }
                for (auto const& x : refeval::List(prov[pr])) {
                    if (not Ctx::IsNode(x)) {
                        throw Err{};
                    }
                    names.push_back(Special("name", J::array({"anon", rule_map, x})));
                }
            }
            params[f] = names;
            request(f + " (anonymous)", names, anon_ts[f]);
            resolve(f + " (anonymous)");
        }
        // taintedness
        a.tainted = TaintOf(J{{"tainted", p.tainted}}, param_config);
        std::set<std::string> rule_taint;
        for (auto const& x : Strings(FieldOf(rule, "tainted", J::array()))) {
            rule_taint.insert(x);
        }
        a.tainted.insert(rule_taint.begin(), rule_taint.end());
        CheckTaint(a.tainted, all);
        AddImplied(&a, all);
        // string fields
        Ctx strs;
        strs.w = this;
        strs.names = true;
        strs.deps = &deps;
        strs.current = p.current;
        for (auto const& f : Strings(FieldOf(rule, "string_fields", J::array()))) {
            auto v = strs.E(p.Field(f, false), param_config);
            Strings(v);
            params[f] = v;
        }
        Ctx m;
        m.w = this;
        m.main = m.field = m.call = true;
        m.params = &params;
        m.imports = imports;
        m.deps = &deps;
        m.rule_taint = &rule_taint;
        auto res = m.E(rule.at("expression"), rule_config);
        if (not IsKind(res, "res") and not IsKind(res, "name-res")) {
            throw Err{};
        }
        auto c = Content(res);
        a.artifacts = c["artifacts"];
        a.runfiles = c["runfiles"];
        a.provides = c["provides"];
        return a;
    }

    // ------------------------------------------------------- built-in rules
    struct Built {
        std::vector<std::string> vars;
        Env env;
        J names = J::array();
        std::vector<Analysis const*> deps;
        Dep by_name;
    };
    Built Common(J const& name, J const& desc, Env const& config, Analysis* a) {
        Built b;
        b.vars = Strings(FieldOf(desc, "arguments_config", J::array()));
        a->vars.insert(b.vars.begin(), b.vars.end());
        b.env = Restrict(config, b.vars);
        Ctx c;
        if (desc["type"] != "configure" and desc["type"] != "export") {
            for (auto const& x : refeval::List(c.E(FieldOf(desc, "deps", J::array()), b.env))) {
                b.names.push_back(ParseName(x, name));
            }
            for (auto const& n : b.names) {
                Require(n, config, a, &b);
            }
        }
        return b;
    }
    Analysis const& Require(J const& n, Env const& config, Analysis* a, Built* b, J const& transition = J::object()) {
        auto const& d = Analyse(n, Update(config, transition));
        b->deps.push_back(&d);
        b->by_name[{n.dump(), J::object().dump()}] = &d;
        AddVars(a, d, transition);
        return d;
    }
    void TaintAndImplied(J const& desc, Built const& b, Analysis* a) {
        a->tainted = TaintOf(desc, b.env);
        CheckTaint(a->tainted, b.deps);
        AddImplied(a, b.deps);
    }
    Ctx StringCtx(J const& name, Built const& b) {
        Ctx c;
        c.w = this;
        c.names = true;
        c.deps = &b.by_name;
        c.current = name;
        return c;
    }

    Analysis BlobGen(J const& name, J const& desc, Env const& config) {
        Analysis a;
        auto b = Common(name, desc, config, &a);
        TaintAndImplied(desc, b, &a);
        auto c = StringCtx(name, b);
        auto n = Str(c.E(FieldOf(desc, "name", "out.txt"), b.env));
        auto d = Str(c.E(FieldOf(desc, "data", ""), b.env));
        bool link = desc["type"] == "symlink";
        if (link) {
            Ctx::NonUpwards(d);
        }
        a.artifacts = J{{n, Known(link ? "l" : "f", d)}};
        NoTreeConflict(a.artifacts);
        a.runfiles = a.artifacts;
        return a;
    }
    Analysis TreeRule(J const& name, J const& desc, Env const& config) {
        Analysis a;
        auto b = Common(name, desc, config, &a);
        Ctx c;
        auto n = Str(c.E(FieldOf(desc, "name", ""), b.env));
        TaintAndImplied(desc, b, &a);
        J art;
        if (desc["type"] == "tree") {
            J stage = J::object();
            for (auto const* d : b.deps) {
                stage = DisjointUnion(stage, Overlay(d->runfiles, d->artifacts));
            }
            art = TreeOf(StageChecked(stage));
        }
        else {
            J l = J::array();
            for (auto const* d : b.deps) {
                l.push_back(TreeOf(StageChecked(d->artifacts)));
            }
            art = OverlayOf(l, desc["type"] == "disjoint_tree_overlay");
        }
        a.artifacts = J{{n, art}};
        NoTreeConflict(a.artifacts);
        a.runfiles = a.artifacts;
        return a;
    }
    Analysis Install(J const& name, J const& desc, Env const& config) {
        Analysis a;
        auto b = Common(name, desc, config, &a);
        auto deps = b.deps;
        Ctx c;
        std::vector<std::pair<std::string, Analysis const*>> files;
        std::vector<std::pair<Analysis const*, std::string>> dirs;
        for (auto const& [k, v] : ObjectOf(desc, "files").items()) {
            files.emplace_back(k, &Require(ParseName(c.E(v, b.env), name), config, &a, &b));
        }
        for (auto const& v : refeval::List(c.E(FieldOf(desc, "dirs", J::array()), b.env))) {
            if (not v.is_array() or v.size() != 2) {
                throw Err{};
            }
            auto where = Str(v[1]);
            dirs.emplace_back(&Require(ParseName(v[0], name), config, &a, &b), where);
        }
        TaintAndImplied(desc, b, &a);
        J stage = J::object();
        for (auto const* d : deps) {
            stage = DisjointUnion(stage, d->runfiles);
        }
        for (auto const& [k, d] : files) {
            if (stage.contains(k)) {
                throw Err{};  // doc: ignored
            }
        }
        for (auto const& [k, d] : files) {
            auto const& m = d->artifacts.empty() ? d->runfiles : d->artifacts;
            if (m.size() != 1) {
                throw Err{};
            }
            stage[k] = m.begin().value();
        }
        for (auto const& [d, where] : dirs) {
            J sub = J::object();
            for (auto const* m : {&d->artifacts, &d->runfiles}) {
                for (auto const& [k, v] : m->items()) {
                    auto at = Norm(refeval::Concat(where, k));
                    if (not sub.contains(at)) {
                        sub[at] = v;
                    }
                }
            }
            stage = DisjointUnion(stage, sub);
        }
        NoTreeConflict(stage);
        a.artifacts = stage;
        a.runfiles = stage;
        return a;
    }
    Analysis Generic(J const& name, J const& desc, Env const& config) {
        Analysis a;
        auto b = Common(name, desc, config, &a);
        TaintAndImplied(desc, b, &a);
        auto c = StringCtx(name, b);
        auto outs = Ctx::Paths(c.E(FieldOf(desc, "outs", J::array()), b.env));
        auto dirs = Ctx::Paths(c.E(FieldOf(desc, "out_dirs", J::array()), b.env));
        std::string script;
        for (auto const& x : Strings(c.E(FieldOf(desc, "cmds", J::array()), b.env))) {
            script += x + "\n";
        }
        auto cwd = Str(c.E(FieldOf(desc, "cwd", ""), b.env));
        Ctx::NonUpwards(cwd);
        auto env = Ctx::StringMap(c.E(FieldOf(desc, "env", J{{"type", "empty_map"}}), b.env));
        auto sh = c.E(FieldOf(desc, "sh -c", J::array()), b.env);
        std::vector<std::string> argv;
        if (not sh.is_null()) {
            argv = Strings(sh);
        }
        if (argv.empty()) {
            argv = {"sh", "-c"};
        }
        argv.push_back(script);
        auto scale = c.E(FieldOf(desc, "timeout scaling", 1.0), b.env);
        auto props = c.E(FieldOf(desc, "execution properties", J{{"type", "empty_map"}}), b.env);
        J inputs = J::object();
        for (auto const* d : b.deps) {
            inputs = Overlay(inputs, d->runfiles);
        }
        for (auto const* d : b.deps) {
            inputs = Overlay(inputs, d->artifacts);
        }
        NoTreeConflict(inputs);
        a.artifacts = MakeAction(outs, dirs, argv, cwd, env, J{}, false, scale, props, inputs);
        NoTreeConflict(a.artifacts);
        return a;
    }
    Analysis Configure(J const& name, J const& desc, Env const& config) {
        Analysis a;
        auto b = Common(name, desc, config, &a);
        Ctx c;
        auto t = ParseName(c.E(desc.at("target"), b.env), name);
        a.tainted = TaintOf(desc, b.env);
        auto cfg = refeval::Map(FieldOf(desc, "config", J{{"type", "empty_map"}}));
        auto over = refeval::Map(c.E(cfg, b.env));
        auto const& d = Require(t, config, &a, &b, over);
        CheckTaint(a.tainted, b.deps);
        AddImplied(&a, b.deps);
        a.artifacts = d.artifacts;
        a.runfiles = d.runfiles;
        a.provides = d.provides;
        return a;
    }
    Analysis Export(J const& name, J const& desc, Env const& config) {
        auto flexible = Strings(FieldOf(desc, "flexible_config", J::array()));
        auto fixed = FieldOf(desc, "fixed_config", J::object());
        refeval::Map(fixed);
        Env c = Restrict(config, flexible);
        for (auto const& [k, v] : fixed.items()) {
            if (std::find(flexible.begin(), flexible.end(), k) != flexible.end()) {
                throw Err{};
            }
            c[k] = v;
        }
        auto const& d = Analyse(ParseName(desc.at("target"), name), c);
        if (not d.tainted.empty()) {
            throw Err{};
        }
        Analysis a;
        a.vars.insert(flexible.begin(), flexible.end());
        if (HasName(d.provides)) {
            throw Err{};
        }
        a.artifacts = d.artifacts;
        a.runfiles = d.runfiles;
        a.provides = d.provides;
        a.implied = d.implied;
        return a;
    }
};
}  // namespace refana
#endif
