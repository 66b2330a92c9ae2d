// C13: repository keys: equal exactly for repositories that cannot be told
// apart by following bindings, absent for those not fixed in content
#include "rt/harness.hpp"
#include "h/trees.hpp"
#include <map>
#include <memory>
#include <unordered_map>
#include "src/buildtool/common/repository_config.hpp"
#include "src/buildtool/file_system/file_root.hpp"
#include "src/buildtool/file_system/precomputed_root.hpp"
#include "src/buildtool/logging/log_config.hpp"
#include "src/buildtool/storage/config.hpp"
#include "src/buildtool/storage/storage.hpp"
#include "src/utils/automata/dfa_minimizer.hpp"

namespace {
using hn::Json;
using Info = RepositoryConfig::RepositoryInfo;

struct Site {
    StorageConfig sc;
    Storage st;
    static StorageConfig Make(bool native) {
        auto c = StorageConfig::Builder{}
                     .SetBuildRoot(trees::Dir(hn::ctx().scratch, native ? "rn" : "rc"))
                     .SetNumGenerations(2)
                     .SetHashType(native ? HashFunction::Type::GitSHA1 : HashFunction::Type::PlainSHA256)
                     .Build();
        if (not c) {
            throw std::runtime_error(c.error());
        }
        return *c;
    }
    explicit Site(bool native) : sc(Make(native)), st(Storage::Create(&sc)) {}
};
Site& site(bool native) {
    static std::unique_ptr<Site> s[2];
    static pid_t who = 0;
    if (who != getpid()) {
        who = getpid();
        s[0].reset();
        s[1].reset();
    }
    if (not s[native]) {
        s[native] = std::make_unique<Site>(native);
    }
    return *s[native];
}

struct Repo {
    int base = 0;                      // what it contains; -1: not fixed
    std::map<std::string, int> binds;  // to the number of a repository; >= n: not there
};
using World = std::vector<Repo>;

// Canonical description of what can be seen from a repository: the classes
// of repositories that cannot be told apart, numbered as they are reached.
std::optional<std::string> Seen(World const& w, int from) {
    std::vector<int> reach{from};
    std::set<int> in{from};
    for (size_t k = 0; k < reach.size(); ++k) {
        auto const& r = w[(size_t)reach[k]];
        if (r.base < 0) {
            return std::nullopt;
        }
        for (auto const& [n, t] : r.binds) {
            if (t >= (int)w.size()) {
                return std::nullopt;
            }
            if (in.insert(t).second) {
                reach.push_back(t);
            }
        }
    }
    std::map<int, std::string> cls;
    for (int r : reach) {
        cls[r] = std::to_string(w[(size_t)r].base);
    }
    for (size_t round = 0; round <= reach.size(); ++round) {
        std::map<int, std::string> sig;
        std::map<std::string, int> num;
        for (int r : reach) {
            auto s = cls[r];
            for (auto const& [n, t] : w[(size_t)r].binds) {
                s += ";" + n + "=" + cls[t];
            }
            sig[r] = s;
            num.emplace(s, 0);
        }
        int c = 0;
        for (auto& [s, k] : num) {
            k = c++;
        }
        for (int r : reach) {
            cls[r] = std::to_string(num[sig[r]]);
        }
    }
    std::map<std::string, int> order;
    std::string out;
    std::vector<int> todo;
    for (int r : reach) {
        if (order.emplace(cls[r], (int)order.size()).second) {
            todo.push_back(r);
        }
    }
    // number again, breadth first over classes
    order.clear();
    std::vector<int> q{from};
    order[cls[from]] = 0;
    for (size_t k = 0; k < q.size(); ++k) {
        auto const& r = w[(size_t)q[k]];
        out += "|" + std::to_string(r.base);
        for (auto const& [n, t] : r.binds) {
            auto [it, fresh] = order.emplace(cls[t], (int)order.size());
            if (fresh) {
                q.push_back(t);
            }
            out += "," + n + std::to_string(it->second);
        }
    }
    return out;
}

std::string const kTree[3] = {std::string(40, 'a'), std::string(40, 'b'), std::string(40, 'c')};
Info MakeInfo(Repo const& r, std::vector<std::string> const& names) {
    auto root = r.base < 0 ? FileRoot{std::filesystem::path{"/nonexisting"}} : FileRoot{std::string{kTree[r.base]}};
    Info i{root, root, root, root};
    for (auto const& [n, t] : r.binds) {
        i.name_mapping[n] = names[(size_t)t];
    }
    return i;
}

struct Keys {
    std::unordered_map<std::string, std::string> key_of, seen_as;
    void Check(hn::Shard& s, std::optional<std::string> const& seen, std::optional<ArtifactDigest> const& key, std::string const& which) {
        if (seen.has_value() != key.has_value()) {
            s.Fail("repository " + which + (key ? " has a key although not fixed in content" : " has no key"), "has");
            return;
        }
        if (not seen) {
            s.Outcome("none");
            return;
        }
        s.Outcome(key->hash());
        auto a = key_of.emplace(*seen, key->hash()).first->second;
        auto b = seen_as.emplace(key->hash(), *seen).first->second;
        if (a != key->hash()) {
            s.Fail("repository " + which + ": another key than for the same repository elsewhere: " + *seen, "differ");
        }
        if (b != *seen) {
            s.Fail("repository " + which + ": same key as for a different repository: " + *seen + " and " + b, "same");
        }
    }
};
Keys& keys() {
    static Keys k[1];
    return k[0];
}

std::string Show(World const& w) {
    std::string r;
    for (auto const& x : w) {
        r += " " + std::to_string(x.base);
        for (auto const& [n, t] : x.binds) {
            r += "," + n + ":" + std::to_string(t);
        }
    }
    return r;
}

// all worlds of n repositories with bindings for the given names to one of
// the n, to a missing one, or none; contents 0..nb-1, and -1 if open
void Worlds(std::string const& part, int n, std::vector<std::string> const& syms, int nb, bool open, bool missing, bool none, std::string const& rule) {
    int targets = n + (missing ? 1 : 0) + (none ? 1 : 0);
    int bases = nb + (open ? 1 : 0);
    long per = bases;
    for (size_t k = 0; k < syms.size(); ++k) {
        per *= targets;
    }
    long total = 1;
    for (int k = 0; k < n; ++k) {
        total *= per;
    }
    // an item fixes the first repository and half of the last; all items of a
    // worker share the keys seen
    hn::Enumerate(part, per * per, rule, [&, total, per, targets, bases](long item, hn::Shard& s) {
        long rest = total / (per * per);
        for (long k = 0; k < rest; ++k) {
            long x = item + k * per * per;
            World w;
            for (int r = 0; r < n; ++r) {
                long y = x % per;
                x /= per;
                Repo rep;
                rep.base = (int)(y % bases) - (open ? 1 : 0);
                y /= bases;
                for (auto const& sym : syms) {
                    int t = (int)(y % targets);
                    y /= targets;
                    if (t < n) {
                        rep.binds[sym] = t;
                    }
                    else if (missing and t == n) {
                        rep.binds[sym] = n;
                    }
                }
                w.push_back(rep);
            }
            if (not s.Case(Show(w))) {
                continue;
            }
            std::vector<std::string> names{"r0", "", "a", "r3", "r4", "r5"};
            names[(size_t)n] = "missing";
            RepositoryConfig rc;
            for (int r = 0; r < n; ++r) {
                rc.SetInfo(names[(size_t)r], MakeInfo(w[(size_t)r], names));
            }
            // in some order of asking
            bool any = false;
            for (int r = 0; r < n; ++r) {
                int q = (int)((r + item) % n);
                auto seen = Seen(w, q);
                any = any or seen.has_value();
                keys().Check(s, seen, rc.RepositoryKey(site(true).st, names[(size_t)q]), std::to_string(q));
            }
            s.Nontrivial(any);
        }
    });
}

void Fields() {
    // seven fields; roots: present as git tree, absent, ignoring special
    // entries, open, or precomputed
    hn::Enumerate("fields", 6 * 6, "every combination of four roots (two trees, one also given as a git repository, one ignoring special entries, a directory, one to be computed) and three file names: same key if and only if the same", [](long i, hn::Shard& s) {
        static std::unique_ptr<trees::Repo> git;
        static std::string id;
        if (not git) {
            git = std::make_unique<trees::Repo>(trees::Dir(hn::ctx().scratch, "rgit"));
            id = git->Put(trees::D({{"f", trees::F("x")}}));
        }
        std::vector<FileRoot> roots{FileRoot{std::string{id}}, *FileRoot::FromGit(&site(true).sc, git->path, id), FileRoot{std::string{kTree[1]}},
                                    FileRoot{std::string{id}, true}, FileRoot{std::filesystem::path{"/x"}}, FileRoot{PrecomputedRoot{ComputedRoot{"r", "", "t", Json::object(), false}}}};
        std::vector<std::string> const cont{"A", "A", "B", "I", "", ""};
        static std::map<std::pair<bool, std::string>, std::string> key_of, desc_of;
        for (int t = 0; t < 6 * 6; ++t) {
            int const r[4] = {(int)(i % 6), (int)(i / 6), t % 6, t / 6};
            for (int f = 0; f < 27; ++f) {
                std::vector<std::string> const fn{"TARGETS", "X", ""};
                auto what = std::to_string(r[0]) + std::to_string(r[1]) + std::to_string(r[2]) + std::to_string(r[3]) + "/" + std::to_string(f);
                if (not s.Case(what)) {
                    continue;
                }
                s.Nontrivial();
                Info info{roots[(size_t)r[0]], roots[(size_t)r[1]], roots[(size_t)r[2]], roots[(size_t)r[3]], {}, fn[(size_t)(f % 3)], fn[(size_t)(f / 3 % 3)], fn[(size_t)(f / 9)]};
                std::string desc;
                bool fixed = true;
                for (int k : r) {
                    desc += cont[(size_t)k];
                    fixed = fixed and not cont[(size_t)k].empty();
                }
                desc += std::to_string(f);
                for (bool native : {true, false}) {
                    RepositoryConfig rc;
                    rc.SetInfo("r", Info{info});
                    auto key = rc.RepositoryKey(site(native).st, "r");
                    if (key.has_value() != fixed) {
                        s.Fail(key ? "key of an open repository" : "no key", "has");
                        continue;
                    }
                    if (key) {
                        auto const& a = key_of.emplace(std::make_pair(native, desc), key->hash()).first->second;
                        auto const& b = desc_of.emplace(std::make_pair(native, key->hash()), desc).first->second;
                        if (a != key->hash() or b != desc) {
                            s.Fail(a != key->hash() ? "another key for the same contents" : "same key for other contents " + b, "fields");
                        }
                        if (not site(native).st.CAS().BlobPath(*key, false)) {
                            s.Fail("description of the key is not in CAS", "stored");
                        }
                    }
                    if (rc.Info("r") == nullptr or rc.Info("x") != nullptr or rc.TargetFileName("x") != nullptr or *rc.TargetFileName("r") != fn[(size_t)(f % 3)] or *rc.RuleFileName("r") != fn[(size_t)(f / 3 % 3)] or
                        *rc.ExpressionFileName("r") != fn[(size_t)(f / 9)] or rc.GlobalName("r", "y") != nullptr) {
                        s.Fail("information on the repository", "info");
                    }
                }
            }
        }
    });
}

// roots that become known one after another
void Later() {
    int const n = 3;
    // repository: content fixed (2), computed root P or Q; binding a: none or
    // one of n; binding b of the first only
    long per = 4 * (n + 1);
    hn::Enumerate("computed", per * per, "three repositories whose roots are fixed or computed by one of two computations, each with a binding or none: roots set in both orders, keys asked at every stage for those repositories that are complete; as if fixed from the start", [&, per](long item, hn::Shard& s) {
        for (long k = 0; k < per; ++k) {
            for (int order = 0; order < 2; ++order) {
                for (int val = 0; val < 4; ++val) {
                    for (int ask = 0; ask < 2; ++ask) {
                        std::vector<long> x{item % per, item / per, k};
                        World w, open;
                        std::vector<int> comp;
                        for (long y : x) {
                            Repo r;
                            int c = (int)(y % 4);
                            if (y / 4 < n) {
                                r.binds["a"] = (int)(y / 4);
                            }
                            comp.push_back(c - 2);
                            r.base = c < 2 ? c : c == 2 ? (val & 1) : 2 * (val >> 1);
                            w.push_back(r);
                            if (c >= 2) {
                                r.base = -1;
                            }
                            open.push_back(r);
                        }
                        if (not s.Case(Show(open) + " order " + std::to_string(order) + " values " + std::to_string(val) + " ask " + std::to_string(ask))) {
                            continue;
                        }
                        s.Nontrivial();
                        std::vector<std::string> names{"r0", "r1", "r2", "missing"};
                        std::vector<PrecomputedRoot> pre{PrecomputedRoot{ComputedRoot{"r", "", "t", Json::object(), false}}, PrecomputedRoot{TreeStructureRoot{"r", false}}};
                        RepositoryConfig rc;
                        for (int r = 0; r < n; ++r) {
                            auto i = MakeInfo(w[(size_t)r], names);
                            if (comp[(size_t)r] >= 0) {
                                // only one of the roots is the computed one
                                (r == 0 ? i.workspace_root : r == 1 ? i.target_root : i.expression_root) = FileRoot{pre[(size_t)comp[(size_t)r]]};
                            }
                            rc.SetInfo(names[(size_t)r], std::move(i));
                        }
                        for (int stage = 0; stage < 3; ++stage) {
                            for (int r = 0; r < n; ++r) {
                                auto seen = Seen(open, r);
                                if (stage < 2 and (not seen or ask == 0)) {
                                    continue;
                                }
                                keys().Check(s, seen, rc.RepositoryKey(site(true).st, names[(size_t)r]), std::to_string(r) + " in stage " + std::to_string(stage));
                            }
                            if (stage < 2) {
                                int p = stage == 0 ? order : 1 - order;
                                rc.SetPrecomputedRoot(pre[(size_t)p], FileRoot{std::string{kTree[p == 0 ? (val & 1) : 2 * (val >> 1)]}});
                                for (int r = 0; r < n; ++r) {
                                    if (comp[(size_t)r] == p) {
                                        open[(size_t)r].base = w[(size_t)r].base;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}

// the minimisation of automata by itself: representatives
void Minimizer() {
    int const n = 4;
    std::vector<std::string> names{"s0", "", "q", "s\"3"};
    // transitions for x to any state or none, content 0/1
    long const per = 2 * (n + 1);
    long const per2 = hn::ctx().thorough ? per * (n + 1) : per;
    hn::Enumerate("minimizer", per2 * per2, "all automata of four states, two contents, transitions for one (thorough: two) symbols: states are merged if and only if indistinguishable, each into one and the same representative", [&, per2](long item, hn::Shard& s) {
        for (long k = 0; k < per2 * per2; ++k) {
            std::vector<long> x{item % per2, item / per2, k % per2, k / per2};
            World w;
            for (long y : x) {
                Repo r;
                r.base = (int)(y % 2);
                y /= 2;
                if (y % (n + 1) < n) {
                    r.binds["x"] = (int)(y % (n + 1));
                }
                y /= n + 1;
                if (y < n and per2 > per) {
                    r.binds["y"] = (int)y;
                }
                w.push_back(r);
            }
            if (not s.Case(Show(w))) {
                continue;
            }
            DFAMinimizer m;
            std::vector<std::string> seen;
            for (int r = 0; r < n; ++r) {
                std::map<std::string, std::string> t;
                for (auto const& [sym, to] : w[(size_t)r].binds) {
                    t[sym] = names[(size_t)to];
                }
                m.AddState(names[(size_t)r], t, w[(size_t)r].base == 0 ? "" : "c");
                seen.push_back(*Seen(w, r));
            }
            auto b = m.ComputeBisimulation();
            auto rep = [&](int r) {
                auto it = b.find(names[(size_t)r]);
                return it == b.end() ? names[(size_t)r] : it->second;
            };
            bool merged = false;
            for (int p = 0; p < n; ++p) {
                for (int q = 0; q < p; ++q) {
                    merged = merged or seen[(size_t)p] == seen[(size_t)q];
                    if ((rep(p) == rep(q)) != (seen[(size_t)p] == seen[(size_t)q])) {
                        s.Fail("states " + std::to_string(q) + " and " + std::to_string(p) + (rep(p) == rep(q) ? " merged" : " not merged"), "merge");
                    }
                }
                bool found = false;
                for (int q = 0; q < n; ++q) {
                    found = found or (rep(p) == names[(size_t)q] and seen[(size_t)p] == seen[(size_t)q] and rep(q) == names[(size_t)q]);
                }
                if (not found) {
                    s.Fail("representative of state " + std::to_string(p), "rep");
                }
            }
            s.Nontrivial(merged);
        }
    });
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    LogConfig::SetLogLimit(LogLevel::Error);
    LogConfig::SetSinks({});
    bool const th = hn::ctx().thorough;
    Worlds("two", 2, {"a", "b", "c"}, 2, true, true, true, "all pairs of repositories: two contents or open, three bindings each to either, a missing one, or none");
    Worlds("three", 3, {"a", "b"}, 2, th, th, true, "all triples of repositories: two contents (thorough: or open), two bindings each to any, (thorough: a missing one) or none");
    Worlds("three-contents", 3, {"a"}, 3, true, true, true, "all triples of repositories: three contents or open, a binding to any, a missing one, or none");
    Worlds("four", 4, {"a"}, 2, true, th, true, "all quadruples of repositories: two contents or open, a binding to any, (thorough: a missing one) or none");
    if (th) {
        Worlds("four-total", 4, {"a", "b"}, 2, false, false, false, "all quadruples of repositories of two contents with two bindings to any");
        Worlds("five", 5, {"a"}, 2, false, false, true, "all quintuples of repositories of two contents with a binding to any or none");
    }
    Fields();
    Later();
    Minimizer();
    return hn::Finish();
}
