// C21: paths are judged by where they lead
#include "rt/harness.hpp"
#include <filesystem>
#include <optional>
#include "src/utils/cpp/path.hpp"
#include "src/utils/cpp/path_rebase.hpp"
#include "src/utils/cpp/prefix.hpp"

namespace {
using Segs = std::vector<std::string>;
// where a path leads: absolute or not, and the names below, leading ".."
struct Place {
    bool abs = false;
    Segs s;
    bool operator==(Place const&) const = default;
};
Place Go(std::string const& p, Place from = {}) {
    if (not p.empty() and p[0] == '/') {
        from = {true, {}};
    }
    size_t i = 0;
    while (i <= p.size()) {
        auto j = std::min(p.find('/', i), p.size());
        auto x = p.substr(i, j - i);
        if (x == "..") {
            if (not from.s.empty() and from.s.back() != "..") {
                from.s.pop_back();
            }
            else if (not from.abs) {
                from.s.push_back(x);
            }
        }
        else if (not x.empty() and x != ".") {
            from.s.push_back(x);
        }
        i = j + 1;
    }
    return from;
}
std::string Str(Place const& p) {
    std::string r = p.abs ? "/" : "";
    for (size_t i = 0; i < p.s.size(); ++i) {
        r += (i != 0 ? "/" : "") + p.s[i];
    }
    return r.empty() ? "." : r;
}
bool Below(Place const& p) { return not p.abs and (p.s.empty() or p.s[0] != ".."); }

std::vector<std::string> Paths(Segs const& al, int max) {
    std::vector<std::string> level{""}, all;
    std::set<std::string> seen;
    std::vector<std::string> cur;
    for (auto const& a : al) {
        cur.push_back(a);
    }
    for (int k = 0; k < max; ++k) {
        for (auto const& c : cur) {
            for (auto const& p : {c, "/" + c}) {
                // paths starting with exactly two slashes are left to the system
                if (p.rfind("//", 0) != 0 and seen.insert(p).second) {
                    all.push_back(p);
                }
            }
        }
        std::vector<std::string> next;
        for (auto const& c : cur) {
            for (auto const& a : al) {
                next.push_back(c + "/" + a);
            }
        }
        cur = next;
    }
    return all;
}

void Single() {
    auto all = Paths({"a", "b", ".", "..", "", "..a", "a."}, hn::ctx().thorough ? 6 : 5);
    long const per = 1000;
    hn::Enumerate("single", (long)(all.size() / per + 1), "all relative and absolute paths of up to five (thorough: six) segments out of a, b, ., .., empty, ..a, a.", [&](long i, hn::Shard& s) {
        for (size_t k = (size_t)(i * per); k < std::min(all.size(), (size_t)((i + 1) * per)); ++k) {
            auto const& p = all[k];
            if (not s.Case("'" + p + "'")) {
                continue;
            }
            s.Nontrivial();
            auto to = Go(p);
            auto n = ToNormalPath(p).string();
            if (n != Str(to)) {
                s.Fail("'" + p + "' normalised to '" + n + "'", "normal");
            }
            if (PathIsNonUpwards(p) != Below(to)) {
                s.Fail("'" + p + "' taken as " + (PathIsNonUpwards(p) ? "non-upwards" : "upwards"), "upwards");
            }
            s.Outcome(n);
        }
    });
}

void Names() {
    std::string const chars = "a./ -\n\\";
    std::vector<std::string> all{""}, cur{""};
    for (int k = 0; k < 5; ++k) {
        std::vector<std::string> next;
        for (auto const& c : cur) {
            for (char ch : chars) {
                next.push_back(c + ch);
            }
        }
        all.insert(all.end(), next.begin(), next.end());
        cur = next;
    }
    hn::Enumerate("names", (long)all.size(), "all strings of up to five characters out of seven as file names", [&](long i, hn::Shard& s) {
        auto const& n = all[(size_t)i];
        if (not s.Case("'" + n + "'")) {
            return;
        }
        s.Nontrivial();
        bool want = not n.empty() and n != "." and n != ".." and n.find('/') == std::string::npos;
        if (IsValidFileName(n) != want) {
            s.Fail("'" + n + "' taken as " + (want ? "invalid" : "valid"), "name");
        }
    });
}

void Pairs() {
    auto all = Paths({"a", "b", ".", "..", ""}, 4);
    hn::Enumerate("pairs", (long)all.size(), "all pairs of paths of up to four segments out of a, b, ., .., empty: links confined, paths relative to another", [&](long i, hn::Shard& s) {
        auto const& p = all[(size_t)i];
        auto to = Go(p);
        for (auto const& q : all) {
            if (not s.Case("'" + p + "' at '" + q + "'")) {
                continue;
            }
            s.Nontrivial();
            // a link p at the place q (a proper place, with a name at its end)
            auto slash = q.rfind('/');
            auto name = slash == std::string::npos ? q : q.substr(slash + 1);
            if (name != "" and name != "." and name != "..") {
                auto dir = slash == std::string::npos ? "" : q.substr(0, std::max(slash, q[0] == '/' ? size_t{1} : size_t{0}));
                auto lead = Go(p, Go(dir));
                bool want = (p.empty() or p[0] != '/') and Below(lead);
                if (PathIsConfined(p, q) != want) {
                    s.Fail("link '" + p + "' at '" + q + "' taken as " + (want ? "escaping" : "confined"), "confined");
                }
            }
            // p as seen from q, a proper place
            auto base = Go(q);
            if (Str(base) != q or (not base.s.empty() and base.s[0] == "..")) {
                continue;
            }
            auto r = RebasePathStringRelativeTo(q, p);
            if (r.empty()) {
                if (to.abs == base.abs) {
                    s.Fail("'" + p + "' not found from '" + q + "'", "rebase");
                }
            }
            else if (Go(r, base) != to) {
                s.Fail("'" + p + "' is '" + r + "' from '" + q + "'", "rebase");
            }
            if (RebasePathStringsRelativeTo(q, {p, q}) != Segs{r, RebasePathStringRelativeTo(q, q)}) {
                s.Fail("list of paths", "list");
            }
        }
    });
}

void Prefix() {
    std::vector<std::string> all{""};
    for (size_t k = 0; k < all.size() and all[k].size() < 7; ++k) {
        for (char c : {'x', '\n', ' '}) {
            all.push_back(all[k] + c);
        }
    }
    hn::Enumerate("prefix", (long)all.size(), "all texts of up to seven characters out of a letter, a space, and line ends", [&](long i, hn::Shard& s) {
        auto const& t = all[(size_t)i];
        if (not s.Case("'" + t + "'")) {
            return;
        }
        s.Nontrivial();
        std::string want;
        for (size_t k = 0; k < t.size();) {
            auto e = std::min(t.find('\n', k), t.size());
            want += "> " + t.substr(k, e - k) + "\n";
            k = e + 1;
        }
        if (PrefixLines(t, "> ") != want) {
            s.Fail("prefixed: '" + PrefixLines(t, "> ") + "'", "prefix");
        }
    });
}
}  // namespace

int main(int argc, char** argv) {
    hn::Init(argc, argv);
    Single();
    Names();
    Pairs();
    Prefix();
    return hn::Finish();
}
