#!/usr/bin/env python3
"""Build driver of the verification framework.

Compiles harness sources of /verif together with whatever sources of
/repo/src they (transitively, through project headers) need, always from
/repo's current working tree.  Objects are cached by *content*: a cached
object is used only if the compiler command and the content of the source
and of every header read by its compilation are unchanged, so neither
mtimes nor an earlier run's leftovers can make a check look at stale code.

If the link with the include-derived closure leaves symbols undefined,
all of /repo/src is compiled into the link (as an archive), so that
moving functions between files does not break a check.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def _cache_dir():
    d = os.environ.get("VERIF_CACHE")
    if d:
        os.makedirs(d, exist_ok=True)
        return d
    d = os.path.join(VERIF, ".cache")
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, ".w%d" % os.getpid())
        open(t, "w").close()
        os.unlink(t)
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), "verif-cache")
        os.makedirs(d, exist_ok=True)
        return d


CACHE = _cache_dir()
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))

# Not compilable without the remote-execution protocol headers (see the
# repository's own offline build); skipped in bootstrap mode.
BOOT_SKIP = [
    "src/buildtool/computed_roots/analyse_and_build.cpp",
    "src/buildtool/computed_roots/evaluate.cpp",
    "src/buildtool/computed_roots/inquire_serve.cpp",
    "src/buildtool/execution_api/bazel_msg/bazel_msg_factory.cpp",
    "src/buildtool/execution_api/common/common_api.cpp",
    "src/buildtool/execution_api/common/message_limits.cpp",
    "src/buildtool/execution_api/common/tree_reader_utils.cpp",
    "src/buildtool/execution_api/execution_service/",
    "src/buildtool/execution_api/git/",
    "src/buildtool/execution_api/local/",
    "src/buildtool/execution_api/remote/bazel/",
    "src/buildtool/execution_api/utils/rehash_utils.cpp",
    "src/buildtool/execution_engine/tree_operations/",
    "src/other_tools/just_mr/fetch.cpp",
    "src/other_tools/just_mr/setup.cpp",
    "src/other_tools/ops_maps/content_cas_map.cpp",
    "src/other_tools/ops_maps/git_tree_fetch_map.cpp",
    "src/other_tools/root_maps/",
]
# Never linked into harnesses (own main, or real network / gRPC).
FULL_SKIP = [
    "src/buildtool/execution_api/execution_service/",
    "src/buildtool/execution_api/remote/bazel/",
    "src/buildtool/serve_api/",
    "src/buildtool/computed_roots/",
    "src/buildtool/common/remote/",
]
# With the gRPC stand-in of /verif/proto/remote
REMOTE_SKIP = [
    "src/buildtool/execution_api/execution_service/server_implementation.cpp",
    "src/buildtool/serve_api/",
    "src/buildtool/computed_roots/",
]
# ... except
FULL_TAKE = [
    "src/buildtool/computed_roots/artifacts_root.cpp",
    "src/buildtool/execution_api/execution_service/cas_utils.cpp",
]
MAINS = ["src/buildtool/main/main.cpp", "src/other_tools/just_mr/main.cpp"]


def _match(path, rules):
    return any(path == r or (r.endswith("/") and path.startswith(r))
               for r in rules)


_hash = {}


def fhash(path):
    h = _hash.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "-"
        _hash[path] = h
    return h


def sh(s):
    return subprocess.run(s, shell=True, check=True,
                          stdout=subprocess.PIPE).stdout.decode().split()


_pkg = None


def pkg():
    global _pkg
    if _pkg is None:
        _pkg = (sh("pkg-config --cflags libgit2 libarchive libcurl"),
                sh("pkg-config --libs libgit2 libarchive libcurl"))
    return _pkg


class BuildError(Exception):
    pass


PCH_SRC = """
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <deque>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include "fmt/core.h"
#include "nlohmann/json.hpp"
"""


class Builder:
    """mode: 'boot' (the repository's offline configuration) or 'full'
    (with the protocol stand-ins of /verif/proto)."""

    def __init__(self, mode="boot", cflags=(), harness_cflags=(),
                 cxx="g++", pch=True, incdirs=(), noinstr=(), preinc=(),
                 remote=False):
        self.mode = mode
        self.cxx = cxx
        self.base = ["-std=c++20", "-O1", "-w", "-pthread"]
        self.cflags = list(cflags)
        self.harness_cflags = list(harness_cflags)
        self.inc = ["-I" + d for d in preinc] + ["-I" + REPO, "-I" + VERIF] + \
            ["-I" + d for d in incdirs] + pkg()[0]
        self.defs = ["-DBOOTSTRAP_BUILD_TOOL"] if mode == "boot" else []
        self.pch = pch
        self.pch_file = None
        self.built = 0
        self.cached = 0
        self.noinstr = set(noinstr)
        self.extra_skip = []
        self.remote = remote

    def _skip(self):
        return (BOOT_SKIP if self.mode == "boot" else
                REMOTE_SKIP if self.remote else FULL_SKIP) + MAINS \
            + self.extra_skip

    def _mk_pch(self):
        if not self.pch or self.pch_file:
            return
        key = hashlib.sha256(
            (self.cxx + repr(self.base + self.cflags + self.defs) +
             PCH_SRC).encode()).hexdigest()[:24]
        d = os.path.join(CACHE, "pch-" + key)
        h = os.path.join(d, "pch.hpp")
        if not os.path.exists(h + ".gch"):
            os.makedirs(d, exist_ok=True)
            with open(h, "w") as f:
                f.write(PCH_SRC)
            tmp = h + ".gch.tmp%d" % os.getpid()
            r = subprocess.run(
                [self.cxx] + self.base + self.cflags + self.defs +
                ["-x", "c++-header", h, "-o", tmp])
            if r.returncode:
                raise BuildError("precompiled header")
            os.rename(tmp, h + ".gch")
        self.pch_file = h

    def _flags(self, src):
        fl = self.base + self.defs + self.inc
        if src.startswith(REPO + "/"):
            fl = fl + self.cflags
        else:
            fl = fl + (["-O2", "-fno-threadsafe-statics"]
                       if os.path.relpath(src, VERIF) in self.noinstr
                       else self.cflags + self.harness_cflags)
        return fl

    def compile(self, src):
        """-> (object path, [dependencies])"""
        c = src.endswith(".c")
        fl = self._flags(src)
        use_pch = (self.pch_file and not c and
                   all(x in fl for x in self.cflags))
        cxx = "gcc" if c else self.cxx
        if c:
            fl = [x for x in fl if not x.startswith("-std=")]
        key = hashlib.sha256(
            (cxx + " " + " ".join(fl) + " " + src +
             (" pch" if use_pch else "")).encode()).hexdigest()[:32]
        man = os.path.join(CACHE, key + ".json")
        ents = []
        try:
            ents = json.load(open(man))
        except (OSError, ValueError):
            pass
        for e in ents:
            if all(fhash(p) == h for p, h in e["deps"].items()):
                o = os.path.join(CACHE, e["obj"])
                if os.path.exists(o):
                    self.cached += 1
                    return o, list(e["deps"])
        tmp = os.path.join(CACHE, "t%d-%s" % (os.getpid(), key))
        cmd = [cxx] + fl
        if use_pch:
            cmd += ["-include", self.pch_file]
        cmd += ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("compiling %s:\n%s" %
                             (src, r.stdout.decode(errors="replace")[-6000:]))
        txt = open(tmp + ".d").read().replace("\\\n", " ")
        deps = sorted({
            os.path.normpath(x)
            for x in txt.split(":", 1)[1].split()
        })
        deps = [d for d in deps
                if d.startswith(REPO + "/") or
                (d.startswith(VERIF + "/") and not d.startswith(CACHE))]
        dh = {d: fhash(d) for d in deps}
        oh = hashlib.sha256((key + json.dumps(dh, sort_keys=True)
                             ).encode()).hexdigest()[:32]
        obj = oh + ".o"
        os.rename(tmp + ".o", os.path.join(CACHE, obj))
        os.unlink(tmp + ".d")
        ents = [e for e in ents if e["obj"] != obj][-4:]
        ents.append({"deps": dh, "obj": obj})
        with open(man + ".%d" % os.getpid(), "w") as f:
            json.dump(ents, f)
        os.rename(man + ".%d" % os.getpid(), man)
        self.built += 1
        return os.path.join(CACHE, obj), deps

    def all_sources(self):
        out = []
        for root, dirs, files in os.walk(os.path.join(REPO, "src")):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".cpp"):
                    p = os.path.join(root, f)
                    if not _match(os.path.relpath(p, REPO), self._skip()):
                        out.append(p)
        return out

    def build(self, name, sources, repo_sources=(), libs=(), ldflags=(),
              catch=False):
        """Builds the program; returns its path."""
        self._mk_pch()
        objs = {}
        pend = {}
        todo = [s if s.startswith("/") else os.path.join(VERIF, s)
                for s in sources]
        todo += [os.path.join(REPO, s) for s in repo_sources]
        seen = set(todo)
        skip = self._skip()
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for s in todo:
                pend[ex.submit(self.compile, s)] = s
            while pend:
                done, _ = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                for fu in done:
                    s = pend.pop(fu)
                    obj, deps = fu.result()
                    objs[s] = obj
                    for d in deps:
                        if not d.startswith(REPO + "/src/"):
                            continue
                        c = d.rsplit(".", 1)[0] + ".cpp"
                        if c in seen or not os.path.exists(c):
                            continue
                        rel = os.path.relpath(c, REPO)
                        if _match(rel, skip) and not (
                                self.mode == "full" and rel in FULL_TAKE):
                            continue
                        seen.add(c)
                        pend[ex.submit(self.compile, c)] = c
        out = os.path.join(CACHE, "bin-%s-%d" % (name, os.getpid()))
        own = [o for s, o in objs.items()]

        def link(extra):
            cmd = [self.cxx, "-pthread", "-o", out] + own + extra + \
                list(ldflags) + list(libs) + \
                (["-lCatch2"] if catch else []) + ["-lfmt"] + pkg()[1] + \
                ["-lcrypto", "-lssl", "-lz", "-pthread", "-ldl"]
            return subprocess.run(cmd, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT)

        r = link([])
        if r.returncode and b"undefined reference" in r.stdout:
            first = r.stdout
            rest = [s for s in self.all_sources() if s not in objs]
            errs = []
            with cf.ThreadPoolExecutor(JOBS) as ex:
                fus = [ex.submit(self.compile, s) for s in rest]
                extra = []
                for fu in fus:
                    try:
                        extra.append(fu.result()[0])
                    except BuildError as e:
                        errs.append(str(e))
            ar = os.path.join(CACHE, "lib-%s-%d.a" % (name, os.getpid()))
            subprocess.run(["ar", "crs", ar] + extra, check=True)
            r = link([ar])
            os.unlink(ar)
            if r.returncode:
                r.stdout = first[-3000:] + b"\n...\n" + r.stdout + \
                    "\n".join(errs).encode()[-2000:]
        if r.returncode:
            raise BuildError("linking %s:\n%s" %
                             (name, r.stdout.decode(errors="replace")[-8000:]))
        return out


TSAN = dict(cflags=("-fsanitize=thread", "-fno-omit-frame-pointer"),
            noinstr=("rt/sched.cpp",))
