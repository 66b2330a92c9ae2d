"""The full (not BOOTSTRAP_BUILD_TOOL) configuration of the local parts: the
message classes are generated by protoc from /verif/proto."""
import hashlib
import os
import subprocess

import vb

PROTO = os.path.join(vb.VERIF, "proto")
ALL = ["build/bazel/remote/execution/v2/remote_execution",
       "build/bazel/semver/semver", "google/rpc/status",
       "google/longrunning/operations", "google/bytestream/bytestream"]


def _dir():
    h = hashlib.sha256(b"".join(
        open(os.path.join(PROTO, s + ".proto"), "rb").read()
        for s in ALL)).hexdigest()[:16]
    return os.path.join(vb.CACHE, "proto-" + h)


def prepare():
    d = _dir()
    if not os.path.exists(os.path.join(d, ALL[0] + ".pb.cc")):
        tmp = d + ".tmp%d" % os.getpid()
        os.makedirs(tmp)
        r = subprocess.run(["protoc", "-I", PROTO, "-I", "/usr/include",
                            "--cpp_out=" + tmp] +
                           [os.path.join(PROTO, s + ".proto") for s in ALL])
        if r.returncode:
            raise vb.BuildError("protoc")
        try:
            os.rename(tmp, d)
        except OSError:
            pass
    return [d, os.path.join(PROTO, "stub")]


def sources():
    return [os.path.join(_dir(), s + ".pb.cc") for s in ALL]


def libs():
    return ["-lprotobuf"]
