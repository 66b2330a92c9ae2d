"""What each check consists of."""
SCHED_ASSUME = [
    "interleavings at synchronisation operations and atomics; sequentially "
    "consistent memory, unsynchronised accesses reported as data races",
    "bounded number of preemptions (deviations) and threads",
]

FS_ASSUME = [
    "a crash ends the process (every process of the run) between any two "
    "mutating file-system calls or in the middle of a write; what the kernel "
    "was handed survives",
    "file-system calls of the code are atomic; interleavings at these calls "
    "within a bounded number of preemptions",
    "faults: calls failing with ENOSPC, short writes, killed helper processes",
]

ENUM_ASSUME = [
    "alphabet and depth bounds as stated per part",
]

GRPC_ASSUME = [
    "client and service are connected, in one process, by a stand-in for gRPC "
    "(/verif/proto/remote) that passes every message in its serialised form, "
    "limits messages to 4 MiB and can fail each call; gRPC itself and the "
    "network are not part of what is explored",
]

HIST_ASSUME = [
    "the stated objects, operations and number of generations; operation "
    "sequences of any length over them",
    "message classes generated from /verif/proto (the repository's own protocol "
    "definitions are not part of the offline sources)",
]

PROPS = {
    "C01": dict(
        level="model_checking",
        harnesses=[dict(name="task_system", variant="sched",
                        src=["h/task_system.cpp"])],
        assumptions=SCHED_ASSUME),
    "C02": dict(
        level="model_checking",
        harnesses=[dict(name="async_map", variant="sched",
                        src=["h/async_map.cpp"])],
        assumptions=SCHED_ASSUME),
    "C03": dict(
        level="model_checking",
        harnesses=[dict(name="traverser", variant="sched",
                        src=["h/traverser.cpp"])],
        assumptions=SCHED_ASSUME),
    "C05": dict(
        level="model_checking",
        harnesses=[dict(name="evaluator", src=["h/evaluator.cpp"])],
        assumptions=ENUM_ASSUME),
    "C06": dict(
        level="model_checking",
        harnesses=[dict(name="values", src=["h/values.cpp"])],
        assumptions=ENUM_ASSUME),
    "C08": dict(
        level="model_checking",
        harnesses=[dict(name="graphs", src=["h/graphs.cpp"])],
        assumptions=ENUM_ASSUME),
    "C10": dict(
        level="model_checking",
        harnesses=[dict(name="analysis", src=["h/analysis.cpp"])],
        assumptions=ENUM_ASSUME),
    "C11": dict(
        level="model_checking",
        harnesses=[dict(name="builtin", src=["h/builtin.cpp"])],
        assumptions=ENUM_ASSUME),
    "C12": dict(
        level="model_checking",
        harnesses=[dict(name="exports", mode="full", serve=True,
                        src=["h/exports.cpp"])],
        assumptions=ENUM_ASSUME),
    "C13": dict(
        level="model_checking",
        harnesses=[dict(name="repos", mode="full", src=["h/repos.cpp"])],
        assumptions=ENUM_ASSUME),
    "C14": dict(
        level="model_checking",
        harnesses=[dict(name="cas_store", variant="fs",
                        src=["h/cas_store.cpp"])],
        assumptions=FS_ASSUME),
    "C15": dict(
        level="model_checking",
        harnesses=[dict(name="caches", mode="full", src=["h/gc_explore.cpp"],
                        args=["--caches"]),
                   dict(name="cache_crash", variant="fs", mode="full",
                        src=["h/cache_crash.cpp"])],
        assumptions=HIST_ASSUME + FS_ASSUME),
    "C19": dict(
        level="model_checking",
        harnesses=[dict(name="roots", mode="full", src=["h/roots.cpp"])],
        assumptions=ENUM_ASSUME),
    "C20": dict(
        level="model_checking",
        harnesses=[dict(name="treeops", mode="full", src=["h/treeops.cpp"])],
        assumptions=ENUM_ASSUME),
    "C21": dict(
        level="model_checking",
        harnesses=[dict(name="paths", src=["h/paths.cpp"])],
        assumptions=ENUM_ASSUME),
    "C22": dict(
        level="model_checking",
        harnesses=[dict(name="files", src=["h/files.cpp"])],
        assumptions=ENUM_ASSUME),
    "C23": dict(
        level="model_checking",
        harnesses=[dict(name="setup", mode="full", serve=True,
                        src=["h/setup.cpp"])],
        assumptions=ENUM_ASSUME),
    "C24": dict(
        level="model_checking",
        harnesses=[dict(name="digests", mode="full", src=["h/digests.cpp"])],
        assumptions=ENUM_ASSUME),
    "C25": dict(
        level="model_checking",
        harnesses=[dict(name="actions", mode="full", src=["h/actions.cpp"])],
        assumptions=ENUM_ASSUME),
    "C26": dict(
        level="model_checking",
        harnesses=[dict(name="builds", mode="full", src=["h/builds.cpp"])],
        assumptions=ENUM_ASSUME),
    "C27": dict(
        level="model_checking",
        harnesses=[dict(name="remote", mode="full", remote=True,
                        src=["h/remote.cpp"], env={"VERIF_SET": "builds"})],
        assumptions=ENUM_ASSUME + GRPC_ASSUME),
    "C28": dict(
        level="model_checking",
        harnesses=[dict(name="transfer", mode="full", remote=True,
                        src=["h/remote.cpp"], env={"VERIF_SET": "transfer"})],
        assumptions=ENUM_ASSUME + GRPC_ASSUME),
    "C16": dict(
        level="model_checking",
        harnesses=[dict(name="gc_explore", mode="full",
                        src=["h/gc_explore.cpp"]),
                   dict(name="gc_crash", variant="fs", mode="full",
                        src=["h/gc_crash.cpp"])],
        assumptions=HIST_ASSUME + FS_ASSUME),
}
