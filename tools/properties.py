"""The properties (written to properties.jsonl by genmeta.py)."""
SMC = "stateless model checking of the real code (own scheduler, preemption-bounded, happens-before state caching)"
SMCN = ("Every interleaving at synchronisation operations within the stated preemption bound of each closed scenario is executed on the real "
        "classes; data races on instrumented accesses are reported. Trusts the scheduler (/verif/rt), sequential consistency, gcc's instrumentation.")

EMC = ("explicit-state bounded model checking of the real code: every behaviour (program, input or operation sequence) over the stated finite alphabet "
       "and depth is executed on the implementation and compared with an executable reference model")
EMCN = ("Exhaustive within the stated alphabets and depths; each explored state is an execution of the real code checked against the model, so the model is "
        "validated on every case. Trusts the reference model in the harness and that the alphabet reaches the relevant distinctions.")


SMCF = ("Every interleaving at file-system calls within the stated bound and every single crash point, torn write or fault of each closed scenario is executed on the real classes, "
        "against a recovery and content oracle that reads the disk itself. Trusts the scheduler (/verif/rt) and that a crash loses nothing the kernel was handed.")

ESR = ("explicit-state reachability on the real code: breadth-first search over operation sequences on a real storage directory, deduplicated by its canonical form, to a fixpoint, "
       "each state checked against a reference model")
ESRN = ("All states reachable by the stated operations are visited (the search ends with no new state), so sequences of any length are covered for the stated objects and operations. "
        "Trusts the reference model in the harness and the canonical form (names, kinds, generations, values; contents are verified against names); message classes come from a protocol file of /verif.")


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    return dict(id=id, title=title, statement=statement,
                quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors=a, technique=technique, note=note)


P = [
    prop("C01", "Task system: every task exactly once, waits end exactly when done",
         "Every task handed to the task system, from any thread or from within a task, is executed exactly once unless shutdown was requested. "
         "Waiting for completion (explicitly or by destruction) returns, and returns only when no task is queued or running. "
         "After a shutdown request no pending task need run, but all waiting calls and the destruction still terminate and no task runs twice or after destruction.",
         ["schedules", "programs"],
         "all interleavings of worker threads, producers and waiters, all small task graphs (tasks queueing tasks), any point of shutdown",
         "Unit tests run a handful of OS schedules; lost wake-ups, early returns and double execution need particular interleavings.",
         ["src/buildtool/multithreading/task_system.cpp", "src/buildtool/multithreading/task_system.hpp",
          "src/buildtool/multithreading/notification_queue.hpp", "src/buildtool/multithreading/task.hpp"],
         [("WaitableZeroCounter, NotificationQueue", "src/buildtool/multithreading/notification_queue.hpp"),
          ("TaskSystem::Run/Finish/Shutdown", "src/buildtool/multithreading/task_system.cpp")],
         SMC, SMCN),
    prop("C02", "Async maps: each key evaluated once, each continuation exactly once",
         "For every set of requests over a graph of keys, each requested key is evaluated at most once; each continuation runs exactly once, after and with the final values of all "
         "the keys it asked for, in the order asked, provided all of them get a value. "
         "If one of them fails or cannot be computed, the continuation never runs, the requester's failure handler runs, and everything still terminates; "
         "keys that can never get a value because they wait for each other are reported as a cycle that really is one, and a cycle is reported whenever there is one.",
         ["schedules", "programs"],
         "all interleavings of threads setting, failing and requesting values; all small request graphs including diamonds, duplicates, failures and cycles",
         "Tests use few graphs on the OS scheduler; registration racing with a value being set is a window of nanoseconds.",
         ["src/buildtool/multithreading/async_map_node.hpp", "src/buildtool/multithreading/async_map.hpp",
          "src/buildtool/multithreading/async_map_consumer.hpp", "src/buildtool/multithreading/async_map_utils.hpp"],
         [("AsyncMapNode", "src/buildtool/multithreading/async_map_node.hpp"),
          ("AsyncMapConsumer::ConsumeAfterKeysReady, DetectCycle", "src/buildtool/multithreading/async_map_consumer.hpp"),
          ("AsyncMap", "src/buildtool/multithreading/async_map.hpp")],
         SMC + "; exhaustive enumeration of request graphs", SMCN),
    prop("C03", "Build traversal processes exactly what is needed, after its inputs",
         "For every action graph and set of requested artifacts, a traversal executes each action and uploads each local artifact that the requested artifacts transitively need "
         "exactly once, nothing else, and an action only after all its inputs are available. "
         "If everything succeeds nothing needed is left out and no failure is flagged; if something needed fails, the failure is flagged, the traversal ends, "
         "and nothing depending on it is executed.",
         ["schedules", "programs"],
         "all interleavings of the traversal's worker threads; all small action graphs with shared, repeated and multi-output inputs, any failing node, any order of adding actions",
         "Tests run fixed graphs on the OS scheduler; the visit of an action racing with its last input becoming available is a narrow window.",
         ["src/buildtool/execution_engine/traverser/traverser.hpp", "src/buildtool/execution_engine/dag/dag.hpp", "src/buildtool/execution_engine/dag/dag.cpp"],
         [("Traverser::Visit/NotifyAvailable/QueueProcessing", "src/buildtool/execution_engine/traverser/traverser.hpp"),
          ("traversal state", "src/buildtool/execution_engine/dag/dag.hpp"),
          ("DependencyGraph::Add*", "src/buildtool/execution_engine/dag/dag.cpp")],
         SMC + "; exhaustive enumeration of small graphs", SMCN),
    prop("C05", "Expression evaluation follows the documented semantics",
         "Every expression of the description language evaluates, in every environment, to the value its documentation gives it, or to an error exactly where the documentation makes it one; "
         "evaluation depends on nothing but the expression, the environment and the functions provided, never changes its inputs, evaluates only the branches it has to, "
         "and an error is reported exactly once, including the messages the user attached.",
         ["inputs", "programs"],
         "all expressions of the language, all environments including those holding artifacts and names",
         "Each construct is tested on a few values; combinations of absent, falsy, ill-typed, name-containing and colliding arguments are unbounded.",
         ["src/buildtool/build_engine/expression/evaluator.cpp", "src/buildtool/build_engine/expression/evaluator.hpp",
          "src/buildtool/build_engine/expression/expression.cpp", "src/buildtool/build_engine/expression/function_map.hpp",
          "doc/concepts/expressions.md"],
         [("built-in functions", "src/buildtool/build_engine/expression/evaluator.cpp"),
          ("Expression::Evaluate", "src/buildtool/build_engine/expression/expression.cpp")],
         EMC, EMCN),
    prop("C06", "Values: equal exactly if the same, however made; serialised without loss",
         "Two values of the description language (plain data, artifacts, names, results, nodes, lists and maps of them) are equal, with equal identifiers and hashes, if and only if they are of the same "
         "kind and content, however they were put together - maps in layers, in any order, shadowing others - and whatever was asked before; values that merely look alike in JSON are different. "
         "Layered maps and configurations (updating, pruning) behave as plain maps, earlier ones staying as they were. A value is cacheable exactly if it contains no name. Plain data is "
         "unchanged by writing it as JSON and reading it back. A target result read back from its serialised form is the same, with exactly the artifacts that were not known replaced by the given ones; it has none if "
         "a replacement is missing, and malformed forms are rejected.",
         ["inputs", "programs"],
         "all values, all ways to make them, all sequences of updates and prunings; all target results and malformed variants of their form",
         "Tests compare a few values; confusions concern look-alikes nested in other values, shadowed entries, and shared parts.",
         ["src/buildtool/build_engine/expression/expression.cpp", "src/buildtool/build_engine/expression/expression.hpp", "src/buildtool/build_engine/expression/linked_map.hpp",
          "src/buildtool/build_engine/expression/configuration.hpp", "src/buildtool/build_engine/expression/target_result.cpp", "src/buildtool/build_engine/expression/target_node.hpp",
          "src/buildtool/build_engine/base_maps/entity_name_data.hpp"],
         [("Expression::ToHash, operator==, IsCacheable, ToJson", "src/buildtool/build_engine/expression/expression.cpp"),
          ("LinkedMap", "src/buildtool/build_engine/expression/linked_map.hpp"),
          ("Configuration::Prune, Update", "src/buildtool/build_engine/expression/configuration.hpp"),
          ("TargetResult::ToJson, FromJson, ReplaceNonKnownAndToJson", "src/buildtool/build_engine/expression/target_result.cpp")],
         EMC, EMCN),
    prop("C08", "Action graphs: identifiers name what they describe; graph files are faithful",
         "Artifacts, trees and tree overlays have the same identifier if and only if they describe the same thing. Every action, artifact, tree and overlay description is, after being "
         "written to a graph file and read back, the one it was, in every field; malformed descriptions are rejected. The graph of a collection of analysed targets contains each action, "
         "blob, tree and overlay of its targets exactly once, sorted, with all its origins; a target added twice counts once. In the dependency graph every artifact has at most one "
         "builder - a second one is refused -, and builders, outputs, inputs and consumers are linked exactly as described.",
         ["inputs"],
         "all descriptions, their malformed variants with up to two wrong fields, collections of up to three targets, and sequences of three actions in the alphabet",
         "Tests round-trip a few descriptions; losses concern rare combinations (empty strings, zero scaling, more than ten layers, shared actions, contradicting builders).",
         ["src/buildtool/common/action_description.hpp", "src/buildtool/common/artifact_description.cpp", "src/buildtool/common/tree.hpp", "src/buildtool/common/tree_overlay.hpp",
          "src/buildtool/build_engine/target_map/result_map.hpp", "src/buildtool/execution_engine/dag/dag.cpp"],
         [("ActionDescription", "src/buildtool/common/action_description.hpp"),
          ("ArtifactDescription", "src/buildtool/common/artifact_description.cpp"),
          ("ResultTargetMap", "src/buildtool/build_engine/target_map/result_map.hpp"),
          ("DependencyGraph", "src/buildtool/execution_engine/dag/dag.cpp")],
         EMC, EMCN),
    prop("C10", "Analysis gives each configured target its documented meaning",
         "Analysing a target in a configuration yields the artifacts, runfiles, provided data, relevant variables, taintedness and action graph that the documented semantics of targets, rules, expressions, "
         "configuration transitions, implicit, anonymous and named references give it, or an error where that semantics gives none; independently of what else is analysed in the same session, in which order and in which configurations. "
         "A configuration variable that is not reported as relevant has no influence. Every artifact refers only to actions, trees and blobs that are part of the reported graph; two actions have the same identifier if and only if they are equal.",
         ["programs", "inputs", "configurations"],
         "all target graphs over rules with any field kind, transition and variables; all configurations; all forms and places of references and of the functions available to rules; all graphs of anonymous nodes",
         "Unit tests analyse a few dozen targets in one or two configurations; wrong sharing between configurations shows only if two particular configurations meet at one target, and results of rule functions with unusual arguments are not sampled.",
         ["src/buildtool/build_engine/target_map/target_map.cpp", "src/buildtool/build_engine/target_map/utils.cpp", "src/buildtool/build_engine/target_map/result_map.hpp",
          "src/buildtool/build_engine/target_map/configured_target.hpp", "src/buildtool/build_engine/base_maps/entity_name.hpp", "src/buildtool/build_engine/base_maps/entity_name_data.hpp",
          "src/buildtool/build_engine/base_maps/rule_map.cpp", "src/buildtool/build_engine/base_maps/expression_map.cpp", "src/buildtool/build_engine/base_maps/source_map.cpp",
          "src/buildtool/build_engine/base_maps/user_rule.hpp", "src/buildtool/build_engine/expression/configuration.hpp", "src/buildtool/build_engine/expression/target_node.cpp",
          "doc/concepts/configuration.md", "doc/concepts/rules.md", "doc/concepts/anonymous-targets.md"],
         [("CreateTargetMap, withRuleDefinition, withDependencies", "src/buildtool/build_engine/target_map/target_map.cpp"),
          ("ResultTargetMap", "src/buildtool/build_engine/target_map/result_map.hpp"),
          ("ParseEntityName", "src/buildtool/build_engine/base_maps/entity_name.hpp")],
         EMC, EMCN),
    prop("C11", "Built-in rules and staging",
         "A target of a built-in rule (install, generic, file_gen, symlink, tree, tree_overlay, disjoint_tree_overlay, configure, export) has the artifacts, runfiles, provided data and action documented for the rule, "
         "or is an error if a field is ill-typed or not what the rule requires. No stage of artifacts, runfiles, action inputs, or tree content ever contains an absolute or upwards path, two different artifacts at one place, "
         "or an artifact below another, however the paths are spelled and in whatever order they are given; paths that mean the same place are the same place.",
         ["programs", "inputs"],
         "all field values of the alphabets in all pairs of fields of each built-in rule, all pairs of dependencies, all pairs of spellings of paths in every place that forms a stage",
         "Tests cover one valid use per rule and one or two conflicts; missed conflicts need particular spellings and orders of paths.",
         ["src/buildtool/build_engine/target_map/built_in_rules.cpp", "src/buildtool/build_engine/target_map/export.cpp", "src/buildtool/build_engine/target_map/utils.cpp",
          "src/buildtool/build_engine/target_map/target_map.cpp", "src/utils/cpp/path.hpp", "src/buildtool/build_engine/expression/linked_map.hpp", "doc/concepts/built-in-rules.md"],
         [("InstallRule, GenericRule, TreeRule, BlobGenRule, ConfigureRule", "src/buildtool/build_engine/target_map/built_in_rules.cpp"),
          ("ExportRule", "src/buildtool/build_engine/target_map/export.cpp"),
          ("tree_conflict, artifacts_tree, add_dir_for", "src/buildtool/build_engine/target_map/utils.cpp")],
         EMC, EMCN),
    prop("C12", "Exported targets: cached or served, the result is that of building",
         "The result of an export target (artifacts with contents and kinds, runfiles, provided values including configured ones and abstract nodes) is the same whether it is built, taken from the target-level cache, "
         "or obtained from a serve endpoint, after any history of other builds and garbage collections, and so is everything using it. A cached entry is used only for the very same target (by content of its repository and all it "
         "depends on, whatever the names of repositories), the same relevant configuration and the same execution backend, and it is used whenever there is one. What is not fixed in content is never cached. "
         "Entries found imply those of the exports below them. An entry whose artifacts are available stays usable as long as it is kept.",
         ["inputs", "histories"],
         "15 versions of a project of three repositories, 7 configurations, 5 targets: all pairs, all sequences with collections up to length 3 (thorough 4), all choices of absent repositories; 271 execution backends pairwise",
         "Tests cover single hits and misses; stale results need a particular change between two builds, or a collection.",
         ["src/buildtool/build_engine/target_map/export.cpp", "src/buildtool/build_engine/target_map/absent_target_map.cpp", "src/buildtool/storage/target_cache.hpp", "src/buildtool/storage/target_cache.tpp",
          "src/buildtool/storage/target_cache_entry.cpp", "src/buildtool/main/build_utils.cpp", "src/buildtool/main/analyse.cpp", "src/buildtool/build_engine/expression/target_result.cpp",
          "src/buildtool/common/repository_config.cpp", "src/buildtool/storage/backend_description.cpp", "src/buildtool/storage/uplinker.cpp"],
         [("ExportRule, FinalizeExport", "src/buildtool/build_engine/target_map/export.cpp"),
          ("WithFlexibleVariables, absent targets", "src/buildtool/build_engine/target_map/absent_target_map.cpp"),
          ("TargetCacheEntry", "src/buildtool/storage/target_cache_entry.cpp"),
          ("WriteTargetCacheEntries", "src/buildtool/main/build_utils.cpp"),
          ("BackendDescription", "src/buildtool/storage/backend_description.cpp")],
         EMC, EMCN),
    prop("C13", "Repository keys: the same exactly for indistinguishable repositories",
         "The key under which results for a repository are cached is the same for two repositories if and only if they cannot be told apart: same roots by content, same target, rule and "
         "expression file names, and bindings of the same names to repositories that again cannot be told apart - whatever the global names, the shape of the rest of the configuration, cycles, "
         "the order in which computed roots become known and keys are asked for. A repository that depends on anything not fixed in content, or missing, has no key. "
         "An absent root counts as the present one of the same tree; ignoring special entries counts as different. The description behind the key is in CAS.",
         ["inputs", "histories"],
         "all configurations of up to three repositories with two bindings and four with one (thorough: four with two, five with one), contents, missing and open repositories; all roots and file names; all stages of two computed roots",
         "Tests check a few graphs; wrong merging needs specific cyclic shapes, names or orders.",
         ["src/buildtool/common/repository_config.cpp", "src/buildtool/common/repository_config.hpp", "src/utils/automata/dfa_minimizer.hpp",
          "src/buildtool/multithreading/atomic_value.hpp", "src/buildtool/file_system/file_root.hpp"],
         [("RepositoryConfig", "src/buildtool/common/repository_config.cpp"),
          ("DFAMinimizer", "src/utils/automata/dfa_minimizer.hpp")],
         EMC, EMCN),
    prop("C14", "CAS entries always have the content their name promises",
         "Whatever is visible in the content-addressable storage under a digest has exactly the content, permissions and epoch modification time that digest and kind promise, "
         "at every moment, for every interleaving of threads storing and reading, whatever the point at which a process is killed, and whatever call fails (full disk, short write, read error, killed helper). "
         "Storing reports success only if the complete object is there afterwards; storing again after a crash or failure works; "
         "the file synchronised between the plain and the executable store is complete before it is visible.",
         ["schedules", "crash points", "faults"],
         "all interleavings of file-system calls of concurrent stores, all crash points including torn writes, all single faults, of every way of storing and reading an object",
         "Tests store and read on a working disk without concurrency; a torn or truncated entry needs a crash, fault or interleaving between two particular system calls.",
         ["src/buildtool/file_system/file_storage.hpp", "src/buildtool/file_system/object_cas.hpp", "src/buildtool/storage/local_cas.hpp",
          "src/buildtool/file_system/file_system_manager.hpp", "src/buildtool/file_system/atomic.hpp"],
         [("FileStorage (temporary file, hard link, rename)", "src/buildtool/file_system/file_storage.hpp"),
          ("ObjectCAS::StoreBlob*", "src/buildtool/file_system/object_cas.hpp"),
          ("FileSystemManager::WriteFile/CopyFile and their forked helpers", "src/buildtool/file_system/file_system_manager.hpp")],
         SMC + " with crash, torn-write and fault injection at every file-system call", SMCF),
    prop("C15", "Cache entries only refer to objects that are available",
         "Whenever the action cache or the target cache answers with an entry, it is the entry last stored for that key, and every object it refers to - output files, executables, symlink targets, "
         "directories with everything inside, captured stdout and stderr, artifacts of the stage, runfiles and provided values, entries of implied export targets - "
         "is available in the same (youngest) generation, with the promised content, in native and in compatible mode, also when some of them are kept only as large objects. "
         "An entry stored or used within the generations kept is found. This holds as well for each generation by itself after storing or promoting an entry has been interrupted at any point or a system call failed in it, and for several processes "
         "storing and reading entries at the same time. An entry the artifacts of which can not be had is not stored.",
         ["histories", "crash points", "schedules"],
         "all sequences of storing, overwriting and reading entries, storing and reading objects, compactification and garbage collection; every crash point, torn write and failing system call of storing and promoting; interleavings of two users within the bound",
         "Tests check single promotions between two generations; lost references need a sequence such as hit, rotate, compactify, hit, rotate, or a crash between promoting an entry and what it implies.",
         ["src/buildtool/storage/local_ac.tpp", "src/buildtool/storage/target_cache.tpp", "src/buildtool/storage/target_cache_entry.cpp",
          "src/buildtool/storage/uplinker.cpp", "src/buildtool/storage/local_cas.tpp", "doc/concepts/garbage.md"],
         [("LocalAC::LocalUplinkEntry", "src/buildtool/storage/local_ac.tpp"),
          ("TargetCache::LocalUplinkEntry", "src/buildtool/storage/target_cache.tpp"),
          ("GlobalUplinker", "src/buildtool/storage/uplinker.cpp")],
         ESR + "; stateless model checking with crash injection for interruptions and concurrency", ESRN),
    prop("C16", "Garbage collection keeps everything recently used, and nothing else",
         "Anything stored or successfully looked up (directly or as part of a tree or cache entry) stays available, with its exact content, until as many rotations as generations are kept have passed since; "
         "everything else is really removed by then; each generation for itself contains all parts of every tree and large object in it; "
         "without rotation nothing is lost; collecting everything leaves nothing. An interrupted garbage collection or compactification, or one in which a system call fails, loses nothing from the younger generations and the next one cleans up. "
         "While a process holds the shared lock, the paths it has been given stay valid, whatever garbage collections are started; concurrent garbage collections all complete.",
         ["histories", "crash points", "schedules"],
         "all sequences of storing, reading, splitting, garbage collection (rotating, not rotating, everything), compactification and leftovers; every crash point; every single failing system call; all interleavings with a build within the bound",
         "Tests rotate once or twice over fixed contents; lost objects need particular histories (used only through a tree, split in one generation, sibling kept) or a crash between two renames.",
         ["src/buildtool/storage/garbage_collector.cpp", "src/buildtool/storage/compactifier.cpp", "src/buildtool/storage/compactification_task.cpp",
          "src/buildtool/storage/uplinker.cpp", "src/buildtool/storage/local_cas.tpp", "src/buildtool/storage/large_object_cas.tpp",
          "src/buildtool/storage/repository_garbage_collector.cpp", "src/utils/cpp/file_locking.cpp", "doc/concepts/garbage.md"],
         [("GarbageCollector", "src/buildtool/storage/garbage_collector.cpp"),
          ("Compactifier", "src/buildtool/storage/compactifier.cpp"),
          ("LocalCAS::LocalUplink*", "src/buildtool/storage/local_cas.tpp"),
          ("LockFile", "src/utils/cpp/file_locking.cpp")],
         ESR + "; stateless model checking with crash injection for interruptions and concurrency", ESRN),
    prop("C19", "Source roots: a file root and the git tree of it answer alike",
         "For every source tree, a root given as directory, as git tree, and each of them with ignoring of special entries, answers every question - "
         "existence, kind, executable, symlink and its target, content, directory entries, artifact description, tree id - as the tree defines it, whatever has been asked before: "
         "entries behave the same in all kinds of roots; upwards or absolute symbolic links, submodules and special files are hidden where special entries are ignored, and nowhere else; "
         "a directory or git tree which contains (at any depth) an invalid link is never an artifact tree of a root that does not ignore it; names and contents are taken bytewise. "
         "Root descriptions of a repository configuration are accepted exactly if well formed and existing, and give that kind of root.",
         ["inputs", "histories"],
         "all trees of files, executables, valid and upwards links and directories in the alphabet; all queries, in all orders up to the depth",
         "Tests use one fixed tree per kind of root and no query sequences; deviations need nesting of special entries or a query before another (the trees are cached as checked).",
         ["src/buildtool/file_system/file_root.hpp", "src/buildtool/file_system/git_tree.cpp", "src/buildtool/file_system/git_cas.cpp",
          "src/buildtool/file_system/git_repo.cpp", "src/buildtool/storage/fs_utils.cpp", "src/buildtool/file_system/file_system_manager.hpp"],
         [("FileRoot", "src/buildtool/file_system/file_root.hpp"),
          ("GitTree", "src/buildtool/file_system/git_tree.cpp"),
          ("GitRepo::ReadTree", "src/buildtool/file_system/git_repo.cpp")],
         EMC, EMCN),
    prop("C20", "Trees: the same in every representation, storage and overlay",
         "A tree object denotes one directory, whatever its representation: git tree, compatible directory message, directory on disk, stage of artifacts. "
         "Overlaying two trees yields exactly the entries of both, recursively, the second winning, and a disjoint overlay fails exactly if they conflict. "
         "Converting objects between native and compatible form, from storage or a git repository, after any history of conversions and garbage collections, yields the id, kind and "
         "content of the object, all of it present. Copying to another storage, installing, dumping, listing, following paths inside, importing into, committing to and fetching from git "
         "repositories all give exactly that directory.",
         ["inputs", "histories"],
         "all pairs of trees, objects with coinciding content, conversion histories, paths and stages in the alphabet",
         "Tests use a few fixed trees; deviations need different kinds of entries with coinciding content, or conversions after a garbage collection.",
         ["src/buildtool/execution_engine/tree_operations/tree_operations_utils.cpp", "src/buildtool/execution_api/bazel_msg/bazel_msg_factory.cpp",
          "src/buildtool/execution_api/utils/rehash_utils.cpp", "src/buildtool/execution_api/utils/subobject.cpp", "src/buildtool/execution_api/git/git_api.cpp",
          "src/buildtool/execution_api/local/local_api.cpp", "src/buildtool/execution_api/common/tree_reader.hpp", "src/buildtool/execution_api/common/stream_dumper.hpp",
          "src/buildtool/file_system/git_repo.cpp", "src/buildtool/computed_roots/artifacts_root.cpp"],
         [("TreeOperationsUtils", "src/buildtool/execution_engine/tree_operations/tree_operations_utils.cpp"),
          ("RehashUtils", "src/buildtool/execution_api/utils/rehash_utils.cpp"),
          ("GitRepo", "src/buildtool/file_system/git_repo.cpp"),
          ("ArtifactsRoot", "src/buildtool/computed_roots/artifacts_root.cpp")],
         EMC, EMCN),
    prop("C21", "Paths: what a path means is decided by where it leads",
         "A path is normalized to the same place it led to; it is taken as upwards or absolute exactly if it leads, at any point where that matters, outside of where it starts; "
         "rebasing a path onto a base leads to the same place as the path does. File names are valid exactly if they name one entry of a directory. Prefixing a text prefixes every line of it.",
         ["inputs"],
         "all paths of up to five segments (thorough: six), all pairs of paths of up to four, all names of up to five characters, all texts of up to seven",
         "Tests list a few paths each; mistakes sit in combinations of dots, empty segments and trailing slashes.",
         ["src/utils/cpp/path.hpp", "src/utils/cpp/path_rebase.hpp", "src/utils/cpp/prefix.hpp"],
         [("PathIsNonUpwards", "src/utils/cpp/path.hpp"), ("RebasePathStringRelativeTo", "src/utils/cpp/path_rebase.hpp")],
         EMC, EMCN),
    prop("C22", "File operations do exactly what they say, whatever is there already",
         "Creating, linking, copying, moving, writing and removing files and directories either succeeds, leaving exactly the named result at the destination - kind, content, permissions, "
         "time where requested, and never sharing storage with what was there before - or reports failure; nothing else in the file system changes, in particular not what links point to. "
         "Entries are classified by what they are, never by what they point to. Following symbolic links always ends. A change of directory is undone at its end.",
         ["inputs"],
         "all operations on all kinds of sources, destinations and parents, all modes, all graphs of four links",
         "Tests apply each operation to ordinary files; mistakes need existing destinations of unusual kinds, links, permissions, missing parents.",
         ["src/buildtool/file_system/file_system_manager.hpp"],
         [("FileSystemManager", "src/buildtool/file_system/file_system_manager.hpp")],
         EMC, EMCN),
    prop("C23", "Repository setup: the roots are the documented ones, after any history",
         "Setting up the repositories of a configuration gives, for each repository reachable from the main one, the root its description denotes - exactly the tree of the directory, archive "
         "(of the given content), file, commit, git tree or distribution directory, restricted to the subdirectory, with special entries ignored or links resolved as requested - together with "
         "the names, bindings and other roots given; everything else is rejected, without a crash or hang, however malformed. The outcome does not depend on what was set up before, on concurrent setups, nor on garbage "
         "collections; a root set up stays available without network until not used for two collections. Absent roots are named by the right tree, whether a server knows them or not. "
         "Nothing is written outside of the build root, whatever an archive contains.",
         ["inputs", "histories"],
         "all root descriptions, pairs of them, sequences of setups, losses of sources and collections, link targets, configurations and malformed values in the alphabet",
         "Tests set up one repository of each type; deviations need combinations: same content with other subdir or pragma, collections in between, sources gone, links through links, hostile archives.",
         ["src/other_tools/just_mr/setup.cpp", "src/other_tools/just_mr/setup_utils.cpp", "src/other_tools/repo_map/repos_to_setup_map.cpp", "src/other_tools/root_maps/content_git_map.cpp",
          "src/other_tools/root_maps/commit_git_map.cpp", "src/other_tools/root_maps/fpath_git_map.cpp", "src/other_tools/root_maps/foreign_file_git_map.cpp", "src/other_tools/root_maps/tree_id_git_map.cpp",
          "src/other_tools/root_maps/distdir_git_map.cpp", "src/other_tools/ops_maps/content_cas_map.cpp", "src/other_tools/ops_maps/import_to_git_map.cpp", "src/other_tools/ops_maps/git_tree_fetch_map.cpp",
          "src/buildtool/file_system/symlinks/resolve_symlinks_map.cpp", "src/utils/archive/archive_ops.cpp", "src/buildtool/storage/repository_garbage_collector.cpp"],
         [("MultiRepoSetup", "src/other_tools/just_mr/setup.cpp"),
          ("CreateReposToSetupMap", "src/other_tools/repo_map/repos_to_setup_map.cpp"),
          ("CreateContentGitMap", "src/other_tools/root_maps/content_git_map.cpp"),
          ("CreateCommitGitMap", "src/other_tools/root_maps/commit_git_map.cpp"),
          ("CreateResolveSymlinksMap", "src/buildtool/file_system/symlinks/resolve_symlinks_map.cpp")],
         EMC, EMCN),
    prop("C24", "Content addressing: the identifier is the hash of exactly the content",
         "However content is named - from memory, from a file or a temporary file, in pieces, as blob or as tree, in either hash type -, its digest is the hash of exactly this content "
         "with its size, and reading it back delivers exactly the content from every offset on, in pieces of at most the requested size. Digests, hashes, object infos, "
         "upload and download resource names survive their textual, JSON and message forms, different ones having different forms; malformed hashes, digests and names are rejected. "
         "Cutting a file gives pieces of the allowed sizes that concatenate to exactly the file, always the same ones.",
         ["inputs"],
         "all contents, ways of naming, offsets, piece sizes and near-miss texts in the alphabet",
         "Tests hash a few constants; deviations are at boundaries: empty contents, sizes at multiples of buffer and piece sizes, offsets at the end, texts one character off.",
         ["src/buildtool/crypto/hash_function.hpp", "src/buildtool/crypto/hash_info.cpp", "src/buildtool/common/artifact_digest_factory.cpp", "src/buildtool/common/artifact_blob.cpp",
          "src/utils/cpp/incremental_reader.cpp", "src/utils/cpp/hex_string.hpp", "src/buildtool/execution_api/common/bytestream_utils.cpp",
          "src/buildtool/storage/file_chunker.cpp"],
         [("HashFunction", "src/buildtool/crypto/hash_function.hpp"),
          ("IncrementalReader", "src/utils/cpp/incremental_reader.cpp"),
          ("FileChunker", "src/buildtool/storage/file_chunker.cpp")],
         EMC, EMCN),
    prop("C25", "Local actions: the result is what the action did, from cache only if the same",
         "An action run by the local execution API sees exactly its inputs, environment, arguments, working directory and an empty standard input, and nothing else; "
         "its result is exactly its exit code, what it wrote to stdout and stderr, and what it left at its declared outputs - kind, executability, content, trees with "
         "everything inside -, where a declared output of the wrong kind or missing makes the result unusable. A result is answered from cache only for an action with the same "
         "command, inputs, outputs, working directory, environment and properties, only if caching is allowed and it succeeded with all outputs, and then it is bitwise the one recorded; "
         "such an action is answered from cache whenever the flags say so.",
         ["inputs", "histories"],
         "all kinds of outputs, declarations, commands, exit codes and sequences of cache flags in the alphabet",
         "Tests run a handful of actions with regular files; wrong results come from unusual kinds of outputs (links to directories, nested, missing), declarations and flags in sequence.",
         ["src/buildtool/execution_api/local/local_action.cpp", "src/buildtool/execution_api/local/local_response.hpp", "src/buildtool/execution_api/local/local_api.cpp",
          "src/buildtool/execution_api/utils/outputscheck.hpp", "src/buildtool/system/system_command.hpp", "src/buildtool/storage/local_ac.tpp"],
         [("LocalAction", "src/buildtool/execution_api/local/local_action.cpp"),
          ("LocalResponse", "src/buildtool/execution_api/local/local_response.hpp"),
          ("ActionResultContainsExpectedOutputs", "src/buildtool/execution_api/utils/outputscheck.hpp")],
         EMC, EMCN),
    prop("C26", "Builds: artifacts are those of a clean build, after any history",
         "Building an action graph yields the artifacts a clean build of the current sources would - kind, executability, content, id -, whatever was edited, built (in whole or in part), "
         "failed or garbage collected before, each action seeing exactly its staged inputs; conflicting inputs are rejected. Trees and tree overlays consist of exactly the given "
         "entries, the later overlay winning. A failing action makes the build fail, except where failure is allowed, and artifacts are marked as failed exactly if they depend on a failing one. "
         "Nothing is run that is cached. Installing puts exactly the artifacts at their places, replacing what was there, independent of later modification of the installed ones. "
         "A rebuild runs every action, reports exactly those outputs that differ from the cached ones, and does not change the cache.",
         ["inputs", "histories"],
         "all staging sets, sequences of edits, builds and collections, rebuilds and installations in the alphabet",
         "Tests build a few graphs once; deviations need a specific order of edits, partial builds, failures and garbage collections, or coinciding contents.",
         ["src/buildtool/graph_traverser/graph_traverser.hpp", "src/buildtool/execution_engine/executor/executor.hpp", "src/buildtool/execution_engine/dag/dag.cpp",
          "src/buildtool/execution_engine/traverser/traverser.hpp", "src/buildtool/execution_engine/tree_operations/tree_operations_utils.cpp",
          "src/buildtool/execution_api/local/local_api.cpp", "src/buildtool/execution_api/local/local_action.cpp", "src/buildtool/execution_api/common/blob_tree.cpp"],
         [("GraphTraverser", "src/buildtool/graph_traverser/graph_traverser.hpp"),
          ("ExecutorImpl", "src/buildtool/execution_engine/executor/executor.hpp"),
          ("TreeOperationsUtils", "src/buildtool/execution_engine/tree_operations/tree_operations_utils.cpp"),
          ("DependencyGraph", "src/buildtool/execution_engine/dag/dag.cpp")],
         EMC, EMCN),
    prop("C27", "Remote execution: the same as building locally, or a failure",
         "Building with a remote execution service - the built-in one, in whichever protocol versions and limits it announces, with whatever the client, another client or a local build has already stored or run - "
         "yields the same artifacts, installed files with their modes, exit codes, outputs, number of executed and cached actions as a local build. "
         "If a call is not carried out, its reply or part of its stream is lost, answers carry wrong or no data, or objects have vanished from the service, the build fails or gives exactly that result, "
         "and the next build without such a fault gives it; a call that would succeed when repeated is repeated as often as configured.",
         ["inputs", "histories", "fault_sequences"],
         "all action graphs, actions, capabilities, cache flags, and all single faults (every call, every object sent) in the alphabet",
         "The remote sources are not even compiled by the tests run here; wrong results come from one lost or wrong answer at one point of a build, or from limits and versions a test server does not announce.",
         ["src/buildtool/execution_api/remote/bazel/bazel_api.cpp", "src/buildtool/execution_api/remote/bazel/bazel_action.cpp", "src/buildtool/execution_api/remote/bazel/bazel_response.cpp",
          "src/buildtool/execution_api/remote/bazel/bazel_execution_client.cpp", "src/buildtool/execution_api/remote/bazel/bazel_ac_client.cpp",
          "src/buildtool/execution_api/remote/bazel/bazel_capabilities_client.cpp", "src/buildtool/execution_api/execution_service/execution_server.cpp",
          "src/buildtool/execution_api/execution_service/ac_server.cpp", "src/buildtool/execution_api/bazel_msg/bazel_msg_factory.cpp", "src/buildtool/common/remote/retry.cpp"],
         [("BazelApi", "src/buildtool/execution_api/remote/bazel/bazel_api.cpp"),
          ("BazelResponse", "src/buildtool/execution_api/remote/bazel/bazel_response.cpp"),
          ("ExecutionServiceImpl", "src/buildtool/execution_api/execution_service/execution_server.cpp")],
         EMC, EMCN),
    prop("C28", "Remote storage: what is uploaded comes back, what is wrong is refused",
         "Any set of objects - files, executables, trees, of any size relative to batch, message and chunk limits, from memory or files, with equal contents or not - uploaded to the execution service is stored there "
         "under its own name and nowhere else, is reported present (and nothing else is), and is read, installed and fetched into another storage, whole or in split parts, one by one or in parallel, with identical content. "
         "The service refuses data that does not match its announced digest, incomplete trees, malformed digests, and objects put together from wrong parts, and never stores anything under a name not its own. "
         "The client never takes wrong data from a service for an object, and reports success only when everything has arrived.",
         ["inputs", "fault_sequences"],
         "all sets, sizes, limits, chunkings, digests and corruptions in the alphabet",
         "Tests transfer a few small objects; errors appear at limits, with equal contents in two roles, or with an answer carrying other data.",
         ["src/buildtool/execution_api/remote/bazel/bazel_cas_client.cpp", "src/buildtool/execution_api/remote/bazel/bazel_network.cpp", "src/buildtool/execution_api/remote/bazel/bazel_network_reader.cpp",
          "src/buildtool/execution_api/remote/bazel/bytestream_client.hpp", "src/buildtool/execution_api/remote/bazel/bazel_api.cpp", "src/buildtool/execution_api/execution_service/cas_server.cpp",
          "src/buildtool/execution_api/execution_service/cas_utils.cpp", "src/buildtool/execution_api/execution_service/bytestream_server.cpp"],
         [("BazelCasClient", "src/buildtool/execution_api/remote/bazel/bazel_cas_client.cpp"),
          ("CASServiceImpl", "src/buildtool/execution_api/execution_service/cas_server.cpp"),
          ("BytestreamServiceImpl", "src/buildtool/execution_api/execution_service/bytestream_server.cpp")],
         EMC, EMCN),
]
NA = {}
NOTES = ("All checks build the harness programs of /verif together with the sources of /repo's working tree; no hooks in /repo are needed "
         "(synchronisation and file-system calls are interposed at link level).")
