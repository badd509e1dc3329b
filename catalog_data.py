prop('C01', 'List and map built-ins compute their documented value',
     'For every evaluated argument, the pure list functions of the expression language give exactly the documented result: nub_left/nub_right keep one copy of each entry (the first resp. the last) in order, ++ concatenates, reverse reverses, length counts, enumerate and set build the documented maps, + and * fold numbers from the left, keys and values list a map in key order, range counts from 0, and [] selects the entry at an index (negative ones from the end, otherwise the default). Arguments of the wrong shape (including non-cacheable ones for the nub functions) are an evaluation error and never a silently different value.',
     ['inputs', 'programs'], 'all argument values (lists of any length and content, maps, numbers, strings) and, for [], all environments and sub-expressions',
     'the unit tests evaluate a few fixed small lists; duplicates patterns, nesting, boundary indices and lists of arbitrary length are not sampled',
     [EV], [('NubLeft, NubRight, Flatten, Reverse, Length, Enumerate, Set, Addition, Multiplication, Keys, Values, Range, ArrayAccessExpr', EV)],
     'all obligations of the extracted functions; dispatch and argument evaluation only by the bounded conformance harness')
prop('C02', 'Map construction and lookup: unions, lookup, singleton and zip',
     'map_union of a list of maps is the map in which each key has the value of its right-most occurrence; disjoint_map_union is the same map, and is an evaluation error exactly if some entry of the list is not a map or some key occurs with two different values, whatever the length of the list and whichever entries are empty. lookup returns the value stored under the key unless that is absent or null, in which case it is the value of the default expression; singleton_map and zip_map build exactly the documented maps (zip_map pairs up to the shorter list, later entries winning).',
     ['inputs', 'programs'], 'all lists of maps of any length, all maps, keys, environments and sub-expressions',
     'unions recurse over a balanced split of the list; conflicts between far-apart entries, empty entries and long lists are not sampled by tests',
     [EV, 'src/buildtool/build_engine/expression/expression.hpp'],
     [('Union, UnionExpr, DisjointUnionExpr, LookupExpr, SingletonMapExpr, ZipMapExpr', EV)],
     'all obligations of the extracted functions; LinkedMap is modelled as a finite map')
prop('C03', 'Truth, branching and assertions of the expression language',
     'Exactly null, false, the number 0, the empty string, the empty list and the empty map are logically false; not, and, or (with left-to-right short-circuit evaluation on lists, stopping at the first deciding entry), ==, if, cond, case and case* evaluate only the selected branch and give its value, or the default if no branch is selected. fail always is an error, assert and assert_non_empty return their argument unchanged or are an error, and context does not change the result of its sub-expression.',
     ['inputs', 'programs'], 'all expressions, sub-expressions and environments, including sub-expressions whose evaluation fails',
     'which sub-expressions are evaluated, and in which order failures surface, is not observable from a handful of evaluated examples',
     [EV], [('ValueIsTrue, LogicalNot, AndExpr, OrExpr, IfExpr, CondExpr, CaseExpr, SeqCaseExpr, FailExpr, AssertExpr, AssertNonEmptyExpr, ContextExpr, EqualExpr', EV)],
     'all obligations of the extracted functions; sub-expression evaluation is a deterministic partial function')
prop('C04', 'Binding constructs evaluate in exactly the right environment',
     'let* evaluates each binding in the environment extended by the earlier ones and its body in the environment extended by all of them; env gives the map of the given variables bound in the environment; foreach, foreach_map and foldl bind exactly their variable(s) for each element in order (a map in key order), on top of the surrounding environment, and collect respectively fold the results. Bindings shadow outer ones and never leak out, var yields the bound value or the default if unbound or null, and malformed bindings are an evaluation error.',
     ['inputs', 'programs'], 'all environments, bindings, ranges (of any length) and sub-expressions',
     'shadowing, ordering and failure of bindings for ranges of arbitrary length are not sampled by tests',
     [EV, 'src/buildtool/build_engine/expression/configuration.hpp'],
     [('LetExpr, EnvExpr, ForeachExpr, ForeachMapExpr, FoldLeftExpr, VarExpr', EV), ('Configuration::Update', 'src/buildtool/build_engine/expression/configuration.hpp')],
     'all obligations of the extracted functions; Configuration is modelled as a map-valued expression')
prop('C05', 'String built-ins: quoting, joining, escaping and file-name functions',
     'join_cmd yields a text that a POSIX shell splits into exactly the given list of words, and join concatenates the strings with the separator between consecutive ones only; anything but a list of strings is an error. escape_chars puts the prefix in front of exactly those (whole UTF-8) characters that occur in the given set and changes nothing else. change_ending replaces the extension of the last path component, basename gives the last path component, and concat_target_name appends a suffix (a string or the concatenation of a list of strings) to a name, for list-shaped names to the last entry only.',
     ['inputs', 'programs'], 'all strings (any bytes, any length), separators, character sets and lists',
     'quoting is only correct if it is for every byte string; tests try a few words',
     [EV], [('ShellQuote, Join, JoinExpr, JoinCmdExpr, EscapeCharsExpr, ChangeEndingTo, BaseName, ConcatTargetName, ConcatTargetNameExpr', EV)],
     'all obligations of the extracted functions; that each quoted word is read back by a shell is a lemma; std::filesystem::path is uninterpreted')
prop('C06', 'to_subdir and from_subdir move staged entries exactly',
     'to_subdir moves every entry of a map to the normalised path below the given directory (flat: only its last path component is kept), and it is an error if two entries with different or non-cacheable values end up at the same path. from_subdir keeps exactly the entries located within the given directory, at their normalised path relative to it, with the same conflict rule; every other entry is dropped and none is moved elsewhere.',
     ['inputs', 'programs'], 'all maps from paths (absolute, upwards, redundant and conflicting ones included) to values, and all directories',
     'conflicts that only appear after normalisation and entries outside of the directory are not sampled by tests',
     [EV, 'src/utils/cpp/path.hpp'], [('ToSubdirExpr, FromSubdirExpr', EV), ('ToNormalPath, PathIsNonUpwards', 'src/utils/cpp/path.hpp')],
     'all obligations of the extracted functions, relative to uninterpreted std::filesystem::path operations')
prop('C07', 'Quasi-quotation copies literally except for unquoted parts',
     'The value of a quasi-quoted term is the term itself, with every map of type "," (anywhere within lists and map values) replaced by the value of its argument (null if it has none), and every map of type ",@" that is an entry of a list replaced by the entries of the list its argument evaluates to (none if it has no argument). A splice anywhere else, a splice of a non-list, or a failing unquoted argument is an error; keys and the number and order of all other entries are unchanged.',
     ['inputs', 'programs'], 'all terms of any nesting depth, and all environments',
     'the nesting of lists, maps, unquotes and splices is unbounded; tests evaluate a few shapes',
     [EV], [('ExpandQuasiQuote, ExpandQuasiQuoteListEntry, QuasiQuoteExpr, OnlyInQuasiQuote', EV)],
     'all obligations of the extracted (mutually recursive) functions, including termination')
prop('C08', 'A layered (linked) map behaves as the one merged map',
     'A LinkedMap, however its layers are chained and shared, is the map in which the own content shadows the next layer: Find, contains, at and [] give exactly that value for every key (nothing respectively std::out_of_range for absent ones), empty() holds exactly if no key is bound, and Items, Keys, Values, size and iteration give each bound key once, in strictly increasing key order, with that value. FindConflictingDuplicate gives a key bound in both maps to different values if there is one and nothing otherwise; two maps are equal exactly if they bind the same keys to the same values.',
     ['inputs'], 'all chains of layers, with any keys and values, and any order of queries',
     'duplicate keys between layers at arbitrary positions of the merge, empty layers and shared layers are unbounded; the tests have a handful of fixed maps',
     ['src/buildtool/build_engine/expression/linked_map.hpp'], [('Find, contains, at, empty, ComputeSortedItems, Items, FindConflictingDuplicate, Keys, Values, size', 'src/buildtool/build_engine/expression/linked_map.hpp')],
     'all obligations of the extracted member functions (instantiated for strings); operator== only by the bounded conformance harness')
prop('C09', 'Configurations: pruning keeps exactly the given variables',
     'Prune gives the configuration that has exactly the given variables, each with the value it has (null if it is not set), and nothing else; a list expression with a non-string entry is an error. Update changes exactly the given variables and leaves every other one, and the original configuration, as they were; indexing gives the value of a variable (null if not set), VariableFixed tells whether it is set, and equality holds exactly for the same variables with the same values.',
     ['inputs', 'histories'], 'all configurations, variable lists (duplicate and unset names included) and sequences of updates',
     'the result of every analysis is cached under the pruned configuration, so it must be right for all variables and histories of updates; tests use a few variables',
     ['src/buildtool/build_engine/expression/configuration.hpp'], [('Configuration::Prune, Update, VariableFixed, operator[]', 'src/buildtool/build_engine/expression/configuration.hpp')],
     'all obligations of the extracted member functions; operator== only by the bounded conformance harness')
prop('C10', 'Path predicates and non-upwards symbolic links',
     'PathIsNonUpwards holds exactly for relative paths whose component-wise walk never steps above its start, and PathIsConfined exactly if the (relative) path, applied from the parent directory of the other one, is such a path. ToNormalPath gives the normalised path (no "." or redundant separators, no trailing separator, "." for the empty one), IsValidFileName holds exactly for non-empty names other than "." and ".." without "/" and NUL bytes. CreateNonUpwardsSymlink only ever creates links with a non-upwards target, and IsNonUpwardsSymlink holds (unless non-strict) only for links with such a target.',
     ['inputs'], 'all paths and names of any length (redundant, upwards, absolute and empty ones)',
     'containment must hold for every path, in particular for those that leave and re-enter a directory; tests try a few',
     ['src/utils/cpp/path.hpp', 'src/buildtool/file_system/file_system_manager.hpp'],
     [('ToNormalPath, PathIsNonUpwards, PathIsConfined, IsValidFileName', 'src/utils/cpp/path.hpp'), ('CreateNonUpwardsSymlink, IsNonUpwardsSymlink', 'src/buildtool/file_system/file_system_manager.hpp')],
     'all obligations of the extracted functions, relative to std::filesystem::path described by its components')
TU = 'src/buildtool/build_engine/target_map/utils.cpp'
prop('C11', 'Stages: normalised locations, tree conflicts, working directory, taints',
     'artifacts_tree moves every artifact to its normalised location and fails exactly if two different artifacts end up at one location; for a stage with normalised keys, tree_conflict reports a location exactly if some key is absolute, starts with "..", is "." next to other entries, or lies properly above another key, and the reported key is such a one. add_dir_for adds the empty tree at the working directory exactly if that is not the top level and no (relative) key of the stage is at, above or below it, and otherwise gives the stage as it was. getTainted succeeds exactly if the expression evaluates to a list of strings, and then adds exactly these strings to the taints.',
     ['inputs'], 'all stages (any number, nesting and order of keys), working directories and taint lists',
     'conflicts depend on pairs of keys that may be far apart and on paths sorting between them; tests have a handful of stages',
     [TU], [('artifacts_tree, tree_conflict, add_dir_for, getTainted, keys_expr', TU), ('ToNormalPath', 'src/utils/cpp/path.hpp')],
     'all obligations of the extracted functions, relative to std::filesystem::path described by its components')
EN = 'src/buildtool/build_engine/base_maps/entity_name.hpp'
prop('C12', 'Entity names denote exactly the documented target',
     'Seen from a named target, a string denotes the target of this name in the current module; ["module", "name"] one of the current repository; ["./", relmodule, name] one in the module at that path relative to the current one and an error if that is outside of the workspace (relmodule relative); ["@", repo, module, name] one in the repository bound to the local name and an error if there is none; ["FILE"|"TREE"|"GLOB"|"SYMLINK", m, name] a source reference of that kind in the current module, m being null, "." or the current module. Everything else is rejected, names given as JSON and as expressions denote the same, modules are normalised and never lead above the workspace root, and no exception escapes.',
     ['inputs'], 'all names (of any length, with any entries), current targets and repository bindings',
     'the forms overlap (markers, lengths, kinds of entries) and modules are arbitrary paths; tests parse a handful',
     [EN, 'src/buildtool/build_engine/base_maps/entity_name_data.hpp'],
     [('ParseEntityName, ParseEntityName_2, ParseEntityName_3, ParseEntityNameFSReference, ParseEntityNameRelative, ParseEntityNameLocation', EN), ('NamedTarget, normal_module_name, EntityName', 'src/buildtool/build_engine/base_maps/entity_name_data.hpp')],
     'all obligations of the extracted functions, for both instantiations (JSON and expressions), relative to uninterpreted std::filesystem::path operations')
HFF, HIF, HXF, IRF = 'src/buildtool/crypto/hash_function.cpp', 'src/buildtool/crypto/hash_info.cpp', 'src/utils/cpp/hex_string.hpp', 'src/utils/cpp/incremental_reader.cpp'
prop('C13', 'Content identifiers are the documented hashes of exactly the content',
     'For every content and both protocol modes, the identifier computed is the hash documented: in git mode the SHA1 of "blob <size>\\0" (for trees "tree <size>\\0") followed by the content, in compatible mode the SHA256 of the content, the same whether hashed from memory or from a file of any size, and the size reported for a file is its size. An identifier received from outside is accepted exactly if it consists of hexadecimal digits, has the length of the algorithm and is a tree only in git mode; encoding bytes in hexadecimal and decoding again gives the same bytes, and a string with any other character is never decoded.',
     ['inputs'], 'all contents and files of any size, all chunk sizes of the incremental reader, all strings received as identifiers',
     'tests hash a few short strings; chunk boundaries, sizes and malformed identifiers are not sampled',
     [HFF, HIF, HXF, IRF],
     [('HashTaggedLine, HashTaggedFile, HashBlobData, HashTreeData, PlainHashData, HashBlobFile, HashTreeFile, MakeHasher, CreateGitBlobTag, CreateGitTreeTag', HFF), ('HashInfo::Create, ValidateInput, HashData, HashFile, operator==', HIF), ('ToHexString, FromHexString, IsHexString', HXF), ('IncrementalReader::ReadFromMemory, Iterator::operator++', IRF)],
     'all obligations of the extracted functions; the hash functions are uninterpreted (OpenSSL) and compared in the bounded harness, reading a FILE* is assumed')
AJ, AXP = 'src/buildtool/common/action.hpp', 'src/buildtool/build_engine/expression/expression.cpp'
prop('C14', 'The identifier of an action stands for all of its parts',
     'The action a rule creates has exactly the outputs, output directories, command, working directory, environment, inputs, execution properties, may-fail message, no-cache flag and timeout scaling given, environment and properties being maps of strings and inputs a map of artifacts, or else it is rejected. Two actions have the same identifier if and, up to hash collisions, only if all these parts agree. Likewise two values of the expression language (JSON values with finite numbers, artifacts, and lists, maps, results and nodes of such) have the same hash, and compare equal, if and, up to hash collisions, only if they are the same.',
     ['inputs'], 'all actions and values, in particular parts whose serialisations look alike',
     'injectivity is about pairs of inputs; tests compare the identifiers of a few actions',
     [TU, AJ, AXP],
     [('createAction, hash_vector', TU), ('Action::Action', AJ), ('ActionDescription::ActionDescription', 'src/buildtool/common/action_description.hpp'), ('Expression::ComputeHash', AXP), ('TargetNode::operator==', 'src/buildtool/build_engine/expression/target_node.hpp'), ('TargetResult::operator==', 'src/buildtool/build_engine/expression/target_result.hpp')],
     'all obligations of the extracted functions and of the lemmas that the identifier decides the parts and the hash of a value the value; SHA256 is uninterpreted, the JSON text of artifacts is compared in the bounded harness')
FC = 'src/buildtool/storage/file_chunker.cpp'
prop('C15', 'Splitting a file into chunks loses nothing and depends on the content only',
     'For every file that can be read, the chunks delivered for it, joined in order, are its content, and no chunk is empty; all have at most the largest and all but the last at least the smallest chunk size. Where a chunk ends is determined by the bytes that follow its begin alone, as FastCDC defines it, and so is the same wherever the same bytes occur again. Chunking is reported as finished exactly after the whole file was delivered.',
     ['inputs', 'histories'], 'all file sizes and contents, in particular how chunks and refills of the read buffer interleave',
     'tests chunk one large random file; buffer refills and boundaries at special offsets are not sampled',
     [FC, 'src/buildtool/storage/file_chunker.hpp'],
     [('NextChunk, NextChunkBoundary, Finished', FC)],
     'all obligations of the extracted functions, including that copies inside of the buffer never overlap; reading a stream is assumed')
prop('C16', 'Values of the expression language: JSON, access, cacheability',
     'Converting JSON to a value gives the value with exactly that content (kinds, numbers, strings, list entries in order, map entries), and converting it back gives the same JSON; with non-JSON content asked to be null, exactly the artifacts, names, results and nodes in it (at any depth) become null. Accessing a map by key or a list by position gives the entry there, or is an error or the given default if there is none. A value is cacheable exactly if no name occurs in it at any depth of lists and maps, and no result that provides, or node that holds (for an abstract node: in its target fields), something non-cacheable.',
     ['inputs'], 'all JSON values and all values of any nesting depth', 'tests convert a few values; non-cacheable parts hidden at some depth are not sampled',
     [AXP, 'src/buildtool/build_engine/expression/expression.hpp', 'src/buildtool/build_engine/expression/target_node.cpp'],
     [('FromJson, ToJson, ComputeIsCacheable, operator[]', AXP), ('At, Get', 'src/buildtool/build_engine/expression/expression.hpp')],
     'all obligations of the extracted functions and of the round-trip and depth lemmas; rvalue overloads and Get only by the bounded harness')

RS = 'src/buildtool/build_engine/expression/target_result.cpp'
prop('C17', 'What the target cache stores for a target is what it gives back',
     'A target result stored for the target cache and read back has the same artifacts, runfiles and provided values (of any nesting, with the same kinds, so that an artifact is an artifact and a map that looks like one is a map), with every artifact not known yet replaced by the known one given for it; each different provided value is stored once. If the replacement of some artifact is missing, nothing is stored. The result read back is cacheable.',
     ['inputs', 'histories'], 'all target results without names and all replacement maps', 'tests store results with flat provided maps; nested results, nodes, shared values and values that look like stored ones are not sampled',
     [RS, 'src/buildtool/build_engine/expression/target_result.hpp'],
     [('SerializeExpression, SerializeArtifactMap, SerializeProvidesMap, SerializeTargetResultWithReplacement, ToJson, ReplaceNonKnownAndToJson, DeserializeExpression, DeserializeProvidesMap, DeserializeArtifactMap, FromJson', RS)],
     'all obligations of the extracted functions and of the lemmas that link what is written to what is read; that an artifact is read back from its own JSON and printing of JSON only by the bounded harness')

AD = 'src/buildtool/common/artifact_description.cpp'
prop('C18', 'An artifact description is what its JSON says',
     'An artifact description read back from the JSON written for it is of the same kind and has the same parts (path and repository; action and output path; hash, size and file type; identifier of the tree), and descriptions that differ in kind or in such a part have different JSON. JSON of an unknown kind, with a missing part, a part that should be a string and is none, or a hash that is no hash of the hash function used is rejected.',
     ['inputs'], 'all descriptions, all JSON values, both hash functions', 'tests use a few descriptions of each kind',
     [AD, 'src/buildtool/file_system/object_type.hpp', 'src/buildtool/common/artifact_digest_factory.cpp'],
     [('CreateLocal, CreateAction, CreateKnown, CreateTree, CreateTreeOverlay, ToJson, FromJson and the functions they use', AD), ('ToChar, FromChar', 'src/buildtool/file_system/object_type.hpp'), ('ArtifactDigestFactory::Create', 'src/buildtool/common/artifact_digest_factory.cpp')],
     'all obligations of the extracted functions and the lemmas that the JSON decides the description; typed access to JSON fields, comparison by id and artifacts made of descriptions only by the bounded harness')

# properties outside of what contracts on sequential code can decide here
MT = 'src/buildtool/multithreading/'
na('N01', 'Each node of the asynchronous maps is computed once, cycles are found',
   'In the asynchronous maps that drive analysis, every requested key is computed exactly once however many threads ask for it, every consumer gets that one value, a failure reaches every dependent consumer, and a cyclic request is reported instead of hanging.',
   ['schedules'], 'all interleavings of worker threads and all request graphs', 'tests sample a few schedules of small graphs',
   [MT + 'async_map.hpp', MT + 'async_map_node.hpp', MT + 'async_map_consumer.hpp'], [('AsyncMapNode, AsyncMapConsumer, DetectCycle', MT + 'async_map_consumer.hpp')],
   'the guarantee is about interleavings of threads on atomics and mutexes; no deductive verifier for concurrent C++ is installed (Frama-C has no WP plugin, CBMC contracts cover sequential C), and sequential contracts cannot express it')
na('N02', 'The task system runs every queued task and terminates exactly when idle',
   'Every task queued, also by running tasks, is executed exactly once before Finish or destruction returns, unless the system was shut down, and no thread waits forever.',
   ['schedules'], 'all interleavings of producers, workers and shutdown', 'lost wake-ups need particular schedules',
   [MT + 'task_system.cpp', MT + 'notification_queue.hpp'], [('TaskSystem, NotificationQueue', MT + 'task_system.cpp')],
   'a liveness and interleaving property of threads with condition variables; out of reach for sequential contracts and no concurrent verifier is available offline')
na('N03', 'The content store stays consistent over crashes and concurrent use',
   'At every moment, also after a crash or with several processes storing the same content, each entry of the local store has exactly the content its identifier names, a tree entry only exists together with all entries it refers to, and a failing store leaves no partial entry visible.',
   ['crash_points', 'schedules'], 'all crash points and interleavings of processes', 'tests store sequentially and never crash',
   ['src/buildtool/storage/local_cas.tpp', 'src/buildtool/file_system/object_cas.hpp', 'src/buildtool/file_system/file_storage.hpp'], [('StoreBlob, AtomicSetFile', 'src/buildtool/file_system/file_storage.hpp')],
   'depends on the states of the file system between system calls and on other processes; the verifiers have no model of either, an assumed one would be a model of the kernel and not of this code')
na('N04', 'Garbage collection never removes what is still in use',
   'Collecting garbage and compacting keep every entry used since the last rotation, together with everything it refers to, whatever builds run at the same time or are interrupted.',
   ['schedules', 'crash_points', 'histories'], 'all interleavings of builds with rotations, and crashes during a rotation', 'tests rotate between finished builds',
   ['src/buildtool/storage/garbage_collector.cpp', 'src/buildtool/storage/uplinker.cpp', 'src/buildtool/storage/compactifier.cpp'], [('GarbageCollector, Uplinker, Compactifier', 'src/buildtool/storage/garbage_collector.cpp')],
   'rests on file locks between processes and directory renames; neither can be expressed in contracts over this code without assuming the very guarantee')
na('N05', 'Actions run isolated, and their outputs are exactly what is collected',
   'A local action is run in a fresh directory with exactly its inputs and environment, its declared outputs are collected completely, and nothing else of the file system influences what is stored under its identifier.',
   ['inputs', 'programs'], 'all actions and all behaviours of the processes run', 'tests run a few fixed commands',
   ['src/buildtool/execution_api/local/local_action.cpp'], [('LocalAction::Run', 'src/buildtool/execution_api/local/local_action.cpp')],
   'the sources need the generated protobuf headers, which are not available offline, so neither Clang nor the build reaches them; the behaviour also is that of external processes')
na('N06', 'Remote execution and local execution give the same result',
   'Building with a remote execution endpoint, a remote cache or the serve endpoint gives the same artifacts as building locally; uploads and downloads are complete and are checked against their identifiers.',
   ['configurations', 'fault_sequences'], 'all endpoints, faults and retries', 'needs faults at every point of the protocol',
   ['src/buildtool/execution_api/remote/bazel/bazel_network.cpp', 'src/buildtool/serve_api/remote/target_client.cpp'], [('BazelNetwork, TargetClient', 'src/buildtool/execution_api/remote/bazel/bazel_network.cpp')],
   'the code needs gRPC and protobuf (not installed; this build is the bootstrap subset), so it can be neither parsed nor compiled here')
na('N07', 'Roots are fetched with exactly the pinned content',
   'Setting up a repository yields a root with exactly the tree identifier pinned in the configuration, whichever mirror, archive or cache it comes from; anything else is an error.',
   ['fault_sequences', 'configurations'], 'all repository descriptions, mirrors and network failures', 'tests use local mirrors that answer correctly',
   ['src/other_tools/root_maps/commit_git_map.cpp', 'src/other_tools/ops_maps/content_cas_map.cpp'], [('CreateCommitGitMap, CreateContentCASMap', 'src/other_tools/root_maps/commit_git_map.cpp')],
   'continuation-passing code over asynchronous maps, libgit2 and curl that is not parsable here (needs protobuf); its content is what the external libraries do')
na('N08', 'The Python tools keep repository configurations equivalent',
   'just-import-git, just-deduplicate-repos and just-lock give configurations that denote the same repositories as their inputs describe.',
   ['inputs', 'configurations'], 'all repository configurations', 'tests run a few fixed configurations',
   ['bin/just-deduplicate-repos.py', 'bin/just-import-git.py', 'bin/just-lock.py'], [('main', 'bin/just-deduplicate-repos.py')],
   'dynamically typed Python; the only contract tool installed for Python (CrossHair) is bounded concolic execution and not deductive verification')
