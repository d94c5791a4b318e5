"""The properties: one entry each; tools/props.py turns this into properties.jsonl and MANIFEST.json."""
TECH = "path-sensitive abstract interpretation (provenance terms) of rustc MIR, obligations per path"
NA = {}
PROPS = []


def P(id, title, statement, over, q, why, files, mech, note="", tech=None):
    d = dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=note)
    if tech:
        d["tech"] = tech
    PROPS.append(d)


HTTP = "src/package_db/http/http.rs"
LAZY = "src/package_db/http/lazy_remote_file.rs"
UREQ = "src/package_db/http/ureq_glue.rs"
KVS = "src/kvstore.rs"

P("P06", "Artifacts enter the by-hash store only after their whole body was verified",
  "A downloaded artifact for which a hash is known is published in the local by-hash store only after every byte of the response body was fed to a digest of the named algorithm and the full digest equalled the full expected digest. A mismatch, an unknown algorithm or a failed transfer is an error and publishes nothing, and whatever is later served for a hash comes from the entry stored under that very hash.",
  ["inputs", "fault_sequences"], "every response body, every claimed hash, every transfer failure",
  "The tests download one fixture with its right hash; they cannot enumerate bodies, truncations and hash spellings.",
  [HTTP, "src/vocab/artifact_hash.rs"],
  [("HashChecker writes through and digests", "src/vocab/artifact_hash.rs"), ("get_hashed publishes from get_or_set's fill callback", HTTP)],
  "The digest implementation (ring) is trusted.")

P("P11", "Cache entries are published atomically and only when complete",
  "An entry of any on-disk store becomes visible under its final path in one rename of a fully written staging file or directory that was created inside the same store; nothing ever writes, copies or creates at the final path directly. If filling an entry fails at any point, nothing is published and no partial entry is visible to later readers, and a staging area is detached from its automatic cleanup only to become the published entry.",
  ["crash_points", "fault_sequences"], "every point at which filling an entry can fail or the process can die",
  "Tests never crash a fill half-way; the quantifier is over all interruption points of every store user.",
  [KVS, HTTP, "src/package_db/build_wheel.rs", "src/env.rs"],
  [("temp file + persist / temp dir + rename", KVS)],
  "Atomicity of rename(2) within one filesystem is assumed.")

P("P12", "Stores are consulted and changed only while holding the entry's exclusive lock",
  "Every look-up that may lead to filling, replacing or removing an entry of a locked store, and every such change, happens while a blocking exclusive lock on a lock file belonging to that entry alone is held by the same operation; failing to obtain the lock is an error. The lock outlives every use of the entry made under it.",
  ["schedules"], "every interleaving of processes and threads that use the same store",
  "No test runs two processes against one store; an interleaving bug needs a particular schedule.",
  [KVS], [("lock files next to the entries, fs2 exclusive locks", KVS)],
  "fs2's advisory locks are trusted to exclude each other.")

P("P13", "Requests and responses pass through the HTTP transport unaltered",
  "What is sent over the network for a request has exactly that request's method, its whole URL and every one of its headers with all their values. What the rest of the program sees as the answer has the server's own status code, all of its headers with all their values, and its body stream, with nothing dropped, replaced or invented.",
  ["inputs"], "every request and every server response",
  "Unit tests talk to one local server with a handful of headers.",
  [UREQ], [("do_request_ureq translates http::Request to ureq and back", UREQ), ("make_response hands the answer on", HTTP if "HTTP" in globals() else UREQ)],
  "ureq itself is trusted.")

P("P14", "Distinct cache keys never share an entry and never leave the store",
  "The on-disk location of an entry is an injective function of its complete key: no part of the key is truncated, case-folded or otherwise merged, for byte-string keys as well as for artifact-hash keys. The location always lies strictly inside the store's directory, whatever text the key came from.",
  ["inputs"], "every pair of keys",
  "Tests use a few keys; collisions and escapes need specific ones.",
  [KVS, "src/vocab/artifact_hash.rs"], [("keys are digested or spelled out in a path-safe alphabet", KVS)],
  "SHA-256 is assumed collision free.")

P("P15", "Different HTTP requests never share a cache entry",
  "The response cache looks an answer up under a key that contains the request's whole method and whole URL, framed so that no two different (method, URL) pairs produce the same key, and computed from the very request that is then sent.",
  ["inputs"], "every pair of requests",
  "Tests would have to hit on a colliding pair.",
  [HTTP], [("key_for_request", HTTP)])

P("P16", "Cache modes are obeyed: no-store stores nothing, only-if-cached never dials",
  "A request made in no-store mode neither reads nor writes stored responses, and one made in only-if-cached mode never uses the network: a missing or stale entry is reported as the dedicated not-cached error. The mode a caller chose is the mode used for every request made on its behalf, redirects included.",
  ["histories", "inputs"], "every cache state and every request",
  "Each mode has many cache states (fresh, stale, missing, corrupt) crossed with redirects; tests reach two or three.",
  [HTTP], [("mode checks in the single-request function", HTTP)])

P("P17", "Stored responses are reused only while their caching policy allows it",
  "A stored response is used without asking the server only if its own caching policy says it is fresh for this very request at the present time; a stale one is revalidated with the conditional request its policy prescribes and its body reused only if the policy says it is unmodified. A response whose policy forbids storing is not stored and displaces any older entry, and an entry read back yields exactly the policy and the whole body that were stored together.",
  ["histories", "inputs"], "every sequence of requests, responses and clock values",
  "Freshness depends on histories of responses and time that the tests do not vary.",
  [HTTP], [("http-cache-semantics policy stored before the body", HTTP)],
  "http_cache_semantics is trusted to implement RFC 7234.")

P("P18", "Redirects are followed exactly, boundedly, and only for GET",
  "GET responses with status 301, 302, 303, 307 or 308 and a Location header are followed, and no others; the next URL is Location resolved against the URL just requested. The number of requests made for one call is bounded by a constant and running out is an error, requests other than GET are never redirected, and the response handed to the caller is labelled with the URL it really came from.",
  ["inputs", "histories"], "every chain of responses a server can give",
  "Chains (relative after absolute, loops, exhausted budget) are unbounded; one test covers one short chain.",
  [HTTP, UREQ], [("redirect loop in request()", HTTP), ("transport redirects disabled", UREQ)])

P("P19", "Error responses are never mistaken for content",
  "Wherever the body of a response is used as an artifact, an artifact piece or an index page, the response's status was checked first and anything but success is an error or an explicit not-found result. Transport errors and a fixed set of transient server statuses are retried a bounded number of times, after which the last result is reported as it is; a body spooled to disk is complete and rewound before it is handed out.",
  ["inputs", "fault_sequences"], "every status code and failure sequence",
  "Tests serve 200s from a local server.",
  [HTTP, UREQ, "src/package_db/simple_api/fetch.rs", LAZY], [("request_ok / status checks", HTTP)])

P("P20", "A lazily fetched remote file reads like the file on the server",
  "Bytes obtained by range requests are filed under the offset and total length the server's 206 answer itself states, never under what was asked for; a server that ignores ranges makes the whole file be fetched with hash verification instead. Seeking and reading move the position like an ordinary file's: a read returns bytes filed at the current position and advances by the number returned, and end of file is reported only at or beyond the stated length.",
  ["inputs", "histories"], "every sequence of seeks and reads, every range answer",
  "Read/seek sequences are unbounded; tests use one zip.",
  [LAZY], [("fetch_range, load_range, Seek/Read impls", LAZY)],
  "Byte-for-byte equality with the server's file additionally needs the server to answer consistently, which no source analysis can show.")

P("P21", "A window onto part of a file never exposes or reaches bytes outside it",
  "A view of the byte range [start, end) of a larger file starts at its first byte, allows seeking to exactly the positions inside it (its end included) with offsets measured from its own start, and refuses all others. Reads return at most the bytes left before its end and advance the position by exactly what was read.",
  ["inputs", "histories"], "every window, every sequence of seeks and reads",
  "Off-by-one and overflow cases need particular offsets.",
  ["src/seek_slice.rs"], [("SeekSlice::new/seek/read", "src/seek_slice.rs")])

TREE = "src/tree.rs"
P("P01", "Unpacking an archive never touches anything outside its destination",
  "Whatever member names a zip or tar archive contains, unpacking it creates files, directories and links only at paths made of the destination directory followed by ordinary name components: an absolute member name, or one whose '..' components climb above the archive root, is an error, '.' is dropped and an inner '..' removes exactly the component before it. A relative path type with these guarantees is the only way to name a place to the unpacker, it can be built only from checked components or from other such paths, and no code unpacks archives by other means.",
  ["inputs"], "every sequence of bytes as a member name, in zip files, sdists, wheels and pybis",
  "A handful of bad names are tested; an escape needs one particular combination of components.",
  [TREE], [("NicePathBuf::try_from walks the components", TREE), ("WriteTreeFS joins root and NicePathBuf", TREE)],
  "typed_path's component splitting and the operating system's path resolution are trusted; the unpack destination is assumed not to be modified by others meanwhile.")
P("P02", "Only portable file names are ever created from archives",
  "Every component of an archive member name, and every component of a link target other than a leading '..', is accepted only if it is non-empty UTF-8, contains none of < > : \" / \\ | ? * and no ASCII control character, and does not end in '.' or ' '. Components made only of other ASCII characters are never refused.",
  ["inputs"], "every byte string as a path component",
  "The tests try three bad names; the statement is about every character in every position.",
  [TREE], [("check_path_piece", TREE)], "", "character-class abstract domain over the accepting paths of rustc MIR")
P("P03", "Links made from an archive cannot point out of the unpacked tree",
  "A symlink member is accepted only if its target is relative and, resolved from the directory the link is in, climbs no further than the root of the tree; the number of leading '..' is counted exactly after normalisation, ordinary components cancel against a following '..', and the link written to disk uses that normalised target and the checked source path. A link that replaces the root itself is refused; a link that stays inside is not.",
  ["inputs"], "every link name and every link target",
  "Four bad and three good links are tested; the counter argument is inductive over the components.",
  [TREE], [("NiceSymlinkPaths::new counts '..'", TREE), ("WriteTreeFS::write_symlink", TREE)],
  "", "loop-invariant checking on MIR: per-iteration transfer of the counter, linear entailment of the gate")
P("P04", "Links are made last, deepest first, and nothing existing is written through",
  "Unpacking a zip writes all files and directories first and makes links only afterwards, in order of decreasing depth of their location, every collected link exactly once; each member is written exactly once with its own data, a directory as a directory, and any failure to write is reported. A file is always created anew: if anything exists under its path already, unpacking fails instead of overwriting or following it. A file is executable exactly if the archive records an execute bit for it.",
  ["inputs", "histories"], "every order and combination of members in an archive",
  "No test unpacks an archive with links; the dangerous cases need particular combinations of members.",
  [TREE], [("two-phase unpack_zip_carefully", TREE), ("create_new in WriteTreeFS::write_file", TREE)])
P("P05", "Sdist entries of every kind are either unpacked, refused or pure metadata",
  "When an sdist is unpacked, hard links, symbolic links, device nodes and fifos are an error, directories are created, only the records that merely carry metadata for other entries (long names, pax headers) are passed over, and every other entry, sparse files included, is written as a file with that entry's own data and executable bit. A failure to write an entry is an error.",
  ["inputs"], "every entry type and every order of entries in a tar archive",
  "The fixtures contain regular files only.",
  [TREE], [("unpack_tar_gz_carefully's match on the entry type", TREE)])
FMT = "src/vocab/artifact_formats.rs"
P("P10", "An artifact is believed only if its contents agree with its file name",
  "Metadata of a wheel or pybi is handed out, and a wheel is unpacked, only if the WHEEL or PYBI file states format version 1.x, the core metadata's name and version equal those of the file name, and, for wheels, exactly one .dist-info directory exists, at most one .data directory, and both are named after that same name and version. The files read are those inside that directory, and Root-Is-Purelib must be exactly true or false and is used as it says.",
  ["inputs"], "every archive under every file name",
  "The tests cover a few wrong names; each disagreement must be caught in combination with any other content.",
  [FMT], [("Wheel::get_vitals, Pybi::metadata, find_special_wheel_dir", FMT)],
  "The regex engine, the zip crate and the RFC822 grammar are trusted.")
P("P51", "Every member of a wheel is installed at the place its category prescribes",
  "A member below the wheel's own .data directory goes to the scheme directory named by its second path component, under the rest of its path; every other member goes under purelib or platlib as Root-Is-Purelib says; an unknown category is an error and nothing but the .data directory itself is left out. Script members become executable, those starting with #!python as a launcher of the matching kind around everything after their first line; other members are not executable, and links are refused. Every console and gui entry point becomes a script of its own name and kind, and INSTALLER names posy. Sdists and pybis are unpacked by the routine for their format.",
  ["inputs"], "every layout of every wheel",
  "Layouts and entry point sets are unbounded; the tests unpack two small wheels.",
  [FMT], [("WheelTreeTransformer", FMT), ("Wheel::unpack", FMT)])
ENV = "src/env.rs"
P("P07", "Everything installed for a pin is authorised by a hash recorded in the pin",
  "A binary artifact is installed for a pin only if it belongs to the pinned name and version, is compatible with a requested platform, and its hash is among the hashes recorded in the pin; a wheel built locally only if the sdist it was built from is one of that version and has a recorded hash, and only after the search found no compatible pinned wheel. What ends up in the environment is exactly that artifact, kept under its own hash; every pinned wheel is installed once, in order, with scripts in bin, libraries in lib and data in the root, and a pybi is prepared for posy's use before it is used.",
  ["inputs", "histories"], "every blueprint, every index content, every state of the environment store",
  "No test installs an environment; the guarantee concerns every combination of index contents, pins and store states.",
  [ENV], [("pick_pinned_binary", ENV), ("EnvForest::get_env", ENV)])
P("P08", "The most compatible acceptable artifact is the one that is used",
  "Platforms are tried in the order given; on each, exactly the pinned version's artifacts of the wanted kind that are compatible with it are considered, from the most to the least compatible, and one is passed over only because its hash is missing or not pinned. A tag earlier in a platform's list is more compatible than a later one, an unlisted tag is incompatible, and a file name is as compatible as its best tag. Among the wheels already built from an sdist the most compatible is used, and a new one is built only when none is compatible.",
  ["inputs", "configurations"], "every set of artifacts and every platform",
  "Preference orders need several competing artifacts; no test has them.",
  [ENV, "src/platform_tags/platform.rs"], [("pick_pinned_binary", ENV), ("Platform::compatibility, max_compatibility", "src/platform_tags/platform.rs"), ("choice among built wheels in EnvForest::get_env", ENV)])
P("P09", "A wheel is installed only if its metadata is what the lock file assumed",
  "An environment is handed out only if, for every pinned wheel, the metadata found inside the installed wheel equals in dependencies, Python requirement and extras the metadata its blueprint was resolved with; any difference is an error. The metadata compared is that of the wheel actually installed, wherever it came from: a downloaded wheel, one found already built, or one built just now.",
  ["inputs", "histories"], "every blueprint and every wheel that can be chosen for it",
  "A mismatch needs an index whose artifacts disagree with each other; no test builds one.",
  [ENV, "src/resolve.rs"], [("metadata comparison in EnvForest::get_env", ENV), ("WheelResolveMetadata::from", "src/resolve.rs")])
P("P45", "An interpreter is prepared for posy's exclusive use before it is ever used",
  "Whenever a pybi is unpacked into the environment store it is, as part of the same all-or-nothing step, marked as externally managed, given posy's sitecustomize in its pure library directory, and has user site-packages switched off in site.py. If any of these cannot be done, the pybi is not stored and no environment uses it.",
  ["inputs", "crash_points", "fault_sequences"], "every pybi, and a failure at any step",
  "No test unpacks a pybi into an environment.",
  [ENV, "src/data-files/EXTERNALLY-MANAGED"], [("EnvForest::munge_unpacked_pybi", ENV), ("get_or_set closure in EnvForest::get_env", ENV)])
P("P46", "A process in an environment finds exactly its programs and packages",
  "An environment's variables put the interpreter's own scripts directory and every installed wheel's bin directory, in that order, before the inherited PATH and keep all of the latter, name the interpreter's console and windowed executables, and list exactly the lib directories of the installed wheels. Inside, every directory in that list, and nothing else, becomes a site directory; an environment without packages adds none.",
  ["inputs", "configurations"], "every environment and every inherited PATH",
  "The tests never start a process in an environment.",
  [ENV, "src/data-files/sitecustomize.py"], [("Env built at the end of EnvForest::get_env", ENV), ("Env::env_vars", ENV), ("sitecustomize.py", "src/data-files/sitecustomize.py")],
  "Python's own site module is trusted.")
TR = "src/trampolines/mod.rs"
P("P47", "A launcher runs its script with the environment's Python and nothing else",
  "A Unix launcher replaces itself with the interpreter the environment names for its kind (console or windowed), running the launcher file itself with the arguments it was given, fails when no interpreter is named, and is a valid Python file that executes the whole script whatever its first line is. A Windows launcher is the executable of its kind followed by an archive whose __main__.py is the script. For each requested platform, and only those, an executable launcher is written under its own name, on Windows with .exe appended.",
  ["inputs", "programs"], "every script, both kinds, every platform selection",
  "The tests check one snapshot of a launcher and never run one against every kind of script.",
  [TR], [("UNIX_TEMPLATE", TR), ("TrampolineMaker", TR)],
  "What the committed Windows executables do is not analysed beyond their subsystem and the variable they name.", "path-sensitive analysis of rustc MIR; constant launcher text parsed with Python's own grammar and an sh line grammar; PE header inspection")
P("P48", "Python is only ever started inside the environment resolved for it",
  "Every Python process posy starts, the user's and those that build wheels, is looked up as python on, and gets all variables of, the environment made from the blueprint resolved for it, on the same index, platforms and build stack as that resolution, with none of these variables removed, replaced or filtered. A build environment is resolved for exactly the build requirements asked for.",
  ["inputs", "configurations"], "every build and every run",
  "No test builds or runs anything.",
  ["src/package_db/build_wheel.rs", "src/main.rs"], [("WheelBuilder::pep517_step, get_env_for_build", "src/package_db/build_wheel.rs"), ("main", "src/main.rs")])
SIMPLE = "src/package_db/simple_api/"
P("P22", "Only index pages posy understands are used, and absence is no error",
  "A project page is used only if it is HTML and its API version (1.0 when the page states none) has major version 1; any other type or version is an error, never an empty page. A project the index does not have is reported as absent and any other HTTP error status is an error. Links are resolved against the URL the page was finally served from.",
  ["inputs"], "every answer of every index",
  "Tests parse a few well-formed pages; wrong types, versions and redirects need a server.",
  [SIMPLE + "fetch.rs", SIMPLE + "html.rs"], [("fetch_simple_api, check_version", SIMPLE + "fetch.rs"), ("Sink", SIMPLE + "html.rs")])
P("P52", "All indexes' files of a package are considered, newest version first",
  "The files known for a package are those of every configured index's page for its normalized name, each filed under the version in its own name and none left out; an error of any index is an error. Versions are listed from newest to oldest and the files of one version by name, the answer is computed once per run, and the files of one version are exactly those listed under it.",
  ["inputs", "configurations"], "every set of indexes and pages",
  "Tests use one canned index with few files.",
  ["src/package_db/package_db.rs", SIMPLE + "project_info.rs"], [("PackageDB::available_artifacts, artifacts_for_version", "src/package_db/package_db.rs"), ("pack_by_version", SIMPLE + "project_info.rs")])
P("P53", "The metadata posy resolves with is that of the artifact it names",
  "The metadata returned for a version comes with the artifact it was read from: cached metadata is read from and written to the store only under that artifact's own hash, and is what was parsed out of it. Already cached artifacts are consulted before anything is fetched, a wheel's metadata is fetched before an sdist is built, and only the absence of a cached copy makes the search move on; any other failure is reported.",
  ["inputs", "histories"], "every set of artifacts of a version and every cache state",
  "Which source answers depends on the cache state of earlier runs.",
  ["src/package_db/package_db.rs"], [("PackageDB::get_metadata and its helpers", "src/package_db/package_db.rs")])
P("P54", "Index links are read without loss or confusion",
  "Every <a href> of a page whose last path segment is an artifact's name is listed under exactly that name, and nothing else is: its URL is the link resolved against the first <base> or else the page, its hash the one in the fragment, its Python requirement the data-requires-python attribute, and it is yanked exactly if data-yanked is present, even empty. A pybi for several platforms is listed once per platform, universal2 standing for both Mac architectures, with everything else the same.",
  ["inputs"], "every index page",
  "Tests parse one snapshot of a page.",
  [SIMPLE + "html.rs"], [("Sink::create_element, try_parse_link", SIMPLE + "html.rs")],
  "Percent-encoded file names are taken as they stand in the link.")
BW = "src/package_db/build_wheel.py".replace(".py", ".rs")
FE = "src/package_db/data-files/build-frontend.py"
PT = "src/platform_tags/"
P("P38", "A platform's tags are exactly those it can run, best first",
  "A manylinux or musllinux tag stands for every minor version of its libc up to its own, newest first, with the legacy manylinux names beside the versions they mean; a macOS tag for every release from 10.0 up to its own in each binary format its architecture runs; any other tag for itself, unchanged. A pybi's wheel tags are its templates in order, each -PLATFORM replaced by all the platform's tags. On Linux this machine's platforms are those of the C libraries found to run, with the versions they report, glibc first, 64-bit first, and a platform is native exactly if one of them has its core tag.",
  ["inputs", "configurations"], "every platform tag, pybi and machine",
  "Tests expand a handful of tags; every version, architecture and pair of C libraries must be right.",
  [PT + "expand.rs", PT + "platform.rs", PT + "linux.rs"], [("expand_platform_tag and its patterns", PT + "expand.rs"), ("PybiPlatform::new, native_platforms, is_native, wheel_platform", PT + "platform.rs"), ("core_platform_tags, glibc_version, musl_version, GLIBC_DETECTORS", PT + "linux.rs")],
  "That the detector programs print the version they run with is trusted (their machine type is read from their bytes); the macOS and Windows machine probes are not analysed.",
  "path-sensitive analysis of rustc MIR; automata equivalence of the tag patterns")
P("P40", "Building from source never waits for itself",
  "A build of a package, for its wheel or its metadata, is refused before any lock is taken or file looked at when the same package is already being built further up, and otherwise adds exactly that package to the stack of packages being built. Every resolution, environment and nested build that a build needs is given the extended stack, unchanged.",
  ["inputs", "histories"], "every graph of build requirements",
  "No test builds anything; loops need several cooperating sdists.",
  [BW, "src/env.rs", "src/resolve.rs"], [("WheelBuilder::new_build_stack", BW), ("locally_built_wheel, locally_built_metadata", BW), ("WheelBuilder::new callers", "src/resolve.rs")])
P("P41", "A source build can be interrupted anywhere and be taken up again",
  "posy and its build frontend agree on the arguments and files they exchange. What says that a hook is done appears in one step after all that the hook produced, a hook is always given an empty directory, every step that succeeds finishes a hook that was not finished, and a build whose wheel was taken away no longer counts as done. The hooks are called in PEP 517's order and with its arguments, after their requirements are installed, and an error in one fails the build.",
  ["histories", "inputs"], "every backend, goal, interruption point and earlier attempt",
  "No test builds anything, and a crash has to hit between two particular writes.",
  [BW, FE], [("WheelBuilder::pep517, pep517_step", BW), ("build-frontend.py", FE)],
  "File system operations are taken to be durable in order.", "path-sensitive analysis of rustc MIR; path enumeration over the Python frontend's syntax tree; agreement of the two")
P("P42", "A wheel built from source is the backend's, cached and used only where it works",
  "The wheel a build gives is the file whose name the backend returned, moved whole into the wheel cache under its sdist's hash, its platform replaced by the one it was built on unless it is for any. A locally built wheel is used only if it is compatible with the wanted platform; the cached one that fits best comes before building. Metadata is read from the METADATA the backend prepared, or else from the built wheel.",
  ["inputs", "histories"], "every backend answer and cache content",
  "No test builds anything.",
  [BW], [("WheelBuilder::locally_built_wheel, locally_built_metadata, pep517", BW)],
  "A wheel's own name and contents are not compared with its sdist's.")
P("P43", "A source build runs with what its pyproject.toml and the target ask for",
  "A step runs in the sdist's single top-level directory, with the backend and path of its build-system table or setuptools' legacy backend, in an environment holding exactly the declared requirements and those the backend asked for, and succeeds only if the frontend does. No directory outside the source tree gets on the backend's path, and declared ones come first. The build Python is the target's version, else its minor version, else any, on platforms this machine runs; prereleases only for a prerelease target.",
  ["inputs", "configurations"], "every sdist, target Python and index",
  "No test builds anything.",
  [BW, FE], [("WheelBuilder::pep517_step, get_env_for_build, new", BW), ("PyprojectBuildSystemStanza", BW), ("build-frontend.py", FE)],
  "toml_edit is trusted to find the names given.", "path-sensitive analysis of rustc MIR; path enumeration over the Python frontend's syntax tree")
SPEC, VER = "src/vocab/specifier.rs", "src/vocab/version.rs"
P("P31", "A version specifier admits exactly the versions PEP 440 says it does",
  "Whatever a specifier compares with, prerelease, post-release, dev release, local version or wildcard, the versions it admits are those PEP 440 gives it: for each of the operators, and a comma-separated list admits what all of its members admit. A comparison PEP 440 does not define is refused, never given some meaning, and an operator is read back as it is written out.",
  ["inputs"], "every operator, every shape of version and wildcard, every candidate",
  "Tests check a table of some dozens of comparisons; which shapes of version exist is combinatorial.",
  [SPEC, VER], [("Specifier::to_ranges, Specifiers::satisfied_by", SPEC), ("Version::next, CompareOp, parse_version_wildcard", SPEC)],
  "The order of two concrete versions and their grammar are the pep440 crate's.",
  "abstract interpretation of rustc MIR over a field-wise domain of version bounds")
RES = "src/resolve.rs"
P("P23", "A yanked file is used only where it was pinned before",
  "A version all of whose files are yanked is a candidate in a resolution only if a previous resolution's blueprint is given that pins the package to a hash of one of them. What counts as pinned is every wheel and the pybi of that blueprint, with all their hashes, and without a blueprint nothing. A version is never passed over because of one yanked file when it has another that is usable.",
  ["inputs", "histories"], "every index content and previous blueprint",
  "Whether and which files are yanked, hashed and pinned combine; tests use one index without yanked files.",
  [RES], [("fetch_and_sort_versions, VersionHints", RES)],
  "File-level yanking decides only about versions: which of a version's files is then used is P11's and P20's subject.",
  "path-sensitive analysis of rustc MIR")
P("P24", "A prerelease is chosen only if allowed or if there is nothing else",
  "A prerelease or development version is a candidate only if the brief allows prereleases of that package, by its name or for all, or if every version the package has is one; then it is never passed over for that. Which versions are prereleases and which packages are allowed them is read from the version and the brief as written.",
  ["inputs", "configurations"], "every set of versions and every allow-list",
  "What else the package has decides; tests use one index.",
  [RES, "src/vocab/version.rs"], [("fetch_and_sort_versions, AllowPre", RES), ("Version::is_prerelease", "src/vocab/version.rs")],
  "The prerelease and dev segments of a version are the pep440 crate's.",
  "path-sensitive analysis of rustc MIR")
P("P25", "A version is used only with a Python it says it supports",
  "A version becomes a candidate only through a file whose requires-python, if it has one, the Python resolved for satisfies in full version, and it is chosen only if its metadata's requires-python is satisfied too. The Python resolved for is the one the environment's markers give, and a version with one suitable file is not passed over. A requires-python that cannot be read is an error.",
  ["inputs"], "every index content, metadata and Python",
  "Tests use one index and one Python.",
  [RES], [("fetch_and_sort_versions, PubgrubState::versions, choose_package_version, resolve_wheels", RES)],
  "", "path-sensitive analysis of rustc MIR")
P("P26", "Every requirement that applies constrains its package",
  "Each requirement of the brief, and each of a chosen version's own metadata, whose marker does not rule it out constrains its package to exactly the versions that all of its specifiers admit, together with all the requirements on it before: none is left out, replaced or widened. The Python that is resolved for satisfies the brief's specifiers for it.",
  ["inputs"], "every brief, metadata and set of requirements",
  "Tests resolve a handful of briefs; a lost or widened constraint shows only for particular combinations of requirements.",
  [RES], [("PubgrubState::requirements_to_pubgrub, get_dependencies, specifiers_to_pubgrub, metadata, resolve_pybi", RES)],
  "The pubgrub crate is trusted to satisfy the constraints it is given. A package's exact constraint on itself, wanted by an extra, stands over a requirement of that package on itself.",
  "path-sensitive analysis of rustc MIR")
P("P27", "A requirement's extras all take effect",
  "A requirement wants its package with each of the extras it names, or the package itself if it names none. A package with an extra brings all the requirements that apply with that extra, wants the package itself at the very same version, and is an error if the version has no such extra.",
  ["inputs"], "every requirement, extra and metadata",
  "Tests use a handful of extras.",
  [RES], [("PubgrubState::requirements_to_pubgrub, get_dependencies", RES)],
  "", "path-sensitive analysis of rustc MIR")
P("P28", "A marker decides for the target Python and the extra at hand",
  "A requirement with a marker applies if and only if the marker holds where `extra` is the extra the requirements are read for, or empty, and every other variable is what the Python resolved for reports, with the machine added for a universal Python by the platform it is resolved for. Taking what is known of the extra out of a marker never changes its meaning, and a marker that is left is recorded in the blueprint with the value it had.",
  ["inputs"], "every marker, extra and environment",
  "Tests evaluate a dozen markers and none with an extra in a resolution.",
  [RES, "src/vocab/requirement.rs"], [("simplify_out_extra, ExtraEnv, Simplified, requirements_to_pubgrub, Brief::resolve", RES)],
  "Single comparisons in a marker are P35's subject.", "path-sensitive analysis of rustc MIR; truth tables over its paths")
P("P29", "A blueprint pins exactly what was resolved",
  "The blueprint's wheels are the packages of the solution, every one once at the version chosen, without the artificial ones for extras, each with the hashes of exactly that version's files and the metadata that was resolved with. Its pybi is the Python that was resolved for.",
  ["inputs"], "every solution and index",
  "Tests compare one or two blueprints by eye.",
  [RES], [("resolve_wheels, pinned, Brief::resolve, PubgrubState::metadata", RES)],
  "The pubgrub crate is trusted to give a solution.", "path-sensitive analysis of rustc MIR")
P("P30", "The preferred version is taken: the one pinned before, or else the newest",
  "A package's candidates are tried in this order: with a version from the previous blueprint that one first, then higher versions ascending, then lower ones descending; without one newest first. The first in range is chosen, and none only if none is in range. The Python is the first version in that order that satisfies the brief and has a pybi for a supported platform: the most compatible pybi for the first platform, in the order given, that any of them supports.",
  ["inputs"], "every index, previous blueprint, range and list of platforms",
  "Which version is preferred shows only with many candidates on both sides of the hint.",
  [RES], [("fetch_and_sort_versions, choose_package_version, resolve_pybi, pick_best_pybi, VersionHints", RES)],
  "Sort keys and comparators are evaluated on versions below, at and above the hint; that the index lists newest first is P52's business.", "path-sensitive analysis of rustc MIR, sort keys decided by cases")
NAM, EXT = "src/vocab/package_name.rs", "src/vocab/extra.rs"
P("P32", "Two spellings of a name are one name exactly when the specification says so",
  "A package name or extra is accepted exactly when it is ASCII letters and digits with dots, dashes and underscores inside. Two are equal, ordered and hashed by their normal form alone, in which every run of separators is one dash and letters are lower case. A name is always written out as it was given, and however it is read, from text or from a serialized file, it goes through the same checks.",
  ["inputs"], "every text, every pair of names",
  "Names are arbitrary text; tests try about ten of them.",
  [NAM, EXT], [("PackageName", NAM), ("Extra", EXT)],
  "Patterns are compared as languages, so how they are spelled does not matter.",
  "path-sensitive analysis of rustc MIR; regular expressions compared as automata")
P("P33", "A version is one PEP 440 allows, compared and written as PEP 440 says",
  "A version is made from its whole text by the PEP 440 parser or refused, however it is read. Versions are equal, ordered and hashed as that library has it, consistently, and written in full in its normal form.",
  ["inputs"], "every text, every pair of versions",
  "Versions are arbitrary text; tests try a handful.",
  [VER], [("Version", VER)],
  "The grammar, the order and the normal form are the pep440 crate's.",
  "path-sensitive analysis of rustc MIR; the orders of an abstract pair evaluated")
REQ = "src/vocab/requirement.rs"
GRAM, RFC, META = "src/vocab/reqparse.rs", "src/vocab/rfc822ish.rs", "src/vocab/core_metadata.rs"
P("P34", "Requirements, specifiers and markers are read exactly by PEP 508's grammar",
  "A requirement, version specifier or marker is read by PEP 508's grammar and the older variable names, except that `===` and direct references are refused; each operator, variable, literal, name, extra and marker becomes what it stands for, and `and` binds tighter than `or`. The variable `extra` is accepted only in a package's own requirements, never in a user's, the Python requirement or a marker on its own. What is written of one reads back as the same.",
  ["inputs"], "every text and every requirement",
  "The text comes from packages' authors and users; tests read about thirty requirements.",
  [GRAM, REQ, SPEC], [("grammar parser", GRAM), ("Requirement::parse, TryFrom and Display impls", REQ), ("Specifier, Specifiers, CompareOp", SPEC)],
  "The peg grammar is read from the source, normalised and compared rule by rule, actions included, with a reference grammar; the peg crate is trusted to run it.",
  "grammars normalised and compared; path-sensitive analysis of rustc MIR")
P("P37", "A metadata file's fields are read as they are, none dropped or mixed up",
  "In METADATA and similar files every header line is a field, its name in any case and its value with its continuation lines, every occurrence in order; what follows an empty line is the body. A field that may stand only once is refused if it stands twice, and if it is required and missing, and so is a Metadata-Version of 3 or later. Each property of a wheel's or pybi's metadata is read from its own field by its own reader, every occurrence of it, and the file is refused if any cannot be read.",
  ["inputs"], "every metadata file",
  "The files come from packages' authors; tests read a handful.",
  [RFC, META], [("grammar rfc822ish_parser, RFC822ish::take_all, maybe_take_the, take_the", RFC), ("parse_common, WheelCoreMetadata, PybiCoreMetadata", META)],
  "Later versions are so by PEP 440's order.",
  "grammars normalised and compared; path-sensitive analysis of rustc MIR")
P("P35", "Comparisons in markers mean what PEP 508 says they mean",
  "And and or are conjunction and disjunction; in and not in look for the left text inside the right one. Any other comparison compares versions, exactly as a specifier would, if the left side is a version and the right side valid for the operator, and otherwise texts by their code points, where ~= is an error. A variable stands for the value the environment gives it and for an unknown one evaluation fails; names of extras are compared in normal form.",
  ["inputs"], "every marker, environment and extra",
  "Tests evaluate a dozen markers.",
  [REQ], [("EnvMarkerExpr, Value, MarkerOp", REQ)],
  "Which versions a specifier admits is P31's, what is in the environment P28's subject.",
  "path-sensitive analysis of rustc MIR; truth tables over its paths")
FNAME, FHASH = "src/vocab/artifact_name.rs", "src/vocab/artifact_hash.rs"
P("P44", "File names of artifacts, and hashes, are read exactly and written back the same",
  "The file name of a wheel, pybi or sdist is taken apart as its format prescribes - name, version, build number and name if there is a build tag, dot-separated sets of tags, an sdist at its last dash - its ending alone deciding the kind, and any other text is refused with an error. A hash is an algorithm's name, an equals sign and at least 128 bits in hexadecimal, all of which is kept. What is written of a file name or hash reads back as the same one.",
  ["inputs"], "every file name and every hash text",
  "The names come from package indexes; tests read five.",
  [FNAME, FHASH], [("WheelName, PybiName, SdistName, ArtifactName: TryFrom<&str> and Display", FNAME), ("ArtifactHash: from_hex, TryFrom<&str>, Display", FHASH)],
  "Names of one to nine parts are taken through the code with the parts as unknowns (counts above the six a name can have are all treated alike); the name and version are read by P32's and the pep440 crate's parsers.",
  "path-sensitive analysis of rustc MIR over a domain of texts of known numbers of parts; regular expressions compared as Pike machines")
P("P39", "A saved blueprint or brief reads back as the one that was saved",
  "Every field of a blueprint and of a brief, and of all that they hold, is written whole under a key (or in a place) of its own and read from there into the same field, whatever the reader; what is left out of the text is left out only when its absence reads back as the very value it had. Names, versions, specifiers, hashes, requirements and marker expressions in one are written as texts that their own parsers read back as equal, and marker expressions keep their values, true and false.",
  ["inputs"], "every blueprint and brief",
  "No test saves one; the value that gets lost is a particular one.",
  [RES, NAM, EXT, REQ, SPEC, VER, FHASH], [("Serialize and Deserialize impls of Blueprint, Brief and what they hold; AllowPreSerdeHelper; serialize_marker_exprs", RES), ("Display and FromStr of the texts", REQ)],
  "serde's own containers, serde_with's derives and the data format are trusted; the code serde's derives expand to is what is analysed.",
  "path-sensitive analysis of rustc MIR, derived serde code included; writer and reader compared key by key")
EP = "src/vocab/entry_points.rs"
P("P36", "Entry points are read exactly, and their scripts run nothing else",
  "Every line of entry_points.txt is an entry, a section header, a comment or empty, or the file is refused. Every entry counts for the section whose header came last before it, with the name, module and object its line gives, where module and object can be nothing but dotted identifiers. The script made for an entry imports its module, exits with what calling the object gives, and does nothing else.",
  ["inputs"], "every entry_points.txt",
  "The text comes from the packages' authors; tests read three small files.",
  [EP, "src/vocab/artifact_formats.rs"], [("parse_entry_points", EP), ("script_for_entrypoint", "src/vocab/artifact_formats.rs")],
  "Patterns are compared with what they capture, the scripts as Python programs; where the scripts go is P51's subject. Comments may follow on a line, as in the tests.",
  "path-sensitive analysis of rustc MIR; regular expressions compared as Pike machines; Python syntax trees compared")
