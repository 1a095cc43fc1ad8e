#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
NM, NS, OC = "crates/node-maintainer/src/", "crates/nassun/src/", "crates/oro-client/src/"

p("R01", "A resolved tree satisfies every dependency by Node's lookup rule",
  "For any project and registry whose requests can all be met by a finite tree, the tree produced by resolution contains, for every declared dependency of every package in it (production and optional dependencies, plus the project's own development dependencies), an entry that Node's upward node_modules lookup finds from that package's location, under the requested name, from the requested package and at a version the request allows. Every entry in the tree is reachable from the project through such lookups, no two entries share a path, and no entry repeats a version that a lookup from its parent's location would already have found. A request that no published version meets makes resolution fail instead of producing a tree.",
  ["inputs", "configurations"], "every registry and manifest over a small alphabet of packages, versions, ranges, tags, aliases, scopes and dependency kinds",
  "The suite resolves two hand-written graphs; conflicts, cycles, aliases and nesting combine in ways no handful of graphs covers.",
  [NM+"resolver.rs", NM+"graph.rs"], [("hoisting with conflict checks", NM+"resolver.rs place_child"), ("reuse of an already placed package", NM+"resolver.rs satisfy_dependency")],
  ["lockfile produced by resolution"])
p("R02", "The resolved tree does not depend on the timing of registry answers",
  "For a fixed project, registry content and configuration, resolution yields the same dependency tree whatever the order in which registry answers arrive. Every such run terminates, with a tree in which every dependency is satisfied.",
  ["schedules"], "every order in which the outstanding registry answers can be delivered, for conflict-rich graphs and several concurrency limits",
  "Tests use one mock server that answers immediately, so they see one arrival order.",
  [NM+"resolver.rs"], [("queue ordering and placement", NM+"resolver.rs run_resolver"), ("deduplicated in-flight fetches", NM+"resolver.rs run_resolver")],
  ["lockfile produced by resolution"])
p("R03", "Version selection follows exact versions, dist-tags and semver ranges",
  "For any published version set and dist-tags: an exact version request selects exactly that version; a tag request selects the tagged version; a range request selects the default tag's version when that satisfies the range (the unrestricted range `*` always accepts it) and otherwise the highest version that satisfies it; a request without a range selects the default tag's version. Prereleases are selected by a range only when the range itself names a prerelease of the same release, and a request nothing satisfies fails. The selected version's own tarball location and integrity are what gets used.",
  ["inputs"], "every subset of a version alphabet, dist-tag assignment, default tag and request shape (exact, caret, tilde, comparators, unions, x-ranges, hyphen, tags, empty)",
  "Unit tests check range matching on single versions, never a choice among a set of versions and tags.",
  [NS+"resolver.rs", "crates/oro-package-spec/src/lib.rs"], [("version picking", NS+"resolver.rs get_resolution")], ["resolved package version, tarball URL and integrity"])
p("R04", "A lockfile pins what it covers, and only that",
  "Resolving with the lockfile of an earlier resolution of the same manifest reproduces that tree exactly, even after the registry has published newer matching versions. After the manifest changed, entries that still satisfy the requests that led to them keep their locked version, and every other request is resolved afresh so that the resulting tree is complete and satisfies every request of the changed manifest, with nothing left over from the old lockfile. In locked mode the run succeeds when the existing lockfile already describes that result and fails when the result would change it.",
  ["histories"], "every sequence resolve, edit the manifest, publish versions, resolve again (locked or not) over a small alphabet of manifests and registries",
  "No test feeds a lockfile back into resolution or uses locked mode.",
  [NM+"resolver.rs", NM+"lockfile.rs", NM+"maintainer.rs"], [("lockfile lookup", NM+"resolver.rs satisfy_from_lockfile"), ("locked comparison", NM+"resolver.rs run_resolver")], ["lockfile produced by resolution", "error in locked mode"])
p("R05", "Lockfiles survive writing and reading, and npm lockfiles are understood",
  "Writing a lockfile and reading it back yields the same packages, with the same paths, versions, resolved locations, integrity values and dependency requests. Reading an npm lockfile yields the packages it lists. Malformed lockfile text is rejected with an error (explicitly supplied) or ignored, as if it were not there (found in the project), and no lockfile text crashes the tool.",
  ["inputs"], "every lockfile over an alphabet of names, nesting, kinds and request texts, and every single-token corruption of a sample",
  "The suite compares the text of two small lockfiles and never reads one back.",
  [NM+"lockfile.rs", NM+"into_kdl.rs"], [("KDL writer and reader", NM+"lockfile.rs"), ("npm reader", NM+"lockfile.rs from_npm")], ["Lockfile value", "lockfile text"])
p("R06", "Packages from git repositories and directories are the ones that were asked for",
  "A git request resolves to the package at the commit it names: the default branch without a fragment; the branch, tag or commit of that name otherwise; and for a semver range, the tag of the highest version that satisfies it, whatever comes before the version in the tag's name. What doesn't exist is refused, and a fragment is never taken for an option or a file by git. A directory request, however its path is spelled, is the package in it, relative to the project, with the directory's name and version 0.0.0 where its package.json has none. A project's lockfile with such dependencies stays as it is when nothing has changed. Where such packages can't be installed, this is reported as an error. Nothing temporary is left behind by a success.",
  ["inputs", "configurations", "histories"], "every set of tags of the alphabet with every request of the alphabet; every directory with every spelling of its path; every manifest of up to two such dependencies, from every working directory, with and without a lockfile of npm",
  "Tests resolve one repository with plain version tags through three requests, and one directory by its absolute path.",
  [NS+"fetch/git.rs", NS+"fetch/dir.rs", NS+"resolver.rs"], [("clone and checkout", NS+"fetch/git.rs fetch_clone"), ("directory metadata", NS+"fetch/dir.rs"), ("satisfaction", NS+"resolver.rs satisfies")], ["resolved package and metadata", "lockfile", "exit status"])
p("T01", "Package data that does not match its integrity is never installed",
  "When a package's metadata or lockfile entry carries an integrity value (or a legacy sha1 checksum), data that differs from what it describes in any byte, or is truncated or extended, is never extracted and never reported as successfully read, whatever the chunking of the transfer and whether or not a cache is used. Data that does match is accepted.",
  ["inputs", "fault_sequences"], "every corruption position and kind, every truncation length, every transfer chunking in bound, for each integrity algorithm, extraction mode and cache state",
  "No test covers tarball checking.",
  [NS+"tarball.rs", NS+"package.rs"], [("integrity checker on the stream", NS+"tarball.rs Tarball poll_read"), ("checked download to a temporary", NS+"tarball.rs into_temp")], ["result of reading or extracting", "target directory"])
p("T02", "Installed files are exactly the files of the package archive",
  "Extracting a package writes every regular file of its archive, with the archive's content, at its path without the leading directory, and nothing else; files that are executables of the package become executable. The result is the same with or without a cache, on the first and on later extractions, and for each way of materialising files from the cache.",
  ["inputs", "configurations"], "every archive over an alphabet of entry kinds, names, depths, modes, sizes and orders, in every extraction mode and cache state",
  "No test extracts a tarball.",
  [NS+"tarball.rs", NS+"package.rs"], [("extraction from archive", NS+"tarball.rs extract_to_dir"), ("extraction from cache", NS+"package.rs extract_from_cache")], ["target directory tree"])
p("T03", "Extraction never touches anything outside the package's own directory",
  "Whatever entry names, link entries or declared executables a package contains, extracting and linking it creates, changes or deletes nothing outside its own directory (other than the cache and the bin links that are its due).",
  ["inputs"], "every archive over an alphabet of hostile entry names (parent steps, absolute, backslash, empty, dot), link entries followed by writes through them, and hostile executable paths and names",
  "No test extracts a tarball, and a sample of hostile names says little about the others.",
  [NS+"tarball.rs", NS+"package.rs", "crates/oro-common/src/build_manifest.rs", NM+"linkers/mod.rs"], [("path computation", NS+"tarball.rs strip_one"), ("bin normalisation", "crates/oro-common/src/build_manifest.rs")], ["filesystem around the target directory"])
p("T04", "A damaged cache never changes what gets installed",
  "Whatever happened to the files of the cache (removed, truncated, altered, replaced by other files of the cache), installing a package from it either produces exactly the package's files, fetching them again where needed, or fails with an error; it never installs different content. While the registry still serves the packages, contents that were removed, truncated or altered do not make it fail.",
  ["fault_sequences"], "every single damage (kind and file) to every file of the cache left by an earlier install, for each extraction mode",
  "No test uses a cache.",
  [NS+"package.rs", NS+"tarball.rs"], [("fallback to the network on cache failure", NS+"package.rs extract_to_dir_inner"), ("content checking by the cache", NS+"package.rs extract_from_cache")], ["target directory tree"])
p("T05", "Installs that share a cache don't disturb each other",
  "When two installs of different projects run at the same time with one cache, both succeed and each leaves what it leaves by itself, however their operations on the cache interleave and whatever intact or damaged state the cache was in before. The cache they leave serves later installs with the right contents, and those leave the finished projects as they are.",
  ["schedules"], "every hand-over between two real installs at operations on the cache's files, with one preemption (thorough: also two), for empty, warm and damaged caches",
  "No test uses a cache, let alone two processes.",
  [NS+"package.rs", NS+"tarball.rs"], [("recovery of single packages from a damaged cache", NS+"package.rs extract_to_dir_inner"), ("contents and index written atomically", NS+"tarball.rs")], ["node_modules trees", "exit status"])
p("I01", "Applying in hoisted mode always ends in the layout of the resolved tree",
  "After a successful hoisted apply, node_modules contains exactly the packages of the resolved tree at their paths, with their contents and their executables linked, and nothing that belongs to a previous tree, whatever sequence of applies, manifest changes and linker changes preceded it. Applying again changes nothing.",
  ["histories"], "breadth-first over histories of applies with a small alphabet of manifests, linker modes and stray files, each state reached with the real code",
  "No test runs an apply at all.",
  [NM+"linkers/hoisted.rs", NM+"linkers/mod.rs"], [("pruning", NM+"linkers/hoisted.rs prune"), ("extraction", NM+"linkers/hoisted.rs extract"), ("bins", NM+"linkers/hoisted.rs link_bins")], ["node_modules tree"],
  state=[("node_modules/.orogene-meta.kdl", "what the last apply put there", NM+"linkers/hoisted.rs")])
p("I02", "Applying in isolated mode gives each package exactly its own dependencies",
  "After a successful isolated apply, the project's node_modules exposes exactly the project's own dependencies and every package sees exactly its own declared dependencies, each at the resolved package and with contents and executables in place, whatever sequence of applies, manifest changes and linker changes preceded it. Nothing of a previous tree stays visible or stored, and applying again changes nothing.",
  ["histories"], "breadth-first over histories of applies with a small alphabet of manifests, linker modes and stray files, each state reached with the real code",
  "No test runs an apply at all.",
  [NM+"linkers/isolated.rs", NM+"linkers/mod.rs"], [("pruning", NM+"linkers/isolated.rs prune"), ("store and links", NM+"linkers/isolated.rs extract"), ("bins", NM+"linkers/isolated.rs link_bins")], ["node_modules tree"],
  state=[("node_modules/.orogene-meta.kdl", "what the last apply put there", NM+"linkers/isolated.rs")])
p("I03", "An apply interrupted at any point is completed by the next one",
  "If an apply is killed at any moment, running apply again succeeds and leaves the same node_modules and lockfile as an apply that was never interrupted.",
  ["crash_points"], "every filesystem-changing system call of an apply as a crash point, for first installs and for updates, in both linker modes",
  "No test interrupts anything.",
  [NM+"linkers/hoisted.rs", NM+"linkers/isolated.rs", NM+"maintainer.rs", "src/apply_args.rs"], [("metadata file written last", NM+"linkers/*.rs extract"), ("corrupt metadata is discarded", NM+"resolver.rs load_actual")], ["node_modules tree", "package-lock.kdl"])
p("I04", "A failed command leaves the project's manifest and lockfile as they were",
  "When apply, add or remove fails because the registry answered with an error, was unreachable, or sent unusable data, at whatever request, the command reports failure and leaves package.json and the lockfile byte for byte as they were. Running it again once the cause is gone gives the same result as if nothing had failed.",
  ["fault_sequences"], "every registry request of the run as the failing one, with every kind of failure, for each command",
  "Tests only use registries that answer correctly.",
  ["src/apply_args.rs", "src/commands/add.rs", "src/commands/remove.rs"], [("files written only after everything succeeded", "src/apply_args.rs execute, src/commands/add.rs execute")], ["package.json", "package-lock.kdl", "exit status"])
p("I05", "Executables of dependencies are linked where they can be run",
  "After an apply, for every direct dependency (and in hoisted mode every package at the top level) that declares executables that exist in it, the project's .bin directory has an entry with each declared name that resolves to the declared file, and that file can be executed; this holds for the string form, the map form and scoped packages. Executables of nested dependencies are linked next to the dependent that requires them. Where several packages declare the same name, that of a package that is depended on directly comes first.",
  ["inputs", "histories"], "every shape of bin declaration in an alphabet, for scoped and unscoped, nested and top-level packages, both linkers, first and repeated applies",
  "No test links an executable.",
  [NM+"linkers/mod.rs", NM+"linkers/hoisted.rs", NM+"linkers/isolated.rs", "crates/oro-common/src/build_manifest.rs"], [("bin links", NM+"linkers/*.rs link_bins"), ("normalisation", "crates/oro-common/src/build_manifest.rs")], ["node_modules/.bin"])
p("I06", "Install scripts run once each, after those of the packages they depend on",
  "When packages are newly installed, each of their preinstall, install and postinstall scripts (and the project's own, on every apply) runs exactly once, in that order of stages over the whole tree, within its own package directory; within a stage a package's script starts only after the scripts of all the packages it depends on have ended, and never more scripts run at once than the configured limit. Packages that did not change do not run their scripts again, and disabling scripts runs none.",
  ["schedules", "inputs"], "every dependency graph of up to four packages, every assignment of script stages, every completion order of concurrently running scripts, several limits, both linkers",
  "No test runs a script.",
  [NM+"linkers/mod.rs"], [("dependency-ordered execution", NM+"linkers/mod.rs run_scripts")], ["log written by the scripts themselves"])
p("I07", "A failing script fails the install, unless only optional packages need it",
  "A non-zero exit of a package's install script makes the apply fail, except when the package is only required optionally, in which case the apply goes on and succeeds. Running the scripts always terminates, also when packages depend on each other in a cycle, and no script starts after the failure has been reported.",
  ["inputs", "schedules"], "every graph of up to three packages including cycles, every choice of failing scripts and optional edges, every completion order",
  "No test runs a script.",
  [NM+"linkers/mod.rs", NM+"graph.rs"], [("error handling", NM+"linkers/mod.rs run_dep_script"), ("optional detection", NM+"graph.rs is_optional")], ["exit status", "log written by the scripts"])
p("I08", "A failing file operation never passes for a successful command",
  "If any one operation on a file or directory of the project or the cache (creating, writing, renaming, linking, removing, changing modes, opening for reading) fails during apply, add or remove, or every change fails from some moment on (a full disk), the command ends; it either reports failure, or it leaves the node_modules, package.json and lockfile that it leaves undisturbed. After a failure package.json is as before or complete as the command would have left it, and running the command again undisturbed succeeds with the undisturbed result. A lockfile that is there but cannot be read counts as a failure, not as if there was none.",
  ["fault_sequences"], "every file operation of the run as the failing one, with several errors, for each command, first installs and updates, both linkers, with and without a cache",
  "Tests run on a file system where nothing fails.",
  [NM+"linkers/hoisted.rs", NM+"linkers/isolated.rs", NM+"linkers/mod.rs", NM+"maintainer.rs", "crates/nassun/src/tarball.rs", "crates/oro-common/src/lib.rs"], [("errors of file operations are passed on", NM+"linkers/mod.rs, crates/nassun/src/tarball.rs"), ("fallbacks from links to copies, and from cache to registry", "crates/nassun/src/tarball.rs, crates/nassun/src/package.rs")], ["exit status", "node_modules tree", "package.json", "package-lock.kdl"])
p("C01", "Credentials are sent to the registry they belong to and to no one else",
  "Every request to a registry with configured credentials carries them in the form that belongs to their kind, and no other request carries any: not requests to other hosts, ports or path prefixes, not tarballs hosted elsewhere, not what a redirect to another host or port leads to.",
  ["configurations", "inputs"], "every combination of configured registries and credential kinds with every request target (host, port, path prefix, redirect) in the alphabet",
  "Tests send requests without credentials.",
  [OC+"auth_middleware.rs", OC+"client.rs", OC+"credentials.rs", OC+"api/stream.rs"], [("authorization middleware", OC+"auth_middleware.rs"), ("client without credentials for external data", OC+"api/stream.rs")], ["Authorization headers seen by the servers"])
p("C02", "Scoped packages come from their scope's registry, all others from the default",
  "Metadata of a package in a scope with a configured registry is requested from that registry only, and metadata of every other package from the default registry only, under the package's own name below the registry's base path, also when it is requested through an alias.",
  ["configurations", "inputs"], "every combination of scope configuration, registry base path shape and package name shape in the alphabet, through the library and the command line",
  "Tests use one registry and no scopes.",
  [NS+"fetch/npm.rs", NS+"client.rs", OC+"api/packument.rs"], [("registry choice", NS+"fetch/npm.rs pick_registry"), ("URL building", OC+"api/packument.rs")], ["requests seen by the servers"])
p("C03", "Temporary registry failures are retried, lasting ones reported",
  "A request that fails temporarily (server error, dropped connection) is retried up to the configured number of times and then behaves as if it had not failed; a lasting failure or a definite answer such as not found is reported as an error, after no more than the configured number of retries. Answers that are not valid metadata are reported as errors.",
  ["fault_sequences"], "every sequence of answers (good, server error, not found, reset, truncated, invalid) up to the retry bound plus one",
  "Tests never return a failure that should be retried.",
  [OC+"client.rs", OC+"api/packument.rs"], [("retry middleware", OC+"client.rs build")], ["number of requests seen", "result"])
p("C04", "Logging in follows the registry's answers to a definite end",
  "Web login polls exactly the URL the registry named while it answers that it is pending, waits as it asks, and ends with the token it finally delivers or with an error; classic login sends the given user name and password and, when asked, the one-time password, and ends with the token delivered or with an error. No answer of the registry crashes the client or yields a token it did not deliver.",
  ["fault_sequences"], "every sequence of registry answers up to length three over an alphabet of pending, done, malformed and failing answers",
  "The suite covers no login answer beyond the plain success.",
  [OC+"api/login.rs"], [("login flows", OC+"api/login.rs")], ["requests seen by the server", "result"])
p("C05", "Cached registry answers are reused only where the registry allows it",
  "With a cache, a metadata request never yields a document that the registry's caching headers don't allow to be reused for it: not one that has expired or may not be stored, not one given to other credentials unless it is public, not one of another kind where the answer varies by it. A refusal by the registry (not found, unauthorized) always reaches the caller; only a failing registry (server errors, no answer) may be bridged by what is stored, unless that must be revalidated.",
  ["histories", "configurations"], "every history of requests for both kinds of metadata, with and without credentials, publications, failures and refusals, up to a length, under every caching policy of an alphabet",
  "No test uses a cache.",
  [OC+"client.rs", OC+"auth_middleware.rs", OC+"refusals.rs", OC+"api/packument.rs"], [("HTTP cache between credentials and retries", OC+"client.rs build"), ("refusals bypass the cache", OC+"refusals.rs")], ["documents returned by the client", "requests the registry sees"])
p("C06", "Credentials never show up in output, logs or the project",
  "A secret (token, password, encoded credentials, one-time password, proxy password) given on the command line, in a configuration file or in the environment, or received at login, never appears - as it is, percent-encoded or in the encoding of basic authentication - in what a command prints, in its debug log, or in any file it writes to the project, whatever the command, the registry's answer, the failure and the level of logging.",
  ["configurations", "faults"], "every combination of kind of credentials, place they are given, command, answer of the registry and level of logging of the bound, through the real commands",
  "No test looks at logs or error messages of requests with credentials.",
  ["src/lib.rs", "src/client_args.rs", "src/commands/login.rs", "src/commands/logout.rs", OC+"api/logout.rs", OC+"api/login.rs", OC+"error.rs"], [("logged command line", "src/lib.rs"), ("warnings about credentials", "src/client_args.rs"), ("errors of requests", OC+"error.rs")], ["standard output and error", "debug log", "files of the project"])
p("S01", "Package specifiers are classified correctly and survive printing",
  "Every text is either parsed into the kind of specifier npm's rules give it (registry with version, range or tag; alias; directory; git, including hosted shorthands) or rejected with an error, never a crash. A parsed specifier printed and parsed again, as itself or as the requirement of a manifest or lockfile, is the same specifier. Accepted package names never contain path steps, and a hosted repository's addresses name its owner, repository and commit.",
  ["inputs"], "every string up to a length bound over an alphabet of significant characters, and every combination of a grammar of specifier parts",
  "Unit tests list a few dozen specifiers.",
  ["crates/oro-package-spec/src/lib.rs", "crates/oro-package-spec/src/parsers/"], [("parsers", "crates/oro-package-spec/src/parsers/"), ("printing", "crates/oro-package-spec/src/lib.rs Display")], ["parsed value", "printed text"])
p("S02", "Option sources take precedence: command line, project, user config, environment",
  "For every option, a value given on the command line wins over the project's oro.kdl, which wins over the user's oro.kdl, which wins over the environment, which wins over the default; an explicitly given config file replaces both files. Negated flags follow the same order; a list given on the command line replaces a configured one. A value reaches the command as it was written, whatever it looks like, and is never lost or altered by other layers or options; a malformed value is refused or ignored, never a crash.",
  ["configurations"], "every subset of sources that sets an option, for each option with an observable effect (text, number, switch, negated switch, list of pairs), every spelling, every pair of options, through the real commands",
  "Unit tests load single files.",
  ["crates/oro-config/src/lib.rs", "src/lib.rs"], [("layering", "src/lib.rs layer_command_args, crates/oro-config/src/lib.rs")], ["behaviour of the command"])
p("S03", "Stored credentials are returned as stored, until cleared",
  "After any sequence of storing and clearing credentials and scope registries in a configuration, looking one up returns exactly what was last stored for that registry or scope and nothing after it was cleared, other entries and the rest of the document are unaffected, and what is stored is what requests then use. Logging out revokes the stored token, and no other, at its own registry.",
  ["histories"], "every sequence of store, look up and clear up to a depth, over several registries, scopes and credential kinds, against a map",
  "There are no tests of credential storage.",
  ["crates/oro-npm-account/src/config.rs", "src/commands/login.rs", "src/commands/logout.rs", OC+"credentials.rs"], [("KDL edits", "crates/oro-npm-account/src/config.rs")], ["looked-up value", "document text"])
p("S04", "Rewriting a JSON file keeps its formatting",
  "Reading a JSON document and writing it back unchanged gives the same text for every document with its values in their usual form laid out with consistent indentation by one character, and in every case the same data, key order, line ending style and final newline. Changing one value leaves the text of all others as it was.",
  ["inputs"], "every document over a small alphabet of shapes, with every indentation, line ending and trailing newline style",
  "One unit test covers one document.",
  ["crates/oro-pretty-json/src/lib.rs"], [("format detection and output", "crates/oro-pretty-json/src/lib.rs")], ["text written"])
p("S05", "Adding and removing dependencies edits exactly what was asked",
  "After adding a dependency, package.json lists it under exactly the requested kind, with a request that the installed version satisfies, and nowhere else; after removing, it is listed nowhere. All other fields, other dependencies and the layout of package.json are untouched, and node_modules and the lockfile correspond to the new package.json.",
  ["histories"], "every sequence of add and remove commands up to a depth over a small alphabet of specifiers and kinds, from several initial manifests",
  "No test runs add or remove.",
  ["src/commands/add.rs", "src/commands/remove.rs", "crates/oro-pretty-json/src/lib.rs"], [("manifest edits", "src/commands/add.rs, src/commands/remove.rs")], ["package.json", "package-lock.kdl", "node_modules"])
p("S06", "Scripts run in their package, with its dependencies' executables first",
  "A package script runs in its package's directory. Executables from its own node_modules/.bin and from those of the packages around it, up to the project's and not above it, come before those of the inherited search path, innermost first; the rest of the environment, and the inherited search path itself, are passed on unchanged. The script's exit status or signal and its output, whatever bytes it consists of, are reported as they are: output alone never makes a script or an install fail.",
  ["inputs", "configurations"], "every set of places an executable can be in, for every shape of package, way of giving the project's path and inherited search path; every ending and output of the alphabet; every combination of direct dependencies on executables in real installs",
  "There are no tests of script execution.",
  ["crates/oro-script/src/lib.rs", NM+"linkers/mod.rs"], [("search path", "crates/oro-script/src/lib.rs set_all_paths"), ("output and status", NM+"linkers/mod.rs run_dep_script")], ["environment seen by the script", "reported status and output", "result of the install"])
p("S07", "No telemetry without consent, and the first run keeps the configuration",
  "Nothing is sent to the telemetry collector unless the user agreed: by answering the question of the first-time setup with yes, or by switching telemetry on in a configuration file, the environment or the command line, where the usual precedence says it is on. The question is asked at most once, only in a terminal and not in CI; the answer is recorded in the user's oro.kdl, and everything else in that file stays, also when reading or writing it fails or the process is killed during the setup.",
  ["configurations", "histories", "faults", "crash points"], "every combination of settings in user and project oro.kdl, environment and command line, of terminal and CI, of answers to the question, with following runs; every access to the file failing, every moment of being killed",
  "No test runs the first-time setup, or with telemetry.",
  ["src/lib.rs"], [("first-time setup, telemetry", "src/lib.rs first_time_setup, setup_telemetry")], ["requests at the collector", "what the terminal shows", "content of the user's oro.kdl"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
