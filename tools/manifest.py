#!/usr/bin/env python3
"""Writes MANIFEST.json from this table and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "exhaustive bounded enumeration of inputs on the real code"
CHECKS = {
 "R01": ("exploration", EX + ": every small registry and manifest, resolved by the real resolver", "every universe of a family within the request bound; oracle: Node's lookup rule and an own semver"),
 "R02": ("model_checking", "stateless model checking: depth-first exploration of every registry answer order under a controlled loopback registry", "all delivery orders of up to the stated number of outstanding answers"),
 "R03": ("exploration", EX + ": every subset of a version alphabet with every tag and request", "oracle: own implementation of npm's selection rule and of semver ranges"),
 "R04": ("exploration", "exhaustive exploration of bounded histories (resolve, publish, edit, resolve with lockfile) on the real code", "all pairs of manifests over the alphabet within the edit bound"),
 "R05": ("exploration", EX + ": every lockfile over an alphabet through both readers and the writer, every single-token corruption", "oracle: the enumerated model itself; corruptions are judged against resolution without a lockfile"),
 "R06": ("exploration", EX + ": every set of tags with every request through real git, every directory with every spelling, and real commands on manifests of these", "oracle: git's own object names for the commits the harness has made; own rule for which commit a request names"),
 "T01": ("fault_enumeration", EX + ": every single fault and chunking of a package's archive, in every way of reading it", "oracle: only the exact published bytes may be accepted; every rejection must leave nothing behind that is later used"),
 "T02": ("exploration", EX + ": every ordered selection of archive entries, in every extraction mode", "oracle: own reading of the archive"),
 "T03": ("exploration", EX + ": every hostile entry, bin and dependency name of an alphabet of path tricks at every position, through every extraction mode and both linkers", "everything outside of the package directory (or node_modules) is compared before and after; runs as an unprivileged user in a scratch directory"),
 "T04": ("fault_enumeration", EX + ": every damage to every file and directory of a warm cache, alone and in pairs, with a good, a forging and a failing registry", "oracle: the packages' own files, or an error"),
 "T05": ("model_checking", "stateless model checking: two real processes under a controlled scheduler (ptrace), every schedule of their cache operations within a preemption bound", "every point of the first install as the one where the other runs; thorough: every pair of points"),
 "I01": ("model_checking", "explicit-state model checking: breadth-first exploration of apply histories, the real code being the transition function", "states are (project, node_modules) pairs reached by real applies; oracle: the resolved tree and the packages' own files"),
 "I02": ("model_checking", "explicit-state model checking: breadth-first exploration of apply histories, the real code being the transition function", "states are (project, node_modules) pairs reached by real applies; oracle: Node's lookup from every package's real location"),
 "I03": ("fault_enumeration", "exhaustive crash-point enumeration: the real command is killed under ptrace after every k-th filesystem change (and half-way through writes), then run again", "oracle: what the command leaves without interruption"),
 "I04": ("fault_enumeration", "exhaustive fault enumeration: every registry request of the real command as the failing one, with every kind of failure", "oracle: the project's files before, and the undisturbed result"),
 "I05": ("exploration", EX + ": every shape of bin declaration in every placement, linker and pair of versions, applied by the real installer and run", "oracle: npm's rules for bin; every link is followed and executed"),
 "I06": ("model_checking", "stateless model checking: depth-first exploration of every completion order of install scripts under a controlled scheduler", "all graphs of the bound up to isomorphism, all orders in which running scripts can end"),
 "I07": ("model_checking", "stateless model checking: depth-first exploration of every completion order of install scripts under a controlled scheduler, with every choice of failing scripts", "all graphs of the bound up to isomorphism, including cycles and optional edges"),
 "I08": ("fault_enumeration", "exhaustive fault enumeration: every file operation of the real command as the failing one, injected under ptrace", "oracle: what the command leaves undisturbed"),
 "C01": ("exploration", EX + ": every configuration of registries and credentials with every request target, against loopback servers on several addresses and ports", "oracle: own rule for which configured entry covers a URL; every request of every server is compared"),
 "C02": ("exploration", EX + ": every configuration of scope registries with every package name and way of requesting it", "oracle: own rule for which registry and path a package has; every request of every server is compared"),
 "C03": ("fault_enumeration", "exhaustive fault enumeration: every sequence of registry answers up to one more than the configured retries", "oracle: the number of requests and the result each sequence allows"),
 "C04": ("fault_enumeration", "exhaustive fault enumeration: every sequence of registry answers to the real login commands up to the stated number of polls", "oracle: own reading of the answers; requests, waits, exit status and stored token are compared"),
 "C05": ("exploration", EX + ": every history of metadata requests, publications, failures and logins up to a length under every caching policy of an alphabet, each request by a new client on one cache", "oracle: own reading of HTTP caching (RFC 9111); every document names the request, credentials and moment it was made for"),
 "C06": ("exploration", EX + ": every combination of kind and place of credentials, command, answer of the registry and level of logging, through the real commands", "oracle: the secrets, in each of their encodings, looked for in the output, the debug log and every file of the project"),
 "S01": ("exploration", EX + ": every text over an alphabet of significant tokens up to a length, every formed specifier and every text within one or two edits of these", "oracle: own version of npm's classification; printing and parsing again"),
 "S02": ("exploration", EX + ": every subset of option sources for every option with an observable effect, every spelling, every pair of options and sources, through the real commands", "oracle: the documented precedence, compared in the commands' requests, output and files"),
 "S03": ("exploration", EX + ": explicit-state search of every configuration document reachable by storing and clearing credentials up to a depth, on the real code; and every history of real login and logout commands", "oracle: a map from registries to credentials and scopes to registries; look-ups, parsed document, everything else in it, and the requests real commands then make"),
 "S04": ("exploration", EX + ": every JSON document up to a size in every layout", "oracle: the harness's own printer"),
 "S05": ("exploration", EX + ": every manifest of the alphabet with every history of real add and remove commands of the bound", "oracle: a model of the edited manifest; everything else in the file is compared"),
 "S06": ("exploration", EX + ": every set of places of an executable for every shape of package and search path, every ending and output of a script, and real installs with every combination of dependencies on executables", "oracle: own rule for the search path; what the script itself reports about its surroundings"),
 "S07": ("exploration", EX + ": every combination of telemetry and first-time settings, terminal, CI and answers with following runs; every access to the configuration failing and every crash point of the setup under ptrace", "oracle: a local collector counts reports; the precedence of settings; the user's configuration before and after"),
}
NA = {}
exec(open(os.path.join(here, "tools", "more_checks.py")).read()) if os.path.exists(os.path.join(here, "tools", "more_checks.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        level, tech, note = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough", "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check has been built for it yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
