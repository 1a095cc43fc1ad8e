# Notes per property beyond what the harness and properties.jsonl say: the oracle, bounds, limits.
N = {
"R01": "Oracle: `tree.rs` knows Node's lookup and the request alphabet's meaning, nothing of the resolver. Requests that can't be met, and cycles that need infinitely many copies, are part of the alphabet. Limit: peer dependencies aren't (orogene ignores them).",
"R02": "The explorer bounds deviations from the canonical order (quick 2, thorough 3), not depth. Determinism of the harness itself is checked: the same choices must reach the same choice points.",
"R03": "Oracle: npm's selection rule written down from its documentation, with the harness's own semver ranges.",
"R04": "A history: resolve, publish newer versions and move tags, edit the manifest, resolve with the lockfile. Oracle: the old and the new tree under Node's lookup; no other claim about which versions a fresh request gets than R01's and R03's. Limit: dependencies on git and directories aren't part of it (R06).",
"R05": "npm lockfiles of version 2 and 3; kdl text produced by the tool and written by the harness. Corruptions are judged differentially: a rejected lockfile in a project must behave as no lockfile.",
"R06": "Real git on repositories the harness makes (dated, without the user's configuration). Hosted shorthands are only followed up to the addresses (S01), since there is no network.",
"T01": "Oracle: served bytes equal published bytes, or not. All single faults at every byte of small archives; a grid around buffer boundaries for large ones.",
"T02": "Oracle: the harness's own reading of the archive it wrote. Includes what a package's scripts later do to its files (nobody else may see it).",
"T03": "Oracle: everything around the package's directory stays as it was.",
"T04": "Single damages to every file and directory of the cache, and pairs.",
"T05": "The processes are the real command; the scheduler decides at system calls on files of the cache (metadata look-ups, opening, reading, mapping, writing, renaming, linking, removing). One preemption means that the second install runs as a whole between two of the first's operations; the thorough tier also stops the second one in turn. Limits: both run with `--concurrency 1`; system calls are atomic to the scheduler; the page cache is shared as on one machine (no network filesystems).",
"I01": "One transition from every reachable state suffices for histories of any length because each transition is shown to end in a state that depends on the resolved tree alone. Oracle: resolved tree x packages' files, and a fresh installation of the same lockfile.",
"I02": "As I01; visibility is judged from each package's real location by Node's lookup.",
"I03": "Atomicity that matters here is that of whole runs, so crash points are between all changing system calls and in the middle of writes. Limit: writes that the kernel hasn't flushed when the power fails aren't modelled (kill, not power cut).",
"I04": "Every request as the failing one, and everything from the k-th on; kinds of failures from refused connections to well-formed answers of the wrong shape.",
"I05": "Executables are found through the links and run.",
"I06": "Completion orders are chosen by the explorer; stages, dependencies, limit and 'exactly once' are checked at each start. When the installer has a free choice of which ready script to start, the search follows it (and says how often it gave an order up).",
"I07": "As I06 with failing scripts, cycles and optional edges. A run that doesn't end within the time limit is a violation.",
"I08": "Faults are injected at the system-call boundary of the real process (the call isn't made and an error is returned). Success with a different result, a crash, and an end that doesn't come are violations; temporary files whose own removal was made to fail are not. Limit: failures are not injected into what install scripts do, nor into reading from files already open.",
"C01": "Oracle: own rule for which configured entry covers a URL (host, port and path segments).",
"C02": "Oracle: own rule for registry and path.",
"C03": "The number of requests is exact.",
"C04": "Waiting times are measured at the server (at least as long as asked).",
"C05": "The oracle says what *may* be reused, not what must be (asking again is always right). Time isn't advanced: documents are made old by Age and Expires headers. Heuristic freshness (Last-Modified alone) isn't in the alphabet.",
"S01": "Oracle: npm-package-arg's rules written down, restricted to what orogene documents.",
"S02": "Every option with an effect that can be observed from outside.",
"S03": "Explicit-state: configuration documents are the states, deduplicated by text.",
"S04": "Oracle: the harness's own printer.",
"S05": "Real commands; package.json compared entry by entry and as text.",
"S06": "Scripts report what they see (working directory, which executable ran, environment).",
}
