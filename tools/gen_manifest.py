"""Writes MANIFEST.json from the checks that exist."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/mon', V + '/mon/checks']
import importlib

T = {
    'C01': ('round-trip differential monitor: restored trees against what the file system held', 'Sampled sources and histories; trusts Python\'s view of the file system.'),
    'C02': ('independent format reader auditing every repository state of random histories', 'Every state reached by sampled histories is fully decoded and audited; trusts the reader in mon/fmt.py.'),
    'C03': ('conservation monitor: blobs uploaded = blobs needed minus blobs held', 'Exact accounting of each observed backup; inputs sampled.'),
    'C04': ('monitored runs of the real chunker on hostile data, checked for partition, hash, bounds, determinism, locality', 'Sampled and edge-case inputs; golden chunk IDs.'),
    'C05': ('crash-point enumeration by a system-call monitor, state oracle after each kill and continuation', 'Every file-system mutation of each recorded backup is a kill point; scenarios and thread interleavings are sampled.'),
    'C06': ('crash-point enumeration by a system-call monitor, state oracle after each kill and continuation', 'Every file-system mutation of each recorded command is a kill point; scenarios are sampled.'),
    'C07': ('crash points crossed with interposed operations; trace and state oracle on resumption', 'Interrupted runs and what happens in between are sampled; the state after is fully decoded.'),
    'C08': ('independent reachability computed before each prune compared with the decoded repository after', 'Exact oracle on sampled histories.'),
    'C09': ('reference model of the snapshot set, whole-repository comparison', 'Exact oracle on sampled histories and arguments.'),
    'C10': ('before/after fingerprints of everything reachable, system-call monitor for mutations, dry against real outcome', 'Exact comparison on sampled states and commands.'),
    'C11': ('systematic damage of stored files, detection and wrong-answer oracle', 'Every kind of damage on every kind of file of sampled repositories, byte positions sampled.'),
    'C12': ('fault injection at every mutating system call and sampled reads, outcome oracle', 'One fault (once or persisting) per run; scenarios sampled.'),
    'C13': ('trace automaton over system-call logs: sync, publication and removal order', 'Every traced command is judged on its whole call sequence; histories sampled; assumes renames persist in order.'),
    'C14': ('concurrent runs under injected delays and pauses at chosen calls, state oracle', 'Schedules sampled and some forced; excludes a prune racing a backup whose index is out and snapshot not yet.'),
    'C15': ('differential runs with filters against decoded plain objects, failing filters', 'Sampled histories; each stored object is compared.'),
    'C16': ('differential runs with sabotaged caches, cache ledger audit', 'Sampled sabotage; results compared with an uncached repository.'),
    'C17': ('conservation and equality oracle over decoded source and destination', 'Exact accounting on sampled histories.'),
    'C18': ('independent filter model over captured trees and decoded snapshots', 'Exact oracle; patterns from the subset of regex syntax where Python and Rust agree.'),
    'C19': ('independent differ over decoded snapshots compared with printed output', 'Exact oracle on sampled pairs.'),
    'C20': ('system-call monitor refusing and recording escapes, fingerprints around the target', 'Sampled hostile targets, run as an unprivileged user.'),
    'C21': ('reference resolution of snapshot names over adversarial IDs', 'Exact oracle on sampled names.'),
    'C22': ('independent accounting of the decoded repository against printed reports', 'Exact oracle up to printed precision.'),
    'C23': ('mock B2 server with scripted faults, server-side ledger and result oracle', 'Faults sampled and enumerated per request; the hook replaces only the login URL.'),
    'C24': ('probe program stressing the real primitives with invariant counters, plus TSan', 'Schedules sampled.'),
    'C25': ('ThreadSanitizer, AddressSanitizer and crash oracle under hostile inputs', 'Executions sampled; uninstrumented C code (zstd, sqlite) is seen at its interfaces only.'),
    'C26': ('forced interleavings of source edits at paused system calls, consistency oracle', 'Pause points and edits sampled; a mapped file truncated while read is a known finding.'),
    'C27': ('decoded packs compared with the decoded index after rebuilds from hostile index states', 'Exact oracle on sampled states.'),
    'C28': ('decoded snapshots compared with printed listings, dumps and objects', 'Exact oracle on sampled snapshots.'),
    'C29': ('incremental runs compared with full runs into empty repositories', 'Exact comparison of tree IDs on sampled edits.'),
    'C30': ('independent writer of documented formats read by every command; golden IDs', 'Sampled repositories, fixed references.'),
    'C31': ('init and open on hostile places, fingerprint oracle', 'Enumerated situations and options.'),
    'C32': ('pack accounting over decoded repositories of varied pack sizes', 'Exact oracle on sampled sources.'),
    'C33': ('differential monitor: the same commands run in pairs of surroundings, compared by repository, files, output and exit code', 'Exact comparison on sampled surroundings and commands.'),
    'C34': ('resource monitor sampling /proc of running commands against bounds, with a log of pack opens', 'Sampled every few milliseconds: short peaks can be missed; bounds have slack.'),
}
checks, na = [], []
for p in sorted(T):
    if not os.path.exists('%s/mon/checks/%s.py' % (V, p.lower())):
        na.append(dict(property=p, reason='no check built yet'))
        continue
    m = importlib.import_module(p.lower())
    checks.append(dict(property=p, quick_cmd='python3 mon/run.py %s' % p, thorough_cmd='python3 mon/run.py %s' % p,
                       technique='runtime monitoring: ' + T[p][0], level=m.LEVEL, level_note=T[p][1]))
json.dump(dict(version=1, setup_cmd='python3 mon/setup.py',
               hooks=dict(guard='cfg backpak_verif', enable='RUSTFLAGS="--cfg backpak_verif" (mon/core.py sets it for every build)',
                          source_commits=['822dd35']),
               checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
