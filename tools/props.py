"""What each check runs."""
SIM = 'a case = one seeded random history of API calls (key family, value lengths, scaled size limits) on one database, judged call by call against the reference model; non-trivial = it committed at least once; distinct = by set of operations used, key family, number of distinct roots and final root'
NOTE = 'Held on the executions explored (seeded random workloads, counts in the evidence); executions that were not generated are not covered. Trusts the reference model in mon/ref.cpp, written from the documented format, and the sanitizers. '
SIMT = 'runtime monitoring: reference-model oracle over randomized API histories of the ASan+UBSan build'

PRF = 'a case = one seeded random tree, from which honest proofs are generated, altered in 22 ways (recombined, re-typed, shifted, truncated, bit-flipped, fitted to a chosen root, hostile bytes) and verified against true and false claims; every verdict is compared with an independent verifier; distinct = by (attack, proof type, depth, verdict)'
PRFT = 'runtime monitoring: reference verifier as oracle over generated forgeries and hostile bytes, ASan+UBSan build, exact-size buffers, allocation ledger'
CR = 'a case = one seeded random history; the directory is captured before every mutating system call and at byte positions inside every write, each distinct state is reopened, judged, used further and reopened (also with crashes inside the recovery); 1 case in 16 kills a real process with SIGKILL; distinct = by (directory contents, last acknowledged root)'
CRT = 'runtime monitoring: crash-state capture at interposed system calls and SIGKILL, reopened states judged against the acknowledged-commit log, ASan+UBSan build'
FL = 'a case = one seeded random history of episodes in which each system call of an operation fails in turn (once, repeatedly, for ever, after a partial transfer), or calls fail at random for a while; distinct = by (operation, system call, index, kind of failure)'
FLT = 'runtime monitoring: systematic system-call fault injection, answers during and after the faults judged against the acknowledged-commit model, leak ledgers, ASan+UBSan build'

SH = 'a case = one seeded random history run twice, with every system call completing in one piece and with a chosen share of them completing partly or interrupted; answers are judged against the reference model and the files compared byte for byte after every commit; distinct = by (shares, final files)'
SHT = 'runtime monitoring: differential runs under injected short counts and EINTR, reference-model oracle, ASan+UBSan build'
CC = 'a case = 2 to 12 threads making random calls (six mixtures, own and shared transactions, own and shared iterators, private databases) on one handle with delays injected at lock and system calls, watched by ThreadSanitizer, AddressSanitizer and a lock-ownership monitor; distinct = by (calls used, commits, threads, final root)'
CCT = 'runtime monitoring: ThreadSanitizer and AddressSanitizer builds, lock-ownership deadlock monitor, randomized delays at scheduling points, self-validating values'
LN = 'a case = several rounds of 2 to 5 threads making recorded calls on one handle with injected delays; each round is one history judged by an exhaustive search for a sequential explanation, with the final state pinned by reads and by the decoded files; distinct = by the order of calls in the explanation'
LNT = 'runtime monitoring: recorded call histories judged offline by a linearizability checker against the sequential reference model'
PC = 'a case = 2 to 21 real processes opening, using, closing, destroying one database (also through other spellings of its path) and being killed, with delays injected at system calls; every call is logged with global time stamps and the log judged afterwards; distinct = by (opens, refusals, destroys, commits, kills)'
PCT = 'runtime monitoring: several real processes with SIGKILL, shared-memory event log judged offline for mutual exclusion, justified refusals and continuity of contents, ASan+UBSan build'
PT = 'a case = one seeded scenario (spellings of the path, foreign entries inside the directory, paths near the length limit, unusable paths, destroy, wandering working directory); every mutating system call is recorded and its resolved target judged, and names, modes, times and contents of everything around the database are compared before and after; distinct = by scenario and its parameters'
PTT = 'runtime monitoring: log of mutating system calls judged against the set of files the database owns, snapshots of the surroundings, ASan+UBSan build'
BIG = 'a case = one database: the same seeded workload with the file limit at every offset (sweep), a database in the documented format with records near the end of real 2 GB files and then used (sparse), 32760 files (many), one commit larger than the 64 MB write buffer (wide), more than 2 GB written through the API (stream), or a random history under scaled limits (sim); every version is compared with the model, and the files with an independent reader; distinct = by kind, layout and final root'
BIGT = 'runtime monitoring: reference-model oracle and independent disk reader over boundary sweeps, sparse real-limit files and volume workloads, ASan+UBSan and plain builds'
HS = 'a case = one length: read-only input at many alignments and between inaccessible pages, hashed repeatedly; or 2 to 12 threads hashing own and shared inputs under ThreadSanitizer; or one input of up to 8 GB; each digest is compared with a reference BLAKE2b checked against known answers; distinct = by input length'
HST = 'runtime monitoring: differential comparison with a reference BLAKE2b, guard pages and read-only mappings, ASan+UBSan, ThreadSanitizer'
PW = 'a case = one seeded random history under small file limits, with every change to a data file and every sync recorded; at chosen moments the power fails: each file keeps its content at its last sync plus any prefix of the changes since, and the result is opened, judged, used further and reopened; distinct = by (surviving files, commit shown)'
PWT = 'runtime monitoring: recorded writes and syncs replayed into the states a power loss can leave, reopened states judged against the acknowledged-commit log, ASan+UBSan builds with and without URKEL_FSYNC'
DM = 'a case = one seeded database whose files are damaged in 1 to 6 places (bits, ranges, record fields, wild or cyclic pointers, stale and re-signed commit records, misplaced blocks, cuts, missing, extra and exchanged files; at rest or under an open handle) and on which everything is then tried; distinct = by (damages, number of failing calls)'
DMT = 'runtime monitoring: structure-aware corruption of the files, ASan+UBSan build with abort and hang detection, intact records compared with the model'
CL = 'a case = 12 to 40 invocations of the tool on one database (all actions, option orders, path spellings, hex cases, malformed arguments, injected faults and short counts, a lock held by another process, concurrent invocations), each judged on exit status, output and files; distinct = by (final root, set of (action, outcome))'
CLT = 'runtime monitoring: model of the tool in Python (parser, tree, proofs, verifier) as oracle over process invocations of the ASan+UBSan build'
CO = 'a case = one seeded history of edits, commits, reads, snapshots and reopenings; the growth of the data files is compared with the records the reference tree says are new or on edited paths, and allocations, live memory and file calls around every call with bounds in the path length; distinct = by (kinds of step, commits, final root)'
COT = 'runtime monitoring: interposed allocator and system calls counted around every API call, growth of the files judged against a reference tree, ASan+UBSan build'

def sim(q, t):
    return dict(mode='sim', variant='asan', quick=q, thorough=t)


def P(runs, technique, note='', **kw):
    return dict(runs=runs, technique=technique, note=NOTE + note, **kw)


PROPS = {
    'P01': P([sim(3000, 30000)], SIMT, rule=SIM, floor={'commits': 100, 'oracle_evaluations': 1000, 'second_databases': 200, 'near_values': 2000}),
    'P02': P([sim(2400, 30000)], SIMT, rule=SIM, distinct='roots', floor={'root_checks': 100}),
    'P03': P([sim(700, 10000), dict(mode='proof', variant='asan', quick=800, thorough=16000)], SIMT, rule=SIM, distinct='proof_shapes', floor={'proofs': 100}),
    'P04': P([dict(mode='proof', variant='asan', quick=3000, thorough=80000)], PRFT, rule=PRF, distinct='verdicts', floor={'verifications': 10000, 'cases': 100}),
    'P05': P([dict(mode='proof', variant='asan', quick=3000, thorough=80000), dict(mode='proof', variant='msan', quick=1500, thorough=20000)], PRFT, rule=PRF, distinct='verdicts', floor={'verifications': 10000, 'cases': 100}),
    'P06': P([sim(2400, 30000)], SIMT, rule=SIM, floor={'commits': 100}),
    'P07': P([sim(1600, 16000)], SIMT, rule=SIM, floor={'commits': 100, 'reopens': 100}),
    'P08': P([dict(mode='crash', variant='asan', quick=900, thorough=16000)], CRT, rule=CR, distinct='recovered', floor={'recoveries': 1000, 'kills': 10, 'nested_recoveries': 10}),
    'P09': P([dict(mode='fault', variant='asan', quick=3000, thorough=30000)], FLT, rule=FL, distinct='fault_points', floor={'faults_injected': 2000, 'failed_commits': 200, 'settled_checks': 500}),
    'P10': P([dict(mode='short', variant='asan', quick=3200, thorough=36000)], SHT, rule=SH, floor={'short_calls': 5000, 'interrupted_calls': 2000, 'images_compared': 1000}),
    'P11': P([sim(2000, 24000)], SIMT, rule=SIM, floor={'records_compared': 1000}),
    'P12': P([dict(mode='conc', variant='tsan', quick=5000, thorough=60000, jobs=12), dict(mode='conc', variant='asan', quick=4000, thorough=60000, jobs=12)], CCT, rule=CC, floor={'thread_ops': 50000, 'lock_operations': 500000, 'injected_delays': 20000, 'disk_checks': 100}),
    'P13': P([dict(mode='lin', variant='asan', quick=9000, thorough=100000, jobs=16)], LNT, rule=LN, floor={'histories': 2000, 'overlapping_pairs': 50000, 'checker_states': 50000}),
    'P14': P([sim(1600, 24000), dict(mode='damage', variant='asan', quick=3000, thorough=60000), dict(mode='fault', variant='asan', quick=500, thorough=8000), dict(mode='conc', variant='asan', quick=1200, thorough=20000, jobs=12), dict(mode='path', variant='asan', quick=1800, thorough=30000),
              dict(mode='sim', variant='msan', quick=800, thorough=12000), dict(mode='fault', variant='msan', quick=400, thorough=6000), dict(mode='crash', variant='msan', quick=120, thorough=3000), dict(mode='path', variant='msan', quick=600, thorough=9000)], SIMT + ', MemorySanitizer build', rule=SIM, floor={'ops': 1000, 'uninitialised_bytes_tracked': 1000000, 'output_bytes_defined': 1000000}),
    'P15': P([dict(mode='proc', variant='asan', quick=4000, thorough=160000, jobs=12)], PCT, rule=PC, floor={'opens': 5000, 'opens_refused': 5000, 'destroys': 1000, 'kills': 300, 'held_refusals': 500, 'opens_with_a_failing_call': 300}),
    'P16': P([dict(mode='path', variant='asan', quick=9000, thorough=200000)], PTT, rule=PT, floor={'effects_checked': 20000, 'spellings': 1000, 'foreign_checks': 1000, 'refused': 500, 'long_used': 100, 'in_use_refusals': 100, 'destroys': 500, 'modes_checked': 20000, 'descriptors_checked': 20000, 'opens_without_o_cloexec': 1000, 'long_relative_refused': 50, 'long_relative_used': 50}),
    'P17': P([dict(mode='big', variant='plain', opts={'kind': 'stream'}, quick=1, thorough=8, jobs=1, par=True, stall=600),
              dict(mode='big', variant='asan', opts={'kind': 'many'}, quick=1, thorough=6, jobs=1, par=True, stall=400),
              dict(mode='big', variant='asan', opts={'kind': 'wide'}, quick=1, thorough=8, jobs=1, par=True, stall=400),
              dict(mode='big', variant='asan', opts={'kind': 'sweep'}, quick=4200, thorough=140000),
              dict(mode='big', variant='asan', opts={'kind': 'sparse'}, quick=1600, thorough=40000),
              sim(800, 12000)], BIGT, rule=BIG, floor={'commits': 100, 'max_files': 30000, 'boundaries': 1400, 'sparse_databases': 100, 'wide_commits': 1, 'streamed_files': 2}),
    'P18': P([dict(mode='hash', variant='plain', opts={'huge': 1}, quick=8, thorough=40, par=True, stall=300),
              dict(mode='hash', variant='tsan', opts={'threads': 1}, quick=600, thorough=12000),
              dict(mode='hash', variant='asan', quick=9000, thorough=300000)], HST, rule=HS, distinct='lengths', floor={'digests': 50000, 'past_4_gigabytes': 3, 'thread_digests': 10000}),
    'P19': P([sim(2000, 20000), dict(mode='fault', variant='asan', quick=1000, thorough=8000)], SIMT + ', system-call fault injection', rule=SIM + '; or one of episodes in which system calls fail', floor={'faults_injected': 1000, 'no_effect_checks': 10000, 'failed_verifications': 2000, 'bad_paths': 1000, 'stale_errno_presets': 100000}),
    'P20': P([dict(py='cli_check', quick=700, thorough=16000)], CLT, rule=CL, floor={'invocations': 10000, 'malformed': 500, 'ok_insert': 1000, 'ok_get': 80, 'ok_prove': 100, 'verified': 100, 'rejected': 100, 'locked_refusals': 30, 'crowd_ok': 30, 'faulted': 30}),
    'P21': P([sim(1200, 14000),
              dict(mode='big', variant='asan', opts={'kind': 'golden', 'from': '@golden'}, quick=560, thorough=8000),
              dict(mode='big', variant='asan', opts={'kind': 'sparse'}, quick=500, thorough=10000)], SIMT + ', independent reader and writer of the disk format, databases written by earlier builds', rule=SIM + '; or one database written by an earlier build (golden) or by an independent writer at any position of real 2 GB files (sparse), opened, judged and used further', floor={'disk_checks': 100, 'golden_databases': 500, 'sparse_databases': 100}),
    'P22': P([dict(mode='damage', variant='asan', quick=16000, thorough=500000), dict(mode='damage', variant='msan', quick=8000, thorough=200000)], DMT, rule=DM, floor={'damages': 10000, 'opened': 5000, 'open_refused': 200, 'exact_records': 50000, 'orderly_failures': 50000, 'commits_on_damaged': 2000, 'damaged_while_open': 500, 'mappings_guarded': 20000}),
    'P23': P([dict(mode='cost', variant='asan', quick=6000, thorough=120000)], COT, rule=CO, floor={'append_checks': 20000, 'exact_appends': 10000, 'shared_nodes': 100000, 'path_checks': 50000, 'iterations': 5000, 'open_checks': 5000, 'read_passes': 20000, 'release_checks': 2000, 'unknown_roots': 2000, 'read_checks': 100000, 'reopen_checks': 5000}),
    'P24': P([dict(mode='power', variant='asan', quick=2400, thorough=40000), dict(mode='power', variant='fsync', opts={'fsync': 1}, quick=1200, thorough=16000)], PWT, 'Within one file, changes are taken to reach the disk in the order they were made (a prefix survives); the 32-byte key file and the directory itself are taken to be durable. ', rule=PW, floor={'power_losses': 20000, 'losses_with_a_finished_file': 10000, 'syncs': 5000, 'shows_between': 2000, 'failed_syncs': 500}),
}
