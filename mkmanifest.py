"""Writes MANIFEST.json from the table below (run by hand, result committed)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = 'deterministic simulation with fault injection: '
CHECKS = {
 'C01': ('seeded histories of fills, clock moves, refreshes, evictions and failures against a reference interpreter',
         'exploration', 'Bounded seeded search: every fill of every history is compared with an independent interpreter of the template language with its own model of the cache. Trusts the interpreter and the simulated clock; expiry exactly at the instant of the interval, or while the region is being computed, is not judged.'),
 'C02': ('seeded thread schedules over real generated code, each fill compared with a solo reference fill',
         'exploration', 'Bounded seeded search over interleavings at lines and bytecodes of Cheetah and generated code and at user callbacks. C code is atomic unless it calls back into Python; no switches inside importlib.'),
 'C03': ('seeded schedules, nesting, interrupts and I/O faults over concurrent compiles',
         'exploration', 'Bounded seeded search; each result is rendered and compared with a reference, the loaded-module table is audited, deadlock is detected exactly because every lock is simulated.'),
 'C04': ('seeded request histories with file edits, clock moves and read faults, cache on against cache off',
         'exploration', 'Bounded seeded search over histories of near-identical requests; the oracle is the same request compiled with the cache off in the same state.'),
 'C05': ('seeded exceptions, broken includes and interrupts at chosen points of fills, later fills against a reference interpreter',
         'exploration', 'Bounded seeded search; faults are placed at callbacks, includes and function entries. Interrupts are delivered on function entry and in user code only.'),
 'C06': ('seeded response failures and mixed string and streaming histories against a reference interpreter',
         'exploration', 'Bounded seeded search over programs, response kinds and failing writes.'),
 'C07': ('simulated disk with crashes, torn, short, failing and full-disk writes at chosen operations of a command-line run',
         'exploration', 'Bounded seeded search; fault points are chosen over the measured number of operations of the run. Models process death, not power loss: completed writes stay.'),
 'C08': ('simulated fork and wait with seeded completion orders, worker deaths and fork failures',
         'exploration', 'Bounded seeded search over worker orders and faults; workers run the real bundle code in the simulated process table.'),
 'C09': ('simulated disk with crashes and failing operations during template loads, followed by fault-free loads',
         'exploration', 'Bounded seeded search over histories; crash points are chosen over the measured number of operations. Process death only, no power loss.'),
 'C10': ('seeded schedules of threads and of simulated processes loading from one directory',
         'exploration', 'Bounded seeded search over interleavings at lines of Cheetah and at file operations.'),
 'C11': ('seeded operation histories and bytecode-level thread schedules, linearizability against a small model',
         'exploration', 'Bounded seeded search; sequential histories are compared step by step, concurrent ones by a linearizability checker. The memcache client is a stub that follows the documented client API.'),
 'C12': ('seeded histories of edits, deletions, broken versions and read faults interleaved with compiles, includes and fills',
         'exploration', 'Bounded seeded search against a model that knows the content of each file at each time.'),
 'C13': ('seeded exceptions and interrupts in user code inside lookups, both implementations, with reference counts audited',
         'exploration', 'Bounded seeded search over search lists and failure points against a small reference lookup.'),
 'C14': ('adversarial random and clock sources during compiles, fills against a reference interpreter',
         'exploration', 'Bounded seeded search over programs and scripted random and clock values.'),
 'C15': ('compiled templates run as programs under failing, short and full-disk reads and prints, deaths, interrupts and damaged data',
         'exploration', 'Bounded seeded search; output and exit status are compared with a small model of the search list. Standard output and data are files; the interpreter around the program is emulated.'),
}
NA = {
 'N01': 'A pure function of source and values: no schedule, clock, I/O or fault takes part, so simulation with fault injection decides nothing that input generation alone would not. (The reference interpreter of C01, C02, C05, C06 and C14 does compare rendered text for the directives it knows.)',
 'N02': 'A pure function of the source text: no concurrency, time or I/O is involved.',
 'N03': 'A pure function of the value: no concurrency, time or I/O is involved.',
}
have = [p for p in sorted(CHECKS)
        if os.path.exists(os.path.join(HERE, 'sim', 'props', p.lower() + '.py'))]
na = [dict(property=k, reason=v) for k, v in sorted(NA.items())]
na += [dict(property=p, reason='Not built yet.') for p in sorted(CHECKS)
       if p not in have]
m = dict(
    version=1,
    setup_cmd='python3 -m py_compile check.py sim/*.py sim/props/*.py',
    checks=[dict(property=p, quick_cmd='python3 check.py %s quick' % p,
                 thorough_cmd='python3 check.py %s thorough' % p,
                 evidence_file='evidence/%s.json' % p,
                 technique=T + CHECKS[p][0], level=CHECKS[p][1],
                 level_note=CHECKS[p][2]) for p in have],
    not_applicable=na,
    notes='No hooks were added to /repo: the simulator replaces the clock, the random source, locks, threads, file operations and process calls from outside. Replay a violation with: python3 check.py <id> --replay <file>.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(have), 'checks')
