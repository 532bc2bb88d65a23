#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: seeded search over schedules, store-buffer delays and faults of the real code'
NOTE = {
 'C01': 'Random fork-join programs; every task instance is logged by a reference model (starts, ends, result, sync).',
 'C02': 'Parents write data before SPAWN and read children\'s data after SYNC; x86-TSO store buffers with adversarial delays.',
 'C03': 'All arities of lace and lace14, void and non-void, C and C++, through every entry point; every argument and result is checked.',
 'C04': 'Programs that mix SYNC and DROP; dropped unstolen tasks must not run, dropped stolen ones must have ended.',
 'C05': 'Several external threads RUN concurrently, also while workers suspend and resume.',
 'C06': 'RUN and RUNEX from several external threads, overlap is checked against the event history.',
 'C07': 'NEWFRAME from inside and outside tasks, in programs with work in progress.',
 'C08': 'TOGETHER from inside and outside tasks, with and without results.',
 'C09': 'Many NEWFRAME/TOGETHER calls at the same time and inside each other, with external RUNs.',
 'C10': 'Barriers inside TOGETHER bodies, generation counting per worker.',
 'C11': 'lace_suspend/lace_resume pairs interleaved with RUNs from several threads; all workers must be asleep and awake when they should be.',
 'C12': 'Repeated start/stop with different worker counts and queue sizes; memory, threads and semaphores must be returned.',
 'C13': 'Programs under unfair schedules with workers frozen for long; progress within a bounded number of steps once schedules are fair.',
 'C14': 'Tasks that wait for each other can only end if idle workers steal what is shared.',
 'C15': 'Programs that need exactly the capacity, and programs that exceed it by one.',
 'C16': 'Every allocation and thread creation of lace_start fails in some run.',
 'C17': 'EINTR, spurious wake-ups and spuriously failing weak compare-exchanges are injected everywhere.',
 'C18': 'lace_get_worker, lace_get_head, LACE_VARS, worker ids at random points of random programs.',
 'C19': 'Builds with counters and pie times: the printed report is compared with what the simulator counted, with clock faults.',
 'C20': 'Every access of the code is checked against allocated, live, initialised memory; frees and double frees are tracked.',
 'C23': 'hwloc builds against a stub of hwloc with simulated topologies and failing bindings; which thread is bound where, when, and what is released is checked.',
 'C24': 'Programs that query task status at random moments between SPAWN and SYNC, from C and C++.',
 'C25': 'Sessions with random settings; stack sizes of created threads, reported numbers and printed lines are checked.',
 'C21': 'The shipped example programs with small inputs, results compared with known answers.',
}
NA = {
 'C22': 'a pure function of the committed text (generator output equals committed headers): no schedule, clock, fault or interleaving for a simulation to decide',
}
def main():
    claimed = sorted(NOTE); na = NA
    m = dict(version=1, setup_cmd='python3 tools/build.py',
        checks=[dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py %s --tier thorough' % p, technique=TECH, level='exploration',
            level_note=NOTE[p] + ' Sampled, not exhaustive; real compiled code of src/, machine, threads, memory and clocks simulated under x86-TSO; assumes programs keep the documented API contract.') for p in claimed],
        not_applicable=[dict(property=p, reason=r) for p, r in sorted(na.items())],
        notes='No hooks in /repo: the seams are the compiler\'s thread-sanitizer callbacks and renamed library symbols, applied when /verif builds the sources of /repo.')
    with open(V + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
main()
