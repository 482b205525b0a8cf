#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S1 = 'deterministic simulation: the whole compiler in one process in a simulated world (heap, file system, devices, clock, callbacks, thread schedule), seeded fault injection, '
T = {
 'C01': S1 + 'memory-safety and termination invariants over seeded allocation-failure histories',
 'C02': S1 + 'result and output refinement against the fault-free run over seeded allocation-failure histories',
 'C03': S1 + 'conservation of allocations, descriptors and mappings over seeded fault histories',
 'C04': S1 + 'histories of faulted and unfaulted compilations, each compared with the same job in a fresh process',
 'C05': 'deterministic simulation: operation histories with seeded allocation failures on the real containers, refinement against reference models',
 'C06': S1 + 'faulty output devices; exit status against bytes accepted by the device',
 'C07': S1 + 'seeded read splitting, interruption and failure; refinement against compiling the same bytes from a file',
 'C08': S1 + 'seeded include graphs and file-system failures; refinement against a reference resolution model',
 'C09': S1 + 'seeded clock advances and jumps during a compilation; single-instant check over the recorded history',
 'C10': S1 + 'seeded heap layouts, fills, clocks and timings; byte equality with a fresh process',
 'C11': S1 + 'seeded preemptive thread schedules at basic-block granularity; each thread compared with running alone',
 'C12': 'deterministic simulation: seeded interleavings of error histories over threads, refinement against a per-thread reference model',
 'C13': S1 + 'seeded callback failures at every hook; error-code propagation check',
 'C14': 'deterministic simulation: kefir-compiled programs under a single-step scheduler with seeded asynchronous interruptions, compared with an uninterrupted run',
 'C15': 'deterministic simulation: kefir-compiled threads under a single-step scheduler with seeded preemption, compared with running alone',
 'C16': 'deterministic simulation: kefir-compiled stores under a single-step scheduler with a seeded concurrent writer of neighbouring locations; lost-update check',
 'C17': 'deterministic simulation: volatile objects on a simulated device page with seeded values; access sequence refined against the program\'s reference access sequence',
 'C18': S1 + 'seeded damage of source files; safety and termination invariants',
}
NOTE = 'seeded exploration of schedules and faults; every run is repeatable from its seed, no claim beyond the runs explored (counts in the evidence file)'
BUILT = set(open(os.path.join(V, 'tools', 'BUILT')).read().split())
NA = {
 'C30': 'a pure function of the program text: no schedule, clock, I/O, crash or fault for a simulator to vary; it needs language-semantics testing or proof, not simulation',
 'C31': 'a static agreement between two compilers on layouts and calling sequences: nothing nondeterministic to simulate',
 'C32': 'a pure function of an expression: nothing nondeterministic to simulate',
 'C33': 'a pure function of the source text: nothing nondeterministic to simulate',
 'C34': 'a pure function of the source text: nothing nondeterministic to simulate',
 'C35': 'a pure function of the source text: nothing nondeterministic to simulate (that dumps are complete under device faults and identical between runs is decided in C06 and C10)',
 'C36': 'a deterministic two-stage build comparison: nothing nondeterministic to simulate; the repository\'s own bootstrap test is the right tool',
}
m = {'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': 'none (no hook was needed in /repo: seams are the allocator, locator and extension interfaces and libc symbols redirected at link time)', 'enable': 'tools/build_s1.sh compiles /repo\'s sources unchanged and redirects libc symbols of the relocated objects', 'source_commits': []}, 'checks': [], 'not_applicable': []}
for p in sorted(T):
    if p in BUILT:
        tool = 'gen.py' if p in ('C14', 'C15', 'C16', 'C17') else 'check.py'
        m['checks'].append({'property': p, 'quick_cmd': 'python3 tools/%s %s --tier quick' % (tool, p), 'thorough_cmd': 'python3 tools/%s %s --tier thorough' % (tool, p), 'technique': T[p], 'level': 'exploration', 'level_note': NOTE})
    else: m['not_applicable'].append({'property': p, 'reason': 'machinery not built yet'})
for p in sorted(NA): m['not_applicable'].append({'property': p, 'reason': NA[p]})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
