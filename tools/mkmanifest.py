#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
T = {
 'C01': 'deterministic simulation: seeded client threads over shared persistent values, with call-back, memory and interrupt faults; every value audited against the model it had when made',
 'C02': 'deterministic simulation: refinement of plist/llist histories against builtin list models under seeded schedules and faults',
 'C03': 'deterministic simulation: refinement of pset histories against builtin set models under seeded schedules, hash functions and faults',
 'C04': 'deterministic simulation: refinement of pdict/ldict histories against builtin dict models under seeded schedules, hash functions and faults',
 'C05': 'deterministic simulation: tlist/tllist edit histories with injected call-back failures, refined against a builtin list',
 'C06': 'deterministic simulation: tset edit histories with injected call-back failures, refined against a builtin set',
 'C07': 'deterministic simulation: tdict/tldict edit histories with injected call-back failures, refined against a builtin dict',
 'C08': 'deterministic simulation: seeded histories of freezes, thaws and copies on several threads; every relative of an edited collection audited',
 'C09': 'deterministic simulation: bytecode-level seeded scheduling of threads forcing shared lazies, invariants checked inside the lazy functions',
 'C10': 'deterministic simulation with failing lazy functions and interrupts injected at evaluation and lock points; attempts and errors checked over the history',
 'C11': 'deterministic simulation of lock waits over acyclic lazy graphs: deadlock detection and bounded progress after faults stop',
 'C12': 'deterministic simulation: function calls of lazies attributed to the operation that made them; refinement against fully evaluated models',
 'C13': 'deterministic simulation with a fault in most operations (call-back, memory, interrupt at a seeded point), state before and after compared, then retry',
 'C14': 'deterministic simulation: interleaved iterator steps and edits, refined against an iterator model',
 'C15': 'deterministic simulation of restarts with a simulated disk, torn and lost writes and changed key hashing, plus chains of real interpreter restarts with seeded hash seeds',
 'C16': 'deterministic simulation: twins built by different histories compared and hashed under seeded schedules and failing call-backs',
 'C17': 'deterministic simulation: renderings of simulated histories, raced with lazy evaluation and failing item renderings, judged against an independent reading of the format',
 'C18': 'deterministic simulation: cost on the simulated clock (instructions of the package per operation) and peak memory, over seeded histories, schedules and faults on collections of thousands of items',
 'C19': 'deterministic simulation: weak references to every element and lazy argument of a seeded history with faults; after clients drop handles, only what the kept collections show may be alive',
 'C20': 'deterministic simulation: seeded histories with faults on minimal implementations of the abstract base classes and on plain subclasses, refined against builtin containers',
}
NOTE = ('Seeded search, not proof: every run is one forked interpreter running the real package from /repo under the '
        'simulator (bytecode-level baton scheduling, simulated locks and clock, injected faults); failures are minimised '
        'and replayed in a fresh process. phamt (C) runs for real and is atomic, as under the GIL.')
EXTRA = {
 'C15': ' Pickle bytes cross real process restarts in the chains; in the simulated part the disk is a list of byte strings.',
 'C05': ' Crashes inside an edit of a transient (memory, interrupts) are injected but the transient is then dropped: no claim is made on it.',
 'C06': ' Edits are failed through call-backs; interrupts inside an edit of a transient are not claimed.',
 'C07': ' Edits are failed through call-backs; interrupts inside an edit of a transient are not claimed.',
 'C18': ' Work inside the C library shows up as memory only; bounds have wide margins (about 5x) over the measured costs and are far below one step or 8 bytes per item.',
 'C11': ' Liveness is progress within a bounded number of steps and absence of a state in which no task can run.',
}
d = {'version': 1, 'setup_cmd': f'{PY} -c "import phamt, sys; assert sys.version_info[:2] >= (3, 12)"',
     'checks': [{'property': p, 'quick_cmd': f'{PY} check.py {p} --tier quick',
                 'thorough_cmd': f'{PY} check.py {p} --tier thorough',
                 'technique': t, 'level': 'exploration', 'level_note': NOTE + EXTRA.get(p, '')} for p, t in T.items()],
     'not_applicable': []}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
