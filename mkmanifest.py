#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json
from checks import CHECKS
TECH = {
 'C01': 'bounded-exhaustive execution of the real solver over an alphabet of problems and configurations, reference rollout as model',
 'C02': 'bounded-exhaustive execution of the real solver, trace automaton and cost recomputation as model',
 'C03': 'bounded-exhaustive execution of the real solver, exact optimum (dense elimination) / adjoint gradient as model',
 'C04': 'bounded-exhaustive execution of the real solver, exact box-constrained optimality as model',
 'C05': 'explicit-state protocol model explored in lock-step with the real solver under an adversarial environment (all answer sequences)',
 'C06': 'exhaustive product grids on the real code against exact minimiser by active-set enumeration',
 'C07': 'exhaustive product grids on the real code against a status / trace automaton',
 'C08': 'bounded-exhaustive execution of the real solver, independent KKT recomputation as model',
 'C09': 'bounded-exhaustive execution of the real solver, dense Newton system as step model',
 'C10': 'bounded-exhaustive execution of the real solver with invariant monitor after every iteration',
 'C11': 'bounded-exhaustive execution of the real solver, independent merit function and backtracking model',
 'C12': 'bounded-exhaustive execution of the real solver against exact optimum by active-set enumeration',
 'C13': 'exhaustive malformed-call sequences on the real solver, fresh-object differential model',
 'C14': 'exhaustive dimension patterns on the real solver, equivalent fixed-dimension instance as model',
 'C15': 'exhaustive single and persistent fault injection at every callback index of the real solver',
 'C16': 'exhaustive call histories on real objects, fresh object as model at every step',
 'C17': 'stateless model checking of interleaved real solves under a controlled scheduler (bounded preemptions), plus controlled clock and memory',
 'C18': 'exhaustive product grids on the real code against exact minimal residuals over Krylov spaces',
 'C19': 'exhaustive product grids on the real code against the written-out method',
 'C20': 'bounded-exhaustive execution of the real solver, independent costate recursion as model',
 'C21': 'bounded-exhaustive control-step histories of the real solver, exact continuation equation as model',
 'C22': 'bounded-exhaustive setup/run/control histories of the real solver, simulated reference loop and fresh object as models',
 'C23': 'bounded-exhaustive execution of the real solver under a controlled clock, exact time attribution as model',
}
NOTE = ('Every execution of the stated bounded space runs on the real code compiled from the current tree and is judged '
        'by an independent model; the space is exhausted in the quick bound, nothing is sampled. Trusted: compiler, '
        'Eigen, the reference models in harness/. Not covered: larger dimensions and horizons, effects below tolerance.')
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[],
         notes='Checks compile /repo headers and sources into scratch folders below /verif/build; no hooks in /repo.')
for k in sorted(CHECKS):
    m['checks'].append(dict(property=k, quick_cmd='python3 run.py %s' % k, thorough_cmd='python3 run.py %s --thorough' % k,
                            evidence_file='evidence/%s.json' % k, technique=TECH[k], level=CHECKS[k]['level'], level_note=NOTE))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
