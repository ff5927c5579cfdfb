#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
inp = "bounded-exhaustive model checking of the real encoders against a reference semantics"
hist = "explicit exploration of all operation histories of the real code next to a reference model"
T = {
 'S01': (inp, 'exploration'), 'S02': (inp, 'exploration'), 'S03': (inp, 'exploration'), 'S04': (inp, 'exploration'),
 'S05': (inp, 'exploration'), 'S06': (inp, 'exploration'), 'S07': (inp, 'exploration'),
 'S08': ("exhaustive exploration of pairs of atoms sharing auxiliary variables", 'exploration'),
 'S09': ("exhaustive exploration of all formulas of a grammar up to a depth", 'exploration'),
 'S10': ("exhaustive exploration of quantified formulas over all small trees", 'exploration'),
 'S11': ("exhaustive exploration of declaration structures and valuations", 'exploration'),
 'S12': ("exhaustive exploration of name choices in quantified formulas", 'exploration'),
 'K05': ("exhaustive exploration of encoding sequences in one context next to a reference semantics", 'exploration'),
 'I01': ("exhaustive exploration of queries with observed inputs", 'exploration'),
 'E01': ("bounded-exhaustive exploration of query shapes and sizes", 'exploration'),
 'C01': ("exhaustive exploration of queries and histories of evaluations on several implementations of the context", 'model_checking'),
 'G01': ("exhaustive exploration of queries under several families of name generators", 'exploration'),
 'M10': ("exhaustive exploration of step outcomes and surroundings", 'fault_enumeration'),
 'M09': ("exhaustive exploration of step outcomes and faults", 'fault_enumeration'),
 'N01': ("exhaustive exploration of all small formulas and assignments", 'exploration'),
 'N02': (hist, 'model_checking'), 'N03': (hist, 'model_checking'),
 'N04': ("exhaustive exploration of small formulas, text parsed back", 'exploration'),
 'N05': ("exhaustive fault injection at every write offset", 'fault_enumeration'),
 'N06': (hist, 'model_checking'),
 'K01': (hist, 'model_checking'), 'K02': (hist, 'model_checking'), 'K03': (hist, 'model_checking'),
 'K04': ("exhaustive exploration of small instances", 'exploration'),
 'M01': ("exhaustive exploration of solver endings and histories", 'fault_enumeration'),
 'M02': ("exhaustive exploration of solver output layouts", 'exploration'),
 'M03': ("exhaustive exploration of step outcomes and faults", 'fault_enumeration'),
 'M04': ("exhaustive exploration of combinator trees and atom outcomes", 'exploration'),
 'M05': ("stateless model checking of the optimisation loop: every solver choice at every call", 'model_checking'),
 'M06': ("stateless model checking of the optimisation loop: every solver choice at every call", 'model_checking'),
 'M07': ("exhaustive fault injection at every solver call of every explored run", 'fault_enumeration'),
 'M08': ("bounded-exhaustive end-to-end exploration through solver processes", 'exploration'),
 'R01': ("exhaustive exploration of malformed arguments and nestings", 'exploration'),
 'T01': ("stateless exploration of interleavings up to two preemptions under a controlled scheduler", 'model_checking'),
}
note = {
 'S': "Exhaustive over the stated trees, instances, argument forms and formulas (small scope); satisfiability under each enumerated assignment is evaluated by the harness's own search engine (self-tested against truth tables). Trusts the Go toolchain and the reference definitions.",
 'N': "Exhaustive over small formulas, operation histories or write offsets, on the real package; reference is a truth table, a list model or a byte model.",
 'K': "Exhaustive over operation histories (or instances) within the stated bound, on the real context.",
 'M': "Exhaustive over the stated solver behaviours, which come from a scripted solver process or an in-process solver implementing the Solver interface; assumes solvers follow the exit status and output conventions.",
 'C': "Exhaustive over the stated queries, histories and context implementations; further implementations of the contract are not covered.",
 'G': "Exhaustive over the stated queries and families of generators; further families are not covered.",
 'R': "Exhaustive over the listed malformations and nestings.",
 'I': "Exhaustive over the stated queries; writes are seen by comparing every slice handed in, spare capacity included.",
 'E': "Exhaustive over the stated shapes and sizes; a growth rate is judged by wide polynomial bounds at these sizes, not proved.",
 'T': "Exhaustive over schedules of the stated pairs of evaluations with at most two preemptions at context or solver calls and, by a build of the code with a point before every statement (go build -overlay), before statements (every occurrence for one preemption, the first and last of each statement for two); interleavings within a statement are left to the race detector pass (free running).",
}
checks = []
for l in open(os.path.join(here, 'properties.jsonl')):
    i = json.loads(l)['id']
    t, lv = T[i]
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
        technique="model checking: " + t, level=lv, level_note=note[i[0]]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
 notes="No hooks in /repo: every check drives the public API. Known findings: KNOWN_FINDINGS. Replay of a failing case: MC_VERIF=/verif .build/mc replay ID TIER CASE.")
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
