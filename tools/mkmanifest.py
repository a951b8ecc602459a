import json, os
T = {
 'P01': ('seeded simulation of whole runs with injected extreme draws, stalls, non-finite callbacks; invariant on every evaluation and row', ''),
 'P02': ('seeded simulation of run histories; rows checked against the recorded history of evaluations and steps', ''),
 'P03': ('seeded simulation with controlled random source; step-by-step refinement against an executable reference model', 'decisions within rounding of a tie are left undecided and counted'),
 'P04': ('paired seeded simulations of one seed in different surroundings (clock, entropy, stalls, logging, printing)', ''),
 'P05': ('seeded simulation over the simulated file layer; logs read back during and after the run against the chain', ''),
 'P06': ('seeded crash and I/O fault injection at every disk operation, restart, then prefix check of what is readable', 'one recorded finding: a crash inside one HDF5 library flush'),
 'P07': ('seeded simulation of histories of fresh, continued, repeated and interrupted runs against the reference model', ''),
 'P08': ('seeded crash and I/O fault injection into saves and reloads; round trip and restart against memory', ''),
 'P09': ('seeded schedules of a simulated process pool with exceptions, stalls and exits in chains; per-chain refinement', 'the process pool is the simulator\'s (pickling at the boundary, forked random state); user code and package are real'),
 'P10': ('seeded schedules of a simulated process pool; draw histories compared across chains and paired executions', 'as P09'),
 'P11': ('seeded simulation of parallel runs, then loading under random listing order and stray entries against memory', 'as P09'),
 'P12': ('seeded simulation with controlled random source; reference recursion of the adaptation over the recorded history', 'numerically singular proposals are left undecided and counted'),
 'P13': ('seeded simulation with controlled random source; error variance draws recomputed by a reference model', ''),
 'P14': ('seeded simulation with a virtual clock (rates, jumps, stalls); printed output parsed against the history', ''),
 'P15': ('seeded exception injection at every user function call in histories of runs', ''),
 'P16': ('seeded simulation of run histories; counters recomputed from the recorded history', ''),
 'P17': ('seeded simulation with controlled random source and callback faults; intervals recomputed from recorded draws and calls', ''),
 'P18': ('seeded simulation of run histories; calls of custom samplers and hand-over checked on the recorded history', ''),
 'P19': ('seeded schedules of several objects (concurrent, alternating, nested) against each object alone', ''),
}
checks = []
for k in sorted(T):
    t, note = T[k]
    checks.append(dict(property=k, quick_cmd='./run.sh %s' % k, thorough_cmd='./run.sh %s --tier thorough' % k, technique='deterministic simulation with fault injection: ' + t,
                       level='exploration',
                       level_note='Samples seeded runs of the real code under the simulator; a clean batch is evidence, not proof.' + (' ' + note[0].upper() + note[1:] + '.' if note else '')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
         not_applicable=[
             dict(property='P20', reason='Chain statistics are pure functions of an array: no schedule, clock, fault, I/O or history for a simulator to vary. (That computing them does not alter a chain or a simulation is part of P04.)'),
             dict(property='P21', reason='Plotting functions are pure functions from arrays to figures: no schedule, clock, fault, I/O or history for a simulator to vary.')],
         notes='No hooks in /repo: every seam (random numbers, clock, files, HDF5 file object, directory listing, process pool) is patched from /verif/sim/seams.py and pool.py before the package is imported. Replay: ./run.sh <property> --replay <file>.')
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
