import json
T = 'contract-based deductive verification of the real code: contracts on its functions, obligations generated from the LLVM IR of the current source by symbolic execution with rely/guarantee regions and proved inductive invariants, discharged by z3/cvc5; bounded schedule/fault exploration of the real code only as labelled stand-in and replay'
CLAIMED = {
 'P01': 'the reader/writer primitives, the records above them and every lock entry down to them (FlShm::RawLock, FlListFileLock::rawlock, FlListOffLock::rawlock/dolock)',
 'P02': 'the recursive mutex primitives, the named-mutex request above them, its recovery, and the entries by name',
 'P03': 'the status word, the waiter, the condition request above it, wake-up order, recovery, and the entries by name',
 'P04': 'elapsed-time arithmetic, every timed primitive, and the requests above them (what reaches them is the time asked for; a busy or timed-out request is not tried again and leaves no record)',
 'P05': 'the range comparator, file and range lookup, and that an entry is made exactly for the range asked and only where it overlaps no entry of the file; see the known finding for overlapping unequal ranges',
 'P06': 'recovery of records, lock words, mutexes and waiters of dead owners, level by level up to one pass; what is awaited or held by the living is unchanged',
 'P07': 'every list operation, every request and every recovery pass: no unit is outside all lists at a return, failed requests give theirs back; see the known finding for threads that die inside an update',
 'P08': 'the internal list lock primitives and every function that takes or gives back one',
 'P09': 'the query over one entry and over a file, and the entry above it',
 'P10': 'every API entry, the attach check and all four lock entries with no area attached, in each mode',
 'P11': 'identity packing, comparators, name matching, process and descriptor facts with their cache',
 'P12': 'layout, pools, attach, detach, initialisation protocol, destruction and fork handler',
 'P13': 'reinitialisation, environment loading, object initialisation, number conversion, every setter and the initial values',
 'P16': 'the control flag, Run/Stop/Exit, thread creation and re-creation, the event scan, cleanup and the main loop of the worker',
 'P15': 'all I/O helpers, against the contracts of the system calls',
}
NA = {
 'P14': 'the lock-object graph lives in std::map/std::list nodes and C++ objects shared by threads; no installed deductive verifier (and not this IR engine) handles that heap with ownership per object',
 'P17': 'string and list processing through std::string/std::list; the library bodies are out of reach of the verifiers installed here and contracts for them would be a hand-written model',
}
try:
    exec(open('/verif/tools/claims.py').read())
except FileNotFoundError:
    pass
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in sorted(CLAIMED):
    m['checks'].append({'property': p, 'quick_cmd': 'python3-vt check.py --property %s --tier quick' % p, 'thorough_cmd': 'python3-vt check.py --property %s --tier thorough' % p,
        'evidence_file': 'evidence/%s.json' % p, 'technique': T, 'level': 'proof', 'level_note': 'proved for all inputs and iterations: ' + CLAIMED[p] + '. The deciding step is the verifier; schedule exploration of the real code only replays and supplements (reported as bounded). See DESIGN.md and the evidence for the trusted base.'})
for p in sorted(NA):
    if p not in CLAIMED:
        m['not_applicable'].append({'property': p, 'reason': NA[p]})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
