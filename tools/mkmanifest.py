"""Writes MANIFEST.json from the claims below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'translation_validation'
SUM = 'summary computed by abstract interpretation of the MIR, compared with the summary of a reference function over all inputs'
NOTE = ('Sound up to the trusted base (MIR construction, models of std calls, the abstract interpreter); terms whose normal forms differ are compared by random interpretation, '
        'so an accepted difference has small but nonzero probability. Obligations the analysis cannot decide are listed as undecided and raise no alarm.')
# property -> (technique, level, note)
C = {}
for i in ('C02', 'C03', 'C04', 'C05', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C17', 'C18', 'C19', 'C20', 'C22', 'C23', 'C26', 'C27', 'C28', 'C30'):
    C[i] = (SUM, TV, NOTE)
C['C06'] = ('abstract interpretation of the MIR; the summary of the evaluation must equal the closed formula, plus reference comparison', TV, NOTE)
C['C21'] = ('abstract interpretation of each comparison to a condition term, decided on one representative per interval of the difference', 'proof', NOTE)
SHAPE = ('shape analysis: abstract interpretation of the MIR over every aliasing case of the moved positions in concrete list shapes with symbolic data; '
         'the predicted change, the resulting lists and the cached values are compared as terms with those of the new customer sequences')
SHN = ('The list shapes are bounded (the moves are loop-free apart from the refresh walk and the reversal, and read only the neighbourhood of their arguments); distances, demands, loads and '
       'penalty are symbolic and unbounded. ' + NOTE)
C['C07'] = (SHAPE, TV, SHN)
C['C08'] = (SHAPE, TV, SHN)
C['C09'] = C['C24'] = C['C25'] = (SHAPE + '; reference functions for the loops', TV, SHN)
C['C01'] = ('call-graph inventory of entropy, hash-key and clock sources, implication of their path conditions, whole-program data flow of clock values, and reference comparison of the seeding functions', 'proof',
            'Sound up to the trusted base (MIR construction, the call graph, the std models): a clock or entropy source reached only through a dependency that is not listed in checks/c01.py is not seen.')
C['C16'] = ('pairing of keys and settings in the MIR of the derived conversions, read/write inventory of every setting, ' + SUM, TV, NOTE)
C['C29'] = ('use analysis of every Result that carries an input or output failure (failure edges, adapters, closures, byte counts, buffered writers) over the MIR of library and program, and reference '
            'comparison of the conditions under which the functions that do input or output end abnormally', 'other',
            'Values of type Result are judged by their uses, without regard to the path on which a use lies; a result handed to code the rule does not know is listed as undecided. ' + NOTE)
C['C31'] = ('summaries of the raw-memory primitives (offset, extent, allocation, release) compared with the closed formulas; in every function that reads or writes tables the condition under which '
            'an access leaves its table, collected by the abstract interpreter, must imply that of the reference function, whose dimensions and index ranges are the same', TV,
            'That the reference never leaves its tables follows from the dimensions it gives them and the ranges of its loops; it was checked by hand, not by the tool. ' + NOTE)
LATER = 'no check yet: the analysis of this part is under construction'
NA = {
    'C90': 'optimality over all cuts of a tour is a statement about a minimum over exponentially many alternatives at run time; no static rule in reach bounds it (C26 decides the segment costs, the queue operations and the reconstruction)',
    'C91': 'solution quality is an empirical quantity of runs, not decidable from the source',
    'C92': 'the accumulated floating-point error depends on run length and magnitudes; no static bound below the tolerance is in reach',
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in C:
        t, l, n = C[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'static analysis: ' + t, 'level': l, 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, LATER)})
m = {'version': 1, 'setup_cmd': 'python3 /verif/sa/facts.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check analyses the MIR that the pinned nightly compiler produces from /repo\'s working tree; nothing of /repo is executed. The feature "wasm" cannot be built offline and is not analysed.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
