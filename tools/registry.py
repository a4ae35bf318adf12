import checks_hex, checks_a2l, checks_api, checks_cal

CHECKS = {
    'C01': checks_hex.c01,
    'C02': checks_hex.c02,
    'C03': checks_hex.c03,
    'C04': checks_hex.c04,
    'C05': checks_hex.c05,
    'C06': checks_a2l.c06,
    'C07': checks_a2l.c07,
    'C08': checks_a2l.c08,
    'C09': checks_a2l.c09,
    'C10': checks_a2l.c10,
    'C11': checks_cal.c11,
    'C12': checks_cal.c12,
    'C13': checks_cal.c13,
    'C14': checks_api.c14,
    'C15': checks_api.c15,
    'C16': checks_a2l.c16,
    'C17': checks_a2l.c17,
}

TRUST = ' Trusted: the Go runner that reports the results, the text generators (they only choose inputs) and TLC.'
HEXT = 'TLA+/TLC: exhaustive model of the parallel pipeline (HexPipe) against the reference semantics (HexSem), its terminal states and generated files replayed on the real parser, outcomes judged by TLC (HexTrace)'
HEXN = 'All files of up to 4 (thorough 5) lines over a line alphabet, all worker counts 1..3 (4) and all interleavings in the model; conformance of the real code on all of these plus generated files of up to 1800 records with many worker counts. Bounded: real interleavings are sampled, not enumerated.' + TRUST
A2LT = 'TLA+/TLC: grammar, lexical rules and push down semantics of ASAP2 files as a specification (A2LGrammar, A2LLex, A2LSem); files derived from the grammar run through the real parser with several worker counts, every result judged by TLC (A2LTrace)'
A2LP = '; exhaustive model of the tokenizer and module parser routines (A2LPipe) on all small files, replayed on the real parser'
APIT = 'TLA+/TLC: look ups and layouts specified on top of the file semantics (A2LApi), real answers on generated files judged by TLC'
CALT = 'TLA+/TLC: design model of callers, shared parser state and the reader routines of ReadCalibration (CalModel), its call programs replayed on the real code, every history judged by TLC against the semantics of the files (CalSem, CalTrace) and its unordered accesses to shared state (Order)'
A2LN = 'Bounded: the specification is interpreted on every generated file (hundreds to thousands per run, seeded); real interleavings are sampled through worker counts, repetition and goroutines held up at inserted scheduling points, all of them only in the model.' + TRUST
META = {
    'C01': (HEXT, HEXN), 'C02': (HEXT, HEXN), 'C03': (HEXT, HEXN), 'C04': (HEXT, HEXN), 'C05': (HEXT, HEXN),
    'C06': (A2LT + A2LP, A2LN), 'C07': (A2LT + A2LP, A2LN), 'C08': (A2LT, 'Every ordered pair of keywords of every block plus random files. ' + A2LN),
    'C09': (A2LT + A2LP, 'Every parameter of every attribute left out, every keyword in blocks that do not allow it (sampled in the quick tier), random structural defects, truncation. ' + A2LN),
    'C10': (A2LT, A2LN), 'C11': (CALT, A2LN), 'C12': (CALT, 'All histories of three calls and all pairs of callers in the model. ' + A2LN),
    'C13': ('TLA+/TLC: termination (deadlock freedom and liveness) of the design models, and the outcome of every real call on arbitrary, damaged and degenerate inputs judged by TLC (Total)', A2LN),
    'C14': (APIT, A2LN), 'C15': (APIT, 'All pairs of components with equal positions plus random subsets. ' + A2LN),
    'C16': (A2LT, 'Every enumeration value and boundary numbers at every place, illegal words at every place. ' + A2LN), 'C17': (A2LT, A2LN),
}
NA = {}
