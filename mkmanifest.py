#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
NOTE = {
 'C01': ('metamorphic property-based testing of insertion histories (proptest), with register probing',
         'Compares histories with the canonical one on the real crate, no model of the estimator; probing exposes single registers (all at small precisions, a sample at large ones).'),
 'C02': ('metamorphic property-based testing of merge trees against direct insertion of the union (proptest)',
         'Every mix of buffered, sparse and dense operands; later insertions, merges and probes compared too.'),
 'C03': ('property-based testing with untouched twins (proptest)',
         'Precision pairs, representations and histories are sampled; the twins are driven through the same later operations and probed.'),
 'C04': ('model-based property testing against a reference HyperLogLog estimator (proptest)',
         'The reference model is trusted; it was written from the paper. Estimates within rounding of a regime boundary may fall on either side.'),
 'C05': ('model-based property testing against a reference HLL++ estimator with its own tables (proptest)',
         "Trusts the model and the committed copy of Google's tables (themselves checked for plausibility at start)."),
 'C06': ('model-based property testing of the sparse list and its conversion, with differential dense twins (proptest)',
         'Trusts a model of the list size (sorted differences, 7 bits per byte) and limit (bytes of the dense registers).'),
 'C07': ('property-based round-trip testing over six serde encodings with twins (proptest)',
         'serde_json, bincode and serde_cbor are trusted; formats other than these are not exercised.'),
 'C08': ('statistical property testing over generated random hash streams (proptest)',
         'Limits are set at about 7 to 9 standard deviations plus a stated allowance for the bias of the original algorithm: deviations below that stay unseen.'),
 'C09': ('exhaustive enumeration of the 256 precisions plus property-based use at each (proptest)',
         'Precisions are exhaustive, use of the sketch is sampled.'),
 'C10': ('property-based robustness testing with adversarial hashes and operation sequences, overflow checks on (proptest)',
         'Sampled sequences, biased to extreme ranks and saturated registers.'),
 'C11': ('metamorphic property testing over typed values, hashers and entry points (proptest)',
         'A fixed list of value types and hashers; values are generated.'),
 'C12': ('property-based testing of clones against independently built twins (proptest)',
         'Sampled histories; probes after them.'),
 'C13': ('property-based testing with a counting allocator (proptest)',
         'Bounds are generous constants times the number of registers or distinct values, calibrated at twice what was measured for what is kept, with more room for what is freed again.'),
 'C14': ('differential property testing of two builds in separate processes (proptest)',
         'Same programs in a default and a const-loop process; agreement up to rounding.'),
 'C15': ('differential property testing of std and no_std builds in separate processes (proptest)',
         'The no_std programs bring their own allocator and panic handler, so the crate must not pull in std; hosted x86_64 only.'),
 'C16': ('property-based testing of the evaluation program against the library and a reference model (proptest)',
         'Generated files and parameters in a scratch directory; random generation is judged by size, range and plausibility.'),
 'C17': ('property-based testing of the experiment script (Hypothesis)',
         'Statistics recomputed exactly with fractions; commands recorded by a stand-in executable; matplotlib is not installed and replaced by an inert module.'),
 'C18': ('property-based testing of the experiment script with a recording plotting library (Hypothesis)',
         'matplotlib is not installed: what is drawn is judged from the calls made to a stand-in for it, not from pixels.'),
 'C19': ('differential property testing of serialization between four builds of the crate in separate processes (proptest)',
         'JSON for the no_std builds, JSON, bincode and CBOR for the std ones; hosted x86_64 only.'),
 'C20': ('property-based testing of concurrent histories against sequential ones (proptest), Send and Sync judged by the compiler',
         "Thread schedules are the operating system's and are sampled, not controlled."),
 'C21': ('property-based testing with an allocator that counts all memory asked for (proptest)',
         'Limits are generous constants, ten times what was measured or more: another algorithm may be less thrifty.'),
 'C22': ('differential property testing against stored sketches written by a frozen copy of the crate (proptest)',
         'The frozen copy in /verif/frozen is the code of /repo when the checks were written; JSON, bincode and CBOR.'),
 'C23': ('property-based testing with injected failures of values, hashers, builders, writers and readers (proptest)',
         'Failures of the allocator end the process and are not covered; damaged (not just cut off) data neither.'),
 'C24': ('differential property testing of one program on three platforms (proptest; WebAssembly; Miri as interpreter)',
         'wasm32 (Node) stands for 32-bit targets, s390x interpreted by Miri for big-endian ones (small programs).'),
 'C25': ('differential property testing of two build profiles in separate processes (proptest)',
         'Same programs with and without debug assertions and overflow checks; agreement up to rounding.'),
 'C26': ('property-based testing with the processor time of operation series as the oracle (proptest)',
         'Limits are eight times what was measured or more, in units of work done on the same machine, and the least of five '
         'measurements counts: growth out of proportion is found, a constant factor is not.'),
}
json.dump({
 'version': 1,
 'setup_cmd': './check.py --setup',
 'checks': [{
   'property': p, 'quick_cmd': './check.py %s' % p, 'thorough_cmd': './check.py %s --tier thorough' % p,
   'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'exploration', 'level_note': n,
 } for p, (t, n) in NOTE.items()],
 'not_applicable': [],
 'notes': 'No hooks in /repo. All checks drive public interfaces only.',
}, open('MANIFEST.json', 'w'), indent=1)
