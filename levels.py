_T = 'Trusts: Python, lxml, Cryptodome, argon2 primitives and the reference model/codec in mc/. '
_B = 'explicit-state breadth-first search over API histories of the real code, compared with a reference model after every step'
_E = 'exhaustive enumeration of a finite product of inputs on the real code, compared with an independent reference'
NOTE = {
 'C01': (_E + '; generations of save/reopen', _T + 'Exhaustive over the listed value classes, sizes and configurations; values outside the classes are covered only by their representative.'),
 'C02': ('fault enumeration: every file-system call of save x every fault (kill before/after/torn write, error, short write), all pairs at depth 2', _T + 'Process crash and I/O errors; power loss (no fsync) is out of scope.'),
 'C03': (_E + ' (full matrix of credential pairs) and breadth-first search over credential histories', _T + 'Exhaustive over the credential alphabet and history depth stated in the evidence.'),
 'C04': ('fault enumeration: every bit flip, every truncation, every block permutation/deletion/duplication and header edit of stored files', _T + 'Exhaustive single faults of the listed files; content compared with what was saved.'),
 'C05': (_E + ' (independent KDBX codec in both directions)', _T + 'Exhaustive over the listed layouts; the reference codec was validated against the files shipped with the repository.'),
 'C06': (_B, _T + 'Complete to the stated depth from the stated start states.'),
 'C07': (_E + ' (databases x queries against a Python search oracle)', _T + 'Complete over the query and content alphabets; empty-string and None criteria are unspecified and not judged.'),
 'C08': (_B, _T + 'Complete to the stated depth from the stated start states (0, 3 and 12 binaries).'),
 'C09': (_B, _T + 'Complete to the stated depth from the stated start states (0, 3 and 12 snapshots).'),
 'C10': (_E + '; all ordered pairs of writes; breadth-first search over write histories', _T + 'Complete over the text alphabet and all attributes.'),
 'C11': (_E + ' (instants x offsets x attributes x formats x zones)', _T + 'Clock is substituted by a controlled one for expiry boundaries.'),
 'C12': (_E + ' (all reference graphs up to the stated size)', _T + 'Complete over reference graphs within the bound.'),
 'C13': (_B, _T + 'Complete to the stated depth from the stated start states.'),
 'C14': ('exhaustive product of failing calls x reachable states on the real code; full state comparison before/after', _T + 'Complete over the catalogue of failing calls.'),
 'C15': ('exhaustive interleavings of histories on several databases; preemption-bounded systematic thread schedules', _T + 'Complete within the preemption bound and history lengths stated in the evidence.'),
 'C16': ('exhaustive ordered pairs of read/search/save operations on the real code with full state comparison', _T + 'Complete over the catalogue of read operations.'),
 'C17': (_B + '; saved files searched for secrets', _T + 'Complete to the stated depth; secrecy means: only as inner-stream ciphertext.'),
 'C18': (_E + ' (all creation argument classes)', _T + 'The expensive key derivation of the shipped template limits the number of cases.'),
 'C19': (_E + ' (all configurations x accessors)', _T + 'Complete over configurations.'),
 'C20': (_E + ' (foreign content at every position x edits)', _T + 'Complete over positions, content kinds and edit operations.'),
 'C21': (_E + ' (key file contents x ways of passing them)', _T + 'Complete over the content classes and lengths stated in the evidence.'),
 'C22': (_B + ' (exported document, parsed independently, compared with the saved file and the model); exhaustive products of values and styles', _T + 'Complete to the stated depth and over the text alphabet.'),
 'C23': (_B + ' (all pairs of handles); exhaustive pairs of identifiers', _T + 'Complete to the stated depth; snapshots with equal modification time are not distinguished.'),
 'C24': ('fault enumeration: every file-touching call x sources/targets x outcome, and a failure of every function call of the package in between', _T + 'Complete over the listed calls; descriptors observed in /proc.'),
}
