BYTES = 'exhaustive bounded enumeration of input byte strings, each compared with an explicit state-machine model of the decoder'
TRUST = 'Exhaustive within the bounds listed in the evidence (short strings complete; longer ones over reduced alphabets, head/length/nesting sweeps, contexts, edit neighbourhoods). Trusts the reference model in mc/core/src/model.rs; nothing is claimed outside the bounds.'
VALS = 'exhaustive bounded enumeration of values, each encoded and compared with a reference encoder'
TYPED = 'exhaustive bounded enumeration of (type, value) and (type, data item) pairs run on the real code and compared with an executable reference semantics'
TT = 'Exhaustive over the listed types, values and edit neighbourhoods, within the bounds in the evidence. Trusts the reference semantics in mc/typed/src/schema.rs; nothing is claimed for other types.'
DER = 'exhaustive enumeration of generated type declarations (shapes x attributes) and, per type, bounded enumeration of values run on the real derived code and compared with an executable reference semantics'
DERI = 'exhaustive enumeration of generated type declarations (shapes x attributes) and, per type, bounded enumeration of data items (every kind, every edit of a valid encoding, every subset of entries) decoded by the real derived code and compared with an executable reference semantics'
DT = 'Exhaustive over the generated declarations (about 3000 types covering attributes alone and in pairs), values and edit neighbourhoods, within the bounds in the evidence. Trusts the reference semantics in mc/typed/src/schema.rs; nothing is claimed for other declarations.'
ST = 'Exhaustive over the listed types, values and data items, within the bounds in the evidence. Trusts the reference semantics in mc/serde/src/serde_sem.rs; nothing is claimed for other types.'
NOTE = {
 'C01': (BYTES, TRUST),
 'C02': (VALS, TRUST),
 'C03': (VALS, TRUST),
 'C04': ('exhaustive bounded enumeration of input byte strings run through every decoding entry point under a counting allocator, a small stack and a panic guard', 'Exhaustive within the bounds in the evidence; memory is bounded by a fixed linear function of the input length; types are the listed standard, derived and serde ones.'),
 'C05': ('exhaustive enumeration of container chains by kind, depth and limit on the real encoder and decoders, against the depth of the model', 'All mixes of nesting positions up to a depth, single kinds and periodic mixes around every limit; see evidence.'),
 'C06': (BYTES, TRUST),
 'C07': (BYTES, TRUST),
 'C08': ('exhaustive enumeration of all pairs and triples of a bounded value universe against bytewise order', TRUST),
 'C09': (TYPED, TT),
 'C10': (TYPED, TT),
 'C11': ('exhaustive enumeration of construction histories (insertion orders, capacities, hasher states, owned or borrowed) of equal values, and of all pairs of a bounded universe', TT),
 'C20': ('exhaustive bounded enumeration of constructor arguments, and of all (map, key list) pairs over a small key universe', TT),
 'C22': (BYTES + ', run in guarded buffers', TRUST),
 'C23': ('exhaustive bounded enumeration of byte strings and types, comparing two real code paths with each other and with the model', TT),
 'C24': ('exhaustive enumeration of operation sequences up to a depth, of long repetitions, of re-entrant calls, and of thread switches at every allocation under a controlled scheduler, each compared with the operation run alone', 'Operation alphabet and depth are in the evidence; switch points are allocations and callbacks, which are the only points at which the single-threaded library hands over control.'),
 'C25': ('exhaustive bounded enumeration of byte strings, values and types, and of every node at which user code may fail, comparing two real code paths with each other and with the automaton and the reference encoder', ST),
 'C27': ('exhaustive enumeration of call sequences of the serde interface up to a depth (trees of writing calls; reading methods x consumption scripts x data items), run on the real code and compared with an executable reference semantics', 'Exhaustive over the call trees, methods, scripts and data items within the bounds in the evidence. Outcomes of requests that do not match the data are left open except that they must not distort it. Trusts the reference in mc/serde/src/props/protocol.rs.'),
 'C26': ('exhaustive enumeration of declarations (shapes x attributes x derived traits, and the places and crates they stand in) judged by the real macros and compiler and compared with an executable reference predicate', 'Exhaustive over the declarations within the bounds in the evidence (about 11300 quick); attribute combinations whose meaning is not specified are left open. Trusts the predicate in mc/decl/check.py.'),
 'C12': (DER, DT),
 'C13': (DERI, DT),
 'C14': (DER, DT),
 'C15': (DERI, DT),
 'C16': ('exhaustive enumeration of (type, position, null / undefined / absent) combinations run on the real code and compared with an executable reference semantics', DT),
 'C17': ('exhaustive bounded enumeration of (type, value) pairs through the serde layer, compared with an executable reference semantics', ST),
 'C18': ('exhaustive bounded enumeration of (type, data item) pairs through the serde layer, compared with an executable reference semantics', ST),
 'C19': ('exhaustive bounded enumeration of (type, value) pairs through both layers, compared with each other and with the reference semantics', ST),
 'C21': ('exhaustive bounded enumeration of (type, value) pairs of all generated types, with the marker detected on the real types', DT),
 'C28': ('exhaustive enumeration of type declarations around hand-written implementations, of their values and data items, and of every call of such an implementation made to fail, run on the real code and compared with an executable reference semantics that also predicts the calls', 'Exhaustive over the declarations, values, edit neighbourhoods and failing calls within the bounds in the evidence. Trusts the reference semantics in mc/typed/src/schema.rs; what a type overriding its null handling makes of an absent field is left open.'),
}
