COMMON='Sound for what it observes: every answer of the executed library code is compared with an independent reference model, so a reported violation is a real execution. Covers the generated workload only (see evidence: events observed); trusts the reference model, rustc and the standard library.'
T={
'C01':('runtime monitoring: online model-based oracle over random mutation histories, overflow checks and debug assertions on','exploration',COMMON),
'C02':('runtime monitoring: counts against enumeration after random histories and derivations','exploration',COMMON),
'C03':('runtime monitoring: adjacency-duality and symmetry monitor over random histories on all implementations','exploration',COMMON),
'C04':('runtime monitoring: label-store oracle over random labelling histories incl. mutable views','exploration',COMMON),
'C05':('runtime monitoring: lockstep reference list for label tables','exploration',COMMON),
'C06':('runtime monitoring: full-query differential of converted graphs against the reference model','exploration',COMMON),
'C07':('runtime monitoring: isomorphism monitor under the reported renaming after random histories','exploration',COMMON),
'C08':('runtime monitoring: full-query oracle computed from the adjacency arrays themselves','exploration',COMMON),
'C09':('runtime monitoring: full-query differential of mapped dumps, with decoy dumps and stale files under the same prefix and directory','exploration',COMMON),
'C10':('runtime monitoring: round-trip and every-truncation-point monitor over binary exports','exploration',COMMON),
'C11':('runtime monitoring: storage-fault injection at every byte (RLIMIT_FSIZE, full device, missing directories), judged by what was stored','fault_enumeration',COMMON),
'C12':('runtime monitoring: CSV round-trip differential against the reference model, hostile labels','exploration',COMMON),
'C13':('runtime monitoring: row-replay oracle over hostile CSV input','exploration',COMMON),
'C14':('runtime monitoring: online order oracle (valid breadth-first orders) over traversals','exploration',COMMON),
'C15':('runtime monitoring: online order oracle (valid depth-first orders) over traversals','exploration',COMMON),
'C16':('runtime monitoring: reference partition in lockstep with detector histories','exploration',COMMON),
'C17':('runtime monitoring: exact-partition monitor over returned subgraphs','exploration',COMMON),
'C18':('runtime monitoring: set-algebra oracle over every operator form','exploration',COMMON),
'C19':('runtime monitoring: set-algebra oracle over every operator form','exploration',COMMON),
'C20':('runtime monitoring: equality and hash matrix against abstract content','exploration',COMMON),
'C21':('runtime monitoring: class oracle plus distribution monitor (8 sigma) over generator runs','exploration',COMMON),
'C22':('runtime monitoring: isomorphism oracle over generated LDBC directories, permuted and split','exploration',COMMON),
'C23':('AddressSanitizer with poisoned page tails plus a range-and-content monitor over damaged files','exploration',COMMON),
'C24':('ThreadSanitizer (instrumented std) plus an answer monitor over concurrent readers','exploration',COMMON),
'C25':('runtime monitoring: negative-answer monitor over absent ids on all implementations','exploration',COMMON),
'C26':('runtime monitoring: digest differential of one history across integer widths; full id ranges of narrow types','exploration',COMMON),
'C27':('runtime monitoring: pairwise value-equality monitor over handed-out records; lockstep histories on node records','exploration',COMMON),
}
