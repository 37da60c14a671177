MODEL="Trusts the reference grammar in model/ as the statement of the language; exhaustive within the bounds listed in the evidence file."
c("P04",REF,MODEL+" Separators are additionally found by an independent scanner where the input has no error.")
c("P05",REF,MODEL+" Every position is additionally recomputed by counting line feeds.")
c("P07",REF,MODEL)
c("P08","exhaustive enumeration of operator expressions on the real library against an independent precedence-climbing model","Trusts the operator table of harness/p_ops.cc, transcribed from the documented precedences. Texts that also read as patterns are left out.")
c("P09",REF,MODEL+" Values are additionally decoded independently for marked cases.")
c("P10",REF,MODEL+" The order of the expectations within a message is not fixed.")
c("P11",REF,MODEL+" Contexts are additionally aligned with the input text.")
c("P12","bounded exhaustive enumeration of erroneous texts against the reference model, and of concatenations against the parts parsed alone",MODEL)
c("P20","exhaustive enumeration of inputs and initial positions; metamorphic oracle (shifted default outcome) on the real library","The default outcome is the reference; it is itself decided by the other checks.")
c("P22","exhaustive replacement of layout at every place of every derived sentence up to the bound; metamorphic oracle on the real library","The plainly laid out form is the reference, which P07 decides; comments are found by an independent scan.")
c("P23",REF+", for the quick grammar; and against the full parser",MODEL)
c("P25","exhaustive enumeration of inputs under every flag combination against the reference model and against resumed parses",MODEL)
c("P26","exhaustive enumeration of inputs; the whole result against the concatenated segments and the reference model",MODEL)
c("P01","exhaustive enumeration of byte strings, structural strings, token sequences, cuts, edits, sizes and nestings, each executed through every entry point of the real library under AddressSanitizer, UBSan and an allocation ledger","Bounded lengths; invalid accesses are those the sanitizers see. Nesting so deep that it overflows the C stack is a known finding.","exploration")
c("P02","exhaustive enumeration of nestings of pairs and triples of constructs and of repeated fragments, at doubling depths, on the real library with its executed control-flow edges counted","Work at doubling depths may grow at most tenfold; depths up to 24 (thorough 96), repetitions up to 128 (thorough 1024).","exploration")
c("P14","fault injection: every single and every persistent allocation failure of every operation on every text and tree of the bound, on the real library","The library's own allocations fail, not those of the C library.","fault_enumeration")
c("P21","stateless model checking of the real library: every nesting of parses in callbacks, every schedule of two or three threads up to a bound on preemptions at allocations, reads and callbacks; and every pair of operations under ThreadSanitizer","Preemptions at allocations, reads and callbacks, up to two (thorough three); finer interleavings are covered by race detection only.")
c("P24","exhaustive enumeration of option combinations, inputs and file sequences, each run with the real tool and compared with the library calls the options stand for","Trusts the library calls, which the other checks decide.","exploration")
c("P03","exhaustive enumeration of read partitions and entry points for every input up to the bounds, on the real library; oracle: the outcome of the buffer delivery","Trusts the outcome of the buffer delivery, which the other checks decide.","exploration")
c("P13","exhaustive enumeration of callback returns, and depth-first search of all retain/release schedules, on the real library under AddressSanitizer","Schedules up to 3 segments and 4 references (thorough: 4 segments, 5 references).","exploration")
c("P15","fault injection at every byte of the input or output stream for every input of the bound, on the real library","Faults are injected by custom streams and stdio; real devices are not used.","fault_enumeration")

TR="exhaustive enumeration of texts and of trees made by every constructor with every combination of operands"
c("P06",TR.replace(" and of trees made by every constructor with every combination of operands","")+"; every node checked against a schema of node types, on the real library","Trusts the schema table in harness/schema.cc, transcribed from the public header.","exploration")
c("P16",TR+"; clones compared node by node with originals before and after releasing either","Trees are limited to the forms listed in the evidence file.","exploration")
c("P17",TR+"; all pairs of types; trees read back through the public accessors","Trusts the type hierarchy and schema in harness/, transcribed from the public header.","exploration")
c("P18","explicit exploration of all operation sequences up to a depth, on the real library, each step compared with a map model","Two contexts, three nodes in two trees, two values.")
c("P19",TR+"; renderings at eight widths with and without colours parsed back","Trusts the restated details of harness/schema.cc.","exploration")
