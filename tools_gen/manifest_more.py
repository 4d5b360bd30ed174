B = ("Inputs and values outside the listed finite spaces are not covered. Trusts the small reference functions (model/parts.go) and the Go toolchain.")
S = "exhaustive enumeration of all operation sequences up to a depth over a closed alphabet on the real code, compared with a reference model at every step"
c("U06", "exhaustive enumeration of bounded input spaces and of edit/derive sequences on the real code, compared with a reference normal form", B)
c("U07", "exhaustive enumeration of all pairs of bounded value families on the real code, compared with equality of reference normal forms", B)
c("U08", "exhaustive enumeration of bounded input spaces, JSON spellings and receivers on the real code, compared with the string form", B)
c("U09", "exhaustive enumeration of bounded document spaces and receivers on the real code, compared with the reference automaton", B + " encoding/json is trusted for what is a JSON string.")
c("U12", "exhaustive enumeration of bounded input spaces with the input in write-protected memory between guard pages; every execution is monitored by the memory protection", B)
c("U13", S, B)
c("U15", S, B)
c("U16", S, B)
c("U17", "exhaustive enumeration of bounded name and value spaces on the real code, compared with the table of the statement", B)
c("U14", "stateless model checking of the instrumented implementation: all thread schedules up to a preemption bound under a controlled scheduler, results compared with sequential execution, race detector blind to the scheduler's hand-offs",
  "Bounds: 2 threads (3 in the thorough tier), one operation each out of a closed menu and a list of inputs, 1 preemption between any two statements for all pairs and 2 for an operation against itself (thorough: 2 and 3). Statement granularity; the standard library is atomic between two points. Code that starts goroutines or uses channels is left to the free-running race detector pass, and the evidence then says it was not exhaustive.")
c("U20", "exhaustive enumeration of pumped input families on the instrumented implementation with exact statement and allocation counters, comparing the work per byte over doubling sizes",
  "Growth is judged on sizes up to 64 KiB (thorough: 1 MiB); the work of the standard library that allocates nothing is seen as processor time only, with a margin of over an order of magnitude. Inputs that are not a pumped family are not covered.")

c("U18", "exhaustive enumeration of file contents over an alphabet of line tokens up to a length, and of failure situations, on the real tool, compared with a reference line filter",
  "Bounds: contents of up to a few tokens out of a closed alphabet, plus the repository's own generated file. A white space before //line other than blank, tab, form feed, carriage return and line feed is left open.")
c("U19", "exhaustive enumeration of file contents over an alphabet up to a length, and of failure situations, on the real tool, compared with a reference rewriting",
  "Bounds: contents of up to a few characters out of a closed alphabet of character classes, plus long chains and the repository's own generated file. Ending is judged by a deadline on steps of the real tool.")
c("U22", "exhaustive enumeration of bounded input spaces (the product of both automata up to all transitions and their continuations) on two real builds, committed and regenerated, compared observation by observation",
  "Same input spaces as the language checks. Trusts ragel and the Go toolchain as installed.")
c("U23", "exhaustive enumeration of bounded input spaces and of products of field contents on the real code, each value built by hand compared with the parsed one and with the statement", B + " Letters other than ASCII in an identifier: only no panic and no change, not their normal form.")
