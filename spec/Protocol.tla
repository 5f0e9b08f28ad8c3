------------------------------ MODULE Protocol ------------------------------
(***************************************************************************)
(* Which calls every stateful component permits, in every state it can be   *)
(* in.  A machine is a record [kind, ..parameters]; a call is a tuple        *)
(* << name, arguments.. >>.                                                  *)
(*                                                                          *)
(*   Initial(m)      the state of a new component                            *)
(*   Calls(m)        the calls that are tried                                *)
(*   Permits(m, s, c)  whether the call is permitted in state s              *)
(*   After(m, s, c)  the state after a permitted call                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Free == [kind |-> "free"]
Range0(n) == 0..(n - 1)

\* values of a list of sub-indices against the dimensions from position k on
Fits(dims, k, tup) == /\ k + Len(tup) <= Len(dims)
                      /\ \A i \in 1..Len(tup) : tup[i] \in Range0(dims[k + i])
Args(c) == SubSeq(c, 2, Len(c))

-----------------------------------------------------------------------------
Initial(m) ==
  CASE m.kind = "bytes"     -> -1
    [] m.kind = "stats"     -> -1
    [] m.kind = "index"     -> 0
    [] m.kind = "window"    -> 0
    [] m.kind = "mixer"     -> [in |-> {}, step |-> m.step]
    [] m.kind = "apm"       -> FALSE
    [] m.kind = "estkit"    -> FALSE
    [] m.kind = "mixkit"    -> [k |-> 0, open |-> FALSE]
    [] m.kind = "history"   -> [n |-> 0, bit |-> -1]
    [] m.kind = "collect"   -> 0
    [] m.kind = "final"     -> [bit |-> -1, open |-> FALSE]
    [] m.kind = "chain"     -> "idle"
    [] m.kind = "predictor" -> [bit |-> -1, open |-> FALSE]
    [] m.kind = "nodes"     -> [len |-> 1, gone |-> 0]
    [] m.kind = "make"      -> 0

\* a byte of 8 bits: -1 between bytes, else the number of bits it has
NextBit(k) == IF k = 7 THEN -1 ELSE k + 1

ByteCalls == { << "start" >>, << "bit" >> }
ByteQueries == { << "unfinished" >>, << "previous", 1 >>, << "previous", 2 >>, << "previous", 3 >>,
                 << "hash", 1 >>, << "hash", 2 >>, << "hash", 3 >> }
IndexValues(dims) == UNION { { 0, d - 1, d, d + 3 } : d \in { dims[i] : i \in DOMAIN dims } }
Runs == { 0, 1, 15, 999, 1000, 1001, 1023, 1024, 65535 }

Calls(m) ==
  CASE m.kind = "bytes"   -> ByteCalls \cup ByteQueries
    [] m.kind = "stats"   -> ByteCalls \cup { << "count" >> }
    [] m.kind = "index"   -> { << "sub", v >> : v \in IndexValues(m.dims) } \cup { << "get" >>, << "size" >> }
    [] m.kind = "window"  -> { << "grow" >>, << "shrink" >> }
    [] m.kind = "mixer"   -> UNION { { << "set", i >>, << "sq", i >>, << "st", i >>, << "weight", i >> } : i \in 0..m.size }
                             \cup { << "mix" >> } \cup { << "learn", most >> : most \in { m.step - 1, m.step, m.step + 1, 1000, 1001 } }
    [] m.kind = "apm"     -> { << "refine", x, p >> : x \in { 0, m.contexts - 1, m.contexts, m.contexts + 7 }, p \in { m.bits } }
                             \cup { << "refine", 0, p >> : p \in 0..2 }
                             \cup { << "learn", x, r >> : x \in { 0, m.contexts - 1, m.contexts }, r \in { 1, 29 } }
                             \cup { << "learn", 0, r >> : r \in { 0, 1, 5, 29, 30, 31 } }
    [] m.kind = "estkit"  -> { << "learn" >> } \cup { << "predict" >> \o tup : tup \in m.tuples }
    [] m.kind = "mixkit"  -> { << "mixer" >> } \cup { << "learn", most >> : most \in { 9, 10, 1001 } }
                             \cup { << "before" >> \o tup : tup \in m.tuples }
                             \cup { << "predict", n >> \o tup : n \in { m.size - 1, m.size, m.size + 1 }, tup \in m.tuples }
    [] m.kind = "history" -> { << "start" >>, << "bit", 0 >>, << "look" >>, << "bit", -1 >>, << "bit", 1 >> }
    [] m.kind = "collect" -> { << "push" >>, << "reset" >> }
    [] m.kind = "final"   -> ByteCalls \cup { << "refine" >>, << "learn" >> }
    [] m.kind = "chain"   -> { << op, what >> : op \in { "predict", "learn" }, what \in { "none", "some", "full" } }
                             \cup { << "predict", "long" >>, << "predict", "mixed" >> }
    [] m.kind = "predictor" -> { << "start" >>, << "predict" >>, << "learn" >> }
    [] m.kind = "nodes"   -> { << "add" >>, << "drop" >> }
    [] m.kind = "make"    ->
         { << "estimator", c >> : c \in Runs } \cup { << "directrun", c >> : c \in Runs }
         \cup { << "newnode", c >> : c \in Runs } \cup { << "nodecost", c >> : c \in Runs }
         \cup { << "mixer", n, step >> : n \in 1..5, step \in { 0, 10, 1000, 1001, 65535 } }
         \cup { << "mixern", n, step, mode >> : n \in { 0, 1, 2, 17, 29, 30, 31, 32, 64 }, step \in { 0, 1000, 1001 }, mode \in 0..2 }
         \cup { << "window", most, shift >> : most \in { 0, 1, 2, 5 }, shift \in { 0, 4, 6, 9 } }
         \cup { << "tree", most, shift >> : most \in { 0, 1, 2, 5 }, shift \in { 0, 1, 2, 4, 5, 6 } }
         \cup { << "indexer", rank, n >> : rank \in 1..6, n \in 0..7 }
         \cup { << "hugeindex", rank >> : rank \in 1..6 }
         \cup { << "apmtable", p >> : p \in { 0, 1, 2, 3, 4, 255 } }
         \cup { << "nodes", n >> : n \in 0..2 }
         \cup { << "child", way >> : way \in { "window", "window-max", "window-over", "node", "root", "node-over",
                                                "window-as-node", "node-as-window" } }
         \cup { << "recent", way >> : way \in { "invalid", "empty", "one" } }
         \cup { << "decoder", n >> : n \in 0..6 }
         \cup { << "probability", p >> : p \in { 0, 1, 4194304, 8388607, 8388608, 8388609, 16777216 } }

\* costs for contexts that do not branch, given to the only source that keeps costs
Surplus(m, c) == m.source = "tree" /\ c[2] > 0 /\ Len(c) > 3 /\ c[3] > 0 /\ c[4] > 0
\* surplus costs that nothing would be done with
Indifferent(m, c) == m.kind = "history" /\ c[1] = "bit" /\ c[2] > 0 /\ ~Surplus(m, c)
\* learning from other contexts than those that were mixed is not tried
\* and only nodes that are there are deleted
Tried(m, s, c) == /\ m.kind = "chain" => ~(c[1] = "learn" /\ s # "idle" /\ c[2] \notin { s, "none" })
                  /\ m.kind = "nodes" => ~(c[1] = "drop" /\ s.len - s.gone = 1)
\* calls whose admissibility depends on data: nothing is generated after them
Unsure(m, c) == m.kind = "history" /\ c[1] = "bit" /\ c[2] # 0

-----------------------------------------------------------------------------
Permits(m, s, c) ==
  LET op == c[1] IN
  CASE m.kind = "bytes" -> IF op = "start" THEN s = -1 ELSE s >= 0
    [] m.kind = "stats" -> IF op = "start" THEN s = -1 ELSE IF op = "bit" THEN s >= 0 ELSE s = 0
    [] m.kind = "index" ->
         (CASE op = "sub" -> Fits(m.dims, s, Args(c))
           [] op = "get" -> s = Len(m.dims)
           [] op = "size" -> s = 0)
    [] m.kind = "window" -> IF op = "grow" THEN s < m.most ELSE s > 0
    [] m.kind = "mixer" ->
         (CASE op = "set" -> c[2] < m.size /\ c[2] \notin s.in
           [] op \in { "sq", "st" } -> c[2] \in s.in
           [] op = "weight" -> c[2] < m.size
           [] op = "mix" -> s.in = Range0(m.size)
           [] op = "learn" -> s.in = Range0(m.size) /\ s.step <= c[2] /\ c[2] <= 1000)
    [] m.kind = "apm" ->
         IF op = "refine" THEN ~s /\ c[2] < m.contexts /\ c[3] = m.bits
                          ELSE s /\ c[2] < m.contexts /\ c[3] \in 1..29
    [] m.kind = "estkit" -> IF op = "learn" THEN s ELSE ~s /\ Len(Args(c)) = Len(m.dims) /\ Fits(m.dims, 0, Args(c))
    [] m.kind = "mixkit" ->
         (CASE op = "mixer" -> s.open
           [] op = "learn" -> s.open /\ c[2] \in 10..1000
           [] op = "before" -> ~s.open /\ Fits(m.dims, s.k, Args(c))
           [] op = "predict" -> LET tup == SubSeq(c, 3, Len(c))
                                IN  ~s.open /\ c[2] = m.size /\ s.k + Len(tup) = Len(m.dims) /\ Fits(m.dims, s.k, tup))
    [] m.kind = "history" ->
         (CASE op = "start" -> s.bit = -1 /\ (m.slides \/ s.n < m.most)
           [] op = "look" -> s.bit >= 0
           \* << "bit", how many more, contexts that branch, others >>: costs of all that branch must be given
           [] op = "bit" -> /\ s.bit >= 0
                            /\ ~(m.source # "naive" /\ c[2] < 0 /\ Len(c) > 2 /\ c[3] > 0)
                            /\ ~Surplus(m, c))
    [] m.kind = "collect" -> op = "push" => s < m.most
    [] m.kind = "final" ->
         (CASE op = "start" -> s.bit = -1
           [] op = "bit" -> s.bit >= 0
           [] op = "refine" -> s.bit >= 0 /\ ~s.open
           [] op = "learn" -> s.bit >= 0 /\ s.open)
    [] m.kind = "chain" ->
         (CASE c[2] = "none" -> TRUE
           [] c[2] \in { "long", "mixed" } -> FALSE
           [] op = "predict" -> s = "idle"
           [] op = "learn" -> s = c[2])
    [] m.kind = "predictor" ->
         (CASE op = "start" -> s.bit = -1 /\ ~s.open
           [] op = "predict" -> s.bit >= 0 /\ ~s.open
           [] op = "learn" -> s.open)
    [] m.kind = "nodes" -> op = "add" => (s.gone > 0 \/ s.len < m.most)
    [] m.kind = "make" ->
         (CASE op \in { "estimator", "directrun", "newnode" } -> c[2] <= 1000
           [] op = "nodecost" -> TRUE
           [] op = "mixer" -> c[3] <= 1000
           [] op = "mixern" -> c[2] <= 30 /\ c[3] <= 1000 /\ (c[4] # 0 => c[2] > 0)
           [] op = "window" -> c[2] > 0 /\ c[3] <= c[2]
           [] op = "tree" -> c[2] > 0 /\ c[3] < c[2]
           [] op = "indexer" -> c[2] = c[3]
           [] op = "hugeindex" -> c[2] = 1
           [] op = "apmtable" -> c[2] <= 2
           [] op = "nodes" -> c[2] > 0
           [] op = "child" -> c[2] \in { "window", "window-max", "node" }
           [] op = "recent" -> c[2] # "invalid"
           [] op = "decoder" -> c[2] >= 4
           [] op = "probability" -> c[2] <= 8388608)

After(m, s, c) ==
  LET op == c[1] IN
  CASE m.kind \in { "bytes", "stats" } -> IF op = "start" THEN 0 ELSE IF op = "bit" THEN NextBit(s) ELSE s
    [] m.kind = "index" -> (CASE op = "sub" -> s + 1 [] op = "get" -> 0 [] OTHER -> s)
    [] m.kind = "window" -> IF op = "grow" THEN s + 1 ELSE s - 1
    [] m.kind = "mixer" ->
         (CASE op = "set" -> [s EXCEPT !.in = @ \cup { c[2] }]
           [] op = "learn" -> [in |-> {}, step |-> IF s.step < c[2] THEN s.step + 1 ELSE c[2]]
           [] OTHER -> s)
    [] m.kind = "apm" -> op = "refine"
    [] m.kind = "estkit" -> op = "predict"
    [] m.kind = "mixkit" ->
         (CASE op = "before" -> [s EXCEPT !.k = @ + Len(c) - 1]
           [] op = "predict" -> [k |-> 0, open |-> TRUE]
           [] op = "learn" -> [s EXCEPT !.open = FALSE]
           [] OTHER -> s)
    [] m.kind = "history" ->
         (CASE op = "start" -> [n |-> IF s.n < m.most THEN s.n + 1 ELSE s.n, bit |-> 0]
           [] op = "bit" -> [s EXCEPT !.bit = NextBit(@)]
           [] OTHER -> s)
    [] m.kind = "collect" -> IF op = "push" THEN s + 1 ELSE 0
    [] m.kind = "final" ->
         (CASE op = "start" -> [s EXCEPT !.bit = 0]
           [] op = "bit" -> [s EXCEPT !.bit = NextBit(@)]
           [] OTHER -> [s EXCEPT !.open = (op = "refine")])
    [] m.kind = "chain" -> IF c[2] = "none" THEN s ELSE IF op = "predict" THEN c[2] ELSE "idle"
    [] m.kind = "predictor" ->
         (CASE op = "start" -> [s EXCEPT !.bit = 0]
           [] op = "predict" -> [s EXCEPT !.open = TRUE]
           [] op = "learn" -> [bit |-> NextBit(s.bit), open |-> FALSE])
    [] m.kind = "nodes" ->
         IF op = "add" THEN (IF s.gone > 0 THEN [s EXCEPT !.gone = @ - 1] ELSE [s EXCEPT !.len = @ + 1])
                       ELSE [s EXCEPT !.gone = @ + 1]
    [] OTHER -> s

-----------------------------------------------------------------------------
(* Machines whose behaviours are generated                                   *)

Index(dims) == [kind |-> "index", dims |-> dims]
Window(most, shift) == [kind |-> "window", most |-> most, shift |-> shift]
MixerM(form, size, step) == [kind |-> "mixer", form |-> form, size |-> size, step |-> step]
ApmM(contexts, bits) == [kind |-> "apm", contexts |-> contexts, bits |-> bits]
Hist(source, most, order) == [kind |-> "history", source |-> source, most |-> most, order |-> order, slides |-> source = "tree"]
Tuples2(a, b) == { << >>, << 0 >>, << a >>, << a - 1 >>, << 0, 0 >>, << a - 1, b - 1 >>, << a, 0 >>, << 0, b >>, << 0, 0, 0 >> }
Tuples3(a, b, d) == { << >>, << 0 >>, << a - 1 >>, << a >>, << 0, b - 1 >>, << 0, b >>, << b - 1, d - 1 >>, << b - 1, d >>, << d - 1 >>, << d >>,
                      << a - 1, b - 1, d - 1 >>, << 0, 0, d >>, << 0, 0, 0, 0 >> }

Machines ==
  << [kind |-> "bytes"], [kind |-> "stats"],
     Index(<< 3 >>), Index(<< 1 >>), Index(<< 2, 5 >>), Index(<< 1, 4, 2 >>), Index(<< 2, 3, 4, 2 >>), Index(<< 2, 3, 6, 4, 31 >>),
     Index(<< 2, 1, 2, 3, 2, 7 >>), Index(<< 3, 1 >>),
     Window(1, 0), Window(2, 1), Window(3, 0), Window(5, 2), Window(5, 4),
     MixerM("fixed", 1, 998), MixerM("fixed", 2, 997), MixerM("fixed", 3, 998), MixerM("fixed", 4, 999), MixerM("fixed", 5, 999),
     MixerM("any", 1, 999), MixerM("any", 2, 998), MixerM("any", 4, 1000),
     ApmM(1, 0), ApmM(3, 1), ApmM(256, 2),
     [kind |-> "estkit", dims |-> << 3, 2 >>, tuples |-> Tuples2(3, 2)],
     [kind |-> "mixkit", dims |-> << 2, 3, 4 >>, size |-> 3, tuples |-> Tuples3(2, 3, 4)],
     [kind |-> "mixkit", dims |-> << 4, 1 >>, size |-> 2, tuples |-> Tuples2(4, 1)],
     Hist("naive", 1, 1), Hist("naive", 3, 2), Hist("map", 1, 1), Hist("map", 3, 2), Hist("tree", 1, 1), Hist("tree", 3, 2), Hist("tree", 8, 3),
     [kind |-> "collect", most |-> 1], [kind |-> "collect", most |-> 4],
     [kind |-> "final"],
     [kind |-> "chain", most |-> 1], [kind |-> "chain", most |-> 4],
     [kind |-> "predictor"],
     [kind |-> "nodes", most |-> 2], [kind |-> "nodes", most |-> 4],
     [kind |-> "make"] >>
=============================================================================
