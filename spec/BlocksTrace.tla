----------------------------- MODULE BlocksTrace -----------------------------
(* Judges what is done to real nodes, and what the helper functions return,  *)
(* with BlocksDef. The memory is followed byte by byte: `diff` lists all the *)
(* bytes that a call has changed.                                            *)
EXTENDS BlocksDef, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mem, sh
vars == <<l, mem, sh>>

J(name, ok) == [name |-> name, ok |-> ok]
Judged(js) == \A j \in {x \in js : ~x.ok} : PrintT(<<"@@R", l, j.name>>) /\ FALSE
Stop(why) == PrintT(<<"@@R", l, why>>) /\ FALSE

Step(e, m) ==
  LET new == IF e.diff = <<>> THEN mem
             ELSE [k \in 1..Len(mem) |-> LET d == {j \in 1..Len(e.diff) : e.diff[j][1] = k}
                                         IN IF d = {} THEN mem[k] ELSE e.diff[CHOOSE j \in d : TRUE][2]]
  IN /\ Judged({J(e.op \o " does not do what it says to the memory", new = m)})
     /\ mem' = m /\ UNCHANGED sh
Reads(e, name, ok) == Judged({J(name, ok), J(e.op \o " changes the memory", e.diff = <<>>)}) /\ UNCHANGED <<mem, sh>>
Gives(name, ok) == Judged({J(name \o " returns something else", ok)}) /\ UNCHANGED <<mem, sh>>

Seen(e) ==
  CASE e.op = "died" -> Stop("a building block crashes or hangs")
    [] e.op = "failed" -> Stop("a building block fails: " \o e.how)
    [] e.op = "cfg" -> /\ Judged({ J("the size of a node is wrong", e.size = Size(e.shape)),
                                   J("the room for children is wrong", e.room = Room(e.shape)),
                                   J("the vector length is wrong", e.length = e.shape.dim) })
                       /\ sh' = e.shape
                       /\ mem' = [k \in 1..(e.shape.before + e.nodes * Size(e.shape) + e.shape.before) |-> e.fill]
    [] e.op = "raw" -> mem' = Put(mem, e.at, e.bytes) /\ UNCHANGED sh
    [] e.op = "SetNumberOfDescendants" -> Step(e, SetDesc(mem, sh, e.i, e.n))
    [] e.op = "SetChildren" -> Step(e, SetKids(mem, sh, e.i, e.ks))
    [] e.op \in {"GetRawChildren", "GetChildren"} -> Step(e, SetKid(mem, sh, e.i, e.k, e.x))
    [] e.op = "SetNorm" -> Step(e, SetNorm(mem, sh, e.i, e.a))
    [] e.op = "SetVector" -> Step(e, SetVec(mem, sh, e.i, e.vs))
    [] e.op \in {"GetRawVector", "GetVector"} -> Step(e, SetElement(mem, sh, e.i, e.k, e.a))
    [] e.op = "CopyNode" -> Step(e, Copy(mem, sh, e.to, e.from, e.n))
    [] e.op = "InitNode" -> Step(e, InitNode(mem, sh, e.i))
    [] e.op = "Normalize" -> Step(e, Normalize(mem, sh, e.i))
    [] e.op = "PreProcess" -> Step(e, PreProcess(mem, sh, e.n))
    [] e.op = "descendants" -> Reads(e, "the number of descendants reads back differently", e.bytes = Slice(mem, At(sh, e.i), sh.id))
    [] e.op = "children" ->
         Reads(e, "the children read back differently",
               LET n == Descendants(mem, sh, e.i)
               IN e.n = n /\ e.bytes = Slice(mem, At(sh, e.i) + KidsAt(sh), n * sh.id))
    [] e.op = "norm" -> Reads(e, "the norm reads back differently", e.bytes = Norm(mem, sh, e.i))
    [] e.op = "vector" -> Reads(e, "the vector reads back differently", e.bytes = Slice(mem, At(sh, e.i) + VecAt(sh), e.n * sh.el))
    [] e.op = "Margin" -> Reads(e, "the margin is wrong", e.exact /\ e.got = Margin(mem, sh, e.i, e.y))
    [] e.op = "Side" -> Reads(e, "the side is wrong", e.got = Side(mem, sh, e.i, e.y, e.chance))
    [] e.op = "Distance" -> Reads(e, "the inner product of two nodes is wrong",
                                  e.exact /\ e.got = -Dot(Vec(mem, sh, e.i), Vec(mem, sh, e.j), sh.dim))
    [] e.op \in {"Dot", "DotUnsafe"} -> Gives(e.op, e.exact /\ e.kept /\ e.got = Dot(e.a, e.b, e.n))
    [] e.op \in {"GetNorm", "GetNormUnsafe"} -> Gives(e.op, e.exact /\ e.kept /\ e.got >= 0 /\ e.got * e.got = Dot(e.a, e.a, e.n))
    [] e.op = "EuclideanDistance" -> Gives(e.op, e.exact /\ e.kept /\ e.got = SquaredDistance(e.a, e.b, e.n))
    [] e.op = "ManhattanDistance" -> Gives(e.op, e.exact /\ e.kept /\ e.got = Manhattan(e.a, e.b, e.n))
    [] e.op = "Abs" -> Gives(e.op, e.exact /\ e.got = Abs(e.a))
    [] e.op = "Max" -> Gives(e.op, e.got \in {e.a, e.b} /\ e.got >= e.a /\ e.got >= e.b)
    [] e.op = "Intersection" -> Gives(e.op, IsCommon(e.got, e.a, e.b) /\ Same(e.a, e.a2) /\ Same(e.b, e.b2))
    [] e.op \in {"Round", "RoundPlus"} -> Gives(e.op, e.exact /\ e.got = Rounded(e.a, e.n))
    [] e.op = "Pair" -> Gives("an operation on pairs",
         /\ e.less = PairLess(e.a[e.i], e.a[e.j]) /\ e.pless = e.less
         /\ e.first = (\E k \in 1..Len(e.a) : e.a[k][1] = e.x) /\ e.second = (\E k \in 1..Len(e.a) : e.a[k][2] = e.x)
         /\ e.len = Len(e.a) /\ e.top = e.a[1]
         /\ e.swapped = [e.a EXCEPT ![e.i] = e.a[e.j], ![e.j] = e.a[e.i]]
         /\ e.pushed = Append(e.a, e.p) /\ e.popped = e.p /\ e.after = e.a)
    [] e.op = "Measure" -> Gives(e.op, e.calls = 1 /\ e.same /\ e.long)

TraceInit == l = 1 /\ mem = <<>> /\ sh = [id |-> 4, el |-> 4, dot |-> FALSE, dim |-> 1, before |-> 0]
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Seen(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
