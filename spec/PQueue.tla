------------------------------- MODULE PQueue -------------------------------
(* The priority queue: a binary heap in an array, against the bag that it    *)
(* stands for. Way: "right", or a broken heap: "noup" (an insertion stays    *)
(* where it is), "left" (only left children are looked at when moving down), *)
(* "keys" (ids do not count), "last" (a removal does not restore the order). *)
EXTENDS OrderDef, TLC, Json

CONSTANTS Keys, Ids, Max, Way, Emit

VARIABLES heap, bag, popped, hist
qvars == <<heap, bag, popped>>
vars == <<qvars, hist>>

Lt(a, b) == IF Way = "keys" THEN a[1] < b[1] ELSE Less(a, b)
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]

RECURSIVE Up(_, _)
Up(s, j) == IF j = 1 \/ Way = "noup" THEN s
            ELSE LET i == j \div 2 IN IF Lt(s[j], s[i]) THEN Up(Swap(s, i, j), i) ELSE s
RECURSIVE Down(_, _, _)
Down(s, i, n) ==
  IF 2 * i > n \/ Way = "last" THEN s
  ELSE LET a == 2 * i
           j == IF Way # "left" /\ a + 1 <= n /\ Lt(s[a + 1], s[a]) THEN a + 1 ELSE a
       IN IF Lt(s[j], s[i]) THEN Down(Swap(s, i, j), j, n) ELSE s

Init == heap = <<>> /\ bag = <<>> /\ popped = <<>> /\ hist = <<>>
Note(c) == hist' = IF Emit THEN Append(hist, c) ELSE hist

Push(x) ==
  /\ Len(heap) < Max
  /\ heap' = Up(Append(heap, x), Len(heap) + 1)
  /\ bag' = Put(bag, x) /\ popped' = <<>>
  /\ Note(<<"push", x[1], x[2]>>)
Pop ==
  /\ heap # <<>>
  /\ LET n == Len(heap)
         s == Down(Swap(heap, 1, n), 1, n - 1)
     IN heap' = SubSeq(s, 1, n - 1) /\ popped' = <<s[n]>> /\ bag' = Out(bag, s[n])
  /\ Note(<<"pop", 0, 0>>)
Next == Pop \/ \E k \in Keys, i \in Ids : Push(<<k, i>>)
Spec == Init /\ [][Next]_vars

View == qvars
EmitAll == (Emit /\ hist' # hist) => PrintT("@@H " \o ToJson(hist'))

(* C14 *)
Complete == \A x \in DOMAIN bag : bag[x] = Count(heap, x)
Longs == Len(heap) = Size(bag)
TopSmallest == heap # <<>> => Smallest(bag, heap[1])
PoppedSmallest == [][popped' # <<>> /\ Len(heap') < Len(heap) => Smallest(bag, popped'[1])]_qvars
=============================================================================
