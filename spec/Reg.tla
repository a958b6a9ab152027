-------------------------------- MODULE Reg --------------------------------
(* The datum registry: named sources of datums, registered by programs or     *)
(* loaded on first use from files found along search paths.  Files are read   *)
(* once; what a program registers is what is looked up; what is not there is  *)
(* reported as missing and leaves no trace.                                   *)
(* A datum is summarised by its kind and a mark (its origin).  File contents: *)
(* [ok, pn (part name or ""), ds (seq of [n, ty, mark, good])].               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Has(q, n) == \E i \in 1..Len(q) : q[i].n = n
Get(q, n) == q[CHOOSE i \in 1..Len(q) : q[i].n = n]
Replace(q, e) == [i \in 1..Len(q) |-> IF q[i].n = e.n THEN e ELSE q[i]]
PutN(q, e) == IF Has(q, e.n) THEN Replace(q, e) ELSE Append(q, e)

\* boxes: the datum tables; names: seq of [n, b] source name -> table (names may share one table)
\* disk: seq of [n (dir/name), f]; paths: search directories in order
GInit(i) == [boxes |-> <<>>, names |-> <<>>, disk |-> <<>>, paths |-> i.paths]
Box(s, n) == s.boxes[Get(s.names, n).b]
NewBox(s, n, ds, pns) == [s EXCEPT !.boxes = Append(@, [ds |-> ds, pns |-> pns]), !.names = PutN(@, [n |-> n, b |-> Len(s.boxes) + 1])]

Kind(n) == IF n \in {"s1.json", "s2.json", "s3.json"} THEN "json" ELSE IF n \in {"p1.dsl", "p2.dsl"} THEN "dsl" ELSE "name"
Side(n) == IF n = "p1.dsl" THEN "p1.datums.json" ELSE "p2.datums.json"
\* the directory a file is found in: the first search path that has it ("" if none)
RECURSIVE Where(_, _, _)
Where(s, n, i) == IF i > Len(s.paths) THEN "" ELSE IF Has(s.disk, s.paths[i] \o "/" \o n) THEN s.paths[i] ELSE Where(s, n, i + 1)
File(s, dir, n) == Get(s.disk, dir \o "/" \o n).f
GoodOnes(ds) == [i \in 1..Len(SelectSeq(ds, LAMBDA d : d.good)) |->
                   LET d == SelectSeq(ds, LAMBDA x : x.good)[i] IN [n |-> d.n, ty |-> d.ty, mark |-> d.mark]]
LoadJson(s, n, f) ==
  IF ~f.ok THEN NewBox(s, n, <<>>, {n})
  ELSE LET t == NewBox(s, n, GoodOnes(f.ds), {n} \cup (IF f.pn = "" THEN {} ELSE {f.pn}))
       IN IF f.pn = "" \/ f.pn = n THEN t ELSE [t EXCEPT !.names = PutN(@, [n |-> f.pn, b |-> Len(t.boxes)])]
(* the state after making sure that source n is loaded, if it can be *)
Load(s, n) ==
  IF Has(s.names, n) THEN s
  ELSE LET dir == Where(s, n, 1) IN
       IF dir = "" THEN s
       ELSE IF Kind(n) = "json" THEN LoadJson(s, n, File(s, dir, n))
       ELSE IF Has(s.disk, dir \o "/" \o Side(n)) THEN LoadJson(s, n, File(s, dir, Side(n)))
       ELSE NewBox(s, n, <<>>, {n})
Table(ds) == [i \in 1..Len(ds) |-> [n |-> ds[i].n, ty |-> ds[i].ty, mark |-> ds[i].mark]]
\* the vectors a datum is given, by its mark: <<direction, normal or x axis; y axis>>
Dirs(m) == CASE m % 6 = 0 -> << <<0, 0, 1>>, <<1, 0, 0>>, 1 >> [] m % 6 = 1 -> << <<3, 4, 0>>, <<-4, 3, 0>>, 5 >> [] m % 6 = 2 -> << <<2, -1, 2>>, <<2, 2, -1>>, 3 >>
             [] m % 6 = 3 -> << <<-1, 0, 0>>, <<0, 1, 0>>, 1 >> [] m % 6 = 4 -> << <<2, 3, 6>>, <<3, -6, 2>>, 7 >> [] OTHER -> << <<0, -3, 4>>, <<1, 0, 0>>, 5 >>
Len105(v, l) == [i \in 1..3 |-> (105 * v[i]) \div l]
Crossed(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
YLen(m) == IF m % 6 = 5 THEN 1 ELSE Dirs(m)[3]
\* a datum as a frame: at its origin, the direction or normal becomes the z axis
FrameOf(d) == LET v == Dirs(d.mark) IN
  [o |-> <<d.mark, -2 * d.mark, 3>>, square |-> TRUE,
   z |-> CASE d.ty = "point" -> <<0, 0, 105>> [] d.ty = "frame" -> Len105(Crossed(v[1], v[2]), v[3] * YLen(d.mark)) [] OTHER -> Len105(v[1], v[3]),
   x |-> CASE d.ty = "point" -> <<105, 0, 0>> [] d.ty = "frame" -> Len105(v[1], v[3]) [] OTHER -> <<>>]
Ret(s, o) == [st |-> s, obs |-> o]
Ok(s) == Ret(s, [res |-> "ok"])

GApply(s, op) ==
  CASE op.k = "write" -> Ok([s EXCEPT !.disk = PutN(@, [n |-> op.n, f |-> op.f])])
    [] op.k = "path" -> Ok(IF \E i \in 1..Len(s.paths) : s.paths[i] = op.n THEN s ELSE [s EXCEPT !.paths = Append(@, op.n)])
    [] op.k \in {"source", "part"} -> Ok(NewBox(s, op.n, Table(op.ds), {op.n}))
    [] op.k = "one" ->
         IF Has(s.names, op.n)
         THEN Ok([s EXCEPT !.boxes[Get(s.names, op.n).b].ds = PutN(@, [n |-> op.d.n, ty |-> op.d.ty, mark |-> op.d.mark])])
         ELSE Ok(NewBox(s, op.n, Table(<<op.d>>), {op.n}))
    [] op.k = "get" ->
         LET t == Load(s, op.n) IN
         IF ~Has(t.names, op.n) THEN Ret(t, [res |-> "exc:KeyError"])
         ELSE IF ~Has(Box(t, op.n).ds, op.d) THEN Ret(t, [res |-> "exc:KeyError"])
         ELSE LET d == Get(Box(t, op.n).ds, op.d) IN Ret(t, [res |-> "ok", ty |-> d.ty, mark |-> d.mark, fr |-> FrameOf(d)])
    [] op.k = "table" ->
         LET t == Load(s, op.n) IN
         IF Has(t.names, op.n) THEN Ret(t, [res |-> "ok", ds |-> Box(t, op.n).ds]) ELSE Ret(t, [res |-> "exc:KeyError"])
    [] op.k = "list" ->
         LET t == Load(s, op.n) IN
         Ret(t, [res |-> "ok", ds |-> IF Has(t.names, op.n) THEN [i \in 1..Len(Box(t, op.n).ds) |-> Box(t, op.n).ds[i].n] ELSE <<>>])
    [] op.k = "sources" -> Ret(s, [res |-> "ok", ns |-> [i \in 1..Len(s.names) |-> s.names[i].n]])
    [] op.k = "clear" -> Ok([s EXCEPT !.names = <<>>, !.boxes = <<>>])
GGood(s) ==
  /\ Cardinality({ s.names[i].n : i \in 1..Len(s.names) }) = Len(s.names)
  /\ \A i \in 1..Len(s.names) : s.names[i].b \in 1..Len(s.boxes)
  /\ \A i \in 1..Len(s.boxes) : Cardinality({ s.boxes[i].ds[j].n : j \in 1..Len(s.boxes[i].ds) }) = Len(s.boxes[i].ds)
=============================================================================
