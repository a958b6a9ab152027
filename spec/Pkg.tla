------------------------------- MODULE Pkg -------------------------------
(* A package: a directory of files with a manifest that lists some of them    *)
(* with content hashes.  A content is an integer (equal contents, equal       *)
(* integers; 1..99 are geometry documents of the entity list GEOS[c], 100..   *)
(* are arbitrary bytes); a hash is [a |-> algorithm, c |-> content].          *)
(* A path is a sequence of segments; ".." climbs.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoHash == [a |-> "", c |-> 0]
NoMan == [has |-> FALSE]
PRIM == <<"geometry", "primary.json">>
MAN == <<"manifest.yaml">>

(* ------------------------------------------------------------ paths *)
RECURSIVE Lowest(_, _)
\* lowest depth reached while walking the path from the root
Lowest(p, d) == IF p = <<>> THEN d
               ELSE IF d < 0 THEN d
               ELSE Lowest(Tail(p), IF Head(p) = ".." THEN d - 1 ELSE d + 1)
Escapes(p) == Lowest(p, 0) < 0
RECURSIVE Clean(_)
Clean(p) == IF \E i \in 1..Len(p) - 1 : p[i] # ".." /\ p[i + 1] = ".."
            THEN LET i == CHOOSE j \in 1..Len(p) - 1 : p[j] # ".." /\ p[j + 1] = ".."
                                                     /\ \A m \in 1..j - 1 : ~(p[m] # ".." /\ p[m + 1] = "..")
                 IN Clean(SubSeq(p, 1, i - 1) \o SubSeq(p, i + 2, Len(p)))
            ELSE p

(* ------------------------------------------------------------ files *)
Has(f, p) == Clean(p) \in DOMAIN f
At(f, p) == f[Clean(p)]
Put(f, p, c) == [q \in DOMAIN f \cup {Clean(p)} |-> IF q = Clean(p) THEN c ELSE f[q]]
Del(f, p) == [q \in DOMAIN f \ {Clean(p)} |-> f[q]]
HashOf(a, c) == [a |-> a, c |-> c]

(* ------------------------------------------------------- entities *)
RECURSIVE Uniq(_, _)
Uniq(s, acc) == IF s = <<>> THEN acc
                ELSE Uniq(Tail(s), IF \E i \in 1..Len(acc) : acc[i] = Head(s) THEN acc ELSE Append(acc, Head(s)))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
TagsOf(es) == Uniq(Flat([i \in 1..Len(es) |-> es[i].tags]), <<>>)
MatsOf(es) == Uniq(Flat([i \in 1..Len(es) |-> IF es[i].mat = "" THEN <<>> ELSE <<es[i].mat>>]), <<>>)

(* ------------------------------------------------------ materials *)
(* material definition: [id, src, color]; verdict of one definition *)
SrcTypes == {"standard", "vendor", "custom", "tested"}
MatBad(m) == m.src \notin SrcTypes \/ m.color \in {"short", "long", "text"} \/ m.src = "notdict"
MatWarns(m, strict) ==
  IF m.src \in {"none", "notdict"} THEN 0
  ELSE (IF m.src = "standard" THEN m.stdmiss ELSE 0)
     + (IF m.color \in {"high", "neg", "word"} THEN 1 ELSE 0)
     + (IF m.metal \in {"high", "neg", "text"} THEN 1 ELSE 0)
     + (IF m.rough \in {"high", "neg", "text"} THEN 1 ELSE 0)
     + (IF strict /\ ~m.props THEN 1 ELSE 0)
RECURSIVE SumW(_, _)
SumW(ms, s) == IF ms = <<>> THEN 0 ELSE MatWarns(Head(ms), s) + SumW(Tail(ms), s)
Placeholder(id) == [id |-> id, src |-> "custom", color |-> "ok", metal |-> "zero", rough |-> "ok", props |-> FALSE, stdmiss |-> 0]

(* ------------------------------------------------------ validation *)
Entries(m) == m.der \o m.exp \o m.att
Wrong(f, e) == IF Escapes(e.p) THEN "escape"
               ELSE IF ~Has(f, e.p) THEN "missing"
               ELSE IF e.h # NoHash /\ e.h.c # At(f, e.p) THEN "mismatch"
               ELSE "ok"
\* is the file a geometry document?
IsGeo(c) == c \in 1..99
Verdict(f, m, strict) ==
  LET p == m.prim
      w == IF p.has THEN Wrong(f, p) ELSE "noprim"
      pb == w # "ok" \/ ~IsGeo(At(f, p.p))
      bad == { e \in { Entries(m)[i] : i \in 1..Len(Entries(m)) } : Wrong(f, e) # "ok" }
      mb == { i \in 1..Len(m.mats) : MatBad(m.mats[i]) }
      se == m.exp \o m.att
      nohash == Cardinality({ i \in 1..Len(se) : se[i].h = NoHash })
  IN IF ~p.has
     THEN [ok |-> FALSE, files |-> <<>>, mats |-> <<>>, warns |-> 0, early |-> TRUE]
     ELSE [ok |-> m.schema /\ ~pb /\ bad = {} /\ mb = {},
           \* which listed files are reported, the primary first
           files |-> LET wrong == { Clean(e.p) : e \in bad } \cup (IF w # "ok" THEN {Clean(p.p)} ELSE {})
                     IN <<Clean(p.p) \in wrong>> \o [i \in 1..Len(Entries(m)) |-> Clean(Entries(m)[i].p) \in wrong],
           mats |-> [i \in 1..Len(m.mats) |-> i \in mb],
           warns |-> SumW(m.mats, strict) + (IF strict THEN nohash ELSE 0), early |-> FALSE]

(* --------------------------------------------------------- rehash *)
Re(f, a, e) == IF ~Escapes(e.p) /\ Has(f, e.p) THEN [e EXCEPT !.h = HashOf(a, At(f, e.p))] ELSE e
ReAll(f, a, s) == [i \in 1..Len(s) |-> Re(f, a, s[i])]
Rehash(f, a, m) == [m EXCEPT !.prim = IF m.prim.has THEN Re(f, a, m.prim) ELSE m.prim,
                             !.der = ReAll(f, a, m.der), !.exp = ReAll(f, a, m.exp), !.att = ReAll(f, a, m.att)]
Without(s, p) == SelectSeq(s, LAMBDA e : e.p # p)

(* st: files on disk; disk: the manifest on disk; mem: the handle in use *)
PkInit(i) == [f |-> << >>, disk |-> NoMan, mem |-> NoMan, paths |-> i.paths]
\* what is seen after every operation: the handle's manifest, the content of every path of interest, and that no
\* other file appeared, inside or outside the package
See(st, r) == [st |-> st, obs |-> r @@ [man |-> st.mem, stray |-> <<>>,
                 files |-> [i \in 1..Len(st.paths) |-> IF Has(st.f, st.paths[i]) THEN At(st.f, st.paths[i]) ELSE 0]]]
Ok(st) == See(st, [res |-> "ok"])
Rej(st) == See(st, [res |-> "rejected"])
Fresh(op) ==
  [has |-> TRUE, schema |-> TRUE,
   prim |-> [has |-> TRUE, p |-> PRIM, h |-> HashOf(op.alg, op.c), ids |-> [i \in 1..Len(op.ents) |-> op.ents[i].id]],
   der |-> <<>>, exp |-> <<>>, att |-> <<>>,
   tags |-> TagsOf(op.ents),
   mats |-> IF op.mats # <<>> THEN op.mats
            ELSE LET r == MatsOf(op.ents) IN [i \in 1..Len(r) |-> Placeholder(r[i])],
   meta |-> op.meta]
PkApply(st, op) ==
  CASE op.k = "create" ->
        IF op.ents = <<>> \/ (~op.ow /\ (DOMAIN st.f # {} \/ st.disk.has)) THEN Rej(st)
        ELSE LET m == Fresh(op) IN Ok([st EXCEPT !.f = Put(st.f, PRIM, op.c), !.disk = m, !.mem = m])
    [] op.k = "load" -> IF st.disk.has THEN Ok([st EXCEPT !.mem = st.disk]) ELSE Rej(st)
    [] op.k = "save" -> Ok([st EXCEPT !.disk = st.mem])
    [] op.k = "rehash" -> Ok([st EXCEPT !.mem = Rehash(st.f, op.alg, st.mem)])
    [] op.k = "add" ->
        LET p == IF op.dest # <<>> THEN op.dest
                 ELSE IF op.cat = "derived" THEN <<"geometry", "derived", op.name>> ELSE <<"attachments", op.name>>
            e == [p |-> p, h |-> HashOf("sha256", op.c), x |-> op.x]
            f2 == Put(st.f, p, op.c)
        IN IF op.c = 0 \/ op.cat \notin {"derived", "attachments"} \/ op.abs \/ Escapes(p)
              \/ (Has(st.f, p) /\ ~op.ow)
           THEN Rej(st)
           ELSE IF op.cat = "derived"
           THEN Ok([st EXCEPT !.f = f2, !.mem.der = Append(Without(st.mem.der, p), e)])
           ELSE Ok([st EXCEPT !.f = f2, !.mem.att = Append(Without(st.mem.att, p), e)])
    \* what the world (or the user's editor) does to a package
    [] op.k = "write" -> Ok([st EXCEPT !.f = Put(st.f, op.p, op.c)])
    [] op.k = "delete" -> Ok([st EXCEPT !.f = Del(st.f, op.p)])
    [] op.k = "nomanifest" -> Ok([st EXCEPT !.disk = NoMan])
    [] op.k = "entry" -> Ok([st EXCEPT !.mem[op.sec] = Append(@, op.e)])
    [] op.k = "drop" -> Ok([st EXCEPT !.mem[op.sec] = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)])
    [] op.k = "unhash" -> Ok([st EXCEPT !.mem[op.sec] = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![1].h = NoHash]])
    [] op.k = "primhash" -> Ok([st EXCEPT !.mem.prim = IF st.mem.prim.has THEN [@ EXCEPT !.h = op.h] ELSE @])
    [] op.k = "schema" -> Ok([st EXCEPT !.mem.schema = op.good])
    [] op.k = "noprim" -> Ok([st EXCEPT !.mem.prim = [has |-> FALSE]])
    [] op.k = "mats" -> Ok([st EXCEPT !.mem.mats = op.mats])
    \* judged from the manifest on disk
    [] op.k = "validate" ->
        IF ~st.disk.has THEN See(st, [res |-> "ok", v |-> [ok |-> FALSE, files |-> <<>>, mats |-> <<>>, warns |-> 0, early |-> TRUE]])
        ELSE See(st, [res |-> "ok", v |-> Verdict(st.f, st.disk, op.strict)])
    [] op.k = "geometry" ->
        IF st.mem.prim.has /\ Has(st.f, st.mem.prim.p) /\ IsGeo(At(st.f, st.mem.prim.p))
        THEN See(st, [res |-> "ok", c |-> At(st.f, st.mem.prim.p)])
        ELSE See(st, [res |-> "rejected", c |-> 0])

(* ------------------------------------------------------------ laws *)
\* a package just created or rehashed and saved, with every listed file there, is valid (materials and schema aside)
Clear(m) == m.has /\ m.schema /\ m.prim.has /\ \A i \in 1..Len(m.mats) : ~MatBad(m.mats[i])
AllThere(f, m) == \A i \in 1..Len(Entries(m)) : Wrong(f, Entries(m)[i]) \in {"ok", "mismatch"}
LawRehash(st) == (Clear(st.mem) /\ Wrong(st.f, st.mem.prim) \in {"ok", "mismatch"} /\ IsGeo(At(st.f, st.mem.prim.p))
                    /\ AllThere(st.f, st.mem))
                 => Verdict(st.f, Rehash(st.f, "sha256", st.mem), TRUE).ok
\* nothing is recorded outside the package by the library
Contained(st) == \A q \in DOMAIN st.f : ~Escapes(q)
\* changing any hashed file of a valid package makes it invalid
LawTamper(st) == (st.disk.has /\ Verdict(st.f, st.disk, FALSE).ok) =>
   \A i \in 1..Len(Entries(st.disk)) :
      LET e == Entries(st.disk)[i]
      IN e.h # NoHash => ~Verdict(Put(st.f, e.p, 0 - 1), st.disk, FALSE).ok
                         /\ ~Verdict(Del(st.f, e.p), st.disk, FALSE).ok
PkGood(st) == Contained(st)
=============================================================================
