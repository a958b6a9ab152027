-------------------------------- MODULE Doc --------------------------------
(* Geometry documents: live surfaces, solids and sketches, the documents     *)
(* written from them and the entities read back.  A live entity has a handle *)
(* (its place in `live`); solids refer to surfaces by handle, entries of a   *)
(* document refer to entries by id.  Geometry itself is opaque here (`geo`), *)
(* what matters is that it travels unchanged; metadata is layer, tags,       *)
(* material, a nested note and a name.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE NormAll(_), Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

\* A polyline comes back as its segments; every other element as itself.
Prim(k, p) == [k |-> k, p |-> p, x |-> <<>>, sub |-> <<>>]
Segments(p) == [i \in 1..(Len(p) - 1) |-> Prim("line", <<p[i], p[i + 1]>>)]
NormAll(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE LET h == Head(ps) IN
       (CASE h.k = "poly" -> Segments(h.p)
          [] h.k = "group" -> <<[h EXCEPT !.sub = NormAll(h.sub)]>>
          [] OTHER -> <<h>>) \o NormAll(Tail(ps))

\* what older documents (polylines only) hold of lines and polylines
Flat(p) == <<p[1], p[2], 0>>
RECURSIVE FlatAll(_)
FlatAll(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE LET h == Head(ps) IN
       (CASE h.k = "group" -> FlatAll(h.sub)
          [] h.k \in {"line", "poly"} -> Segments([i \in 1..Len(h.p) |-> Flat(h.p[i])])
          [] OTHER -> <<>>) \o FlatAll(Tail(ps))

NoOver == [layer |-> "", tags |-> <<>>, hastags |-> FALSE, mat |-> "", note |-> "", name |-> "", id |-> ""]
Over(m, v) == [layer |-> IF v.layer # "" THEN v.layer ELSE m.layer,
               tags |-> IF v.hastags THEN v.tags ELSE m.tags,
               mat |-> IF v.mat # "" THEN v.mat ELSE m.mat,
               note |-> IF v.note # "" THEN v.note ELSE m.note,
               name |-> IF v.name # "" THEN v.name ELSE m.name]
RootMeta == [layer |-> "default", tags |-> <<>>, mat |-> "", note |-> "", name |-> ""]

----------------------------------------------------------------------------
(* Entities have all fields; those of other kinds are empty.                 *)
Entity(t, id, meta, geo) ==
  [t |-> t, id |-> id, meta |-> meta, geo |-> geo, shell |-> <<>>, voids |-> <<>>, prims |-> <<>>]

Auto(h) == "auto" \o ToString(h)
Fresh(n) == "?" \o ToString(n)

SurfacesOf(e) == e.shell \o Concat(e.voids)

\* handles an item makes the writer visit
Visited(live, h) == {h} \cup { SurfacesOf(live[h])[i] : i \in 1..Len(SurfacesOf(live[h])) }

\* writing gives every visited entity without identity one that lasts
Named(live, hs) == [h \in 1..Len(live) |->
   IF h \in hs /\ live[h].id = "" /\ live[h].t # "sketch" THEN [live[h] EXCEPT !.id = Auto(h)] ELSE live[h]]

\* acc: [doc |-> entries, used |-> ids, n |-> fresh ids made]
Claim(acc, want) == IF want = "" \/ want \in acc.used
                    THEN [id |-> Fresh(acc.n + 1), acc |-> [acc EXCEPT !.n = acc.n + 1, !.used = acc.used \cup {Fresh(acc.n + 1)}]]
                    ELSE [id |-> want, acc |-> [acc EXCEPT !.used = acc.used \cup {want}]]

SurfEntry(live, h, v, id) == [live[h] EXCEPT !.id = id, !.meta = Over(live[h].meta, v)]

RECURSIVE WriteSurfs(_, _, _, _, _)
\* surfaces hs of a solid whose layer in the document is pl
WriteSurfs(live, hs, v, pl, a) ==
  IF hs = <<>> THEN [acc |-> a, ids |-> <<>>]
  ELSE LET h == Head(hs)
           c == Claim(a, live[h].id)
           w == [v EXCEPT !.id = "", !.layer = IF live[h].meta.layer = "default" THEN pl ELSE v.layer]
           rest == WriteSurfs(live, Tail(hs), v, pl,
                              [c.acc EXCEPT !.own = c.acc.own \o <<SurfEntry(live, h, w, c.id)>>])
       IN [acc |-> rest.acc, ids |-> <<c.id>> \o rest.ids]

RECURSIVE WriteVoids(_, _, _, _, _)
WriteVoids(live, vs, v, pl, a) ==
  IF vs = <<>> THEN [acc |-> a, ids |-> <<>>]
  ELSE LET r == WriteSurfs(live, Head(vs), v, pl, a)
           rest == WriteVoids(live, Tail(vs), v, pl, r.acc)
       IN [acc |-> rest.acc, ids |-> <<r.ids>> \o rest.ids]

WriteItem(live, it, a) ==
  LET e == live[it.h]
      v == it.over
      c == Claim(a, IF v.id # "" THEN v.id ELSE e.id)
      m == Over(e.meta, v)
  IN CASE e.t = "surface" -> [c.acc EXCEPT !.doc = @ \o <<[e EXCEPT !.id = c.id, !.meta = m]>>]
       [] e.t = "sketch" -> [c.acc EXCEPT !.doc = @ \o <<[e EXCEPT !.id = c.id, !.meta = m]>>]
       [] OTHER ->
          LET s == WriteSurfs(live, e.shell, v, m.layer, c.acc)
              w == WriteVoids(live, e.voids, v, m.layer, s.acc)
          IN [w.acc EXCEPT !.doc = @ \o <<[e EXCEPT !.id = c.id, !.meta = m, !.shell = s.ids, !.voids = w.ids]>>]

RECURSIVE WriteAll(_, _, _)
WriteAll(live, items, a) == IF items = <<>> THEN a
                            ELSE WriteAll(live, Tail(items), WriteItem(live, Head(items), a))

WriteDoc(live, items, n) ==
  LET a == WriteAll(live, items, [doc |-> <<>>, own |-> <<>>, used |-> {}, n |-> n])
  IN [entries |-> a.doc \o a.own, n |-> a.n]

----------------------------------------------------------------------------
(* Reading.  A document is well formed when every entity has an id, and what *)
(* solids refer to is there.                                                 *)
Ids(d) == { d.entries[i].id : i \in 1..Len(d.entries) }
At(d, id) == d.entries[CHOOSE i \in 1..Len(d.entries) : d.entries[i].id = id]
Refs(d) == UNION { LET s == SurfacesOf(d.entries[i]) IN { s[j] : j \in 1..Len(s) } : i \in 1..Len(d.entries) }
Readable(d) == /\ d.schema
               /\ "" \notin Ids(d)
               /\ Refs(d) \subseteq Ids(d)

\* pos: entry id -> handle, kept as a sequence of [id, h]
Known(map, id) == \E i \in 1..Len(map) : map[i].id = id
HandleOf(map, id) == map[CHOOSE i \in 1..Len(map) : map[i].id = id].h

Loaded(d, e) == IF e.t = "sketch"
                THEN [e EXCEPT !.id = "", !.meta = RootMeta, !.prims = IF d.legacy THEN FlatAll(@) ELSE NormAll(@)]
                ELSE e

RECURSIVE LoadRefs(_, _, _, _)
LoadRefs(d, ids, live, map) ==
  IF ids = <<>> THEN [live |-> live, map |-> map, hs |-> <<>>]
  ELSE LET id == Head(ids)
           new == ~Known(map, id)
           l2 == IF new THEN Append(live, At(d, id)) ELSE live
           m2 == IF new THEN Append(map, [id |-> id, h |-> Len(l2)]) ELSE map
           rest == LoadRefs(d, Tail(ids), l2, m2)
       IN [live |-> rest.live, map |-> rest.map, hs |-> <<HandleOf(m2, id)>> \o rest.hs]

RECURSIVE LoadVoids(_, _, _, _)
LoadVoids(d, vs, live, map) ==
  IF vs = <<>> THEN [live |-> live, map |-> map, hs |-> <<>>]
  ELSE LET r == LoadRefs(d, Head(vs), live, map)
           rest == LoadVoids(d, Tail(vs), r.live, r.map)
       IN [live |-> rest.live, map |-> rest.map, hs |-> <<r.hs>> \o rest.hs]

RECURSIVE LoadAll(_, _, _, _)
\* the entities of a document in its order, without surfaces owned by solids
LoadAll(d, es, live, map) ==
  IF es = <<>> THEN [live |-> live, top |-> <<>>]
  ELSE LET e == Head(es) IN
       IF e.t = "other" \/ (e.t = "surface" /\ e.id \in Refs(d)) THEN LoadAll(d, Tail(es), live, map)
       ELSE LET l1 == Append(live, Loaded(d, e))
                h == Len(l1)
                m1 == IF e.t = "surface" THEN Append(map, [id |-> e.id, h |-> h]) ELSE map
                s == LoadRefs(d, e.shell, l1, m1)
                v == LoadVoids(d, e.voids, s.live, s.map)
                l2 == [v.live EXCEPT ![h].shell = s.hs, ![h].voids = v.hs]
                rest == LoadAll(d, Tail(es), l2, v.map)
            IN [live |-> rest.live, top |-> <<h>> \o rest.top]

----------------------------------------------------------------------------
(* Observations: everything there is, by value.                              *)
Show(live, e) == [t |-> e.t, id |-> e.id, meta |-> e.meta, geo |-> e.geo, shell |-> e.shell,
                  voids |-> e.voids, prims |-> e.prims]
ShowLive(live) == [h \in 1..Len(live) |->
                     Show(live, [live[h] EXCEPT !.id = IF @ = "" /\ live[h].t # "sketch" THEN Auto(h) ELSE @])]
\* an entry with the surfaces it owns in place of references
Deref(d, ids) == [i \in 1..Len(ids) |-> IF ids[i] \in Ids(d) THEN LET s == At(d, ids[i]) IN <<s.id, s.meta, s.geo>> ELSE <<"none">>]
ShowEntry(d, e) == [t |-> e.t, id |-> e.id, meta |-> e.meta, geo |-> e.geo, prims |-> e.prims,
                    shell |-> Deref(d, e.shell), voids |-> [i \in 1..Len(e.voids) |-> Deref(d, e.voids[i])]]
RECURSIVE Tops(_, _)
Tops(d, es) == IF es = <<>> THEN <<>>
               ELSE (IF Head(es).t = "surface" /\ Head(es).id \in Refs(d) THEN <<>> ELSE <<ShowEntry(d, Head(es))>>)
                    \o Tops(d, Tail(es))
ShowDocs(docs) == [i \in 1..Len(docs) |-> Tops(docs[i], docs[i].entries)]

Out(s, res) == [st |-> s, obs |-> [res |-> res, live |-> ShowLive(s.live), docs |-> ShowDocs(s.docs)]]

SetMeta(m, f, val) == CASE f = "layer" -> [m EXCEPT !.layer = val]
                        [] f = "tag" -> [m EXCEPT !.tags = Append(@, val)]
                        [] f = "mat" -> [m EXCEPT !.mat = val]
                        [] f = "note" -> [m EXCEPT !.note = val]
                        [] OTHER -> [m EXCEPT !.name = val]

Entries(d, es) == [d EXCEPT !.entries = es]
Without(es, i) == SubSeq(es, 1, i - 1) \o SubSeq(es, i + 1, Len(es))
Tamper(d, op) ==
  CASE op.how = "schema" -> [d EXCEPT !.schema = FALSE]
    [] op.how = "noid" -> [d EXCEPT !.entries[op.i].id = ""]
    [] op.how = "drop" -> Entries(d, Without(d.entries, op.i))
    [] op.how = "front" -> Entries(d, <<d.entries[op.i]>> \o Without(d.entries, op.i))
    [] op.how = "other" -> Entries(d, SubSeq(d.entries, 1, op.i - 1) \o <<Entity("other", "o" \o ToString(op.i), RootMeta, <<>>)>>
                                      \o SubSeq(d.entries, op.i, Len(d.entries)))
    [] op.how = "share" -> [d EXCEPT !.entries[op.i].shell = Append(@, d.entries[op.j].id)]
    [] op.how = "legacy" -> [d EXCEPT !.legacy = TRUE]
    [] op.how = "edit" -> [d EXCEPT !.entries[op.i].meta = SetMeta(@, op.f, op.val)]

Writable(live, items) == \A i \in 1..Len(items) : items[i].h > 0 /\
                           \A h \in Visited(live, items[i].h) : ~ live[h].geo.bad

DocApply(s, op) ==
  LET live == s.live IN
  CASE op.k = "surface" -> Out([s EXCEPT !.live = Append(live, Entity("surface", op.id, op.meta, op.geo))], "ok")
    [] op.k = "solid" -> Out([s EXCEPT !.live = Append(live, [Entity("solid", op.id, op.meta, op.geo)
                                                              EXCEPT !.shell = op.shell, !.voids = op.voids])], "ok")
    [] op.k = "sketch" -> Out([s EXCEPT !.live = Append(live, [Entity("sketch", "", RootMeta, op.geo)
                                                               EXCEPT !.prims = op.prims])], "ok")
    \* a copy of a solid copies its surfaces; handles of the copies follow
    [] op.k = "copy" ->
         LET e == live[op.h]
             n == Len(live) + 1
             sh == e.shell
             vs == Concat(e.voids)
             surfs == [i \in 1..Len(sh \o vs) |-> live[(sh \o vs)[i]]]
             RECURSIVE Num(_, _)
             Num(v, at) == IF v = <<>> THEN <<>>
                           ELSE <<[i \in 1..Len(Head(v)) |-> at + i]>> \o Num(Tail(v), at + Len(Head(v)))
         IN Out([s EXCEPT !.live = live \o <<[e EXCEPT !.shell = [i \in 1..Len(sh) |-> n + i],
                                                     !.voids = Num(e.voids, n + Len(sh))]>> \o surfs], "ok")
    [] op.k = "set" -> Out([s EXCEPT !.live[op.h].meta = SetMeta(@, op.f, op.val)], "ok")
    [] op.k = "write" ->
         IF ~Writable(live, op.items) THEN [st |-> s, obs |-> [res |-> "ValueError"]]
         ELSE LET l2 == Named(live, UNION { Visited(live, op.items[i].h) : i \in 1..Len(op.items) })
                  w == WriteDoc(l2, op.items, s.n)
              IN Out([s EXCEPT !.live = l2, !.n = w.n,
                               !.docs = Append(@, [entries |-> w.entries, schema |-> TRUE, legacy |-> FALSE])], "ok")
    [] op.k = "tamper" -> Out([s EXCEPT !.docs[op.d] = Tamper(@, op)], "ok")
    [] op.k = "read" ->
         LET d == s.docs[op.d] IN
         IF ~Readable(d) THEN Out(s, "ValueError")
         ELSE LET r == LoadAll(d, d.entries, live, <<>>) IN Out([s EXCEPT !.live = r.live], "ok")

DocInit(i) == [live |-> <<>>, docs |-> <<>>, n |-> 0]

\* what the writer must guarantee of every document it makes
Unique(d) == \A i, j \in 1..Len(d.entries) : d.entries[i].id = d.entries[j].id => i = j
DocGood(s) == TRUE
=============================================================================
