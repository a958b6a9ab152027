---- MODULE ShapeMC ----
(* bounded model: programs of definitions over small shapes, moves, sets,     *)
(* patterns, vectors, regions and curves                                      *)
EXTENDS Shape, Json, IOUtils
CONSTANTS Depth
VARIABLES ini, st, hist, done
X(f, x, n) == [f |-> f, x |-> x, n |-> n]
Var(i) == X("var", <<>>, <<i>>)
Let(ty, e) == [k |-> "let", e |-> e, ty |-> ty, ann |-> TRUE, style |-> 0]
Of(s, ty) == { i \in 1..Len(s.env) : s.env[i].ty = ty /\ (ty # "sol" \/ (~s.env[i].hz /\ s.env[i].v # {} /\ Cardinality(s.env[i].v) < 40)) }
Ks(s) == { i \in 1..Len(s.env) : s.env[i].ty = "list" /\ s.env[i].v # <<>> /\ \A k \in 1..Len(s.env[i].v) : s.env[i].v[k].ty = "sol" }
Makers == { Let("sol", X("box", <<>>, <<2, 2, 4>>)), Let("sol", X("translate", <<X("box", <<>>, <<4, 2, 2>>)>>, <<1, 2, -1>>)),
            Let("reg", X("rectangle", <<>>, <<4, 6>>)), Let("reg", X("rectangle", <<>>, <<6, 2, 1, 0>>)),
            Let("reg", X("polygon", <<>>, <<-1, -2, 3, -2, 3, 0, 1, 0, 1, 4, -1, 4>>)),
            Let("pt", X("point", <<>>, <<1, -2, 3>>)), Let("vec", X("vector", <<>>, <<0, 2, -4>>)) }
Xforms == { Let("xf", X("translate_xform", <<>>, <<2, 0, -3>>)), Let("xf", X("rotate_xform", <<>>, <<0, 0, 1, 90>>)),
            Let("xf", X("rotate_xform", <<>>, <<1, 1, 1, 120>>)), Let("xf", X("scale_xform", <<>>, <<-1, 2, 1>>)), Let("xf", X("mirror_2d", <<>>, <<1, 1>>)) }
Mvs == { X("translate", <<>>, <<3, -1, 0>>), X("rotate", <<>>, <<90, 0, 0>>), X("rotate", <<>>, <<90, 90, 270>>), X("scale", <<>>, <<2, 1, -1>>),
         X("mirror", <<>>, <<0, 1, 0>>), X("mirror", <<>>, <<1, 0, -1>>) }
Ops(s) ==
  LET S == Of(s, "sol") R == Of(s, "reg") P == Of(s, "pt") W == Of(s, "vec") T == Of(s, "xf") K == Ks(s) G == Of(s, "seg")
  IN (IF Len(s.env) < 2 THEN Makers \cup Xforms ELSE {})
     \cup { Let("sol", X(m.f, <<Var(i)>>, m.n)) : i \in S, m \in Mvs }
     \cup { Let("sol", X("apply", <<Var(t), Var(i)>>, <<>>)) : i \in S, t \in T }
     \cup { Let("sol", X(f, <<Var(i), Var(j)>>, <<>>)) : f \in {"union", "difference", "intersection", "compound"}, i \in S, j \in S }
     \cup { Let("lsol", X("linear_pattern", <<Var(i)>>, <<2, 5, 0, 1>>)) : i \in S }
     \cup { Let("lsol", X("radial_pattern", <<Var(i)>>, <<4, 0, 0, 1, 1, 2, 0>>)) : i \in S }
     \cup { Let("lsol", X("list", <<Var(i), Var(j)>>, <<>>)) : i \in S, j \in S }
     \cup { Let("lsol", X("reverse", <<Var(i)>>, <<>>)) : i \in K }
     \cup { Let("sol", X("index", <<Var(i)>>, <<k>>)) : i \in K, k \in {0, 1, 4} }
     \cup { Let("sol", X(f, <<Var(i)>>, <<>>)) : f \in {"union_all", "intersection_all"}, i \in K }
     \cup { Let("int", X("len", <<Var(i)>>, <<>>)) : i \in K }
     \cup { Let("num", X(f, <<Var(i)>>, <<>>)) : f \in {"volume", "surface_area"}, i \in S }
     \cup { Let("pt", X("centroid", <<Var(i)>>, <<>>)) : i \in S }
     \cup { Let("reg", X(f, <<Var(i), Var(j)>>, <<>>)) : f \in {"union2d", "difference2d", "intersection2d"}, i \in R, j \in R }
     \cup { Let("num", X(f, <<Var(i)>>, <<>>)) : f \in {"area", "perimeter"}, i \in R }
     \cup { Let("pt", X(f, <<Var(i), Var(j)>>, <<>>)) : f \in {"plus", "minus"}, i \in P, j \in P \cup W }
     \cup { Let("vec", X(f, <<Var(i), Var(j)>>, <<>>)) : f \in {"plus", "minus"}, i \in W, j \in W }
     \cup { Let("vec", X("times", <<Var(i)>>, <<-3>>)) : i \in W } \cup { Let("pt", X("over", <<Var(i)>>, <<k>>)) : i \in P, k \in {2, 0} }
     \cup { Let("pt", X("apply_point", <<Var(t), Var(i)>>, <<>>)) : i \in P, t \in T }
     \cup { Let("vec", X("apply_vector", <<Var(t), Var(i)>>, <<>>)) : i \in W, t \in T }
     \cup { Let("num", X("coord", <<Var(i)>>, <<k>>)) : i \in P \cup W, k \in {1, 3} }
     \cup { Let("seg", X("line", <<Var(i), Var(j)>>, <<>>)) : i \in P, j \in P }
     \cup { Let("pt", X("sample_curve", <<Var(i)>>, <<1, k>>)) : i \in G, k \in {1, 2} }
     \cup { Let("num", X("curve_length", <<Var(i)>>, <<>>)) : i \in G }
     \cup { [k |-> "look", i |-> i] : i \in S }
M == INSTANCE ModelBase WITH ApplyOp <- SApply, InitSet <- {0}, InitState <- SInit, OpsFor <- Ops
MInit == M!MInit
MNext == M!MNext
MView == <<st, Len(hist)>>

S == Of(st, "sol")
Val(e) == Ev(st.env, e)
A1(f, i, n) == X(f, <<Var(i)>>, n)
Card(v) == Cardinality(v.v)
(* motions keep volume and area, and are undone by their inverses *)
InvMove == \A i \in S : LET a == st.env[i] IN
    /\ \A m \in Mvs : m.f # "scale" => \A b \in {Val(X(m.f, <<Var(i)>>, m.n))} : Card(b) = Card(a) /\ V!Area(b.v) = V!Area(a.v)
    /\ \A n \in {<<1, 0, 0>>, <<0, 0, 2>>, <<1, 1, 0>>} : Val(X("mirror", <<A1("mirror", i, n)>>, n)).v = a.v
    /\ Val(X("translate", <<A1("translate", i, <<3, -1, 2>>)>>, <<-3, 1, -2>>)).v = a.v
    /\ Val(X("rotate", <<A1("rotate", i, <<0, 0, 90>>)>>, <<0, 0, 270>>)).v = a.v
    /\ Val(A1("mirror", i, <<1, 0, 0>>)).v = Val(A1("scale", i, <<-1, 1, 1>>)).v
    /\ Val(A1("scale", i, <<2, 2, 2>>)).ty = "sol" => Card(Val(A1("scale", i, <<2, 2, 2>>))) = 8 * Card(a)
(* the three angles of rotate are turns about x, then y, then z *)
InvAngles == \A i \in S :
    Val(A1("rotate", i, <<90, 180, 270>>)).v = Val(X("rotate", <<X("rotate", <<A1("rotate", i, <<90, 0, 0>>)>>, <<0, 180, 0>>)>>, <<0, 0, 270>>)).v
(* a transform moves a shape as the function of the same name does *)
InvXform == \A i \in S :
    /\ Val(X("apply", <<X("translate_xform", <<>>, <<2, 1, -3>>), Var(i)>>, <<>>)).v = Val(A1("translate", i, <<2, 1, -3>>)).v
    /\ Val(X("apply", <<X("rotate_2d", <<>>, <<90>>), Var(i)>>, <<>>)).v = Val(A1("rotate", i, <<0, 0, 90>>)).v
    /\ Val(X("apply", <<X("scale_uniform", <<>>, <<-1>>), Var(i)>>, <<>>)).v = Val(A1("scale", i, <<-1, -1, -1>>)).v
    /\ Val(X("apply", <<X("mirror_y", <<>>, <<>>), Var(i)>>, <<>>)).v = Val(X("apply", <<X("mirror_2d", <<>>, <<0, 1>>), Var(i)>>, <<>>)).v
    /\ Val(X("apply", <<X("identity_transform", <<>>, <<>>), Var(i)>>, <<>>)).v = st.env[i].v
(* inclusion and exclusion where both sides are known *)
InvBool == \A i, j \in S : \A u \in {Val(X("union", <<Var(i), Var(j)>>, <<>>))}, n \in {Val(X("intersection", <<Var(i), Var(j)>>, <<>>))},
                             d \in {Val(X("difference", <<Var(i), Var(j)>>, <<>>))} :
    u.ty = "sol" => /\ Card(u) + Card(n) = Card(st.env[i]) + Card(st.env[j])
                    /\ Card(d) + Card(n) = Card(st.env[i])
                    /\ u.v = Val(X("union_all", <<X("list", <<Var(j), Var(i)>>, <<>>)>>, <<>>)).v
                    /\ d.v = Val(X("difference_all", <<Var(i), X("list", <<Var(j)>>, <<>>)>>, <<>>)).v
(* patterns start with their shape and end by turning back to it; a compound has the volume of its parts *)
InvPattern == \A i \in S :
    /\ \A q \in {Val(A1("radial_pattern", i, <<4, 0, 0, 1, 1, 2, 0>>))} : q.v[1].v = st.env[i].v /\ Len(q.v) = 4
         /\ q.v[3].v = Val(X("translate", <<X("rotate", <<A1("translate", i, <<-1, -2, 0>>)>>, <<0, 0, 180>>)>>, <<1, 2, 0>>)).v
    /\ \A q \in {Val(A1("linear_pattern", i, <<3, 0, 50, 0>>))} : q.v[3].v = Val(A1("translate", i, <<0, 100, 0>>)).v /\ Card(Compound(q.v)) = 3 * Card(st.env[i])
(* regions: area by inclusion and exclusion, rims are even *)
InvRegion == \A i, j \in Of(st, "reg") : \A u \in {Val(X("union2d", <<Var(i), Var(j)>>, <<>>))}, n \in {Val(X("intersection2d", <<Var(i), Var(j)>>, <<>>))} :
    /\ (u.ty = "reg" /\ n.ty = "reg") => Card(u) + Card(n) = Card(st.env[i]) + Card(st.env[j])
    /\ Cardinality(Rim(st.env[i].v)) % 2 = 0 /\ Cardinality(Rim(st.env[i].v)) >= 4
InvGood == SGood(st)
====
