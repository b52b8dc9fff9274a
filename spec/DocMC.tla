-------------------------------- MODULE DocMC --------------------------------
(* Walks the whole schema: for every element type, on the shortest way from  *)
(* the MPD element, a document with each child kind (and several of it),     *)
(* each attribute with each class of value, text, and everything at once.    *)
(* The laws of Doc are checked on all of them, and they are exported to be   *)
(* read and written by the library.                                          *)
EXTENDS Doc, Json


Good(kind) ==
  CASE kind = "u8" -> {[v |-> "0", c |-> <<48>>], [v |-> "1", c |-> <<49>>], [v |-> "007", c |-> <<48, 48, 55>>], [v |-> " 7 ", c |-> <<32, 55, 32>>], [v |-> "255", c |-> <<50, 53, 53>>]}
    [] kind = "u16" -> {[v |-> "0", c |-> <<48>>], [v |-> "1", c |-> <<49>>], [v |-> "007", c |-> <<48, 48, 55>>], [v |-> " 7 ", c |-> <<32, 55, 32>>], [v |-> "65535", c |-> <<54, 53, 53, 51, 53>>]}
    [] kind = "u32" -> {[v |-> "0", c |-> <<48>>], [v |-> "1", c |-> <<49>>], [v |-> "007", c |-> <<48, 48, 55>>], [v |-> " 7 ", c |-> <<32, 55, 32>>], [v |-> "4294967295", c |-> <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>]}
    [] kind = "u64" -> {[v |-> "0", c |-> <<48>>], [v |-> "1", c |-> <<49>>], [v |-> "007", c |-> <<48, 48, 55>>], [v |-> " 7 ", c |-> <<32, 55, 32>>], [v |-> "18446744073709551615", c |-> <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>]}
    [] kind = "i32" -> {[v |-> "0", c |-> <<48>>], [v |-> "1", c |-> <<49>>], [v |-> "007", c |-> <<48, 48, 55>>], [v |-> " 7 ", c |-> <<32, 55, 32>>], [v |-> "2147483647", c |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>], [v |-> "-1", c |-> <<45, 49>>], [v |-> "-2147483648", c |-> <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>]}
    [] kind = "i64" -> {[v |-> "0", c |-> <<48>>], [v |-> "1", c |-> <<49>>], [v |-> "007", c |-> <<48, 48, 55>>], [v |-> " 7 ", c |-> <<32, 55, 32>>], [v |-> "9223372036854775807", c |-> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>], [v |-> "-1", c |-> <<45, 49>>], [v |-> "-9223372036854775808", c |-> <<45, 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>]}
    [] kind = "b" -> {[v |-> "true", c |-> <<116, 114, 117, 101>>], [v |-> "false", c |-> <<102, 97, 108, 115, 101>>], [v |-> "1", c |-> <<49>>], [v |-> "0", c |-> <<48>>], [v |-> " true ", c |-> <<32, 116, 114, 117, 101, 32>>]}
    [] kind = "d" -> {[v |-> "PT0S", c |-> <<80, 84, 48, 83>>], [v |-> "PT1.5S", c |-> <<80, 84, 49, 46, 53, 83>>], [v |-> "P1DT2H", c |-> <<80, 49, 68, 84, 50, 72>>], [v |-> "PT0.0004S", c |-> <<80, 84, 48, 46, 48, 48, 48, 52, 83>>], [v |-> "PT36H", c |-> <<80, 84, 51, 54, 72>>], [v |-> "PT1M0.001S", c |-> <<80, 84, 49, 77, 48, 46, 48, 48, 49, 83>>], [v |-> "P0D", c |-> <<80, 48, 68>>]}
    [] kind = "f64" -> {[v |-> "0", c |-> <<48>>], [v |-> "1", c |-> <<49>>], [v |-> "-2.5", c |-> <<45, 50, 46, 53>>], [v |-> "0.1", c |-> <<48, 46, 49>>], [v |-> "1e3", c |-> <<49, 101, 51>>], [v |-> "12E-3", c |-> <<49, 50, 69, 45, 51>>], [v |-> "29.97", c |-> <<50, 57, 46, 57, 55>>], [v |-> " 2 ", c |-> <<32, 50, 32>>]}
    [] kind = "f32" -> {[v |-> "0", c |-> <<48>>], [v |-> "1", c |-> <<49>>], [v |-> "-2.5", c |-> <<45, 50, 46, 53>>], [v |-> "0.1", c |-> <<48, 46, 49>>], [v |-> "1e3", c |-> <<49, 101, 51>>], [v |-> "12E-3", c |-> <<49, 50, 69, 45, 51>>], [v |-> "29.97", c |-> <<50, 57, 46, 57, 55>>], [v |-> " 2 ", c |-> <<32, 50, 32>>]}
    [] kind = "finf" -> {[v |-> "0", c |-> <<48>>], [v |-> "1", c |-> <<49>>], [v |-> "-2.5", c |-> <<45, 50, 46, 53>>], [v |-> "0.1", c |-> <<48, 46, 49>>], [v |-> "1e3", c |-> <<49, 101, 51>>], [v |-> "12E-3", c |-> <<49, 50, 69, 45, 51>>], [v |-> "29.97", c |-> <<50, 57, 46, 57, 55>>], [v |-> " 2 ", c |-> <<32, 50, 32>>], [v |-> "INF", c |-> <<73, 78, 70>>]}
    [] kind = "s" -> {[v |-> "", c |-> <<>>], [v |-> "x", c |-> <<120>>], [v |-> "a b", c |-> <<97, 32, 98>>], [v |-> "0", c |-> <<48>>]}
    [] kind = "list" -> {[v |-> "", c |-> <<>>], [v |-> "x", c |-> <<120>>], [v |-> "a b  c", c |-> <<97, 32, 98, 32, 32, 99>>]}
Wrong(kind) ==
  CASE kind = "u8" -> {[v |-> "x", c |-> <<120>>], [v |-> "1.5", c |-> <<49, 46, 53>>], [v |-> "256", c |-> <<50, 53, 54>>], [v |-> "99999999999999999999999", c |-> <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>], [v |-> "0x1F", c |-> <<48, 120, 49, 70>>], [v |-> "1 2", c |-> <<49, 32, 50>>], [v |-> "-1", c |-> <<45, 49>>]}
    [] kind = "u16" -> {[v |-> "x", c |-> <<120>>], [v |-> "1.5", c |-> <<49, 46, 53>>], [v |-> "65536", c |-> <<54, 53, 53, 51, 54>>], [v |-> "99999999999999999999999", c |-> <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>], [v |-> "0x1F", c |-> <<48, 120, 49, 70>>], [v |-> "1 2", c |-> <<49, 32, 50>>], [v |-> "-1", c |-> <<45, 49>>]}
    [] kind = "u32" -> {[v |-> "x", c |-> <<120>>], [v |-> "1.5", c |-> <<49, 46, 53>>], [v |-> "4294967296", c |-> <<52, 50, 57, 52, 57, 54, 55, 50, 57, 54>>], [v |-> "99999999999999999999999", c |-> <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>], [v |-> "0x1F", c |-> <<48, 120, 49, 70>>], [v |-> "1 2", c |-> <<49, 32, 50>>], [v |-> "-1", c |-> <<45, 49>>]}
    [] kind = "u64" -> {[v |-> "x", c |-> <<120>>], [v |-> "1.5", c |-> <<49, 46, 53>>], [v |-> "18446744073709551616", c |-> <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 54>>], [v |-> "99999999999999999999999", c |-> <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>], [v |-> "0x1F", c |-> <<48, 120, 49, 70>>], [v |-> "1 2", c |-> <<49, 32, 50>>], [v |-> "-1", c |-> <<45, 49>>]}
    [] kind = "i32" -> {[v |-> "x", c |-> <<120>>], [v |-> "1.5", c |-> <<49, 46, 53>>], [v |-> "2147483648", c |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>], [v |-> "99999999999999999999999", c |-> <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>], [v |-> "0x1F", c |-> <<48, 120, 49, 70>>], [v |-> "1 2", c |-> <<49, 32, 50>>], [v |-> "-2147483649", c |-> <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 57>>]}
    [] kind = "i64" -> {[v |-> "x", c |-> <<120>>], [v |-> "1.5", c |-> <<49, 46, 53>>], [v |-> "9223372036854775808", c |-> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>], [v |-> "99999999999999999999999", c |-> <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>], [v |-> "0x1F", c |-> <<48, 120, 49, 70>>], [v |-> "1 2", c |-> <<49, 32, 50>>], [v |-> "-9223372036854775809", c |-> <<45, 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 57>>]}
    [] kind = "b" -> {[v |-> "maybe", c |-> <<109, 97, 121, 98, 101>>], [v |-> "2", c |-> <<50>>], [v |-> "10", c |-> <<49, 48>>], [v |-> "truefalse", c |-> <<116, 114, 117, 101, 102, 97, 108, 115, 101>>]}
    [] kind = "d" -> {[v |-> "1S", c |-> <<49, 83>>], [v |-> "PT", c |-> <<80, 84>>], [v |-> "P1Y", c |-> <<80, 49, 89>>], [v |-> "PT1H ", c |-> <<80, 84, 49, 72, 32>>], [v |-> "PTS", c |-> <<80, 84, 83>>], [v |-> "x", c |-> <<120>>], [v |-> "PT99999999999H", c |-> <<80, 84, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 72>>]}
    [] kind = "f64" -> {[v |-> "abc", c |-> <<97, 98, 99>>], [v |-> "1.2.3", c |-> <<49, 46, 50, 46, 51>>], [v |-> "--1", c |-> <<45, 45, 49>>]}
    [] kind = "f32" -> {[v |-> "abc", c |-> <<97, 98, 99>>], [v |-> "1.2.3", c |-> <<49, 46, 50, 46, 51>>]}
    [] kind = "finf" -> {[v |-> "abc", c |-> <<97, 98, 99>>], [v |-> "1.2.3", c |-> <<49, 46, 50, 46, 51>>]}
    [] kind = "s" -> {}
    [] kind = "list" -> {}
Common(kind) == CASE kind \in Ints -> [v |-> "5", c |-> <<53>>]
                  [] kind = "b" -> [v |-> "true", c |-> <<116, 114, 117, 101>>]
                  [] kind = "d" -> [v |-> "PT2.5S", c |-> <<80, 84, 50, 46, 53, 83>>]
                  [] kind \in Floats -> [v |-> "1.5", c |-> <<49, 46, 53>>]
                  [] OTHER -> [v |-> "val", c |-> <<118, 97, 108>>]

DASH == "urn:mpeg:dash:schema:mpd:2011"
HasSp(c) == \E j \in DOMAIN c : c[j] = 32
At0(spec, val) == [s |-> spec.s, n |-> spec.n, v |-> val.v, c |-> val.c,
                   w |-> IF val.v = "a b  c" THEN <<"a", "b", "", "c">> ELSE IF val.v = "a b" THEN <<"a", "b">> ELSE <<>>]
NS(spec, par) == CASE spec.s = SAME -> par
                   [] spec.s = READ -> IF par \in SCTE THEN par ELSE "http://www.scte.org/schemas/35"
                   [] OTHER -> spec.s
Nd(s, n, a, k, t) == [s |-> s, n |-> n, a |-> a, k |-> k, t |-> t, w |-> t = "", x |-> "", i |-> FALSE]

(* shortest chains of child kinds from MPD to every type                     *)
RECURSIVE BFS(_)
BFS(M) ==
  LET new == {t \in DOMAIN Types \ DOMAIN M : \E q \in DOMAIN M : \E k \in Seq2Set(Types[q].kids) : k.t = t} IN
  IF new = {} THEN M
  ELSE BFS([t \in DOMAIN M \cup new |->
              IF t \in DOMAIN M THEN M[t]
              ELSE LET q == CHOOSE q \in DOMAIN M : \E k \in Seq2Set(Types[q].kids) : k.t = t IN
                   Append(M[q], CHOOSE k \in Seq2Set(Types[q].kids) : k.t = t)])
PathOf == BFS([x \in {"MPD"} |-> <<>>])

(* the document whose innermost element (at the end of the chain) is given   *)
(* by its content                                                            *)
RECURSIVE Wrap(_, _, _, _)
Wrap(chain, s, n, content) ==
  IF chain = <<>> THEN Nd(s, n, content.a, content.k, content.t)
  ELSE Nd(s, n, <<>>, <<Wrap(Tail(chain), NS(Head(chain), s), Head(chain).n, content)>>, "")
RECURSIVE ChainNS(_, _)
ChainNS(chain, s) == IF chain = <<>> THEN s ELSE ChainNS(Tail(chain), NS(Head(chain), s))
DocWith(T, content) == Wrap(PathOf[T], DASH, "MPD", content)
NsOf(T) == ChainNS(PathOf[T], DASH)

SampleText(t) == IF Types[t].text = "text" THEN "text" ELSE ""
Leaf(k, par) == Nd(NS(k, par), k.n, <<>>, <<>>, SampleText(k.t))
Full(k, par) == Nd(NS(k, par), k.n,
                   [j \in DOMAIN Types[k.t].attrs |-> At0(Types[k.t].attrs[j], Common(Types[k.t].attrs[j].k))], <<>>, SampleText(k.t))

(* a case is [T, what, j, m, val]                                            *)
KidCases(T) == {[T |-> T, what |-> "kid", j |-> j, m |-> m, val |-> Common("s")] :
                  j \in DOMAIN Types[T].kids, m \in 1..3}
AttrCases(T, good) == UNION {{[T |-> T, what |-> "attr", j |-> j, m |-> 1, val |-> v] :
                  v \in IF good THEN Good(Types[T].attrs[j].k) ELSE Wrong(Types[T].attrs[j].k)} : j \in DOMAIN Types[T].attrs}
AllCases(T) == {[T |-> T, what |-> w, j |-> 1, m |-> 1, val |-> Common("s")] : w \in {"empty", "text", "allattrs", "allkids", "nested"}}

Content(c) ==
  LET ty == Types[c.T]
      ns == NsOf(c.T) IN
  CASE c.what = "kid" ->
         LET k == ty.kids[c.j]
             n == IF k.many THEN c.m ELSE 1 IN
         [a |-> <<>>, t |-> "", k |-> [x \in 1..n |-> IF x = 1 THEN Full(k, ns) ELSE Leaf(k, ns)]]
    [] c.what = "attr" -> [a |-> <<At0(ty.attrs[c.j], c.val)>>, t |-> "", k |-> <<>>]
    [] c.what = "text" -> [a |-> <<>>, t |-> SampleText(c.T), k |-> <<>>]
    [] c.what = "allattrs" -> [a |-> [j \in DOMAIN ty.attrs |-> At0(ty.attrs[j], Common(ty.attrs[j].k))], t |-> "", k |-> <<>>]
    [] c.what = "allkids" -> [a |-> <<>>, t |-> "", k |-> [j \in DOMAIN ty.kids |-> Full(ty.kids[j], ns)]]
    [] c.what = "nested" -> [a |-> [j \in DOMAIN ty.attrs |-> At0(ty.attrs[j], Common(ty.attrs[j].k))], t |-> "",
                             k |-> [j \in 1..(2 * Len(ty.kids)) |->
                                      IF j <= Len(ty.kids) THEN Full(ty.kids[j], ns)
                                      ELSE LET k == ty.kids[2 * Len(ty.kids) + 1 - j] IN
                                           IF k.many THEN Leaf(k, ns) ELSE Nd("urn:skip", "skip", <<>>, <<>>, "")]]
    [] OTHER -> [a |-> <<>>, t |-> "", k |-> <<>>]

VARIABLE c
Nil == [T |-> "", what |-> "", j |-> 0, m |-> 0, val |-> Common("s")]
Init == c = Nil
Next == /\ c = Nil \/ c.what = "type"
        /\ c' \in IF c = Nil THEN {[Nil EXCEPT !.T = t, !.what = "type"] : t \in DOMAIN PathOf}
                  ELSE KidCases(c.T) \cup AttrCases(c.T, TRUE) \cup AttrCases(c.T, FALSE) \cup AllCases(c.T)
Spec == Init /\ [][Next]_c
IsCase == c.what \notin {"", "type"}
D == DocWith(c.T, Content(c))

RECURSIVE Noise(_)
Noise(d) == [d EXCEPT !.a = Append(@, [s |-> "urn:noise", n |-> "zz", v |-> "1", c |-> <<>>, w |-> <<>>]),
                      !.k = <<Nd("urn:noise", "Zz", <<>>, <<Nd(DASH, "Period", <<>>, <<>>, "")>>, "t")>> \o [j \in DOMAIN @ |-> Noise(@[j])]]
RECURSIVE AnyKept(_, _)
AnyKept(T, d) == Types[T].any \/ \E j \in DOMAIN d.k : \E k \in KidsOf(T, d, d.k[j]) : AnyKept(k.t, d.k[j])
RECURSIVE Strip(_, _)
Strip(T, d) == [d EXCEPT !.k = SelectSeq(d.k, LAMBDA x : KnownKid(T, d, x))]

(* laws *)
Reflexive == IsCase /\ AllGood("MPD", D) /\ c.what # "nested" => Diff("MPD", D, D, "") = ""
Exclusive == IsCase => ~(HasBadValue("MPD", D) /\ AllGood("MPD", D))
Decided   == IsCase => HasBadValue("MPD", D) \/ AllGood("MPD", D)
NoiseFree == IsCase /\ AllGood("MPD", D) /\ c.what # "nested" /\ ~AnyKept("MPD", D) => Diff("MPD", Noise(D), D, "") = ""
NoHom     == IsCase => ~HasHomonym("MPD", D) /\ ~HasHomonym("MPD", Noise(D))
(* a document without the attribute or children says something else, unless  *)
(* the value is the zero value                                               *)
Bare == DocWith(c.T, [a |-> <<>>, k |-> <<>>, t |-> ""])
Sharp == /\ c.what = "attr" /\ AllGood("MPD", D) =>
              LET sp == Types[c.T].attrs[c.j] IN
              (Diff("MPD", D, Bare, "") = "") <=> (~sp.p /\ IsZero(sp.k, At0(sp, c.val)))
         /\ c.what = "kid" => (Diff("MPD", D, Bare, "") # "")
         /\ c.what = "kid" => (Diff("MPD", Bare, D, "") # "")
Reached == DOMAIN PathOf = DOMAIN Types
Laws == Reflexive /\ Exclusive /\ Decided /\ NoiseFree /\ NoHom /\ Sharp /\ Reached

Export == IF IsCase THEN PrintT("##" \o ToJson([id |-> c.T \o ":" \o c.what \o ":" \o ToString(c.j) \o ":" \o ToString(c.m) \o ":" \o c.val.v, d |-> D]))
          ELSE IF c = Nil THEN PrintT("##" \o ToJson([id |-> "schema", d |-> Types])) ELSE TRUE
ExportSchema == PrintT("##" \o ToJson([id |-> "schema", d |-> Types]))
SchemaOnly == c = Nil /\ UNCHANGED c
SpecSchema == Init /\ [][SchemaOnly]_c
=============================================================================
