------------------------------ MODULE TagTextMC ------------------------------
(* The texts of struct tags (property C19): which describe something, and    *)
(* what.  A text is [ns, segs, fl]: a namespace and a space in front (hasns), *)
(* the names between '>' (each with a prefix or without), and the words after *)
(* commas.  All texts within the bounds are the tag of a field, and of        *)
(* XMLName (what "name"), and of a field of a type with an XMLName (urn:t     *)
(* p:A) of its own ("typed"), in a type with a value that is written and a        *)
(* document that is read.                                                     *)
EXTENDS Tags, Json
CONSTANTS MaxFlags
VARIABLES what, ns, segs, fl, val
vars == <<what, ns, segs, fl, val>>

Modes == {"attr", "cdata", "chardata", "innerxml", "comment", "any"}
FlagWords == Modes \cup {"omitempty", "", "attrs"}
Range(q) == {q[i] : i \in DOMAIN q}
Sg(p, n) == [p |-> p, n |-> n]
Blank == Sg("", "")
Names == {<<Blank>>, <<Sg("", "A")>>, <<Sg("p", "A")>>, <<Sg("", "-")>>,
          <<Sg("", "A"), Sg("", "B")>>, <<Sg("", "A"), Sg("p", "B")>>, <<Sg("p", "A"), Sg("", "B")>>, <<Blank, Sg("", "B")>>, <<Sg("", "A"), Blank>>, <<Blank, Blank>>,
          <<Sg("", "A"), Sg("", "B"), Sg("", "C")>>, <<Sg("", "A"), Blank, Sg("", "C")>>, <<Blank, Sg("", "B"), Sg("", "C")>>, <<Sg("", "A"), Sg("", "B"), Blank>>}
Spaces == {"none", "", "urn:t"}   \* "": a space without a namespace in front

RECURSIVE Join(_, _)
Join(q, by) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o by \o Join(Tail(q), by)
SegText(g) == IF g.p = "" THEN g.n ELSE g.p \o ":" \o g.n
TagText(z, g, f) == (IF z = "none" THEN "" ELSE z \o " ") \o Join([i \in DOMAIN g |-> SegText(g[i])], ">") \o Join(<<"">> \o f, ",")

(* ---- what a text denotes: [m, s, p, n, par, om]; m "bad" when it cannot be *)
(* used, "open" when the names are none                                       *)
Mode(f) == Range(f) \cap Modes
Uri(z) == IF z = "none" THEN "" ELSE z
Nothing(m) == [m |-> m, s |-> "", p |-> "", n |-> "", par |-> <<>>, om |-> FALSE]
Unnamed == {"cdata", "chardata", "innerxml", "comment", "any"}
TextBad(z, g, f, of) ==
  LET m == Mode(f)
      om == "omitempty" \in Range(f) IN
  \/ m # {} /\ m # {"any", "attr"} /\ ~(\E x \in Modes : m = {x})
  \/ m # {} /\ of = "name"
  \/ m \notin {{}, {"attr"}} /\ g # <<Blank>>                      \* a name where none is used
  \/ om /\ m \cap {"attr", "any"} = {} /\ m # {}
  \/ Uri(z) # "" /\ g = <<Blank>>                                  \* a namespace without a name
  \/ of = "typed" /\ m = {} /\ g[Len(g)] \notin {Blank} /\ g[Len(g)].n # "A"    \* another name than the XMLName
  \/ of # "name" /\ Len(g) > 1 /\ (g[Len(g)] = Blank \/ m # {})   \* a path that leads nowhere
TextOpen(z, g, f, of) ==
  \/ \E i \in 2..(Len(g) - 1) : g[i] = Blank
  \/ \E i \in DOMAIN g : g[i].n = "-"
  \/ g[Len(g)].p # "" /\ Uri(z) = ""
  \/ of = "name" /\ Len(g) > 1
  \/ of = "typed" /\ (Mode(f) # {} \/ (g[1] = Blank /\ Len(g) > 1))
Out(m) == IF m = {} THEN "elem" ELSE IF m = {"any", "attr"} THEN "anyattr" ELSE IF m = {"innerxml"} THEN "inner" ELSE CHOOSE x \in m : TRUE
Denote(z, g, f, of, name) ==
  IF z = "none" /\ g = <<Sg("", "-")>> /\ f = <<>> THEN Nothing("dash")
  ELSE IF TextBad(z, g, f, of) THEN Nothing("bad")
  ELSE IF TextOpen(z, g, f, of) THEN Nothing("open")
  ELSE IF of = "typed" /\ g = <<Blank>> THEN [m |-> "elem", s |-> "urn:t", p |-> "p", n |-> "A", par |-> <<>>, om |-> "omitempty" \in Range(f)]
  ELSE LET m == Out(Mode(f))
           h == IF g[1] = Blank THEN <<Sg("", name)>> \o Tail(g) ELSE g
           last == h[Len(h)] IN
       [m |-> m, s |-> Uri(z), p |-> last.p, n |-> IF m \in {"elem", "attr"} THEN last.n ELSE "",
        par |-> [i \in 1..(Len(h) - 1) |-> h[i].n], om |-> "omitempty" \in Range(f)]
D == Denote(ns, segs, fl, what, IF what = "name" THEN "" ELSE "F1")

(* ---- types and values with it                                             *)
None0 == [xn |-> "none", s |-> "", p |-> "", n |-> "", f |-> <<>>]
Fld(m, n) == [m |-> m, s |-> "", p |-> "", n |-> n, par |-> <<>>, om |-> FALSE, k |-> "s", ptr |-> FALSE, sl |-> FALSE, t |-> None0,
           eb |-> 0, ebp |-> FALSE, d |-> 0, bare |-> FALSE]
TN == [xn |-> "tag", s |-> "urn:t", p |-> "p", n |-> "A", f |-> <<Fld("chardata", "")>>]
TV == [xn |-> "var", s |-> "", p |-> "", n |-> "", f |-> <<Fld("chardata", "")>>]
Txt == TagText(ns, segs, fl)
Tagged == [tag |-> Txt] @@ [Fld(D.m, D.n) EXCEPT !.s = D.s, !.p = D.p, !.par = D.par, !.om = D.om,
             !.k = IF D.m = "any" \/ what = "typed" THEN "struct" ELSE IF D.m = "anyattr" THEN "attr" ELSE "s", !.sl = D.m \in {"any", "anyattr"},
             !.t = IF what = "typed" THEN TN ELSE IF D.m = "any" THEN TV ELSE None0]
Type == IF what # "name" THEN [xn |-> "tag", s |-> "", p |-> "", n |-> "root", f |-> <<Tagged, Fld("attr", "other")>>]
        ELSE [xt |-> Txt] @@ [xn |-> IF D.m = "dash" THEN "none" ELSE IF D.m \in {"bad", "open"} THEN D.m ELSE IF D.n = "" THEN "var" ELSE "tag",
              s |-> D.s, p |-> D.p, n |-> D.n, f |-> <<Fld("attr", "other"), Fld("elem", "E")>>]
cV == <<118, 60>>
cRaw == <<60, 122, 122, 62, 60, 47, 122, 122, 62>>
One(c) == [nil |-> FALSE, off |-> FALSE, l |-> <<[c |-> c]>>]
Many(l) == [nil |-> FALSE, off |-> FALSE, l |-> l]
Item == IF what = "typed" THEN Many(<<[st |-> [nm |-> [s |-> "", n |-> ""], v |-> <<One(IF val = 0 \/ D.m = "dash" THEN <<>> ELSE cV)>>]]>>)
        ELSE IF D.m = "any" THEN Many(IF val = 0 THEN <<>> ELSE <<[st |-> [nm |-> [s |-> "", n |-> "y"], v |-> <<One(cV)>>]]>>)
        ELSE IF D.m = "anyattr" THEN Many(IF val = 0 THEN <<>> ELSE <<[s |-> "", n |-> "y", c |-> cV]>>)
        ELSE One(IF val = 0 \/ D.m = "dash" THEN <<>> ELSE IF D.m = "inner" THEN cRaw ELSE cV)
NoName == [s |-> "", n |-> ""]
Value == [nm |-> NoName, v |-> IF what # "name" THEN <<Item, One(<<111>>)>> ELSE <<One(IF val = 0 THEN <<>> ELSE cV), One(cV)>>]
Zero == IF D.m \in {"bad", "open"} THEN [Value EXCEPT !.nm = NoName] ELSE ZeroOf(Type)
Begin == [use |-> what = "name" /\ Type.xn \in {"none", "var"}, s |-> "", n |-> "root", a |-> <<>>]
Root(z, n) == [s |-> z, n |-> n, a |-> <<[s |-> "", n |-> "other", c |-> cV]>>, raw |-> cRaw,
            i |-> <<[t |-> "e", c |-> <<>>, e |-> [s |-> "", n |-> "zz", a |-> <<>>, raw |-> <<>>, i |-> <<>>]]>>]
Doc == IF what = "name" /\ Type.xn = "tag" /\ val = 0 THEN Root(D.s, D.n) ELSE Root("", "root")

Init == what \in {"field", "name", "typed"} /\ ns \in Spaces /\ segs \in Names /\ fl = <<>> /\ val \in {0, 1}
Next == Len(fl) < MaxFlags /\ \E w \in FlagWords : fl' = Append(fl, w) /\ UNCHANGED <<what, ns, segs, val>>
Spec == Init /\ [][Next]_vars

Swap(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Laws ==
  LET F1 == IF what = "name" THEN "" ELSE "F1"
      De(z, g, f) == Denote(z, g, f, what, F1) IN
  \* the order of the words, their repetition, and words that are unknown mean nothing
  /\ fl # <<>> => /\ De(ns, segs, Swap(fl)) = D /\ De(ns, segs, fl \o fl) = D
                  /\ De(ns, segs, Append(fl, "attrs")) = D /\ De(ns, segs, <<"">> \o fl) = D
  \* what is bad stays so with another kind of place in it
  /\ D.m = "bad" /\ what # "typed" => \A w \in Modes : De(ns, segs, Append(fl, w)).m \in {"bad"} \cup (IF {w} \cup Mode(fl) = {"any", "attr"} THEN {"anyattr"} ELSE {}) \cup (IF "omitempty" \in Range(fl) THEN {"attr", "any"} ELSE {}) \cup (IF fl = <<>> \/ Mode(fl) = {} THEN {"attr"} ELSE {})
  \* only attributes and elements have names, only elements paths
  /\ D.n # "" => D.m \in {"elem", "attr"}
  /\ D.par # <<>> => D.m = "elem"
  /\ D.m \in {"elem", "attr"} => (D.n # "" \/ what = "name")
  /\ D.om => D.m \in {"elem", "attr", "any", "anyattr"}
  /\ what = "typed" => D.m \in {"elem", "dash", "bad", "open"}
  /\ Len(segs) > 1 /\ segs[Len(segs)] = Blank => D.m \in {"bad", "open"}
Export == (D.m \in {"bad", "open"} /\ val = 1) \/ PrintT("##" \o ToJson([t |-> Type, x |-> Value, start |-> Begin, prior |-> Zero, el |-> Doc]))
=============================================================================
