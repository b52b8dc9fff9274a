--------------------------------- MODULE Doc ---------------------------------
(* What a document says, and when two documents say the same.                *)
(* A node is [s, n, a, k, t, w, x, i]: namespace, local name, attributes,    *)
(* child elements, character data, whether that is white space only, the     *)
(* canonical content (Ext elements), and whether that content uses           *)
(* declarations made outside the element.                                    *)
EXTENDS Values, MpdSchema, FiniteSets

SCTE == {"http://www.scte.org/schemas/35", "http://www.scte.org/schemas/35/2016"}

Seq2Set(s) == {s[j] : j \in DOMAIN s}
(* the attribute and child tables, indexed                                   *)
AttrMap == [t \in DOMAIN Types |->
  LET A0 == Types[t].attrs IN
  [x \in {<<A0[j].s, A0[j].n>> : j \in DOMAIN A0} |-> CHOOSE a \in Seq2Set(A0) : <<a.s, a.n>> = x]]
KidMap == [t \in DOMAIN Types |->
  LET K0 == Types[t].kids IN
  [x \in {K0[j].n : j \in DOMAIN K0} |-> {k \in Seq2Set(K0) : k.n = x}]]

KnownAttr(T, a) == <<a.s, a.n>> \in DOMAIN AttrMap[T]
KidNS(k, par, c) == CASE k.s = SAME -> c.s = par.s
                      [] k.s = READ -> c.s \in SCTE
                      [] OTHER -> c.s = k.s
(* the entry of the child table that c belongs to, as a set                  *)
KidsOf(T, par, c) == IF c.n \in DOMAIN KidMap[T] THEN {k \in KidMap[T][c.n] : KidNS(k, par, c)} ELSE {}
KnownKid(T, par, c) == KidsOf(T, par, c) # {}

Min(S) == CHOOSE x \in S : \A y \in S : x <= y

EmptyText(c) == c.t = ""

(* children of the kind k of a node; empty optional strings count as absent  *)
Group(k, par) ==
  SelectSeq(par.k, LAMBDA c : c.n = k.n /\ KidNS(k, par, c) /\ ~(k.t = "String" /\ ~k.many /\ EmptyText(c)))

AttrIdx(node, s, n) == {j \in DOMAIN node.a : node.a[j].n = n /\ node.a[j].s = s}

(* attribute j of i, in the written node o                                   *)
AttrKept(T, i, o, j) ==
  LET a == i.a[j]
      J == AttrIdx(o, a.s, a.n) IN
  IF KnownAttr(T, a) THEN
    LET k == AttrMap[T][<<a.s, a.n>>] IN
    IF J = {} THEN ~k.p /\ IsZero(k.k, a)
    ELSE SameValue(k.k, a, o.a[Min(J)])
  ELSE IF Types[T].any THEN J # {} /\ o.a[Min(J)].v = a.v
  ELSE TRUE                                      \* unknown: dropped

(* attribute j of o comes from i                                             *)
AttrFrom(T, i, o, j) ==
  LET a == o.a[j]
      J == AttrIdx(i, a.s, a.n) IN
  IF J # {} THEN KnownAttr(T, a) \/ Types[T].any
  ELSE /\ KnownAttr(T, a)
       /\ LET k == AttrMap[T][<<a.s, a.n>>] IN ~k.p /\ IsZero(k.k, a)

Pth(p, n) == p \o "/" \o n

(* "" when o says what i says (i may contain unknown markup, o must not),    *)
(* otherwise the place of the first difference                               *)
RECURSIVE Diff(_, _, _, _)
Diff(T, i, o, p) ==
  LET here == Pth(p, i.n)
      ty == Types[T]
      badKept == {j \in DOMAIN i.a : ~AttrKept(T, i, o, j)}
      badFrom == {j \in DOMAIN o.a : ~AttrFrom(T, i, o, j)}
      alien == {j \in DOMAIN o.k : ~KnownKid(T, o, o.k[j])}
      kinds == UNION {KidsOf(T, i, i.k[j]) : j \in DOMAIN i.k} \cup UNION {KidsOf(T, o, o.k[j]) : j \in DOMAIN o.k}
      hasKids == \E j \in DOMAIN i.k : KnownKid(T, i, i.k[j])
      badLen == {k \in kinds : Len(Group(k, i)) # Len(Group(k, o))} IN
  IF i.s # o.s \/ i.n # o.n THEN here \o ": name or namespace changed"
  ELSE IF badKept # {} THEN Pth(here, "@" \o i.a[Min(badKept)].n) \o ": attribute lost or changed"
  ELSE IF badFrom # {} THEN Pth(here, "@" \o o.a[Min(badFrom)].n) \o ": attribute invented"
  ELSE IF ty.text = "raw" THEN (IF i.x = o.x THEN "" ELSE here \o ": content changed")
  ELSE IF alien # {} THEN Pth(here, o.k[Min(alien)].n) \o ": element that does not belong there"
  ELSE IF ty.text = "none" /\ ~o.w THEN here \o ": text invented"
  ELSE IF ty.text = "text" /\ ~(IF i.w /\ hasKids THEN o.w ELSE i.t = o.t) THEN here \o ": text changed"
  ELSE IF badLen # {} THEN Pth(here, (CHOOSE k \in badLen : TRUE).n) \o ": elements lost or invented"
  ELSE LET bad == {k \in kinds : LET gi == Group(k, i)
                                     go == Group(k, o) IN
                                 \E j \in DOMAIN gi : Diff(k.t, gi[j], go[j], here) # ""} IN
       IF bad = {} THEN ""
       ELSE LET k == CHOOSE k \in bad : TRUE
                gi == Group(k, i)
                go == Group(k, o)
                J == {j \in DOMAIN gi : Diff(k.t, gi[j], go[j], here) # ""} IN
            Diff(k.t, gi[Min(J)], go[Min(J)], here)

-----------------------------------------------------------------------------
(* Names that are not where the schema puts them: "" or the first place.     *)
(* Values and lost content are not looked at, except that a name of the      *)
(* source that needs a namespace must not reappear in another one.           *)
RECURSIVE Astray(_, _, _, _)
Astray(T, i, o, p) ==
  LET here == Pth(p, i.n)
      badAttr == {j \in DOMAIN o.a : ~KnownAttr(T, o.a[j]) /\ ~(Types[T].any /\ AttrIdx(i, o.a[j].s, o.a[j].n) # {})}
      dup == {j \in DOMAIN o.a : \E l \in DOMAIN o.a : l < j /\ o.a[l].s = o.a[j].s /\ o.a[l].n = o.a[j].n}
      moved == {j \in DOMAIN i.a : /\ KnownAttr(T, i.a[j]) \/ Types[T].any
                                   /\ AttrIdx(o, i.a[j].s, i.a[j].n) = {}
                                   /\ \E l \in DOMAIN o.a : o.a[l].n = i.a[j].n /\ AttrIdx(i, o.a[l].s, o.a[l].n) = {}}
      alien == {j \in DOMAIN o.k : ~KnownKid(T, o, o.k[j])}
      kinds == UNION {KidsOf(T, o, o.k[j]) : j \in DOMAIN o.k} IN
  IF i.s # o.s \/ i.n # o.n THEN here \o ": name or namespace changed"
  ELSE IF badAttr # {} THEN Pth(here, "@" \o o.a[Min(badAttr)].n) \o ": attribute outside its namespace"
  ELSE IF dup # {} THEN Pth(here, "@" \o o.a[Min(dup)].n) \o ": attribute twice"
  ELSE IF moved # {} THEN Pth(here, "@" \o i.a[Min(moved)].n) \o ": attribute in another namespace"
  ELSE IF Types[T].text = "raw" THEN (IF i.x = o.x THEN "" ELSE here \o ": content changed")
  ELSE IF alien # {} THEN Pth(here, o.k[Min(alien)].n) \o ": element outside its namespace"
  ELSE LET bad == {k \in kinds : LET gi == Group(k, i)
                                     go == Group(k, o) IN
                                 Len(gi) = Len(go) /\ \E j \in DOMAIN gi : Astray(k.t, gi[j], go[j], here) # ""} IN
       IF bad = {} THEN ""
       ELSE LET k == CHOOSE k \in bad : TRUE
                gi == Group(k, i)
                go == Group(k, o)
                J == {j \in DOMAIN gi : Astray(k.t, gi[j], go[j], here) # ""} IN
            Astray(k.t, gi[Min(J)], go[Min(J)], here)

-----------------------------------------------------------------------------
(* Exactly the same infoset: names, attributes (as a set), children in order,*)
(* character data except white space between elements.                       *)
RECURSIVE SameTree(_, _)
SameTree(a, b) ==
  /\ a.s = b.s /\ a.n = b.n
  /\ {<<x.s, x.n, x.v>> : x \in Seq2Set(a.a)} = {<<x.s, x.n, x.v>> : x \in Seq2Set(b.a)}
  /\ IF a.k = <<>> /\ b.k = <<>> THEN a.t = b.t
     ELSE (a.w /\ b.w) \/ a.t = b.t
  /\ a.x = b.x
  /\ Len(a.k) = Len(b.k)
  /\ \A j \in DOMAIN a.k : SameTree(a.k[j], b.k[j])

-----------------------------------------------------------------------------
(* Values outside their type (in known places): the document must be refused *)
RECURSIVE HasBadValue(_, _)
HasBadValue(T, i) ==
  \/ \E j \in DOMAIN i.a : KnownAttr(T, i.a[j]) /\ MustReject(AttrMap[T][<<i.a[j].s, i.a[j].n>>].k, i.a[j])
  \/ \E j \in DOMAIN i.k : \E k \in KidsOf(T, i, i.k[j]) : Types[T].text # "raw" /\ HasBadValue(k.t, i.k[j])
(* every value of a known attribute is one that must be accepted             *)
RECURSIVE AllGood(_, _)
AllGood(T, i) ==
  /\ \A j \in DOMAIN i.a : KnownAttr(T, i.a[j]) => MustAccept(AttrMap[T][<<i.a[j].s, i.a[j].n>>].k, i.a[j])
  /\ \A j \in DOMAIN i.k : \A k \in KidsOf(T, i, i.k[j]) : AllGood(k.t, i.k[j])

-----------------------------------------------------------------------------
(* Known deviation of the library (known finding "homonym"): a name in a     *)
(* foreign namespace whose local part is that of a known DASH name is taken  *)
(* for it.  Dev(T, i) is the document the library believes to see.           *)
AttrHomonym(T, a) == ~KnownAttr(T, a) /\ a.s # "" /\ <<"", a.n>> \in DOMAIN AttrMap[T]
KidHomonym(T, par, c) == ~KnownKid(T, par, c) /\ c.n \in DOMAIN KidMap[T] /\ \E k \in KidMap[T][c.n] : k.s \in {SAME, READ}
RECURSIVE HasHomonym(_, _)
HasHomonym(T, i) ==
  \/ \E j \in DOMAIN i.a : AttrHomonym(T, i.a[j])
  \/ \E j \in DOMAIN i.k : KidHomonym(T, i, i.k[j])
  \/ \E j \in DOMAIN i.k : \E k \in KidsOf(T, i, i.k[j]) : HasHomonym(k.t, i.k[j])

(* Ext content that depends on declarations outside the Ext element (known   *)
(* finding "ext-scope"): its raw text is copied without them.                *)
RECURSIVE HasOuterExt(_)
HasOuterExt(i) == i.i \/ \E j \in DOMAIN i.k : HasOuterExt(i.k[j])
=============================================================================
