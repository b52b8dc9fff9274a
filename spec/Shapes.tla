------------------------------- MODULE Shapes -------------------------------
(* What is written for a Go value that is not just a struct (property C19):   *)
(* pointers, interfaces, slices and arrays around a value, and the name of    *)
(* the elements, as documented for Marshal.                                   *)
(*   ws   what is around it, outermost first: [w, n] with w "ptr", "iface"    *)
(*        (or "tmi", "mxi", an interface with the method for texts or for     *)
(*        XML; n = 0: nil), "slice" or "array" (of n values)                  *)
(*   k    the kind of value in it                                             *)
(*   c    its text; values of a slice or array have their place added to it   *)
(*   pos  where it is: "root" (given to Marshal), "rootp" (a pointer to it    *)
(*        is), "start" (given to EncodeElement with the name st), or in a     *)
(*        field of a struct: "field" (named f), "fieldns" (f in urn:f),       *)
(*        "under" (p>f), "plain" (without a tag), "attr" or "chardata"        *)
EXTENDS Naturals, Sequences

(* bytes, nbytes, abytes: []byte, a type made of it, one made of [2]byte       *)
Bytes == {"bytes", "nbytes", "abytes"}
Scalars == {"string", "int", "bool", "float64", "named", "tm", "tp", "tb", "tmerr", "tuerr"} \cup Bytes
Unnamed == {"anon", "anonmx", "bytes"}
(* emb, embx, embn: a struct with an embedded one, that has the XMLName       *)
Structs == {"plain", "tagged", "var", "box", "box2", "anon", "emb", "embx", "embn"}
Refused == {"chan", "func", "map"}
(* those with methods that fail: to write (tmerr, mxerr), to read (tuerr,     *)
(* uxerr), and that do not keep to their element: one is left open (mxopen),  *)
(* or more is ended (mxend), the element is not read (uxless), or all that    *)
(* they are given is (uxall)                                                  *)
WriteErr == {"tmerr", "mxerr"}
ReadErr == {"tuerr", "uxerr"}
Broken == {"mxopen", "mxend"}
Kinds == Scalars \cup Structs \cup Refused \cup {"mx", "mp", "mb", "anonmx", "mxerr", "uxerr", "uxless", "uxall"} \cup Broken
OfElements == Broken \cup {"uxless", "uxall"}
Interfaces == {"iface", "tmi", "mxi"}
Fields == {"field", "fieldns", "under", "plain"}

N(s, n) == [s |-> s, n |-> n]
(* XMLName, or the name of the type without its parameters                   *)
OwnName(kk) ==
  CASE kk \in {"tagged", "emb", "embx", "embn"} -> N("urn:s", "tagged") [] kk = "var" -> N("urn:v", "vn")
    [] kk \in {"string", "int", "bool", "float64"} -> N("", kk)
    [] kk = "nbytes" -> N("", "ShBytes") [] kk = "abytes" -> N("", "ShBytes2")
    [] kk = "named" -> N("", "ShName") [] kk = "plain" -> N("", "ShPlain")
    [] kk \in {"box", "box2"} -> N("", "ShBox")
    [] kk = "tm" -> N("", "ShTM") [] kk = "tp" -> N("", "ShTP")
    [] kk = "mx" -> N("", "ShMX") [] kk = "mp" -> N("", "ShMP")
    [] kk = "tuerr" -> N("", "ShTU") [] kk = "uxerr" -> N("", "ShUX") [] kk = "uxless" -> N("", "ShUL") [] kk = "uxall" -> N("", "ShUA")
    [] kk = "tb" -> N("", "ShTB") [] kk = "mb" -> N("", "ShMB")
    [] OTHER -> N("", "")
HasXMLName(kk) == kk \in {"tagged", "var", "emb", "embx", "embn"}
Name(kk, pos) ==
  IF pos = "start" THEN N("urn:st", "st")
  ELSE IF pos \in {"root", "rootp"} \/ HasXMLName(kk) THEN OwnName(kk)
  ELSE IF pos = "fieldns" THEN N("urn:f", "f") ELSE IF pos = "plain" THEN N("", "V") ELSE N("", "f")

(* the texts of the values in it, in order                                   *)
RECURSIVE Flat(_), Texts(_, _)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Texts(ws, c) ==
  IF ws = <<>> THEN <<c>>
  ELSE LET w == ws[1] IN
       Flat([i \in 1..w.n |-> Texts(Tail(ws), IF w.w \in {"slice", "array"} THEN Append(c, 48 + i) ELSE c)])
(* whether methods of a pointer to it apply: it can be addressed             *)
RECURSIVE Addr(_, _)
Addr(ws, a) == IF ws = <<>> THEN a
               ELSE Addr(Tail(ws), IF ws[1].w = "array" THEN a ELSE ws[1].w \notin Interfaces)
Form(kk, c) == CASE kk \in {"tm", "tb", "tuerr"} -> <<91>> \o c \o <<93>> [] kk = "tp" -> <<40>> \o c \o <<41>>
                [] kk \in {"mx", "mb", "anonmx", "uxerr", "uxless", "uxall"} -> <<123>> \o c \o <<125>> [] kk = "mp" -> <<60>> \o c \o <<62>> [] kk = "abytes" -> SubSeq(c, 1, 2) [] OTHER -> c

Has(ws, w) == \E i \in DOMAIN ws : ws[i].w = w
Boxed(ws) == \E i \in DOMAIN ws : ws[i].w \in Interfaces
Count(ws) == Len(Texts(ws, <<>>))

(* what the documentation leaves open                                        *)
Open(ws, kk, pos) ==
  \/ kk \in {"tp", "mp"} /\ ~Addr(ws, pos # "root")
  \/ kk \in {"tagged", "emb", "embx", "embn"} /\ pos \in {"field", "fieldns", "under"}   \* two names for one element
  \/ pos = "attr" /\ (kk \notin Scalars \cup {"mx", "mp", "mb", "anonmx"} \/ Count(ws) > 1 \/ Has(ws, "array"))
  \/ pos = "chardata" /\ (kk \notin Scalars \/ Has(ws, "slice") \/ Has(ws, "array"))
  \/ pos \in {"attr", "chardata"} /\ kk \in {"tp", "mp"} /\ Count(ws) = 0  \* methods of a nil pointer
  \/ kk \in Unnamed /\ pos \in {"root", "rootp"} /\ Count(ws) = 0
(* an error is returned: nothing can be written for it, or there is no name   *)
Fails(ws, kk, pos) == Count(ws) > 0 /\ (kk \in Refused \cup WriteErr \cup Broken \/ (kk \in Unnamed /\ pos \in {"root", "rootp"}))

Elements(ws, kk, c, pos) ==
  LET t == Texts(ws, c) IN
  [i \in DOMAIN t |-> [s |-> Name(kk, pos).s, n |-> Name(kk, pos).n, c |-> Form(kk, t[i]),
                       a |-> IF kk \in Structs THEN <<97>> ELSE <<>>]]

(* and whether it can be read into a new value of its type: into an          *)
(* interface nothing is read, and an array is not a place for elements       *)
Readable(ws, kk, pos) ==
  /\ ~Boxed(ws) /\ ~Has(ws, "array") /\ kk \notin Refused \cup {"abytes"}
  /\ kk \in {"var", "emb", "embx", "embn"} => pos \in {"root", "rootp"}                  \* where the field has another name
  /\ kk \in {"tagged", "emb", "embx", "embn"} /\ Has(ws, "slice") => pos \in {"root", "rootp"}
  /\ pos = "chardata" => Count(ws) > 0                         \* the text may be empty, but is there
  /\ pos # "start" /\ (pos \in {"root", "rootp"} => Count(ws) = 1)
(* an error is returned when it is read, "own": the one of the method         *)
ReadFails(ws, kk, pos) == IF Count(ws) = 0 THEN "" ELSE IF kk \in ReadErr THEN "own" ELSE IF kk = "uxless" THEN "any" ELSE ""
=============================================================================
