-------------------------------- MODULE Scte --------------------------------
(* SCTE-35 signalling in DASH (SCTE 214-1, SCTE 35): where an Event carries  *)
(* its splice information, which event streams carry SCTE-35, and what the   *)
(* constructors build.  An Event is filled and emptied step by step; every   *)
(* reachable Event is replayed into the library, built in Go as well as read *)
(* from a document.                                                          *)
EXTENDS Naturals, Sequences, TLC, Json

NS35 == "http://www.scte.org/schemas/35"
NS214 == "urn:scte:dash:scte214-extensions"
NS16 == "http://www.scte.org/schemas/35/2016"

Schemes == {"urn:scte:scte35:2013:xml", "urn:scte:scte35:2014:xml+bin", "urn:scte:scte35:2013:bin"}
Others == {"", " ", "urn:scte:scte35:2013:xml ", " urn:scte:scte35:2013:xml", "urn:scte:scte35:2013:XML",
           "URN:SCTE:SCTE35:2013:XML", "urn:scte:scte35:2013:xml:", "urn:scte:scte35:2013:xm", "urn:scte:scte35:2013:",
           "urn:scte:scte35:2013", "urn:scte:scte35:2014:xml", "urn:scte:scte35:2014:bin", "urn:scte:scte35:2014:xmlbin",
           "urn:scte:scte35:2013:xml+bin", "urn:scte:scte35:2014:xml+bin2", "urn:scte:scte35:2013:binary", "urn:scte:scte35",
           "urn:mpeg:dash:event:2012", "urn:scte:scte35:2016:xml", "urn:scte:scte35:2013:xml#1", "http://www.scte.org/schemas/35",
           "urn:scte:scte35:2014:xml%2Bbin", "urn:scte:dash:scte214-extensions"}
IsSCTE35(s) == s \in Schemes

(* an Event: Signal (absent, or with section and/or binary) and direct section;
   what is in a section does not matter to where it is                       *)
Sections == {"empty", "null", "pts", "insert", "cancel", "encrypted", "private", "ext", "attr", "desc"}
VARIABLES sig, direct, ns
vars == <<sig, direct, ns>>
NoSig == [here |-> FALSE, sec |-> "no", bin |-> FALSE]
Init == sig = NoSig /\ direct = "no" /\ ns \in {NS35, NS16}
AddSignal  == ~sig.here /\ sig' = [sig EXCEPT !.here = TRUE] /\ UNCHANGED <<direct, ns>>
SetSection == sig.here /\ \E s \in Sections \cup {"no"} : sig' = [sig EXCEPT !.sec = s] /\ UNCHANGED <<direct, ns>>
SetBinary  == sig.here /\ sig' = [sig EXCEPT !.bin = ~sig.bin] /\ UNCHANGED <<direct, ns>>
SetDirect  == \E s \in Sections \cup {"no"} : direct' = s /\ UNCHANGED <<sig, ns>>
DropSignal == sig.here /\ sig' = NoSig /\ UNCHANGED <<direct, ns>>
Next == AddSignal \/ SetSection \/ SetBinary \/ SetDirect \/ DropSignal
Spec == Init /\ [][Next]_vars

HasSec == sig.sec # "no"
HasDirect == direct # "no"
SpliceInfo == IF HasSec THEN "signal" ELSE IF HasDirect THEN "direct" ELSE "nil"
(* laws *)
Found == (SpliceInfo = "nil") <=> ~(HasDirect \/ HasSec)
Wrapped == [][direct' # direct /\ HasSec => SpliceInfo' = SpliceInfo]_vars

(* the constructors: arguments and the element they stand for                *)
Plain(f, n, in) == [f |-> f, n |-> n, in |-> in, args |-> <<>>, attrs |-> <<>>, text |-> ""]
(* arguments are carried as they are, whatever they look like                *)
Texts == {"", " ", "/DAh AA==", "a&b<c", "]]>", "a\nb", "\n", " a", "a ", "\ta\t", "a  b", "A", "0x1F", "0", "<", "&amp;",
          "\"'", "a,b;c", "http://a/?b=1&c=2#d", "urn:uuid:9a04f079-9840-4286-ab92-e65be0885f95",
          "/DA0AAAAAAAA///wBQb+cr0AUAAeAhxDVUVJSAAAjn/PAAGlmbAICAAAAAAsoKGKNAIAmsnRfg=="}
U32 == {"0", "1", "255", "65536", "2147483647", "2147483648", "4294967295", "1129661769"}
U64 == U32 \cup {"90000", "8589934591", "8589934592", "9223372036854775807", "9223372036854775808", "18446744073709551615"}
Ctors ==
  { Plain("NewSignal", "Signal", ""),
    Plain("NewSpliceInfoSection", "SpliceInfoSection", ""),
    Plain("NewSpliceNull", "SpliceNull", "SpliceInfoSection"),
    Plain("NewSpliceSchedule", "SpliceSchedule", "SpliceInfoSection"),
    Plain("NewSpliceInsert", "SpliceInsert", "SpliceInfoSection"),
    Plain("NewTimeSignal", "TimeSignal", "SpliceInfoSection"),
    Plain("NewBandwidthReservation", "BandwidthReservation", "SpliceInfoSection"),
    Plain("NewSpliceTime", "SpliceTime", "TimeSignal"),
    Plain("NewSegmentationDescriptor", "SegmentationDescriptor", "SpliceInfoSection") }
  \cup { [f |-> "NewBinary", n |-> "Binary", in |-> "Signal", args |-> <<t>>, attrs |-> <<>>, text |-> t] : t \in Texts }
  \cup { [f |-> "NewSegmentationUpid", n |-> "SegmentationUpid", in |-> "SegmentationDescriptor", args |-> <<t>>, attrs |-> <<>>, text |-> t] : t \in Texts }
  \cup { [f |-> "NewPrivateCommand", n |-> "PrivateCommand", in |-> "SpliceInfoSection", args |-> <<u>>, attrs |-> <<<<"identifier", u>>>>, text |-> ""] : u \in U32 }
  \cup { [f |-> "NewBreakDuration", n |-> "BreakDuration", in |-> "SpliceInsert", args |-> <<b, u>>, attrs |-> <<<<"autoReturn", b>>, <<"duration", u>>>>, text |-> ""] : b \in {"true", "false"}, u \in U64 }
  \cup { [f |-> "NewSCTE214ContentIdentifier", n |-> "ContentIdentifier", in |-> "AssetIdentifier", args |-> <<y, t>>, attrs |-> <<<<"type", y>>, <<"value", t>>>>, text |-> ""] : y \in Texts, t \in Texts }

First == ~sig.here /\ ~HasDirect /\ ns = NS35
Export ==
  /\ PrintT("##" \o ToJson([kind |-> "event", id |-> ToString(<<sig, direct>>), sig |-> sig.here, sec |-> sig.sec,
                            bin |-> sig.bin, direct |-> direct, ns |-> ns, want |-> SpliceInfo]))
  /\ IF First THEN /\ \A s \in Schemes \cup Others : PrintT("##" \o ToJson([kind |-> "scheme", id |-> s, scheme |-> s, yes |-> IsSCTE35(s)]))
                   /\ \A c \in Ctors : PrintT("##" \o ToJson([kind |-> "ctor", id |-> c.f, ns |-> IF c.in = "AssetIdentifier" THEN NS214 ELSE NS35, c |-> c]))
     ELSE TRUE
=============================================================================
