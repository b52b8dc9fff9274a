#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script so that the file stays well formed)"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Reading and writing an MPD keeps all the information it carries",
 "For every MPD made of the elements and attributes the library models (DASH, xlink, CENC, PlayReady, Marlin, DASH-IF, URL parameters, SCTE-35, SCTE 214), reading it and writing it gives a document with the same elements in the same nesting and, among siblings of one kind, the same order, with the same attributes of equivalent value (same string, integer, boolean, float or duration to the millisecond) and the same character data. Only representation may change: namespace prefixes, the order of attributes and of siblings of different kinds, whitespace between elements, and optional attributes or elements whose value is the type's zero value, which may be left out.",
 ["inputs"], "every document over the modelled schema: every element and attribute in every position, every combination, any value of its type, any nesting and number of siblings",
 "The round-trip tests replay a fixed set of example manifests that use a fraction of the roughly 80 element types and never combine values at the edge of their type.",
 ["mpd/mpd.go", "mpd/scte35.go", "mpd/scte214.go", "mpd/up.go", "mpd/io.go", "xml/read.go", "xml/marshal.go"],
 [("struct tags of the MPD types", "mpd/mpd.go"), ("field matching on decode", "xml/read.go unmarshal"), ("field emission on encode", "xml/marshal.go marshalValue")],
 [("MPD tree", "the in-memory document", "mpd/mpd.go MPD")], ["ReadFromString", "MPD.WriteToString"])

prop("C02", "Rewriting library output changes nothing; layout options change layout only",
 "Reading a document the library wrote and writing it again with the same options gives the same bytes, for any number of rounds. The choice of indentation and of the XML header changes only whitespace between elements and the presence of the header: documents written with any two choices carry the same elements, attributes and character data.",
 ["inputs", "histories"], "every MPD, every indentation string of blanks and every sequence of read/write rounds",
 "The tests do one round and compare with a stored file for one indentation.",
 ["mpd/io.go", "mpd/mpd.go", "xml/marshal.go", "xml/read.go"],
 [("writeIndent and mixed content", "xml/marshal.go"), ("WriteXML header", "mpd/io.go")], (), ["MPD.WriteToString", "MPD.Write", "Period.WriteToString"])

prop("C03", "Written documents are well formed and every name is in its namespace",
 "Every document written from an MPD is well-formed XML with unique attributes and declared prefixes, starts with the XML declaration exactly when a header was asked for, and puts every element and attribute in the namespace its standard assigns to it (DASH names in the namespace of the MPD element, xlink, xsi, cenc, mspr, mas, dashif, up and scte214 names in theirs, SCTE-35 names in the SCTE-35 namespace they were read or created with). This holds whichever prefixes, default namespaces and declaration levels the source document used.",
 ["inputs", "configurations"], "every document and every way to bind prefixes and default namespaces in it",
 "Tests look at a few literal outputs; namespace scoping is a matter of all combinations of ancestors, siblings and prefixes.",
 ["xml/marshal.go", "xml/xml.go", "mpd/mpd.go", "mpd/scte35.go", "mpd/io.go"],
 [("createPrefix/getPrefix/writeStart", "xml/marshal.go"), ("translate/pushNs", "xml/xml.go"), ("XMLName capture of SCTE-35 types", "mpd/scte35.go")],
 [("printer.elements", "open elements with their prefix bindings", "xml/marshal.go")], ["MPD.WriteToString"])

prop("C04", "Unknown markup never disturbs the content that is known",
 "Adding elements with names the schema does not define at that place, attributes with names it does not define there, comments, processing instructions or a DOCTYPE to a document, at any place and with any content, does not change what is read from the rest of the document. What is unknown is dropped, except that unknown attributes of SCTE-35 and SCTE 214 types and the content of SCTE-35 Ext elements are kept.",
 ["inputs"], "every document and every set of insertions, including unknown elements that contain known names, deep nesting and names in foreign namespaces",
 "Tests contain a handful of unknown elements; skipping must be right for every position, content and namespace.",
 ["xml/read.go", "xml/xml.go", "mpd/scte35.go"],
 [("Skip of unmatched elements", "xml/read.go unmarshal/Skip"), (",any,attr fields", "mpd/scte35.go")], (), ["ReadFromString"])

prop("C05", "Text and attribute values survive writing and reading exactly",
 "Any string of XML characters placed in a text or string attribute of a document is read back identically after writing, whatever markup characters, quotes, whitespace, line breaks or non-ASCII characters it contains, and never changes the structure of the document. Characters that XML cannot represent, and invalid UTF-8, come out as U+FFFD.",
 ["inputs"], "every Unicode string (and invalid byte sequence) in every text or attribute position; references, CDATA sections and line-end forms on the reading side",
 "Escaping tables are tested on a few characters; a bug for one code point or boundary between chunks needs the whole range.",
 ["xml/xml.go", "xml/marshal.go", "xml/read.go"],
 [("EscapeString/escapeText/emitCDATA", "xml/xml.go"), ("text() with entities, CDATA, CR/LF", "xml/xml.go"), ("isInCharacterRange", "xml/xml.go")], (), ["MPD.WriteToString", "ReadFromString", "xml.EscapeText", "xml.Marshal"])

prop("C06", "A write reports exactly what reached the sink, and every sink failure",
 "The byte count a write returns is the number of bytes the sink accepted, what the sink accepted is always a prefix of the complete document, and the error is nil exactly when the sink accepted the complete document without reporting an error; otherwise it is the sink's error, or a short-write error if the sink gave none. This holds wherever and however the sink fails, also for an encoder that is used on after the failure, and Write delivers the same bytes as WriteToString.",
 ["fault_sequences", "crash_points"], "every document size, every failure offset, short writes and failing sinks, with and without header and indentation",
 "No test uses a failing sink.",
 ["mpd/io.go", "xml/marshal.go"],
 [("countingWriter", "mpd/io.go"), ("WriteXML", "mpd/io.go"), ("printer.err / cachedWriteError", "xml/marshal.go")],
 [("countingWriter.n", "bytes accepted so far", "mpd/io.go")], ["MPD.Write", "Period.Write", "WriteXML"])

prop("C07", "What is written depends only on the document, not on other writes",
 "The bytes written for a document are a function of the document and the options alone: earlier writes, failed or panicked writes, writes of other documents and concurrent reads and writes in other goroutines never change them. Reading and writing different documents, or writing the same unmodified document, concurrently is free of data races.",
 ["histories", "schedules", "fault_sequences"], "every sequence and interleaving of writes with different options, failing sinks, values that cannot be written, and pooled encoders",
 "Tests write one document at a time to a good sink; state left in a pooled encoder shows only after particular histories.",
 ["xml/marshal.go", "mpd/io.go", "xml/typeinfo.go"],
 [("encoderPool, AcquireEncoder, ReleaseEncoder", "xml/marshal.go"), ("type caches", "xml/typeinfo.go")],
 [("pooled Encoder", "indent, prefix, depth, open elements, error, closed flag of a reused encoder", "xml/marshal.go printer")], ["WriteXML", "xml.AcquireEncoder"])

prop("C08", "Parent links always point to the element that contains the child",
 "After reading a document, cloning it, or setting parents, every Period, AdaptationSet, EmptyAdaptationSet, Representation and SubRepresentation in the tree is linked to the element that contains it, and Append operations add the child last and link it to the element they are called on. Setting parents of a subtree links everything below it and leaves other links as they are.",
 ["histories", "inputs"], "every tree shape and every sequence of append, move, set-parent, clone and re-read operations",
 "Tests check the links of one small tree after one operation.",
 ["mpd/parents.go", "mpd/mpd.go", "mpd/io.go"],
 [("SetParents", "mpd/parents.go"), ("Append*", "mpd/parents.go"), ("Clone", "mpd/mpd.go")],
 [("parent", "unexported back link", "mpd/mpd.go Period, AdaptationSetType, RepresentationType, SubRepresentationType")], ["Parent()"])

prop("C09", "A clone is equal to the original and independent of it",
 "A clone of an MPD or AdaptationSet writes the same bytes as the original, and no later change to either, at any depth (values behind pointers, slices, nested elements), shows in the other. The links inside the clone stay inside the clone: no element of it is linked to an element of the original.",
 ["inputs", "histories"], "every document and every single change at any place of the tree, made to the original or the clone",
 "Tests change one or two fields of a clone.",
 ["mpd/mpd.go", "mpd/parents.go"],
 [("Clone", "mpd/mpd.go"), ("AdaptationSetType.Clone", "mpd/mpd.go")], (), ["Clone", "AdaptationSetType.Clone"])

prop("C10", "Period start times follow the DASH derivation rules",
 "A Period's start is its start attribute if present; otherwise the previous Period's start plus its duration if both are known; otherwise zero for the first Period of a static MPD; otherwise it is reported as unknown. The absolute start adds the availability start time of the MPD, a Period's index is its position in its MPD, and Periods that are not placed in an MPD are reported as such.",
 ["inputs", "histories"], "every MPD type, every combination of present and absent attributes over any number of Periods, and every editing history that led there",
 "Tests have a table of about ten Period lists.",
 ["mpd/period.go"], [("GetStart, GetIndex, AbsoluteStart", "mpd/period.go")],
 [("Period list with start and duration attributes", "what the derivation looks at", "mpd/mpd.go Period")], ["Period.GetStart", "Period.GetIndex", "Period.AbsoluteStart"])

prop("C11", "Period durations follow the DASH derivation rules",
 "A Period's duration is its duration attribute if present; otherwise the distance from its (possibly derived) start to the next Period's start attribute, or for the last Period of a static MPD to the end of the presentation. When one of these is not known the duration is reported as unknown or the presentation duration as missing; it is never guessed.",
 ["inputs", "histories"], "every MPD type, attribute combination, number of Periods, position and editing history",
 "Tests have a table of a few Period lists.",
 ["mpd/period.go"], [("GetDuration", "mpd/period.go")], (), ["Period.GetDuration"])

prop("C12", "Periods are classified regular, early available or terminated correctly",
 "A Period with neither a start attribute nor a preceding Period with a duration attribute is early available in a dynamic MPD and regular in a static one. Any other Period is early terminated when it has a duration attribute and either the MPD has a minimum update period or the next Period has a start attribute; otherwise it is regular if it has a start attribute and regular-or-early-terminated if it has not.",
 ["inputs", "histories"], "every MPD type, attribute combination, number of Periods, position and editing history",
 "Tests sample a few combinations.",
 ["mpd/period.go"], [("GetType", "mpd/period.go")], (), ["Period.GetType"])

prop("C13", "Durations are parsed exactly, and everything else is rejected",
 "A string of the form P[nD][T[nH][nM][nS]] with at least one number, where only seconds may have decimals, parses to exactly the duration it denotes, cut to nanoseconds. Every other string, and every duration too large to represent, is rejected with an error.",
 ["inputs"], "every string over the duration alphabet and beyond, every magnitude up to and past the representable range, any number of digits",
 "Tests have about 30 strings.",
 ["mpd/duration.go"], [("ParseDuration", "mpd/duration.go"), ("Duration.UnmarshalXMLAttr", "mpd/duration.go")], (), ["ParseDuration", "duration attributes of a read MPD"])

prop("C14", "Rendered durations are valid and at most half a millisecond off",
 "Every duration renders as a string of the form [-]PT[nH][nM][nS] with minutes and seconds below 60 that denotes the duration to the nearest millisecond (exactly, for durations below half a millisecond). Non-negative renderings of a representable value parse back to the denoted value, and rendering is then stable.",
 ["inputs"], "every 64-bit nanosecond count, with the boundaries of seconds, minutes, hours and rounding",
 "Tests have about 12 values; rounding at unit boundaries needs all residues.",
 ["mpd/duration.go", "mpd/ptrs.go"], [("Duration.String, fmtFrac, fmtInt", "mpd/duration.go"), ("MarshalXMLAttr", "mpd/duration.go"), ("Seconds2DurPtr", "mpd/ptrs.go")], (), ["Duration.String", "duration attributes of a written MPD"])

prop("C15", "Date-time conversions agree with the calendar in both directions",
 "Converting a number of seconds (integral, fractional or milliseconds) gives the UTC date-time of that instant cut to milliseconds, and converting a date-time with any zone offset to seconds gives the instant it denotes. The two are inverse for all instants with four-digit years, and strings that are not date-times of the accepted form are rejected.",
 ["inputs"], "every instant of years 0 to 9999, leap years, negative times, every zone offset, any fraction",
 "Tests convert about ten instants near 1970.",
 ["mpd/io.go"], [("ConvertToDateTime, -S, -MS", "mpd/io.go"), ("DateTime.ConvertToSeconds", "mpd/io.go")], (), ["ConvertToDateTime", "ConvertToDateTimeS", "ConvertToDateTimeMS", "DateTime.ConvertToSeconds"])

prop("C16", "Representation lookups inherit from the AdaptationSet and expand templates",
 "A Representation's MIME type, codecs, content protections and segment template are its own when set and otherwise those of the AdaptationSet it is linked to. Its initialization and media addresses are those of that template with every $RepresentationID$ and $Bandwidth$ replaced by its id and bandwidth and everything else left as it is; a missing parent or template is reported as an error.",
 ["inputs", "histories"], "every presence combination, every template string (adjacent, repeated, partial and overlapping identifiers) and every id, including ids that look like identifiers",
 "Tests expand two templates.",
 ["mpd/mpd.go"], [("GetSegmentTemplate, GetMimeType, GetCodecs, GetContentProtections", "mpd/mpd.go"), ("GetInit, GetMedia", "mpd/mpd.go")], (), ["GetInit", "GetMedia", "GetMimeType", "GetCodecs", "GetContentProtections", "GetSegmentTemplate"])

prop("C17", "The XML decoder delivers the tokens the text denotes, or an error",
 "For every stream of well-formed markup the decoder delivers exactly the start and end tags, with names resolved to the namespaces in scope and attributes in order, text with references, CDATA and line ends resolved, comments, processing instructions and directives (uninterpreted), in document order, and then the end of input. A stream may hold any number of elements and text outside of them. Malformed markup, tags that do not match, bad references, illegal characters and repeated attributes end the stream with a syntax error, which is final, after the tokens that precede it; no text makes the decoder panic or loop. The result does not depend on how the input is split into reads, a failing reader is reported, reported offsets, lines and columns are those of the end of the token, Skip arrives at the matching end tag, and in every mode the start and end tags delivered are properly nested. A decoder that is not strict delivers the same for well-formed text, leaves unknown references alone and supplies missing end tags.",
 ["inputs", "fault_sequences"], "every token sequence, prefix scoping and damage of it, every split of the input into reads and every read failure offset",
 "The tests, inherited from the standard library, decode fixed documents.",
 ["xml/xml.go"], [("rawToken, text, Token, translate", "xml/xml.go"), ("pushElement/popElement/pushNs", "xml/xml.go"), ("InputOffset, InputPos, Skip", "xml/xml.go")],
 [("Decoder.stk", "open elements and namespace bindings", "xml/xml.go"), ("Decoder.ns", "bindings in scope", "xml/xml.go")], ["Decoder.Token", "Decoder.RawToken", "Decoder.Skip", "Decoder.InputOffset", "NewTokenDecoder"])

prop("C18", "The XML encoder writes what it is told, in the right namespaces, or refuses",
 "A sequence of tokens given to the encoder is accepted exactly when its tags are properly nested and its comments, directives and instructions can be written, and decoding what was written gives the same tokens, with every element and attribute in the namespace it was given. Closing the encoder reports elements that are still open, and indentation adds only whitespace.",
 ["inputs", "histories"], "every token sequence, including repeated, nested and conflicting namespaces and prefixes, and misuse",
 "Tests encode fixed sequences; prefix choice depends on all open elements.",
 ["xml/marshal.go"], [("EncodeToken, writeStart, writeEnd", "xml/marshal.go"), ("createPrefix, getPrefix", "xml/marshal.go"), ("writeIndent", "xml/marshal.go")],
 [("printer.elements", "open elements with prefix bindings", "xml/marshal.go")], ["Encoder.EncodeToken", "Encoder.Close"])

prop("C19", "Struct tags map Go values to XML and back without loss",
 "For Go struct types using the documented tags (attribute, element, a>b paths, chardata, cdata, innerxml, comment, any, namespaces and prefixes, omitempty, embedded structs and pointers), marshalling a value gives the document the tags describe and unmarshalling that document into the type gives the value back. A pointer or an interface around a value counts for what it holds, and for nothing when it is nil; slices and arrays count for each of their values. Numbers that do not fit, malformed values and mismatched root names are errors, and unmarshalling never changes fields that the document does not mention.",
 ["inputs", "programs"], "every combination of documented field kinds and tags and any value of these types",
 "Tests use fixed types; a mapping bug shows for particular combinations of field kinds, order and values.",
 ["xml/marshal.go", "xml/read.go", "xml/typeinfo.go"],
 [("structFieldInfo/addFieldInfo", "xml/typeinfo.go"), ("marshalValue/marshalStruct", "xml/marshal.go"), ("unmarshal/unmarshalPath/copyValue", "xml/read.go")], (), ["xml.Marshal", "xml.Unmarshal"])

prop("C20", "SCTE-35 and SCTE 214 signalling survives and is found",
 "SCTE-35 messages in Events, wrapped in a Signal or placed directly, keep every field, descriptor, namespace, unknown attribute and extension content through reading and writing, and the Event's splice information is the wrapped section if there is one and else the direct one. Values built with the provided constructors are written in the canonical SCTE-35 namespace, and event streams are recognised as SCTE-35 exactly by the defined scheme identifiers.",
 ["inputs", "histories"], "every SCTE-35 structure with any subset of fields, both namespaces, both carriage forms, built by reading or by constructors",
 "Tests replay a handful of fixtures.",
 ["mpd/scte35.go", "mpd/scte214.go"], [("SCTE-35 types and XMLName capture", "mpd/scte35.go"), ("IsSCTE35, SpliceInfo, New*", "mpd/scte35.go")], (), ["EventType.SpliceInfo", "EventStreamType.IsSCTE35", "MPD.WriteToString"])

prop("C21", "Bad documents are rejected cleanly and all entry points agree",
 "Reading a document that is not well-formed, has another root element, or has a value outside its attribute's type returns an error and no MPD; it never panics, hangs or returns a partial document. Reading from a file, a string and bytes gives the same result, reading does not change its input, and the result does not alias it.",
 ["inputs", "fault_sequences"], "every truncation, byte-level damage and value-level damage of every document; every unreadable file",
 "Tests try a few bad inputs.",
 ["mpd/io.go", "xml/read.go", "xml/xml.go", "mpd/duration.go"],
 [("ReadFromFile, ReadFromString, MPDFromBytes", "mpd/io.go"), ("copyValue", "xml/read.go")], (), ["ReadFromFile", "ReadFromString", "MPDFromBytes"])

prop("C22", "Builder helpers produce the documents their arguments describe",
 "Elements created by the New helpers carry exactly the given arguments and nothing else, adding a profile appends it once to the comma-separated list and leaves the other profiles alone, a timescale reads back as set with 1 as the absent default, a duration made from seconds is that many seconds, and setting a segment base makes the initialization range and index range adjacent with the given sizes (of at least one byte). Building any document by a sequence of these operations and writing it gives the document the operations describe.",
 ["inputs", "histories"], "every argument value and every sequence of building operations",
 "Tests call most helpers once.",
 ["mpd/mpd.go", "mpd/ptrs.go", "mpd/parents.go"], [("New*", "mpd/mpd.go"), ("AddProfile, SetTimescale, GetTimescale, SetSegmentBase", "mpd/mpd.go"), ("Ptr, Seconds2DurPtr", "mpd/ptrs.go")], (), ["New*", "ListOfProfilesType.AddProfile", "SegmentBaseType.GetTimescale", "RepresentationType.SetSegmentBase"])

with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
