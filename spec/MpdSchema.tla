------------------------------ MODULE MpdSchema ------------------------------
(* What MPDs are made of: for every element type, its attributes and its     *)
(* child elements, after ISO/IEC 23009-1 (DASH, editions 5 and 6), Annex I   *)
(* (URL parameters), ISO/IEC 23001-7 (cenc), the PlayReady, Marlin and       *)
(* DASH-IF ContentProtection elements, ANSI/SCTE 35 2023r2 and SCTE 214-1.   *)
(*                                                                           *)
(* A(n, k)   attribute n of kind k for which absence means the zero value    *)
(* P(n, k)   attribute n of kind k whose presence is significant             *)
(* N(ns, n)  attribute n in namespace ns (a string, absence is "")           *)
(* One/Many(ns, n, T)  child element n of type T, at most one / any number;  *)
(*   ns is SAME (the namespace of the parent element), READ (whichever       *)
(*   namespace it was read in: SCTE-35), or a fixed namespace                *)
(* text: "none" | "text" (character data) | "raw" (any content)              *)
(* any: attributes that are not listed are kept                              *)
EXTENDS Naturals, Sequences

XLINK   == "http://www.w3.org/1999/xlink"
XSI     == "http://www.w3.org/2001/XMLSchema-instance"
SCTE214 == "urn:scte:dash:scte214-extensions"
CENC    == "urn:mpeg:cenc:2013"
MSPR    == "urn:microsoft:playready"
DASHIF  == "https://dashif.org/CPS"
MAS     == "urn:marlin:mas:1-0:services:schemas:mpd"
UP2014  == "urn:mpeg:dash:schema:urlparam:2014"
UP2016  == "urn:mpeg:dash:schema:urlparam:2016"
SAME    == "="
READ    == "*"

A(name, kind) == [s |-> "", n |-> name, k |-> kind, p |-> FALSE]
P(name, kind) == [s |-> "", n |-> name, k |-> kind, p |-> TRUE]
N(ns, name)   == [s |-> ns, n |-> name, k |-> "s", p |-> FALSE]
One(ns, name, type)  == [s |-> ns, n |-> name, t |-> type, many |-> FALSE]
Many(ns, name, type) == [s |-> ns, n |-> name, t |-> type, many |-> TRUE]

(* an element with nothing but text, for which absence means no text         *)
T_String == [attrs |-> <<>>, kids |-> <<>>, text |-> "text", any |-> FALSE]

T_AdaptationSetType ==
  [ attrs |-> <<N(XLINK, "href"), N(XLINK, "actuate"), N(XLINK, "type"), N(XLINK, "show"),
      P("id", "u32"), A("group", "u32"), A("lang", "s"), A("contentType", "s"),
      A("par", "s"), A("minBandwidth", "u32"), A("maxBandwidth", "u32"),
      A("minWidth", "u32"), A("maxWidth", "u32"), A("minHeight", "u32"),
      A("maxHeight", "u32"), A("minFrameRate", "s"), A("maxFrameRate", "s"),
      A("segmentAlignment", "b"), A("subsegmentAlignment", "b"),
      A("subsegmentStartsWithSAP", "u32"), P("bitstreamSwitching", "b"),
      P("initializationSetRef", "s"), A("initializationPrincipal", "s"),
      A("profiles", "s"), A("width", "u32"), A("height", "u32"), A("sar", "s"),
      A("frameRate", "s"), P("audioSamplingRate", "s"), A("mimeType", "s"),
      P("segmentProfiles", "s"), A("codecs", "s"), P("containerProfiles", "s"),
      A("maximumSAPPeriod", "f64"), A("startWithSAP", "u32"), A("maxPlayoutRate", "f64"),
      P("codingDependency", "b"), A("scanType", "s"), P("selectionPriority", "u32"),
      A("tag", "s"), N(SCTE214, "supplementalProfiles"), N(SCTE214, "supplementalCodecs")>>,
    kids |-> <<Many(SAME, "FramePacking", "DescriptorType"),
      Many(SAME, "AudioChannelConfiguration", "DescriptorType"),
      Many(SAME, "ContentProtection", "ContentProtectionType"),
      One(SAME, "OutputProtection", "DescriptorType"),
      Many(SAME, "EssentialProperty", "DescriptorType"),
      Many(SAME, "SupplementalProperty", "DescriptorType"),
      Many(SAME, "InbandEventStream", "EventStreamType"),
      Many(SAME, "Switching", "SwitchingType"),
      Many(SAME, "RandomAccess", "RandomAccessType"),
      Many(SAME, "GroupLabel", "LabelType"), Many(SAME, "Label", "LabelType"),
      Many(SAME, "ProducerReferenceTime", "ProducerReferenceTimeType"),
      Many(SAME, "ContentPopularityRate", "ContentPopularityRateType"),
      Many(SAME, "Resync", "ResyncType"),
      Many(SAME, "SegmentSequenceProperties", "SegmentSequencePropertiesType"),
      Many(SAME, "Accessibility", "DescriptorType"), Many(SAME, "Role", "DescriptorType"),
      Many(SAME, "Rating", "DescriptorType"), Many(SAME, "Viewpoint", "DescriptorType"),
      Many(SAME, "ContentComponent", "ContentComponentType"),
      Many(SAME, "BaseURL", "BaseURLType"),
      Many(SAME, "RequestParam", "ExtendedUrlInfoType"),
      One(SAME, "SegmentBase", "SegmentBaseType"),
      One(SAME, "SegmentList", "SegmentListType"),
      One(SAME, "SegmentTemplate", "SegmentTemplateType"),
      Many(SAME, "Representation", "RepresentationType")>>,
    text |-> "none", any |-> FALSE ]

T_AlternativeMPDEventType ==
  [ attrs |-> <<A("uri", "s"), A("earliestResolutionTimeOffset", "finf"), A("maxDuration", "u64"),
      A("executeOnce", "b"), A("noJump", "i32"), A("skipAfter", "d")>>,
    kids |-> <<Many(SAME, "SupplementalProperty", "DescriptorType")>>,
    text |-> "none", any |-> FALSE ]

T_AlternativeMPDReplaceEventType ==
  [ attrs |-> <<A("returnOffset", "u64"), P("clip", "b"), A("startWithOffset", "b"), A("uri", "s"),
      A("earliestResolutionTimeOffset", "finf"), A("maxDuration", "u64"),
      A("executeOnce", "b"), A("noJump", "i32"), A("skipAfter", "d")>>,
    kids |-> <<Many(SAME, "SupplementalProperty", "DescriptorType")>>,
    text |-> "none", any |-> FALSE ]

T_AudioChannelType ==
  [ attrs |-> <<A("ISOCode", "s"), A("BitStreamMode", "u8"), A("NumChannels", "u8"),
      A("FullSrvcAudio", "u8"), P("componentTag", "u8")>>,
    kids |-> <<One(READ, "Ext", "ExtType")>>,
    text |-> "none", any |-> TRUE ]

T_AudioDescriptorType ==
  [ attrs |-> <<>>,
    kids |-> <<One(READ, "Ext", "ExtType"), Many(READ, "AudioChannel", "AudioChannelType")>>,
    text |-> "none", any |-> TRUE ]

T_AuthzURLType ==
  [ attrs |-> <<A("authzType", "s")>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_AvailDescriptorType ==
  [ attrs |-> <<A("providerAvailId", "u32")>>,
    kids |-> <<One(READ, "Ext", "ExtType")>>,
    text |-> "none", any |-> TRUE ]

T_BandwidthReservationType ==
  [ attrs |-> <<>>,
    kids |-> <<One(READ, "Ext", "ExtType")>>,
    text |-> "none", any |-> FALSE ]

T_BaseURLType ==
  [ attrs |-> <<A("serviceLocation", "s"), A("byteRange", "s"), A("availabilityTimeOffset", "finf"),
      P("availabilityTimeComplete", "b"), P("timeShiftBufferDepth", "d"),
      A("rangeAccess", "b")>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_BinaryType ==
  [ attrs |-> <<A("signalType", "s")>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_BreakDurationType ==
  [ attrs |-> <<A("autoReturn", "b"), A("duration", "u64")>>,
    kids |-> <<One(READ, "Ext", "ExtType")>>,
    text |-> "none", any |-> TRUE ]

T_CMCDParameterType ==
  [ attrs |-> <<A("version", "u32"), A("mode", "s"), P("includeInRequests", "list"),
      P("keys", "list"), A("contentID", "s"), A("sessionID", "s")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_CerturlType ==
  [ attrs |-> <<A("certType", "s")>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_ClientDataReportingType ==
  [ attrs |-> <<A("schemeIdUri", "s"), P("serviceLocations", "s"), P("adaptationSets", "s")>>,
    kids |-> <<Many(SAME, "CMCDParameters", "CMCDParameterType")>>,
    text |-> "none", any |-> FALSE ]

T_ContentComponentType ==
  [ attrs |-> <<P("id", "u32"), A("lang", "s"), A("contentType", "s"), A("par", "s"), A("tag", "s")>>,
    kids |-> <<Many(SAME, "Accessibility", "DescriptorType"), Many(SAME, "Role", "DescriptorType"),
      Many(SAME, "Rating", "DescriptorType"), Many(SAME, "Viewpoint", "DescriptorType")>>,
    text |-> "none", any |-> FALSE ]

T_ContentPopularityRateType ==
  [ attrs |-> <<A("source", "s"), A("source_description", "s")>>,
    kids |-> <<Many(SAME, "PR", "PR")>>,
    text |-> "none", any |-> FALSE ]

T_ContentProtectionType ==
  [ attrs |-> <<A("robustness", "s"), A("refId", "s"), A("ref", "s"), N(CENC, "default_KID"),
      A("schemeIdUri", "s"), A("value", "s"), A("id", "s")>>,
    kids |-> <<One(CENC, "pssh", "PsshType"), One(MSPR, "pro", "MSProType"),
      One(DASHIF, "Laurl", "LaURLType"), One(DASHIF, "Authzurl", "AuthzURLType"),
      Many(DASHIF, "Certurl", "CerturlType"),
      One(MAS, "MarlinContentIds", "MarlinContentIds"),
      One(UP2014, "UrlQueryInfo", "UrlQueryInfoType"),
      One(UP2016, "ExtUrlQueryInfo", "ExtendedUrlInfoType"),
      Many(SCTE214, "ContentIdentifier", "SCTE214ContentIdentifierType")>>,
    text |-> "none", any |-> FALSE ]

T_ContentSteeringType ==
  [ attrs |-> <<A("defaultServiceLocation", "s"), A("queryBeforeStart", "b"),
      A("clientRequirement", "b")>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_DTMFDescriptorType ==
  [ attrs |-> <<P("preroll", "u8"), A("chars", "s")>>,
    kids |-> <<One(READ, "Ext", "ExtType")>>,
    text |-> "none", any |-> TRUE ]

T_DeliveryRestrictionsType ==
  [ attrs |-> <<A("webDeliveryAllowedFlag", "b"), A("noRegionalBlackoutFlag", "b"),
      A("archiveAllowedFlag", "b"), A("deviceRestrictions", "u8")>>,
    kids |-> <<One(READ, "Ext", "ExtType")>>,
    text |-> "none", any |-> TRUE ]

T_DescriptorType ==
  [ attrs |-> <<A("schemeIdUri", "s"), A("value", "s"), A("id", "s")>>,
    kids |-> <<One(UP2014, "UrlQueryInfo", "UrlQueryInfoType"),
      One(UP2016, "ExtUrlQueryInfo", "ExtendedUrlInfoType"),
      Many(SCTE214, "ContentIdentifier", "SCTE214ContentIdentifierType")>>,
    text |-> "none", any |-> FALSE ]

T_EncryptedPacketType ==
  [ attrs |-> <<A("encryptionAlgorithm", "u8"), A("cwIndex", "u8")>>,
    kids |-> <<One(READ, "Ext", "ExtType")>>,
    text |-> "none", any |-> TRUE ]

T_EventStreamType ==
  [ attrs |-> <<N(XLINK, "href"), N(XLINK, "actuate"), N(XLINK, "type"), N(XLINK, "show"),
      A("schemeIdUri", "s"), A("value", "s"), P("timescale", "u32"),
      A("presentationTimeOffset", "u64")>>,
    kids |-> <<Many(SAME, "Event", "EventType"), Many(SAME, "BaseURL", "BaseURLType"),
      Many(SAME, "RequestParam", "ExtendedUrlInfoType"),
      Many(SAME, "EssentialProperty", "DescriptorType"),
      Many(SAME, "SupplementalProperty", "DescriptorType")>>,
    text |-> "none", any |-> FALSE ]

T_EventType ==
  [ attrs |-> <<A("presentationTime", "u64"), A("duration", "u64"), P("id", "u64"), A("status", "s"),
      A("contentEncoding", "s"), A("messageData", "s")>>,
    kids |-> <<One(SAME, "SelectionInfo", "SelectionInfoType"),
      One(SAME, "ServiceDescription", "ServiceDescriptionType"),
      One(SAME, "InsertPresentation", "AlternativeMPDEventType"),
      One(SAME, "ReplacePresentation", "AlternativeMPDReplaceEventType"),
      Many(SAME, "SupplementalProperty", "DescriptorType"),
      Many(SAME, "EssentialProperty", "DescriptorType"), One(READ, "Signal", "SignalType"),
      One(READ, "SpliceInfoSection", "SpliceInfoSectionType")>>,
    text |-> "text", any |-> FALSE ]

T_ExtType ==
  [ attrs |-> <<>>,
    kids |-> <<>>,
    text |-> "raw", any |-> TRUE ]

T_ExtendedBandwidthType ==
  [ attrs |-> <<A("vbr", "b")>>,
    kids |-> <<Many(SAME, "ModelPair", "ModelPairType")>>,
    text |-> "none", any |-> FALSE ]

T_ExtendedUrlInfoType ==
  [ attrs |-> <<A("queryTemplate", "s"), A("useMPDUrlQuery", "b"), A("queryString", "s"),
      N(XLINK, "href"), N(XLINK, "actuate"), N(XLINK, "type"), N(XLINK, "show"),
      A("includeInRequests", "s"), A("headerParamSource", "s"), A("sameOriginPolicy", "b"),
      A("header", "s")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_FCS ==
  [ attrs |-> <<A("t", "u64"), A("d", "u64")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_FailoverContentType ==
  [ attrs |-> <<P("valid", "b")>>,
    kids |-> <<Many(SAME, "FCS", "FCS")>>,
    text |-> "none", any |-> FALSE ]

T_ImportedMpdType ==
  [ attrs |-> <<A("earliestResolutionTimeOffset", "f64")>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_InitializationSetType ==
  [ attrs |-> <<N(XLINK, "href"), N(XLINK, "actuate"), N(XLINK, "type"), A("id", "u32"),
      P("inAllPeriods", "b"), A("contentType", "s"), A("par", "s"), A("maxWidth", "u32"),
      A("maxHeight", "u32"), A("maxFrameRate", "s"), A("initialization", "s"),
      A("profiles", "s"), A("width", "u32"), A("height", "u32"), A("sar", "s"),
      A("frameRate", "s"), P("audioSamplingRate", "s"), A("mimeType", "s"),
      P("segmentProfiles", "s"), A("codecs", "s"), P("containerProfiles", "s"),
      A("maximumSAPPeriod", "f64"), A("startWithSAP", "u32"), A("maxPlayoutRate", "f64"),
      P("codingDependency", "b"), A("scanType", "s"), P("selectionPriority", "u32"),
      A("tag", "s"), N(SCTE214, "supplementalProfiles"), N(SCTE214, "supplementalCodecs")>>,
    kids |-> <<Many(SAME, "Accessibility", "DescriptorType"), Many(SAME, "Role", "DescriptorType"),
      Many(SAME, "Rating", "DescriptorType"), Many(SAME, "Viewpoint", "DescriptorType"),
      Many(SAME, "FramePacking", "DescriptorType"),
      Many(SAME, "AudioChannelConfiguration", "DescriptorType"),
      Many(SAME, "ContentProtection", "ContentProtectionType"),
      One(SAME, "OutputProtection", "DescriptorType"),
      Many(SAME, "EssentialProperty", "DescriptorType"),
      Many(SAME, "SupplementalProperty", "DescriptorType"),
      Many(SAME, "InbandEventStream", "EventStreamType"),
      Many(SAME, "Switching", "SwitchingType"),
      Many(SAME, "RandomAccess", "RandomAccessType"),
      Many(SAME, "GroupLabel", "LabelType"), Many(SAME, "Label", "LabelType"),
      Many(SAME, "ProducerReferenceTime", "ProducerReferenceTimeType"),
      Many(SAME, "ContentPopularityRate", "ContentPopularityRateType"),
      Many(SAME, "Resync", "ResyncType"),
      Many(SAME, "SegmentSequenceProperties", "SegmentSequencePropertiesType")>>,
    text |-> "none", any |-> FALSE ]

T_LaURLType ==
  [ attrs |-> <<A("licenseType", "s")>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_LabelType ==
  [ attrs |-> <<A("id", "u32"), A("lang", "s")>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_LatencyType ==
  [ attrs |-> <<A("referenceId", "u32"), P("target", "u32"), P("max", "u32"), P("min", "u32")>>,
    kids |-> <<Many(SAME, "QualityLatency", "UIntPairsWithIDType")>>,
    text |-> "none", any |-> FALSE ]

T_LeapSecondInformationType ==
  [ attrs |-> <<A("availabilityStartLeapOffset", "i64"), A("nextAvailabilityStartLeapOffset", "i64"),
      A("nextLeapChangeTime", "s")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_LocationType ==
  [ attrs |-> <<A("serviceLocation", "s")>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_MPD ==
  [ attrs |-> <<N(XSI, "schemaLocation"), A("id", "s"), A("profiles", "s"), P("type", "s"),
      A("availabilityStartTime", "s"), A("availabilityEndTime", "s"),
      A("publishTime", "s"), P("mediaPresentationDuration", "d"),
      P("minimumUpdatePeriod", "d"), P("minBufferTime", "d"),
      P("timeShiftBufferDepth", "d"), P("suggestedPresentationDelay", "d"),
      P("maxSegmentDuration", "d"), P("maxSubsegmentDuration", "d")>>,
    kids |-> <<Many(SAME, "ProgramInformation", "ProgramInformationType"),
      Many(SAME, "BaseURL", "BaseURLType"), Many(SAME, "Location", "LocationType"),
      Many(SAME, "PatchLocation", "PatchLocationType"),
      Many(SAME, "RequestParam", "ExtendedUrlInfoType"),
      Many(SAME, "ServiceDescription", "ServiceDescriptionType"),
      Many(SAME, "InitializationSet", "InitializationSetType"),
      Many(SAME, "InitializationGroup", "UIntVWithIDType"),
      Many(SAME, "InitializationPresentation", "UIntVWithIDType"),
      Many(SAME, "ContentProtection", "ContentProtectionType"),
      Many(SAME, "Period", "Period"), Many(SAME, "Metrics", "MetricsType"),
      Many(SAME, "EssentialProperty", "DescriptorType"),
      Many(SAME, "SupplementalProperty", "DescriptorType"),
      Many(SAME, "UTCTiming", "DescriptorType"),
      One(SAME, "LeapSecondInformation", "LeapSecondInformationType"),
      One(SAME, "ContentSteering", "ContentSteeringType")>>,
    text |-> "none", any |-> FALSE ]

T_MSProType ==
  [ attrs |-> <<>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_MarlinContentId ==
  [ attrs |-> <<>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_MarlinContentIds ==
  [ attrs |-> <<>>,
    kids |-> <<Many(MAS, "MarlinContentId", "MarlinContentId")>>,
    text |-> "none", any |-> FALSE ]

T_MetricsType ==
  [ attrs |-> <<A("metrics", "s")>>,
    kids |-> <<Many(SAME, "Range", "RangeType"), Many(SAME, "Reporting", "DescriptorType")>>,
    text |-> "none", any |-> FALSE ]

T_ModelPairType ==
  [ attrs |-> <<P("bufferTime", "d"), A("bandwidth", "u32")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_OperatingBandwidthType ==
  [ attrs |-> <<A("mediaType", "s"), A("min", "u32"), A("max", "u32"), A("target", "u32")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_OperatingQualityType ==
  [ attrs |-> <<A("mediaType", "s"), A("min", "u32"), A("max", "u32"), A("target", "u32"),
      A("type", "s"), A("maxDifference", "u32")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_PR ==
  [ attrs |-> <<A("popularityRate", "u32"), P("start", "u64"), A("r", "i64")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_PatchLocationType ==
  [ attrs |-> <<A("serviceLocation", "s"), A("ttl", "f64")>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_PatternType ==
  [ attrs |-> <<A("id", "u64")>>,
    kids |-> <<Many(SAME, "P", "RunLengthType")>>,
    text |-> "none", any |-> FALSE ]

T_Period ==
  [ attrs |-> <<N(XLINK, "href"), N(XLINK, "actuate"), N(XLINK, "type"), N(XLINK, "show"),
      A("id", "s"), P("start", "d"), P("duration", "d"), P("bitstreamSwitching", "b"),
      P("minBufferTime", "d")>>,
    kids |-> <<Many(SAME, "ImportedMPD", "ImportedMpdType"), Many(SAME, "BaseURL", "BaseURLType"),
      Many(SAME, "RequestParam", "ExtendedUrlInfoType"),
      One(SAME, "SegmentBase", "SegmentBaseType"),
      One(SAME, "SegmentList", "SegmentListType"),
      One(SAME, "SegmentTemplate", "SegmentTemplateType"),
      One(SAME, "AssetIdentifier", "DescriptorType"),
      Many(SAME, "EventStream", "EventStreamType"),
      Many(SAME, "ServiceDescription", "ServiceDescriptionType"),
      Many(SAME, "ContentProtection", "ContentProtectionType"),
      Many(SAME, "AdaptationSet", "AdaptationSetType"), Many(SAME, "Subset", "SubsetType"),
      Many(SAME, "SupplementalProperty", "DescriptorType"),
      Many(SAME, "EmptyAdaptationSet", "AdaptationSetType"),
      Many(SAME, "GroupLabel", "LabelType"),
      Many(SAME, "Preselection", "PreselectionType")>>,
    text |-> "none", any |-> FALSE ]

T_PlaybackRateType ==
  [ attrs |-> <<A("max", "f64"), A("min", "f64")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_PlaybackRestrictionsType ==
  [ attrs |-> <<A("skipAfter", "d")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_PreselectionType ==
  [ attrs |-> <<A("id", "s"), P("preselectionComponents", "s"), A("lang", "s"), A("order", "s"),
      A("profiles", "s"), A("width", "u32"), A("height", "u32"), A("sar", "s"),
      A("frameRate", "s"), P("audioSamplingRate", "s"), A("mimeType", "s"),
      P("segmentProfiles", "s"), A("codecs", "s"), P("containerProfiles", "s"),
      A("maximumSAPPeriod", "f64"), A("startWithSAP", "u32"), A("maxPlayoutRate", "f64"),
      P("codingDependency", "b"), A("scanType", "s"), P("selectionPriority", "u32"),
      A("tag", "s"), N(SCTE214, "supplementalProfiles"), N(SCTE214, "supplementalCodecs")>>,
    kids |-> <<Many(SAME, "Accessibility", "DescriptorType"), Many(SAME, "Role", "DescriptorType"),
      Many(SAME, "Rating", "DescriptorType"), Many(SAME, "Viewpoint", "DescriptorType"),
      Many(SAME, "FramePacking", "DescriptorType"),
      Many(SAME, "AudioChannelConfiguration", "DescriptorType"),
      Many(SAME, "ContentProtection", "ContentProtectionType"),
      One(SAME, "OutputProtection", "DescriptorType"),
      Many(SAME, "EssentialProperty", "DescriptorType"),
      Many(SAME, "SupplementalProperty", "DescriptorType"),
      Many(SAME, "InbandEventStream", "EventStreamType"),
      Many(SAME, "Switching", "SwitchingType"),
      Many(SAME, "RandomAccess", "RandomAccessType"),
      Many(SAME, "GroupLabel", "LabelType"), Many(SAME, "Label", "LabelType"),
      Many(SAME, "ProducerReferenceTime", "ProducerReferenceTimeType"),
      Many(SAME, "ContentPopularityRate", "ContentPopularityRateType"),
      Many(SAME, "Resync", "ResyncType"),
      Many(SAME, "SegmentSequenceProperties", "SegmentSequencePropertiesType")>>,
    text |-> "none", any |-> FALSE ]

T_PrivateCommandType ==
  [ attrs |-> <<A("identifier", "u32")>>,
    kids |-> <<One(READ, "Ext", "ExtType"), One(SAME, "PrivateBytes", "String")>>,
    text |-> "none", any |-> FALSE ]

T_PrivateDescriptorType ==
  [ attrs |-> <<A("descriptorTag", "u8"), A("identifier", "u32")>>,
    kids |-> <<One(READ, "Ext", "ExtType"), One(SAME, "PrivateBytes", "String")>>,
    text |-> "none", any |-> TRUE ]

T_ProducerReferenceTimeType ==
  [ attrs |-> <<A("id", "u32"), A("inband", "b"), A("type", "s"), A("applicationScheme", "s"),
      A("wallClockTime", "s"), A("presentationTime", "u64")>>,
    kids |-> <<One(SAME, "UTCTiming", "DescriptorType")>>,
    text |-> "none", any |-> FALSE ]

T_ProgramInformationType ==
  [ attrs |-> <<A("lang", "s"), A("moreInformationURL", "s")>>,
    kids |-> <<One(SAME, "Title", "String"), One(SAME, "Source", "String"),
      One(SAME, "Copyright", "String")>>,
    text |-> "none", any |-> FALSE ]

T_PsshType ==
  [ attrs |-> <<>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_RandomAccessType ==
  [ attrs |-> <<A("interval", "u32"), A("type", "s"), P("minBufferTime", "d"), A("bandwidth", "u32")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_RangeType ==
  [ attrs |-> <<P("starttime", "d"), P("duration", "d")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_RepresentationType ==
  [ attrs |-> <<A("id", "s"), A("bandwidth", "u32"), P("qualityRanking", "u32"),
      P("dependencyId", "s"), P("associationId", "s"), P("associationType", "s"),
      P("mediaStreamStructureId", "s"), A("profiles", "s"), A("width", "u32"),
      A("height", "u32"), A("sar", "s"), A("frameRate", "s"), P("audioSamplingRate", "s"),
      A("mimeType", "s"), P("segmentProfiles", "s"), A("codecs", "s"),
      P("containerProfiles", "s"), A("maximumSAPPeriod", "f64"), A("startWithSAP", "u32"),
      A("maxPlayoutRate", "f64"), P("codingDependency", "b"), A("scanType", "s"),
      P("selectionPriority", "u32"), A("tag", "s"), N(SCTE214, "supplementalProfiles"),
      N(SCTE214, "supplementalCodecs")>>,
    kids |-> <<Many(SAME, "FramePacking", "DescriptorType"),
      Many(SAME, "AudioChannelConfiguration", "DescriptorType"),
      Many(SAME, "ContentProtection", "ContentProtectionType"),
      One(SAME, "OutputProtection", "DescriptorType"),
      Many(SAME, "EssentialProperty", "DescriptorType"),
      Many(SAME, "SupplementalProperty", "DescriptorType"),
      Many(SAME, "InbandEventStream", "EventStreamType"),
      Many(SAME, "Switching", "SwitchingType"),
      Many(SAME, "RandomAccess", "RandomAccessType"),
      Many(SAME, "GroupLabel", "LabelType"), Many(SAME, "Label", "LabelType"),
      Many(SAME, "ProducerReferenceTime", "ProducerReferenceTimeType"),
      Many(SAME, "ContentPopularityRate", "ContentPopularityRateType"),
      Many(SAME, "Resync", "ResyncType"),
      Many(SAME, "SegmentSequenceProperties", "SegmentSequencePropertiesType"),
      Many(SAME, "BaseURL", "BaseURLType"),
      Many(SAME, "ExtendedBandwidth", "ExtendedBandwidthType"),
      Many(SAME, "SubRepresentation", "SubRepresentationType"),
      Many(SAME, "RequestParam", "ExtendedUrlInfoType"),
      One(SAME, "SegmentBase", "SegmentBaseType"),
      One(SAME, "SegmentList", "SegmentListType"),
      One(SAME, "SegmentTemplate", "SegmentTemplateType")>>,
    text |-> "none", any |-> FALSE ]

T_ResyncType ==
  [ attrs |-> <<A("type", "u32"), P("dT", "u32"), P("dImax", "f32"), A("dImin", "f32"),
      A("marker", "b")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_RunLengthType ==
  [ attrs |-> <<A("d", "u64"), A("r", "u32"), P("k", "u64"), P("ssp", "u32")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_S ==
  [ attrs |-> <<P("t", "u64"), P("n", "u64"), A("d", "u64"), A("r", "i64"), P("k", "u64"),
      P("p", "u32"), P("pE", "u32"), P("ssp", "u32")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_SCTE214ContentIdentifierType ==
  [ attrs |-> <<A("type", "s"), A("value", "s")>>,
    kids |-> <<>>,
    text |-> "none", any |-> TRUE ]

T_SegmentBaseType ==
  [ attrs |-> <<P("timescale", "u32"), P("eptDelta", "i64"), P("pdDelta", "i64"),
      P("presentationTimeOffset", "u64"), P("presentationDuration", "u64"),
      A("timeShiftBufferDepth", "d"), A("indexRange", "s"), A("indexRangeExact", "b"),
      A("availabilityTimeOffset", "finf"), P("availabilityTimeComplete", "b")>>,
    kids |-> <<One(SAME, "Initialization", "URLType"), One(SAME, "RepresentationIndex", "URLType"),
      One(SAME, "FailoverContent", "FailoverContentType")>>,
    text |-> "none", any |-> FALSE ]

T_SegmentListType ==
  [ attrs |-> <<N(XLINK, "href"), N(XLINK, "actuate"), N(XLINK, "type"), N(XLINK, "show"),
      P("duration", "u32"), P("tolerance", "f64"), P("startNumber", "u32"),
      P("endNumber", "u32"), P("endSubNumber", "u64"), P("k", "u64"),
      P("timescale", "u32"), P("eptDelta", "i64"), P("pdDelta", "i64"),
      P("presentationTimeOffset", "u64"), P("presentationDuration", "u64"),
      A("timeShiftBufferDepth", "d"), A("indexRange", "s"), A("indexRangeExact", "b"),
      A("availabilityTimeOffset", "finf"), P("availabilityTimeComplete", "b")>>,
    kids |-> <<Many(SAME, "SegmentURL", "SegmentURLType"),
      One(SAME, "SegmentTimeline", "SegmentTimelineType"),
      One(SAME, "BitstreamSwitching", "URLType"), One(SAME, "Initialization", "URLType"),
      One(SAME, "RepresentationIndex", "URLType"),
      One(SAME, "FailoverContent", "FailoverContentType")>>,
    text |-> "none", any |-> FALSE ]

T_SegmentSequencePropertiesType ==
  [ attrs |-> <<A("sapType", "u32"), A("cadence", "u32"), A("event", "b"), A("alignment", "s")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_SegmentTemplateType ==
  [ attrs |-> <<A("media", "s"), A("index", "s"), A("initialization", "s"),
      A("bitstreamSwitching", "s"), P("duration", "u32"), P("tolerance", "f64"),
      P("startNumber", "u32"), P("endNumber", "u32"), P("endSubNumber", "u64"),
      P("k", "u64"), P("timescale", "u32"), P("eptDelta", "i64"), P("pdDelta", "i64"),
      P("presentationTimeOffset", "u64"), P("presentationDuration", "u64"),
      A("timeShiftBufferDepth", "d"), A("indexRange", "s"), A("indexRangeExact", "b"),
      A("availabilityTimeOffset", "finf"), P("availabilityTimeComplete", "b")>>,
    kids |-> <<One(SAME, "SegmentTimeline", "SegmentTimelineType"),
      One(SAME, "BitstreamSwitching", "URLType"), One(SAME, "Initialization", "URLType"),
      One(SAME, "RepresentationIndex", "URLType"),
      One(SAME, "FailoverContent", "FailoverContentType")>>,
    text |-> "none", any |-> FALSE ]

T_SegmentTimelineType ==
  [ attrs |-> <<>>,
    kids |-> <<Many(SAME, "Pattern", "PatternType"), Many(SAME, "S", "S")>>,
    text |-> "none", any |-> FALSE ]

T_SegmentURLType ==
  [ attrs |-> <<A("media", "s"), A("mediaRange", "s"), A("index", "s"), A("indexRange", "s")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_SegmentationDescriptorComponentType ==
  [ attrs |-> <<A("componentTag", "u8"), A("ptsOffset", "u64")>>,
    kids |-> <<One(READ, "Ext", "ExtType")>>,
    text |-> "none", any |-> TRUE ]

T_SegmentationDescriptorType ==
  [ attrs |-> <<P("segmentationEventId", "u32"), P("segmentationEventCancelIndicator", "b"),
      P("segmentationEventIdComplianceIndicator", "b"), P("segmentationDuration", "u64"),
      P("segmentationTypeId", "u8"), P("segmentNum", "u8"), P("segmentsExpected", "u8"),
      P("subSegmentNum", "u8"), P("subSegmentsExpected", "u8")>>,
    kids |-> <<One(READ, "Ext", "ExtType"),
      One(READ, "DeliveryRestrictions", "DeliveryRestrictionsType"),
      Many(READ, "SegmentationUpid", "SegmentationUpidType"),
      Many(READ, "Component", "SegmentationDescriptorComponentType")>>,
    text |-> "none", any |-> TRUE ]

T_SegmentationUpidType ==
  [ attrs |-> <<P("segmentationUpidType", "u8"), P("formatIdentifier", "u32"),
      A("segmentationUpidFormat", "s")>>,
    kids |-> <<>>,
    text |-> "text", any |-> TRUE ]

T_SelectionInfoType ==
  [ attrs |-> <<A("selectionInfo", "s"), A("contactURL", "s")>>,
    kids |-> <<Many(SAME, "Selection", "SelectionType")>>,
    text |-> "none", any |-> FALSE ]

T_SelectionType ==
  [ attrs |-> <<A("dataEncoding", "s"), A("parameter", "s"), A("data", "s")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_ServiceDescriptionType ==
  [ attrs |-> <<A("id", "u32")>>,
    kids |-> <<Many(SAME, "Scope", "DescriptorType"), Many(SAME, "Latency", "LatencyType"),
      Many(SAME, "PlaybackRate", "PlaybackRateType"),
      Many(SAME, "OperatingQuality", "OperatingQualityType"),
      Many(SAME, "OperatingBandwidth", "OperatingBandwidthType"),
      Many(SAME, "ContentSteering", "ContentSteeringType"),
      Many(SAME, "ClientDataReporting", "ClientDataReportingType"),
      Many(SAME, "PlaybackRestrictions", "PlaybackRestrictionsType")>>,
    text |-> "none", any |-> FALSE ]

T_SignalType ==
  [ attrs |-> <<>>,
    kids |-> <<One(READ, "SpliceInfoSection", "SpliceInfoSectionType"),
      One(READ, "Binary", "BinaryType")>>,
    text |-> "none", any |-> FALSE ]

T_SpliceInfoSectionType ==
  [ attrs |-> <<P("sapType", "u8"), A("preRollMilliSeconds", "u32"), A("ptsAdjustment", "u64"),
      P("protocolVersion", "u8"), P("tier", "u16")>>,
    kids |-> <<One(READ, "Ext", "ExtType"), One(READ, "EncryptedPacket", "EncryptedPacketType"),
      One(READ, "SpliceNull", "SpliceNullType"),
      One(READ, "SpliceSchedule", "SpliceScheduleType"),
      One(READ, "SpliceInsert", "SpliceInsertType"),
      One(READ, "TimeSignal", "TimeSignalType"),
      One(READ, "BandwidthReservation", "BandwidthReservationType"),
      One(READ, "PrivateCommand", "PrivateCommandType"),
      Many(READ, "AvailDescriptor", "AvailDescriptorType"),
      Many(READ, "DTMFDescriptor", "DTMFDescriptorType"),
      Many(READ, "SegmentationDescriptor", "SegmentationDescriptorType"),
      Many(READ, "TimeDescriptor", "TimeDescriptorType"),
      Many(READ, "AudioDescriptor", "AudioDescriptorType"),
      Many(READ, "PrivateDescriptor", "PrivateDescriptorType")>>,
    text |-> "none", any |-> TRUE ]

T_SpliceInsertComponentType ==
  [ attrs |-> <<A("componentTag", "u8")>>,
    kids |-> <<One(READ, "Ext", "ExtType"), One(READ, "SpliceTime", "SpliceTimeType")>>,
    text |-> "none", any |-> TRUE ]

T_SpliceInsertProgramType ==
  [ attrs |-> <<>>,
    kids |-> <<One(READ, "Ext", "ExtType"), One(READ, "SpliceTime", "SpliceTimeType")>>,
    text |-> "none", any |-> TRUE ]

T_SpliceInsertType ==
  [ attrs |-> <<P("spliceEventId", "u32"), P("spliceEventCancelIndicator", "b"),
      P("outOfNetworkIndicator", "b"), P("spliceImmediateFlag", "b"),
      P("eventIdComplianceFlag", "b"), P("uniqueProgramId", "u16"), P("availNum", "u8"),
      P("availsExpected", "u8")>>,
    kids |-> <<One(READ, "Ext", "ExtType"), One(READ, "Program", "SpliceInsertProgramType"),
      Many(READ, "Component", "SpliceInsertComponentType"),
      One(READ, "BreakDuration", "BreakDurationType")>>,
    text |-> "none", any |-> FALSE ]

T_SpliceNullType ==
  [ attrs |-> <<>>,
    kids |-> <<One(READ, "Ext", "ExtType")>>,
    text |-> "none", any |-> FALSE ]

T_SpliceScheduleComponentType ==
  [ attrs |-> <<A("componentTag", "u8"), A("utcSpliceTime", "s")>>,
    kids |-> <<One(READ, "Ext", "ExtType")>>,
    text |-> "none", any |-> TRUE ]

T_SpliceScheduleEventType ==
  [ attrs |-> <<P("spliceEventId", "u32"), P("eventIdComplianceFlag", "b"),
      P("spliceEventCancelIndicator", "b"), P("outOfNetworkIndicator", "b"),
      P("uniqueProgramId", "u16"), P("availNum", "u8"), P("availsExpected", "u8")>>,
    kids |-> <<One(READ, "Ext", "ExtType"), One(READ, "Program", "SpliceScheduleProgramType"),
      Many(READ, "Component", "SpliceScheduleComponentType"),
      One(READ, "BreakDuration", "BreakDurationType")>>,
    text |-> "none", any |-> TRUE ]

T_SpliceScheduleProgramType ==
  [ attrs |-> <<A("utcSpliceTime", "s")>>,
    kids |-> <<One(READ, "Ext", "ExtType")>>,
    text |-> "none", any |-> TRUE ]

T_SpliceScheduleType ==
  [ attrs |-> <<>>,
    kids |-> <<One(READ, "Ext", "ExtType"), Many(READ, "Event", "SpliceScheduleEventType")>>,
    text |-> "none", any |-> FALSE ]

T_SpliceTimeType ==
  [ attrs |-> <<P("ptsTime", "u64")>>,
    kids |-> <<One(READ, "Ext", "ExtType")>>,
    text |-> "none", any |-> TRUE ]

T_SubRepresentationType ==
  [ attrs |-> <<P("level", "u32"), P("dependencyLevel", "s"), A("bandwidth", "u32"),
      P("contentComponent", "s"), A("profiles", "s"), A("width", "u32"),
      A("height", "u32"), A("sar", "s"), A("frameRate", "s"), P("audioSamplingRate", "s"),
      A("mimeType", "s"), P("segmentProfiles", "s"), A("codecs", "s"),
      P("containerProfiles", "s"), A("maximumSAPPeriod", "f64"), A("startWithSAP", "u32"),
      A("maxPlayoutRate", "f64"), P("codingDependency", "b"), A("scanType", "s"),
      P("selectionPriority", "u32"), A("tag", "s"), N(SCTE214, "supplementalProfiles"),
      N(SCTE214, "supplementalCodecs")>>,
    kids |-> <<Many(SAME, "FramePacking", "DescriptorType"),
      Many(SAME, "AudioChannelConfiguration", "DescriptorType"),
      Many(SAME, "ContentProtection", "ContentProtectionType"),
      One(SAME, "OutputProtection", "DescriptorType"),
      Many(SAME, "EssentialProperty", "DescriptorType"),
      Many(SAME, "SupplementalProperty", "DescriptorType"),
      Many(SAME, "InbandEventStream", "EventStreamType"),
      Many(SAME, "Switching", "SwitchingType"),
      Many(SAME, "RandomAccess", "RandomAccessType"),
      Many(SAME, "GroupLabel", "LabelType"), Many(SAME, "Label", "LabelType"),
      Many(SAME, "ProducerReferenceTime", "ProducerReferenceTimeType"),
      Many(SAME, "ContentPopularityRate", "ContentPopularityRateType"),
      Many(SAME, "Resync", "ResyncType"),
      Many(SAME, "SegmentSequenceProperties", "SegmentSequencePropertiesType")>>,
    text |-> "none", any |-> FALSE ]

T_SubsetType ==
  [ attrs |-> <<P("contains", "s"), A("id", "s")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_SwitchingType ==
  [ attrs |-> <<A("interval", "u32"), A("type", "s")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_TimeDescriptorType ==
  [ attrs |-> <<P("taiSeconds", "u64"), P("taiNs", "u32"), P("utcOffset", "u16")>>,
    kids |-> <<One(READ, "Ext", "ExtType")>>,
    text |-> "none", any |-> TRUE ]

T_TimeSignalType ==
  [ attrs |-> <<>>,
    kids |-> <<One(READ, "Ext", "ExtType"), One(READ, "SpliceTime", "SpliceTimeType")>>,
    text |-> "none", any |-> FALSE ]

T_UIntPairsWithIDType ==
  [ attrs |-> <<A("type", "s")>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_UIntVWithIDType ==
  [ attrs |-> <<A("id", "u32"), A("profiles", "s"), A("contentType", "s")>>,
    kids |-> <<>>,
    text |-> "text", any |-> FALSE ]

T_URLType ==
  [ attrs |-> <<A("sourceURL", "s"), A("range", "s")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

T_UrlQueryInfoType ==
  [ attrs |-> <<A("queryTemplate", "s"), A("useMPDUrlQuery", "b"), A("queryString", "s"),
      N(XLINK, "href"), N(XLINK, "actuate"), N(XLINK, "type"), N(XLINK, "show")>>,
    kids |-> <<>>,
    text |-> "none", any |-> FALSE ]

Types == [
  String |-> T_String,
  AdaptationSetType |-> T_AdaptationSetType,
  AlternativeMPDEventType |-> T_AlternativeMPDEventType,
  AlternativeMPDReplaceEventType |-> T_AlternativeMPDReplaceEventType,
  AudioChannelType |-> T_AudioChannelType,
  AudioDescriptorType |-> T_AudioDescriptorType,
  AuthzURLType |-> T_AuthzURLType,
  AvailDescriptorType |-> T_AvailDescriptorType,
  BandwidthReservationType |-> T_BandwidthReservationType,
  BaseURLType |-> T_BaseURLType,
  BinaryType |-> T_BinaryType,
  BreakDurationType |-> T_BreakDurationType,
  CMCDParameterType |-> T_CMCDParameterType,
  CerturlType |-> T_CerturlType,
  ClientDataReportingType |-> T_ClientDataReportingType,
  ContentComponentType |-> T_ContentComponentType,
  ContentPopularityRateType |-> T_ContentPopularityRateType,
  ContentProtectionType |-> T_ContentProtectionType,
  ContentSteeringType |-> T_ContentSteeringType,
  DTMFDescriptorType |-> T_DTMFDescriptorType,
  DeliveryRestrictionsType |-> T_DeliveryRestrictionsType,
  DescriptorType |-> T_DescriptorType,
  EncryptedPacketType |-> T_EncryptedPacketType,
  EventStreamType |-> T_EventStreamType,
  EventType |-> T_EventType,
  ExtType |-> T_ExtType,
  ExtendedBandwidthType |-> T_ExtendedBandwidthType,
  ExtendedUrlInfoType |-> T_ExtendedUrlInfoType,
  FCS |-> T_FCS,
  FailoverContentType |-> T_FailoverContentType,
  ImportedMpdType |-> T_ImportedMpdType,
  InitializationSetType |-> T_InitializationSetType,
  LaURLType |-> T_LaURLType,
  LabelType |-> T_LabelType,
  LatencyType |-> T_LatencyType,
  LeapSecondInformationType |-> T_LeapSecondInformationType,
  LocationType |-> T_LocationType,
  MPD |-> T_MPD,
  MSProType |-> T_MSProType,
  MarlinContentId |-> T_MarlinContentId,
  MarlinContentIds |-> T_MarlinContentIds,
  MetricsType |-> T_MetricsType,
  ModelPairType |-> T_ModelPairType,
  OperatingBandwidthType |-> T_OperatingBandwidthType,
  OperatingQualityType |-> T_OperatingQualityType,
  PR |-> T_PR,
  PatchLocationType |-> T_PatchLocationType,
  PatternType |-> T_PatternType,
  Period |-> T_Period,
  PlaybackRateType |-> T_PlaybackRateType,
  PlaybackRestrictionsType |-> T_PlaybackRestrictionsType,
  PreselectionType |-> T_PreselectionType,
  PrivateCommandType |-> T_PrivateCommandType,
  PrivateDescriptorType |-> T_PrivateDescriptorType,
  ProducerReferenceTimeType |-> T_ProducerReferenceTimeType,
  ProgramInformationType |-> T_ProgramInformationType,
  PsshType |-> T_PsshType,
  RandomAccessType |-> T_RandomAccessType,
  RangeType |-> T_RangeType,
  RepresentationType |-> T_RepresentationType,
  ResyncType |-> T_ResyncType,
  RunLengthType |-> T_RunLengthType,
  S |-> T_S,
  SCTE214ContentIdentifierType |-> T_SCTE214ContentIdentifierType,
  SegmentBaseType |-> T_SegmentBaseType,
  SegmentListType |-> T_SegmentListType,
  SegmentSequencePropertiesType |-> T_SegmentSequencePropertiesType,
  SegmentTemplateType |-> T_SegmentTemplateType,
  SegmentTimelineType |-> T_SegmentTimelineType,
  SegmentURLType |-> T_SegmentURLType,
  SegmentationDescriptorComponentType |-> T_SegmentationDescriptorComponentType,
  SegmentationDescriptorType |-> T_SegmentationDescriptorType,
  SegmentationUpidType |-> T_SegmentationUpidType,
  SelectionInfoType |-> T_SelectionInfoType,
  SelectionType |-> T_SelectionType,
  ServiceDescriptionType |-> T_ServiceDescriptionType,
  SignalType |-> T_SignalType,
  SpliceInfoSectionType |-> T_SpliceInfoSectionType,
  SpliceInsertComponentType |-> T_SpliceInsertComponentType,
  SpliceInsertProgramType |-> T_SpliceInsertProgramType,
  SpliceInsertType |-> T_SpliceInsertType,
  SpliceNullType |-> T_SpliceNullType,
  SpliceScheduleComponentType |-> T_SpliceScheduleComponentType,
  SpliceScheduleEventType |-> T_SpliceScheduleEventType,
  SpliceScheduleProgramType |-> T_SpliceScheduleProgramType,
  SpliceScheduleType |-> T_SpliceScheduleType,
  SpliceTimeType |-> T_SpliceTimeType,
  SubRepresentationType |-> T_SubRepresentationType,
  SubsetType |-> T_SubsetType,
  SwitchingType |-> T_SwitchingType,
  TimeDescriptorType |-> T_TimeDescriptorType,
  TimeSignalType |-> T_TimeSignalType,
  UIntPairsWithIDType |-> T_UIntPairsWithIDType,
  UIntVWithIDType |-> T_UIntVWithIDType,
  URLType |-> T_URLType,
  UrlQueryInfoType |-> T_UrlQueryInfoType
]
=============================================================================
