------------------------------ MODULE Grammars ------------------------------
(***************************************************************************)
(* The grammars of header fields and other protocol elements, written from *)
(* the collected ABNF of the specifications that define them.  Their       *)
(* meaning is Abnf!Ends.  (Property C10, and the sublanguages that C20-C29 *)
(* need.)                                                                  *)
(***************************************************************************)
EXTENDS Abnf

L(c) == Cls({B(c)[1]})                    \* one given character (no letters)
SP == TLCEval(Cls({32}))
Words(strs) == TLCEval(Alt([i \in 1..Len(strs) |-> Lit(strs[i])]))
CWords(strs) == TLCEval(Alt([i \in 1..Len(strs) |-> CLit(strs[i])]))
TokenNot(words) == But(Token, {Lower(B(words[i])) : i \in 1..Len(words)})
TokOrQs == TLCEval(Alt(<<Token, QString>>))
Digits == TLCEval(Many1(Digit))
Two(g) == Rep(2, 2, g)

------------------------------------------------------------------------------
(* RFC 3986 *)
PctEnc == TLCEval(Cat(<<L("%"), HexDig, HexDig>>))
SubDelims == Ch("!$&'()*+,;=")
UnreservedSet == TLCEval((65..90) \cup (97..122) \cup (48..57) \cup {45, 46, 95, 126})
Unreserved == TLCEval(Cls(UnreservedSet))
SubDelimSet == {B("!$&'()*+,;=")[i] : i \in 1..11}
UChar(extra) == TLCEval(Alt(<<Cls(UnreservedSet \cup SubDelimSet \cup extra), PctEnc>>))
Pchar == TLCEval(UChar({58, 64}))
Segment == TLCEval(Many(Pchar))
SegmentNz == TLCEval(Many1(Pchar))
SegmentNzNc == TLCEval(Many1(UChar({64})))
Scheme == TLCEval(Cat(<<Alpha, Many(Alt(<<Alpha, Digit, Ch("+-.")>>))>>))
UserInfo == TLCEval(Many(UChar({58})))
DecOctet == TLCEval(Alt(<<Digit, Cat(<<Cls(49..57), Digit>>), Cat(<<L("1"), Digit, Digit>>),
                  Cat(<<L("2"), Cls(48..52), Digit>>), Cat(<<CLit("25"), Cls(48..53)>>)>>))
IPv4 == TLCEval(Cat(<<DecOctet, L("."), DecOctet, L("."), DecOctet, L("."), DecOctet>>))
H16 == TLCEval(Rep(1, 4, HexDig))
H16c == TLCEval(Cat(<<H16, L(":")>>))
Ls32 == TLCEval(Alt(<<Cat(<<H16, L(":"), H16>>), IPv4>>))
CC == TLCEval(CLit("::"))
UpTo(n) == Opt(Cat(<<Rep(0, n, H16c), H16>>))
IPv6 == TLCEval(Alt(<<
    Cat(<<Rep(6, 6, H16c), Ls32>>),
    Cat(<<CC, Rep(5, 5, H16c), Ls32>>),
    Cat(<<Opt(H16), CC, Rep(4, 4, H16c), Ls32>>),
    Cat(<<UpTo(1), CC, Rep(3, 3, H16c), Ls32>>),
    Cat(<<UpTo(2), CC, Rep(2, 2, H16c), Ls32>>),
    Cat(<<UpTo(3), CC, H16c, Ls32>>),
    Cat(<<UpTo(4), CC, Ls32>>),
    Cat(<<UpTo(5), CC, H16>>),
    Cat(<<UpTo(6), CC>>)>>))
IPvFuture == TLCEval(Cat(<<Lit("v"), Many1(HexDig), L("."), Many1(Cls(UnreservedSet \cup SubDelimSet \cup {58}))>>))
ZoneID == TLCEval(Many1(Alt(<<Unreserved, PctEnc>>)))                          \* RFC 6874
IPLiteral == TLCEval(Cat(<<L("["), Alt(<<IPv6, Cat(<<IPv6, CLit("%25"), ZoneID>>), IPvFuture>>), L("]")>>))
RegName == TLCEval(Many(UChar({})))
UriHost == TLCEval(Alt(<<IPLiteral, IPv4, RegName>>))
Port == TLCEval(Many(Digit))
HostPort == TLCEval(Cat(<<UriHost, Opt(Cat(<<L(":"), Port>>))>>))
Authority == TLCEval(Cat(<<Opt(Cat(<<UserInfo, L("@")>>)), HostPort>>))
Slash == L("/")
PathAbEmpty == TLCEval(Many(Cat(<<Slash, Segment>>)))
PathAbsolute == TLCEval(Cat(<<Slash, Opt(Cat(<<SegmentNz, PathAbEmpty>>))>>))
PathNoScheme == TLCEval(Cat(<<SegmentNzNc, PathAbEmpty>>))
PathRootless == TLCEval(Cat(<<SegmentNz, PathAbEmpty>>))
NetPath == TLCEval(Cat(<<CLit("//"), Authority, PathAbEmpty>>))
HierPart == TLCEval(Alt(<<NetPath, PathAbsolute, PathRootless, Eps>>))
Query == TLCEval(Many(UChar({58, 64, 47, 63})))
OptQuery == TLCEval(Opt(Cat(<<L("?"), Query>>)))
OptFrag == TLCEval(Opt(Cat(<<L("#"), Query>>)))
AbsoluteURI == TLCEval(Cat(<<Scheme, L(":"), HierPart, OptQuery>>))
RelativePart == TLCEval(Alt(<<NetPath, PathAbsolute, PathNoScheme, Eps>>))
PartialURI == TLCEval(Cat(<<RelativePart, OptQuery>>))
Uri == TLCEval(Cat(<<AbsoluteURI, OptFrag>>))
URIReference == TLCEval(Alt(<<Uri, Cat(<<PartialURI, OptFrag>>)>>))

(* request targets, RFC 7230 section 5.3 *)
OriginForm == TLCEval(Cat(<<Many1(Cat(<<Slash, Segment>>)), OptQuery>>))

------------------------------------------------------------------------------
(* RFC 5646, RFC 4647 *)
AlNum == TLCEval(Alt(<<Alpha, Digit>>))
Dash(g) == Cat(<<L("-"), g>>)
ExtLang == TLCEval(Cat(<<Rep(3, 3, Alpha), Rep(0, 2, Dash(Rep(3, 3, Alpha)))>>))
Language == TLCEval(Alt(<<Cat(<<Rep(2, 3, Alpha), Opt(Dash(ExtLang))>>), Rep(4, 4, Alpha), Rep(5, 8, Alpha)>>))
Script == Rep(4, 4, Alpha)
Region == TLCEval(Alt(<<Rep(2, 2, Alpha), Rep(3, 3, Digit)>>))
Variant == TLCEval(Alt(<<Rep(5, 8, AlNum), Cat(<<Digit, Rep(3, 3, AlNum)>>)>>))
Singleton == TLCEval(Cls((48..57) \cup ((65..90) \ {88}) \cup ((97..122) \ {120})))
Extension == TLCEval(Cat(<<Singleton, Many1(Dash(Rep(2, 8, AlNum)))>>))
PrivateUse == TLCEval(Cat(<<Lit("x"), Many1(Dash(Rep(1, 8, AlNum)))>>))
LangTag == TLCEval(Cat(<<Language, Opt(Dash(Script)), Opt(Dash(Region)), Many(Dash(Variant)), Many(Dash(Extension)), Opt(Dash(PrivateUse))>>))
GrandFathered == Words(<<"en-GB-oed", "i-ami", "i-bnn", "i-default", "i-enochian", "i-hak", "i-klingon", "i-lux", "i-mingo", "i-navajo",
    "i-pwn", "i-tao", "i-tay", "i-tsu", "sgn-BE-FR", "sgn-BE-NL", "sgn-CH-DE",
    "art-lojban", "cel-gaulish", "no-bok", "no-nyn", "zh-guoyu", "zh-hakka", "zh-min", "zh-min-nan", "zh-xiang">>)
LanguageTag == TLCEval(Alt(<<LangTag, PrivateUse, GrandFathered>>))
LanguageRange == TLCEval(Alt(<<Cat(<<Rep(1, 8, Alpha), Many(Dash(Rep(1, 8, AlNum)))>>), L("*")>>))

------------------------------------------------------------------------------
(* HTTP-date, RFC 7231 section 7.1.1.1 (case-sensitive) *)
DayName == CWords(<<"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun">>)
DayNameL == CWords(<<"Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday">>)
Month == CWords(<<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>)
D2 == Two(Digit)
D4 == Rep(4, 4, Digit)
TimeOfDay == TLCEval(Cat(<<D2, L(":"), D2, L(":"), D2>>))
GMT == TLCEval(CLit(" GMT"))
ImfFixdate == TLCEval(Cat(<<DayName, CLit(", "), D2, SP, Month, SP, D4, SP, TimeOfDay, GMT>>))
Rfc850 == TLCEval(Cat(<<DayNameL, CLit(", "), D2, L("-"), Month, L("-"), D2, SP, TimeOfDay, GMT>>))
AscTime == TLCEval(Cat(<<DayName, SP, Month, SP, Alt(<<D2, Cat(<<SP, Digit>>)>>), SP, TimeOfDay, SP, D4>>))
HttpDate == TLCEval(Alt(<<ImfFixdate, Rfc850, AscTime>>))

------------------------------------------------------------------------------
(* Pieces shared by several headers *)
Semi == TLCEval(Cat(<<OWS, L(";"), OWS>>))
Eq == L("=")
BwsEq == TLCEval(Cat(<<OWS, Eq, OWS>>))
Parameter == TLCEval(Cat(<<Token, Eq, TokOrQs>>))
ParameterNotQ == TLCEval(Cat(<<TokenNot(<<"q">>), Eq, TokOrQs>>))
MType == TLCEval(Cat(<<Token, Slash, Token>>))
MediaType == TLCEval(Cat(<<MType, Many(Cat(<<Semi, Parameter>>))>>))
QValue == TLCEval(Alt(<<Cat(<<L("0"), Opt(Cat(<<L("."), Rep(0, 3, Digit)>>))>>), Cat(<<L("1"), Opt(Cat(<<L("."), Rep(0, 3, L("0"))>>))>>)>>))
Weight == TLCEval(Cat(<<Semi, Lit("q"), Eq, QValue>>))
OptWeight == TLCEval(Opt(Weight))
MRange(param) == Cat(<<MType, Many(Cat(<<Semi, param>>))>>)     \* "*" is a tchar, so */* and type/* are of this form
AcceptExt == TLCEval(Cat(<<Semi, Token, Opt(Cat(<<Eq, TokOrQs>>))>>))
TransferParam(name) == Cat(<<name, BwsEq, TokOrQs>>)
Builtin == <<"chunked", "compress", "deflate", "gzip">>
\* The four registered codings are defined without parameters.
TransferCoding == TLCEval(Alt(<<Words(Builtin), Cat(<<TokenNot(Builtin), Many(Cat(<<Semi, TransferParam(Token)>>))>>)>>))
TCodingTe == TLCEval(Alt(<<Words(Builtin), Cat(<<TokenNot(Builtin \o <<"trailers">>), Many(Cat(<<Semi, TransferParam(TokenNot(<<"q">>))>>))>>)>>))
TCodings == TLCEval(Alt(<<Lit("trailers"), Cat(<<TCodingTe, OptWeight>>)>>))
Protocol == TLCEval(Cat(<<Token, Opt(Cat(<<Slash, Token>>))>>))
ReceivedBy == TLCEval(Alt(<<HostPort, Token>>))
CText == TLCEval(Cls({9, 32} \cup (33..39) \cup (42..91) \cup (93..126) \cup ObsText))
\* comments nest
Env == [comment |-> Cat(<<L("("), Many(Alt(<<CText, QPair, Ref("comment")>>)), L(")")>>)]
Comment == Ref("comment")
Product == Protocol
Products == TLCEval(Cat(<<Product, Many(Cat(<<RWS, Alt(<<Product, Comment>>)>>))>>))
ViaElem == TLCEval(Cat(<<Opt(Cat(<<Token, Slash>>)), Token, RWS, ReceivedBy, Opt(Cat(<<RWS, Comment>>))>>))
Etagc == TLCEval(Cls({33} \cup (35..126) \cup ObsText))
OpaqueTag == TLCEval(Cat(<<L("\""), Many(Etagc), L("\"")>>))
EntityTag == TLCEval(Cat(<<Opt(CLit("W/")), OpaqueTag>>))
StarOr(g) == Alt(<<L("*"), g>>)
CacheDirective == TLCEval(Cat(<<Token, Opt(Cat(<<Eq, TokOrQs>>))>>))
PragmaDirective == TLCEval(Alt(<<Lit("no-cache"), Cat(<<TokenNot(<<"no-cache">>), Opt(Cat(<<Eq, TokOrQs>>))>>)>>))
WarningValue == TLCEval(Cat(<<Rep(3, 3, Digit), SP, ReceivedBy, SP, QString, Opt(Cat(<<SP, L("\""), HttpDate, L("\"")>>))>>))
Token68 == TLCEval(Cat(<<Many1(Cls(UnreservedSet \cup {43, 47})), Many(Eq)>>))
AuthParam == TLCEval(Cat(<<Token, BwsEq, TokOrQs>>))
Challenge == TLCEval(Cat(<<Token, Opt(Cat(<<Many1(SP), Alt(<<Token68, List(AuthParam)>>)>>))>>))
FwdElement == TLCEval(Cat(<<Opt(Parameter), Many(Cat(<<L(";"), Opt(Parameter)>>))>>))
PrefParam == TLCEval(Cat(<<Token, Opt(Cat(<<Eq, TokOrQs>>))>>))
Preference == TLCEval(Cat(<<PrefParam, Many(Cat(<<OWS, L(";"), Opt(Cat(<<OWS, PrefParam>>))>>))>>))
AltValue == TLCEval(Cat(<<Token, Eq, QString, Many(Cat(<<Semi, Parameter>>))>>))
LinkParam == TLCEval(Cat(<<Token, OWS, Opt(Cat(<<Eq, OWS, TokOrQs>>))>>))
LinkValue == TLCEval(Cat(<<L("<"), URIReference, L(">"), Many(Cat(<<Semi, LinkParam>>))>>))
StsDirective == TLCEval(Cat(<<Token, Opt(Cat(<<BwsEq, TokOrQs>>))>>))
Sts == TLCEval(Cat(<<Opt(StsDirective), Many(Cat(<<Semi, Opt(StsDirective)>>))>>))
MimeCharset == TLCEval(Many1(Alt(<<AlNum, Ch("!#$%&+-^_`{}~")>>)))
AttrChar == TLCEval(Alt(<<AlNum, Ch("!#$&+-.^_`|~")>>))
ExtValue == TLCEval(Cat(<<MimeCharset, L("'"), Opt(LanguageTag), L("'"), Many(Alt(<<PctEnc, AttrChar>>))>>))
DispParm == TLCEval(Alt(<<Cat(<<Lit("filename"), BwsEq, TokOrQs>>), Cat(<<Lit("filename*"), BwsEq, ExtValue>>),
                  Cat(<<TokenNot(<<"filename", "filename*">>), BwsEq, TokOrQs>>)>>))
ContentDisposition == TLCEval(Cat(<<Token, Many(Cat(<<Semi, DispParm>>))>>))
ByteRange == TLCEval(Alt(<<Cat(<<Digits, L("-"), Opt(Digits)>>), Cat(<<L("-"), Digits>>)>>))
OtherUnit == TokenNot(<<"bytes">>)
RangeHdr == TLCEval(Alt(<<Cat(<<Lit("bytes"), Eq, List1(ByteRange)>>), Cat(<<OtherUnit, Eq, Many1(Vchar)>>)>>))
ContentRange == TLCEval(Alt(<<Cat(<<Lit("bytes"), SP, Alt(<<Cat(<<Digits, L("-"), Digits, Slash, Alt(<<Digits, L("*")>>)>>), Cat(<<CLit("*/"), Digits>>)>>)>>),
                      Cat(<<OtherUnit, SP, Many(Cls(1..127))>>)>>))
OriginVal == TLCEval(Cat(<<Scheme, CLit("://"), HostPort>>))
OriginOrNull == TLCEval(Alt(<<OriginVal, CLit("null")>>))
UriNoFrag == TLCEval(Alt(<<AbsoluteURI, PartialURI>>))

------------------------------------------------------------------------------
(* Header fields *)
Header == [
  h_accept |-> List(Cat(<<MRange(ParameterNotQ), Opt(Cat(<<Weight, Many(AcceptExt)>>))>>)),
  h_accept_charset |-> List1(Cat(<<Token, OptWeight>>)),
  h_accept_encoding |-> List(Cat(<<Token, OptWeight>>)),
  h_accept_language |-> List1(Cat(<<LanguageRange, OptWeight>>)),
  h_accept_patch |-> List1(MediaType),
  h_accept_post |-> List(MRange(Parameter)),
  h_accept_ranges |-> List1(Token),
  h_access_control_allow_credentials |-> CLit("true"),
  h_access_control_allow_headers |-> List(Token),
  h_access_control_allow_methods |-> List(Token),
  h_access_control_allow_origin |-> Alt(<<OriginOrNull, L("*")>>),
  h_access_control_expose_headers |-> List(Token),
  h_access_control_max_age |-> Digits,
  h_access_control_request_headers |-> List1(Token),
  h_access_control_request_method |-> Token,
  h_age |-> Digits,
  h_allow |-> List(Token),
  h_alt_svc |-> Alt(<<CLit("clear"), List1(AltValue)>>),
  h_alt_used |-> HostPort,
  h_authorization |-> Challenge,
  h_cache_control |-> List1(CacheDirective),
  h_connection |-> List1(Token),
  h_content_disposition |-> ContentDisposition,
  h_content_encoding |-> List1(Token),
  h_content_language |-> List1(LanguageTag),
  h_content_length |-> Digits,
  h_content_location |-> UriNoFrag,
  h_content_range |-> ContentRange,
  h_content_type |-> MediaType,
  h_cross_origin_resource_policy |-> CWords(<<"same-origin", "same-site">>),
  h_date |-> HttpDate,
  h_etag |-> EntityTag,
  h_expect |-> Lit("100-continue"),
  h_expires |-> HttpDate,
  h_forwarded |-> List1(FwdElement),
  h_host |-> HostPort,
  h_http2_settings |-> Token68,
  h_httpolice_silence |-> List(Cat(<<Digits, Opt(Cat(<<RWS, Lit("resp")>>))>>)),
  h_if_match |-> StarOr(List1(EntityTag)),
  h_if_modified_since |-> HttpDate,
  h_if_none_match |-> StarOr(List1(EntityTag)),
  h_if_range |-> Alt(<<EntityTag, HttpDate>>),
  h_if_unmodified_since |-> HttpDate,
  h_last_modified |-> HttpDate,
  h_link |-> List(LinkValue),
  h_location |-> URIReference,
  h_max_forwards |-> Digits,
  h_origin |-> OriginOrNull,
  h_pragma |-> List1(PragmaDirective),
  h_prefer |-> List1(Preference),
  h_preference_applied |-> List1(PrefParam),
  h_proxy_authenticate |-> List1(Challenge),
  h_proxy_authorization |-> Challenge,
  h_range |-> RangeHdr,
  h_referer |-> UriNoFrag,
  h_retry_after |-> Alt(<<HttpDate, Digits>>),
  h_server |-> Products,
  h_strict_transport_security |-> Sts,
  h_te |-> List(TCodings),
  h_trailer |-> List1(Token),
  h_transfer_encoding |-> List1(TransferCoding),
  h_upgrade |-> List1(Protocol),
  h_user_agent |-> Products,
  h_vary |-> List1(Token),
  h_via |-> List1(ViaElem),
  h_warning |-> List1(WarningValue),
  h_www_authenticate |-> List1(Challenge),
  h_x_content_type_options |-> Lit("nosniff"),
  \* not headers
  x_method |-> Token,
  x_name |-> Token,
  x_reason |-> Many(Cls({9, 32} \cup (33..126) \cup ObsText)),
  x_target |-> Alt(<<OriginForm, AbsoluteURI>>),
  x_target_connect |-> Authority,
  x_target_options |-> Alt(<<OriginForm, AbsoluteURI, L("*")>>)
]
HeaderT == TLCEval(Header)
Elements == DOMAIN Header

\* In the language of element n (a string over octets)?
InLanguage(n, s) == Matches(Env, HeaderT[n], s)

(* arguments of directives and parameters; "" when any value will do *)
FieldNames == TLCEval(List(Token))
FwdNode == TLCEval(Cat(<<Alt(<<IPv4, Cat(<<L("["), IPv6, L("]")>>), Lit("unknown"), Cat(<<L("_"), Many1(Alt(<<AlNum, Ch("._-")>>))>>)>>),
                 Opt(Cat(<<L(":"), Alt(<<Rep(1, 5, Digit), Cat(<<L("_"), Many1(Alt(<<AlNum, Ch("._-")>>))>>)>>)>>))>>))
RelType == TLCEval(Alt(<<Cat(<<Cls(97..122), Many(Alt(<<Cls(97..122), Digit, Ch(".-")>>))>>), Uri>>))
Rel == TLCEval(Cat(<<RelType, Many(Cat(<<Many1(SP), RelType>>))>>))
RestrictedName == TLCEval(Cat(<<AlNum, Rep(0, 126, Alt(<<AlNum, Ch("!#$&-^_.+")>>))>>))
LinkType == TLCEval(Cat(<<RestrictedName, Slash, RestrictedName>>))
AltAuthority == TLCEval(Cat(<<Opt(UriHost), L(":"), Port>>))
PrefReturn == Words(<<"representation", "minimal">>)
PrefHandling == Words(<<"strict", "lenient">>)

=============================================================================
