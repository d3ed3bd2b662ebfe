#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that titles, anchors and
statements are edited in one reviewable place)."""
import json, os
U='lib/uri/uri.cpp'; H='include/uri/uri.hpp'; R='include/uri/rule.hpp'; RC='lib/uri/rule.cpp'
PT='include/uri/parts.hpp'; PTC='lib/uri/parts.cpp'; PE='include/uri/pctencode.hpp'; PEC='lib/uri/pctencode.cpp'
PD='include/uri/pctdecode.hpp'; PY='include/uri/punycode.hpp'; PYC='lib/uri/punycode.cpp'
IC='include/uri/icubaby.hpp'; FL='include/uri/find_last.hpp'; SW='include/uri/starts_with.hpp'
P=[]
def p(id,title,stmt,qt,why,files,mech,over=('inputs',)):
    P.append({"id":id,"title":title,"statement":stmt,
      "quantifier":{"over":list(over),"text":qt},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}})

p("P01","An absolute URI is accepted exactly when RFC 3986 says it is one",
  "Splitting a string as a URI succeeds if and only if the whole string is derivable from the `URI` rule of RFC 3986 appendix A (scheme, authority, userinfo, host, port, path, query and fragment grammars, percent-encoding included). Nothing outside the grammar is accepted and nothing inside it is refused.",
  "every byte string (all 256 values per byte, no encoding assumption)",
  "the unit tests sample some hundred strings; acceptance is a statement about all byte strings, and a wrong character class, a swallowed delimiter or a wrong order of alternatives shows only on specific ones",
  [U,R,RC,H],[("split",U+":split"),("URI rule and its sub-rules",U+":URI"),("combinators",R+":concat/alternative/star/optional")])
p("P02","A URI reference is accepted exactly when RFC 3986 says it is one",
  "Splitting a string as a URI reference succeeds if and only if the whole string is derivable from the `URI-reference` rule of RFC 3986 (an absolute URI or a relative reference). Whenever the string is also an absolute URI, both ways of splitting give the same result.",
  "every byte string",
  "tests list a few relative references; the colon-in-first-segment and '//' rules interact with every other character class",
  [U,R,RC],[("split_reference",U+":split_reference"),("relative-ref",U+":relative_ref"),("path-noscheme",U+":path_noscheme")])
p("P03","Splitting yields exactly the components RFC 3986 designates",
  "When a string is split, scheme, userinfo, host, port, each path segment, query and fragment are exactly the substrings the RFC grammar designates (present-but-empty is distinguished from absent, and the path is marked absolute exactly when it starts with '/'), each non-empty piece referring to its bytes inside the caller's string. A rejected or partially matched alternative leaves no trace in the result.",
  "every accepted byte string, and every way alternatives can fail midway",
  "tests compare components of fixed strings; leftover side effects of abandoned alternatives and off-by-one boundaries depend on the combination of components present",
  [U,R,RC],[("acceptor execution",RC+":done"),("component recorders",U+":host_rule/userinfo_at/colon_port/append_dir/append_segment"),("join of acceptors",R+":join_rule")])
p("P04","Composing what was split gives the original string back",
  "For every string that splits successfully (as a URI or as a reference), composing the resulting components produces the identical string, byte for byte.",
  "every accepted byte string",
  "a lost empty port, empty query, empty segment or leading slash is visible only for particular component combinations, which the tests sample",
  [U],[("compose",U+":compose"),("authority output",U+":operator<<(authority)"),("path output",U+":path::operator std::string")])
p("P05","Splitting what was composed gives the same components back",
  "If components are valid individually and the path has a form RFC 3986 section 3.3 allows next to the authority, then composing them gives a string which is accepted and splits into equal components.",
  "every combination of present/absent/empty components with arbitrary valid contents within the bound",
  "the tests build a handful of component structures by hand; ambiguity arises only from particular combinations of empty and present parts",
  [U,H],[("compose",U+":compose"),("split",U+":split"),("equality",U+":parts::operator==")])
p("P06","Validity of components is exactly their RFC 3986 grammar",
  "A component structure is reported valid if and only if it has a scheme and every present component (scheme, userinfo, host, port, path segments, query, fragment) matches its own RFC 3986 production over its entire length. Every structure produced by splitting an absolute URI is valid.",
  "arbitrary bytes in every component",
  "validity of each component is a language-membership question over all byte strings, tests sample single strings per component",
  [U],[("valid",U+":parts::valid/authority::valid/path::valid"),("component rules",U+":scheme/userinfo/host/port/segment/query")])
p("P07","Reference resolution follows RFC 3986 section 5.2",
  "Resolving a reference against a base URI gives the same target as the RFC 3986 section 5.2.2 algorithm (5.2.3 merge and 5.2.4 dot-segment removal included), in strict mode and in the non-strict mode that ignores a reference scheme equal to the base's (a path that does not begin with '/' and contains dot segments, whose removal RFC 3986 does not usefully define, is outside the claim). Resolution from strings yields nothing exactly when the base is not a URI or the reference is not a URI reference.",
  "every pair of base URI and reference, both modes",
  "the tests run the RFC's example list against one base; a different base path shape, empty segments or the non-strict mode are combinations the list does not contain",
  [U],[("join",U+":join"),("merge",U+":merge"),("remove_dot_segments",U+":path::remove_dot_segments")])
p("P08","Dot-segment removal is RFC 3986 section 5.2.4 and idempotent",
  "For an absolute path, removing dot segments gives exactly the path RFC 3986 section 5.2.4 computes; the result contains no '.' or '..' segment and never climbs above the root. For every path, absolute or relative, applying it twice is the same as applying it once.",
  "every sequence of path segments within the bound",
  "tests list about thirty paths; mixes of empty, '.', '..' and ordinary segments are exponentially many",
  [U],[("remove_dot_segments",U+":path::remove_dot_segments")],("inputs","histories"))
p("P09","Percent-decoding undoes percent-encoding for every encode set",
  "For every byte string and every percent-encode set, decoding the encoded form returns the original bytes; whenever no byte needs encoding, encoding is the identity.",
  "every byte string (including bytes 0x80-0xFF, NUL and '%') and each of the encode sets; the empty set is covered for strings without '%'",
  "tests encode a few ASCII strings; sign extension, high nibbles and '%' followed by hex digits are value-specific",
  [PE,PEC,PD],[("pctencode",PE+":pctencode"),("needs_pctencode",PEC+":needs_pctencode"),("pctdecode",PD+":pctdecode")])
p("P10","Percent-encoding encodes exactly the bytes of its set, in canonical form",
  "Percent-encoding replaces exactly the bytes which belong to the chosen encode set by '%' and two upper-case hexadecimal digits of that byte, and copies every other byte unchanged in order. Membership is the documented table: controls, space, bytes above '~', and the per-set ASCII lists; the query for whether a string needs encoding agrees with that.",
  "all 256 byte values in all encode sets, and every string built from them",
  "existing tests check the ASCII table per set but not its use on strings with high-bit bytes, and never byte 0xFF",
  [PE,PEC],[("needs_pctencode",PEC+":needs_pctencode"),("pctencode",PE+":pctencode"),("dec2hex",PE+":dec2hex")])
p("P11","All percent-decoders implement one total decoding function",
  "Percent-decoding replaces each '%' followed by two hexadecimal digits (either case) by that byte, scanning left to right without re-examining output, and leaves every other byte (incomplete or malformed escapes included) unchanged. The string function, the iterator, the decoder object, the range view and the size computation all produce exactly this, never reading outside the input.",
  "every byte string, through every decoding interface",
  "malformed escapes at the end of the input, nested '%25', mixed-case digits and bytes >= 0x80 are combinations tests only sample",
  [PD,PTC],[("increment/deref",PD+":details::increment/details::deref"),("hex2dec",PD+":hex2dec"),("view",PD+":pctdecode_view"),("decoded size",PTC+":pct_decoded_size")])
p("P12","Punycode encoding is RFC 3492 and decoding inverts it",
  "For every sequence of Unicode code points, the Punycode encoder produces exactly the RFC 3492 encoding, and decoding that output returns the original sequence. When plain output is allowed, an all-ASCII sequence is passed through unchanged and reported as needing no encoding.",
  "every sequence of Unicode scalar values within the length bound",
  "tests use the RFC's sample strings; bias adaptation thresholds, variable-length digit boundaries and insertion positions depend on values and order of code points",
  [PY,PYC],[("encode",PY+":encode"),("encode_vli",PY+":encode_vli"),("adapt",PY+":adapt"),("decode_loop",PY+":decode_loop")])
p("P13","Punycode decoding accepts exactly valid input and fails cleanly otherwise",
  "For every byte string the Punycode decoder returns either the code-point sequence the RFC 3492 decoding procedure defines, or an error exactly when that procedure fails (non-ASCII byte before the delimiter, non-digit, truncated integer, overflow), never anything else. It never reads outside its input.",
  "every byte string",
  "tests feed well-formed samples and a few malformed ones; truncation and overflow depend on digit sequences",
  [PY,FL],[("decode_vli",PY+":decode_vli"),("decode_digit",PY+":decode_digit"),("copy_plain_ascii_part",PY+":copy_plain_ascii_part"),("find_last",FL+":find_last_bidi")])
p("P14","Components are encoded as their kind demands and decoding gives them back",
  "Encoding arbitrary component contents (with a scheme and port in their grammar and a host that is valid UTF-8 whose labels do not begin with 'xn--') gives in every component exactly the encoding its kind prescribes: percent-encoding with the component's own encode set for userinfo, path segments, query and fragment (so that only printable ASCII without spaces, quotes and angle brackets remains), 'xn--' and Punycode for each non-ASCII host label, nothing for the rest. Decoding the encoded components returns the original contents. This holds for any number of path segments.",
  "arbitrary component contents and any number of path segments within the bound",
  "tests encode a few fixed structures with few segments; which parts need encoding, and how many segments there are, interact through shared bookkeeping",
  [PT,PTC,PE,PD,PY],[("encode",PT+":encode"),("decode",PT+":decode"),("parts_strings",PT+":details::parts_strings"),("puny_encoded",PT+":details::puny_encoded")])
p("P15","Encoded and decoded components stay backed by live storage",
  "After encoding or decoding components, every component of the result refers either to the unchanged original text or to bytes inside the caller-supplied store, in non-overlapping pieces whose total size equals the store size; the store is never reallocated while being filled. Decoding reports an error for a malformed internationalised host label otherwise gives each component's decoding (a host that would decode to nothing is left as it is) and leaves components without escapes referring to the original.",
  "arbitrary component contents and any number of path segments within the bound",
  "a dangling view needs the size pre-computation to disagree with what is written, for particular contents; tests only compare text",
  [PT,PTC],[("required size",PT+":encode/decode first pass"),("store.reserve",PT+":encode/decode"),("sizes",PTC+":pct_encoded_size/pct_decoded_size"),("puny sizes",PT+":details::puny_encoded_size/puny_decoded_size")])
p("P16","Well-formed text transcodes exactly between UTF-8, UTF-16 and UTF-32",
  "Transcoding any sequence of Unicode scalar values from any of UTF-8, UTF-16, UTF-32 to any other produces exactly that sequence's encoding in the target form, reports it as well formed, and transcoding back returns the original units.",
  "every Unicode scalar value and every sequence within the length bound, for all nine form pairs",
  "tests use fixed sample texts; shift/mask arithmetic errors affect only some of the 1.1 million code points",
  [IC],[("UTF-8 decode/encode",IC+":transcoder<char8_t,char32_t>/transcoder<char32_t,char8_t>"),("UTF-16",IC+":transcoder<char16_t,char32_t>/transcoder<char32_t,char16_t>")])
p("P17","Ill-formed text is always flagged and replaced, never passed through",
  "For every sequence of code units, the transcoder reports well-formedness if and only if the sequence is a complete well-formed encoding (Unicode table 3-7 for UTF-8, paired surrogates for UTF-16, scalar values for UTF-32); its output is always itself well formed, and U+FFFD appears for ill-formed input (in UTF-16 and UTF-32 each code unit that belongs to no well-formed sequence is replaced by exactly one U+FFFD and the rest is unchanged; in UTF-8 the text before the first ill-formed sequence is unchanged and decoding starts afresh after an ASCII character). Input that stops inside a code point is reported by partial(). Overlong forms, surrogates, values above U+10FFFF, and sequences cut short by the end of input are all detected.",
  "every sequence of code units within the length bound, for all source and target forms",
  "the ill-formed space is far larger than the test samples, and error recovery depends on the state left by preceding units",
  [IC],[("UTF-8 state machine",IC+":transcoder<char8_t,char32_t>::operator()"),("end of input",IC+":end_cp"),("surrogate handling",IC+":transcoder<char16_t,char32_t>")])
p("P18","Byte-stream transcoding honours the byte-order mark and byte order",
  "Decoding a raw byte stream selects UTF-8, UTF-16 or UTF-32 and its byte order from a leading byte-order mark (UTF-8 without one), consumes the mark, and then produces exactly what decoding the corresponding code units would. Ill-formed or truncated streams are reported: a stream that stops inside a code unit is reported as partial, as not well formed, and yields U+FFFD for the rest.",
  "every byte sequence within the length bound",
  "detection shares prefixes between marks (FF FE against FF FE 00 00) and each 32-bit unit has four bytes to misplace; tests use small values in a few streams",
  [IC],[("byte transcoder",IC+":transcoder<std::byte,...>"),("BOM states",IC+":transcoder<std::byte,...>::states")])
p("P19","The transcoding view and iterator agree with the transcoder",
  "Iterating a lazily transcoding range view, or writing through the transcoding output iterator, yields exactly the units that feeding the same input to the transcoder one unit at a time and finishing yields, and the view's well-formedness report after full iteration equals the transcoder's.",
  "every sequence of code units within the bound",
  "the view buffers partial output and must flush it at end of input, which happens only for particular endings",
  [IC],[("transcode_view",IC+":transcode_view::iterator"),("iterator",IC+":iterator"),("well_formed",IC+":transcode_view::well_formed")])
p("P20","Code-point counting, indexing and find-last/starts-with match their definitions",
  "Counting code points and locating the n-th code point of well-formed text give the same answers as decoding it. Searching for the last occurrence of a value and testing for a prefix give the mathematically defined answer for every sequence, empty ones included.",
  "every sequence within the bound and every index/value",
  "index at or past the end, absent values and empty ranges at arbitrary positions are only sampled",
  [IC,FL,SW],[("length/index",IC+":length/index"),("find_last",FL+":find_last_forward/find_last_bidi"),("starts_with",SW+":starts_with_fn")])
p("P21","Grammar combinators implement ABNF matching with transactional acceptors",
  "Concatenation, ordered alternative, optional and bounded greedy repetition consume exactly what their definitions say, failure is propagated, and accept callbacks run only when the complete input matched, once each, in match order, with exactly the matched text.",
  "every input string and every repetition bound within the bound, for small grammars built from each combinator",
  "tests try each combinator on one or two strings; interplay of failure, optional parts and repetition limits is not enumerated",
  [R,RC],[("star",R+":star"),("alternative",R+":alternative"),("optional/concat",R+":concat_impl"),("done",RC+":done")])
p("P22","Component equality is an equivalence relation consistent with composition",
  "Equality of component structures is reflexive, symmetric and transitive, inequality is its negation, and structures that compare equal compose to the same string. Structures which differ in the presence or text of any component compare unequal.",
  "all pairs and triples of component structures within the bound",
  "tests compare a few pairs; present-but-empty against absent, and the implicit absolute path next to an authority, are special cases",
  [U,H],[("parts equality",U+":parts::operator=="),("authority/path equality",U+":authority::operator==/path::operator==")])
p("P23","IP-literal and IPv4 host forms are recognised exactly",
  "A bracketed host is accepted if and only if it is an RFC 3986 IPv6address (any legal placement of '::', at most eight groups, optional dotted-quad tail with octets 0-255) or an IPvFuture literal.",
  "every byte string between brackets within the bound",
  "nine overlapping alternatives with counted repetition; tests list some dozen addresses",
  [U],[("IPv6address",U+":ipv6address"),("ls32/h16",U+":ls32/h16"),("dec-octet",U+":dec_octet"),("IPvFuture",U+":ipvfuture")])
p("P24","No public operation crashes or touches memory it does not own",
  "For every input, splitting, validating, composing, joining, encoding, decoding and transcoding terminate without crashing, throwing, failing an internal assertion, or reading or writing outside the supplied buffers and their own live allocations.",
  "every byte string (pair) within the bound, through each public operation",
  "out-of-bounds reads at the end of a view and assertion failures need specific trailing bytes; tests run without memory checking",
  [U,R,RC,PT,PTC,PE,PD,PY,IC],[("string_view slicing",R+":join_rule/star"),("table index",PEC+":needs_pctencode"),("iterators",PD+":increment/deref"),("store filling",PT+":encode/decode")])
p("P25","Case is ignored only where RFC 3986 says so",
  "Changing the case of hexadecimal digits in escapes or IPv6 groups, of the IPvFuture 'v', or of letters anywhere in a string never changes whether it is accepted or where its components begin and end; and the components keep the case the caller wrote.",
  "every byte string within the bound and every choice of letters whose case is changed",
  "a relation between pairs of inputs; tests contain mostly lower-case strings",
  [U,R],[("single_char",R+":single_char"),("code_point_range",U+":code_point_range"),("hexdig/alpha",R+":hexdig/alpha")])
p("P26","Converting a path to a filesystem path keeps its segments",
  "Converting a path to a filesystem path yields one that is absolute exactly when the path is, whose file names are the path's non-empty segments, each intact and in order, and which (unless it is empty or only the root) ends in a separator exactly when the last segment is empty; the source path is unchanged.",
  "every sequence of path segments",
  "tests convert one or two paths",
  [U],[("filesystem conversion",U+":path::operator std::filesystem::path")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),'properties')
