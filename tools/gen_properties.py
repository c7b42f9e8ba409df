#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, H, F, C, SCH = "inputs", "histories", "fault_sequences", "configurations", "schedules"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, note, technique, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, note=note, technique=technique, state=state))


MODEL = "online oracle: reference model of the specification evaluated beside the real code on generated and exhaustively enumerated short inputs"
GEN = "src/types/generic/"
TY = [GEN + f for f in ("absolute.rs", "normal.rs", "reference.rs", "relative.rs", "query.rs", "fragment.rs", "macros.rs")]

p("S01", "String types accept exactly the RFC 3986/3987 grammar",
  "For every string, each of the types for IRIs, IRI references, absolute IRIs, relative references, queries and fragments (URI and IRI flavours, borrowed and owned, from text or bytes) accepts it if and only if it matches the corresponding RFC 3986 or RFC 3987 production, and an accepted value shows exactly the input text. Every way to construct a value, and the free validation functions, give the same verdict.",
  [I], "all UTF-8 strings and byte strings, both specifications",
  "The tests sample about a hundred strings; validity is a claim about every string, including unusual code points at range edges, malformed triplets, IP literals and empty components.",
  ["src/validate.rs", "src/parser/validate.rs", "src/parser/validate/authority.rs", "src/parser/validate/path.rs", "src/parser/char.rs"] + TY,
  [("whole-string validators", "src/parser/validate.rs"), ("authority, host and IP literal validators", "src/parser/validate/authority.rs"), ("character classes per component", "src/parser/char.rs"), ("checked constructors", GEN + "macros.rs")],
  ["new()", "TryFrom<&str>", "TryFrom<&[u8]>", "TryFrom<String>", "FromStr", "validate::*"],
  "The grammar model is written from the RFC productions with different techniques than the crate's parsers; the smallest strings over hostile alphabets are enumerated, longer ones sampled.", MODEL)
p("S02", "Component validators agree with the component grammars",
  "For every string, each public validator for a single component (scheme, authority, userinfo, host, registered name, port, path, path segment, query, fragment) accepts it if and only if it matches that component's production in RFC 3986 or RFC 3987.",
  [I], "all strings, all component validators, both specifications",
  "The tests pass a handful of strings to each validator; the productions constrain every string (for instance every IPv6 form and every code point range edge).",
  ["src/validate.rs", "src/parser/validate/authority.rs", "src/parser/validate/path.rs", "src/parser/char.rs"],
  [("component validators", "src/validate.rs"), ("IPv6, IPvFuture and IPv4 recognition", "src/parser/validate/authority.rs")],
  ["validate::{scheme,authority,userinfo,host,reg_name,port,path,path_segment,query,fragment}"],
  "Independent grammar model; hosts and IPv6 forms get dedicated generators; single characters are enumerated over the code space edges.", MODEL)
p("S03", "Validity and text survive every history of operations",
  "Starting from any valid value and applying any sequence of in-place edits, conversions, normalizations, resolutions, password masking, URI encoding and rebuilding, the value after every step is valid for its type and equals what a plain-string model of the same operations yields. No sequence of safe calls panics.",
  [H, I], "all finite histories of safe operations on owned values of all types, both specifications",
  "Unit tests call one operation on a fresh value; interactions between successive edits of the same buffer are not covered.",
  [GEN + "absolute.rs", GEN + "normal.rs", GEN + "reference.rs", GEN + "relative.rs", GEN + "macros.rs", "src/types/iri.rs", "src/raw.rs", "src/components.rs"],
  [("in-place edits through unchecked access to the buffer", GEN + "normal.rs"), ("fragment handling on raw strings", "src/raw.rs"), ("re-validation in unchecked constructors (debug only)", GEN + "macros.rs")],
  ["text of the value after every step", "result of re-validation"],
  "Recorded histories of 3 to 12 steps replayed against a string model; each intermediate state re-validated by the crate and by the model.",
  "trace monitor: history of operations checked step by step against an executable string model")
p("S04", "Components partition the text and are read losslessly",
  "For every valid IRI, reference, absolute IRI or relative reference, the scheme, authority, path, query and fragment accessors return exactly the substrings that the RFC 3986 Appendix B decomposition gives, with absent and empty components distinguished. All types that accept the text report the same components, and joining them with their delimiters restores the text.",
  [I], "all valid references, all types that accept them",
  "Tests check a few dozen references; delimiters inside later components and empty components combine in many more ways.",
  ["src/components.rs", "src/parser/trusted.rs", "src/parser/str.rs"] + TY[:4],
  [("position-based splitter", "src/components.rs"), ("per-component fast extractors", "src/parser/trusted.rs")],
  ["scheme_str", "authority_str", "path_str", "query", "query_str", "fragment", "fragment_str", "to_iri", "to_relative_iri"],
  "Decomposition model from Appendix B; returned texts are also required to lie inside the source text at the right offset.", MODEL)
p("S05", "Authority parts are read losslessly and classified correctly",
  "For every valid authority, the reported userinfo, host and port are exactly the parts delimited by the last '@' and the final port colon, absent and empty parts are distinguished, and joining them restores the authority. A registered name is reported if and only if the host is neither an IP literal nor an IPv4 address.",
  [I], "all valid authorities, in every reference type that has one",
  "Tests cover a few authorities; colons in userinfo, IP literals, empty ports and IPv4 look-alikes interact.",
  ["src/components/authority.rs", "src/parser/trusted/authority.rs", "src/parser/trusted.rs"],
  [("authority decomposition", "src/parser/trusted/authority.rs"), ("accessors", "src/components/authority.rs")],
  ["authority_components()", "userinfo()", "host()", "port()", "reg_name()"],
  "Independent decomposition; IPv4/IPv6/IPvFuture recognised by the model.", MODEL)
p("E01", "Rejections are reported alike by every route and truthfully",
  "For every rejected text, all routes to the same type (slice constructor, conversions from text and bytes, owned constructors, FromStr, the free validation function, and conversions from a wider type, borrowed or owned) report the same error as each other, and a consuming route hands back the source unchanged in the same buffer. What an error's message says is true: a named component is ill-formed where it stands, a fragment called unexpected is there, a text called absolute or relative is that, and bytes called invalid UTF-8 are. The same holds for the components given to a builder that refuses to build.",
  [I], "all rejected texts and byte strings for the six text types, all component validators and all component sets refused by the builder, both specifications",
  "The tests look at whether an error is returned; hardly any looks at what it says or compares the routes.",
  ["src/validate.rs", "src/parser/validate.rs", "src/parser/validate/authority.rs", "src/parser/validate/path.rs", "src/types/generic/error.rs", "src/types/generic/macros.rs", "src/types/generic/reference.rs", "src/build.rs"],
  [("choice of the error kind", "src/parser/validate.rs"), ("errors of conversions", "src/types/generic/macros.rs"), ("errors that carry the source", "src/types/generic/error.rs"), ("errors of the builder", "src/build.rs")],
  ["new()", "TryFrom", "FromStr", "validate::*", "Builder::build", "Display of validate::Error and CreationError", "into_source", "validation_error"],
  "Which of several true things an error says is left open (the documentation reserves that), and a message the check does not know passes.", MODEL)
p("R01", "Reference resolution follows RFC 3986 section 5",
  "For every absolute base and every reference, resolution yields the target that RFC 3986 section 5.2 defines (strict form), with the path additionally protected so that the result parses back to the same components, and the result is a valid IRI. Resolution never panics.",
  [I], "all pairs of a valid base and a valid reference, both specifications",
  "The tests use the RFC examples and some dozens of extra pairs; dot segments, empty segments and missing authorities combine without bound.",
  ["src/resolve.rs", "src/normalize.rs", "src/normalize/path.rs"],
  [("component selection", "src/resolve.rs"), ("path merge and dot segment removal without buffers", "src/normalize/path.rs"), ("protection of leading slashes", "src/normalize.rs")],
  ["resolve_against", "FixedBaseResolver::resolve"],
  "The RFC algorithm is implemented literally on strings; percent-encoded dots count as dots (the WHATWG behaviour the crate documents); short pairs are enumerated.", MODEL)
p("R02", "All resolution routes give the same result",
  "Resolving a reference against a base through the method on the reference, through a fixed-base resolver, lazily displayed, into an owned value with or without fallible allocation, and resolving then normalizing in one step or in two, give the same text. A fixed-base resolver gives the same answers however many references it has resolved before.",
  [I, H], "all pairs of base and reference; sequences of resolutions on one resolver",
  "Each test exercises one route; agreement is a claim over all inputs.",
  ["src/resolve.rs", "src/normalize.rs", GEN + "reference.rs"],
  [("shared task type", "src/normalize.rs"), ("base components cached by the resolver", "src/resolve.rs")],
  ["resolve_against", "FixedBaseResolver", "and_normalize", "to_dedicated_string", "Display"],
  "Differential comparison of the routes with each other and with the model.",
  "differential monitor over API routes")
p("N01", "Normalization produces the RFC 3986 normal form",
  "For every IRI, normalization lowercases the scheme and an ASCII host, uppercases percent-encoding digits, decodes encoded unreserved characters, removes dot segments and an empty port, changes nothing else, and yields a valid IRI. If plain dot segment removal would make the path be parsed as an authority, the result is protected so that it still parses to the same components.",
  [I], "all valid IRIs and absolute IRIs, both specifications",
  "Tests list several dozen normal forms; the interaction of triplets, dots, slashes, non-ASCII hosts and missing authorities is unbounded.",
  ["src/normalize.rs", "src/normalize/path.rs", "src/normalize/pct_case.rs"],
  [("normalizing display", "src/normalize.rs"), ("path normalizer", "src/normalize/path.rs"), ("triplet case and decoding", "src/normalize/pct_case.rs")],
  ["normalize()"],
  "Normalization model composed of independent steps on strings; systematic triplet enumeration.", MODEL)
p("N02", "Normalization is idempotent and merges equivalent spellings",
  "Normalizing a normalized IRI changes nothing, the output is accepted as normalized by the crate's own test, and IRIs that differ only in triplet case, in needless encoding of unreserved characters, in the case of the scheme or of an ASCII host, or in dot segments that cancel out normalize to the same text.",
  [I], "all valid IRIs and all meaning-preserving respellings of them",
  "Idempotence and confluence quantify over all inputs; tests check fixed pairs.",
  ["src/normalize.rs", "src/normalize/path.rs", "src/normalize/pct_case.rs"],
  [("normalizing display", "src/normalize.rs")],
  ["normalize()", "is_normalized()"],
  "Metamorphic: respellings are generated from the IRI by meaning-preserving edits.", "metamorphic monitor (idempotence, respelling invariance)")
p("N03", "The is-normalized tests agree with normalization",
  "For every IRI, each of the three tests for being normalized (default, RFC 3986, authority-less relative path preserved) answers yes exactly when the corresponding normalization exists and returns the same text unchanged.",
  [I], "all valid IRIs and absolute IRIs, inputs concentrated near the boundary",
  "The two are implemented separately (a checker and a writer), so agreement cannot be sampled by a few examples.",
  ["src/normalize.rs", "src/normalize/path.rs", "src/normalize/pct_case.rs", GEN + "normal.rs", GEN + "absolute.rs"],
  [("separate checker for normalizedness", "src/normalize.rs"), ("checkers for path and triplets", "src/normalize/path.rs")],
  ["is_normalized", "is_normalized_rfc3986", "is_normalized_but_authorityless_relative_path_preserved"],
  "Compared with the model and with the crate's own normalization output; near-normalized inputs are produced by single edits of normal forms.", MODEL)
p("N04", "Preserving normalization keeps authority-less relative paths",
  "The preserving normalization differs from the default one only for IRIs without authority whose path is relative: their dot segments are kept as they are while triplets are still normalized. It is idempotent and yields a valid IRI with the same components.",
  [I], "all valid IRIs and absolute IRIs, directly and after resolution",
  "Few tests touch this mode; it is a claim about every IRI.",
  ["src/normalize.rs", "src/normalize/path.rs"],
  [("normalization mode", "src/normalize.rs")],
  ["normalize_but_preserve_authorityless_relative_path", "and_normalize_but_preserve_authorityless_relative_path"],
  "Same model with the mode switched.", MODEL)
p("N05", "The RFC 3986 normalizability test is exact",
  "The check that an IRI, a resolution or a built value is normalizable (or resolvable) by RFC 3986 alone fails exactly when there is no authority and the RFC algorithm would produce a path beginning with two slashes. Whenever it succeeds, the output equals the unprotected RFC result.",
  [I], "all IRIs and all pairs of base and reference",
  "Tests list a few positive and negative cases; exactness is a two-sided claim over all inputs.",
  ["src/normalize.rs", "src/normalize/path.rs", "src/resolve.rs"],
  [("normalizability check", "src/normalize.rs"), ("path characteristics", "src/normalize/path.rs")],
  ["ensure_rfc3986_normalizable"],
  "The model computes the unprotected RFC result and looks at its shape.", MODEL)
p("P01", "Percent-encoding is valid, minimal and reversible",
  "For every text and each encoding context (user, password, registered name, path segment, path, query, fragment, unreserved only, all characters), the percent-encoded output is valid in that context, encodes exactly the characters the context does not allow literally, and decodes back to the original text. Strings delivered in any pieces give the same output.",
  [I], "all texts, all contexts, both specifications, all ways to split the text into pieces",
  "Tests encode some sample strings; each context is a set over all code points.",
  ["src/percent_encode.rs", "src/parser/char.rs"],
  [("context-specific character tests", "src/percent_encode.rs")],
  ["PercentEncoded::{from_user,from_password,from_reg_name,from_path_segment,from_path,from_query,from_fragment,unreserve,characters}"],
  "Model sets from the RFCs; every code point range edge is visited; output re-validated by the crate's component validators.", MODEL)
p("P02", "Percent-decoding follows the WHATWG algorithm for all bytes",
  "For every byte string, decoding yields exactly the bytes of the WHATWG percent-decode algorithm (malformed triplets stay as they are), whether read as borrowed bytes, owned bytes, a string or a stream of fragments. The fragment stream covers the input without loss, says truthfully what is left, and a borrowed result is returned exactly when nothing had to be decoded.",
  [I], "all byte strings, all accessors, every point of the fragment stream",
  "Tests decode a few short inputs; stray and truncated triplets at every position and non-UTF-8 bytes are not covered.",
  ["src/percent_encode/decode.rs"],
  [("fragment iterator", "src/percent_encode/decode.rs")],
  ["decode_whatwg_bytes", "to_bytes", "into_bytes", "into_string", "bytes_fragments", "not_yet_decoded"],
  "Byte-level model of the WHATWG algorithm; all byte strings up to a small length over a hostile alphabet are enumerated.", MODEL)
p("M01", "Masked display never reveals a password and changes nothing else",
  "For every reference with a password (the part of the userinfo after its first colon), the masked display equals the text with exactly that password removed or replaced by the given replacement, so that nothing of the password remains in any rendering. A reference without a password is displayed unchanged.",
  [I], "all references of all types, all replacement values and formatters",
  "Tests mask a few URLs; the position of colons and '@' signs and non-ASCII text vary without bound, and a leak is a confidentiality failure.",
  ["src/mask_password.rs"],
  [("password range in the authority", "src/mask_password.rs"), ("masking and replacing display", "src/mask_password.rs")],
  ["mask_password()", "replace_password", "replace_password_with", "Display", "Debug", "to_dedicated_string"],
  "String model; passwords carry a unique marker that is searched for in every rendering (Display, Debug, owned).", MODEL)
p("M02", "In-place password removal removes the password and nothing else",
  "Removing the password in place leaves a valid value whose text is the original without the password and its colon; the variant for non-empty passwords leaves values with an empty or absent password untouched. All other components are unchanged.",
  [I, H], "all owned references of all types, repeated application",
  "Tests use a few URLs.",
  ["src/mask_password.rs", GEN + "normal.rs", GEN + "absolute.rs", GEN + "reference.rs", GEN + "relative.rs"],
  [("in-place removal", GEN + "normal.rs"), ("password range", "src/mask_password.rs")],
  ["remove_password_inline", "remove_nonempty_password_inline"],
  "String model of the removal, applied repeatedly.", MODEL)
p("M03", "Host replacement changes exactly the host",
  "Replacing the host in place (unconditionally, or only when the current host is a registered name) stores exactly the given host when it applies, returns the host now stored, leaves every other component unchanged, and never yields an invalid value; without an authority, or with a host the condition excludes, nothing changes. The fallible variants behave the same.",
  [I], "all owned references of all types and all new hosts",
  "Tests replace a few hosts; the replaced range depends on userinfo, port, IP literals and everything after the authority.",
  [GEN + "normal.rs", GEN + "absolute.rs", GEN + "reference.rs", GEN + "relative.rs", "src/components/authority.rs"],
  [("in-place replacement", "src/components/authority.rs"), ("per-type wrappers", GEN + "normal.rs")],
  ["replace_host", "replace_host_reg_name", "try_replace_host", "try_replace_host_reg_name"],
  "String model; longer, shorter, empty and invalid hosts.", MODEL)
p("M04", "Fragments are set, removed and split off without side effects",
  "Setting or removing the fragment changes only the fragment; splitting an IRI into its absolute part and fragment, by reference or by value, yields exactly the two texts around the first '#', and joining them restores the IRI.",
  [I, H], "all owned and borrowed references, repeated application with any fragments",
  "Tests use a few IRIs.",
  ["src/raw.rs", GEN + "normal.rs", GEN + "reference.rs", GEN + "relative.rs", "src/parser/trusted.rs"],
  [("fragment replacement on the buffer", "src/raw.rs"), ("split at the fragment", "src/parser/trusted.rs")],
  ["set_fragment", "to_absolute_and_fragment", "into_absolute_and_fragment", "to_absolute", "into_absolute"],
  "String model.", MODEL)
p("M05", "Diagnostic output of builders and masked values hides the password",
  "What Debug formatting shows for a userinfo builder, a builder, a built value or a password-masked value, in any formatting mode and at any point of its history, does not depend on a non-empty password: two values that differ only in the password are shown identically.",
  [H, I], "all setter histories, all ways to give a userinfo, all pairs of non-empty passwords, both specifications",
  "No test prints a builder; a leak into a log is a confidentiality failure that only comparing two executions shows.",
  ["src/build.rs", "src/mask_password.rs", "src/format.rs"],
  [("hand-written Debug of the userinfo builder", "src/build.rs"), ("Debug of masked values", "src/mask_password.rs"), ("placeholder for hidden text", "src/format.rs")],
  ["Debug of UserinfoBuilder, Builder, Built, PasswordMasked and PasswordReplaced"],
  "Two executions that differ in the password alone are compared in five formatting modes.", "non-interference monitor over pairs of executions")
p("C01", "IRI to URI conversion implements RFC 3987 section 3.1",
  "Converting any IRI-type value to a URI percent-encodes exactly its non-ASCII characters as UTF-8 with uppercase digits and keeps everything else, the result is a valid URI of the corresponding type, and all routes (display, owned, in place, fallible) agree. The no-op conversion succeeds exactly for values that are already URIs.",
  [I], "all IRIs, references, absolute IRIs, relative references, queries and fragments",
  "Tests convert a few IRIs.",
  ["src/convert.rs", "src/types/iri.rs", "src/types/uri.rs"],
  [("displaying conversion", "src/convert.rs"), ("in-place conversion", "src/convert.rs"), ("URI view of ASCII IRIs", "src/types/iri.rs")],
  ["MappedToUri", "encode_to_uri", "encode_to_uri_inline", "encode_into_uri", "try_encode_*", "as_uri", "try_into_uri"],
  "String model; all six types.", MODEL)
p("C02", "Type conversions preserve text and are exact",
  "Conversions between the string types succeed exactly when the text is valid for the target type, keep the text unchanged, and give the original value back on failure; widening conversions always succeed. Owned, boxed, reference-counted, copy-on-write and borrowed forms of a value all show the same text.",
  [I], "all valid values, all conversions and container forms",
  "Tests convert a few values each way.",
  TY + ["src/types/iri.rs"],
  [("conversion macros", GEN + "macros.rs"), ("reference classification", GEN + "reference.rs")],
  ["TryFrom", "From", "AsRef", "Box", "Rc", "Arc", "Cow", "into_iri", "into_relative_iri"],
  "Grammar model decides which conversions must succeed.", MODEL)
p("C03", "Comparison, ordering and hashing follow the text",
  "Equality, ordering and hashing of every string type (templates included), in all combinations of owned and borrowed forms, with each other and with plain strings, are those of the text; values can therefore be looked up in maps and sets by any borrowed form.",
  [I], "all pairs of valid values, all type combinations, both specifications",
  "Tests compare a few pairs; a single inconsistent implementation breaks maps silently.",
  [GEN + "macros.rs", "src/types/iri.rs", "src/types/uri.rs", "src/template/string.rs"],
  [("comparison macros", GEN + "macros.rs"), ("derived hashing over the transparent text", GEN + "macros.rs")],
  ["PartialEq", "PartialOrd", "Ord", "Hash", "Borrow", "HashMap and BTreeSet lookups"],
  "Compared with the behaviour of the plain strings.", "differential monitor against str semantics")
p("C04", "Serialization round-trips and deserialization validates",
  "Every string type serializes as its plain text, deserializes back to an equal value from borrowed, escaped and owned documents alike, and deserialization accepts a text if and only if it is valid for the type. Values that are not strings are rejected.",
  [I], "all strings, all string types including templates, borrowed and owned targets",
  "Tests round-trip a few values.",
  [GEN + "macros.rs", "src/template/string.rs", "src/template/string/owned.rs"],
  [("serde visitors", GEN + "macros.rs")],
  ["serde_json::from_str", "from_slice", "from_value", "to_string"],
  "Grammar model decides acceptance; documents with and without escapes.", MODEL)
p("B01", "The builder succeeds exactly for valid component sets and round-trips",
  "For every sequence of setter calls, building each of the four target types succeeds if and only if the components last set are valid for their positions and their concatenation parses back to the same components and is valid for the target type. On success the text is exactly that concatenation, however it is obtained.",
  [I, H], "all setter histories including unsetting, IP addresses, integer ports and split userinfo, all target types, both specifications",
  "Tests build a few dozen values; validity depends on combinations of components.",
  ["src/build.rs"],
  [("component validation and ambiguity checks", "src/build.rs"), ("rendering", "src/build.rs")],
  ["Builder setters", "build()", "Built: Display, to_dedicated_string"],
  "Component-set model with the grammar model; text compared through five routes.", MODEL)
p("B02", "The normalizing builder yields the normal form of what it was given",
  "With normalization enabled, building succeeds when the equivalent unnormalized components are acceptable and yields the normalization of the concatenated components, protected so that it parses to the same components. The built text is valid for the target type and normalizing it again changes nothing.",
  [I, H], "all setter histories with normalization, all target types, both specifications",
  "Tests check several dozen sets.",
  ["src/build.rs", "src/normalize.rs", "src/normalize/path.rs"],
  [("normalizing render path", "src/build.rs")],
  ["Builder::normalize", "build()", "ensure_rfc3986_normalizable"],
  "Builder model composed with the normalization model; one case without scheme and authority may either be rejected or be protected.", MODEL)
p("B03", "Building from an existing value reproduces it",
  "A builder initialised from any IRI, reference, absolute IRI or relative reference builds exactly the same text, and replacing or removing one component changes that component only.",
  [I], "all valid values of all types and all single-component replacements",
  "Tests rebuild a few values.",
  ["src/build.rs"],
  [("decomposition into the builder", "src/build.rs")],
  ["From<&RiStr> etc. for Builder", "AuthorityBuilder and UserinfoBuilder conversions", "build()"],
  "Decomposition model.", MODEL)
p("T01", "Templates and variable names are accepted exactly by RFC 6570",
  "For every string, parsing it as a URI template or as a variable name succeeds if and only if it matches the RFC 6570 grammar (with its verified errata), and never panics. An accepted template shows the input text, and lists its variables in order of appearance.",
  [I], "all strings",
  "Tests parse the RFC examples and some dozens of others.",
  ["src/template/parser/validate.rs", "src/template/parser/char.rs", "src/template/components.rs", "src/template/string.rs"],
  [("template validator", "src/template/parser/validate.rs"), ("literal and name characters", "src/template/parser/char.rs"), ("trusting expression walker", "src/template/components.rs")],
  ["UriTemplateStr::new", "VarName::new", "variables()"],
  "Independent parser of the grammar; short strings enumerated; accepted templates are expanded.", MODEL)
p("T02", "Template expansion follows RFC 6570 for every template and values",
  "For every template and every assignment of undefined, string, list and associative values, expansion yields exactly the text RFC 6570 section 3.2 prescribes for all operators, explode and prefix modifiers, and fails exactly when a prefix modifier is applied to a list or an associative value. For the URI flavour the output is ASCII; the IRI flavour keeps unreserved non-ASCII characters.",
  [I], "all templates and all value assignments, both specifications",
  "Tests run the RFC examples; operator, modifier, value shape and characters multiply far beyond them.",
  ["src/template/expand.rs", "src/template/value.rs", "src/template/simple_context.rs", "src/template/components.rs"],
  [("expansion visitors per value shape", "src/template/expand.rs"), ("operator table", "src/template/components.rs"), ("prefix truncation without splitting triplets", "src/template/expand.rs")],
  ["expand", "expand_dynamic", "expand_dynamic_to_string", "to_string"],
  "Model of section 3.2.1; one ambiguous form (an unexploded list whose joined value is empty under ';') is accepted in either spelling.", MODEL)
p("T03", "Expansion does not depend on how values are delivered or consumed",
  "A template expands to the same text whether a value is handed over as one string, in arbitrary pieces through a formatter, item by item or as a whole collection, through the static or the dynamic context interface, and whether the output goes to a string, a writer or is rendered repeatedly.",
  [I, H], "all templates, values, partitions of each value into pieces, and delivery styles",
  "Every test hands over whole strings; carry-over of incomplete percent-triplets and of the prefix count between pieces is untested.",
  ["src/template/expand.rs", "src/template/context.rs", "src/parser/str/maybe_pct_encoded.rs"],
  [("streaming triplet recogniser", "src/parser/str/maybe_pct_encoded.rs"), ("streaming prefix limiter", "src/template/expand.rs")],
  ["expand with a Context whose values write in pieces", "expand_dynamic", "Display"],
  "Differential: whole-string delivery against five piecewise styles with random cuts.", "differential monitor over delivery schedules")
p("T04", "The expansion context protocol is followed",
  "During an expansion the user's context is asked for the value to output of each variable of the template in order of appearance, once per appearance, under its right name and with the purpose stated; the dynamic interface brackets the visits with exactly one start and one end notification, also when expansion fails or the writer fails. After an error no further values are requested for output.",
  [H, F], "all templates, contexts with side effects, failing writers at any point",
  "Only two tests look at the callbacks.",
  ["src/template/expand.rs", "src/template/context.rs", "src/template/string.rs"],
  [("callback sequence", "src/template/expand.rs"), ("protocol description", "src/template/context.rs")],
  ["recorded trace of visit, visit_dynamic, on_expansion_start, on_expansion_end"],
  "Recorded callback traces checked offline against the trace specification.", "trace checker over recorded callback logs")
p("T05", "Ready-made contexts deliver exactly the values they hold",
  "After any history of insertions, removals, clearing and cloning, the ready-made context holds what a map keyed by variable name would hold (invalid names are ignored and earlier values returned), clones are independent, and expansion uses the values held at that moment. Values of standard types handed over with their default meaning (numbers, strings, options, arrays, sets, maps, references to them) expand like the equivalent string, list, associative or undefined value.",
  [H, I], "all histories of the context, all values of the supported standard types, all operators",
  "Tests insert a few values into a fresh context and visit a few standard types.",
  ["src/template/simple_context.rs", "src/template/value.rs", "src/template/context.rs"],
  [("map of values by name", "src/template/simple_context.rs"), ("default meaning of standard types", "src/template/value.rs"), ("whole-collection visits", "src/template/context.rs")],
  ["SimpleContext::insert, get, clear, clone", "visit_value_naive", "expand", "expand_dynamic_to_string"],
  "Histories replayed against a map after every step; standard types compared with explicit values through the expansion model.", "trace monitor: history of operations checked step by step against a map")
p("T06", "Template errors point at the offending place",
  "Every rejected template, through every constructor, gives an error whose byte position lies in the first ill-formed construct (the forbidden character itself, the broken triplet, the unclosed expression, the unsupported operator, or the offending variable specification; for bytes that are not UTF-8 the end of the valid part), and every failing expansion, static or dynamic, names the variable specification with a value of the wrong type or the piece of the template at which the writer failed.",
  [I], "all ill-formed templates, all templates with contexts in which a prefix modifier meets a list or an association, all writers that fail",
  "The unit tests check three positions of expansion errors and no position of a rejected template.",
  ["src/template/parser/validate.rs", "src/template/error.rs", "src/template/expand.rs", "src/template/string.rs", "src/template/string/owned.rs"],
  [("offsets of nested constructs", "src/template/parser/validate.rs"), ("running position of expansions", "src/template/expand.rs")],
  ["Display of template::Error and CreationError", "validation_error"],
  "An independent scanner gives the first ill-formed construct; its verdicts are compared with the grammar model in every case.", MODEL)
p("F01", "Rendering and editing fail cleanly under bounded resources",
  "Writing any lazily rendered value into a buffer succeeds exactly when it fits and never touches bytes beyond the text; a failing writer gets a prefix of the text and the error is reported; when an allocation is refused at any point, the fallible operations report an error instead of aborting and leave existing values valid. Appending to a string keeps what was there.",
  [F, I], "all lazily rendered values, buffer sizes, writer failure points and refused-allocation points",
  "Tests use buffers that are large enough or fail at one point; refused allocations are never produced.",
  ["src/format.rs", "src/normalize.rs", "src/mask_password.rs", "src/convert.rs", "src/build.rs", "src/components/authority.rs"],
  [("bounded slice writer", "src/format.rs"), ("fallible string growth", "src/format.rs"), ("reserve before in-place edits", "src/convert.rs")],
  ["write_to_slice", "try_append_to_string", "try_to_string", "try_to_dedicated_string", "try_* in-place edits"],
  "A global allocator refuses the n-th allocation for small n; sinks fail at chosen byte counts.", "fault injection (allocator, sinks, buffers) with output monitors")
p("A01", "Operations on borrowed texts never touch the heap",
  "Parsing into borrowed types, component access, comparison and hashing, normalization, resolution, percent-encoding and decoding by fragments, masking, mapping to URIs, building and template expansion, when written to a writer, make no heap allocation in any build, for accepted and for rejected input alike.",
  [F, C], "all operations available without the alloc feature, in a build that has it",
  "A test observes results; an allocation on some rare input is invisible in the result.",
  ["src/normalize.rs", "src/normalize/path.rs", "src/build.rs", "src/template/expand.rs", "src/mask_password.rs", "src/convert.rs"],
  [("streaming normalization", "src/normalize.rs"), ("no_std support without alloc", "src/lib.rs")],
  ["Display into a writer without memory", "new", "is_normalized*", "build", "expand"],
  "A counting global allocator around every operation; the counter is itself tested in every case.", "instrumented allocator counting allocations per operation")
p("W01", "Time and stack grow in proportion to the input",
  "Parsing and validating any text, reading components, comparing, hashing, masking passwords, editing in place, mapping to URIs, percent-encoding and decoding, building, parsing and expanding templates, and normalizing and resolving paths without dot segments take time proportional to the length of the inputs and outputs; normalization and resolution of paths with dot segments take at most quadratic time; and no operation needs stack that grows with the length of a text.",
  [I], "all inputs of any length, accepted or not",
  "Tests use short texts, on which quadratic scanning and recursion over the text are as fast and as correct as the right code.",
  ["src/parser/validate.rs", "src/parser/str.rs", "src/parser/trusted.rs", "src/normalize/path.rs", "src/normalize/pct_case.rs", "src/percent_encode.rs", "src/percent_encode/decode.rs", "src/template/expand.rs", "src/template/parser/validate.rs"],
  [("single-pass scanners", "src/parser/str.rs"), ("segment queue without recursion", "src/normalize/path.rs"), ("streaming expansion", "src/template/expand.rs")],
  ["processor time of the thread at two lengths", "a stack of 192 KiB for texts of 32 KiB and more"],
  "Random repeated units at every position, each operation timed at 2 KiB and 32 KiB; the limit is 4.4 times linear (1.9 is the most observed), and an excess must be confirmed at twice the size.", "runtime monitor of processor time and stack under scaled hostile inputs")
p("D01", "Results depend only on the arguments of a call",
  "Every call gives the same result for the same arguments, whatever was called before in the process, whatever other threads call at the same time, wherever the texts lie in memory, whatever the environment of the process is, and whatever the caller's own code that the library calls back (Display implementations, writers, replacement closures, template contexts) does with the library in the middle of the call, or when it abandons the call by an error or a panic. All string, template, builder, resolver and rendering values are Send and Sync (if what they borrow is), and using them from several threads is free of data races.",
  [H, SCH, F], "all histories of calls, interleavings of threads, and re-entrant, failing or panicking callbacks, for all inputs",
  "Tests make each call once or a few times in one order, and never from inside a callback, after a panic or on the same value from several threads; a cache, scratch buffer or counter shared by calls gives the right answers there.",
  ["src/lib.rs", "src/validate.rs", "src/normalize.rs", "src/normalize/pct_case.rs", "src/resolve.rs", "src/mask_password.rs", "src/convert.rs", "src/percent_encode.rs", "src/build.rs", "src/template/expand.rs", "src/template/string.rs", "src/format.rs"],
  [("no mutable process state", "src/lib.rs"), ("lazily rendered values without interior mutability", "src/normalize.rs"), ("markers that keep values Send and Sync", "src/percent_encode.rs"), ("callbacks into contexts and writers", "src/template/expand.rs")],
  ["observation logs of the same calls in different circumstances", "ThreadSanitizer", "two fresh processes", "Send and Sync of every public type"],
  "Observation logs compared across histories, addresses, threads, processes and callbacks; ThreadSanitizer on the same workload. Schedules are those that occurred.", "runtime monitoring of repeated, concurrent and re-entrant executions, and ThreadSanitizer")
p("Z01", "No memory error or undefined behaviour is reachable through safe calls",
  "No sequence of safe calls reads or writes outside live memory, breaks UTF-8, returns text outside its source, frees memory twice or with another layout, or leaks it.",
  [I, H], "all safe API calls that reach unchecked code, on any input",
  "Tests run without instrumentation; unsafe casts and in-place edits can be wrong while every assertion passes.",
  [GEN + "macros.rs", "src/template/string.rs", "src/template/string/owned.rs", "src/convert.rs", "src/raw.rs", GEN + "normal.rs", "src/types/iri.rs"],
  [("transparent casts and raw pointer round trips", GEN + "macros.rs"), ("unchecked UTF-8", "src/convert.rs"), ("edits through the unchecked buffer", GEN + "normal.rs")],
  ["allocator monitor", "AddressSanitizer", "Miri"],
  "One workload under a checking allocator, AddressSanitizer and Miri; covers the executions made, not all.", "sanitizers: Miri, AddressSanitizer and a checking global allocator")
p("Z02", "Every feature set and build profile behaves identically",
  "For the same calls, the library gives the same observable results whether built with the standard library, with allocation only, or with neither, with or without accelerated byte search, and with or without debug assertions and optimization.",
  [C, I], "the feature sets std, alloc, none, each with and without memchr, in debug and release profiles; all inputs",
  "The test suite is run in one configuration; alternative code paths for byte search and for no-allocation builds are only reached elsewhere.",
  ["src/parser/str.rs", "src/percent_encode/decode.rs", "src/format.rs", "src/build.rs", "Cargo.toml"],
  [("byte search with and without memchr", "src/parser/str.rs"), ("conditional compilation", "src/lib.rs")],
  ["observation logs of nine builds", "model monitors in the optimized memchr build"],
  "Observation logs of one input stream compared across nine builds; the model monitors also run in the optimized memchr build.", "differential monitor across build configurations")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["id"]
            a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]], "observe_at": q["observe"], "hook_needed": None}
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"], "anchors": a}, ensure_ascii=False) + "\n")
    checks = [{"property": q["id"], "quick_cmd": f"bin/check {q['id']} quick", "thorough_cmd": f"bin/check {q['id']} thorough",
               "evidence_file": f"evidence/{q['id']}.json", "technique": q["technique"], "level": "exploration",
               "level_note": q["note"] + " Held on the executions made; nothing is said about inputs that were not generated."} for q in P]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
                   "notes": "No hooks in /repo are needed: everything is observed through the public API. Replay a violation with `bin/check replay FILE`."},
                  f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
