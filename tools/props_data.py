A="crates/abe/src/"
p("A01","Byte strings survive their text form exactly",
 "Any byte string written as ascii-byte text is printable ASCII, contains no bare delimiter, bracket, newline or backslash, and reads back to exactly the same bytes; the compact escapes are used where they exist (NUL, 0xff, newline, tab, return, colon, slash, brackets, backslash) and two-digit lower-case hex elsewhere. Reading accepts exactly that grammar (hex digits in either case) and rejects every other byte or escape, and reading with a size limit or into a fixed buffer succeeds exactly when the decoded length fits.",
 ["inputs"],"all byte strings, all texts (valid, mutated, arbitrary bytes), all size limits",
 "One unit test encodes one UTF-8 string; nothing reads text back, no test covers the other 250 byte values, malformed escapes or limits.",
 [A+"abtxt.rs"],[("as_abtxt / ESCAPE_LOOKUP",A+"abtxt.rs"),("next_byte, parse_abtxt_into, parse_abtxt_upto_max",A+"abtxt.rs")])
p("A02","Expression text and expression tree are two forms of one thing",
 "Parsing accepts exactly the bracket/delimiter/escape grammar and yields the corresponding tree; every tree prints to text that parses back to an equal tree (adjacent byte runs merged, empty runs dropped). The lenient parser differs only in taking bytes that are not valid text (control and non-ASCII bytes, unknown escapes) literally.",
 ["inputs"],"all byte strings as text; all trees up to the generated depth and width",
 "Tests build a handful of trees with a macro and never parse or print arbitrary nesting.",
 [A+"ast.rs",A+"abtxt.rs"],[("parse_abe_strict_b / parse_abe_with_unencoded_b",A+"ast.rs"),("Display for ABE / print_abe",A+"ast.rs")])
p("A03","Splitting text into top-level components loses nothing",
 "Splitting expression text at its top-level delimiters returns, in order, each component's exact source text, the delimiter before it and whether it contains brackets, so that joining delimiter and text restores the input (a final empty component after the last delimiter is not reported). Delimiters inside brackets or escaped never split, delimiters configured as plain never split, delimiters configured as errors and unbalanced brackets or invalid bytes are errors.",
 ["inputs","configurations"],"all texts; all choices of plain and error delimiter sets",
 "One unit test splits one string and another only checks that a bracketed string does not fail.",
 [A+"ast.rs"],[("tokenize_abe / tokenize_abe_b",A+"ast.rs")])
p("A04","Expressions evaluate by the documented pipeline rules",
 "Evaluating an expression keeps top-level delimiters and joins adjacent bytes; a bracket evaluates inner brackets first, then runs its '/'-separated calls left to right, each call receiving the previous result as first argument (the first call has none, a leading ':' supplies literal bytes) followed by its ':'-separated arguments. '[/name...]' runs a macro on the unevaluated rest, '[/:...]' yields the rest as literal bytes, and a bracketed or juxtaposed function name, more than 16 components in a call, an unknown name or a failing function make the whole evaluation an error naming that cause.",
 ["inputs","programs"],"all expression trees over the built-in functions and probe functions, with every nesting of calls, literals and macros",
 "No unit test evaluates anything beyond integer literals; pipelines, literals, macros and errors are untested.",
 [A+"eval.rs"],[("_eval / match_expr / call",A+"eval.rs"),("dump_abe_bytes",A+"eval.rs"),("ABList::split_fslash",A+"eval.rs")])
p("A05","Functions and macros are resolved by scope order, position and arity",
 "A name is looked up in the scopes in their order and the first scope that defines it decides; later scopes are consulted only if earlier ones do not define it. A function restricted to opening or continuing a pipeline, or called with a number of arguments (previous result included) outside its declared range, is an error rather than a call or a fall-through; an unset optional scope behaves as if absent and a scope that failed to load turns every lookup that reaches it into an error.",
 ["configurations","inputs"],"all nestings of scopes (pairs, triples, references, optional, failed) with overlapping names, and all calls into them",
 "No test combines scopes, shadows a name, or calls a function with the wrong arity or position.",
 [A+"eval.rs"],[("impl Scope for tuples/Option/Result/refs",A+"eval.rs"),("impl Scope for EScope",A+"eval.rs")])
p("A06","Byte functions compute exactly what they document",
 "Padding, cutting, fixed-length, slicing, replacing and text-conversion functions return exactly the documented bytes for every input: pads add the pad byte on the named side up to the length (16 by default) and fail or pass through when too long, cuts keep the named side, fixed combines both, slice follows Python indexing including negative positions and steps, replace substitutes left to right without overlap. Malformed numbers and multi-byte pad arguments are errors.",
 ["inputs"],"all byte inputs, lengths, pad bytes, slice bounds and steps (including huge ones), patterns and replacements, up to memory-sized results",
 "These functions have no tests at all.",
 [A+"scope/bytes.rs"],[("pad, cut, replace, slice, encode_a",A+"scope/bytes.rs")])
p("A07","Integer functions agree with arithmetic on unbounded integers",
 "Fixed-width integer functions parse exactly the decimal numbers that fit and produce big- or little-endian bytes of that width, the printing functions invert them for any width up to 16 bytes, and '+' and '-' on equal-length operands of any length equal the exact sum or difference saturated at all-ones or zero. Operands of different lengths, out-of-range or malformed numbers are errors.",
 ["inputs"],"all integers of all widths, all texts, all operand lists up to the arity limit",
 "Only eight small constants are evaluated by a unit test; carries, saturation, errors and printing are untested.",
 [A+"scope/uint.rs"],[("carry_add_be / carry_sub_be",A+"scope/uint.rs"),("u8..u128, lu..lu128, ?u, ?lu",A+"scope/uint.rs")])
p("A08","Base-N functions encode and decode exactly the standard alphabets",
 "Base64 functions (url-safe without padding, and standard with padding) decode exactly the canonical encodings and reject everything else, and their printing counterparts are exact inverses; base 2, 8 and 16 decode a number of up to 128 bits to its minimal big-endian bytes; the abbreviated form keeps the first six and last two characters and is the full form for at most 12 bytes.",
 ["inputs"],"all byte strings and all candidate texts, valid and mutated",
 "No unit test exercises these functions.",
 [A+"scope/base.rs"],[("base64, base64_decode, bin, mini_b64",A+"scope/base.rs")])
p("A09","Fallback, test, comment and nested-evaluation functions behave as documented",
 "'or' yields the first alternative that evaluates without error (evaluated left to right, later ones ignored) and fails only if all fail; the size and value tests pass their input through unchanged exactly when the test holds; a comment evaluates to nothing; evaluating text, and evaluating an inner expression list, give exactly the bytes that expression evaluates to, delimiters included.",
 ["inputs","programs"],"all alternatives and nested expressions, failing and succeeding",
 "None of these are tested.",
 [A+"scope/logic.rs",A+"scope/comment.rs",A+"scope/encode.rs"],[("or, size?, val?",A+"scope/logic.rs"),("C",A+"scope/comment.rs"),("eval, e",A+"scope/encode.rs")])
p("A10","Encoding bytes to an expression is the inverse of evaluating it",
 "Whenever encoding bytes through a list of functions produces text, evaluating that text yields exactly those bytes; the first listed function that can represent the bytes (subject to its size options) is used, an empty entry means plain text, functions that cannot represent the bytes are skipped, and if none fits the result is an error, never a crash. The in-language encode functions and macros agree with this, stripping brackets or the function name where documented.",
 ["inputs","configurations"],"all byte strings and all encoder option lists",
 "The inverse is only asserted at run time in debug builds, on the inputs that happen to be used; no test encodes.",
 [A+"eval.rs",A+"scope/encode.rs",A+"scope/base.rs",A+"scope/bytes.rs",A+"scope/uint.rs"],[("encode / encode_abe / try_encode",A+"eval.rs"),("?, ??, ???, /?, /~?",A+"scope/encode.rs")])
p("A11","Evaluated delimited lists keep their structure through every view",
 "A delimited byte list built from items, iterated, converted to or from expression items, printed and re-read keeps its delimiters and components in order; joining it yields the components with their delimiters as plain bytes; it counts as exact bytes exactly when it has no delimiter, and logical iteration yields one component more than there are delimiters (none for an empty list).",
 ["inputs"],"all delimited lists, with empty components and leading, trailing and repeated delimiters",
 "Never exercised by a test.",
 [A+"eval.rs"],[("ABList",A+"eval.rs"),("clist / flist",A+"eval.rs")])
p("A12","Configuration text is read back as written, latest entry first",
 "Configuration text is one delimited list per line, optionally after the format header, and writing then reading a configuration yields the same entries. Looking up a prefix returns the most recently added (topmost) entry starting with those components, 'name' alone means present without a value, 'name:value' yields the value, and entries with a different shape or with '/' in the matched part are reported as such.",
 ["inputs","histories"],"all configurations, sequences of additions, lookups, and texts",
 "The configuration type has no test.",
 [A+"abconf.rs"],[("ABConf::{try_from, get*, has_optional_value}, Display",A+"abconf.rs")])
p("A13","Typed expressions evaluate to the value or are rejected",
 "An expression typed as a fixed-width field, integer, text or bytes is accepted by shape before evaluation and after evaluation yields exactly the value of the bytes it evaluates to when these fit the type, and an error otherwise; values written as expressions read back as themselves, an empty result takes the default where one is given, and serialising keeps the expression.",
 ["inputs","programs"],"all expressions against all value types",
 "A unit test checks nine constants.",
 [A+"convert.rs","crates/byte-fmt/src/lib.rs","crates/byte-fmt/src/endian_types.rs"],[("TypedABE / ABEValidator / ToABE",A+"convert.rs")])
p("A14","Positional arguments resolve to exactly the supplied values",
 "A numeric name yields the argument at that position and is an error if it is missing, given arguments, or used to continue a pipeline; the slice form over the arguments concatenates the selected arguments with the same indexing rules as byte slicing; other names are left to other scopes.",
 ["inputs"],"all argument lists and all index or slice expressions",
 "No test.",
 [A+"scope/argv.rs",A+"scope/bytes.rs"],[("ArgV, ArgList",A+"scope/argv.rs"),("slice",A+"scope/bytes.rs")])
p("A15","Any input text is evaluated or rejected, never crashed on",
 "For every byte string used as an expression, an encoder option list, configuration text, size limit or component list, parsing, evaluating, encoding and printing finish with a value or an error: no panic, no endless loop, no unbounded memory growth (for bounded nesting depth and requested lengths).",
 ["inputs","programs"],"arbitrary byte strings, mutated valid expressions, and random function applications with extreme arguments",
 "Tests only use well-formed inputs.",
 [A+"eval.rs",A+"ast.rs",A+"scope/bytes.rs",A+"scope/uint.rs",A+"scope/base.rs"],[("all parsers and scope functions",A)])
p("A16","Pattern replacement and matching helpers on expression lists are exact",
 "Replacing a pattern in an expression list substitutes, innermost lists first and left to right without overlap, exactly the occurrences of the pattern and nothing else; the shape-matching helpers (take, exact, single, no delimiters, prefixed parts) succeed exactly when the list has the stated shape and return exactly the corresponding parts.",
 ["inputs"],"all expression lists, patterns and replacements",
 "Two replacements are tested; the helpers are not.",
 [A+"ast.rs"],[("replace_abe",A+"ast.rs"),("take, exact, single, strip_prefix, multi_ctr_expr, ...",A+"ast.rs")])
p("A17","Help output lists every function and macro in reach",
 "Asking for help lists every scope in order with each of its functions and macros, marking a function already listed by an earlier scope as shadowed; asking about one name shows exactly the first scope that defines it.",
 ["configurations"],"all combinations of scopes and names",
 "No test.",
 [A+"scope/help.rs"],[("Help / DisplayHelp / describe",A+"scope/help.rs")])
F="crates/byte-fmt/src/"
p("B01","Fixed-size text fields hold, print and read back their bytes",
 "A byte string fits a fixed-size field exactly when it is not longer than the field, and is stored left-padded with the fill byte; the field prints as ascii-byte text that reads back to the same field, its expression form evaluates back to exactly the same bytes whatever their value (leading 0x00 or 0xff included), and the integer conversions of 16-byte fields are exact inverses.",
 ["inputs"],"all field contents for a range of sizes, all candidate texts and lengths",
 "One doc example and a few constants are tested.",
 [F+"lib.rs",A+"lib.rs"],[("AB: try_fit_byte_slice, parse_abtxt, to_abe_str, x_prefix_cut",F+"lib.rs"),("fit, fit_back, fit_front, cut_*",A+"lib.rs")])
p("B02","Base64 fields hold, print and read back their bytes",
 "A base64 field prints as url-safe unpadded base64 that reads back to the same bytes, reading accepts exactly canonical encodings of the right length, construction from bytes or text accepts the exact raw length or the exact encoded length and nothing else, and its expression form evaluates to the same bytes; xor and the 256/512-bit integer conversions are exact.",
 ["inputs"],"all field contents for a range of sizes, all candidate texts and evaluated lists",
 "A few constants are tested.",
 [F+"lib.rs"],[("B64: parse_str, try_fit_bytes_or_b64, TryFrom<ABList>, to_abe",F+"lib.rs")])
p("B03","Endian integers order, compute, print and parse as their value",
 "Big- and little-endian integer fields behave as the unsigned integer they hold: conversion, ordering, saturating arithmetic, increment, bitwise operations, maximum and zero, decimal printing and parsing, change of endianness and the expression form all agree with ordinary integer arithmetic, and their bytes are the exact big- or little-endian representation; little-endian fields accept shorter byte strings as zero-extended and everything else must have the exact size.",
 ["inputs"],"all pairs of values for all widths and both byte orders, all texts and byte strings",
 "Two unit tests use single small constants.",
 [F+"endian_types.rs"],[("endian_number!, big_endian!, little_endian!",F+"endian_types.rs")])
C="crates/cryptography/src/"
p("C01","A signature verifies exactly for its key, hash and bytes",
 "Signing any 32-byte hash with any valid secret key gives a deterministic 64-byte BIP-340 signature that verifies under that key's public key, and no alteration of the signature, hash or public key verifies; malformed keys and signatures are rejected with an error, never a crash.",
 ["inputs"],"all secret keys, hashes, single-bit and structured alterations, and arbitrary byte strings as key or signature",
 "Tests cover one fixed key and no alteration.",
 [C+"lib.rs",C+"keygen.rs"],[("sign_hash, validate_signature, SigningKey::try_from",C+"lib.rs")])
p("C02","The hash of segments is the BLAKE3 hash of their concatenation",
 "Hashing a sequence of byte segments gives the BLAKE3 hash of their concatenation, however the bytes are split into segments.",
 ["inputs"],"all byte strings and all ways of splitting them, including empty segments",
 "No test hashes anything.",
 [C+"lib.rs"],[("hash_segments",C+"lib.rs")])
G="crates/argon2-identity/src/lib.rs"
p("C03","An encrypted key opens with its password and only with it",
 "Encrypting a key with a password yields one-line text from which the public key can be read without the password and from which the original key is recovered with that password; it is deterministic and follows the documented argon2d layout (cost parameters, public key as salt, secret xored with the digest). Any other password is refused.",
 ["inputs","configurations"],"all keys, passwords (any bytes, including empty and long), and cost parameters in the valid range",
 "One key and two passwords are tested.",
 [G],[("encrypt, decrypt, pubkey, params::decode_string",G)])
p("C04","A damaged or foreign encrypted key is refused",
 "Text that is not a well-formed encrypted key (wrong scheme, version, field order or count, bad encodings, wrong salt or secret length, invalid costs) is refused with an error by both the reading of the public key and the decryption (as bad data when the text itself is malformed; unusable costs are only noticed when decrypting). A well-formed text with an altered salt, secret or cost never opens, so decryption never yields a key other than the one whose public key the text states.",
 ["inputs","fault_sequences"],"all single-field alterations, truncations, re-orderings and arbitrary strings",
 "No test feeds malformed text.",
 [G],[("params::decode_string, decrypt, pubkey",G)])
I="crates/ipcbus/src/"
p("I01","The bus value never goes backwards and new values wake waiters",
 "The value of a process bus only ever grows: after any emits in any order and interleaving it is the largest value emitted, and an emit reports the value in force. Every waiter is woken by an emit, made while it waits, of a value not below the current one, and sees a value at least that large; a waiter with a deadline times out if nothing is emitted, and not before.",
 ["histories","schedules"],"all sequences and interleavings of emits from several threads, with waiters",
 "ipcbus has no tests.",
 [I+"udp_procbus.rs"],[("ProcBus::{emit,_emit,val,next_deadline}",I+"udp_procbus.rs")])
p("I02","Emits reach the other processes of the same bus, and only those",
 "A value emitted in one process becomes visible in every other process attached to the same bus, whichever opened it first, as long as the receiver listens; values of other buses, messages from itself, and stale (smaller) values change nothing.",
 ["histories","schedules"],"all sequences of emits over several buses and processes on one machine",
 "ipcbus has no tests.",
 [I+"udp_procbus.rs",I+"udp_multicast.rs"],[("ProcBus::init receive thread",I+"udp_procbus.rs"),("UdpIPC",I+"udp_multicast.rs")])
p("I03","Every bus keeps one port and no two buses share one",
 "Looking up the port of a bus is stable across calls, processes and restarts, and two different buses never get the same port, also when many processes register buses at the same time (once all ports are taken, registering another bus is an error). Registrations survive failed or torn writes of the registry and processes killed at any point.",
 ["histories","schedules","fault_sequences"],"all sequences and interleavings of registrations by several threads and processes, starting from any registry size, with failing writes, torn files and killed processes",
 "ipcbus has no tests.",
 [I+"udp_procbus.rs"],[("get_port and its lock file",I+"udp_procbus.rs")])
p("I04","Malformed or foreign datagrams do not stop a bus",
 "Whatever datagrams arrive on a bus's address (any length, any content), the bus keeps receiving: later valid emits from other processes are still delivered and the malformed datagrams do not change its value.",
 ["inputs","fault_sequences"],"all sequences of arbitrary datagrams interleaved with valid ones",
 "ipcbus has no tests.",
 [I+"udp_procbus.rs",I+"udp_multicast.rs"],[("ProcBus::init receive closure",I+"udp_procbus.rs"),("recv",I+"udp_multicast.rs")])
K="crates/pkt/src/"
p("K01","A packet carries exactly the fields it was built from, in every form",
 "Building a data, link or key point from any valid fields (group, domain, space, stamp, links, data, signing key) gives a packet whose wire bytes are exactly the documented layout, padded to 8 bytes, and every form of it (borrowed, boxed, shared, parts, byte segments, rerouted, re-read from bytes at any alignment) shows the same fields, hash, size and bytes. Building without a field gives that field's documented default, and a form that is dropped gives back exactly the memory it took.",
 ["inputs","configurations"],"all valid field values, point types, alignments and representations",
 "The crate's own tests build a few fixed points and are not part of the reliable suite.",
 [K+"builder.rs",K+"point_ptr.rs",K+"netpkt/mod.rs",K+"netpkt/netpkt_arc.rs",K+"netpkt/netpkt_parts.rs",K+"netpkt/netpkt_ptr.rs",K+"byte_segments.rs"],[("datapoint, linkpoint, keypoint",K+"builder.rs"),("NetPkt / Point accessors",K+"netpkt/mod.rs"),("as_netbox, as_netarc, as_netparts, byte_segments",K+"netpkt/")])
p("K02","Points are accepted exactly up to the documented size limits",
 "A point is built exactly when its content fits the 16-bit size limits (data size, links, space, signature and headers together); anything larger is refused with an error, never truncated, and the published maxima (such as the maximum data size of each point type) are exact: that much is accepted and one byte more is refused.",
 ["inputs"],"all combinations of data length, link count and space size around the limits, and far beyond them",
 "No reliable test builds a point near a limit.",
 [K+"builder.rs",K+"consts.rs",K+"point_parts.rs"],[("try_datapoint_ref, try_linkpoint_ref, try_keypoint_ref",K+"builder.rs"),("MAX_DATA_SIZE, MAX_LINKS_LEN, MAX_KEYPOINT_DATA_SIZE",K+"consts.rs")])
p("K03","The hash identifies the point: same point same hash, any change another",
 "The packet hash is the BLAKE3 hash of the point's bytes and of nothing else: equal points have equal hashes, any change of group, domain, space, stamp, link, tag, data, key or signature changes it, moving bytes between neighbouring fields changes it, and changing the net header (hop, stamps, flags, ubits) does not. A key point's signature is over its content and verifies for its key only.",
 ["inputs"],"all pairs of points that differ in one or more fields, and all header changes",
 "Not tested.",
 [K+"builder.rs",K+"netpkt/mod.rs",K+"point.rs"],[("compute_hash / PktHash",K+"netpkt/mod.rs"),("keypoint signature",K+"builder.rs")])
p("K04","Received bytes are read as exactly the packet they are, or refused",
 "Reading arbitrary bytes as a packet never crashes or reads out of bounds: it yields a packet exactly when the bytes start with a well-formed one (header, sizes, offsets, space structure, padding, and, unless skipped, hash and signature), with the fields an independent reader sees; it asks for more bytes exactly when the packet is incomplete, and otherwise names an error.",
 ["inputs","fault_sequences"],"all byte strings: valid packets, edited packets, packets assembled from inconsistent parts, truncated and noisy streams, at any alignment",
 "No test feeds invalid bytes.",
 [K+"read.rs",K+"point_ptr.rs",K+"netpkt/partial.rs",K+"point.rs"],[("read_pkt / parse_netpkt",K+"read.rs"),("PointPtr / PartialNetHeader checks",K+"point_ptr.rs")])
p("K05","Spaces are lists of up to eight non-empty components",
 "A space is a list of at most 8 components of 1 to 200 bytes, at most 242 bytes in all: pushing, popping, joining, splitting, iterating, comparing, prefix tests and conversion to and from bytes (at run time or in constants) agree with that list for every sequence of operations, and anything that would break a limit is refused and leaves the space as it was. Bytes are accepted as a space exactly when they encode such a list.",
 ["inputs","histories"],"all component lists, operation sequences and byte strings",
 "Only a few fixed spaces are tested.",
 [K+"space.rs",K+"space_macro.rs"],[("Space, SpaceBuf",K+"space.rs")])
p("K06","Rooted spaces agree with the plain space they index",
 "A rooted space built from any space has the same components, depth, ordering, prefixes and text as that space, converts back to it exactly, supports the same pushes and pops with the same limits, and its index bytes give each component's offset; bytes are accepted as a rooted space exactly when the depth, offsets and components agree.",
 ["inputs","histories"],"all spaces, operation sequences and byte strings",
 "Only a few fixed spaces are tested.",
 [K+"rooted_space.rs"],[("RootedSpace, RootedSpaceBuf, RootedStaticBuf",K+"rooted_space.rs")])
p("K07","A space written as text evaluates back to the same space",
 "Every space prints as expression text that evaluates back to the same space; the space functions and macros ([s:..], [//..], [/~..], ?space, si) build, quote and index spaces consistently with the component list, and text that is not a space (empty or oversized components, too many of them, colons) is refused with an error.",
 ["inputs","programs"],"all spaces, component lists and texts",
 "Only fixed examples are tested.",
 [K+"space_fmt.rs",K+"eval.rs"],[("Display/FromStr for SpaceBuf, SpaceFmtScope",K+"space_fmt.rs")])
p("K08","Rerouting changes the net header and nothing else",
 "The net header holds its fields (flags, hop, stamp, ubits) independently and exactly, reads back from its bytes and text, and mutating or rerouting a packet any number of times changes only those 32 bytes of prefix: hash, point bytes and every point field stay the same in every form of the packet.",
 ["inputs","histories"],"all header values, mutations and packets",
 "Not tested.",
 [K+"netpkt/header.rs",K+"netpkt/reroute.rs"],[("NetPktHeader, NetFlags",K+"netpkt/header.rs"),("ReroutePkt, RecvPkt",K+"netpkt/reroute.rs")])
p("K09","Tree order sorts packets by group, domain, space, key, time and hash",
 "Comparing packets in tree order is a total order equal to the order of (group, domain, depth, space, public key, create stamp, hash); tree keys built from packets sort as their bytes in that same order, expose exactly those fields, and convert back; entries order the same way, and unindexed data points sort apart from indexed ones.",
 ["inputs"],"all pairs and lists of packets, closely related ones weighted",
 "Not tested.",
 [K+"netpkt/tree_order.rs",K+"netpkt/cmp.rs"],[("TreeEntry, TreeKey, TreeValueBytes",K+"netpkt/tree_order.rs"),("PktCmp",K+"netpkt/cmp.rs")])
p("K10","Every packet field reads the same as bytes, text and expression",
 "Each named field of a packet yields the same value through its accessor, its bytes, its display text and its expression form, and the expression evaluates back to those bytes; field names and abbreviations parse to their field and print back, fixed sizes are right, fields a point does not have yield the documented default, and unknown names are refused.",
 ["inputs"],"all packets and field names",
 "Not tested.",
 [K+"field_ids.rs",K+"eval.rs"],[("FieldEnum and its methods",K+"field_ids.rs"),("pkt scope [f:..]",K+"eval.rs")])
p("K11","Links are found and walked exactly as they are in the packet",
 "Selecting a link by tag or tag suffix returns the first matching link, or an error if there is none; slices and the links macro visit the selected links in order with the macro's body evaluated once per link; a link prints and reads back to the same tag and pointer, and accepts exactly pairs of at most 16 tag bytes and 32 pointer bytes.",
 ["inputs","programs"],"all link lists, tags, slice bounds and bodies",
 "Not tested.",
 [K+"link.rs",K+"eval.rs"],[("Link, Tag",K+"link.rs"),("select_link, [links:..], [/links:..]",K+"eval.rs")])
p("K12","Formatted packets show exactly the packet's content",
 "The text form of a packet shows each of its fields, links and data exactly once and escaped so that they can be read back; [pkt], [netpkt], [point], [netbytes] and [recv] evaluate to the forms they name; and the html form is well formed with all content escaped.",
 ["inputs"],"all packets, including data and tags full of markup, control and non-UTF-8 bytes",
 "Not tested.",
 [K+"eval.rs",K+"netpkt/mod.rs",K+"point_ptr.rs"],[("PktFmt, pkt scope functions",K+"eval.rs")])
p("K13","Stamps order, add, subtract and convert as microseconds, without wrapping",
 "Stamps are microseconds since 1970: converting to and from bytes, durations and system time, adding, subtracting, comparing and ageing agree with exact integer arithmetic, the checked and saturating forms fail or saturate exactly at the ends of the range, and nothing wraps.",
 ["inputs"],"all stamps and durations, boundary values weighted",
 "Not tested.",
 [K+"stamp.rs"],[("now, saturating_duration_since, stamp_add, stamp_sub, as_duration, ...",K+"stamp.rs")])
p("K14","Packets streamed in pieces come out whole",
 "Writing a packet's byte segments to a writer that takes any number of bytes at a time, is interrupted or runs full puts out exactly the packet's bytes or reports the failure; iterating segments, from any point, yields exactly the bytes that remain, with exact length hints.",
 ["inputs","fault_sequences"],"all packets and segment lists, all sequences of short, interrupted and failing writes",
 "Not tested.",
 [K+"byte_segments.rs"],[("ByteSegments: io_slices, write_segments, iter, to_bytes",K+"byte_segments.rs")])
D="crates/core/src/"
p("D01","Numeric constraints on one field mean the intersection of their sets",
 "A set of =, <, >, mask-is-zero and mask-is-one constraints on an unsigned field accepts exactly the numbers that satisfy every one of them, whatever the order they are added in and however often; its reported bounds, emptiness, minimum, successor and listed statements describe exactly that set, and a contradictory set is reported empty rather than crashing or accepting something.",
 ["inputs","histories"],"all constraint sequences over 8- to 512-bit fields, with probes at and around every bound",
 "A few constraint pairs on u8 are tested.",
 [D+"predicate/value_test.rs",D+"predicate/bitset_test.rs"],[("TestSet, Bound, BitTestSet",D+"predicate/value_test.rs")])
p("D02","Field integers of every width compute like integers",
 "The integer operations predicates rely on (add, subtract, shift, compare, checked and saturating forms, bit operations, minimum, maximum, conversion to and from bytes) agree with arbitrary-precision arithmetic at every width from 8 to 512 bits and for fixed byte-array fields, including at the ends of their range.",
 ["inputs"],"all pairs, boundary and carry-heavy values weighted",
 "Only a couple of constants are tested.",
 [D+"predicate/uint.rs"],[("UInt and its implementations",D+"predicate/uint.rs")])
p("D03","Stamp ranges and depth rules select what they say",
 "A stamp range with a direction, a start and an end contains exactly the stamps between its ends, in the order it names, and reports its start, end and direction accordingly; depth rules yield exactly the permitted depths of a space, in order.",
 ["inputs"],"all ranges and probes, all depth constraints",
 "Not tested.",
 [D+"stamp_range.rs",D+"predicate/treekey.rs"],[("StampRange",D+"stamp_range.rs"),("depth iteration",D+"predicate/treekey.rs")])
p("D04","Predicates on packet fields are a conjunction, in any order",
 "Adding predicate statements 'field:op:value' (group, domain, prefix, space components, depth, pubkey, create, recv, hash, sizes, links, data, counters, ubits, hop, type, ...) to a set accepts exactly the packets all of them accept; order and repetition do not matter, the set prints as statements that rebuild the same set, a statement that contradicts the others is refused, and an operand of the wrong width, an unsupported operator or an unsupported field is an error, never a crash.",
 ["inputs","histories"],"all statement sequences over all fields, operators and operands",
 "A handful of fixed statements are tested.",
 [D+"predicate/pkt_predicates.rs",D+"predicate/exprs.rs"],[("PktPredicates::predicate, iter",D+"predicate/pkt_predicates.rs"),("ExtPredicate parsing and padding",D+"predicate/exprs.rs")])
p("D05","A query text and the query it builds say the same thing",
 "A query text is read as its predicates and options, one per line: the query prints to a text that reads back to the same query, an option given again replaces the earlier one and reading a later text on top adds to it, known options (mode, qid, follow, ...) return their value, and any other text is refused with an error and never a crash.",
 ["inputs","histories"],"all sequences of texts made of predicate and option lines; arbitrary text",
 "A couple of fixed queries are tested.",
 [D+"query.rs",D+"predicate/exprs.rs"],[("Query::parse, to_string, add_option",D+"query.rs")])
p("D06","A compiled query accepts exactly the packets its predicates accept",
 "Compiling predicates to packet tests and running them on a packet gives the same answer as judging the packet's fields by the stated meaning of each predicate: absent fields (a data point has no space, an unsigned point no key) exclude the packet, the implied type is required, and nothing else does.",
 ["inputs","programs"],"all packets of all kinds against all predicate sets, operands weighted to the packet's own values",
 "Not tested.",
 [D+"predicate/test_pkt.rs",D+"predicate/predicate_type.rs"],[("compile_predicates, PktTest, FieldEnum values",D+"predicate/test_pkt.rs")])
p("D07","The store keeps exactly the packets saved, each once, in order of arrival",
 "Over any history of saves through any handle and any form of the call: each pending packet whose hash is new is stored once, bytes unchanged; packets stored before, or repeated in a batch, are reported as existing; states that are not pending are left alone. Log stamps grow strictly (the clock's time, or one more than the last), whatever the clock does; the log, the hash table and the tree hold the same packets, the range returned is that of the new ones and its end is announced. A read transaction keeps showing the state it began with until refreshed.",
 ["inputs","histories"],"histories of saves (6 forms, 2 handles), snapshots, refreshes; clocks that stop, jump ahead, fall behind the log, or stand within a microsecond of it; packets sharing hashes, branches, stamps",
 "Upstream tests of the store need LMDB and save a fixed list.",
 [D+"env/lmdb/save.rs",D+"env/lmdb/mod.rs",D+"env/lmdb/get.rs"],[("LMDBEnv::save, BTreeEnv::save_*",D+"env/lmdb/save.rs"),("ReadTxn",D+"env/lmdb/get.rs")])
p("D08","A failed save changes nothing and says so",
 "When a write or the commit fails at any point of a save, the call returns an error, the store is as it was in all its tables, no packet of the batch is reported as written or existing unless it was stored before, nothing is announced, and saving the same batch again later works.",
 ["fault_sequences","histories"],"histories of saves with a failing write (the nth put) or commit at any point",
 "No test injects a fault.",
 [D+"env/lmdb/save.rs",D+"env/lmdb/mod.rs"],[("LMDBEnv::save",D+"env/lmdb/save.rs")])
p("D09","Reads by log stamp, range and hash return exactly what was saved there",
 "Reading the log from a stamp, after a stamp (also the last possible one), or over a range in either direction returns exactly the packets with a stamp in it, bounds included, in order; reading by hash or stamp returns the packet saved under it, or none.",
 ["inputs","histories"],"stores of up to 14 packets; stamps at, next to and far from entries, 0 and the greatest; forward, backward and single-stamp ranges; absent and repeated hashes and stamps",
 "Not tested.",
 [D+"env/lmdb/get.rs",D+"env/lmdb/db.rs"],[("local_pkt_log, pkts_after, log_range, get_pkts_by_*",D+"env/lmdb/get.rs")])
p("D10","Tree queries return exactly the matching packets, in order, within their limits",
 "A query in tree mode returns exactly the linked packets that the predicates accept, ordered by group, domain, depth, space, key, and within such a branch by create stamp and hash (new first when descending); i_branch counts the packets of a branch the index fields accept, i_db those all predicates accept, i those that pass all that; the counter handed in goes on counting. A query never panics and never returns a packet outside of it.",
 ["inputs","histories"],"stores of up to 24 packets sharing branches × conjunctions of up to 6 predicates near the values of stored packets, gaps in masks, prefixes, depths out of reach, limits; read whole or in part",
 "Upstream tests compare a few fixed queries and need LMDB.",
 [D+"env/lmdb/queries.rs",D+"env/lmdb/tree_iter.rs",D+"env/lmdb/db.rs",D+"predicate/treekey.rs"],[("query_tree, query_tree_entries, TreeKeysIter",D+"env/lmdb/tree_iter.rs")])
p("D11","Log queries return exactly the matching packets in order of arrival",
 "A query in log mode returns exactly the packets that the predicates accept, in the order they were saved or the reverse; recv bounds hold in both directions, i_branch is ignored, i_db and i limit as documented, and the counter goes on counting.",
 ["inputs","histories"],"as D10, ascending and descending",
 "Upstream tests need LMDB.",
 [D+"env/lmdb/queries.rs",D+"env/lmdb/get.rs"],[("query_log2",D+"env/lmdb/queries.rs")])
p("D12","Hash queries return exactly the matching packets in order of their hash",
 "A query in hash mode returns exactly the packets that the predicates accept, ordered by hash in the direction asked for; limits as in D11.",
 ["inputs","histories"],"as D10, ascending and descending",
 "Not tested; descending was not implemented.",
 [D+"env/lmdb/queries.rs",D+"env/lmdb/db.rs"],[("query_hash",D+"env/lmdb/queries.rs")])
p("D13","Opening a store keeps what is there and starts a new one complete",
 "A new store starts with the public group packet and the LNS roots (only the former with LK_NO_LNS, neither with LK_FORCE_EMPTY), both or nothing also when opening fails midway; the shipped packets are valid. Opening again by any path to the directory keeps packets, order and identity. A missing directory is created only when asked; a directory of another type, or a path that is no text, is refused untouched. check_path accepts only relative paths that stay below their folder.",
 ["inputs","histories","fault_sequences"],"sequences of sessions (path forms, environment settings, failing puts and commits, batches); directories with other type files; paths of components",
 "Not tested.",
 [D+"env/lmdb/mod.rs",D+"env/lmdb/db.rs",D+"lib.rs"],[("BTreeEnv::open, check_path",D+"env/lmdb/mod.rs")])
p("D14","Saves from several threads happen one after the other",
 "With several threads saving overlapping batches through two handles, the log is that of the saves in some order: ranges do not overlap, each packet is stored once and reported as written by exactly one save, and every snapshot a reader takes meanwhile is the state between two saves.",
 ["schedules"],"2–4 writers with 1–4 batches each over a shared pool, one reader refreshing; thread interleavings as the scheduler gives",
 "Not tested.",
 [D+"env/lmdb/save.rs",D+"env/lmdb/mod.rs"],[("LMDBEnv::save",D+"env/lmdb/save.rs"),("ReadTxn::refresh",D+"env/lmdb/get.rs")])
p("D15","A watch is called for exactly the packets its query accepts, until it is spent",
 "A watch accepts a packet iff its reception is within the recv bounds, its query accepts it, and i_new (accepted since the watch started) and i (accepted in total) allow their counts; it ends on a packet beyond its recv bounds and once no further packet can be accepted, never before. Creating one that can never match fails. A matcher keeps its watches by id: registering replaces the watch of that id, a watch that is already over is not kept, stopping by id or by prefix removes exactly those, each packet calls the matching watches once each in id order, a watch that ends or breaks is dropped once, and gc removes exactly those whose time is over and tells when the next one is.",
 ["inputs","histories"],"queries over all fields and counters; sequences of packets, registrations, stops, breaks, clock steps, collections",
 "Not tested.",
 [D+"matcher/mod.rs",D+"query.rs"],[("WatchEntry, Matcher",D+"matcher/mod.rs"),("Query::compile",D+"query.rs")])
p("D16","Time texts mean one amount and print back to it",
 "A duration text is a list of counts in decreasing units (Y M W D h m s l u), anything else an error and never a panic; printing a duration and reading it gives the same microseconds; differences print sign and the requested number of units exactly. Stamps read digits, ++, --, now, +dur and -dur (clamped), ranges start..end with defaults and print back to themselves; [us], [now], [epoch] and [us++] apply +, -, ++ and -- in order, with overflow an error unless saturating.",
 ["inputs"],"duration texts in and out of order, over the whole range of 64 bits; stamps, ranges, expressions with several arguments and any clock",
 "Tests print two durations.",
 [D+"stamp_fmt.rs",D+"stamp_range.rs"],[("parse_duration_str, duration_to_string, StampEF",D+"stamp_fmt.rs"),("StampRange::from_str_at",D+"stamp_range.rs")])
p("D17","Header changes set exactly the named fields of a packet header",
 "A list of field:=:value statements over the variable header fields, given as values or as text, sets those fields to the last value given and leaves every other byte of the header (at any memory address) as it was. Other fields, other operators and values of another length are errors and change nothing.",
 ["inputs"],"lists of statements over all fields, operators and lengths; headers of any bytes at any alignment",
 "Not tested.",
 [D+"mut_header.rs"],[("NetHeaderMutate",D+"mut_header.rs")])
p("D18","A partial hash stands for exactly the hashes whose text begins with it",
 "Only 4 to 43 base64url characters are accepted, anything else is an error and never a panic. The text matches a hash iff it begins the text of the hash, orders as text does, its search start is at or before every hash it matches and itself begins so, and 43 characters complete to the hash.",
 ["inputs"],"beginnings of hashes with changed characters, also in the last group; hashes sharing beginnings",
 "One test prints prefixes of one hash.",
 [D+"partial_hash.rs"],[("PartialHash",D+"partial_hash.rs")])
p("D19","The static names stand for the well-known groups and for nothing else",
 "[#:0], [#:pub], [#:test] and [@:none] give the private, public and test group and the empty key, and encode back to those texts; names with further components, and any other name, are left to other scopes.",
 ["inputs"],"names with and without further components; hashes to encode",
 "Not tested.",
 [D+"eval.rs"],[("StaticLNS",D+"eval.rs")])

L="crates/linkspace/src/"
CM="crates/common/src/"
p("L01","A watch is called once for each matching packet, stored or new, in order",
 "lk_watch calls its callback for the matching stored packets in the order of the query, then once for each matching new packet in order of arrival, within its counters, until it breaks, is stopped, replaced, or finished; then it is told so once, with the reason. Watches, stops and saves made inside of callbacks take effect. The counts returned by lk_watch, lk_get_all, lk_stop and lk_process are the calls and watches in question.",
 ["histories"],"histories of saves, watches, stops, reads and processing by several handles of one environment, with callbacks that break, save, watch, stop and process themselves",
 "Nothing in the runtime is tested by the stable tests.",
 [CM+"runtime/mod.rs",CM+"runtime/handlers.rs",L+"lib.rs",D+"matcher.rs"],[("watch",CM+"runtime/mod.rs"),("process",CM+"runtime/mod.rs"),("Matcher",D+"matcher.rs")])
p("L02","Waiting ends when what was waited for happens, and not before",
 "lk_process_while returns because its time passed, because the watch it waits for was called or finished, or because nothing is left to wait for, and says which; never before its time without one of these. A save made by another thread at any moment, also just before the wait begins, wakes it. A watch whose recv bound or until time passes is dropped and told so.",
 ["schedules","histories"],"watches with bounds, limits and ids; other threads saving at generated moments; waits inside of callbacks",
 "Waiting and waking are never tested.",
 [CM+"runtime/mod.rs","crates/ipcbus/src/udp_procbus.rs",D+"matcher.rs"],[("run_while",CM+"runtime/mod.rs"),("next_deadline","crates/ipcbus/src/udp_procbus.rs")])
p("L03","A stream of packets is read as it was written, however it is cut up",
 "Packets written to a stream come out in order and equal, whatever the sizes and interruptions of the reads. Private packets are refused unless allowed. Damaged bytes are an error and never a different packet; validity is decided as for a packet alone. lk_read gives the packet and the rest of the buffer. Deduplication lets each packet through once, the buffer holds back data points until a link to them arrives.",
 ["inputs","schedules"],"packets of all kinds, reads of generated sizes with interruptions, cuts and changed bytes, hop and hash options, buffers of all sizes",
 "Not tested.",
 [CM+"pkt_reader.rs",CM+"pkt_stream_utils.rs",L+"lib.rs"],[("NetPktDecoder",CM+"pkt_reader.rs"),("QuickDedup",CM+"pkt_stream_utils.rs")])
p("L04","The public functions for expressions, queries and points follow the language",
 "lk_encode gives text that lk_eval turns back to the bytes, by the first option that applies. lk_eval agrees with the language, with packet, arguments and loose or strict bytes as given. lk_tokenize_abe splits by the delimiters not excluded. lk_query push, parse, print and clear build the conjunction of the statements, and lk_query_compile accepts just the packets it holds for. lk_datapoint, lk_linkpoint and lk_keypoint build the packet of their arguments or fail.",
 ["inputs"],"values and option lists; programs; texts and delimiter exclusions; statement lists and packets; point arguments within and beyond the limits; the documented examples",
 "Not tested: the crate does not build here without its registry.",
 [L+"lib.rs",CM+"eval/mod.rs",K+"space_fmt.rs"],[("lk_eval",L+"lib.rs"),("lk_encode",L+"lib.rs"),("lk_query_compile",L+"lib.rs")])
p("L05","A name gives the key of the claim that has authority, and a key its name",
 "A local name gives the key, encrypted key or group of the newest claim set for it, and setting one is refused if there is one already unless overwriting is asked. A public name is resolved component by component from the root: the claim of each level is the one that more than half of the authorities of the level above vote for with their newest vote, ties and missing majorities give none, and points that are not claims, not in the store or elsewhere never count. The entry of a group or key lists claims with their end, in the order given and without ended ones, and leads to the name of the first claim whose name still gives that value. Names have 1 to 7 components, tagged local or not, and the text of a name, its parts and its space convert back and forth.",
 ["inputs","histories"],"names with any bytes; sequences of setting, overwriting and looking up keys; trees of claims with votes, changed votes, ties, strays; claims with any links",
 "Not tested.",
 [CM+"protocols/lns/name.rs",CM+"protocols/lns/claim.rs",CM+"protocols/lns/public_claim.rs",CM+"protocols/lns/local.rs",CM+"protocols/lns/mod.rs"],[("walk_live_claims",CM+"protocols/lns/public_claim.rs"),("setup_special_keyclaim",CM+"protocols/lns/local.rs")])
p("L06","Expressions read points, files and variables as stored, and nothing outside",
 "[readhash] gives the requested form of the point with that hash and [read] that of the newest point in exactly that domain, group and space by that key, both evaluated with that point; without one they fail or give the alternative. [files] and the file functions read back what was last written to the path, never overwrite unless asked, and never reach outside of the folder. [env] gives variables only where it is enabled, and without a store none of the others has a value.",
 ["inputs","histories"],"stores with points differing in single fields; requests by hash and place with all forms and alternatives; paths with dots, slashes, absolute and odd names, in sequences of writes and reads",
 "Not tested.",
 [CM+"eval/mod.rs",CM+"eval/file.rs",D+"env/query_mode.rs"],[("ReadHash, ReadSpace",CM+"eval/mod.rs"),("files_data",CM+"eval/file.rs")])
p("L07","A status request is answered by those it asks, and the answer reaches who asked",
 "A process that set a status answers each request for its group, domain, type and instance (or for all instances) made since its last answer, once, and no other; the answer holds its data and links to the request. A status watch gets the answers that match it and are valid, and says whether a request was made recently. A pull request holds the query, its id and the groups of the query, and is refused if the query has no id, or one that fits no space.",
 ["histories","inputs"],"histories of several processes that set, ask, answer, save foreign and half-formed points and let time pass; queries with and without the parts a pull needs",
 "Not tested.",
 [L+"conventions/status.rs",L+"conventions/pull.rs"],[("lk_status_set, lk_status_watch",L+"conventions/status.rs"),("lk_pull_point",L+"conventions/pull.rs")])
p("L08","A handshake ends only between the two keys that just signed for each other",
 "Undisturbed, both sides learn the key of the other, whatever the keys and delays within the limit. The client takes an answer only if it is signed, in time, in the handshake domain, the group of the two and the right space, and links to the very question it asked; the server takes a proof only by the key of that question, in the same place, that links to the very answer it gave. Messages of other sessions, other signers and reflected ones never prove anything.",
 ["inputs","fault_sequences"],"pairs of keys, clocks that differ, limits; at each message one of: another signer, none, other place, other links, other times, a replay of an earlier session, a reflected message",
 "Not tested.",
 [CM+"protocols/handshake.rs",CM+"protocols/mod.rs"],[("phase1_server_signs, phase2_client_signs, phase3_server_verify",CM+"protocols/handshake.rs")])

M="cli/linkspace/src/"
p("M01","Data read from the command line or a stream is cut and handled as asked",
 "A data reader gives, in order, the data up to each delimiter, or as many bytes as asked, with each piece evaluated if that is asked. Data beyond the limit of a packet is an error, cut off, dropped, split over several packets or carried over to the next, as chosen, and no byte is lost, repeated or reordered otherwise. At the end of the stream what is left is delivered, and then nothing.",
 ["inputs","configurations"],"streams of any bytes read in blocks of any size; all reader options",
 "Not tested.",
 ["crates/common/src/cli/reader.rs"],[("DataReadOpts, Reader","crates/common/src/cli/reader.rs")])
p("M02","The point commands print exactly the packets their arguments describe",
 "`lk datapoint`, `lk linkpoint`, `lk keypoint` and `lk point` build, for each piece of data, the packet with the domain, group, space, stamp, links, data and key given by their arguments, and write it to the destinations named, once. Arguments that describe no packet end with an error and write none.",
 ["inputs","configurations"],"argument lists with all options, links and keys; data from arguments and streams, around the size limit",
 "The command line has no stable tests.",
 [M+"point.rs",M+"datapoint.rs","crates/common/src/cli/write_private.rs","crates/common/src/cli/keys.rs"],[("PointOpts",M+"point.rs"),("datapoint",M+"datapoint.rs")])
p("M03","Filtering, deduplication and rerouting pass each packet on as asked, once",
 "`lk filter` writes the packets its query accepts to one side and the others to the other, in order, within the counters of the query. `lk dedup` drops a packet only if an equal one came before, within its capacity. `lk route` changes the named header fields and nothing else. Destinations are written independently of each other and packets of the private group only go where it is allowed.",
 ["inputs","configurations"],"streams of packets; queries; all kinds of destinations; capacities; header statements",
 "Not tested.",
 [M+"filter.rs",M+"main.rs","crates/common/src/pkt_stream_utils.rs","crates/common/src/cli/opts.rs"],[("filter",M+"filter.rs"),("QuickDedup","crates/common/src/pkt_stream_utils.rs")])
p("M04","What a command saves, later commands find, and nothing else",
 "Over any sequence of commands on one instance, `lk save` stores the valid packets it is given and reports new and known ones to the right destinations; `lk watch`, `watch-tree`, `watch-log` and `watch-hash` give the stored packets a query accepts, in its order. Broken, or refused private, packets end a command with an error, never end up in the store, and lose none of those before.",
 ["histories","inputs"],"sequences of saves, builds, imports and reads by separate runs of `lk` over one persisted instance; broken packets at any place",
 "Not tested.",
 [M+"save.rs",M+"watch.rs",M+"main.rs"],[("save",M+"save.rs"),("watch",M+"watch.rs")])
p("M05","A printed query is the query that was given",
 "What `lk print-query` and the `--print-text` and `--print-expr` options of other commands print, read back as a query, has the mode asked for and accepts the same packets, within the same counters, as the positional parts, options and statements given. Contradicting statements are an error.",
 ["inputs"],"queries made of positional parts, options and statements; packets to try them on",
 "Not tested.",
 ["crates/common/src/cli/opts.rs","crates/common/src/cli/mod.rs",M+"main.rs"],[("print-query",M+"main.rs")])
p("M06","Rewriting makes points anew with the requested fields changed, and no others",
 "`lk rewrite` gives, for each point read, one with the fields named in its arguments changed, the others kept, links and data kept, and signs with the given key or not as asked. It passes on or drops the original and skips what it should, as its options say.",
 ["inputs","configurations"],"streams of points of all kinds; all options",
 "Not tested.",
 [M+"rewrite.rs",M+"point.rs"],[("rewrite",M+"rewrite.rs")])
p("M07","Collecting links each packet read exactly once, in order",
 "`lk collect` makes points whose links are the packets read, tagged as asked, in order, each once, no more than the maximum in a point; the points are chained and start with the given links, as asked, and packets read are passed on before the point that links to them.",
 ["inputs","configurations"],"streams of packets; limits; chain and start options",
 "Not tested.",
 [M+"collect.rs"],[("collect",M+"collect.rs")])
p("M08","Following links gives the linked packets there are, and handles missing ones",
 "`lk get-links` writes, before each packet read is forwarded, its linked packets that are in the store, in order, and after each of them its own linked packets, to the depth asked. Links missing in the store are an error, skipped, waited for, or written when they come, as asked, at any depth; an error ends the command with an error.",
 ["inputs","configurations"],"graphs of packets partly in the store, the rest saved later by others; depths; modes",
 "Not tested.",
 [M+"get_links.rs"],[("get_links",M+"get_links.rs")])
p("M10","Packets of the private group never leave without being asked to",
 "No command reads, writes or forwards a packet of the private group unless its options allow it. A private packet met on input is an error; one due for output is withheld, or an error if writing was explicitly refused. This holds whatever the command, the destination, or the way the packet came about (built, read, stored, linked, rewritten).",
 ["configurations","inputs"],"commands over streams and stores with packets of the private group, with and without the options",
 "Not tested.",
 ["crates/common/src/pkt_reader.rs","crates/common/src/cli/write_private.rs",M+"main.rs"],[("check_private","crates/common/src/protocols/mod.rs"),("WritePrivate","crates/common/src/cli/write_private.rs")])
p("M09","`lk eval`, `encode` and `pktf` follow the expression language",
 "`lk eval` prints the value of its expression, as bytes or as the list of its components, with the arguments read for it, and fails without output if it has none; bytes that are not plain text are taken unless refused. `lk encode` gives a text that evaluates to its input, by the first option that applies. `lk pktf` prints for each packet the value of the format for its kind, with delimiters as asked, and passes the packet on.",
 ["programs","inputs","configurations"],"generated programs with arguments and fields, argument lists given in all ways, option lists, streams of packets with formats for each kind",
 "Not tested.",
 [M+"eval.rs",M+"pktf.rs",M+"main.rs"],[("eval_cmd",M+"eval.rs"),("pkt_info",M+"pktf.rs")])
p("M11","A key made under a name is used under it, and only with its password",
 "`lk key` makes a key for a name that has none, shows the one there is, replaces it if told so, or takes a given one, and asks for the right password whenever it opens one, except where told not to. A new password opens the same key. Afterwards points are signed with the key of the name, or not at all. What fails prints nothing and leaves the store as it was.",
 ["histories","configurations"],"sequences of key commands over several names with all flags, right and wrong passwords in both forms, given keys, and signing in between",
 "Not tested.",
 ["crates/common/src/cli/keys.rs","crates/common/src/protocols/lns/local.rs"],[("keygen, KeyOpts","crates/common/src/cli/keys.rs"),("setup_special_keyclaim","crates/common/src/protocols/lns/local.rs")])
p("M12","Queries sent as points ask for what was said",
 "`lk pull` makes one request in the exchange domain and the private group, for the group, domain and id of the query, holding that query, and refuses queries that lack one. `lk multi-watch` answers each query it reads, in order, with the stored packets it accepts, joined with the first of the given sets of statements that can be met as a whole; anything else it reads is skipped.",
 ["inputs","histories"],"queries made of positional parts, options and statements; streams of query packets, broken ones among them; sets of further statements",
 "Not tested.",
 [M+"main.rs",M+"multi_watch.rs",L+"conventions/pull.rs"],[("setup_watch",M+"multi_watch.rs"),("lk_pull_point",L+"conventions/pull.rs")])
p("M13","The `lns` program makes, finds and lists claims as asked",
 "`lns create-claim` makes one claim point for the name in the group the name belongs to, linking the given group, key (given, encrypted, or copied from a name; an authority too unless told not) and authorities in that order, valid until the given time or a week from now, and refuses without output what is no valid claim. `lns get` writes the claim in use for a local name and fails for a name without one, `lns ls` lists exactly the unexpired claims at or below a name, and a vote by a key without a say is refused.",
 ["histories","inputs","configurations"],"sequences of claims with all options over local and public names, saved in several ways or not, with lookups, lists and votes in between",
 "Not tested.",
 ["cli/lns/src/main.rs",CM+"protocols/lns/claim.rs",CM+"protocols/lns/utils.rs"],[("main","cli/lns/src/main.rs"),("Claim::new",CM+"protocols/lns/claim.rs"),("list_all_potential_claims_with_prefix",CM+"protocols/lns/utils.rs")])
p("M14","The `handshake` program ends well only if both keys signed for each other",
 "Two `handshake` processes, one serving and one connecting, both succeed if and only if each holds its key and the keys differ, and then exchanged exactly three points, each signed by its side for the one before. Run phase by phase, each phase writes its one message exactly if the messages before it are whole, in time, in the right group, domain and space, signed by the right keys and linked, and otherwise fails without output. The messages read are copied to where told.",
 ["schedules","inputs","configurations"],"pairs of keys and passwords; messages replaced, changed, missing or broken between the phases; two processes joined by pipes",
 "Not tested.",
 ["cli/handshake/src/main.rs",CM+"protocols/handshake.rs"],[("main","cli/handshake/src/main.rs"),("phase0_client_init .. phase3_server_verify",CM+"protocols/handshake.rs")])
p("L09","One folder is one store, by whatever path or thread it is opened",
 "`lk_open` gives the store in the given folder (or the one of LK_DIR, or that in the home folder) and creates it only when asked. All handles of one folder, by whatever path and in whatever thread they were opened, share it: what one saves is new exactly once, the others read it after they process, and their watches are called. Other folders stay apart. `lk_save` and `lk_save_all` say what was new, the `lk_get` functions read the state of the last processing, and keys survive their encrypted text and open only with their password.",
 ["histories","schedules","configurations"],"sequences of opens by plain, linked and relative paths and by the environment, saves, reads, watches and processing by several handles; threads that open, save and watch one folder together",
 "Not tested.",
 [CM+"static_env.rs",CM+"runtime/rx.rs",L+"lib.rs"],[("get_env",CM+"static_env.rs"),("lk_open",L+"lib.rs")])
p("M15","Two instances that exchange a group through pipes end up with the same points",
 "When two instances exchange a group as the scripts do (`watch | get-links | dedup | save`, and `pull | rewrite | watch | multi-watch | dedup | save`), what was made locally since the last time is sent with its links and noted in the txlog. What is new arrives once, with a hop, and is noted in the rxlog. A request is answered with exactly what matches and its links, and nothing private leaves.",
 ["histories","configurations"],"rounds of new points at both sides, sending, requests with and without follow, over points that link each other in and out of the group, known and unknown",
 "Not tested.",
 [M+"watch.rs",M+"get_links.rs",M+"save.rs",M+"collect.rs",M+"multi_watch.rs",M+"rewrite.rs",M+"main.rs"],[("watch",M+"watch.rs"),("setup_watch",M+"multi_watch.rs"),("save",M+"save.rs")])
p("M16","`lk status` asks for, finds and gives answers between processes",
 "`lk status watch` writes recent answers to its question, one or all as asked, and fails if there is none within the timeout; it makes a request unless one was made recently, and prints the query or the request it would make if told so. A waiting one is given answers of other processes as they come and ends with the first, unless it wants all. `lk status set` answers first of its own and then once for each request that concerns it, each time with the next piece of its data and a link to the answer before, until the data ends.",
 ["histories","schedules","inputs"],"sequences of requests, answers (old, foreign, half-formed) and watches over several domains, groups, kinds and instances; answering and waiting processes side by side",
 "Not tested.",
 [M+"status.rs",L+"conventions/status.rs"],[("status_watch, status_set",M+"status.rs"),("lk_status_watch",L+"conventions/status.rs")])
