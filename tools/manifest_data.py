COMMON=" Sampled, not exhaustive; every case is a function of VERIF_SEED, failures are shrunk to a replay file."
def t(i,tech,note): T[i]=(tech,note+COMMON)
t("A01","property-based round trip against an independent reader/writer of the text form","All single bytes and two-character escapes are enumerated; longer texts are generated.")
t("A02","property-based round trip and differential test against a reference parser","Trees to depth 5 and texts (valid, mutated, token soup) up to a few hundred bytes; nesting to depth 2000 is probed separately.")
t("A03","differential test against a reference splitter over texts and delimiter settings","Every combination of plain/error delimiter sets is drawn.")
t("A04","model-based: generated programs evaluated by a reference interpreter","The reference interpreter was written from the documentation and covers every built-in function plus recording probe functions.")
t("A05","model-based: generated scope nestings against a first-match model","Leaves have generated names, arities and positions; combinators are those the crate provides.")
t("A06","differential test against reference byte functions; slice table enumerated","Requested lengths up to 1 MiB.")
t("A07","differential test against reference big integers","Operands up to 40 bytes, all widths, boundary values weighted.")
t("A08","property-based round trip and differential test against a reference base-N codec","Canonical, mutated and arbitrary texts.")
t("A09","model-based: generated programs against a reference interpreter","Nested failing and succeeding alternatives.")
t("A10","property-based inverse: every encoding is evaluated back, and compared with a reference encoder","Option lists are generated, including malformed ones.")
t("A11","model-based: lists built several ways against a list-of-components model","Includes leading, trailing and repeated delimiters and empty components.")
t("A12","stateful model-based test of configurations (additions, lookups, re-reading)","Model: list of entries, latest first.")
t("A13","differential test of typed evaluation against a reference interpreter plus value tables","24 value types.")
t("A14","model-based: argument lookups and slices against a reference","Argument lists up to the maximum the type allows.")
t("A15","random and structured fuzzing with a no-panic, CPU-time and heap-growth oracle","Nesting depth and requested lengths are bounded; a case that uses 60 s of CPU time or grows the heap by 3 GiB counts as not terminating.")
t("A16","differential test against reference replacement and shape predicates","Lists to depth 4.")
t("A17","model-based: help text parsed back and compared with the scopes it was asked about","Reads names, flags, arity and order, not prose.")
t("B01","property-based round trip over field sizes with an independent text reader","16 sizes from 0 to 64.")
t("B02","property-based round trip and differential test against a reference base64 codec","14 sizes from 1 to 64.")
t("B03","differential test of all integer operations against native 128-bit arithmetic","All eight integer types; U8 enumerated.")
t("C01","differential test against an independent BIP-340 implementation, with generated alterations","The reference is checked against a published vector; forgery resistance is only tested against the listed alterations.")
t("C02","metamorphic test: any split of the data hashes like the whole","Oracle: blake3 one-shot hash.")
t("C03","property-based round trip and layout check with generated passwords, keys and costs","Memory cost up to 256 KiB, plus the default costs once.")
t("C04","mutation-based fuzzing of encrypted keys with a structural reader as oracle","Costs stay small.")
t("I01","stateful model-based test of emits and waiters, plus threaded stress with history invariants","Thread interleavings are those the scheduler produces.")
t("I02","stateful model-based test over real processes","Three processes share a bus, a fourth reuses the ports for other buses; 15 s without delivery counts as lost.")
t("I03","stateful model-based test with fault injection over real processes (failing writes, torn files, kills)","Crash points are sampled, not enumerated.")
t("I04","datagram fuzzing between valid emits against a value model","Datagrams from this machine only.")
PK=" linkspace-pkt is compiled from /repo through a mirror manifest in which only the unavailable triomphe fork is replaced by a stand-in."
t("K01","model-based: packets built from generated fields against an independent wire layout, through every representation","Reference model in h/pkt/src/model.rs."+PK)
t("K02","boundary-focused differential test of builders against the size arithmetic of the format","Sizes within a few bytes of each limit, and far above."+PK)
t("K03","metamorphic: sequences of field changes, hash compared with field equality and a one-shot BLAKE3 of the point","Collision resistance itself is cryptographic."+PK)
t("K04","structured fuzzing of received bytes against an independent reader","Edited, assembled, noisy, truncated and streamed packets."+PK)
t("K05","stateful model-based test of spaces against a list of components, and byte fuzzing against an independent reader",PK)
t("K06","stateful model-based test of rooted spaces against a list of components, and byte fuzzing against an independent reader",PK)
t("K07","round trip and differential test of space expressions against a reference",PK)
t("K08","model-based: header fields against a record of fields; metamorphic: rerouting keeps the point",PK)
t("K09","differential test of tree order against tuple comparison",PK)
t("K10","differential test of every field form against the packet model",PK)
t("K11","model-based: link selection, slices and loops against the list of links",PK)
t("K12","round trip of formatted packets through independent readers (text, strict html)",PK)
t("K13","differential test of stamp arithmetic against 128-bit integers","Real clock only for the functions that read it."+PK)
t("K14","fault injection: generated short, interrupted and failing writers against the packet's bytes",PK)
CO=" linkspace-core is compiled from /repo through a mirror manifest; lmdb is an in-memory stand-in with LMDB's semantics."
t("D01","stateful model-based: sequences of constraints against an interval-and-mask reference set",CO)
t("D02","differential test of all widths against big-integer arithmetic",CO)
t("D03","differential test against interval membership and ordered enumeration",CO)
t("D04","stateful model-based: statement sequences against an independent conjunction model",CO)
t("D05","round trip and model-based: query texts against a list-of-lines model, plus fuzzing of arbitrary text",CO)
t("D06","differential test: compiled tests on packets against the meaning of each predicate","Packets come from the reference packet model of K01."+CO)
t("D07","model-based testing of save histories: log, hash table and tree against a list model, with a controlled clock",CO)
t("D08","fault injection at every write and commit of generated save histories, against the list model",CO)
t("D09","model-based testing of reads at generated stamps, ranges and hashes",CO)
t("D10","model-based testing: generated stores and queries against filter, sort and count over the list model",CO)
t("D11","model-based testing: generated stores and queries against filter and count over the list model",CO)
t("D12","model-based testing: generated stores and queries against filter, sort and count over the list model",CO)
t("D13","model-based testing of open/save/reopen sessions with injected faults; generated paths",CO)
t("D14","randomised concurrent histories judged for a serial order and snapshot atomicity",CO)
t("D15","model-based testing of watch histories (packets, registrations, stops, collections) against a reference matcher",CO)
t("D16","property-based testing of time texts against a 128 bit reference and by round trip",CO)
t("D17","property-based testing of statement lists against a reference header",CO)
t("D18","property-based testing against the text of hashes",CO)
t("D19","property-based testing against the list of static names",CO)
LK=CO.rstrip()+" linkspace-common and linkspace are compiled from /repo's sources with stand-ins for crates that cannot be fetched (see DESIGN.md)."
t("L01","stateful model-based testing of watch histories, with a controlled clock",LK)
t("L02","property-based testing of generated schedules of waits and saves",LK)
t("L03","differential and round-trip testing of generated streams under generated read schedules and damage",LK)
t("L04","differential testing of the public functions against reference models, round trips",LK)
t("L05","stateful model-based testing of claims and votes against a reference resolver; round trips of names",LK)
t("L06","model-based testing of reads by hash, place and path against lists of points and files",LK)
t("L07","stateful model-based testing of status histories with a controlled clock; pull requests against the query model",LK)
t("L08","fault injection into generated handshakes, judged by an independent rule for each message",LK)
CL=LK.rstrip()+" The programs are compiled from /repo's sources and run as such."
t("M01","stateful model-based testing of the data reader against a list of pieces, with generated read sizes",CL)
t("M02","model-based testing of the real command line against the packet model",CL)
t("M03","model-based testing of the real command line: generated packet streams against lists and the query model",CL)
t("M04","stateful model-based testing: sequences of runs over one persisted instance against the list model, with damaged packets",CL)
t("M05","round trip of printed queries, judged by the query model",CL)
t("M06","model-based testing of the real command line against the packet model",CL)
t("M07","model-based testing of the real command line against lists of links",CL)
t("M08","model-based testing of the real command line against a walk over the graph of packets",CL)
t("M10","model-based testing: every command with and without private packets and permissions, against the rule",CL)
t("M09","differential testing of the real command line against the reference interpreter, encoder and packet model",CL)
t("M11","stateful model-based testing: sequences of key commands over one instance against a table of names",CL)
t("M12","model-based testing of requests and query streams against the query model and the list of stored packets",CL)
t("M13","stateful model-based testing: sequences of `lns` commands over one instance against a list of claims",CL)
t("M14","fault injection into handshakes between real processes, judged by an independent rule for each message",CL)
t("L09","stateful model-based testing of handles over several folders; randomised threads judged by the sum of what was saved",LK)
t("M15","stateful model-based testing: rounds of exchange between two instances against sets of points",CL)
t("M16","stateful model-based testing of histories of status commands against a list of points; processes side by side",CL)
