import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
V="src/validation.rs";S="src/ser.rs";R="src/rr.rs";Q="src/query.rs";H="src/http.rs"
p("C01","Only records under a verified signature are returned as verified",
"When validating a set of records succeeds, every returned record belongs to a complete RRset (all supplied records of one owner and type) over which a supplied RRSIG verified cryptographically with a supplied DNSKEY of the zone that RRSIG names as its signer. That DNSKEY has protocol 3, the zone-key flag (0x0100), and the key tag and algorithm the RRSIG states. A signature whose cryptographic check fails makes the whole validation fail.",
["inputs"],"all sequences of resource records, adversarial ones included","Tests hold a dozen genuine proofs and a handful of corrupted ones; the guarantee is about every forged proof.",
[V],[("per-RRset signature verifier",V+": verify_rrsig"),("zone walk that collects verified records",V+": verify_rr_stream")],obs=["verify_rr_stream return value"])
p("C02","Algorithm and digest numbers select the right primitive",
"An RRSIG of algorithm 8, 10, 13, 14 or 15 is checked with RSA/SHA-256, RSA/SHA-512, ECDSA P-256/SHA-256, ECDSA P-384/SHA-384 or Ed25519 respectively, with the key bytes read in that algorithm's DNSKEY format (RFC 3110 exponent/modulus split for RSA, 0x04-prefixed point for ECDSA, raw for Ed25519), and no other algorithm number is ever accepted. A DS of digest type 2 is compared with SHA-256 and one of type 1 with SHA-1, the latter only when the DS set has no entry of type 2 or 4; no other digest type ever authenticates a key.",
["inputs"],"all 256 algorithm numbers, all 256 digest types, all key encodings","Tests use algorithms 8 and 13 and digest type 2 only.",
[V,"src/crypto/hash.rs"],[("algorithm dispatch",V+": verify_rrsig"),("RSA key split",V+": bytes_to_rsa_pk"),("digest dispatch",V+": verify_dnskeys"),("hash wrapper","src/crypto/hash.rs: Hasher")])
p("C03","The bytes checked by a signature are the canonical signed RRset",
"The message handed to signature verification is exactly the RFC 4034 3.1.8.1 form: type, algorithm, labels, original TTL, expiration, inception, key tag and signer name of the RRSIG, then for every record of the RRset its owner name, type, class IN, the RRSIG's original TTL and its length-prefixed RDATA. The owner is replaced by '*.' plus its last `labels` labels when (for types other than NSEC) the RRSIG counts fewer labels than the owner has; an owner with fewer labels than the RRSIG counts is rejected.",
["inputs"],"all RRSIGs and RRsets","Signature tests cover few label/wildcard/type combinations; a field left out or duplicated for some type or shape is invisible to them only on inputs they do not have.",
[V,S],[("signed-data builder",V+": verify_rrsig"),("name encoder",S+": write_name")])
p("C04","Zone keys are trusted only through a matching DS or root anchor",
"A zone's DNSKEYs are used to check other records only after its complete supplied DNSKEY RRset verified under one of its keys that matches a trusted DS in key tag, algorithm and digest over owner name, flags, protocol, algorithm and public key. The trusted DS set is the built-in anchors for the root, and for any other zone a DS RRset whose signature verified under an already trusted ancestor zone's keys. A DS or anchor set with no usable digest type authenticates nothing.",
["inputs"],"all delegation chains in all sets of records","Tests follow four genuine chains; forged chains are unbounded.",
[V],[("DS matching",V+": verify_dnskeys"),("zone work list",V+": verify_rr_stream")],[("pending_ds_sets","DS sets verified but not yet followed",V)])
p("C05","A zone vouches only for names at or below it",
"A signature by a zone's key is accepted only for an owner name equal to the zone or below it at a label boundary; a name that merely ends in the same characters (notexample.com. for example.com.) is never vouched for. The same label-boundary rule decides which denial records apply to a zone and to which names a DNAME applies.",
["inputs"],"all pairs of owner and zone names","No test has two zones whose names are textual but not label suffixes of each other.",
[V],[("owner/zone containment check",V+": verify_rr_stream"),("DNAME match",V+": VerifiedRRStream::resolve_name")])
p("C06","The built-in trust anchors are exactly the IANA root anchors",
"The trust anchors of a non-test build are exactly the two IANA root key digests: key tags 19036 and 20326, owner '.', algorithm 8, digest type 2, each with IANA's published SHA-256 digest. No other way exists for a DS to become trusted without a verified signature.",
["configurations"],"every non-test build configuration","Tests run with an added test anchor and never use the 19036 anchor; an extra or altered anchor is not observed.",
[V],[("anchor table",V+": root_hints")])
p("C07","A wildcard answer needs proof that the closer name does not exist",
"Records expanded from a wildcard are returned only if the same validation verified an NSEC or NSEC3 record, signed by the same zone, whose interval strictly contains the next-closer name (the owner's last labels+1 labels), compared in canonical name order or by hash. A denial record matching that name exactly, or signed by any other zone, is no proof; wildcard-expanded NSEC3 or DS records are never accepted.",
["inputs"],"all wildcard signatures combined with all denial records","Tests use two test zones' honest denial records; replayed, foreign or matching denial records are not in them.",
[V],[("wildcard detection and proof search",V+": verify_rr_stream"),("canonical name order",V+": nsec_ord")],[("rrs_needing_non_existence_proofs","wildcard expansions still to be proven",V)])
p("C08","NSEC3 records are used only when safe and cheap to use",
"An NSEC3 record counts as a denial proof only if its hash algorithm is 1, all its flags (opt-out included) are zero, its iteration count is at most 2500 and both its hashes are 20 bytes; the name hash compared with it is SHA-1 over the wire name and that record's salt, rehashed with the salt once per iteration. For each name no more than two distinct (iterations, salt) pairs are ever hashed.",
["inputs"],"all NSEC3 parameter values","Tests have iterations 0 and flags 0 only.",
[V,"src/base32.rs"],[("NSEC3 search",V+": verify_rr_stream")])
p("C09","Validity window and cache TTL are the tightest over all signatures used",
"The reported start of validity is the latest inception, the reported expiry the earliest expiration and the reported cache lifetime the smallest original TTL over every RRSIG that validation verified, DNSKEY and DS signatures included. Validation fails if that window is empty.",
["inputs"],"all verified chains of any length, any order of signatures","Tests check times only against the current clock in network tests that are not run; no offline test compares them.",
[V],[("accumulators",V+": verify_rr_stream")],[("latest_inception/earliest_expiry/min_ttl","running extremes",V)])
p("C10","RRSIG times are widened to 64 bits without gaps or collisions",
"A 32-bit RRSIG time from 1997 onwards is reported unchanged and an earlier value t is reported as t + 2^32 (a time after the 2106 rollover), so distinct times stay distinct and ordered.",
["inputs"],"all 2^32 timestamps","Tests see a few 2024 timestamps only.",
[V],[("time widening",V+": resolve_time")])
p("C11","Each RRSIG costs at most one public-key check and failure aborts",
"Checking one RRSIG performs at most one public-key operation however many keys share its tag, and a signature found invalid ends the whole validation with an error at once, with no further public-key operation. An unsupported algorithm alone never makes a record verified.",
["inputs"],"all colliding key tags and signature sets (KeyTrap style input)","Cost under adversarial key-tag collisions is not observable in pass/fail tests.",
[V],[("hard failure on first invalid signature",V+": verify_rrsig, verify_dnskeys, verify_rr_stream")])
p("C12","Validation always terminates and visits each zone at most once",
"Validating any finite set of records ends: each zone's keys are processed at most once, and every other loop consumes a finite input. In particular a proof with no delegation, one with a DS at the signing zone's own apex, or one with a zone delegated by several ancestors, cannot make it spin or blow up.",
["inputs"],"all finite sets of records","Non-termination cannot be observed by a test that does not have the looping input.",
[V],[("zone work list",V+": verify_rr_stream")],[("pending_ds_sets","zones still to visit",V)])
p("C13","Alias resolution is correct, bounded and returns only verified records",
"Resolving a name in verified data follows a CNAME at exactly the current name, else a DNAME strictly above it at a label boundary (replacing that suffix by the DNAME target), and returns exactly the verified records whose owner is the final name. It always ends, returning nothing when aliases loop or the substituted name is invalid.",
["inputs"],"all verified record sets and names, alias cycles included","Tests follow one CNAME; no DNAME, no cycle.",
[V],[("alias loop",V+": VerifiedRRStream::resolve_name")])
p("C14","Parsing untrusted bytes never panics",
"Parsing a proof stream or a resolver response made of any bytes returns a result or an error and never panics, in debug and release builds alike (no out-of-range index or slice, arithmetic overflow, failed assertion or unwrap).",
["inputs"],"all byte strings","Tests parse well-formed streams only; the fuzz targets are not run.",
[S,R,Q],[("bounds checks before every read",S),("record parsers",R+": *::read_from_data"),("response handling",Q+": handle_response, ProofBuilder::process_response")])
p("C15","Validating parsed records never panics",
"Validating any sequence of parsed records, resolving any name in the result, and rendering or re-encoding any parsed record never panics, in debug and release builds alike.",
["inputs"],"all sequences of parsed records","Tests validate well-formed proofs only.",
[V,R,S,"src/base32.rs","src/crypto/hash.rs"],[("checked indexing and arithmetic",V),("writers",R)])
p("C16","Record writers and readers agree field by field",
"For every record type the bytes written for its RDATA are its length as a big-endian 16-bit count of exactly the bytes that follow, and then its fields in the same order, width and encoding in which the reader of that type takes them. A record written in wire form starts with name, type, class IN, TTL, as the reader expects.",
["inputs"],"all record values of all twelve types","Tests round-trip some types (never A, AAAA, NS, NSEC bitmaps beyond the first block, empty TXT).",
[R,S],[("writers",R+": *::write_u16_len_prefixed_data"),("readers",R+": *::read_from_data"),("RR framing",S+": write_rr, parse_wire_packet_rr")])
p("C17","Record type codes and names agree everywhere",
"Each of the twelve supported record types has its IANA type number, and that number, the parser's choice of variant, the type a record reports, its JSON tag and its mnemonic in type lists all denote the same type. A record of any other type or of a class other than IN is refused by the parser.",
["inputs"],"all 65536 type numbers, all record variants","Tests cover a subset of types and no unsupported one.",
[R,S],[("type constants and dispatch tables",R+": RR::{name,ty,json}, RR::ty_to_rr_name"),("parser dispatch",S+": parse_wire_packet_rr")])
p("C18","RRsets are signed over in canonical order whatever the input order",
"The records of an RRset enter the signed bytes sorted by their wire RDATA as unsigned byte strings (RFC 4034 6.3), for every record type, so the verdict does not depend on the order in which records are supplied. For every record type the total order and the partial order it exposes agree.",
["inputs"],"all RRsets and all permutations of them","One TXT RRset is shuffled in one test; other types and length patterns are not.",
[V,R],[("sort before hashing",V+": verify_rrsig"),("record orders",R+": Txt, NS, ...")])
p("C19","Every domain name value is a valid lower-case name",
"Every name value, however obtained, is non-empty, ends in '.', is at most 255 bytes, has only printable ASCII bytes other than '\"' and '\\', no empty label (except the root itself) and no label over 63 bytes, and is stored in lower case. There is no way to create or change a name around these checks.",
["inputs","programs"],"all strings, all uses of the public API","Tests use a few well-formed names.",
[R],[("validating constructor",R+": TryFrom<String> for Name")])
p("C20","Wire names decode faithfully and with bounded work",
"Decoding a wire name yields its labels in order joined by '.', refusing labels that are not valid text or contain '.', and consumes exactly the name's bytes. Compression pointers are followed only to offsets inside the packet and only a bounded number of times, and a stand-alone proof stream accepts no pointers.",
["inputs"],"all byte strings, pointer loops included","Tests parse uncompressed well-formed names only (compressed ones need the network).",
[S],[("label reader",S+": do_read_wire_packet_labels")])
p("C21","NSEC type bitmaps keep the same bit for the same type everywhere",
"Type t is bit 7-(t mod 8) of byte t/8 of the type set in the constructor, the membership test and the JSON rendering, and byte b of a wire window w is byte 32w+b of the set when read and when written. A wire window longer than 32 bytes is refused.",
["inputs"],"all 65536 types and all bitmaps","Tests build a few low-numbered type sets.",
[R,S],[("bit accessors",R+": NSecTypeMask"),("window codec",S+": read/write_nsec_types_bitmap, nsec_types_bitmap_len")])
p("C22","JSON renderings are well-formed JSON",
"The JSON rendering of any record, and the JSON document produced by the browser wrapper, is syntactically valid JSON for every possible field value and carries the record's own name and a type tag naming its type.",
["inputs"],"all record values","No test renders JSON.",
[R,"wasmpack/src/lib.rs"],[("renderers",R+": StaticRecord::json, NSecTypeMask::write_json"),("document","wasmpack/src/lib.rs: do_verify_byte_stream")])
p("C23","Queries are well-formed DNSSEC queries for the requested name and type",
"Every query built is the 12-byte header (ID 0, RD and AD set, one question, one additional), the question with exactly the requested name and type and class IN, and an EDNS0 OPT record with the DNSSEC-OK bit and no data. Over TCP it is preceded by its exact 16-bit length.",
["inputs"],"all names and types","Query bytes are only exercised against live resolvers, which the test run skips.",
[Q],[("query builder",Q+": build_query"),("TCP framing",Q+": send_query, send_query_async, read_response, read_response_async")])
p("C24","Only clean authenticated responses contribute to a proof",
"A resolver response is used only if its transaction ID is 0, it is a response (QR) to a standard query (opcode 0), not truncated, RCODE is 0, the authenticated-data bit is set, it has exactly one question and at least one answer. Any other response is refused with an error and adds nothing to the proof.",
["inputs"],"all 65536 flag words and all header counts","No offline test feeds a response.",
[Q],[("header checks",Q+": handle_response")])
p("C25","A proof holds every relevant record and asks for every signer's keys",
"From an accepted response the proof gains, in order, every answer record and exactly those authority records that are NSEC, NSEC3 or RRSIGs over them, nothing else. For every signer named by an included RRSIG its DNSKEYs, and unless it is the root its DS set, are queried, once per signer over the whole build.",
["inputs","histories"],"all response sequences","No offline test builds a proof.",
[Q],[("record selection",Q+": handle_response"),("follow-up queries",Q+": ProofBuilder::process_response")],[("dnskeys_requested","signers already asked for",Q)])
p("C26","Proof building is bounded and completes only when complete",
"Every query handed out is counted as made and as pending; one accepted response settles exactly one pending query and a refused one settles none. No query is handed out once more than ten would have been made, and a proof is handed out only when no query is pending and at most ten were made.",
["inputs","histories"],"all sequences of responses","No offline test drives the builder.",
[Q],[("counters",Q+": ProofBuilder")],[("pending_queries, queries_made","outstanding and total queries",Q)])
p("C27","The reported proof TTL is the smallest TTL of the records in it",
"The TTL returned with a proof is the minimum of the TTLs of all records placed in the proof, over all responses.",
["inputs","histories"],"all sequences of responses","No offline test builds a proof.",
[Q],[("TTL merge",Q+": handle_response, ProofBuilder::process_response")])
p("C28","Query buffers behave as byte strings and never panic",
"A query buffer of any length up to 65535, wherever it stores its bytes, reads back exactly the bytes put in it, zero-filled at creation and in append order; its slice views have exactly its length. No operation on it panics, not even appending beyond 65535 bytes in total.",
["inputs","histories"],"all sequences of creations and appends","The switch between inline and heap storage is exercised by network tests only.",
[Q],[("storage switch",Q+": QueryBuf")],[("len, buf, heap_buf","length and two storages",Q)])
p("C29","Each entry point asks for and serves the record type it names",
"The A, AAAA, TXT and TLSA proof builders, synchronous and asynchronous, query the record type they are named after at the name given, and the HTTP server maps its type parameter, case-insensitively, to the matching builder. The synchronous and asynchronous builders drive the proof builder in the same way: send every query handed out, feed every response read, stop on the first error.",
["inputs","configurations"],"all names, all feature configurations","These paths need live resolvers and are skipped.",
[Q,H],[("entry points",Q+": build_*_proof[_async]"),("dispatch",H+": run_server")])
p("C30","The HTTP server survives every client and answers correctly framed",
"No bytes sent by a client, nor a failing accept or socket, can make the server's accept loop end or panic; a handler that answers sends one response, 200 with the proof only after a proof was built for a GET of the proof path under HTTP/1.0 or 1.1 and an error response otherwise. The Content-Length of every response is the length of its body and the cache lifetime of a proof is the TTL the proof builder reported.",
["inputs","fault_sequences"],"all request byte streams and socket errors","Server tests need the network and are skipped; none sends a malformed request.",
[H],[("accept loop and handler",H+": run_server")])
p("C31","Validation and parsing are pure functions of their input",
"Parsing, validating, resolving and encoding depend on nothing but their arguments: no clock, randomness, environment, file, network, thread-local or mutable global state is read or written, and the crate contains no unsafe code.",
["inputs","histories","configurations"],"all call histories and environments","A test cannot show the absence of an effect.",
["src/lib.rs",V,S,R,"src/base32.rs","src/crypto/hash.rs"],[("no_std crate without statics",'src/lib.rs')])
p("C32","Base32hex decoding is exact",
"Decoding maps each base32hex digit (either case) to its five bits, packs them most-significant first into bytes, and refuses any other character, an impossible length, and non-zero leftover bits.",
["inputs"],"all strings","One round-trip test of upper-case, full-length input.",
["src/base32.rs"],[("decoder","src/base32.rs: decode, decode_data")])
p("C33","Key tags follow RFC 4034 Appendix B",
"The key tag of a DNSKEY is the RFC 4034 Appendix B checksum over its RDATA: big-endian 16-bit words of flags, protocol, algorithm and key summed (an odd last byte counting as high byte), plus the carry, modulo 2^16.",
["inputs"],"all DNSKEYs","Tests have a dozen keys, none of odd length.",
[R],[("checksum",R+": DnsKey::key_tag")])
p("C34","The browser wrapper adds nothing to and hides nothing from validation",
"The browser wrapper reports records only from a successful validation of exactly the bytes given, all of them, together with that validation's own validity window and cache lifetime, and an error document otherwise. Its proof building hands out exactly the builder's queries in order, forwards each response unchanged, and yields exactly the builder's proof.",
["inputs","histories"],"all byte strings and call sequences","The wrapper has no tests.",
["wasmpack/src/lib.rs"],[("wrappers","wasmpack/src/lib.rs")])
p("C35","Every correctly signed proof is accepted",
"A proof assembled from genuine DNSSEC data, in any order, for a supported algorithm and with the denial records its wildcards need, is accepted.",
["inputs"],"all genuine proofs","Tests hold a dozen genuine proofs.",
[V],[("validator",V+": verify_rr_stream")])
p("C36","Proof building against a correct resolver yields a valid proof",
"Against a correctly working recursive resolver, building a proof for a signed name and then validating it returns the requested records.",
["histories"],"all zones and resolvers","Needs live resolvers; tests that do this are skipped.",
[Q,V],[("builder and validator",Q)])
with open('/verif/properties.jsonl','w') as f:
    for x in P: 
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
