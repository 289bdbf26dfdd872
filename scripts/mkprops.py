#!/usr/bin/env python3
# generates properties.jsonl (kept as the single editable source of the property texts)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"state":[{"name":n,"meaning":m} for n,m in (state or [])],"observe_at":observe,"hook_needed":None}
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
D="internal/dd/";C="internal/card/";V="internal/vu/";S="internal/security/"
p("P01","Parsing any byte string returns: no panic, hang or runaway memory",
 "For every byte string, parsing it as a tachograph file returns either a parsed file or an error: it never panics, never loops without bound, and allocates memory at most proportional to the input size. The same holds for parsing a single certificate, and for verifying the signatures of whatever was parsed.",
 ["inputs"],"all byte strings: random, truncated at every offset, bit-flipped, length- and count-field mutated, spliced from valid driver-card, vehicle-unit (all three generations) and certificate images",
 "Tests feed a handful of well-formed structures and a few fixed-length error cases; none truncates or mutates whole files, and hostile counts or pointers are never tried.",
 ["unmarshal.go",V+"raw_vehicle_unit_file.go",V+"vehicle_unit_file.go",C+"rawcardfile.go",C+"activity.go",S+"ecc_certificate.go"],
 [("file type detection","unmarshal.go UnmarshalFile"),("VU size calculation",V+"*_gen1.go sizeOf*, "+V+"binary_parsing.go"),("cyclic activity walk",C+"activity.go")],
 ["UnmarshalFile return/panic","VerifyFile return/panic","bytes allocated per call"])
p("P02","Card TLV stream: every record kept in order, exactly once, byte-exact",
 "Reading a card file's TLV stream yields exactly one record per tag-length-value element, in file order, with the element's exact file identifier, generation, data/signature kind, length and value bytes, for every value length up to 65535. Writing such a record list back reproduces the input stream byte for byte. A stream that ends inside an element is rejected with an error instead of being silently shortened.",
 ["inputs"],"all TLV streams over known file ids, appendices 0-3 and value lengths 0..65535, any number and order of elements, and every truncation point of them",
 "Tests read a few fixed streams with tiny values; lengths beyond internal buffer sizes, every truncation point and arbitrary order are not sampled.",
 [C+"rawcardfile.go","unmarshal.go","marshal.go"],
 [("TLV scanner",C+"rawcardfile.go scanCardFile"),("raw record parse/append",C+"rawcardfile.go UnmarshalRawCardFile/AppendRawCardFile")],
 ["parsed raw card records","bytes of marshalled raw card file"])
p("P03","Driver card files survive parse then marshal byte for byte",
 "Parsing a well-formed driver card file and marshalling the result gives back a file containing exactly the same elementary files of both generations, each with byte-identical contents, and with exactly the signatures and certificates that were in the original: none is lost, invented, altered or resized. When the original lists its files in the library's own output order, the output is byte-identical to the input.",
 ["inputs"],"all well-formed driver card images: every subset of elementary files with or without signatures, Gen1-only and dual-generation cards, record counts from 0 to the maxima, any signature length",
 "There is no whole-file round-trip test that can run (real card samples are not in the repository), so multi-file interactions - signatures, generation blocks, ordering, optional files - are not exercised at all.",
 [C+"driver_card_file.go",C+"identification.go",C+"activity.go",C+"events.go","marshal.go"],
 [("driver card assembly",C+"driver_card_file.go UnmarshalDriverCardFile/AppendDriverCard"),("TLV output",C+"driver_card_file.go appendTlv*")],
 ["MarshalFile(UnmarshalFile(x)) compared with x as a TLV multiset and as bytes"])
p("P04","Generation 1 driver card data is decoded to its true field values",
 "Every field of every parsed Generation 1 elementary file (chip and card identification, application identification, holder identity, licence, events, faults, vehicles, places, current usage, control activity, specific conditions, download time) equals the value that the tachograph regulation's layout assigns to the stored bytes. No record is dropped, duplicated, reordered or assigned to another file, and no field that the bytes do not carry is invented.",
 ["inputs"],"all well-formed Gen1 driver card images with random field values across full ranges, and every record count",
 "The package tests assert only that bytes round-trip on a few golden samples; two wrongs (swapped fields in parser and writer) cancel out, and whole-file dispatch is never checked.",
 [C+"driver_card_file.go",C+"identification.go",C+"icc.go",C+"events.go",C+"faults.go",C+"vehicles_used.go",C+"places.go",C+"control_activity.go",C+"current_usage.go"],
 [("per-file parsers",C+"*.go unmarshal*"),("data dictionary parsers",D+"*.go")],
 ["every field of the parsed driver card via reflection"])
p("P05","Generation 2 driver card data is decoded to its true field values",
 "Every field of every parsed Generation 2 elementary file (application identification v1/v2, holder identity, vehicles with VIN, places with GNSS position, GNSS accumulated driving, vehicle units used, specific conditions, and the files shared with Generation 1) equals the value that the regulation's layout assigns to the stored bytes and is reported under the Generation 2 application. Data and signatures of one generation never appear under, overwrite or get lost to the other.",
 ["inputs"],"all well-formed dual-generation driver card images with random field values and record counts, with the two generations' files interleaved in any order",
 "Gen2 files have at most golden byte round trips for single structures; no test parses a dual-generation card and looks at where the data lands.",
 [C+"driver_card_file.go",C+"application_identification_g2.go",C+"application_identification_v2.go",C+"vehicles_used_g2.go",C+"places_g2.go",C+"gnss_places.go",C+"vehicle_units_used.go",C+"specific_conditions_g2.go"],
 [("generation dispatch",C+"driver_card_file.go"),("gen2 record parsers",C+"*_g2.go, "+D+"*_g2.go")],
 ["every field of the parsed driver card via reflection"])
p("P06","Driver activity ring buffer: every stored day, once, in time order",
 "For every cyclic activity buffer reached by a card's write history, parsing reports exactly the daily records currently stored in it, each exactly once, from oldest to newest, with its date, lengths, presence counter, distance and activity changes intact, including records that wrap around the end of the buffer. A daily record whose content cannot be decoded is reported as not valid with its raw bytes, and the file still marshals back to the same bytes. A damaged record chain ends in an error or in a shorter list, never in a loop, in a record reported twice or in records overlapping each other, whatever the pointers and lengths say.",
 ["histories","inputs"],"all write histories (append day, overwrite oldest, wrap at any byte offset) over buffers of any length, plus arbitrary corruption of pointers, lengths and record bytes",
 "Tests use one golden buffer and hand-written short ones; where records wrap, overwrite older ones or carry corrupt back-pointers depends on the whole write history.",
 [C+"activity.go",D+"activity_change_info.go"],
 [("cyclic iterator",C+"activity.go CyclicRecordIterator"),("daily record parser",C+"activity.go")],
 ["daily records of the parsed file","bytes after marshal"],
 [("oldest/newest pointers","byte offsets of first and last daily record in the ring")])
p("P07","Vehicle unit downloads are split, classified and kept byte-exact",
 "A vehicle unit download is split into exactly the transfers it contains: the generation and version follow the transfer types present, each transfer appears once, in order, under its own kind, and its preserved raw bytes and signature equal the original bytes. A download cut off inside a transfer, containing an unknown transfer type, or mixing transfers of different generations is rejected with an error. Marshalling a parsed vehicle unit file either reports an error or gives back the original bytes, never something else.",
 ["inputs"],"all sequences of well-formed Gen1, Gen2 v1 and Gen2 v2 transfers with any record counts, plus truncation at every offset, foreign transfers and unknown types",
 "The VU package has no runnable tests: its sample files are absent from the repository.",
 [V+"raw_vehicle_unit_file.go",V+"vehicle_unit_file.go",V+"binary_parsing.go",V+"overview_gen1.go",V+"activities_gen1.go",V+"events_faults.go",V+"technical_data.go",V+"detailed_speed.go"],
 [("transfer scanner",V+"raw_vehicle_unit_file.go"),("generation/version decision",V+"vehicle_unit_file.go"),("size calculators",V+"sizeOf*")],
 ["UnmarshalFile result fields and raw bytes","UnmarshalFile errors","MarshalFile result"])
p("P08","Generation 1 vehicle unit overview and activities decode to true values",
 "Every field of a parsed Generation 1 vehicle unit overview (certificates, VIN, registration, times, downloadable period, inserted cards, last download, company locks, controls, signature) and of each daily activities transfer (date, odometer, card insertion/withdrawal records, activity changes, places, specific conditions, signature) equals the value that the regulation's layout assigns to the bytes. Record lists have exactly the counted records, in order.",
 ["inputs"],"all well-formed Gen1 overview and activities transfers with random field values and record counts",
 "No VU test runs in the repository; the decoders have never been compared with the layout.",
 [V+"overview_gen1.go",V+"activities_gen1.go",D+"vu_card_iw_record.go",D+"full_card_number.go",D+"previous_vehicle_info.go"],
 [("overview decoder",V+"overview_gen1.go"),("activities decoder",V+"activities_gen1.go")],
 ["every field of the parsed VU file via reflection"])
p("P09","Data dictionary record codecs: serialise after parse is the identity",
 "For every data dictionary record type, parsing bytes and serialising the result gives back exactly the bytes parsed whenever both succeed and the bytes are valid for the type; serialised output always has the type's fixed length; and a record built from field values in range is read back with those same values. Inputs of the wrong length are rejected.",
 ["inputs"],"all 2-byte domains exhaustively, every 1-byte domain exhaustively, stratified random values of every wider record type, all wrong lengths near the right one",
 "Tests check selected examples per type; the domains are thousands to 2^1000 values wide.",
 [D+"*.go"],[("dd Unmarshal*/Append* pairs",D+"*.go")],["bytes out vs bytes in","fields out vs fields in"])
p("P10","Text fields decode by their code page and never yield invalid text",
 "A text field is decoded with the character set named by its code page byte (ISO 8859 parts 1, 2, 3, 5, 7, 9, 13, 15, 16, KOI8-R, KOI8-U; IA5 for plain fields), with padding removed, and the result is always valid UTF-8. A text value produced by parsing is written back byte-exactly, and a text value supplied by the user as characters reads back as the same characters after writing, in the declared code page, or is rejected when it does not fit.",
 ["inputs"],"every byte value under every code page byte 0..255, every field length used, all padding patterns, all representable strings",
 "Tests cover a few Latin-1 names; the 256x256 code-page table, padding combinations and non-Latin pages are not covered.",
 [D+"string_value.go",D+"ia5_string_value.go"],[("code page tables",D+"string_value.go"),("trim and validation",D+"string_value.go, "+D+"ia5_string_value.go")],
 ["decoded value, encoding, length, raw bytes","serialised bytes"])
p("P11","Edited fields take effect in the marshalled file, and only those fields",
 "When a parsed driver card is edited through its fields (text by setting the value and clearing its preserved raw bytes, as the schema documents) and marshalled, the edited values are the ones found when the output is parsed again, and every field that was not edited keeps its value. Reserved or padding bytes preserved from the original never override an edited value. The same holds when records are added, removed, repeated or reordered (days and their activity changes once the preserved bytes of their store are cleared): the rewritten store is a sound chain of exactly the days it was given, undecodable ones included.",
 ["inputs","histories"],"all parsed cards and all in-range single-field edits and short edit sequences over the editable scalar fields and record lists of every elementary file",
 "The raw-bytes-as-canvas strategy can let stale bytes win over edited fields; tests only marshal unedited structures.",
 [D+"controltype.go",D+"activity_change_info.go",D+"string_value.go",D+"date.go",D+"place_record.go",C+"places.go",C+"vehicles_used.go",C+"identification.go",C+"activity.go"],
 [("raw data painting",D+"*.go Append*"),("file writers",C+"*.go append*")],
 ["Unmarshal(Marshal(edited)) compared field by field with edited"])
p("P12","Parsed results are deterministic and independent of the caller's buffers",
 "Parsing never modifies its input, and a parsed file never changes when the caller later reuses or overwrites the input buffer, parses other files, or marshals it; verifying it changes nothing but the verification results recorded on its certificates. Parsing the same bytes again gives an equal result, marshalling the same file twice gives equal bytes, and marshalling does not modify the file.",
 ["inputs","histories"],"all parsed files (driver card both generations, raw card, vehicle unit) and any sequence of later buffer overwrites, parses, marshals and verifications",
 "Tests parse once from a private buffer and never touch it again, so aliasing and hidden state cannot show.",
 [C+"rawcardfile.go",C+"events.go",C+"faults.go",C+"vehicle_units_used.go",V+"raw_vehicle_unit_file.go",D+"*.go"],
 [("slice retention",C+"*.go, "+V+"*.go, "+D+"*.go")],
 ["parsed message before/after overwriting the input","input bytes before/after"])
p("P13","Certificate signatures verify exactly when cryptographically genuine",
 "Verifying a certificate succeeds for every certificate genuinely signed by the given authority's private key (RSA per ISO 9796-2 with SHA-1, ECC with ECDSA on the regulation's brainpool and NIST curves and matching hash) and reports its true holder, authority, validity and public key. It fails, and never leaves the certificate marked valid, when any bit of the signed content or signature was changed, the key is another authority's, the authority reference does not match, or the key material is malformed; it never panics.",
 ["inputs"],"freshly generated key pairs and certificates on every supported curve and RSA chain, every single-bit flip of them, wrong authorities, degenerate signatures and keys",
 "Tests verify a few embedded real certificates and a couple of corruptions on one curve.",
 [S+"rsa_verify.go",S+"ecc_verify.go",S+"rsa_certificate.go",S+"ecc_certificate.go",S+"root_certificate.go"],
 [("ISO 9796-2 recovery",S+"rsa_verify.go"),("ECDSA verification and curve choice",S+"ecc_verify.go")],
 ["verification error and signature_valid after each call"])
p("P14","File verification succeeds only if every certificate present verifies",
 "Verifying a driver card file returns success only if each generation's card certificate present was verified against the authority certificate it names, obtained from the configured resolver or the file itself, and then every certificate reported as valid really is. A missing certificate, an unresolvable authority, or a certificate not signed by that authority makes it fail, and no certificate is left marked valid after a failed check of it. Verifying a vehicle unit or raw card file, which is documented as not implemented, never marks anything valid.",
 ["inputs","fault_sequences"],"all combinations of generations present, certificates genuine/forged/missing, and resolver outcomes (right, wrong authority, error, absent)",
 "Tests cover only the real embedded certificates with one resolver outcome each; forged chains need generated keys.",
 ["verify.go",C+"driver_card_file.go",V+"vehicle_unit_file.go","cert.go"],
 [("verify entry","verify.go VerifyFile"),("card chain",C+"*Verify*"),("VU chain",V+"*Verify*")],
 ["VerifyFile error","signature_valid flags","resolver calls with their references"])
p("P15","Certificate lookup returns the certificate asked for, or an error",
 "Looking up an authority certificate by reference returns exactly the certificate that the first source able to serve that reference lists for it, trying the sources in the configured order, falling through to the next source only on failure, and reports an error when no source has it. Every certificate held in the embedded store is found by its holder reference without network access, and a remote error response, unreachable server or malformed body is reported as an error.",
 ["inputs","fault_sequences","configurations"],"all references held by the embedded store and listed in its index, of both generations, unknown references, resolver chains of any length with every success/failure pattern, and every server response (status, truncated, empty, wrong body)",
 "No test covers lookup; embedded-store lookup has never been run and network faults cannot be sampled without a server.",
 ["cert.go","internal/cert/chain.go","internal/cert/client.go","internal/cert/embedded.go","internal/cert/certcache/embed.go"],
 [("chain","internal/cert/chain.go"),("embedded store","internal/cert/certcache"),("HTTP client","internal/cert/client.go")],
 ["returned certificates/errors","log of resolver calls and HTTP requests"])
p("P16","Concurrent parse, marshal and verify are race-free and unaffected",
 "Any number of goroutines may parse, marshal and verify files at the same time, including marshalling or reading the same parsed file and sharing resolvers and option values, without data races. Each call returns exactly what it returns when run alone.",
 ["schedules"],"goroutine schedules of mixed parse/marshal/verify/lookup workloads over shared inputs, shared parsed files, shared resolvers, with the race detector watching",
 "No test starts a goroutine.",
 ["unmarshal.go","marshal.go","verify.go","internal/cert/*.go",D+"enum.go"],
 [("shared package state","internal/cert/certcache, internal/cert/root.go, "+D+"enum.go")],
 ["race detector reports","per-call result digests vs sequential digests"])
p("P17","Anonymised data carries no personal content yet stays structurally intact",
 "Anonymising a card identification, place list or vehicle list, or a single place, GNSS, vehicle, driver identification or activity record, yields a result that does not depend on the personal values of the original: names, addresses, issuing authority, card numbers, card dates, birth date, registration plates, coordinates, place countries and regions and, for the card-level lists and for vehicle and activity records, absolute times. Two inputs that differ only in those give identical output, retained raw bytes included. Everything else is kept: record counts and order, entry types, issuing and registering countries, languages, and odometer readings to within the documented rounding. The input is not modified, anonymising the result again changes nothing, and the result can be marshalled and parses back to itself.",
 ["inputs"],"all pairs of parsed records agreeing on structural fields and differing arbitrarily in personal ones",
 "Tests look at one golden sample; independence from an input is a property of pairs of executions.",
 [C+"identification.go",C+"places.go",C+"places_g2.go",C+"vehicles_used.go",D+"place_record.go",D+"card_vehicle_record.go",D+"driver_identification.go",D+"gnss_place_record.go"],
 [("anonymisers",C+"Anonymize*, "+D+"Anonymize*")],
 ["anonymised messages of paired inputs","serialised anonymised bytes"])
p("P18","Every parsed file is a valid, fully serialisable data model",
 "Whatever bytes were accepted, the parsed file can be encoded to and decoded from both the binary protobuf form and protobuf JSON without error or loss, so all text is valid UTF-8 and all times are representable. Its fields agree with each other: lengths match the bytes they describe, validity flags match the presence of decoded versus raw content, and unrecognised codes are marked as unrecognised with the original code kept.",
 ["inputs"],"all accepted inputs: generated cards and downloads with arbitrary text bytes, codes, times and mutated contents",
 "Tests compare a few messages and never serialise parsed files with hostile text or codes.",
 ["unmarshal.go",D+"*.go",C+"*.go",V+"*.go"],
 [("text sanitising",D+"string_value.go"),("unrecognised code handling",D+"place_record.go, "+D+"specific_condition_record.go")],
 ["proto.Marshal/protojson of parsed files and their re-parse"])
p("P19","The parse command prints exactly the parsed files, or fails",
 "For each file named on its command line, in order, the parse command prints one JSON document that decodes to exactly the parsed form of that file. It exits with status 0 only if every file was read and parsed; otherwise it reports the error on standard error, exits nonzero, and prints no document for the failing file.",
 ["inputs","configurations"],"all lists of zero or more files that are valid cards, vehicle unit downloads, malformed, empty, unreadable or missing, in any order",
 "The command has no tests.",
 ["cmd/tachograph/main.go"],[("parse command","cmd/tachograph/main.go")],["stdout, stderr, exit status of the built command"])
p("P20","Card files are typed by their contents; none are misread as driver cards",
 "A card file is reported as a driver card exactly when the elementary files it contains are all ones a driver card has; any other card file (workshop, company, control, or one with files unknown for every card) is reported as a raw card file preserving all its records. Input that is neither a card nor a vehicle unit download is rejected with an error, and the result always carries the content matching its declared type.",
 ["inputs"],"all sets of known elementary files of every card type, with signatures, in any order, plus arbitrary first bytes",
 "Tests try a couple of example file lists; the set of subsets is exponential.",
 ["unmarshal.go",C+"infer.go",C+"rawcardfile.go"],[("type inference",C+"infer.go"),("dispatch","unmarshal.go")],["declared type and populated content of the parsed file"])
p("P21","Marshal is total: an error, or a well-formed file that parses back",
 "For every file value, marshalling returns an error or bytes; it never panics or hangs and does not change the file. Returned bytes are a well-formed sequence of file elements whose lengths match their contents. When one value of a parsed driver card (that has its chip identification file) is replaced, cleared, added or repeated, the marshalled card parses again, and a value that was set reads back as it was set, up to padding: numbers, times, codes, texts and bytes that their fields cannot hold are rejected, not truncated, wrapped or silently dropped.",
 ["inputs"],"all parsed files, then with fields cleared, set out of range, lists grown past their limits and messages removed",
 "Tests marshal only what was just parsed; half-filled, empty and out-of-range models are never marshalled.",
 ["marshal.go",C+"driver_card_file.go",C+"*.go",D+"*.go"],[("marshal entry","marshal.go"),("writers",C+"append*, "+D+"Append*")],["MarshalFile error/bytes/panic","reparsed fields"])
p("P22","The certificate fetch tool builds a consistent cache from its sources",
 "After the certificate fetching tool finishes successfully, its cache directory holds the root key, one file per distinct valid certificate served, stored byte-exactly under the certificate holder's identity in its generation, and an index listing exactly those certificates in deterministic order with correct countries. Certificates that could not be downloaded, parsed, verified with the root key (first generation) or stored are left out of both, stale files of an earlier run are gone, and the outcome does not depend on concurrency.",
 ["schedules","fault_sequences","configurations"],"all mixes of successful, failing, slow, malformed and duplicate certificate responses, with concurrency 1 to many, over a previously filled cache directory",
 "The tool has no tests; ordering and partial failure of parallel downloads cannot be sampled by unit tests.",
 ["tools/cmd/fetch-certs/main.go"],[("concurrent download and index","tools/cmd/fetch-certs/main.go")],["files in the output directory","request log of the stub server"])
p("P23","Damage is contained: altered bytes change only the part they belong to",
 "When bytes of one part of a well-formed driver card file or vehicle unit download are altered (an elementary file's content or signature, one record of a record list, one transfer's signature or records), without touching the tags, lengths and counters that delimit parts, parsing either reports an error or reports every other part exactly as without the alteration: no other file, record, signature or transfer is lost, shifted, replaced or reinterpreted. The same holds for the other files of a card when one file is removed or has another length.",
 ["inputs","fault_sequences"],"all well-formed driver cards and vehicle unit downloads, every part of them, and every alteration of its bytes, with removal and resizing for card files",
 "Tests parse intact samples of single structures; whether a damaged record or file leaks into its neighbours depends on the pair of part and damage.",
 [C+"driver_card_file.go",C+"*.go",V+"activities.go",V+"activities_gen1.go",V+"overview_gen1.go",V+"vehicle_unit_file.go"],
 [("per-file dispatch",C+"driver_card_file.go"),("record loops",C+"*.go, "+V+"*_gen1.go")],["every field of the parsed files before and after the alteration"])
p("P24","Lookups obey their context, errors keep their cause, nothing is left behind",
 "Certificate lookups and file verification run under the context they are given: every certificate source and every request sees its values, deadline and cancellation, and once it is cancelled or out of time the call ends with an error. An error caused by the context or by a certificate source still identifies that cause (errors.Is). Whatever the outcome, the body of every response received is closed and no goroutine or open file stays behind; and however many different inputs are parsed, marshalled, verified or looked up, none of the memory they took stays in use once their results are dropped.",
 ["inputs","fault_sequences","histories"],"all lookups and verifications under cancelled, expiring and live contexts against sources that serve, refuse, redirect, stall or break at any point, and all long histories of calls on different inputs",
 "Tests make single successful calls with a background context; a leak or a lost cancellation shows only under faults or after thousands of calls.",
 ["internal/cert/client.go","internal/cert/chain.go","internal/cert/embedded.go","verify.go",C+"driver_card_file.go"],
 [("HTTP lookup","internal/cert/client.go"),("source chain","internal/cert/chain.go"),("verification","verify.go, "+C+"driver_card_file.go")],
 ["contexts seen by sources and requests","returned errors","closing of response bodies","goroutines, open files and live heap after many calls"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
