#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run by hand; both are committed."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TESTS = "The tests decode one fixed repository (about 60 objects made by one script), a few person lines and three malformed inputs. "


def P(id, title, statement, over, text, why, files, mech, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                technique=technique, note=note)


L = [
P("C01", "Commits survive decode and encode byte for byte, with git's hash as CID",
  "Decoding a well-formed commit whose headers stand in the order git writes them (tree, parents, author, committer, encoding, merge tags, PGP signature, other headers such as SSH signatures, blank line, message) and encoding the result gives exactly the original bytes, whatever the lengths and bytes of its parts and whichever optional parts are absent. The CID computed for the decoded node is therefore the one made from git's own hash of the object.",
  ["inputs"], "every commit git can write in its own header order: any number of parents, merge tags and other headers, any message bytes, any line lengths",
  TESTS + "They contain few optional headers, no header line near a buffer boundary and no unusual bytes.",
  ["commit.go", "tag.go", "personinfo.go", "helper.go", "marshal.go"],
  [("line-by-line header decoding", "commit.go: DecodeCommit, decodeCommitLine, decodeGpgSig"), ("merge tag decoding with its own end condition", "tag.go: readMergeTag"), ("re-serialisation with computed size", "commit.go: encodeCommit")],
  ["ParseObject then Encode", "LinkSystem.ComputeLink"],
  "property-based testing: model-generated commits, byte round trip and hash oracle",
  "Random search over model-generated commits with heavy-tailed counts and lengths, source-derived dictionary tokens and buffer-boundary sizes; exact oracle (bytes and SHA-1). Trusts the model's serialiser; known lossy inputs are listed in KNOWN_FINDINGS.txt."),
P("C02", "Trees survive decode and encode byte for byte, with git's hash as CID",
  "Decoding a tree with any number of entries, in any order, with distinct names of any bytes but NUL and any modes without spaces, and encoding the result gives exactly the original bytes: entry order, mode spelling and binary hashes are kept. The CID computed for the decoded node is the one made from git's own hash of the object.",
  ["inputs"], "every tree of distinct names, from none to thousands of entries, in any order",
  TESTS + "Their trees have few entries, ASCII names and the usual modes.",
  ["tree.go", "helper.go", "marshal.go"],
  [("entry-by-entry decoding into an ordered map", "tree.go: DecodeTree, DecodeTreeEntry"), ("re-serialisation", "tree.go: encodeTree, encodeTreeEntry")],
  ["ParseObject then Encode", "LinkSystem.ComputeLink"],
  "property-based testing: model-generated trees, byte round trip and hash oracle",
  "Random search over generated trees of up to thousands of entries with adversarial names and modes; exact oracle."),
P("C03", "Tags survive decode and encode byte for byte, with git's hash as CID",
  "Decoding an annotated tag with object, type and tag headers, an optional tagger and an optional non-empty message, and encoding the result gives exactly the original bytes, whatever bytes and lengths its parts have. No header is invented, lost or altered, and the CID computed for the decoded node is the one made from git's own hash.",
  ["inputs"], "every tag with git's headers in git's order, with and without tagger and message",
  TESTS + "Their tags all have a tagger and a short message.",
  ["tag.go", "personinfo.go", "helper.go", "marshal.go"],
  [("header decoding", "tag.go: DecodeTag"), ("re-serialisation with optional tagger and message", "tag.go: encodeTag")],
  ["ParseObject then Encode", "LinkSystem.ComputeLink"],
  "property-based testing: model-generated tags, byte round trip and hash oracle",
  "Random search over generated tags; exact oracle. Known lossy inputs are listed in KNOWN_FINDINGS.txt."),
P("C04", "Blobs of any content survive unchanged, with git's hash as CID",
  "A blob of any size and content, empty and binary ones included, decodes to a bytes node holding the complete object with its header, and encodes to exactly the same bytes. The CID computed for it is the one made from git's own hash of the object.",
  ["inputs"], "every blob content: any bytes, sizes from 0 to megabytes, around buffer boundaries",
  TESTS + "Their blobs are short text files.",
  ["blob.go", "helper.go", "marshal.go"],
  [("reading exactly the declared number of bytes and restoring the header", "blob.go: DecodeBlob"), ("passing the bytes through", "blob.go: encodeBlob")],
  ["ParseObject then AsBytes and Encode", "LinkSystem.ComputeLink"],
  "property-based testing: generated contents, byte round trip and hash oracle",
  "Random search over contents up to 2 MiB with sizes at buffer boundaries; exact oracle."),
P("C05", "A decoded commit's fields are exactly what the object says",
  "The fields of a decoded commit (tree, parents in order, author, committer, encoding, signature text, merge tags with all of their parts, other headers in order, message) have exactly the values written in the object. Optional fields that the object lacks are absent, and no header's content ends up in another field, however the headers are combined.",
  ["inputs"], "every combination, number, order and content of commit headers, by each way of decoding",
  TESTS + "A test that only re-encodes cannot notice content that sits in the wrong field but is written back at the same place.",
  ["commit.go", "tag.go", "personinfo.go", "ipldsch_satisfaction.go"],
  [("dispatch on header prefixes", "commit.go: decodeCommitLine"), ("merge tag fields", "tag.go: readMergeTag"), ("signature text", "commit.go: decodeGpgSig")],
  ["data model reads of the decoded node"],
  "property-based testing: field-by-field comparison with a reference model",
  "Random search with a model that knows every field of the object it serialised; each entry point; exact comparison including key order and absence."),
P("C06", "Decoded tags, trees and blobs have exactly the fields of the object",
  "A decoded tag has the object link, type, name, tagger parts and message written in it; a decoded tree has, in the order of the object, exactly its entries with their names, modes and hashes; a decoded blob is the object's bytes. This holds for every content, entry count, order of a tag's headers and way of decoding.",
  ["inputs"], "every tag, tree and blob, by each way of decoding",
  TESTS + "They look at a handful of fields of a few objects.",
  ["tag.go", "tree.go", "blob.go", "personinfo.go", "ipldsch_satisfaction.go"],
  [("tag headers", "tag.go: DecodeTag"), ("tree entries", "tree.go: DecodeTreeEntry"), ("blob bytes", "blob.go: DecodeBlob")],
  ["data model reads of the decoded node"],
  "property-based testing: field-by-field comparison with a reference model",
  "Random search with exact comparison against the model, including entry order."),
P("C07", "Person lines split and rejoin exactly for every name, email and date",
  "In every author, committer and tagger line, also within merge tags, of the form name, email in angle brackets, and optionally date and timezone, the four parts are read exactly as written (inner, leading and trailing spaces of names, empty parts and any bytes but angle brackets and line ends included). Writing the parts back gives the original line.",
  ["inputs"], "every name, email, date and timezone in the three forms git has, in each place a person line occurs",
  "The test table has 14 person lines; the parser is a hand-written state machine over words, whose cases depend on runs of spaces and empty parts.",
  ["personinfo.go", "commit.go", "tag.go"],
  [("word-wise state machine", "personinfo.go: parsePersonInfo"), ("writing back", "personinfo.go: GitString")],
  ["fields of the decoded node", "GitString", "ParseObject then Encode"],
  "property-based testing: generated person lines against a model, with round trip",
  "Random search over adversarial spacing and bytes in four positions; exact oracle. Known lossy forms outside the stated ones are in KNOWN_FINDINGS.txt."),
P("C08", "Links and git hashes correspond one to one; other links are refused",
  "Every hash in an object (tree, parents, merge tag and tag targets, tree entries) is exposed as the version 1, git-raw, SHA-1 CID of exactly those 20 bytes, and is written back as those bytes. A node holding a link that is no 20-byte SHA-1 (another hash function, another digest length, an undefined or foreign link) cannot be encoded: encoding fails with an error and never writes another hash or a malformed object.",
  ["inputs"], "every hash value in every position, and every kind of unfit link in every position and form of node",
  TESTS + "They never encode a link that was not decoded.",
  ["util.go", "commit.go", "tag.go", "tree.go"],
  [("hash to CID", "util.go: shaToCid"), ("CID to hash with its checks", "util.go: cidToSha, sha")],
  ["link targets of decoded nodes", "Encode of built nodes"],
  "property-based testing: byte-level CID oracle and generated unfit links",
  "Random search; CID bytes are built by the check, independently of the CID library; unfit links in typed, representation and untyped nodes."),
P("C09", "A repository stored and loaded through a link system reads like git's",
  "Objects of any repository graph stored through an IPLD link system get the CIDs git gives them and load again as the same nodes, as the type they are or as untyped data, and fail to load as another type. Any path across links (from tag to commit to tree to blob, along parents, merge tags and directory names) leads to exactly the value git's objects define, or fails if git's objects have nothing there, and walking everything visits exactly the reachable objects; repositories written by git itself agree.",
  ["inputs", "histories"], "every repository graph and every path and walk over it",
  TESTS + "No test stores objects, follows a link or walks a path.",
  ["init.go", "ipldsch_satisfaction.go", "ipldsch_minima.go", "unmarshal.go", "marshal.go", "util.go"],
  [("codec registration", "init.go"), ("generated node lookups and link nodes", "ipldsch_satisfaction.go"), ("prototype choice on decode", "unmarshal.go: Decode")],
  ["LinkSystem.Store and Load", "traversal.Get, Focus and WalkAdv", "git hash-object and cat-file"],
  "model-based testing of generated repositories, with git as differential oracle",
  "Generated repositories of some dozens of objects, random paths, complete walks; a smaller number of repositories is written and read by the installed git."),
P("C10", "Decoding arbitrary bytes never crashes and what it accepts is usable",
  "Decoding any sequence of bytes, however malformed, returns either a node or an error, never both or neither, and never panics, whichever of this package's builders it is decoded into. Every node it returns can be read completely and encoded, and the encoding is a well-framed object of the same type that is accepted again.",
  ["inputs"], "every byte string",
  "Three malformed inputs are tested; a decoder of untrusted blocks faces all of them.",
  ["unmarshal.go", "helper.go", "commit.go", "tag.go", "tree.go", "blob.go", "personinfo.go"],
  [("checks before slicing and indexing", "commit.go, tag.go, personinfo.go"), ("error returns throughout", "all decoders")],
  ["ParseObject, Encode"],
  "fuzzing: structure-aware mutation of valid objects with totality invariants",
  "Mutants of generated objects with a dictionary taken from the source; invariants rather than a full oracle. Panics and runtime crashes are violations."),
P("C11", "Decoding and encoding need memory proportional to the input, and end",
  "The memory that decoding any input and encoding its result allocate is bounded by a constant factor of the input's length plus a constant, whatever size the object claims and however many headers, lines, entries or merge tags it has. Both always terminate, without exhausting the stack.",
  ["inputs"], "every input, in particular lying sizes and long runs of any one element",
  "The test objects are all small and tell the truth about their size.",
  ["blob.go", "commit.go", "tag.go", "tree.go", "helper.go", "personinfo.go"],
  [("reading a blob with a limit instead of allocating its declared size", "blob.go: DecodeBlob"), ("builders instead of repeated concatenation", "commit.go: decodeGpgSig, tag.go: readMergeTag"), ("iteration over merge tags", "commit.go: DecodeCommit")],
  ["bytes allocated during ParseObject, ParseCompressedObject and Encode", "watchdog on time and memory"],
  "property-based testing: scaled shapes and lying sizes against an allocation bound",
  "26 shapes up to 8 MB; the bound (400 times the input plus 1 MiB) is several times what the code needs and far below what quadratic growth costs; time only by a 90 s watchdog."),
P("C12", "All ways of decoding agree, however the input is chunked",
  "Parsing from a reader, from memory, from a block or compressed, decoding into typed, representation or untyped builders, the registered codec and the decoders of the single types give the same result for the same object: all reject it, or all accept it with equal content and encoding. The result does not depend on how the reader splits the bytes, and reading a tree entry by entry gives the entries of the whole tree.",
  ["inputs", "schedules"], "every object, valid or not, every entry point and every chunking of the reader",
  "Each test uses one entry point with a file or a buffer that gives all bytes at once.",
  ["unmarshal.go", "helper.go", "init.go", "tree.go"],
  [("shared dispatch", "unmarshal.go: Decode, ParseObject"), ("wrappers", "helper.go: DecodeBlock, ParseCompressedObject, ParseObjectFromBuffer"), ("registration", "init.go")],
  ["results of 15 entry points"],
  "property-based testing: differential between entry points and chunkings",
  "Differential oracle over generated objects and mutants with adversarial chunkings and small read buffers."),
P("C13", "Read, write and compression faults always surface as errors",
  "When the reader fails before the object has been read, decoding ends with that error (wrapped at most); when the writer fails, for good or once, encoding ends with that error, having written nothing but a prefix of the object; a node of which some part cannot be read is never encoded as another object. An object cut short within its header, a hash, a tree entry, a signature, a merge tag or a blob's content is rejected, as is a compressed object whose zlib stream is truncated or fails its checksum.",
  ["fault_sequences", "inputs"], "every object, every position of the fault in reader, writer or node, lasting or transient, with errors delivered alone or with data, every chunking",
  "No test injects a fault.",
  ["commit.go", "tag.go", "tree.go", "blob.go", "helper.go", "marshal.go"],
  [("error propagation from every read", "all decoders"), ("error propagation from every write", "all encoders"), ("reading the compressed stream to its end", "helper.go: ParseCompressedObject"), ("end within an entry is no end", "tree.go: DecodeTreeEntry")],
  ["ParseObject, ParseCompressedObject, Decode, Encode with failing readers and writers"],
  "fault injection at every byte offset of generated objects",
  "For each generated object up to 3000 bytes every fault offset is tried (sampled above 200); damaged compressed streams are compared with the standard library's verdict."),
P("C14", "Malformed objects are rejected with an error",
  "An object with an unknown type, a missing or non-numeric size, a blob shorter than its size, a negative size, a hash with wrong digits or length, a person line without an email, a signature without end, a tree that ends within an entry or repeats a name, a commit without a tree or a tag without an object is rejected with an error by every entry point. No node is returned for it.",
  ["inputs"], "every object with one such defect at any place, among otherwise valid content",
  "Three malformed inputs are tested.",
  ["unmarshal.go", "helper.go", "commit.go", "tag.go", "tree.go", "blob.go", "personinfo.go", "util.go"],
  [("type and size checks", "unmarshal.go, helper.go: readNullTerminatedNumber"), ("hash checks", "commit.go, tag.go, util.go"), ("required headers", "commit.go: DecodeCommit, tag.go: DecodeTag"), ("repeated names", "generated tree builder")],
  ["ParseObject, ParseCompressedObject, Decode"],
  "property-based testing: generated objects with one planted defect",
  "Random choice of defect, place and surrounding object; the oracle is rejection."),
P("C15", "Objects built in memory encode to the object git would write",
  "A commit, tag, tree or blob assembled through the typed or the representation builders, with its fields in any order and by any means of assembly, encodes to exactly the bytes git's format prescribes for those fields. Decoding these gives the same fields back, reused builders give what fresh ones give, and assembling one object never affects another.",
  ["inputs", "programs"], "every object and every sequence of builder calls that assembles it",
  "No test builds a node other than by decoding.",
  ["ipldsch_satisfaction.go", "ipldsch_minima.go", "marshal.go", "commit.go", "tag.go", "tree.go", "blob.go"],
  [("generated assemblers", "ipldsch_satisfaction.go"), ("encoders", "encodeCommit, encodeTag, encodeTree, encodeBlob")],
  ["Encode of built nodes"],
  "property-based testing: random assembly programs against the model's serialiser",
  "Random field orders, ways of assembling keys and values, size hints and builder reuse; exact byte oracle."),
P("C16", "Every form of a git node encodes alike; nodes that are none are refused",
  "A commit, tag or blob encodes to the same bytes whether given as decoded node, representation, or untyped copy with its entries in any order (a tag without tagger also without that entry or with null), also after passing through DAG-JSON or DAG-CBOR; a tree does so as decoded node and representation. A node that is no git object (another kind, missing or unknown parts, parts of the wrong kind at any depth) is refused with an error, never encoded or crashed on.",
  ["inputs", "programs"], "every object in every form, and every untyped node of another shape",
  "No test encodes anything but what it decoded.",
  ["marshal.go", "commit.go", "tag.go", "tree.go", "blob.go", "ipldsch_satisfaction.go"],
  [("dispatch on kind and entries", "marshal.go: Encode"), ("conversion of other nodes", "commit.go: toCommit, tag.go: encodeTag")],
  ["Encode, ipld.Encode, registered encoder"],
  "property-based testing: metamorphic relation between node forms, generated misfits",
  "Random objects in up to 10 forms each; random misfits at any depth. Tags are read leniently by design (an unknown entry is passed over), which is not claimed."),
P("C17", "Nodes read the same through every part of the node interface",
  "For every node of a git object, at every depth, typed and as representation, all ways of reading agree with its content: kind, length, iteration, lookup by string, node, segment and index, scalar accessors, typed accessors, deep equality and copies through its own prototype. A read that does not fit the node gives an error and no value.",
  ["inputs", "programs"], "every object and every read of it",
  "The tests call a few lookups on a few nodes of generated code that has thousands of lines.",
  ["ipldsch_satisfaction.go", "ipldsch_minima.go", "ipldsch_types.go", "personinfo.go"],
  [("generated node methods", "ipldsch_satisfaction.go")],
  ["datamodel.Node and schema.TypedNode methods"],
  "property-based testing: exhaustive reads of generated objects against the model",
  "Every read at every depth of each generated object against the model's value; known panics (negative index, foreign key node) are in KNOWN_FINDINGS.txt."),
P("C18", "Typed builders accept exactly the values of their type",
  "Building a value of any of the schema's types field by field succeeds, through the type's and the representation's builder, for every value that fits, in any order, and yields that value. It fails with an error for every value with a missing, unknown or repeated field or a part of the wrong kind, at any depth, and no partly filled node passes as complete.",
  ["inputs", "programs"], "every value of the 14 types and every one-defect variation, with every way of assembly",
  "No test uses a builder directly.",
  ["ipldsch_satisfaction.go", "ipldsch_minima.go", "ipldsch_types.go"],
  [("generated assemblers with their state machines", "ipldsch_satisfaction.go")],
  ["NodeBuilder and assembler methods"],
  "property-based testing: generated fitting and misfitting values against the schema",
  "Random values and single defects over 14 types; known panics on assigning foreign nodes whole are in KNOWN_FINDINGS.txt."),
P("C19", "Decoding and encoding are pure, independent of history, concurrency-safe",
  "The result of decoding or encoding depends on its input alone: not on what was decoded, encoded, rejected or interrupted by a fault or panic before, not on operations running at the same time in other goroutines or within the same reads and writes, and not on repetition. Nodes never change: not by being read or encoded, by later operations, or by overwriting the buffer they were decoded from; using shared nodes from several goroutines is free of data races.",
  ["histories", "schedules", "fault_sequences"], "every sequence, nesting and interleaving of operations over any objects",
  "The tests run each operation once, in one goroutine.",
  ["helper.go", "unmarshal.go", "blob.go", "commit.go", "tag.go", "tree.go", "marshal.go", "ipldsch_satisfaction.go"],
  [("no package state", "all files"), ("copying what is kept from buffers", "commit.go, tag.go, blob.go, helper.go: readLine")],
  ["results of operations in generated histories", "race detector"],
  "stateful property-based testing: histories in sequence, re-entrant and concurrent",
  "Generated histories judged against the model, run with the race detector; interleavings are those the scheduler gives, not enumerated."),
P("C20", "A block is decoded exactly when its CID promises a git object",
  "Decoding a block succeeds exactly when its CID has the git-raw codec and a 20-byte SHA-1 multihash and its data parse as a git object; the node is then the one parsing the data gives. Any other CID leads to an error and no node, whatever the data.",
  ["inputs"], "every CID (version, codec, hash function, digest length) with every block content",
  "No test passes a block with another CID.",
  ["helper.go"],
  [("prefix comparison", "helper.go: DecodeBlock")],
  ["DecodeBlock"],
  "property-based testing: generated CIDs and contents against an exact acceptance rule",
  "Random CIDs with codec, hash function and length varied independently; exact oracle for acceptance and content."),
]

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in L:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")

man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo as it is and use its exported API", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in L],
    "not_applicable": [],
    "notes": "check.py builds harness/ (Go, rapid) against /repo's working tree and runs it in 8 shards; thorough adds a coverage-guided stage; see DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
