#!/usr/bin/env python3
"""Writes findings/*.json and regress/*.json. Run by hand; the files are
committed."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "05fe405753166f125559e7c9ac558654f107c7e9"
P = "J D <j@x> 1 +0000"


def q(b):
    """A Go string literal, as the harness reads it."""
    if isinstance(b, str):
        b = b.encode("latin1")
    out = '"'
    for c in b:
        if c in (0x22, 0x5C):
            out += "\\" + chr(c)
        elif 0x20 <= c < 0x7F:
            out += chr(c)
        else:
            out += "\\x%02x" % c
    return out + '"'


def obj(kind, body):
    return {"Raw": q("%s %d\0" % (kind, len(body)) + body)}


def commit(head, tail="\nmsg\n", people=True):
    who = "author %s\ncommitter %s\n" % (P, P) if people else ""
    return obj("commit", "tree %s\n%s%s%s" % (H, who, head, tail))


def tag(rest):
    return obj("tag", "object %s\ntype commit\ntag v1\n%s" % (H, rest))


def write(d, name, prop, part, case, observed=None):
    out = {"property": prop, "part": part, "case": case}
    if observed is not None:
        out["observed"] = observed
    with open(os.path.join(HERE, d, name + ".json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


LINK = {"Kind": "link", "Str": q(bytes([1, 0x78, 0x11, 0x14]) + bytes.fromhex(H))}


def s(x):
    return {"Kind": "string", "Str": q(x)}


def m(*kv):
    return {"Kind": "map", "Keys": [q(k) for k, _ in kv], "Vals": [v for _, v in kv]}


person = m(("date", s("1")), ("timezone", s("+0000")), ("email", s("j@x")), ("name", s("J D")))
vcommit = m(("tree", LINK), ("parents", {"Kind": "list"}), ("message", s("m")), ("author", person), ("committer", person),
            ("other", {"Kind": "list"}), ("mergetag", {"Kind": "list"}))
vtree = m(("a", m(("mode", s("100644")), ("hash", LINK))))
JD = {"Name": q("J D"), "Email": q("j@x"), "Date": q("1"), "TZ": q("+0000")}
mcommit = {"Tree": H, "Parents": [H], "Author": JD, "Committer": JD, "Msg": q("m\n")}
mtree = {"Entries": [{"Mode": q("100644"), "Name": q("a"), "Hash": H}]}
mtag = {"Object": H, "Type": q("commit"), "Tag": q("v1"), "Tagger": JD, "Msg": q("m\n")}

F, R = "findings", "regress"
write(F, "K1", "C03", "raw", tag("tagger %s\n\n" % P), "lengths 100 and 99")
write(F, "K2", "C03", "raw", tag("tagger %s\nfoo bar\n\nmsg\n" % P), "lengths 113 and 104")
write(F, "K3a", "C01", "raw", commit("HG:extra x\ngpgsig -----BEGIN PGP SIGNATURE-----\n \n abc\n -----END PGP SIGNATURE-----\n"), "lengths 199 and 199")
write(F, "K3b", "C01", "raw", commit("gpgsig -----BEGIN PGP SIGNATURE-----\n \n abc\n -----END PGP SIGNATURE-----\nencoding latin1\n"), "lengths 204 and 204")
write(F, "K4a", "C18", "assign", {"Type": "Commit", "V": vcommit, "Repr": False}, "panic")
write(F, "K4b", "C18", "assign", {"Type": "Commit", "V": vcommit, "Repr": True}, "panic")
write(F, "K4c", "C18", "assign", {"Type": "Tree", "V": vtree, "Repr": False}, "panic")
write(F, "K4d", "C18", "assign", {"Type": "Tree", "V": vtree, "Repr": True}, "panic")
twice = m(("a", m(("mode", s("100644")), ("hash", LINK))), ("a", m(("mode", s("40000")), ("hash", LINK))))
write(F, "K4e", "C18", "misfit", {"Type": "Tree", "How": "repeated a", "V": twice, "Seed": 1, "Repr": False}, "a Tree is built although repeated a")
write(F, "K4f", "C17", "lookup", {"Obj": {"Tree": mtree}, "Path": [], "Foreign": q("a")}, "panic")
write(F, "K5a", "C01", "raw", commit("mergetag object %s\n type commit\n tag v1\n tagger %s\n" % (H, P)), "lengths 219 and 221")
write(F, "K5b", "C01", "raw", commit("mergetag object %s\n type commit\n tag v1\n tagger %s\n foo bar\n \n m\n" % (H, P)), "lengths 233 and 224")
for n, who, seen in (("a", "<e> 1 +0000", "lengths 106 and 107"), ("b", "J D <e> 1 +0000 more", "lengths 116 and 111"),
                     ("c", "J D <e>  1 +0000", "lengths 112 and 104"), ("d", "J D <e> 1 +0000 ", "lengths 112 and 111")):
    write(F, "K6" + n, "C07", "raw", obj("commit", "tree %s\nauthor %s\ncommitter %s\n\nm\n" % (H, who, P)), seen)
write(F, "K7", "C01", "raw", commit("", ""), "lengths 109 and 111")
write(F, "K8", "C03", "raw", tag("tagger  <>\n\nmsg\n"), "lengths 90 and 79")
write(F, "K9", "C17", "lookup", {"Obj": {"Commit": mcommit}, "Path": [q("parents")], "Index": -1}, "panic")

SIG = "gpgsig -----BEGIN PGP SIGNATURE-----\n \n abc\n -----END PGP SIGNATURE-----\n"
MT = "mergetag object %s\n type commit\n tag v1\n tagger %s\n \n merge\n" % (H, P)
write(R, "C07-leading-spaces", "C07", "raw", obj("commit", "tree %s\nauthor   J D <e> 1 +0000\ncommitter %s\n\nm\n" % (H, P)))
write(R, "C01-long-line", "C01", "raw", commit("encoding %s\n" % ("x" * 5000)))
write(R, "C01-carriage-return", "C01", "raw", commit("encoding latin1\r\n"))
write(R, "C01-no-people", "C01", "raw", commit("", people=False))
write(R, "C03-no-tagger", "C03", "raw", tag("\nmsg\n"))
write(R, "C01-mergetag-no-tagger", "C01", "raw", commit("mergetag object %s\n type commit\n tag v1\n \n merge\n" % H))
MT0 = "mergetag object %s\n type commit\n tag v1\n tagger %s\n" % (H, P)
vmt = m(("object", LINK), ("type", s("commit")), ("tag", s("v1")), ("tagger", person), ("message", s("")))
vc = m(("tree", LINK), ("parents", {"Kind": "list"}), ("message", s("msg\n")), ("author", person), ("committer", person),
       ("mergetag", {"Kind": "list", "Vals": [vmt]}), ("other", {"Kind": "list"}))
write(R, "C05-mergetag-without-message", "C05", "raw", {**commit(MT0), "Want": vc})
write(R, "C01-mergetag-then-signature", "C01", "raw", commit(MT + SIG))
write(R, "C01-ssh-signature", "C01", "raw", commit("gpgsig -----BEGIN SSH SIGNATURE-----\n abc\n -----END SSH SIGNATURE-----\n"))
entry = "100644 a\0" + bytes.fromhex(H).decode("latin1")
for n, cut in (("mode", 3), ("name", 8), ("nul", 9), ("hash", 9 + 5), ("hash-end", 28)):
    write(R, "C14-tree-ends-in-" + n, "C14", "malformed", {"How": "entry cut", **obj("tree", entry + entry[:cut])})
    write(R, "C13-tree-ends-in-" + n, "C13", "raw", obj("tree", entry + entry[:cut]))
write(R, "C11-many-merge-tags", "C11", "large", {"Shape": "bare merge tags", "N": 8000000, "Size": q("")})
write(R, "C14-commit-without-tree", "C14", "malformed", {"How": "no tree", **obj("commit", "author %s\ncommitter %s\n\nm\n" % (P, P))})
write(R, "C14-tag-without-object", "C14", "malformed", {"How": "no object", **obj("tag", "type commit\ntag v1\ntagger %s\n\nm\n" % P)})
for n, size in (("word", "x"), ("empty", ""), ("suffix", "12x")):
    body = "object %s\ntype commit\ntag v1\n\nm\n" % H
    write(R, "C14-tag-size-" + n, "C14", "malformed", {"How": "size", "Raw": q("tag %s\0%s" % (size, body))})
write(R, "C16-list", "C16", "notgit", {"How": "list", "V": {"Kind": "list", "Vals": [s("a")]}})
for i in range(4):
    write(R, "C16-commit-forms%d" % i, "C16", "build", {"Obj": {"Commit": mcommit}, "Seed": i})
    write(R, "C16-tag-forms%d" % i, "C16", "build", {"Obj": {"Tag": mtag}, "Seed": i})
for where, o in (("tree", {"Commit": mcommit}), ("parent", {"Commit": mcommit}), ("object", {"Tag": mtag}), ("entry", {"Tree": mtree})):
    for n, link in (("sha256", {"Kind": "cid", "Codec": 0x78, "Mh": 0x12, "Digest": q(b"a" * 32)}),
                    ("short", {"Kind": "cid", "Codec": 0x78, "Mh": 0x11, "Digest": q(b"a" * 16)}),
                    ("identity", {"Kind": "cid", "Codec": 0x78, "Mh": 0, "Digest": q(b"a" * 20)}),
                    ("foreign", {"Kind": "foreign", "Digest": q(b"a" * 20)})):
        write(R, "C08-%s-%s" % (where, n), "C08", "badlink", {"Where": where, "Obj": o, "Index": 0, "Form": 0, "Link": link})
body = ("blob 12\0hello world\n").encode()
# stored, not compressed: the checksum is in the last 4 bytes of len(body) + 13
write(R, "C13-blob-checksum", "C13", "zlib", {"Raw": q(body), "Seed": 6, "Bits": [8 * (len(body) + 13) - 1], "Cut": -1, "Add": q("")})
