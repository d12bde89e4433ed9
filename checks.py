"""What each property's check runs. A unit = one harness entry over one set of bounds."""
COMMON_ASSUMPTIONS = [
    "clang 18 -O1 bitcode of the sources stands for the shipped binary",
    "the executor's C/C++ runtime model (rt/rt_sym.cpp) and z3 are trusted; a sample of explored paths is re-run natively",
    "allocation never fails; single thread",
]
CHECKS = {}


def U(name, harness, entry, src, params=None, t=None, jobs=2, reach=(), note="", tier="both", **kw):
    u = dict(name=name, harness=harness, entry=entry, src=src.split(), params=params or {}, jobs=jobs,
             reach=list(reach), note=note, tier=tier)
    if t:
        u["t"] = t
    u.update(kw)
    return u


def check(pid, units, assumptions=(), outside="", note=""):
    CHECKS[pid] = dict(units=units, assumptions=list(assumptions), outside=outside, note=note)


def units(pid, tier):
    return [dict(u) for u in CHECKS[pid]["units"] if u["tier"] in ("both", tier)]


BASE = "exceptions.cpp myutils.cpp "
ST = BASE + "streams.cpp crypto.cpp "

check("C01", [
    U("block-step-4", "C01.cpp", "h_step", ST, dict(bs=4), reach=["write", "resize"], jobs=4),
    U("block-read-4", "C01.cpp", "h_read", ST, dict(bs=4), reach=["read"]),
    U("padded", "C01.cpp", "h_padded", ST, dict(ops=1), reach=["padded"], tier="quick"),
    U("cached-2", "C01.cpp", "h_cached", ST, dict(ops=2), reach=["cached"], jobs=4, tier="quick"),
    U("far", "C01.cpp", "h_far", ST, {}, jobs=4, reach=["blocks", "padded"], t=200),
    U("block-step-3", "C01.cpp", "h_step", ST, dict(bs=3), reach=["write", "resize"]),
    U("block-step-7", "C01.cpp", "h_step", ST, dict(bs=7), reach=["write", "resize"], jobs=4, tier="thorough"),
    U("padded-2", "C01.cpp", "h_padded", ST, dict(ops=2), reach=["padded"], tier="thorough", jobs=4),
    U("cached-3", "C01.cpp", "h_cached", ST, dict(ops=3), reach=["cached"], jobs=8, tier="thorough"),
], outside="block sizes other than 3, 4, 7; files longer than two blocks plus one byte; lengths beyond two blocks; offsets beyond three blocks other than one two-byte write and its truncation at any offset up to 2^61")

MY = BASE + "mystring.cpp "
S_LITE = ST + "lite_stream.cpp "
S_LFS = S_LITE + "lite_format.cpp lite_long_name_lookup_table.cpp sqlite_helper.cpp mystring.cpp xattr_name.cpp fuse_high_level_ops_base.cpp thread_local.cpp "

check("C02", [
    U("resize-all", "C02.cpp", "h_op", S_LITE, dict(mode=0), jobs=8, reach=["resize"], t=300, tier="thorough"),
    U("far", "C02.cpp", "h_far", S_LITE, {}, jobs=4, reach=["far"], t=200),
    U("far-operations", "C02_ops.cpp", "h_far", S_LFS + "common_platform.cpp ", {}, jobs=4, reach=["far"], t=200),
    U("far-operations-padded", "C02_ops.cpp", "h_far", S_LFS + "common_platform.cpp ", dict(pad=5), jobs=4, reach=["far"], t=200),
    U("open", "C02_ops.cpp", "h_open", S_LFS + "common_platform.cpp ", {}, jobs=8, reach=["written", "read"]),
    U("open-padded", "C02_ops.cpp", "h_open", S_LFS + "common_platform.cpp ", dict(pad=5), jobs=8, reach=["written", "read"]),
    U("moved", "C02_ops.cpp", "h_moved", S_LFS + "common_platform.cpp ", {}, jobs=8, reach=["unlinked", "moved", "replaced", "again", "linked", "directory"], t=200),
    U("moved-padded", "C02_ops.cpp", "h_moved", S_LFS + "common_platform.cpp ", dict(pad=5), jobs=8, reach=["unlinked", "moved", "replaced", "again", "linked", "directory"], t=200),
    U("big", "C02.cpp", "h_big", S_LITE, {}, jobs=4, reach=["big"]),
    U("resize", "C02.cpp", "h_op", S_LITE, dict(mode=4), jobs=4, reach=["resize"]),
    U("write-offsets", "C02.cpp", "h_op", S_LITE, dict(mode=1), jobs=4, reach=["write"]),
    U("write-lengths", "C02.cpp", "h_op", S_LITE, dict(mode=2), jobs=4, reach=["write"]),
    U("read", "C02.cpp", "h_op", S_LITE, dict(mode=3), reach=["read"]),
    U("resize-pad-holes", "C02.cpp", "h_op", S_LITE, dict(mode=4, pad=6, holes=1, iv=16), jobs=4, reach=["resize"], tier="thorough", t=300),
    U("write-lengths-pad-holes", "C02.cpp", "h_op", S_LITE, dict(mode=2, pad=6, holes=1, iv=16), jobs=8, reach=["write"], tier="thorough", t=500),
    U("few-pad-holes", "C02.cpp", "h_op", S_LITE, dict(mode=5, pad=6, holes=1, iv=16), jobs=4, reach=["write"]),
    U("resize-few-pad-holes", "C02.cpp", "h_op", S_LITE, dict(mode=6, pad=6, holes=1, iv=16), jobs=4, reach=["resize"]),
    U("read-pad-holes", "C02.cpp", "h_op", S_LITE, dict(mode=3, pad=6, holes=1, iv=32), reach=["read"], tier="thorough"),
    U("write-offsets-48", "C02.cpp", "h_op", S_LITE, dict(mode=1, bs=48, pad=3), jobs=8, reach=["write"], tier="thorough", t=300),
])
FF = ST + "full_format.cpp file_table_v2.cpp files.cpp btree_dir.cpp fuse_high_level_ops_base.cpp xattr_name.cpp mystring.cpp common_platform.cpp "
check("C03", [
    U("write", "C03.cpp", "h_op", ST, dict(op=0), jobs=4, reach=["write"]),
    U("resize", "C03.cpp", "h_op", ST, dict(op=1), reach=["resize"]),
    U("read", "C03.cpp", "h_op", ST, dict(op=2), reach=["read"]),
    U("header", "C03.cpp", "h_op", ST, dict(op=3), reach=["header"]),
    U("write-holes", "C03.cpp", "h_op", ST, dict(op=0, holes=1), jobs=4, reach=["write"]),
    U("resize-holes", "C03.cpp", "h_op", ST, dict(op=1, holes=1), reach=["resize"]),
    U("read-holes", "C03.cpp", "h_op", ST, dict(op=2, holes=1), reach=["read"]),
    U("header-holes", "C03.cpp", "h_op", ST, dict(op=3, holes=1), reach=["header"]),
    U("far", "C03.cpp", "h_far", ST, {}, jobs=4, reach=["far"], t=200),
    U("open", "C03_ops.cpp", "h_open", FF, {}, jobs=8, reach=["written", "read"], t=200),
    U("open-padded", "C03_ops.cpp", "h_open", FF, dict(pad=5), jobs=8, reach=["written", "read"], t=200),
    U("moved", "C03_ops.cpp", "h_moved", FF, {}, jobs=8, reach=["unlinked", "moved", "replaced", "again", "linked", "directory"], t=200),
    U("moved-padded", "C03_ops.cpp", "h_moved", FF, dict(pad=5), jobs=8, reach=["unlinked", "moved", "replaced", "again", "linked", "directory"], t=200),
    U("big", "C03.cpp", "h_big", ST, {}, jobs=2, reach=["big"]),
    U("no-header", "C03.cpp", "h_noheader", ST, {}, reach=["new"]),
])
check("C04", [
    U("far", "C04.cpp", "h_far", S_LITE, {}, jobs=2, reach=["far"]),
    U("block", "C04.cpp", "h_block", S_LITE, {}, jobs=4, reach=["rejected", "accepted"]),
    U("header", "C04.cpp", "h_header", S_LITE, {}, reach=["changed"]),
    U("length", "C04.cpp", "h_length", S_LITE, {}, jobs=4, reach=["extend", "trunc"]),
    U("many", "C04.cpp", "h_many", S_LITE, {}, jobs=4, reach=["rejected", "accepted"]),
    U("splice", "C04.cpp", "h_splice", S_LITE, {}, jobs=4),
    U("block-pad", "C04.cpp", "h_block", S_LITE, dict(pad=6), jobs=4),
    U("header-pad", "C04.cpp", "h_header", S_LITE, dict(pad=6)),
    U("length-pad", "C04.cpp", "h_length", S_LITE, dict(pad=6), jobs=4),
    U("splice-pad", "C04.cpp", "h_splice", S_LITE, dict(pad=6), jobs=4),
])
check("C05", [
    U("meta", "C05.cpp", "h_meta", ST, {}, reach=["bytes", "trunc", "extend"]),
    U("meta-any", "C05.cpp", "h_meta_any", ST, {}, reach=["any"]),
    U("data", "C05.cpp", "h_data", ST, {}, jobs=4, reach=["touch", "other"]),
    U("data-length", "C05.cpp", "h_data_len", ST, {}, jobs=4, reach=["rejected"]),
    U("splice", "C05.cpp", "h_splice", ST, {}, jobs=4, reach=["swap", "both"]),
    U("many", "C05.cpp", "h_many", ST, {}, jobs=4, reach=["rejected", "accepted"]),
    U("many-meta", "C05.cpp", "h_many_meta", ST, {}, jobs=2, reach=["meta"]),
    U("key", "C05.cpp", "h_key", ST, {}, reach=["key"]),
])
check("C06", [
    U("lite", "C06.cpp", "h_lite", S_LITE, {}, jobs=4, reach=["history"]),
    U("full", "C06.cpp", "h_full", ST, {}, jobs=4, reach=["history"]),
    U("many", "C06.cpp", "h_many", S_LITE, {}, jobs=4, reach=["many"]),
    U("no-leak", "C06.cpp", "h_noleak", S_LITE, {}, reach=["noleak"]),
    U("xattr", "C06.cpp", "h_xattr", S_LFS, {}, reach=["xattr"]),
])
check("C07", [U("%s-write-%s" % (["full", "lite"][l], ["over", "within"][r]), "C07.cpp", "h_write", S_LITE,
                dict(lite=l, region=r), jobs=4 if r else 2, reach=["within" if r else "over"]) for l in (0, 1) for r in (0, 1)]
      + [U("%s-%s" % (["full", "lite"][l], e), "C07.cpp", "h_" + e, S_LITE, dict(lite=l), reach=["over", "within"])
         for l in (0, 1) for e in ("resize", "read")]
      + [U("sizes", "C07.cpp", "h_sizes", S_LITE, dict(bs=32), reach=["sizes"])])
check("C08", [
    U("compute", "C08.cpp", "h_compute", S_LITE, {}, reach=["compute"]),
    U("stable", "C08.cpp", "h_stable", S_LFS, {}, jobs=8, reach=["nopad", "pad", "maxpad"]),
    U("cut", "C08.cpp", "h_cut", S_LFS, {}, reach=["ok"]),
])
check("C09", [
    U("base32", "C09.cpp", "h_base32", MY, dict(n=20), reach=["base32"]),
    U("long", "C09.cpp", "h_long", MY, {}, reach=["long"]),
    U("base32-lower", "C09.cpp", "h_base32_lower", MY, dict(n=3), reach=["lower"]),
    U("base32-any", "C09.cpp", "h_base32_any", MY, dict(n=12), reach=["accepted", "rejected"]),
    U("hex", "C09.cpp", "h_hex", MY, dict(n=4), reach=["hex"]),
    U("hex-any", "C09.cpp", "h_hex_any", MY, dict(n=6), reach=["valid"]),
    U("little-endian", "C09.cpp", "h_le", MY, {}, reach=["le"]),
    U("base32-32", "C09.cpp", "h_base32", MY, dict(n=32), reach=["base32"], tier="thorough"),
])
CR = BASE + "crypto.cpp "
check("C11", [
    U("encrypt", "C11.cpp", "h_encrypt", CR, {}, reach=["encrypt"]),
    U("decrypt", "C11.cpp", "h_decrypt", CR, {}, reach=["accept", "reject"]),
    U("sizes", "C11.cpp", "h_sizes", CR, {}, jobs=4, reach=["sizes"]),
    U("repeat", "C11.cpp", "h_repeat", CR, {}, reach=["repeat"]),
])
check("C12", [
    U("hkdf", "C12.cpp", "h_hkdf", CR, {}, reach=["hkdf"]),
    U("hkdf-inputs", "C12.cpp", "h_hkdf", CR, dict(lens=2, first=6, inputs=1), jobs=4, reach=["hkdf"]),
    U("hkdf-limit", "C12.cpp", "h_hkdf", CR, dict(lens=4, first=12), reach=["toolong"]),
    U("prefix", "C12.cpp", "h_prefix", CR, {}, reach=["prefix"]),
    U("separate", "C12.cpp", "h_separate", CR, {}, reach=["separate"]),
    U("hmac", "C12.cpp", "h_hmac", CR, {}, reach=["hmac"]),
])
DIRS = ST + "files.cpp btree_dir.cpp xattr_name.cpp mystring.cpp common_platform.cpp "
check("C13", [
    U("round", "C13.cpp", "h_round", DIRS, {}, reach=["round"], jobs=4),
    U("round-shift", "C13.cpp", "h_round", DIRS, dict(shift=2), reach=["round"], jobs=4, tier="thorough"),
    U("hostile", "C13.cpp", "h_hostile", DIRS, {}, reach=["free", "refused", "parsed"], jobs=8),
], outside="operations on a tree that mixes several corrupt pages (page content is authenticated by the stream below, C05)")


def _tree(pages):
    p = dict(pages=1) if pages else {}
    r = []
    for l in (1, 2, 3):
        for op, tag in ((0, ["added", "exists"]), (1, ["removed", "absent"]), (2, ["found", "notfound"])):
            if op == 2 and pages:
                continue
            n = "%s-%d" % (("add", "remove", "lookup")[op], l)
            few = dict(few=1) if l > 1 else {}
            r.append(U(n, "C14.cpp", "h_step", DIRS, dict(levels=l, op=op, iterate=int(l < 3), warm=int(op < 2), **few, **p), jobs=8, reach=tag))
            if l > 1 and op < 2:
                r.append(U(n + "-all", "C14.cpp", "h_step", DIRS, dict(levels=l, op=op, warm=1, **p), jobs=8, reach=tag, tier="thorough",
                           t=240 if l == 2 else 700))
            if l == 2 and op < 2 and not pages:
                r.append(U(n + "-order", "C14.cpp", "h_step", DIRS, dict(levels=l, op=op, rev=1, **few), jobs=8, reach=tag))
            if l == 3 and op < 2 and not pages:
                r.append(U(n + "-order", "C14.cpp", "h_step", DIRS, dict(levels=l, op=op, rev=1, **few), jobs=8, reach=tag, tier="thorough"))
    for op in (0, 1):
        r.append(U("rebuild-%d" % op, "C14.cpp", "h_step", DIRS, dict(levels=2, op=op, few=1, minfree=5, maxfree=7, **p), jobs=8))
    r.append(U("sequence", "C14.cpp", "h_seq", DIRS, dict(levels=2, mini=1, sparse=1, ops=2, **p), jobs=8))
    r.append(U("sequence-3", "C14.cpp", "h_seq", DIRS, dict(levels=2, mini=1, sparse=1, ops=3, **p), jobs=8, tier="thorough", t=200))
    r.append(U("sequence-4", "C14.cpp", "h_seq", DIRS, dict(levels=2, mini=1, sparse=1, ops=4, **p), jobs=8, tier="thorough", t=800))
    return r


check("C14", _tree(False) + [U("names", "C14.cpp", "h_names", DIRS, {}, jobs=4, reach=["toolong", "added", "removed", "found"]),
    U("comparison", "names_cmp.cpp", "h_compare", BASE + "mystring.cpp ", {}, jobs=4, reach=["equal", "different"])],
      outside="trees of four and more levels; quick tier: only the shapes at which the operation changes the structure")
check("C15", _tree(True) + [U("huge", "C14.cpp", "h_huge", DIRS, {}, reach=["append", "release", "reuse"])],
      outside="trees of four and more levels")
TL = "exceptions.cpp thread_local.cpp myutils.cpp "
check("C29", [
    U("history-2x2", "C29.cpp", "h_history", TL, dict(ops=5, inst=2, threads=2), jobs=8, reach=["create", "destroy", "got", "threw", "end"]),
    U("history-3x3", "C29.cpp", "h_history", TL, dict(ops=4, inst=3, threads=3), jobs=8, reach=["create", "destroy", "got", "threw", "end"]),
    U("all-slots", "C29.cpp", "h_full", TL, {}, reach=["full"]),
    U("history-2x2-long", "C29.cpp", "h_history", TL, dict(ops=6, inst=2, threads=2), jobs=8, tier="thorough", t=400),
    U("history-3x3-long", "C29.cpp", "h_history", TL, dict(ops=5, inst=3, threads=3), jobs=8, tier="thorough", t=400),
], outside="more than three owners and three threads at once; operations on two threads at the same moment (each runs to its end: data races on the slot registry are not explored)")
FB = BASE + "fuse_high_level_ops_base.cpp "
check("C28", [
    U("callbacks", "C28.cpp", "h_ops", FB, {}, jobs=8, reach=["returned", "thrown", "query", "unmount"]),
    U("table", "C28.cpp", "h_table", FB, {}, jobs=4, reach=["table"]),
    U("init", "C28.cpp", "h_init", FB, {}, jobs=4, reach=["init"]),
], outside="the text the tracer prints; exceptions that do not derive from std::exception; error number 0; exceptions of initialize()")
XA = S_LFS + "files.cpp btree_dir.cpp common_platform.cpp "
check("C16", [
    U("attributes-2", "C16.cpp", "h_attr", DIRS, dict(ops=2), jobs=8, reach=["new", "timed", "untimed"]),
    U("attributes-padded", "C16.cpp", "h_attr", DIRS, dict(ops=1, pad=20), jobs=4, reach=["new", "timed", "untimed"]),
    U("directory", "C16.cpp", "h_dir", DIRS, dict(ops=2), jobs=4, reach=["timed", "untimed"]),
    U("link", "C16.cpp", "h_link", DIRS, {}, reach=["timed", "untimed"]),
    U("operations", "C16_full.cpp", "h_ops", FF, dict(ops=2), jobs=8, reach=["mode", "owner", "times", "link", "renamed", "resized"], t=200),
    U("operations-padded", "C16_full.cpp", "h_ops", FF, dict(pad=5, ops=2), jobs=8, reach=["mode", "owner", "times", "link", "renamed", "resized"], t=200),
    U("operations-lite", "C16_lite.cpp", "h_ops", S_LFS + "common_platform.cpp ", dict(ops=2), jobs=8, reach=["mode", "owner", "times", "link", "renamed", "resized"], t=200),
    U("operations-lite-padded", "C16_lite.cpp", "h_ops", S_LFS + "common_platform.cpp ", dict(pad=5, ops=2), jobs=8, reach=["mode", "owner", "times", "link", "renamed", "resized"], t=200),
    U("type", "C16.cpp", "h_type", DIRS, {}, reach=["refused", "cast"]),
    U("attributes-3", "C16.cpp", "h_attr", DIRS, dict(ops=3), jobs=8, reach=["new", "timed", "untimed"], tier="thorough", t=600),
], outside="more than three operations between flushes; seconds values are 64 bits, nanoseconds below 10^9")
check("C19", [
    U("list", "C19.cpp", "h_list", XA, dict(names=2), jobs=8, reach=["query", "range", "list"]),
    U("errors", "C19.cpp", "h_errors", XA, {}, reach=["errors"]),
    U("names", "C19.cpp", "h_names", XA, {}, reach=["names"]),
    U("full", "C19.cpp", "h_full", XA, {}, reach=["both", "removed", "list", "range"]),
    U("lite", "C19.cpp", "h_lite", XA, {}, reach=["both", "removed", "list", "range"]),
    U("many", "C19.cpp", "h_many", XA, {}, jobs=4, reach=["many"]),
    U("list-3", "C19.cpp", "h_list", XA, dict(names=3), jobs=8, tier="thorough", t=700),
], outside="lists of more than two (thorough: three) names and names longer than six bytes, beyond lists of up to forty names of chosen lengths up to 172 bytes; the Apple variant of the name handling")
check("C20", [
    U("full", "C20.cpp", "h_full", XA, {}, jobs=8, reach=["value", "range", "query", "replaced", "removed"]),
    U("lite", "C20.cpp", "h_lite", XA, {}, jobs=8, reach=["value", "range", "query", "replaced", "removed"]),
    U("tamper-lite", "C20.cpp", "h_tamper_lite", XA, {}, jobs=4, reach=["altered", "genuine"]),
    U("tamper-full", "C20.cpp", "h_tamper_full", XA, {}, jobs=8, reach=["altered", "genuine"]),
    U("move-full", "C20.cpp", "h_move_full", XA, {}, reach=["moved"]),
    U("sizes", "C20.cpp", "h_sizes", XA, {}, jobs=4, reach=["sizes"]),
    U("unverified", "C20.cpp", "h_unverified", XA, {}, jobs=4, reach=["unverified"]),
], outside="values longer than five bytes beyond twelve chosen lengths up to 64 KiB; in the lite format a stored value moved as a whole to another name or file (not bound to them by the format)")
PI = MY + "params_io.cpp crypto.cpp "
check("C24", [
    U("round", "C24.cpp", "h_round", PI, {}, jobs=8, reach=["round", "lite", "full", "none"]),
    U("wrong", "C24.cpp", "h_wrong", PI, {}, jobs=4, reach=["wrong", "right"]),
    U("tamper", "C24.cpp", "h_tamper", PI, {}, jobs=8, reach=["tampered"]),
    U("garbage", "C24.cpp", "h_garbage", PI, {}, jobs=4, reach=["refused"]),
    U("legacy", "C24.cpp", "h_legacy", PI, {}, jobs=8, reach=["legacy", "keys"]),
    U("legacy-wrong", "C24.cpp", "h_legacy_wrong", PI, {}, jobs=4, reach=["right", "wrong"]),
    U("legacy-tamper", "C24.cpp", "h_legacy_tamper", PI, {}, jobs=8, reach=["tampered", "genuine"]),
    U("keyfile-size", "C24.cpp", "h_wrong", PI, dict(big=1), jobs=8, reach=["wrong", "right"]),
    U("long", "C24.cpp", "h_long", PI, {}, jobs=8, reach=["wrong", "right"]),
    U("round-keyfile", "C24.cpp", "h_round", PI, dict(big=1), jobs=8, reach=["round"], tier="thorough", t=400),
    U("legacy-keyfile", "C24.cpp", "h_legacy", PI, dict(big=1), jobs=8, reach=["legacy"], tier="thorough", t=400),
    U("legacy-tamper-all", "C24.cpp", "h_legacy_tamper", PI, dict(plain=0), jobs=8, reach=["tampered", "genuine"], tier="thorough", t=800),
], outside="passwords and key files longer than the sizes tried; the wire formats (protobuf, JSON) are replaced by an injective encoding; the strength of the primitives (ideal AEAD, MAC and key derivation)")
NM = "lite_format.cpp mystring.cpp myutils.cpp exceptions.cpp crypto.cpp thread_local.cpp "
check("C17", [
    U("component", "C17.cpp", "h_component", NM, {}, jobs=8, reach=["short", "long"]),
    U("component-sizes", "C17.cpp", "h_component", NM, dict(big=1), jobs=4, reach=["short", "long"]),
    U("path-sizes", "C17.cpp", "h_path", NM, dict(big=1), jobs=8, reach=["path"]),
    U("path", "C17.cpp", "h_path", NM, {}, jobs=8, reach=["path"]),
    U("distinct", "C17.cpp", "h_distinct", NM, {}, jobs=8, reach=["equal", "different"]),
    U("fold", "C17.cpp", "h_fold", NM, {}, jobs=8, reach=["folded"]),
    U("limit", "C17.cpp", "h_limit", NM, {}, jobs=4, reach=["limit", "any"]),
    U("foreign", "C17.cpp", "h_foreign", NM, {}, jobs=8, reach=["foreign", "threw", "genuine"]),
], outside="names with more than three symbolic bytes; Unicode tables (case folding and normalisation are uninterpreted idempotent maps); two long names whose keyed hashes collide")
LF = S_LFS + "common_platform.cpp "
check("C18", [
    U("full-round", "C18_full.cpp", "h_round", FF, {}, jobs=4, reach=["round", "again"]),
    U("full-hostile", "C18_full.cpp", "h_hostile", FF, {}, jobs=4, reach=["hostile", "accepted"]),
    U("round", "C18.cpp", "h_round", LF, {}, jobs=8, reach=["round"]),
    U("buffer", "C18.cpp", "h_buffer", LF, {}, jobs=8, reach=["whole", "cut"]),
    U("hostile", "C18.cpp", "h_hostile", LF, {}, jobs=8, reach=["hostile", "accepted"]),
], outside="targets with more than three symbolic bytes; arbitrary stored targets longer than five bytes that differ from a genuine one in more than one character, its end or an extension")
FT = ST + "file_table_v2.cpp files.cpp btree_dir.cpp xattr_name.cpp mystring.cpp common_platform.cpp "
HI = ["create", "open", "shared", "write", "unlink", "close", "abrupt", "end"]
TH = ["with-unlink", "without-unlink", "lost-race"]
check("C21", [
    U("history", "C21.cpp", "h_history", FT, dict(ops=5), jobs=8, reach=HI),
    U("history-legacy", "C21.cpp", "h_history", FT, dict(ops=5, legacy=1), jobs=8, reach=HI),
    U("evict", "C21.cpp", "h_evict", FT, {}, jobs=8, reach=["evicted"]),
    U("threads-2", "C21.cpp", "h_threads", FT, dict(preemptions=2), jobs=8, reach=TH, defs=("-DSYM_SCHED",)),
    U("threads-3", "C21.cpp", "h_threads", FT, dict(threads=3, preemptions=1), jobs=8, reach=TH, defs=("-DSYM_SCHED",), t=200),
    U("history-7", "C21.cpp", "h_history", FT, dict(ops=7, files=3), jobs=8, reach=HI, tier="thorough", t=600),
    U("history-7-legacy", "C21.cpp", "h_history", FT, dict(ops=7, files=3, legacy=1), jobs=8, reach=HI, tier="thorough", t=600),
    U("threads-2-deep", "C21.cpp", "h_threads", FT, dict(preemptions=4), jobs=8, reach=TH, defs=("-DSYM_SCHED",), tier="thorough", t=800),
    U("threads-3-deep", "C21.cpp", "h_threads", FT, dict(threads=3, preemptions=2), jobs=8, reach=TH, defs=("-DSYM_SCHED",), tier="thorough", t=1200),
], outside="more than 7 operations over 3 identifiers; more than 3 threads or more preemptions than stated (2: at most 4; 3: at most 2) and other than sequentially consistent memory; switches elsewhere than at atomics, mutexes and calls of the operating system; failures of the operating system while closing")
OPS7 = ["create", "mkdir", "symlink", "unlink", "rmdir", "rename", "link", "done", "refused", "end"]
check("C22", [
    U("operation", "C22.cpp", "h_ops", FF, {}, jobs=8, reach=OPS7),
    U("operation-legacy", "C22.cpp", "h_ops", FF, dict(legacy=1, a=1), jobs=8, reach=OPS7),
    U("operation-long", "C22.cpp", "h_ops", FF, dict(long=1, a=3), jobs=8, reach=["long", "end"]),
    U("operation-fault", "C22.cpp", "h_ops", FF, dict(faults=1, a=3), jobs=8, reach=["fault", "end"]),
    U("operation-fault-all", "C22.cpp", "h_ops", FF, dict(faults=1), jobs=8, reach=["fault", "end"], tier="thorough", t=300),
    U("operation-long-all", "C22.cpp", "h_ops", FF, dict(long=1), jobs=8, reach=["long", "end"], tier="thorough", t=300),
] + [U("pair-%d" % a, "C22.cpp", "h_ops", FF, dict(ops=2, a=a), jobs=8, reach=OPS7, tier="thorough", t=600) for a in range(6)],
      outside="calls which the kernel answers by itself (unlink of a directory, a directory moved into itself, file over directory, parents which are not directories), hard links made through symbolic links; more than one (thorough: two) operations on trees of more than two entries of depth two; concurrent operations")
RS = ["link", "nested", "loop", "missing", "not a directory", "look", "readlink", "open", "opendir", "make"]
check("C23", [
    U("resolve", "C23.cpp", "h_resolve", FF, dict(t=2, p=2), jobs=8, reach=RS, t=200),
    U("resolve-3", "C23.cpp", "h_resolve", FF, dict(t=1, p=3), jobs=8, reach=RS),
    U("resolve-moved-legacy", "C23.cpp", "h_resolve", FF, dict(t=1, p=3, moved=1, remount=1, legacy=1), jobs=8, reach=RS),
    U("chain", "C23.cpp", "h_chain", FF, dict(n=20), jobs=8, reach=["cycle", "chain", "long"]),
    U("long", "C23.cpp", "h_long", FF, {}, jobs=8, reach=["deep", "path", "again", "target", "name"], t=200),
    U("getpath", "C23.cpp", "h_getpath", FF, {}, jobs=8, reach=["path", "missing", "short"]),
    U("resolve-deep", "C23.cpp", "h_resolve", FF, dict(t=2, p=3), jobs=8, reach=RS, tier="thorough", t=600),
    U("resolve-deep-moved", "C23.cpp", "h_resolve", FF, dict(t=2, p=3, moved=1, remount=1), jobs=8, reach=RS, tier="thorough", t=600),
] + [U("resolve-targets-%d" % p, "C23.cpp", "h_resolve", FF, dict(t=3, p=3, place=p), jobs=8, reach=RS, tier="thorough", t=900) for p in range(4)],
      outside="trees other than two nested directories, two files and two links; targets of more than three components, paths of more than four; '.' and '..' as the last component of a path (the kernel resolves those); '.' or '..' after a file; absolute link targets (the kernel resolves those); how links nested deeper than eight fare, apart from termination; Unicode case folding")

LO = ["created", "linked", "renamed", "removed", "failed", "rolled-back"]
check("C26", [
    U("operations", "C26.cpp", "h_ops", LF, {}, jobs=8, reach=LO),
    U("operations-suffixes", "C26.cpp", "h_ops", LF, dict(suffixes=1), jobs=8, reach=LO, tier="thorough", t=400),
    U("two-operations", "C26.cpp", "h_ops", LF, dict(ops=2, faults=0, listing=0), jobs=8, reach=LO[:5], tier="thorough", t=900),
], outside="crashes between an operation and the commit of its table (SQLite and the underlying file system are not atomic together), failures of the commit itself, other processes using the table; SQLite itself (its statements are interpreted by a model), name contents (three short and two long names per directory)")
check("C27", [
    U("list", "C27.cpp", "h_list", LF, {}, jobs=8, reach=["all", "omitted", "again"]),
    U("many", "C27.cpp", "h_many", LF, {}, jobs=4, reach=["many"]),
    U("refused", "C27.cpp", "h_refused", LF, {}, jobs=8, reach=["refused", "complete"]),
    U("list-3", "C27.cpp", "h_list", LF, dict(n=3, again=0), jobs=8, reach=["all", "omitted"], tier="thorough", t=900),
], outside="directories with more than three entries of chosen kinds; rows of the table exchanged by an attacker between shortened names of one directory")
check("C30", [
    U("full", "C30.cpp", "h_pair", FF, dict(preemptions=1), jobs=8, reach=["names", "contents"],
      defs=("-DSYM_SCHED",), t=400),
    U("lite", "C30_lite.cpp", "h_pair", LF, dict(preemptions=1), jobs=8, reach=["names", "contents"],
      defs=("-DSYM_SCHED",), t=300),
    U("lite-padded", "C30_lite.cpp", "h_pair", LF, dict(preemptions=1, pad=5, a1=12, b1=12), jobs=8, reach=["contents"],
      defs=("-DSYM_SCHED",), t=300),
    U("full-2", "C30.cpp", "h_pair", FF, dict(preemptions=2), jobs=8, reach=["names", "contents"],
      defs=("-DSYM_SCHED",), tier="thorough", t=2400),
    U("lite-2", "C30_lite.cpp", "h_pair", LF, dict(preemptions=2), jobs=8, reach=["names", "contents"],
      defs=("-DSYM_SCHED",), tier="thorough", t=900),
], outside="more than two operations at once, more preemptions, preemptions elsewhere than at locks, "
   "atomics and system calls (data races are reported wherever they are); pairs of operations the kernel "
   "or libfuse never runs together; SQLite's locking between connections")
check("C31", [
    U("suffix", "C26.cpp", "h_suffix", LF, {}, jobs=8, reach=["changed", "refused"]),
    U("suffix-all", "C26.cpp", "h_suffix", LF, dict(all=1), jobs=8, reach=["changed", "refused"], tier="thorough", t=400),
], outside="failures and crashes in the middle of the change; suffixes that can end a stored short name or contain a path separator")
CF = (LF.replace("common_platform.cpp", "full_format.cpp file_table_v2.cpp files.cpp btree_dir.cpp common_platform.cpp")
      + "params_io.cpp commands.cpp internal_mount.cpp unix.cpp lock_enabled.cpp fuse_hook.cpp resettable_timer.cpp fuse_tracer_v2.cpp ")
check("C32", [
    U("create", "C32.cpp", "h_create", CF, {}, jobs=8, reach=["full", "lite", "other", "same", "refused"]),
    U("migrate", "C32.cpp", "h_migrate", CF, {}, jobs=4, reach=["migrated", "refused"]),
    U("change-password", "C32.cpp", "h_change", CF, dict(what0=0, what1=0, calls=30), jobs=4, reach=["changed", "failed", "crash", "crash after"]),
    U("change-long-names", "C32.cpp", "h_change", CF, dict(what0=1, what1=1, calls=40), jobs=4, reach=["migrated", "not migrated", "crash after"]),
    U("change-create", "C32.cpp", "h_change", CF, dict(what0=2, what1=2, calls=12), jobs=4, reach=["crash", "crash after", "create failed"]),
], outside="directory entries that a crash loses although the file's data were synchronised; more than one failing call; "
   "the parser of command lines (a model of TCLAP) and of protocol buffers; configurations made by older releases")
check("C33", [
    U("comparison", "names_cmp.cpp", "h_compare", BASE + "mystring.cpp ", {}, jobs=4, reach=["equal", "different"]),
    U("options", "C33.cpp", "h_options", CF, {}, jobs=8, reach=["full", "lite", "default", "one", "all"]),
    U("insecure", "C33.cpp", "h_insecure", CF, {}, jobs=4, reach=["insecure", "verified"]),
    U("names", "C33.cpp", "h_names", CF, {}, jobs=8, reach=["same", "different", "plain"]),
    U("refuse", "C33.cpp", "h_refuse", CF, {}, jobs=4, reach=["password", "missing", "changed", "option"]),
], outside="mounting in the background, idle unmounting and logging options; Unicode beyond one composed letter; what libfuse makes of its arguments; "
   "the parser of command lines (a model of TCLAP) and of protocol buffers")
check("C34", [
    U("comparison", "names_cmp.cpp", "h_compare", BASE + "mystring.cpp ", {}, jobs=4, reach=["equal", "different"]),
    U("configuration", "C24.cpp", "h_format", PI, {}, jobs=8, reach=["format", "lite", "full"]),
    U("full", "C33.cpp", "h_full", CF, {}, jobs=8, reach=["legacy", "current"]),
    U("lite", "C33.cpp", "h_lite", CF, {}, jobs=8, reach=["long", "short"]),
], outside="the ciphers themselves and the wire format of protocol buffers and SQLite; content of more than two blocks; directories of more than one page")
check("C35", [
    U("lock", "C33.cpp", "h_lock", CF, {}, jobs=4, reach=["mounted", "refused"]),
], outside="two processes that take over the same stale lock at the same moment")
UX = "exceptions.cpp myutils.cpp unix.cpp common_platform.cpp lock_enabled.cpp "
check("C36", [
    U("paths", "C36.cpp", "h_paths", UX, {}, jobs=4, reach=["done", "error", "fault"]),
    U("streams", "C36.cpp", "h_streams", UX, {}, jobs=4, reach=["done", "error", "failed", "open failed", "not opened"]),
    U("far", "C36.cpp", "h_far", UX, {}, jobs=2, reach=["far"]),
    U("traverse", "C36.cpp", "h_traverse", UX, {}, jobs=2, reach=["done", "error", "failed"]),
    U("base", "C36.cpp", "h_base", UX, {}, jobs=2, reach=["done", "error", "failed"]),
], outside="macOS and Windows; child processes, terminals and the control calls that find and end a mount; more than one failing call per operation")
EN = FB + "fuse2_workaround.cpp fuse_hook.cpp resettable_timer.cpp "
SC = ("-DSYM_SCHED",)
check("C37", [
    U("end", "C37.cpp", "h_end", EN, dict(events=1, preemptions=1), jobs=8, reach=["ended", "idle", "broken"], defs=SC),
    U("end-2", "C37.cpp", "h_end", EN, dict(events=2, preemptions=0), jobs=8, reach=["ended", "idle", "broken"], defs=SC),
    U("setup", "C37.cpp", "h_setup", EN, {}, reach=["thrown", "returned"], defs=SC),
    U("idle", "C33.cpp", "h_idle", CF, {}, jobs=8, reach=["stays", "used", "unused"], defs=SC),
    U("end-preempted", "C37.cpp", "h_end", EN, dict(events=2, preemptions=1), jobs=8, reach=["ended", "idle", "broken"], defs=SC,
      tier="thorough", t=600),
    U("end-preempted-2", "C37.cpp", "h_end", EN, dict(events=1, preemptions=2), jobs=8, reach=["ended", "idle", "broken"], defs=SC,
      tier="thorough", t=900),
], outside="two worker threads, or one and the idle timer; two requests and two signals; preemptions elsewhere than at locks, cancellation points, "
   "system calls and calls of libfuse; libfuse itself, FUSE-T and WinFsp; idle time over before the loop is set up")
LI = ("-DLITE",)
check("C38", [
    U("files", "C38.cpp", "h_files", FF, {}, jobs=8, reach=["flushed", "synchronised", "power lost", "closed", "open"]),
    U("files-padded", "C38.cpp", "h_files", FF, dict(pad=5), jobs=8, reach=["flushed", "synchronised", "power lost", "closed", "open"]),
    U("files-lite", "C38.cpp", "h_files", LF, dict(ops=2), jobs=8, reach=["flushed", "synchronised", "power lost", "closed", "open"], defs=LI),
    U("files-lite-padded", "C38.cpp", "h_files", LF, dict(pad=5, ops=2), jobs=8, reach=["flushed", "synchronised", "power lost", "closed", "open"], defs=LI),
    U("names", "C22.cpp", "h_ops", FF, dict(kill=1), jobs=8, reach=["create", "mkdir", "symlink", "unlink", "rmdir", "rename", "link", "end"]),
    U("files-2", "C38.cpp", "h_files", FF, dict(ops=2), jobs=8, reach=["flushed", "synchronised", "power lost", "closed", "open"], tier="thorough", t=400),
    U("names-legacy", "C22.cpp", "h_ops", FF, dict(kill=1, legacy=1), jobs=8, reach=["rename", "end"], tier="thorough", t=400),
], outside="an end in the middle of an operation; objects someone holds open or has not synchronised; a loss of power before the directory of a file reached the disk "
   "(securefs does not synchronise directories); the long name table (see C26)")
check("C39", [
    U("names-file", "C39.cpp", "h_faults", FF, dict(a=1, calls=10), jobs=8, reach=["failed", "named", "stored later", "unmounted", "unaffected"]),
    U("names-directory", "C39.cpp", "h_faults", FF, dict(a=3, calls=8), jobs=8, reach=["failed", "named", "stored later", "unmounted", "unaffected"]),
    U("data", "C39d.cpp", "h_data", FF, dict(calls=14), jobs=8, reach=["done", "done in spite of a failure", "failed", "rest"]),
    U("data-padded", "C39d.cpp", "h_data", FF, dict(pad=5, calls=14), jobs=8, reach=["done", "done in spite of a failure", "failed", "rest"]),
    U("data-lite", "C39d.cpp", "h_data", LF, dict(calls=10), jobs=8, reach=["done", "done in spite of a failure", "failed", "rest"], defs=LI),
    U("data-lite-padded", "C39d.cpp", "h_data", LF, dict(pad=5, calls=10), jobs=8, reach=["done", "done in spite of a failure", "failed", "rest"], defs=LI),
    U("names-all", "C39.cpp", "h_faults", FF, dict(calls=16), jobs=8, reach=["failed", "named", "stored later", "unmounted", "unaffected"], tier="thorough", t=800),
], outside="more calls than stated; failures of size queries and of removing underlying files; what a failed operation leaves under the names given to it, and in the blocks it touched; "
   "namespace operations of the lite format (see C26)")
LG = ("-DSYM_LOG_CAPTURE",)
check("C40", [
    U("levels", "C40.cpp", "h_levels", BASE + "logger.cpp ", dict(messages=2), jobs=4, reach=["failed", "levels"], defs=LG),
    U("calls", "C40.cpp", "h_calls", FB + "mystring.cpp logger.cpp fuse_tracer_v2.cpp ", {}, jobs=8, reach=["failed", "hidden", "traced", "silent"], defs=LG),
    U("secrets", "C40_cli.cpp", "h_secrets", CF + "logger.cpp ", {}, jobs=8, reach=["mounted", "traced", "trouble", "wrong"], defs=LG),
    U("levels-3", "C40.cpp", "h_levels", BASE + "logger.cpp ", dict(messages=3), jobs=8, reach=["failed", "levels"], tier="thorough", t=300, defs=LG),
], outside="the wording, times and addresses of messages; names of files and extended attributes and the targets of links, which are logged on purpose; contents with --allow-sensitive-logging; "
   "logs handed over to a background process; what libfuse and the other libraries print")
