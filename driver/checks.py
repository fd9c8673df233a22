# Registry of checks: which harness entries decide which property, over which repository sources, within which bounds.
def E(entry, quick=None, thorough=None, marks=(), **kw):
    d = dict(entry=entry, quick=quick or [{}], thorough=thorough or quick or [{}], marks=list(marks))
    d.update(kw)
    return d


def N(*ns, **kw):
    return [dict(n=n, **kw) for n in ns]


def F(ns, **kw):  # forms by number
    return [dict(form=n, **kw) for n in ns]


CHECKS = {}
NOT_APPLICABLE = {}


def check(pid, harness, sources, entries, **kw):
    CHECKS[pid] = dict(property=pid, harness=harness if isinstance(harness, list) else [harness], sources=sources, entries=entries, **kw)


STR = []

BITS = ["fly/types/bit_stream/" + f for f in ("bit_stream_reader.cpp", "bit_stream_writer.cpp", "detail/bit_stream.cpp")]
B64 = ["fly/coders/base64/base64_coder.cpp", "fly/coders/coder.cpp"] + BITS
JSON = ["fly/types/json/json.cpp", "fly/types/json/json_exception.cpp"]
check("C01", "c01.cpp", B64,
      [E("c01_round", N(0, 1, 2, 3, 5), N(4, 6, 7, 9), marks=["round"]), E("c01_again", [dict(n=1, m=5), dict(n=5, m=6)], [dict(n=2, m=9)], marks=["round"]),
       E("c01_long", [dict(n=n, k=4) for n in (98305, 196606, 196607, 196608, 196609)], [dict(n=n, k=6) for n in (98306, 131075, 196605, 196610, 393215, 393216)], marks=["round"], steps=400000000)],
      bounds=dict(quick="all byte strings of up to 5 bytes; strings as long as the coder's buffers with the last 4 bytes arbitrary", thorough="all byte strings of up to 9 bytes; twice as long as the buffers"),
      outside="other long strings (each group of three bytes is coded independently)", quiet=True)
check("C02", "c01.cpp", B64,
      [E("c02_decode", N(0, 1, 2, 3, 4, 5), N(6, 8), marks=["decoded", "rejected"]), E("c02_shape", F(range(10)), marks=["decoded", "rejected"]),
       E("c02_long", [dict(n=262144, at=262140), dict(n=262144, at=262143), dict(n=262144, at=262142), dict(n=262148, at=262142)], [dict(n=262148, at=262146), dict(n=262145, at=5), dict(n=524288, at=524286)], marks=["rejected"])],
      bounds=dict(quick="all byte strings of up to 5 bytes, ten longer shapes with up to four arbitrary bytes, texts as long as the coder's buffers with two arbitrary bytes", thorough="all byte strings of up to 8 bytes"),
      outside="other long texts", quiet=True)

check("C03", "c03.cpp", BITS,
      [E("c03_round", [dict(n=1, types=t, pre=p) for t in range(6) for p in (0, 1, 63, 64)] + [dict(n=2, types=t, pre=p) for t in range(36) for p in (0, 37, 64)] + [dict(n=3, types=t, pre=61) for t in (0, 43, 36, 6)],
         [dict(n=2, types=t, pre=p) for t in range(36) for p in (1, 5, 31, 32, 33, 63)] + [dict(n=3, types=t, pre=p) for t in range(216) if t % 6 != 3 or t // 36 != 3 for p in (29,)], marks=["read"]),
       E("c03_regroup", [dict(type=t, bytes=b, rem=r, first=f) for t in range(4) for b, r, f in ((9, 3, 0), (11, 0, 5))], [dict(type=t, bytes=b, rem=r, first=f) for t in range(6) for b in (1, 8, 16, 17) for r in (0, 5) for f in (0, 1, 7)], marks=["read"]),
       E("c03_peek", [dict(bytes=b, first=f) for b, f in ((1, 0), (9, 60), (8, 56), (10, 65))], [dict(bytes=b, first=f) for b in (1, 2, 9, 17) for f in range(0, 8)] , marks=["peeked"])],
      bounds=dict(quick="all pairs of writes of every kind, with every value and every width up to the type's, at four positions in the 64-bit buffer, and triples of narrow writes; reading back 9-11 arbitrary bytes in other groupings", thorough="all pairs at six more positions; triples of writes; up to 17 bytes"),
      outside="longer sequences of writes (each starts from the buffer position the previous one left)")
check("C04", "c03.cpp", BITS,
      [E("c04_read", [dict(n=n, type=t, pick=p, first=f) for n, t, p, f in ((0, 0, 0, 8), (1, 3, 3, 64), (2, 0, 7, 8), (2, 3, 0, 64), (3, 1, 5, 3), (9, 3, 0, 64), (9, 2, 7, 31), (10, 0, 1, 8), (10, 1, 6, 15))],
         [dict(n=n, type=t, pick=p, first=f) for n in (2, 9, 10, 17) for t, f in ((0, 8), (1, 7), (2, 32), (3, 64), (3, 1)) for p in range(8)], marks=["read", "rejected"]),
       E("c04_fault", N(0, 7, 9), N(0, 1, 8, 16, 17), marks=["written", "failed"])],
      bounds=dict(quick="all streams of up to 10 bytes read in nine groupings; every point at which an output of up to 10 bytes can stop accepting bytes", thorough="all streams of up to 17 bytes, all remainders"),
      outside="longer streams")

check("C07", "c07.cpp", STR,
      [E("c07_decode_" + c, N(0, 1, 2, 3, 4), N(0, 1, 2, 3, 4, 5), marks=["decoded", "rejected"]) for c in ("char", "char8", "char16", "char32", "wchar")] +
      [E("c07_validate_" + c, N(0, 2, 3, 5 if c in ("char", "char8") else 3), N(0, 4, 8 if c in ("char", "char8") else 6), marks=["valid", "invalid"]) for c in ("char", "char8", "char16", "char32", "wchar")] +
      [E("c07_encode_" + c, [{}], marks=["encoded", "rejected"]) for c in ("char", "char8", "char16", "char32", "wchar")],
      bounds=dict(quick="all code unit sequences of up to 4 units (decoding), up to 5 bytes / 3 units (whole strings); all 2^32 codepoints", thorough="sequences of up to 5 units (decoding), strings of up to 8 bytes / 6 units; all 2^32 codepoints"),
      outside="longer strings (validation is the same loop over codepoints)")

CT = ("char", "char8", "char16", "char32", "wchar")
U8 = ("char", "char8")


check("C08", "c08.cpp", STR,
      [E(f"c08_{a}_{b}", N(0, 1, 2, 4) if a in U8 else N(1, 2, 3), N(3, 5, 6) if a in U8 else N(0, 2, 4), marks=["converted"] + (["rejected"] if True else [])) for a in CT for b in CT],
      bounds=dict(quick="all strings of up to 4 bytes (UTF-8) or 3 units, 25 pairs of character types", thorough="strings of up to 6 bytes or 4 units"),
      outside="longer strings (each codepoint is converted independently of the others)")

check("C09", "c09.cpp", STR,
      [E(f"c09_escape_{p}_{c}", N(1, 2) if c in ("char", "char16") and p == "u" else N(1), N(1, 2), marks=["round"]) for p in "uU" for c in CT] +
      [E(f"c09_escape_any_{c}", N(3 if c in U8 else 2), N(4 if c in U8 else 3)) for c in CT] +
      [E(f"c09_unescape_{c}", F([0], n=3) + [dict(form=1, n=k) for k in (0, 3, 4)] + ([dict(form=1, n=5)] if c in ("char", "char32") else []) + [dict(form=2, n=k) for k in (2, 3)] + [dict(form=3, n=k) for k in (1, 2)] + [dict(form=4, n=4)] + [dict(form=5, n=k) for k in (2,)] + [dict(form=6, n=k) for k in (0, 1, 2)],
         F([0], n=4) + [dict(form=1, n=k) for k in (5, 6)] + [dict(form=2, n=k) for k in (4, 5)] + [dict(form=3, n=3), dict(form=4, n=5), dict(form=5, n=8), dict(form=6, n=3)], marks=["unescaped", "rejected"]) for c in CT],
      bounds=dict(quick="every codepoint escaped with either prefix, every pair of codepoints for char and char16_t; all texts of up to 3 units, all escapes \\u with up to 5 arbitrary units, surrogate pairs with 3-6 arbitrary units, \\U with 4 arbitrary digits, all truncations of these", thorough="pairs of codepoints for every type, texts of 4 units, \\u with 6 and surrogate pairs with up to 8 arbitrary units, \\U with all 8 digits arbitrary"),
      outside="longer texts (escapes are processed one after another)")

HUF = ["fly/coders/coder.cpp", "fly/coders/coder_config.cpp", "fly/coders/huffman/huffman_encoder.cpp", "fly/coders/huffman/huffman_decoder.cpp", "fly/coders/huffman/types.cpp", "fly/config/config.cpp"] + BITS + JSON
check("C05", "c05.cpp", HUF,
      [E("c05_round", [dict(form=0, n=n, len=11) for n in (0, 1, 3)] + [dict(form=0, n=6, len=11), dict(form=0, n=6, len=2), dict(form=0, n=4, abc=2, len=1, high=1), dict(form=1, n=3, len=3, abc=4), dict(form=2, n=2, len=3, abc=8), dict(form=3, n=2, len=8), dict(form=3, n=1, len=11), dict(form=4, n=4, len=2), dict(form=5, n=3, len=11), dict(form=6, n=2, len=4), dict(form=7, n=2, len=3), dict(form=8, n=2, len=5)],
         [dict(form=0, n=4, abc=8, len=3), dict(form=0, n=7, abc=4, len=2)], marks=["round"]),
       E("c05_table", [dict(form=0, n=4, len=2), dict(form=1, n=3, len=3), dict(form=2, n=2, len=3, abc=8), dict(form=8, n=2, len=4), dict(form=6, n=2, len=4), dict(form=7, n=2, len=3)], [dict(form=0, n=6, len=2)], marks=["table"]),
       E("c05_file", [dict(form=0, n=3), dict(form=0, n=0), dict(form=4, n=3)], marks=["file"]),
       E("c05_config", [dict(form=1, n=1), dict(form=0, n=1)], [dict(form=3, n=1)], marks=["round", "refused"])], quiet=True,
      bounds=dict(quick="messages of up to 6 symbols of a 4-symbol alphabet; 8 longer messages (skewed and Fibonacci frequencies, all 256 symbols, chunk boundary at 1 KB, two chunks) with 1-4 arbitrary further symbols; code length limits 1-15, all limits and chunk sizes 0-3 KB for two messages; files", thorough="messages of up to 7 symbols, 8-symbol alphabets, all configurations with all 256 symbols"), outside="messages whose free part is longer; chunk sizes above 3 KB")
check("C06", "c05.cpp", HUF,
      [E("c06_bytes", F([0], n=0) + [dict(n=n, form=1) for n in (0, 1, 2, 4, 5, 6, 8)] + [dict(n=3, form=0)]),
       E("c06_table", [dict(len=l, counts=c, n=n, rem=r) for l, c, n, r in ((2, 3, 4, 0), (2, 2, 3, 5), (1, 2, 4, 1), (3, 4, 3, 0), (2, 0, 6, 0), (4, 2, 3, 7), (1, 3, 1, 0))] + [dict(len=3, counts=3, n=0, big=1, mask=255)], marks=["decoded", "rejected"]),
       E("c06_many", [dict(len=9), dict(len=8), dict(len=9, also=8), dict(len=15)], marks=["done"]),
       E("c06_corrupt", [dict(len=3), dict(len=3, cut=1), dict(len=4, form=1), dict(len=4, form=1, cut=1)], marks=["decoded", "rejected"])], quiet=True,
      bounds=dict(quick="all streams of up to 9 bytes (chunk size at most 2 KB); valid headers followed by every table of up to 4 code lengths with small counts and 3-4 arbitrary bytes; two valid streams cut short at every position or with any one byte replaced by any other; tables of 240-271 codes", thorough="same with more arbitrary bytes"), outside="longer arbitrary streams; chunk sizes above 2 KB (the buffer is allocated up front)")

PJ = ["fly/parser/json_parser.cpp", "fly/parser/parser.cpp"] + JSON
check("C10", "c10.cpp", PJ, [E("c10_shape", F(range(1, 43)) + F([40, 41, 42], features=4), marks=["accepted", "rejected"]), E("c10_bytes", N(0, 1, 2, 3, 4, 5) + [dict(n=3, features=4)], [dict(n=6), dict(n=5, features=4)]), E("c10_tokens", [dict(form=0, n=6), dict(form=1, n=7), dict(form=2, n=5), dict(form=3, n=5)], [dict(form=0, n=8), dict(form=1, n=9), dict(form=2, n=8), dict(form=3, n=7)])] +
      [E(f"c10_wide_{c}", N(1, 2) if c != "char8" else N(2, 3), marks=["accepted", "malformed"]) for c in ("char8", "char16", "char32", "wchar")] + [E("c10_file", [dict(form=f, text=t) for f in (0, 1) for t in (0, 1, 2, 3)] + F([2, 3, 4, 5]), marks=["accepted", "rejected"])], quiet=True,
      bounds=dict(quick="all texts of up to 5 bytes; 42 longer shapes with 1-4 arbitrary positions (strings, escapes, numbers, nesting, separators, trailing data); all texts over the grammar's characters of up to 5-7; UTF-8/16/32 strings and files with one arbitrary codepoint or 1-2 arbitrary units", thorough="all texts of up to 6 bytes, grammar characters up to 7-9"), outside="longer texts outside the listed shapes; nesting deeper than the stack allows; the value of floating-point numbers (only that they are floating point)")
check("C11", "c10.cpp", PJ, [E("c11_shape", F(range(0, 32)), marks=["accepted", "rejected"]), E("c11_tokens", N(3, 4, 5), N(6, 7)), E("c11_same", F([1, 2, 4, 14, 15, 16, 18, 33, 35]), F([3, 5, 9]))], quiet=True,
      bounds=dict(quick="32 shapes with 1-3 arbitrary bytes under all 8 feature combinations; all texts '[1' plus up to 5 characters of /*,] newline space 2", thorough="up to 7 such characters"), outside="longer texts outside the listed shapes")

CPS = [0, 0x80, 0x7c0, 0xfc0, 0x2000, 0xd780, 0xdff0, 0xff80, 0x1f300, 0x10ff00]
check("C12", "c12.cpp", PJ, [E("c12_string", N(0) + [dict(n=1, base=b) for b in CPS] + [dict(n=2, base=b, next=x) for b, x in ((0, 0), (0xff80, 0x7c0), (0x1f300, 0))], N(1) + [dict(n=2, base=b, next=x) for b in CPS for x in CPS] + [dict(n=3, base=0)], marks=["round"]),
      E("c12_key", [dict(n=1, base=b) for b in (0, 0x7c0, 0xff80)] + [dict(n=1, two=1, base=0)], [dict(n=1, base=b) for b in CPS] + [dict(n=2, base=0)], marks=["round"]),
      E("c12_number", [dict(base=b, neg=g) for b, g in ((0, 0), (1, 1), (950, 0), (99990, 1), ((1 << 63) - 200, 0), ((1 << 63) - 255, 1), ((1 << 64) - 256, 0))], [dict(base=b, neg=g, mask=0xfff) for b, g in ((0, 0), (1, 1), ((1 << 64) - 4096, 0))], marks=["round"]), E("c12_every", marks=["round"]), E("c12_nested", [dict(depth=1)], [dict(depth=2)], marks=["round"])], quiet=True,
      bounds=dict(quick="strings and keys: every codepoint alone, pairs from selected ranges; integers: 256 consecutive values in 7 places incl. all limits; every value with one level of nesting, up to two children, over all scalar types with an arbitrary ASCII character in strings and keys", thorough="pairs over 10 ranges, triples of ASCII, two levels of nesting, 4096 consecutive integers"), outside="longer strings, deeper nesting, other integers (formatting of all integers is C22, reading them C21), floating-point values")
check("C13", "c12.cpp", PJ, [E("c13_bytes", N(0, 1, 2, 3, 4), N(5), marks=["accepted"]), E("c13_shape", F(range(17)), marks=["accepted", "rejected"]), E("c13_char8", N(2, 3), marks=["accepted", "rejected"])] + [E(f"c13_{c}", N(1, 2), N(3), marks=["accepted", "rejected"]) for c in ("char16", "char32", "wchar")], quiet=True,
      bounds=dict(quick="all texts of up to 4 bytes (2 units in the wider encodings) and 17 longer shapes with arbitrary positions, as value and as object key", thorough="all texts of up to 5 bytes, 3 units"), outside="longer texts outside the listed shapes")

check("C18", "c18.cpp", STR,
      [E(f"c18_trim_{c}", N(0, 1, 3, 4), N(5, 6), marks=["trimmed"]) for c in CT] +
      [E(f"c18_split_{c}", N(0, 3, 5), N(6, 7), marks=["several"]) for c in CT] +
      [E(f"c18_join_{c}", N(0, 2), N(1, 3), marks=["clean"]) for c in CT] +
      [E(f"c18_replace_{c}", N(0, 4), N(3, 5, 6), marks=["replaced"]) for c in CT],
      bounds=dict(quick="all strings of up to 5 units with any delimiter and count, search strings of up to 2 units, replacements of up to 2", thorough="strings of up to 7 units"),
      outside="longer strings and search strings")

check("C19", "c19.cpp", STR,
      [E(f"c19_{c}", [dict(n=n, m=m) for n in (0, 1, 3) for m in (0, 1, 2, 3)] + [dict(n=4, m=3)], [dict(n=n, m=m) for n in (3, 4) for m in (4, 5)] + [dict(n=5, m=3)], marks=["match", "mismatch"]) for c in CT],
      bounds=dict(quick="all texts of up to 4 units against all patterns of up to 3 units", thorough="texts of up to 5 units, patterns of up to 5 units"), outside="longer texts and patterns")

check("C20", "c20.cpp", STR, [E(f"c20_{c}", marks=["done"]) for c in CT] + [E(f"c20_size_{c}") for c in CT],
      bounds=dict(quick="every value of every character type (no bound)", thorough="same"), outside="nothing for classification; sizes of texts longer than 3 units")

INTS = {"i8": 3, "u8": 3, "i16": 5, "u16": 5, "i32": 10, "u32": 10, "i64": 19, "u64": 20}


def c21(t, thorough=False):
    m = (1 << (int(t[1:]) - (t[0] == "i"))) - 1
    d = len(str(m))
    if d <= 5:
        r = F([0], n=4 if thorough else 3) + F([0], n=0) + F([1, 2], n=d) + F([1], n=d + 1) + F([4], n=2) + F([2], n=0)
        return r + (F([1, 2], n=d + 2) + F([0], n=5) if thorough else [])
    k = 4 if thorough else 2
    r = F([0], n=3 if not thorough else 4) + F([1, 2], n=3) + F([4], n=2) + F([2], n=0)
    for b in [m // 10 ** k, m // 10 ** (k - 1)] + ([10 ** (d - k) - 1, 10 ** (d - k - 1)] if t[0] == "u" or thorough else []):  # around the limits, one digit more, all nines, the shortest
        r += [dict(form=5, n=k, base=b)] + ([dict(form=6, n=k, base=b)] if t[0] == "i" else [])
    return r


check("C21", "c21.cpp", STR,
      [E(f"c21_{c}_{t}", c21(t), c21(t, True), marks=["converted", "rejected"]) for c in CT for t, d in INTS.items() if c in ("char", "char16") or t in ("i8", "u64")] +
      [E(f"c21_lexer_{c}", F([0], n=3) + [dict(form=5, n=3, base=(1 << 64) // 1000), dict(form=5, n=3, base=(1 << 64) // 100), dict(form=9, base=14, n=2), dict(form=9, base=14, n=3), dict(form=8, base=19, n=3), dict(form=3, n=2), dict(form=4, n=3)],
         F([0], n=4) + [dict(form=5, n=5, base=(1 << 64) // 100000), dict(form=9, base=13, n=4), dict(form=3, n=4), dict(form=1, n=9)], marks=["number", "none"]) for c in CT] +
      [E(f"c21_walk_{c}", N(0, 2), N(1, 3)) for c in CT],
      bounds=dict(quick="all texts of up to 3 units for every type; 8- and 16-bit types: all digit strings up to one digit longer than the limits; 32- and 64-bit types: all digit strings that share their leading digits with the limits or with the shortest or longest strings of that length, last 2-3 digits arbitrary; lexers likewise around 2^64", thorough="all texts of up to 4-5 units, last 4-5 digits arbitrary"),
      outside="longer texts; long digit strings whose leading digits differ from those listed")

check("C24", "c24.cpp", [], [E(f"c24_{t}", marks=["done"]) for t in INTS], bounds=dict(quick="every value of every supported width (no bound)", thorough="same"), outside="nothing")

check("C25", "c25.cpp", STR, [E("c25_parse", F(list(range(0, 5)) + list(range(6, 23))), F([5]), marks=["accepted", "rejected"]), E("c25_print", marks=["printed"]), E("c25_order", marks=["done"])],
      bounds=dict(quick="all texts of up to 4 bytes and 17 longer shapes with every digit (and selected other positions) arbitrary; all 2^32 addresses printed and re-read", thorough="all texts of up to 5 bytes"),
      outside="longer texts outside the listed shapes")
check("C26", "c26.cpp", STR, [E("c26_parse", F(list(range(0, 5)) + list(range(6, 28))), F([5]), marks=["accepted", "rejected"]), E("c26_print", [dict(at=k) for k in (0, 7)], [dict(at=k) for k in range(1, 7)], marks=["printed"]), E("c26_order", marks=["done"])],
      bounds=dict(quick="all texts of up to 4 bytes and 22 longer shapes with arbitrary positions; printing for all 256 patterns of zero groups with one group arbitrary", thorough="all texts of up to 5 bytes; the arbitrary group in every position"),
      outside="longer texts outside the listed shapes; printing with several groups arbitrary at once (groups are printed independently)")
check("C27", "c27.cpp", STR, [E("c27_parse4", F(range(0, 16)), marks=["accepted", "rejected"]), E("c27_parse6", F(range(0, 17)), marks=["accepted", "rejected"]), E("c27_print4", [dict(at=k) for k in (0, 3)], [dict(at=k) for k in (1, 2)], marks=["printed"]), E("c27_print6", marks=["printed"]), E("c27_order", marks=["done"])],
      bounds=dict(quick="all texts of up to 4 bytes and 11-12 longer shapes with arbitrary positions; printing for all ports with one address octet arbitrary", thorough="same"), outside="longer texts outside the listed shapes")

check("C14", "c14.cpp", JSON, [E("c14_pair", [dict(a=1 << i, b=1 << k) for i in range(8) for k in range(8) if i + k != 14] + [dict(a=128, b=128, floats=2), dict(a=128, b=128, floats=0), dict(a=4, b=4, depth=1), dict(a=8, b=8, depth=1)], [dict(a=8, b=8, depth=1, inner=0xc0, floats=0), dict(a=12, b=12, depth=1, inner=0xff)], marks=["equal", "different"]),
      E("c14_self", [dict(a=1 << i) for i in range(8)], marks=["equal"]), E("c14_order", [dict()], marks=["chain", "same"])], quiet=True,
      bounds=dict(quick="all pairs of scalar values of every kind (all 2^64 signed and unsigned integers, all finite and infinite 80-bit floats, strings and keys of up to 2 arbitrary ASCII characters), containers of up to two scalar children; triples of integers, floats and strings for transitivity", thorough="containers with children of every scalar kind"), outside="NaN; larger containers; deeper nesting")
check("C15", "c15.cpp", JSON, [E("c15_array", [dict(steps=2, start=2), dict(steps=3, start=0)], [dict(steps=3, start=1)], marks=["done"]), E("c15_object", [dict(steps=1, start=4), dict(steps=2, start=2)], [dict(steps=3, start=1)], marks=["done"]), E("c15_walk", [dict(n=n, const=c) for n in (0, 1, 3) for c in (0, 1)] + [dict(n=2, const=c, far=f) for f in (0x7f, 0x80, 0x10, 0xff) for c in (0, 1)], [dict(n=5, const=c) for c in (0, 1)], marks=["landed", "left"]), E("c15_wrong", marks=["refused", "applied"]), E("c15_clear", marks=["done"]), E("c15_list", marks=["done"])], quiet=True,
      bounds=dict(quick="every sequence of 2-3 operations on arrays (0-2 elements) and of 1-2 on objects (2-4 keys), arguments and positions arbitrary; iterator arithmetic from every position of containers of up to 3 elements with every offset in five 256-value windows; every operation on a value of every wrong kind", thorough="sequences of 3 operations from non-empty containers; containers of 5 elements"), outside="longer histories; larger containers; the most negative iterator offset (its negation overflows)")
RT = list(INTS)


def c16t(t):
    m = (1 << (int(t[1:]) - (t[0] == "i"))) - 1
    return [dict(form=0, n=n) for n in (0, 1, 3)] + [dict(form=1 + k, base=m // (1000 if m > 255 else 10) + e, n=3 if m > 255 else 1) for k in range(2) for e in (0, 1)]


check("C16", "c16.cpp", JSON, [E("c16_num_" + t, marks=["converted", "refused"]) for t in RT + ["f32", "f64", "f80"]] + [E("c16_text_" + t, c16t(t), marks=["converted", "refused"]) for t in RT] + [E("c16_textreal", marks=["done"]), E("c16_bool", marks=["true", "false"]), E("c16_array", marks=["done"]), E("c16_object", marks=["done"]), E("c16_wrong", marks=["refused", "converted"])] + [E("c16_str_" + c, marks=["converted", "refused"]) for c in CT], quiet=True,
      bounds=dict(quick="every value of every arithmetic kind converted to every integer width and bool, integers to every float type; texts of up to 3 characters and digit strings around every limit; strings of one arbitrary codepoint to every string type; arrays and objects of up to 3 scalars to every container", thorough="same"), outside="floating-point values outside the range of the integer asked for (the language leaves that conversion undefined); longer strings and containers")
INI = ["fly/parser/ini_parser.cpp", "fly/parser/parser.cpp"] + JSON
check("C17", "c17.cpp", INI, [E("c17_shape", F(range(39)) + F([4, 12], file=1), marks=["accepted", "rejected"]), E("c17_bytes", N(0, 1, 2, 3), N(4, 5), marks=["rejected"]), E("c17_lines", [dict(form=0, n=5), dict(form=1, n=5)], [dict(form=0, n=7), dict(form=1, n=7)], marks=["accepted", "rejected"]), E("c17_again", marks=["accepted", "rejected"])], quiet=True,
      bounds=dict(quick="all texts of up to 3 bytes; 39 documents with 1-3 arbitrary bytes; a section followed by all texts of 5 characters over k='\" newline space, and over []newline a;k", thorough="texts of up to 5 bytes, 7 such characters"), outside="longer texts outside the listed shapes; byte order marks (C10)")


def c22i(t, full=None):
    b, s = int(t[1:]) if t != "ll" else 64, t[0] != "u"
    m = 1 << b
    w = [0] if b == 8 else [0, 900, m // 2 - 128, m - 256]
    return [dict(base=x, **({"full": full} if full else {})) for x in w]


OTHER = [("char8", "char"), ("wchar", "char"), ("char8", "char16"), ("wchar", "char16"), ("char8", "char32"), ("wchar", "char32"), ("char16", "char"), ("char32", "char"), ("char32", "char16"), ("char", "wchar"), ("char", "char8")]
check("C22", "c22.cpp", STR, [E(f"c22_int_{t}_char", c22i(t), c22i(t, 1), marks=["formatted"]) for t in list(INTS) + ["ll"]] +
      [E(f"c22_int_i32_{c}_", [dict(base=900)], [dict(base=0), dict(base=(1 << 32) - 256)], marks=["formatted"]) for c in CT] +
      [E(f"c22_{k}_{c}", [{}], [dict(full=1)], marks=["formatted"]) for k in ("bool", "several") for c in CT] +
      [E(f"c22_str_{c}", N(0, 2), [dict(n=k, full=1) for k in (1, 3)], marks=["formatted"]) for c in CT] +
      [E(f"c22_ptr_{c}", [dict(base=0), dict(base=(1 << 47) - 256)], [dict(base=(1 << 64) - 256, full=1)], marks=["formatted"]) for c in CT] +
      [E(f"c22_chr_{t}_{c}", [{}], [dict(full=1)], marks=["formatted"]) for t in CT + ("i8", "u16", "i64") for c in CT] +
      [E(f"c22_other_{v}_{c}", marks=["formatted"]) for v, c in OTHER], cflags=["-DFLY_COMPILER_DISABLE_CONSTEVAL"],
      bounds=dict(quick="integers of every width and signedness in 256-value windows at 0, 900 and both limits with every type, sign, alternate form and zero padding and 7 combinations of fill (any ASCII), alignment and width (fixed, nested, negative nested); every value of every character type in every format type; booleans, pointers, strings of up to 2 arbitrary units with every precision up to 2, strings of one arbitrary codepoint converted between encodings", thorough="every combination of 7 fills and alignments with 9 widths; strings of 3 units"), outside="other integers (the digits are those of std::to_chars); longer strings; locale-specific form; floating-point values")
FMT3 = [3, 5, 19, 25]  # shapes with three arbitrary positions
check("C23", "c23.cpp", STR, [E("c23_shape_char", [dict(form=f, args=a) for f in range(32) if f not in FMT3 for a in ((0, 1, 2, 3, 4, 5, 6, 7) if f in (2, 15) else (1, 3, 7) if f in (1, 7, 14) else (7,) if f % 2 else (0,))] + [dict(form=f, args=7) for f in (3,)], [dict(form=f, args=a) for f in FMT3 for a in (0, 1, 2, 3, 7)], marks=["accepted", "rejected"]), E("c23_units_char", [dict(n=n, args=a) for n in (1, 2) for a in (0, 6)] + [dict(n=3, args=0)], [dict(n=4, args=1)], marks=["rejected"]),
      E("c23_tokens_char", [dict(n=5, args=0), dict(n=4, args=7, **{"in": 1})], [dict(n=6, args=0), dict(n=5, args=1, **{"in": 1}), dict(n=5, args=3, **{"in": 1})], marks=["accepted", "rejected"]), E("c23_many", marks=["accepted", "rejected"])] +
      [E(f"c23_shape_{c}", [dict(form=f, args=a) for f, a in ((2, 1), (6, 7), (14, 0))], F(range(32), args=7), marks=["accepted", "rejected"]) for c in CT if c != "char"] +
      [E(f"c23_units_{c}", [dict(n=2, args=0)], [dict(n=3, args=0)]) for c in CT if c != "char"], cflags=["-DFLY_COMPILER_DISABLE_CONSTEVAL"],
      bounds=dict(quick="all format strings of up to 3 units (char), 2 (other types); 32 shapes with 1-3 arbitrary units and 8 argument lists; fields filled with all texts of 4 characters over <+#01.Lds{}; all texts of 5 characters over {}:01a; 64 and 65 fields", thorough="4 units, 6 and 5 such characters"), outside="longer format strings outside the listed shapes; the digits of floating-point values; widths above 40 (accepted or rejected, not rendered)")
check("C34", "c34.cpp", [], [
      E("c34_blocking", [dict(p=1, c=2, k=2, pops=1), dict(p=1, c=1, k=3, pops=3), dict(p=2, c=1, k=2, pops=3), dict(p=1, c=2, k=2, pops=1, stack=1), dict(p=2, c=1, k=1, pops=2, stack=1)], preempt=dict(quick=3, thorough=5), marks=["done"]),
      E("c34_blocking", [dict(p=2, c=2, k=1, pops=1), dict(p=2, c=2, k=1, pops=1, stack=1)], [dict(p=2, c=2, k=2, pops=2)], preempt=dict(quick=2, thorough=3), marks=["done"]),
      E("c34_timed", [dict(p=1, c=1, k=2, pops=2), dict(p=1, c=2, k=2, pops=1), dict(p=1, c=1, k=2, pops=2, stack=1), dict(p=2, c=1, k=1, pops=2)], preempt=dict(quick=3, thorough=5), timeouts=3, marks=["done"]),
      E("c34_sequence", [dict(n=6), dict(n=6, stack=1)], [dict(n=8)], marks=["popped"])], threads=True,
      bounds=dict(quick="every interleaving with up to three preemptions (two for two producers and two consumers) of up to two producers and two consumers, up to three items each; every sequence of six operations", thorough="up to five preemptions; eight operations"),
      outside="more threads, items and preemptions; weak memory orders (every access is checked to be ordered by synchronisation)")
TASK = ["fly/task/task_manager.cpp", "fly/task/task_runner.cpp"]
check("C32", "c32.cpp", TASK, [
      E("c32_order", [dict(p=1, k=2, w=1), dict(p=2, k=1, w=1)], preempt=dict(quick=2, thorough=3), timeouts=1, marks=["done"]),
      E("c32_order", [dict(p=1, k=2, w=2), dict(p=2, k=1, w=2)], preempt=dict(quick=1, thorough=2), timeouts=1, marks=["done"]),
      E("c32_reply", [dict(k=1, w=1)], preempt=dict(quick=2, thorough=3), timeouts=1, marks=["done"]), E("c32_reply", [dict(k=1, w=2)], preempt=dict(quick=1, thorough=2), timeouts=1, marks=["done"]),
      E("c32_nested", [dict(w=1)], preempt=dict(quick=2, thorough=3), timeouts=1, marks=["done"]), E("c32_nested", [dict(w=2)], preempt=dict(quick=1, thorough=2), timeouts=1, marks=["done"])], threads=True,
      bounds=dict(quick="every interleaving of up to two posting threads, up to two workers and the timer thread, two or three tasks, with up to two preemptions (one with two workers) and one timed wait running out early", thorough="one more preemption"),
      outside="more threads, tasks and preemptions; preemption at reference count updates; weak memory orders (every access is checked to be ordered by synchronisation)")

check("C33", "c33.cpp", TASK, [
      E("c33_parallel", [dict(p=1, k=2, w=1), dict(p=2, k=1, w=1)], preempt=dict(quick=2, thorough=3), timeouts=1, marks=["done"]),
      E("c33_parallel", [dict(p=1, k=2, w=2), dict(p=2, k=1, w=2)], preempt=dict(quick=1, thorough=2), timeouts=1, marks=["done"]),
      E("c33_reply", [dict(owned=o, delayed=d, w=w) for o in (0, 1) for d in (0, 1) for w in (1, 2)], preempt=dict(quick=1, thorough=2), timeouts=1, marks=["done"]),
      E("c33_delay", [dict(k=1, w=1), dict(k=2, w=1, base=1), dict(k=2, w=1, base=3)], preempt=dict(quick=1, thorough=2), timeouts=1, marks=["done"]),
      E("c33_owner", [dict(delayed=d, early=e) for d in (0, 1) for e in (0, 1)], preempt=dict(quick=2, thorough=3), timeouts=1, refcounts=True, marks=["done", "skipped"]),
      E("c33_stop", [dict(again=a, delayed=d) for a in (0, 1) for d in (0, 1)], preempt=dict(quick=1, thorough=2), timeouts=1, marks=["done"]),
      E("c33_two_stops", [dict(w=1)], preempt=dict(quick=2, thorough=3), timeouts=1, marks=["done"]),
      E("c33_runner_gone", [dict(delayed=d) for d in (0, 1)], preempt=dict(quick=1, thorough=2), timeouts=1, marks=["done"]),
      ], threads=True,
      bounds=dict(quick="every interleaving of up to two posting threads, up to two workers and the timer thread with up to two tasks, one or two preemptions, one timed wait running out early; delays of 0 to 25 ms of virtual time; owners and runners destroyed at any point; stop at any point and restart", thorough="one more preemption"),
      outside="more threads, tasks and preemptions; weak memory orders (every access is checked to be ordered by synchronisation)")

LOGGER = ["fly/logger/log.cpp", "fly/logger/logger.cpp", "fly/logger/logger_config.cpp", "fly/logger/styler.cpp", "fly/logger/detail/console_sink.cpp", "fly/logger/detail/file_sink.cpp",
          "fly/logger/detail/registry.cpp", "fly/logger/detail/styler_proxy.cpp", "fly/logger/detail/nix/styler_proxy_impl.cpp", "fly/config/config.cpp", "fly/system/system.cpp", "fly/system/nix/system_impl.cpp"] + JSON + TASK
CODERS = ["fly/coders/coder.cpp", "fly/coders/coder_config.cpp", "fly/coders/huffman/huffman_encoder.cpp", "fly/coders/huffman/huffman_decoder.cpp", "fly/coders/huffman/types.cpp"] + BITS
check("C36", "c36.cpp", LOGGER + CODERS, [
      E("c36_sync", [dict(n=2, len=3), dict(n=3, len=1, form=1)], [dict(n=3, len=3)], marks=["delivered", "stopped"]),
      E("c36_threads", [dict(k=2)], [dict(k=3)], preempt=dict(quick=4, thorough=5), marks=["done"]),
      E("c36_async", [dict(p=1, k=2), dict(p=2, k=1), dict(p=1, k=3, failAt=0)], preempt=dict(quick=1, thorough=2), timeouts=1, marks=["done"]), E("c36_async", [dict(p=1, k=2)], preempt=2, timeouts=1, marks=["done"])], threads=True,
      bounds=dict(quick="every sequence of up to three records of any level, line and message of up to three bytes, limits up to the length, a sink that refuses any record; every interleaving of two threads and a synchronous logger with up to four preemptions, of one or two threads and an asynchronous logger with one or two", thorough="messages of three bytes in sequences of three; five (two) preemptions"),
      outside="more records, threads and preemptions; messages with other format strings (C22, C23)")
check("C38", "c38.cpp", LOGGER + CODERS, [
      E("c38_sequence", N(4) + [dict(n=3, reserved=1)], N(5), marks=["created", "refused"]),
      E("c38_default", [{}], marks=["done"]),
      E("c38_threads", [dict(t=2)], preempt=dict(quick=4, thorough=6), marks=["one", "several"]), E("c38_threads", [dict(t=3)], preempt=dict(quick=2, thorough=3), marks=["one", "several"])], threads=True,
      bounds=dict(quick="every sequence of four operations (create, destroy, failing create, lookups) on two names with any character, every interleaving of two (three) threads with up to four (two) preemptions, sequences of three changes of the default logger", thorough="five operations; six (three) preemptions"),
      outside="longer sequences, more names and threads; setting the default logger while others log (documented as unsupported)")

check("C37", "c37.cpp", LOGGER + CODERS, [
      E("c37_rotate", [dict(n=3), dict(n=2, mode=1), dict(n=2, mode=2)], [dict(n=4), dict(n=3, mode=1)], marks=["rotated", "appended"]),
      E("c37_full", N(3), marks=["written", "failed"]), E("c37_nodir", [{}], marks=["refused"])], quiet=True,
      bounds=dict(quick="histories of up to three records with every message length in a small range around the file-size limit, with and without compression, and with the compressed file impossible to create; the disk filling up at any byte of three records; a directory that cannot be created", thorough="four records; three with compression"),
      outside="more records; the wall-clock text of the log lines (a model of strftime with fixed time zone); other kinds of I/O error than a full disk; concurrent sinks on one directory (file names are random)")

check("C40", "c40.cpp", ["fly/system/system_monitor.cpp", "fly/system/nix/system_monitor_impl.cpp", "fly/system/system_config.cpp", "fly/system/system.cpp", "fly/system/nix/system_impl.cpp", "fly/config/config.cpp"] + JSON + TASK, [
      E("c40_cpu", F(range(3)), marks=["measured", "kept"]), E("c40_damaged", [{}], marks=["read"]), E("c40_count", N(3), N(5), marks=["some", "none"]),
      E("c40_process", [dict(cpus=c) for c in (1, 2, 8)], [dict(cpus=c) for c in (3, 5, 7, 64)], marks=["measured", "kept"]), E("c40_memory", [{}], marks=["read"]), E("c40_resident", [{}], marks=["read"])], quiet=True,
      bounds=dict(quick="two successive readings of /proc/stat with any two of the four counters moving by -1 to 14 from three starting points, any byte at any place of a reading, five malformed readings; files of up to three lines for the processor count; all clock readings up to 7 ticks apart with 1, 2 and 8 processors; any memory size below 2^50 units; any digit in the process's memory", thorough="five lines; other processor counts"),
      outside="larger steps of the counters; the polling loop (tasks: C32, C33); readings in which the process used more time than all processors have")

check("C39", "c39.cpp", ["fly/path/path_monitor.cpp", "fly/path/nix/path_monitor_impl.cpp", "fly/path/path_config.cpp", "fly/config/config.cpp", "fly/system/system.cpp", "fly/system/nix/system_impl.cpp"] + JSON + TASK, [
      E("c39_history", [dict(n=4, first=f) for f in range(12)], [dict(n=5, first=f) for f in range(12)], marks=["done"]), E("c39_batch", [dict(k=2)], [dict(k=3)], marks=["some", "none"]),
      E("c39_full", N(255, 1), marks=["done"]), E("c39_none", [{}], marks=["done"]),
      E("c39_race", [dict(kind=k) for k in (0, 1)], preempt=dict(quick=4, thorough=6), marks=["done"]), E("c39_arrive", [dict(remove=k) for k in (0, 1)], preempt=dict(quick=4, thorough=6), marks=["done"]),
      E("c39_loop", [dict(twice=0)], preempt=dict(quick=2, thorough=3), timeouts=1, marks=["done"]), E("c39_loop", [dict(twice=1)], preempt=dict(quick=1, thorough=2), timeouts=1, marks=["done"])], threads=True, quiet=True,
      bounds=dict(quick="every history of 4 registrations, replacements, removals and refused calls over two directories and two files, then an event of any kind for every name in every watch; any two events of any kind for own and foreign watches, cut into reads anywhere; full buffers; removal racing with a registration or with arriving events; the polling loop with up to two batches, two preemptions", thorough="histories of 5, three events, six preemptions (three in the loop)"),
      outside="a directory registered under two spellings; a registered directory that is itself deleted; callbacks that call the monitor (they run under its lock); damaged kernel buffers; the macOS and Windows monitors")

check("C35", "c35.cpp", ["fly/path/path_monitor.cpp", "fly/path/nix/path_monitor_impl.cpp", "fly/path/path_config.cpp", "fly/config/config.cpp", "fly/config/config_manager.cpp", "fly/parser/ini_parser.cpp", "fly/system/system.cpp", "fly/system/nix/system_impl.cpp"] + PJ + TASK, [
      E("c35_" + t, [dict(kind=k) for k in range(10)], marks=["default"] + (["configured"] if t != "vector" else [])) for t in ("i8", "u16", "i64", "u64", "bool", "double", "string", "vector")] + [
      E("c35_file", [dict(k=2), dict(k=2, ini=1)], [dict(k=3), dict(k=3, ini=1)], preempt=dict(quick=0, thorough=0), timeouts=0, marks=["done"]),
      E("c35_reading", [dict(ini=0)], preempt=dict(quick=1, thorough=2), timeouts=0, marks=["done", "new", "old"]),
      E("c35_creating", [{}], preempt=dict(quick=1, thorough=2), timeouts=0, marks=["done", "new", "old"]),
      E("c35_drop", [{}], preempt=dict(quick=2, thorough=3), timeouts=0, marks=["done"])], threads=True, quiet=True,
      bounds=dict(quick="lookups of eight types in values of ten kinds with every value of one byte, present, absent or in a value that is no object; two changes of the file to any of eight contents (JSON and INI), configurations created before or after; lookups, and the creation of another configuration, concurrent with one change (one preemption); the manager dropped while a change is being reported (two preemptions)", thorough="three changes; two and three preemptions"),
      outside="other file contents (parsers: C10, C11, C17); the virtual clock bounds polling; more than two configurations; the kernel's change notifications are played by the harness; a file that exists before its manager is created is read at its first change (as the library is designed), which the check does not judge")

NET = ["fly/net/" + f for f in ("network_config.cpp", "socket/socket_service.cpp", "socket/tcp_socket.cpp", "socket/udp_socket.cpp", "socket/listen_socket.cpp", "socket/detail/base_socket.cpp", "socket/detail/nix/socket_operations.cpp")] + ["fly/config/config.cpp", "fly/system/system.cpp", "fly/system/nix/system_impl.cpp"] + JSON + TASK
P0 = dict(preempt=dict(quick=0, thorough=1), timeouts=0)
P1 = dict(preempt=dict(quick=1, thorough=2), timeouts=0)
check("C28", "c28.cpp", NET, [
      E("c28_send", [dict(n=3), dict(n=2, count=2), dict(n=0)], [dict(n=5, blocks=2)], marks=["done"], **P0), E("c28_send6", [dict(n=2)], marks=["done", "sent", "failed"], **P0),
      E("c28_burst", [dict(n=2)], [dict(n=3)], marks=["done", "sent", "failed"], **P1),
      E("c28_receive", [dict(n=3), dict(n=5, count=2)], [dict(n=6, count=3)], marks=["done", "received", "failed"], **P0), E("c28_receive6", [dict(n=2)], marks=["done"], **P0),
      E("c28_closed", [{}], marks=["done"], **P1), E("c28_many", [dict(fd=f) for f in (1022, 1024, 5000)], marks=["done"], **P0)], threads=True, quiet=True,
      bounds=dict(quick="messages of up to three bytes with every byte value, every split into partial sends, up to one would-block result and one delayed or interrupted select per operation, every error number at every point; two messages in sequence and two queued at once (one preemption); sockets closed beforehand; descriptors 1022, 1024 and 5000", thorough="five bytes, two would-block results, one more preemption"),
      outside="longer messages; interrupted (EINTR) transfers, which the library treats as fatal; other pending operations of a socket closed by an error (documented: dropped); closing a socket from one thread while another uses it; Windows and macOS")
check("C29", "c28.cpp", NET, [
      E("c29_send", [dict(n=3, packet=2), dict(n=2, count=2), dict(n=0)], [dict(n=5, blocks=2)], marks=["done"], **P0), E("c29_send6", [dict(n=2)], marks=["done", "sent", "failed"], **P0),
      E("c29_burst", [dict(n=2), dict(n=1, host=1)], [dict(n=3)], marks=["done", "sent", "failed"], **P1),
      E("c29_receive", [dict(n=3), dict(n=5, count=2)], [dict(n=6, count=3)], marks=["done", "received", "failed"], **P0), E("c29_receive6", [dict(n=2)], marks=["done"], **P0),
      E("c29_closed", [{}], marks=["done"], **P1)], threads=True, quiet=True,
      bounds=dict(quick="as for TCP, over IPv4 and IPv6 with packet sizes of two and four bytes, endpoints by address and by name, empty datagrams", thorough="five bytes, two would-block results, one more preemption"),
      outside="as for TCP; datagrams cut by the system because they are larger than the packet size")
check("C31", "c31.cpp", NET, [
      E("c31_history", [dict(n=4, first=f) for f in (0, 1)], [dict(n=5, first=f) for f in (0, 1)], marks=["done", "all", "removed"], **P0)], threads=True, quiet=True,
      bounds=dict(quick="every history of four steps on two sockets: requests in either direction, select reporting any subset, nothing or an error, removals, closing", thorough="five steps, one preemption"),
      outside="longer histories, more sockets; removal from another thread while the socket is being notified (documented as not cancelled)")
check("C30", "c30.cpp", NET, [
      E("c30_tcp", [dict(n=5), dict(n=4, refuse=1)], [dict(n=6), dict(n=5, refuse=1)], marks=["done"]), E("c30_udp", [dict(n=4), dict(n=3, refuse=1)], [dict(n=5), dict(n=4, refuse=1)], marks=["done"]), E("c30_listen", [dict(n=5), dict(n=4, refuse=1)], [dict(n=6), dict(n=5, refuse=1)], marks=["done"]),
      E("c30_connect", [{}], marks=["done", "connected", "refused"], **P0), E("c30_connect6", [{}], marks=["done", "connected", "refused"], **P0), E("c30_accept", [{}], marks=["done", "accepted", "failed"], **P0)], threads=True, quiet=True,
      bounds=dict(quick="every history of five (UDP: four) steps on two slots - create, destroy, close, move-construct, move-assign, change of mode, connect with every outcome, finish connecting, listen, accept, transfers - and of four (three) with every system call failing; asynchronous connecting and accepting with every outcome and every error number", thorough="six (five) steps"),
      outside="longer histories; moving a socket that belongs to a socket service; sockets used from several threads")
