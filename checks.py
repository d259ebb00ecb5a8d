"""The registry: for each property the queries that decide it, per tier."""
from vp import Q

COMMON_ASSUMPTIONS = [
    "CBMC 6.11's C semantics (x86_64, LP64, two's complement), its SAT back end and its models of memcpy/memset/strlen/strcmp/strcpy",
    "the library's environment is modelled by /verif/lib (formatted output, ctype, number parsing, allocator, clock, system calls)",
    "counterexamples and witnesses are replayed with gcc, AddressSanitizer and UndefinedBehaviorSanitizer",
]
CHECKS = {}


def FS(n):
    return ["--max-field-sensitivity-array-size", str(max(64, n + 1))]



def prop(pid, **kw):
    def deco(f):
        CHECKS[pid] = dict(kw, queries=f)
        return f
    return deco


@prop("C01", outside="inputs longer than 262 bytes; reads past the end of the input that change nothing are only looked for at the exact sizes listed")
def c01(tier):
    qs = []
    for lo, hi in ((1, 40), (41, 90), (91, 130), (131, 165), (166, 195), (196, 220), (221, 242), (243, 262)):
        qs.append(Q("range%d_%d" % (lo, hi), "parse_range.c", {"LO": lo, "HI": hi}, unwind=hi + 2, timeout=700,
                    bounds="every byte string of %d..%d bytes (length symbolic)" % (lo, hi)))
    exact = list(range(0, 14)) + [127, 128, 261, 262] if tier == "quick" else list(range(0, 263))
    for n in exact:
        qs.append(Q("n%d" % n, "parse.c", {"N": n}, unwind=max(n + 3, 20), timeout=300, flags=FS(n),
                    bounds="every byte string of exactly %d bytes" % n + (", except those announcing their own length" if n >= 9 else "")))
        if 9 <= n <= 261:
            qs.append(Q("full%d" % n, "parse.c", {"N": n, "FULL": None}, unwind=max(n + 3, 20), timeout=300, flags=FS(n),
                        bounds="every long/control frame candidate of %d bytes that announces its own length" % n))
    return qs


@prop("C03", outside="symbolic payload sizes above 48 in the quick tier (checked for the listed sizes)")
def c03(tier):
    qs = [Q("new", "verify.c", {"NEW": None}, unwind=4, bounds="every frame type value; allocation failing")]
    for name, ty in (("any", 0), ("ack", 1), ("short", 2), ("control", 3)):
        d = {"NMAX": 252} if name == "any" else {"TYPE": ty, "NMAX": 252}
        qs.append(Q("verify_" + name, "verify.c", d, unwind=256, flags=FS(252), bounds="every frame object of type %s, payload 0..252" % name))
    for n in ((0, 1, 2, 3, 5, 100, 200, 251, 252) if tier == "quick" else range(0, 253)):
        qs.append(Q("verify_long%d" % n, "verify.c", {"TYPE": 4, "N": n, "NMAX": n}, unwind=256, flags=FS(252), bounds="every long frame object with %d payload bytes" % n))
    qs.append(Q("verify_long_huge", "verify.c", {"TYPE": 4, "NMAX": 252, "HUGE": None}, unwind=256, flags=FS(252), bounds="every payload size above 252"))
    m = 48 if tier == "quick" else 252
    qs.append(Q("verify_long_any", "verify.c", {"TYPE": 4, "NMAX": m}, unwind=256, timeout=600, bounds="every long frame object, payload size symbolic 0..%d" % m))
    return qs


@prop("C07", outside="widths above 4 (int) and 8 (long) bytes, which no caller uses")
def c07(tier):
    qs = [Q("decode%d" % n, "intdec.c", {"N": n}, unwind=12, bounds="every content of %d bytes" % n) for n in range(0, 9)]
    qs += [Q("encode%d" % n, "intdec.c", {"N": n, "ENC": None}, unwind=12, bounds="every int into %d bytes" % n) for n in (1, 2, 3, 4)]
    return qs


@prop("C08", outside="numbers of more than 8 bytes; encoded numbers outside int")
def c08(tier):
    qs = [Q("empty", "bcd.c", {"N": 0}, unwind=12, bounds="no digits")]
    for n in range(1, 9):
        qs.append(Q("decode%d" % n, "bcd.c", {"N": n, "DEC": None}, unwind=24, bounds="every %d-byte BCD number, both signs" % n))
        if n < 8:
            qs.append(Q("raw%d" % n, "bcd.c", {"N": n, "RAW": None}, unwind=24, bounds="every content of %d bytes" % n))
    for n in range(1, 7):
        if n <= 4 or tier == "thorough":
            qs.append(Q("encode%d" % n, "bcd.c", {"N": n}, unwind=24, timeout=2000 if tier == "thorough" else 300,
                        bounds="every number of at most %d digits that fits an int, both signs" % (2 * n)))
        if n > 4:
            for lo, hi in ((0, 9999), (2147483000, 2147483648)):
                qs.append(Q("encode%d_%d" % (n, lo), "bcd.c", {"N": n, "VLO": "%dLL" % lo, "VHI": "%dLL" % hi}, unwind=24,
                            bounds="numbers of magnitude %d..%d into %d bytes, both signs" % (lo, hi, n)))
    return qs


@prop("C09")
def c09(tier):
    return [Q("size%d" % n, "tmdec.c", {"N": n}, unwind=60, bounds="every content of %d bytes, every prior content of the result" % n) for n in range(0, 9)]


@prop("C10", outside="the alternative branch for machines without IEEE 754 floats, which this build does not compile")
def c10(tier):
    return [Q("real", "tmdec.c", {"REAL": None}, unwind=6, bounds="all 2^32 bit patterns")]


@prop("C11", outside="byte counts other than those listed; a capacity of zero")
def c11(tier):
    ns = list(range(0, 9)) + [127, 226, 234, 239] if tier == "quick" else range(0, 241)
    qs = [Q("str%d" % n, "text.c", {"STR": None, "N": n, "CAP": n + 1}, unwind=n + 16, flags=FS(n + 16), bounds="every string of %d bytes" % n) for n in ns]
    for n in range(0, 4 if tier == "quick" else 7):
        for cap in range(1, 3 * n + 5):
            qs.append(Q("bin%d_%d" % (n, cap), "text.c", {"BIN": None, "N": n, "CAPV": cap}, unwind=max(3 * n + 8, 16), bounds="every content of %d bytes, capacity %d" % (n, cap)))
    for n, cap in ((16, 768), (226, 768), (234, 768), (239, 768), (239, 718), (255, 768), (255, 766)) if tier == "thorough" else ((16, 768), (30, 40), (60, 768), (120, 300)):
        qs.append(Q("bin%d_%d" % (n, cap), "text.c", {"BIN": None, "N": n, "CAPV": cap}, unwind=cap + 4, flags=FS(cap + 4), bounds="every content of %d bytes, capacity %d" % (n, cap)))
    return qs


@prop("C13", outside="more than ten DIFEs")
def c13(tier):
    return [Q("dife%d" % n, "dib.c", {"N": n}, unwind=40, bounds="every DIF with every chain of %d DIFEs, every fixed-data status" % n) for n in range(0, 11)]


@prop("C14", outside="longer sources and capacities; a capacity of zero")
def c14(tier):
    sizes = ((0, 8), (1, 9), (2, 15), (4, 27), (5, 34)) if tier == "quick" else ((0, 8), (1, 9), (2, 15), (4, 27), (6, 40), (8, 52), (10, 64))
    return [Q("n%d" % n, "text.c", {"XML": None, "N": n, "CAP": cap}, unwind=cap + 4, timeout=600, bounds="every source of up to %d characters, every capacity 1..%d" % (n, cap)) for n, cap in sizes]


@prop("C26", outside="longer texts and buffers")
def c26(tier):
    qs = []
    for n in (1, 2, 3, 4, 5, 6, 7, 8) + ((10, 12, 16) if tier == "thorough" else ()):
        for cap in sorted({0, 1, n // 2, n // 2 + 1}):
            qs.append(Q("n%d_%d" % (n, cap), "text.c", {"HEX": None, "N": n, "CAP": cap, "CAPV": cap}, unwind=n + 8, timeout=600, bounds="every text of %d characters into %d bytes" % (n, cap)))
    return qs


@prop("C30", outside="codes followed by more than one further character")
def c30(tier):
    return [Q("codes", "text.c", {"MAN": None, "CAP": 2}, unwind=12, bounds="every string of up to four characters, every pair of header bytes")]


@prop("C02", outside="buffers more than 3 bytes larger than the frame; symbolic payload sizes above 40 in the quick tier (checked for the listed sizes)")
def c02(tier):
    qs = [Q("unknown", "pack.c", {"NMAX": 8}, unwind=256, flags=FS(262), bounds="every unknown frame type")]
    for name, ty in (("ack", 1), ("short", 2), ("control", 3)):
        qs.append(Q(name, "pack.c", {"TYPE": ty, "NMAX": 8}, unwind=256, flags=FS(262), bounds="every %s frame object, every buffer size" % name))
        qs.append(Q(name + "_round", "pack.c", {"TYPE": ty, "NMAX": 8, "ROUND": None}, unwind=256, flags=FS(262), bounds="every %s frame object, packed and parsed" % name))
    for n in ((0, 1, 2, 3, 7, 64, 128, 251, 252) if tier == "quick" else range(0, 253)):
        qs.append(Q("long%d" % n, "pack.c", {"TYPE": 4, "N": n, "NMAX": n}, unwind=n + 16 if n > 240 else 256, flags=FS(265), bounds="every long frame with %d payload bytes, every buffer size" % n))
        qs.append(Q("long%d_round" % n, "pack.c", {"TYPE": 4, "N": n, "NMAX": n, "ROUND": None}, unwind=270, flags=FS(265), bounds="every long frame with %d payload bytes, packed and parsed" % n))
    m = 40 if tier == "quick" else 252
    qs.append(Q("long_any", "pack.c", {"TYPE": 4, "NMAX": m}, unwind=270, timeout=700, flags=FS(265), bounds="every long frame with 0..%d payload bytes" % m))
    qs.append(Q("long_huge", "pack.c", {"TYPE": 4, "NMAX": 252, "HUGE": None}, unwind=270, flags=FS(265), bounds="every payload size above 252"))
    return qs


def varq(name, n, **kw):
    d = {"N": n}
    d.update(kw.pop("defs", {}))
    return Q(name, "varparse.c", d, unwind=kw.pop("unwind", max(n - 12 + 3, 6)), hunwind=kw.pop("hunwind", n + 3), flags=FS(kw.pop("fs", 440)),
             stubs=("mbus_data_str_decode",), **kw)


S = None    # a symbolic byte


def rec(dif, dife=(), vif=0x13, custom=None, vife=(), lvar=None, data=None):
    """Bytes of one record; its data bytes are symbolic."""
    out = [dif | (0x80 if dife else 0)]
    out += [(d | 0x80) if i + 1 < len(dife) else d & 0x7F for i, d in enumerate(dife)]
    out += [vif | (0x80 if vife else 0)]
    if custom is not None:
        out += [custom] + [S] * custom
    out += [(v | 0x80) if i + 1 < len(vife) else v & 0x7F for i, v in enumerate(vife)]
    if dif & 15 == 13:
        out += [lvar]
    if data is None:
        data = (0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, lvlen(lvar or 0), 6, 8)[dif & 15]
    return out + [S] * data


def lvlen(v):
    if v <= 0xBF: return v
    if v <= 0xC9: return (v - 0xC0) * 2
    if 0xD0 <= v <= 0xD9: return (v - 0xD0) * 2
    if 0xE0 <= v <= 0xEF: return v - 0xE0
    if 0xF0 <= v <= 0xF4: return (v - 0xEC) * 4
    return {0xF5: 48, 0xF6: 64}.get(v, 0)


HDR = [S] * 12


def script(name, tail, ok=None, defs=None, what="", n=None):
    b = (HDR + tail)[:n]
    fixed = "".join("b[%d]=%d;" % (i, v) for i, v in enumerate(b) if v is not S)
    d = {"FIXED(b)": fixed or ";", "MAXREC": max(2, len(b) - 11)}
    d.update(defs or {})
    if ok is True:
        d["REACHOK"] = None
    if ok is False:
        d["REACHERR"] = None
    return varq(name, len(b), defs=d, unwind=len(b) + 4, hunwind=len(b) + 4, reach=ok is not None,
                bounds="%s (%d bytes, data and header bytes symbolic)" % (what or name, len(b)))


def var_scripts(tier):
    qs = []
    fill = [0x2F]
    qs.append(script("kinds", sum([rec(k | f << 4 | (k & 1) << 6, vif=0x20 + k) for k in range(13) for f in (k & 3,)], []) + fill +
                     rec(0x0E) + fill * 3 + rec(0x07), True, what="one record of every data field"))
    qs.append(script("special", rec(0x4D, lvar=0x03, vif=0x78) + rec(0x3F - 0x30) [:1] + [S] * 7, None, what="variable-length record, then manufacturer-specific data"))
    for k in ((1, 2, 9, 10, 11) if tier == "quick" else range(0, 13)):
        qs.append(script("dife%d" % k, rec(0x04, dife=[0x11 * i & 0x7F for i in range(1, k + 1)]) + rec(0x01), k <= 10, what="a chain of %d DIFEs" % k))
        qs.append(script("vife%d" % k, rec(0x04, vife=[0x13 * i & 0x7F for i in range(1, k + 1)]) + rec(0x01), k <= 10, what="a chain of %d VIFEs" % k))
    for k in ((0, 1, 4, 127, 128, 129, 200) if tier == "quick" else list(range(0, 20)) + list(range(120, 136)) + [191, 192, 200, 220]):
        qs.append(script("text%d" % k, rec(0x02, vif=0x7C, custom=k) + rec(0x01), k < 128, what="a plain-text VIF of %d characters" % k))
        if k < 128:
            qs.append(script("textx%d" % k, rec(0x02, vif=0x7C, custom=k, vife=[0x3A, 0x12]) + rec(0x01), True, what="a plain-text VIF of %d characters with VIFEs" % k))
    lv = (0, 1, 2, 0x10, 0xBF, 0xC0, 0xC5, 0xC9, 0xCA, 0xD0, 0xD1, 0xD9, 0xDF, 0xE0, 0xE1, 0xEF, 0xF0, 0xF4, 0xF5, 0xF6, 0xF7, 0xFF) if tier == "quick" else range(256)
    for v in lv:
        qs.append(script("lvar%02x" % v, rec(0x0D, lvar=v) + rec(0x01), True, what="LVAR %02Xh" % v))
        if lvlen(v):
            qs.append(script("lvarcut%02x" % v, rec(0x0D, lvar=v)[:-1], False, what="LVAR %02Xh, one byte short" % v))
    for dif in (0x0F, 0x1F):
        for n in (12 + 1, 12 + 2, 40, 247, 248, 252):
            qs.append(script("mdh%02x_%d" % (dif, n), [dif] + [S] * (n - 13), True, what="manufacturer data after DIF %02Xh" % dif))
        qs.append(script("mdh%02x_after" % dif, rec(0x04) + fill + [dif] + [S] * 20, True, what="a record and manufacturer data after DIF %02Xh" % dif))
    qs.append(script("many", (rec(0x00) * (30 if tier == "quick" else 120)), True, what="many records"))
    mix = rec(0x04) + fill + rec(0x84 & 0x7F, dife=[0x40, 0x01], vife=[0x3B, 0x01]) + rec(0x02, vif=0x7C, custom=3) + rec(0x0D, lvar=0x05) + rec(0x0C)
    for n in range(0, 12 + len(mix) + 1):
        if tier == "quick" and n < 12 and n not in (0, 1, 11):
            continue
        qs.append(script("cut%d" % n, mix, None, n=n, what="a telegram of five records cut after %d bytes" % n))
    return qs


@prop("C05", outside="free-form payloads of more than 4 bytes of records in the quick tier (7 in the thorough one); longer ones have the listed record structures")
def c05(tier):
    qs = []
    for n in range(12, 17 if tier == "quick" else 20):
        m = max(1, (n - 11) // 2)
        qs.append(varq("free%d" % n, n, defs={"MAXREC": m, "REACHOK": None}, checks=False, bounds="every payload of %d bytes" % n, timeout=600 if tier == "quick" else 2000))
    return sorted(qs, key=lambda q: -int(q.name[4:])) + var_scripts(tier)


@prop("C04", outside="free-form payloads of more than 4 bytes of records in the quick tier (6 in the thorough one); longer ones have the listed record structures; an allocation failing beyond the fourth record")
def c04(tier):
    qs = []
    # a full frame that ends inside a record, at every place
    mixes = {"a": rec(0x04, dife=[1, 2, 3], vif=0x7C, custom=4, vife=[0x3A, 0x12, 0x01]) + rec(0x0D, lvar=3)}
    if tier == "thorough":
        mixes["b"] = rec(0x04, vife=[0x3A] * 10)
        mixes["c"] = rec(0x07, dife=[0x40] * 10)
        mixes["d"] = rec(0x0D, vif=0x7C, custom=0, lvar=0xF6)
    for m, mix in mixes.items():
        for k in range(1, len(mix) + 1):
            qs.append(script("full_%s%d" % (m, k), [0x2F] * (240 - k) + mix[:k], None, defs={"SAFE": None, "MAXREC": 3}, what="a full frame ending after %d bytes of a record" % k))
    for dif in (0x0F, 0x1F):
        qs.append(script("full_mdh%02x" % dif, [dif] + [S] * 239, None, defs={"SAFE": None, "MAXREC": 3}, what="a full frame of manufacturer data"))
    for n in range(0, 16 if tier == "quick" else 19):
        m = max(1, (n - 11) // 2)
        qs.append(varq("free%d" % n, n, defs={"MAXREC": m, "SAFE": None}, timeout=600 if tier == "quick" else 2000, bounds="every payload of %d bytes" % n))
    for n, at in ((13, 0), (14, 0), (15, 0)):
        qs.append(varq("alloc%d_%d" % (n, at), n, defs={"MAXREC": max(1, (n - 11) // 2), "ALLOCFAIL": None, "FAILAT": at}, timeout=300,
                       bounds="every payload of %d bytes, allocation %d failing" % (n, at + 1)))
    for at in range(0, 4):
        qs.append(script("allocmix%d" % at, mixes["a"] + [0x2F] + rec(0x01) + rec(0x0F)[:1] + [S] * 3, None, defs={"ALLOCFAIL": None, "FAILAT": at, "MAXREC": 5},
                         what="a telegram of four records, allocation %d failing" % (at + 1)))
    return qs + dispatch_queries(tier)


def dispatch_queries(tier):
    qs = []
    for n in ((0, 1, 2, 11, 12, 13, 15, 16, 17, 252) if tier == "quick" else range(0, 253)):
        qs.append(Q("ci_any%d" % n, "dispatch.c", {"N": n, "NULLS": None}, unwind=max(n + 3, 6), flags=FS(440), bounds="every control and CI field, %d payload bytes" % n))
    for ci in (0x70, 0x73):
        for n in (1, 15, 16, 17, 252):
            qs.append(Q("ci_%02x_%d" % (ci, n), "dispatch.c", {"N": n, "CI": ci}, unwind=max(n + 3, 6), flags=FS(440), bounds="CI field %02Xh, every control field, every payload of %d bytes" % (ci, n)))
    return qs


@prop("C06", outside="payload sizes other than those listed; the records of a variable response (C05)")
def c06(tier):
    return dispatch_queries(tier)


def uq(name, lo, hi, bounds, **defs):
    d = {"LO": lo, "HI": hi}
    d.update(defs)
    return Q(name, "units.c", d, unwind=20, hunwind=82, unwindset=None, flags=FS(256), timeout=400, bounds=bounds)


TABS = ("primary", "FDh", "FBh")


@prop("C27", outside="values other than 1 for the factor table (any value for the listed codes)")
def c27(tier):
    qs = []
    for t in range(3):
        for lo in (0, 64):
            q = uq("norm%d_%02x" % (t, lo), lo, lo + 63, "codes %02Xh..%02Xh of the %s table, extension bit" % (lo, lo + 63, TABS[t]), NORM=t, **({"BADCODES": None} if t == 0 and lo else {}))
            q.unwind = 660
            qs.append(q)
    # scaling and corrections on concrete codes: VIF 03h (1 Wh), 13h (0.001 m3), 2Eh (1000 W)
    for vif, f in ((0x83, "1.0"), (0x93, "1e-3"), (0xAE, "1e3"), (0xA1, "60.0")):
        for v in ("1.0", "-2.0", "12345678.0"):
            q = uq("corr%02x_%s" % (vif, v), 0, 255, "VIF %02Xh with every following VIFE, value %s" % (vif, v), SCALE=vif, SCALEF=f, SCALEV=v)
            q.unwind = 660
            qs.append(q)
    for vif, f in ((0x04, "1e1"), (0x25, "60.0"), (0x5B, "1.0"), (0x149, "1.0")):
        q = uq("linear%03x" % vif, 0, 255, "every value of VIF %03Xh" % vif, LINEAR=vif, SCALEF=f)
        q.unwind = 660
        qs.append(q)
    q = uq("linear013s", 0, 255, "every 16-bit integer value of VIF 013h", LINEAR=0x13, SCALEF="1e-3", SMALL=None)
    q.unwind = 660
    qs.append(q)
    for v in (0x7C, 0xFC):
        q = uq("custom%02x" % v, 0, 255, "plain-text VIFs of up to 8 characters; missing arguments and extensions", CUSTOM=v)
        q.unwind = 660
        qs.append(q)
    return qs


@prop("C28", outside="counter values other than the listed units' (any 32-bit counter for those)")
def c28(tier):
    qs = []
    q = uq("units", 0, 63, "all 64 unit codes", FIXN=None)
    q.unwind = 70
    qs.append(q)
    q = uq("texts", 0, 63, "all 64 unit codes", FIXT=None)
    q.unwind = 70
    qs.append(q)
    for c, f, st, nb in ((0x02, "1.0", 0x80, 4), (0x02, "1.0", 0xC0, 4), (0x02, "1.0", 0x00, 3), (0x02, "1.0", 0x40, 2), (0x05, "1e3", 0x80, 2), (0x29, "1e-3", 0x80, 2), (0x38, "1e-3", 0x00, 2), (0x38, "1e-3", 0xC0, 1)):
        q = uq("value%02x_%02x_%d" % (c, st, nb), 0, 255, "unit %02Xh, status %02Xh: every counter of %d bytes" % (c, st, nb), FIXV=c, SCALEF=f, STATUS=st, NB=nb)
        q.unwind = 70
        qs.append(q)
    return qs


@prop("C29", outside="texts of codes the protocol leaves undefined (only their termination is checked)")
def c29(tier):
    qs = []
    for t in range(3):
        for lo in range(0, 128, 32):
            qs.append(uq("text%d_%02x" % (t, lo), lo, lo + 31, "codes %02Xh..%02Xh of the %s table, extension bit" % (lo, lo + 31, TABS[t]), TEXT=t))
    qs.append(uq("media", 0, 255, "all 256 media", MEDIA=None))
    qs.append(uq("fixmedia", 0, 255, "all unit bytes of fixed data", FIXM=None))
    qs.append(uq("errors", 0, 255, "all 256 error codes", ERRS=None))
    q = uq("product", 0, 255, "all manufacturers, versions, media", PRODUCT=None)
    q.unwind = 45
    qs.append(q)
    return qs


def recvq(tier, tcp):
    qs = []
    t = {"TCP": None} if tcp else {}
    for k in (1, 3, 6) if tier == "quick" else (1, 3, 6, 10):
        qs.append(Q("contract%d" % k, "recv.c", dict(t, K=k), unwind=k + 6, timeout=400, stubs=("mbus_parse",),
                    bounds="every sequence of %d read results (data of any size, pause, interruption, error) and then silence; parser replaced by its contract (C01), replies up to 2048 bytes" % k))
    scripts = [(1, "1"), (5, "1,4"), (5, "1,1,1,1,1"), (5, "1,3,1"), (9, "1,5,3"), (9, "1,2,3,1,2"), (11, "1,5,5"), (12, "1,1,1,1,1,1,1,1,1,1,1,1"), (12, "1,4,1,4,2"), (30, "1,5,7,1,10,6"), (80, "1,5,50,24"), (261, "1,5,255")]
    scripts += [(12, "1,-2,5,-2,-2,6"), (5, "-2,1,4"), (9, "1,-2,5,3")] if tcp else [(12, "1,0,5,0,6"), (9, "1,0,0,5,3"), (5, "1,2,0,2")]
    part = [(5, "1,-1"), (9, "1,4"), (12, "1,5,2,-1"), (30, "1,5,20"), (5, "-1")] + ([(9, "1,0"), (12, "1,5,-2,0")] if tcp else [(9, "1,0,0,0,5,3"), (12, "1,5")])
    for sc, d in ((scripts, {}), (part, {"PARTIAL": None})):
        for i, (n, x) in enumerate(sc):
            qs.append(Q("%s%d_%s" % ("part" if d else "real", n, x.replace(",", "_")), "recv.c", dict(t, K=len(x.split(",")), REAL=n, SCRIPT=x, **d), unwind=max(n + 4, 16), timeout=400, flags=FS(2048),
                        bounds="every valid frame of %d bytes, arriving as %s (bytes; 0 pause, -1 error, -2 interrupted)" % (n, x)))
    return qs


@prop("C20", outside="more read results than listed; bytes beyond the one the solver watches are compared in the real-parser queries only")
def c20(tier):
    return recvq(tier, 0)


@prop("C21", outside="more read results than listed; bytes beyond the one the solver watches are compared in the real-parser queries only")
def c21(tier):
    return recvq(tier, 1)


def linkq(name, bounds, tcp=False, unwind=20, **defs):
    d = dict(defs)
    if tcp: d["TCP"] = None
    n = int(defs.get("N", 0))
    return Q(name, "link.c", d, unwind=max(unwind, n + 12), timeout=400, bounds=bounds, flags=FS(256) if "SEND" in d else ())


@prop("C32", outside="sequences longer than listed; connecting a connected handle (the application disconnects first); descriptors closed by others")
def c32(tier):
    qs = []
    for tcp in (False, True):
        t = "tcp" if tcp else "serial"
        qs.append(linkq("opt_" + t, "every option and value", tcp, OPT=None))
        for k in range(3):
            qs.append(linkq("nomem_%s%d" % (t, k), "allocation %d of the context failing" % k, tcp, LIFE=1, FAILAT=k))
        for n in (4,) if tier == "quick" else (4, 6, 8):
            qs.append(linkq("life_%s%d" % (t, n), "every sequence of %d operations (connect, disconnect, send, receive/configure), every step failing or not" % n, tcp, LIFE=n))
    return qs


@prop("C34", outside="terminal drivers that accept a setting without applying it")
def c34(tier):
    return [linkq("line", "every baud rate value; every terminal call failing or not", LINE=None)]


@prop("C36", outside="payload sizes not listed")
def c36(tier):
    qs = []
    for tcp in (False, True):
        t = "tcp" if tcp else "serial"
        for ty, ns in ((0, (0,)), (1, (0,)), (2, (0,)), (3, (0,)), (4, (0, 1, 8, 252) if tier == "quick" else (0, 1, 2, 8, 16, 64, 128, 251, 252))):
            for n in ns:
                qs.append(linkq("send_%s_%d_%d" % (t, ty, n), "every frame of type %d with %d payload bytes; every write result" % (ty, n), tcp, SEND=ty, N=n))
        qs.append(linkq("send_%s_big" % t, "payload sizes above 252", tcp, SEND=4, BIG=None))
    return qs


def busq(name, bounds, unwind=24, stubs=(), flags=(), **defs):
    return Q(name, "bus.c", defs, unwind=unwind, timeout=400, bounds=bounds, stubs=stubs, flags=list(flags))


@prop("C19", outside="payload sizes not listed")
def c19(tier):
    names = {1: "ping", 2: "request", 3: "reset", 4: "setaddr", 5: "baudrate", 7: "select"}
    qs = [busq(n, "every argument of the command, the handle missing, the send failing", CMD=c, N=9) for c, n in names.items()]
    for n in (1, 2, 17, 252) if tier == "quick" else (1, 2, 3, 5, 17, 64, 128, 251, 252):
        qs.append(busq("user%d" % n, "user data of %d bytes, every address" % n, unwind=n + 14, flags=FS(256), CMD=6, N=n + 1))
    qs.append(busq("user_size", "user data of size 0 and of every size above 252", CMD=6, N=2, BADSIZE=None))
    for c, n in names.items():
        qs.append(busq(n + "_nomem", "no memory for the frame", CMD=c, N=9, FAILAT=0))
    qs.append(busq("purge", "ping with every purge of up to 4 receptions", PING=None, K=4))
    return qs


@prop("C22", outside="purges of more frames than listed")
def c22(tier):
    k = 5 if tier == "quick" else 10
    return [busq("recv", "every pair of receptions, every echo setting, stale frame contents", RECV=None, K=2),
            busq("purge", "every sequence of %d receptions" % k, PURGE=None, K=k)]


@prop("C23", outside="longer exchanges and higher retry limits than listed; replies' contents (C04, C05)")
def c23(tier):
    qs = []
    for k, r in ((4, 0), (4, 1), (5, 2)) if tier == "quick" else ((4, 0), (5, 1), (6, 2), (8, 3)):
        for m in (0, 1, 2, 3):
            qs.append(busq("request%d_%d_%d" % (k, r, m), "every sequence of %d receptions, retry limit %d, frame limit %d; parser replaced by its contract" % (k, r, m), unwind=k + r + 4, stubs=("mbus_frame_data_parse",), REQ=None, K=k, MAXRETRY=r, MAXF=m))
    return qs


@prop("C24", outside="more receptions and retries than listed")
def c24(tier):
    qs = []
    for k in (1, 4) if tier == "quick" else (1, 4, 8):
        qs.append(busq("select%d" % k, "every mask of 0..17 characters, every sequence of %d receptions" % k, SEL=None, K=k, N=9))
    for k, r in ((3, 0), (4, 1), (6, 2)) if tier == "quick" else ((3, 0), (4, 1), (6, 2), (8, 3)):
        qs.append(busq("probe%d" % k, "every sequence of %d receptions, retry limit %d; address text replaced by its contract" % (k, r), stubs=("mbus_frame_get_secondary_address",), PROBE=None, K=k, MAXRETRY=r))
    qs.append(busq("read", "every sequence of 4 receptions, primary and secondary addresses", READ=None, K=4))
    return qs


@prop("C18", outside="replies with more records than listed (C04, C05 cover their parsing)")
def c18(tier):
    qs = [Q("mask", "secaddr.c", {"MASK": None}, unwind=24, timeout=400, bounds="every string of 0..18 characters")]
    for n in (0, 1, 3):
        qs.append(Q("get%d" % n, "secaddr.c", {"GET": n}, unwind=24, timeout=400, flags=FS(256), bounds="every reply header, every slave control byte, followed by %s" % ("nothing", "a 1Fh record", 0, "one record")[n]))
    qs.append(Q("get_nomem", "secaddr.c", {"GET": 0, "FAILAT": 0}, unwind=24, timeout=400, flags=FS(256), bounds="no memory"))
    qs.append(Q("get_nomem1", "secaddr.c", {"GET": 3, "FAILAT": 1}, unwind=24, timeout=400, flags=FS(256), bounds="no memory for the record"))
    for n in (0, 1, 11, 12):
        qs.append(Q("odd%d" % n, "secaddr.c", {"ODD": n}, unwind=100, timeout=400, flags=FS(256), bounds="every header, control byte, CI, payload of %d bytes" % n))
    return qs


@prop("C25", outside="more wildcards than listed; more than two devices; devices that only hexadecimal identification digits or other header fields tell apart")
def c25(tier):
    P = ("mbus_probe_secondary_address",)
    qs = [Q("badarg", "scan.c", {"BADARG": None, "MASKSTR": '"FFFFFFFFFFFFFFFF"', "START": 0}, unwind=24, stubs=P, bounds="every position, masks of the wrong length")]
    def scan(n, mask, start, **kw):
        t = 600 if "W3" in kw else 300
        kw.pop("W3", None)
        d = dict(MASKSTR='"%s"' % mask, START=start, **kw)
        qs.append(Q(n, "scan.c", d, unwind=24, timeout=t, stubs=P, bounds="mask %s from position %d, every pair of devices%s" % (mask, start, ", an error at any probe" if "ERR" in kw else "")))
    scan("none", "12345678A7320102", 0, NOWILD=None)
    scan("none_err", "12345678A7320102", 0, NOWILD=None, ERR=None)
    for i, m in enumerate(("F2345678FFFFFFFF", "1234567FFFFFFFFF", "12f45678A7320102")):
        scan("one%d" % i, m, 0)
    scan("one_err", "123F5678FFFFFFFF", 0, ERR=None)
    scan("one_from", "123F5678FFFFFFFF", 3)
    for i, m in enumerate(("FF345678FFFFFFFF", "123456FFFFFFFFFF", "1F34567FFFFFFFFF")):
        scan("two%d" % i, m, 0)
    scan("two_err", "12FF5678FFFFFFFF", 0, ERR=None)
    scan("two_from", "12FF5678FFFFFFFF", 2, ERR=None)
    if tier != "quick":
        scan("two_err2", "F234567FFFFFFFFF", 0, ERR=None)
        scan("three0", "FFF45678FFFFFFFF", 0, W3=1)
        scan("three1", "12345FFFFFFFFFFF", 0, W3=1)
    for k in (0, 1):
        scan("nomem%d" % k, "FF345678FFFFFFFF", 0, FAILAT=k, NOWILD=None)
    return qs


@prop("C12", outside="variable-length and special-function data of lengths not listed")
def c12(tier):
    qs = []
    for df in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14):
        qs.append(Q("df%02X" % df, "value.c", {"DF": df}, unwind=72, timeout=300, bounds="every record with data field %Xh: DIF, VIF, VIFE and data symbolic" % df))
    lens = (1, 2, 3, 9, 33, 100) if tier == "quick" else (1, 2, 3, 4, 5, 9, 17, 33, 65, 100, 150, 192)
    for n in lens:
        qs.append(Q("text%d" % n, "value.c", {"DF": 13, "LEN": n, "TEXT": None}, unwind=3 * n + 70, timeout=300, flags=FS(800), bounds="every text of %d bytes" % (n - 1)))
    for n in (1, 2, 3, 9, 33, 65) if tier == "quick" else (1, 2, 3, 5, 9, 17, 33, 49, 65):
        qs.append(Q("bin%d" % n, "value.c", {"DF": 13, "LEN": n}, unwind=3 * n + 70, timeout=300, flags=FS(800), bounds="every variable-length number or binary value of %d bytes" % (n - 1)))
    for n in (0, 1, 2, 7, 50) if tier == "quick" else (0, 1, 2, 3, 7, 20, 50, 100, 120, 150):
        qs.append(Q("special%d" % n, "value.c", {"DF": 15, "LEN": n}, unwind=3 * n + 70, timeout=300, flags=FS(800), bounds="every special-function record of %d bytes" % n))
    return qs


@prop("C33", outside="variable-length and special-function data of lengths not listed; two allocations failing in one call; units are C27 and C28")
def c33(tier):
    qs = []
    V, F = ("mbus_vib_unit_normalize",), ("mbus_fixed_normalize",)
    def nq(name, bounds, stubs=V, **d):
        n = d.get("LEN", 8)
        qs.append(Q(name, "norm.c", d, unwind=3 * n + 70, timeout=300, stubs=stubs, flags=FS(max(256, 3 * n + 70)), bounds=bounds))
    for df in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14):
        nq("df%02X" % df, "every record with data field %Xh; scaling replaced by its contract" % df, DF=df)
    for n in (1, 2, 9, 33) if tier == "quick" else (1, 2, 3, 5, 9, 33, 65, 100):
        nq("text%d" % n, "every text of %d bytes" % (n - 1), DF=13, LEN=n, TEXT=None)
        nq("bin%d" % n, "every binary value of %d bytes" % (n - 1), DF=13, LEN=n)
    for n in (0, 1, 7, 33) if tier == "quick" else (0, 1, 2, 7, 33, 65):
        nq("special%d" % n, "every manufacturer-specific or more-follows record of %d bytes" % n, DF=15, LEN=n)
        nq("odd%d" % n, "every other special-function record of %d bytes" % n, DF=15, LEN=n, NOSPECIAL=None)
    for k in range(5):
        nq("nomem%d_num" % k, "allocation %d failing" % k, DF=4, FAILAT=k)
        nq("nomem%d_text" % k, "allocation %d failing" % k, DF=13, LEN=3, TEXT=None, FAILAT=k)
        nq("nomem%d_none" % k, "allocation %d failing" % k, DF=0, FAILAT=k)
        if k < 4: nq("nomem%d_special" % k, "allocation %d failing" % k, DF=15, LEN=3, FAILAT=k)
        if k < 4: nq("fixed_nomem%d" % k, "allocation %d failing" % k, F, FIX=None, FAILAT=k)
    nq("fixed", "every status, unit and counter; scaling replaced by its contract", F, FIX=None)
    return qs


@prop("C15", outside="documents of more records than listed; numbers are taken at the longest a conversion can produce")
def c15(tier):
    qs = []
    E = ("mbus_str_xml_encode",)
    n = 24 if tier == "quick" else 60
    D = ("mbus_data_variable_header_xml", "mbus_data_variable_record_xml")
    def xq(name, bounds, n, stubs, **d):
        qs.append(Q(name, "xmllen.c", dict(d, NREC=n), unwind=max(84, 2 * n + 4), timeout=500, stubs=E + stubs, bounds=bounds))
    xq("variable", "every length of up to %d records (0..2800) and of the header (0..2200), any allocation failing" % n, n, D, DOC=0)
    xq("telegrams", "two telegrams of up to %d records each, any allocation failing" % (n // 2), n // 2, D + ("mbus_frame_data_parse", "mbus_data_record_free"), DOC=1)
    n = 8 if tier == "quick" else 16
    xq("normalized", "every length of the texts of up to %d records, any allocation failing" % n, n, ("mbus_data_variable_header_xml", "mbus_parse_variable_record", "mbus_record_free"), DOC=2)
    xq("record", "every record: lengths of its escaped texts, DIF, DIFE, VIF, numbers", 1, ("mbus_data_record_value", "mbus_data_record_unit", "mbus_data_record_function"), PART=0)
    xq("header", "every header: lengths of its escaped texts", 1, ("mbus_data_product_name", "mbus_data_variable_medium_lookup"), PART=1)
    xq("fixed", "every fixed data: lengths of its escaped texts; no memory", 1, ("mbus_data_fixed_medium", "mbus_data_fixed_unit"), PART=2)
    xq("error", "every error code, lengths of its text; no memory", 1, (), PART=3)
    return qs


@prop("C17", outside="chains of more than three telegrams; more records per telegram than listed; what a record's text says (C16)")
def c17(tier):
    qs = []
    S = ("mbus_frame_data_parse", "mbus_data_variable_record_xml", "mbus_data_variable_header_xml", "mbus_data_fixed_xml", "mbus_data_error_xml")
    def q(kinds, recs, fail=None):
        d = dict(KINDS='"%s"' % kinds, RECS=",".join(map(str, recs)))
        n = "chain_%s_%s" % (kinds, "".join(map(str, recs)))
        b = "telegrams of kinds %s with %s records, each parsing or failing in any way" % (kinds, recs)
        if fail is not None: d["FAILAT"] = fail; n += "_nomem%d" % fail; b += ", allocation %d failing" % fail
        qs.append(Q(n, "xmldoc.c", d, unwind=12, hunwind=401, timeout=300, stubs=S, flags=FS(420), bounds=b))
    for k, r in (("v", (0,)), ("v", (1,)), ("v", (3,)), ("vv", (0, 0)), ("vv", (1, 1)), ("vv", (2, 1)), ("vvv", (1, 0, 2)), ("vvv", (1, 1, 1)),
                 ("vf", (1, 0)), ("ve", (1, 0)), ("vfv", (1, 0, 1)), ("vev", (0, 0, 1)), ("f", (0,)), ("e", (0,)), ("fv", (0, 1)), ("ev", (0, 1))):
        q(k, r)
    if tier != "quick":
        for r in ((2, 2, 2), (0, 2, 1), (2, 0, 0), (0, 0, 2)): q("vvv", r)
        for k in ("vff", "vee", "vvf", "vve"): q(k, (1, 1, 1))
    for f in range(5):
        q("vv", (2, 1), f)
    for k in "fev": q(k, (1,), 0)
    return qs


@prop("C16", outside="texts other than the stubbed ones (their contents and their escaping are C09..C14, C27..C30); more records per document (C15, C17)")
def c16(tier):
    qs = []
    def q(name, bounds, stubs, fs=8200, **d):
        qs.append(Q(name, "xmltext.c", d, unwind=90, hunwind=1001, timeout=400, stubs=stubs, flags=FS(fs), bounds=bounds))
    R = ("mbus_data_record_function", "mbus_data_record_unit", "mbus_data_record_value", "mbus_data_record_tariff", "mbus_data_record_device")
    for dif, nd, fr, st, ta in ((0x04, 0, -1, 0, -1), (0x84, 1, -1, 1, 0), (0xC4, 2, 0, 0, 3), (0xCD, 3, 2, 1 << 33, 1048575), (0x44, 0, 7, 1, -1),
                                (0x0F, 0, -1, 1, -1), (0x0F, 0, 1, 0, -1), (0x1F, 0, -1, 0, -1), (0x1F, 0, 3, 1, -1), (0x2F, 0, -1, 0, -1), (0x8F, 1, 0, 0, 2), (0x9F, 1, -1, 0, 1)):
        q("record_%02X_%d_%d" % (dif, fr + 1, st), "every record with DIF %02Xh, %d DIFEs, tariff %d, telegram %d, timestamp %d: id, DIFEs, VIF, device" % (dif, nd, ta, fr, st),
          R, REC=None, DIF=dif, NDIFE=nd, FRAME=fr, STAMP="%dL" % st, TARIFF=ta)
    for k in range(1, 9):
        q("header%d" % k, "every header whose identification has %d digits" % k, ("mbus_data_product_name", "mbus_data_variable_medium_lookup", "mbus_decode_manufacturer"), HDR=None, IDDIG=k)
    F = ("mbus_data_fixed_medium", "mbus_data_fixed_function", "mbus_data_fixed_unit")
    for i, (st, k) in enumerate(((0x00, 8), (0x40, 5), (0x15, 1), (0x80, 8), (0xC0, 3), (0xFF, 2)) if tier == "quick" else [(s, k) for k in range(1, 9) for s in (0x00, 0x7F, 0x80, 0xFF)]):
        q("fixed%02X_%d" % (st, k), "every fixed data with status %02Xh, identification%s of %d digits" % (st, "" if st & 0x80 else " and BCD counters", k), F, 1001, FIX=None, ST=st, IDDIG=k, VIA_NORM=i & 1)
    q("error", "every error code; data of every other type", ("mbus_data_error_lookup",), 1001, ERR=None)
    q("variable", "two records", ("mbus_data_variable_header_xml", "mbus_data_variable_record_xml"), 1001, DOCV=None)
    for k in ("nt", "TN", "-n", "t-"):
        q("normalized_%s" % k, "two records (%s: n number, t text, capital with tariff, - not decodable), every number" % k, ("mbus_data_variable_header_xml", "mbus_parse_variable_record", "mbus_record_free", "mbus_str_xml_encode"), 1001, KINDS='"%s"' % k)
    return qs


@prop("C31", outside="plain-text VIFs with a NUL character (strings inside the library); free-form payloads of more record bytes than listed; longer ones have the listed record structures")
def c31(tier):
    qs = []
    def q(name, bounds, n, clen=None, **d):
        d["N"] = n
        if clen is not None: d["CLEN"] = clen
        qs.append(Q(name, "repack.c", d, unwind=max(n + 4, 16), hunwind=max(n + 4, 16), timeout=d.pop("TO", 300), stubs=("mbus_data_str_decode",), libdefs={"strlen": "vp_strlen"}, flags=FS(440), bounds=bounds))
    def s(name, what, tail, clen=None, pad=None):
        b = HDR + tail
        fixed = "".join("b[%d]=%d;" % (i, v) for i, v in enumerate(b) if v is not S)
        q(name, "%s (%d bytes, data and header bytes symbolic)" % (what, len(b)), len(b), clen, **{"FIXED(b)": fixed or ";"})
    q("fixed", "every fixed data", 16, KIND=1)
    for n in (0, 1, 2): q("error%d" % n, "every error payload of %d bytes" % n, n, KIND=2)
    q("refused", "every unknown data type; no frame, no data", 1, KIND=3)
    for n in (12, 13) if tier == "quick" else (12, 13, 14):
        q("free%d" % n, "every payload of %d bytes" % n, n, TO=200 if tier == "quick" else 3000)
    fill = [0x2F]
    # every VIF and every DIF value once, with any data
    def chunks(name, what, recs):
        part, k = [], 0
        for r in recs + [None]:
            if r is None or len(part) + len(r) > 240:
                s("%s%d" % (name, k), what, part)
                part, k = [], k + 1
            if r is not None: part = part + r
    chunks("vifs", "records with different VIF values", [rec(0x00, vif=v) for v in range(128) if v != 0x7C])
    chunks("vifxs", "records with different extended VIF values", [rec(0x08, vif=v, vife=[v ^ 0x55]) for v in range(128) if v != 0x7C])
    chunks("difs", "records with different DIF values", [rec(v, lvar=v >> 4 if v & 15 == 13 else None) for v in range(128) if v not in (0x0F, 0x1F, 0x2F)])
    chunks("difxs", "records with different extended DIF values", [rec(v, dife=[v ^ 0x33], lvar=v >> 4 if v & 15 == 13 else None) for v in range(0, 128, 1 if tier != "quick" else 3) if v & 15 != 15])
    s("kinds", "one record of every data field", sum([rec(k | (k & 3) << 4 | (k & 1) << 6, vif=0x20 + k) for k in range(13)], []) + fill + rec(0x0E) + fill * 3 + rec(0x07))
    for k in ((1, 3, 10) if tier == "quick" else range(1, 11)):
        s("chain%d" % k, "chains of %d DIFEs and VIFEs" % k, rec(0x04, dife=[S] * 0 + [0x11 * i & 0x7F for i in range(1, k + 1)], vife=[0x13 * i & 0x7F for i in range(1, k + 1)]) + rec(0x02))
    for k in ((0, 1, 2, 5, 126, 127) if tier == "quick" else (0, 1, 2, 3, 4, 5, 9, 31, 64, 100, 126, 127)):
        s("text%d" % k, "a plain-text VIF of %d characters" % k, rec(0x02, vif=0x7C, custom=k) + rec(0x01), k)
        s("textx%d" % k, "a plain-text VIF of %d characters with VIFEs" % k, rec(0x0B, vif=0x7C, custom=k, vife=[0x3A, 0x12]) + fill + rec(0x01), k)
    for v in (0, 1, 2, 0x7F, 0xBF, 0xC5, 0xD9, 0xE1, 0xEF, 0xF4, 0xF6):
        s("lvar%02x" % v, "LVAR %02Xh" % v, rec(0x0D, lvar=v) + rec(0x01))
    for dif in (0x0F, 0x1F):
        for n in (0, 1, 8, 234):
            s("mdh%02x_%d" % (dif, n), "a record and %d bytes after DIF %02Xh" % (n, dif), (rec(0x01) if n < 234 else []) + fill + [dif] + [S] * n)
    s("full", "a full frame of records", rec(0x04) * 40)
    s("fuller", "a full frame of records and fillers", rec(0x0D, lvar=0x60) + fill * 100 + rec(0x04) * 6 + rec(0x02))
    def l(name, what, recs, clen=0):
        q(name, what, 1, clen, LIST=",".join("{%s}" % ",".join(map(str, r)) for r in recs))
        qs[-1].unwind = qs[-1].hunwind = 256
    l("fits", "records of 252 bytes", [(0x0D, 0, 0x13, 0, 0, 234), (0x00, 0, 0x13, 0, 0, 0), (0, 0, 0x13, 0, 0, 0)])
    for i, r in enumerate([(0x0D, 0, 0x13, 0, 0, 233), (0x0F, 0, 0, 0, 0, 234)]):
        l("two%d" % i, "two long records", [r, r])
    for over in (0, 1, 2):
        l("data%d" % over, "data %d bytes too long" % over, [(0x0D, 0, 0x13, 0, 0, 200), (0x0D, 0, 0x13, 0, 0, 36 + over)])
        l("mfg%d" % over, "manufacturer data %d bytes too long" % over, [(0x0D, 0, 0x13, 0, 0, 200), (0x0F, 0, 0, 0, 0, 37 + over)])
        l("difes%d" % over, "DIFEs %d bytes too long" % over, [(0x0D, 0, 0x13, 0, 0, 226 + over), (0x80, 10, 0x13, 0, 0, 0)])
        l("vifes%d" % over, "VIFEs %d bytes too long" % over, [(0x0D, 0, 0x13, 0, 0, 226 + over), (0x00, 0, 0x93, 0, 10, 0)])
        l("text%d_over" % over, "text %d bytes too long" % over, [(0x0D, 0, 0x13, 0, 0, 138 + over), (0x00, 0, 0x7C, 97, 0, 0)], 97)
        l("dif%d" % over, "a record behind the end by %d" % over, [(0x0D, 0, 0x13, 0, 0, 234), (0x00, 0, 0x13, 0, 0, 0), (0x0F, 0, 0, 0, 0, 1 + over)])
    l("empty", "no data in the records", [(0, 0, 0, 0, 0, 0)])
    return qs


@prop("C35", outside="more bytes, records and extension bytes than listed; the layout of the printed lines")
def c35(tier):
    qs = []
    def q(name, bounds, mode, stubs=(), n=0, **d):
        cap = d.pop("cap", 1200)
        qs.append(Q(name, "print.c", dict(d, MODE=mode, N=n, VP_CAPTURE=cap), unwind=max(n + 16, 70), hunwind=max(n + 16, 130), timeout=300, stubs=stubs, flags=FS(max(cap, 440)), bounds=bounds))
    T = "MBUS_FRAME_TYPE_"
    q("ack", "the acknowledge frame", 0, TYPE=T + "ACK")
    q("short", "every short frame", 0, TYPE=T + "SHORT")
    q("control", "every control frame", 0, TYPE=T + "CONTROL")
    for n in (1, 2, 30, 247, 252):
        q("long%d" % n, "every long frame of %d bytes" % n, 0, n=n, TYPE=T + "LONG", cap=1600)
    q("chain", "two frames", 0, n=5, TYPE=T + "LONG", TYPE2=None)
    q("chain_control", "two frames", 0, TYPE=T + "CONTROL", TYPE2=None)
    q("unknown", "every unknown frame type", 4, n=3)
    q("toolong", "a frame whose size exceeds its payload area", 4, n=253)
    for n in (0, 1, 2, 33, 300):
        q("dump%d" % n, "every buffer of %d bytes" % n, 1, n=n, EVENT=0, cap=1600)
    q("recv", "every received block of 9 bytes", 1, n=9, EVENT=1)
    q("send", "every sent block of 9 bytes", 1, n=9, EVENT=2)
    H = ("mbus_data_variable_header_print",)
    for d0, d1, nd, nv, n in ((0x04, 0x0F, 0, 0, 4), (0x84, 0x1F, 1, 2, 4), (0xFD, 0x4F, 10, 0, 6), (0x0D, 0x4F, 0, 10, 6), (0x0F, 0xC2, 0, 0, 0), (0x1F, 0x0F, 0, 0, 5), (0x0F, 0x1F, 3, 3, 234), (0xBF, 0x8F, 2, 1, 0)):
        q("record_%02X_%02X_%d" % (d0, d1, n), "two records, DIF %02Xh and %02Xh, %d DIFEs and %d VIFEs, %d data bytes: every other content" % (d0, d1, nd, nv, n), 2, H, n, DIF0=d0, DIF1=d1, NDIFE=nd, NVIFE=nv, cap=5200 if nd + nv > 4 else 3800)
    L = ("mbus_decode_manufacturer", "mbus_data_variable_medium_lookup", "mbus_data_fixed_medium", "mbus_data_fixed_unit", "mbus_data_fixed_function")
    D = "MBUS_DATA_TYPE_"
    for t in ("FIXED", "VARIABLE", "ERROR"):
        q("data_" + t.lower(), "every content of %s data" % t.lower(), 3, L, TYPE=D + t, STFMT=0, VP_HEX_TOKEN=None)
    q("data_binary", "every fixed data with binary counters", 3, L, TYPE=D + "FIXED", STFMT=0x80, VP_HEX_TOKEN=None)
    q("data_unknown", "data of no known type", 3, L, TYPE=99, STFMT=0)
    for n in (0, 1, 5, 6, 9, 12):
        q("debug%d" % n, "every string of %d bytes parsed with debug output" % n, 5, n=n)
    return qs
