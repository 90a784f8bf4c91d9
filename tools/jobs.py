"""What each property's check explores: harness, step limit, argument template."""
A = b"\xf5\x00"      # any byte
AS = b"\xf5\x01"     # any ASCII byte
Y = b"\xf5\x02"      # a YAML-significant character
PR = b"\xf5\x03"     # printable ASCII or newline
C = b"\xf5\x04"      # UTF-8 continuation byte
def of(s):
    s = s if isinstance(s, bytes) else s.encode()
    return b"\xf5\x05" + bytes([len(s)]) + s
def rng(a, b):
    return b"\xf5\x06" + bytes([a, b])
def lit(s):
    s = s if isinstance(s, bytes) else s.encode()
    return s.replace(b"\xf5", b"\xf5\xf5")
M = 20_000_000
OWN = M + 1  # (a rule's input that the other properties do not repeat)
WS = of(" \n")                       # blank or break
WT = of(" \t\n")
L = of("a \n")
IND = of("-?:,[]{}#&*!|>'\"%@`a \n")
U2 = rng(0xC2, 0xDF) + C             # two-byte characters
U3 = b"\xf5\x09"                     # every three-byte character
U4 = b"\xf5\x0a"                     # every four-byte character
def alts(*a):
    """One of these strings."""
    a = [x if isinstance(x, bytes) else x.encode("latin1") for x in a]
    return b"\xf5\x07" + bytes([len(a)]) + b"".join(bytes([len(x)]) + x for x in a)
def rep(lo, hi, u):
    """This string lo to hi times; \x01 in it stands for the count so far."""
    u = u if isinstance(u, bytes) else u.encode("latin1")
    return b"\xf5\x08" + lo.to_bytes(2, "little") + hi.to_bytes(2, "little") + bytes([len(u)]) + u
HEX = of("0189afAFg")

def T(s, **k):
    """Template: a string in which <x> stands for a symbolic byte."""
    m = {"any": A, "asc": AS, "y": Y, "p": PR, "w": WS, "wt": WT, "l": L, "i": IND, "h": HEX, "c": C, "u2": U2, "u3": U3, "u4": U4}
    m.update(k)
    out, i = b"", 0
    s = s if isinstance(s, bytes) else s.encode()
    while i < len(s):
        if s[i:i + 1] == b"<":
            j = s.find(b">", i)
            n = s[i + 1:j].decode("latin1") if j > 0 else None
            if n in m:
                out += m[n]
                i = j + 1
                continue
            if n and n[0] == "*" and n.count("*") == 2:
                r, u = n[1:].split("*")
                r = [int(x) for x in r.split("-")]
                out += rep(r[0], r[-1], u.encode("latin1").decode("unicode_escape"))
                i = j + 1
                continue
            if n and n.startswith("="):
                out += of(n[1:].encode("latin1").decode("unicode_escape"))
                i = j + 1
                continue
        out += lit(s[i:i + 1])
        i += 1
    return out

# --- reading: places where a few symbolic characters meet every construct
CONTEXTS = [
    "<y><y><y><y>", "a<y><y><y>", "- <y><y><y>", "a: <y><y><y>", "? <y><y><y>", "- a\n<y><y><y>", "a: b\n<y><y><y>", "- - a\n<y><y><y>",
    "a:\n <y><y><y>", "a:\n- b\n<y><y>c", "[<y><y><y>", "{<y><y><y>", "[a<y><y><y>", "{a: b<y><y>", "[a, <y><y>]", "{? <y><y>}",
    "{a<y><y>}", "[? a<y><y>]", "[a: <y><y>]", "[{<y><y>}]", "{[<y><y>]}", "!<y><y><y>", "&<y><y><y>", "*<y><y><y>", "&a <y><y><y>", "!a <y><y><y>",
    "&a !b <y><y>", "*a <y><y>", "*a : <y>", "&a\n<y><y>", "!!a<y><y>", "!<a><y><y>", "!<<y><y>", "--- <y><y><y>", "---\n<y><y><y>", "a\n...<y><y>",
    "a\n---<y><y>", "...\n<y><y><y>", "%<y><y><y>", "%YAML<y><y>", "%YAML 1.1<y><y>", "%TAG<y><y>", "%TAG ! <y><y>", "%TAG !a! <y><y>",
    "%YAML 1.1\n<y><y><y>", "# <y><y><y>", "a #<y><y>\n<y>", "a: b #<y>\n<y>", "'<y><y><y>'", "'a<y><y><y>", "\"<y><y><y>\"", "\"a<y><y><y>",
    "\"\\<y><y>\"", "\"a\\<y><y>", "|<y><y><y>", "|\n <y><y><y>", "|\n a\n<y><y><y>", "><y><y><y>", ">\n a\n<y><y><y>", "- |\n <y><y>\n<y>", "a: >-\n  b\n<y><y><y>",
    "a\n b<y><y><y>", "a\n<y><y>b", "a: b\n c<y><y>", "- a\n  b<y><y>", "? a\n: <y><y>", "? a\n<y><y>b", "a: &x b\nc: <y><y>", "- [a\n<y><y>]", "{a: b,\n<y><y>}",
    "\xef\xbb\xbf<y><y>".encode("latin1"), "a\xc2\x85<y><y>".encode("latin1"), "a\xe2\x80\xa8<y><y>".encode("latin1"), "\xc3\xa9<y>: <y>".encode("latin1"),
    "\"a\"<y><y>b", "'a'<y><y>b", "[\"a\"<y><y>]", "{\"a\":<y><y>}", "- <y>\n- <y>", "a: <y>\nb: <y>", "<y>a: b<y>", "<y>- a<y>", " <y><y>a: b",
    "\t<y><y>a", "a:\t<y><y>", "-\t<y><y>", "a\t<y><y>", "[a,\t<y><y>]", "a\r\n<y><y>", "a\r<y><y>", "- a\r\n<y><y>b", "--- |\n<y><y>", "--- >\n a<y><y>", "--- a\n--- <y><y>", "--- a\n...\n<y><y>",
    "a:\n-\n<y><y>c: d", "a:\n- x\n-\n<y>: c", "-\n<y><y>\n-", "?\n<y>\n:\n<y>", "? - a\n: - b\n<y><y>", "- a: b\n  c: d\n<y><y>", "- - a\n  - b\n<y><y>", "a:\n  - b\n  -\n<y><y>c", "a:\n  b:\n<y><y>c:", "[a, {b: c}<y><y>]",
    "- ? a\n  : b\n<y><y>", "!a &b\n- c\n<y><y>", "a: !b\n<y><y>c: d", "- &a\n<y>- b", "a: &b\n- c\n<y><y>", "{a: [b<y>, c<y>}", "[a: b, <y>c<y>]", "? [a]\n<y> b", "{a, b: c, <y>}<y>", "a:\n- b: c\n<y><y>d: e", "- a\n-\n<y>- b\n<y>c", "a: {b: c}<y><y>d", "a: [b]\n<y>c: d", "a: 'b'\n<y>'c': d",
    "# <u4>\n<y>: <y>", "a<u4><y><y>", "'<u4>'<y><y>", "\"<u4><y>\"<y>", "|\n <u4><y>\n<y>", "<u3>: <u4><y>", "!a<u4><y>", "[<u4><y>", "&a <u4>\n<y>", "\xf0\x90\x80\x80<y>: <y>".encode("latin1"), "a\xe2\x80\xa9<y><y>".encode("latin1"), "'a\xc2\x85<y>b'".encode("latin1"), "# \xe2\x80\xa8<y>".encode("latin1"), "- a\xc2\x85<y>- b".encode("latin1"), "|\xc2\x85 a\xe2\x80\xa9<y>b".encode("latin1"),
    # a byte order mark elsewhere than at the start
    *[x.replace("@", "\xef\xbb\xbf").encode("latin1") for x in ("# a\n@<y>b", "a\n@<y>b", "- a\n@<y>- b", "'@<y>'", "a@<y>", "|\n @<y>a", "\"a\n@<y>\"", "[@<y>]", "--- @<y>", "@@<y>a", "...\n@<y>a", "a: b\n@<y>: d", "@# a<y>\n@b", "@%YAML 1.1\n@---<y>", "\n@<y>- a")],
]
# --- reading: sequences of whole tokens, chosen by the solver
BK = alts("- ", "? ", ": ", "a", "b: ", "\n", "\n ", "\n  ", "&x ", "!t ", "-\n", "'q'")
FK = alts("[", "]", "{", "}", ", ", ": ", "? ", "a", "\"q\"", "\n", "*x ", "b: ")
DK = alts("--- ", "\n---\n", "\n...\n", "%YAML 1.1\n", "%TAG ! b\n", "a", "!c ", "# d\n", "\n", "[]", "|\n e\n", "- f")
SK = alts(" ", "  ", "\n", "\t", "a", "#", "'", "\"", "|\n", ">-\n", ": ", "\r\n")
AK = alts("&a ", "*a", "*b", "&b ", "- ", "c", "\n", "\n- ", ": ", "[", "]", ", ", "--- ", "!t ")
EK = alts("&a ", "!b!c ", "*a ", "- ", "a: ", "? ", "[", "{", "]", "}", ", ", "\n", "\n  ", "|\n", "'x", "%YAML 1.1\n", "--- ", "\t", "@", "\"\\q\"", ": ", "&b\n")
def tokens(h, th, sets, n=4):
    o = []
    k = n + (1 if th else 0)
    for x in sets:
        if x == "B":
            o.append((h, M, BK * k))
            o.append((h, M, T("a:") + BK * (k - 1)))
        elif x == "F":
            o += [(h, M, T("[") + FK * (k - 1)), (h, M, T("{") + FK * (k - 1)), (h, M, T("- {a: [") + FK * (k - 2) + T("]}"))]
        elif x == "D":
            o.append((h, M, DK * k))
        elif x == "S":
            o += [(h, M, SK * k), (h, M, T("- a") + SK * (k - 1) + T("b"))]
        elif x == "b":
            o.append((h, M, alts("- ", "? ", ": ", "a", "b: ", "\n", "\n ", "\n  ", "-\n", "&x ") * (k + 1)))
        elif x == "A":
            o.append((h, M, AK * k))
        elif x == "E":
            o += [(h, M, EK * min(k, 4 if th else 3)), (h, M, T("&a !b!c ") + EK * 2), (h, M, T("a\n- {") + EK * 2), (h, M, T("[a, ") + EK * 2)]
    return o
# --- reading: sizes at which a threshold could lie
BIG = [
    "<*1-40*[><y>", "<*300*[><*300*]><y>", "<*150*{a: ><y>", "<*1-40*- ><y>", "<*200*- >a\n<y>", "<*1-40*- a\n><y>", "<*300*- a\n><y>", "<*1-40*a\\x01: b\n><y>", "<*200*a\\x01: b\n><y>", "[<*1-40*a, ><y>]", "[<*300*a, ><y>]", "{<*200*a: b, ><y>}",
    "<*1-30*--- a\n><y>", "<*1-30*a\n...\n><y>", "<*1-40*%TAG !a\\x01! b\\x01\n>--- !a1!x<y>", "<*60*%TAG !a\\x01! b\\x01\n>--- !a<=0123456789>!x", "<*1-40*? ><y>", "<*1-40*? a\n: ><y>", "<*60*a:\n - b:\n  ><y>",
    "<*1-40*a><y>: b", "<*1-40* >a<y>", "<*1-40*a >\n<y>", "'<*1-40*a ><y>'", "\"<*1-40*a\n><y>\"", "|\n<*1-40* a\n><y>", ">\n<*1-40* a\n><y>", "|\n<*1-40* >a\n<y>", "# <*1-40*ab><y>\nc", "!<*1-40*a><y> b", "&<*1-40*a><y> b", "!<<*1-40*a>\x3e<y>b",
    "<*1-40*\n>a<y>", "a<*1-40*\n>b<y>", "a<*1-40*\t>b<y>", "'a<*1-40*\n>b<y>'", "a:<*1-40* >b<y>", "a:<*1-20*\n>b<y>", "|\n a<*1-40*\n> <y>b", "<*260*a><y> b", "'<*260*a b\n><y>'", "|\n<*260* a\n><y>", "&<*260*a><y> b", "!<*260*a><y> b", "# <*300*a><y>\nb",
    "<*100*\xc3\xa9><y>: b".encode("latin1").decode("latin1"), "<*60*\xf0\x9f\x98\x80><y>: b", "%YAML 1.1\n<*40*# a\n>--- b<y>", "<*40*!t &a\\x01 - >b<y>",
]
HUGE = ["<*8190*a><any>b<any>", "'<*16382*a><any>b'<any>", "# <*16380*a><any>\n- <any>", "<*4096*- a\n><any>b<any>", "|\n<*5460* a\n><any>b<any>", "<*5461*\xe2\x82\xac><any><any>b", "[<*5500*a, ><any>]"]
VAST = ["'<*65530*a>\x3cany>b<any>".replace("\x3c", "<"), "<*65534*\n>a<any><any>", "# <*65533*\xc3\xa9>a<any>\n- <any>", "[<*33000*a,>b<any>", "<*65535*\n\n>- a<y>\n-<y>", "|\n<*33000* a\n><any>b", "<*33000*- a\n>-<any>", "{<*20000*a: &b ,>*b<any>", "<*33000*  >a:<y>b\n<*33000*  >c<any>"]
def vast(h, pre=b""):
    """Lines, columns, offsets and numbers beyond 16 bits."""
    return [(h, 1000 * M, pre + T(t.encode("latin1"))) for t in VAST]
def deep(h, pre=b"", k=2, steps=5 * M):
    """A few tokens deep inside collections of every kind."""
    o = []
    for d in (10, 35):
        for t, i in (("".join(" " * i + "a:\n" for i in range(d)) + " " * d, d), ("- " * d, 2 * d), ("? " * d, 2 * d), ("".join(" " * 4 * i + "- a:\n" for i in range(d)) + " " * 4 * d, 4 * d), ("a:\n" + "".join(" " * 2 * i + "- a:\n" for i in range(d)) + " " * 2 * d, 2 * d)):
            o.append((h, steps, pre + T(t) + alts("- ", "-", "? ", ": ", "b: ", "\n" + " " * i, "\n" + " " * (i - 1), "\n" + " " * (i + 1), "a", "[]", "&x ", "\n", "|\n" + " " * i + " c", "\t") * k))
        for t in ("[" * d, "{a: " * d, "[{a: " * d, "{? " * d, "- " * d + "["):
            o.append((h, steps, pre + T(t) + FK * k))
    return o
def big(h, steps=5 * M, pre=b"", huge=True):
    return deep(h, pre, 2, steps) + [(h, steps, pre + T(t.encode("latin1"))) for t in BIG] + ([(h, 20 * M, pre + T(t.encode("latin1"))) for t in HUGE] if huge else [])
def any_bytes(h, n, pre=b""):
    return [(h, M, pre + A * k) for k in range(0, n + 1)]
def fewer(c, n):
    """The context with its first n symbolic characters (the others are the letter a)."""
    c = c if isinstance(c, bytes) else c.encode()
    p = c.split(b"<y>")
    return b"<y>".join(p[:n + 1]) + b"".join(b"a" + x for x in p[n + 1:])
def contexts(h, pre=b"", sub=None, extra=0):
    out = []
    for c in CONTEXTS:
        if sub is None or any(s in (c if isinstance(c, str) else c.decode("latin1")) for s in sub):
            out.append((h, M, pre + T(c) + Y * extra))
    return out

def rules(h, th, pre=b"", st=M):
    """The inputs of the rule-by-rule properties."""
    return [(h, st, pre + a) for p in ("C22", "C23", "C24", "C25", "C26") for x, w, a in GEN[p](th) if x in ("h_events", "h_quoted") and w != OWN]
PROPS, NA, GEN = {}, {}, {}
def prop(id, **k):
    def d(f):
        PROPS[id] = k
        GEN[id] = f
        return f
    return d
def jobs(p, tier):
    return GEN[p](tier == "thorough")

@prop("C01", reach={"h_any": [1, 2]})
def c01(th):
    o = any_bytes("h_any", 5 if th else 4, b"\x00")
    o += contexts("h_any", b"\x00", extra=1 if th else 0)
    for e in (2, 3):
        bom = [b"\xff\xfe", b"\xfe\xff"][e - 2]
        for k in range(0, 5 + th):
            o.append(("h_any", M, b"\0" + bom + A * k))
            o.append(("h_any", M, bytes([e]) + A * k))
    o += [("h_any", M, b"\1" + A * k) for k in range(0, 4)]
    o += tokens("h_any", th, "BFDSAE", 3) + big("h_any", pre=b"\0") + rules("h_any", th, b"\0")
    return o + [("h_any", M, b"\0" + T(t, x=of("0189abcdefAF"))) for t in ["!%F<x>%<x><x>%80%80%80 a", "!a!%F<x>%8<x>%80%80%8<x>%80%80 a", "%TAG !a! %F<x>%<x><x>%80%80%80\n--- a", "!<%E<x>%<x><x>%80%80> a", "%YAML <*1-14*9>.<*1-14*1>\n--- a"]]

def linear(unit, pre="", post="", what=4, n=100):
    u = unit if isinstance(unit, bytes) else T(unit.encode("latin1"))
    return ("h_linear", 500 * M, bytes([what]) + n.to_bytes(2, "little") + bytes([len(u)]) + u + T(pre.encode("latin1")) + b"\0" + T(post.encode("latin1")))
# what is repeated: a few characters or tokens that the solver chooses
LIN = [("<y><y>",), ("a<y>",), ("<y>a\n",), ("- <y>\n",), ("a: <y>\n",), ("- a<y>",), ("<y>", "'", "'"), ("<y>", '"', '"'), ("<l>a", "|\n ", "\n"), ("a<l><l>", ">\n  ", "\n"), ("<y>", "# ", "\na"), ("<y>", "!", " a"), ("<y>", "&", " a"), ("<y>", "a", ""),
       ("<y>, ", "[", "]"), ("a<y>", "[", "]"), ("a<y> b", "{", "}"), ("a: b<y>", "{", "}"), ("<y>\n", "- a\n", "b"), ("--- <y>\n",), ("a\n...<y>",), ("%<y> a\n", "", "--- a"), ("%YAML<y>", "", " 1.1\n--- a"), ("\xc3<=\xa9>",), ("\xe2\x82\xac",), ("\xf0\x9f\x98\x80<l>", "'", "'"), ("\xc3\xa9\n", "|\n  ", ""), ("\\<y>", '"', '"'),
       ("%4<=1a>", "!", " a"), ("<l>", "a:", "b"), ("<l>", "[a", "]"), ("? <y>\n",), ("- ",), ("? ",), ("-\t",), ("a:\n<l>",), ("- - a\n",), ("- !t &a <y>\n",), ("!t ",), ("[]<l>",), ("[a]<l>", "- ", ""), ("- {a: <y>}\n",), ("- [<y>]\n",), ("'a'<l>",), ("- \"<y>\"\n",), ("- |\n  a<l>\n",), ("\r\n<l>",), ("\xc2\x85",), ("\xe2\x80\xa8a",), ("<any>", "# ", "")]
@prop("C02", reach={"h_progress": [1, 2], "h_linear": [1, 2, 3]})
def c02(th):
    o = any_bytes("h_progress", 4 if th else 3) + contexts("h_progress", extra=1 if th else 0)
    for k in range(0, 5):
        o.append(("h_progress", M, b"\xff\xfe" + A * k))
    o += tokens("h_progress", th, "BFDSA", 3)
    return [(h, M // 5, a) for h, _, a in o + rules("h_progress", th)] + big("h_progress") + vast("h_progress")[-4:] + [linear(*x, what=2 if "&" in x[0] else 1 if k % 4 == 3 and not th else 5 if th else 4, n=400 if th else 100) for k, x in enumerate(LIN)] + [linear(a * 2, pre, post, 2) for a, pre, post in ((BK, "", ""), (FK, "- [", "]"), (DK, "", ""), (SK, "", ""))]

@prop("C03", reach={"h_events": [1, 2, 3]})
def c03(th):
    return any_bytes("h_events", 5 if th else 4) + contexts("h_events", extra=1 if th else 0) + tokens("h_events", th, "bBFDSE") + big("h_events") + deep("h_events", b"", 4 if th else 3) + rules("h_events", th) + vast("h_events")

@prop("C04", reach={"h_tokens": [1, 2, 3]})
def c04(th):
    return any_bytes("h_tokens", 5 if th else 4) + contexts("h_tokens", extra=1 if th else 0) + tokens("h_tokens", th, "BFDSE") + big("h_tokens") + rules("h_tokens", th) + vast("h_tokens")[:4]

@prop("C05", reach={"h_marks": [1, 2], "h_token_marks": [1, 2]})
def c05(th):
    o = any_bytes("h_marks", 4 if th else 3) + any_bytes("h_token_marks", 4 if th else 3)
    o += contexts("h_marks", extra=1 if th else 0) + contexts("h_token_marks", extra=1 if th else 0)
    o += vast("h_marks") + rules("h_marks", th) + (rules("h_token_marks", th) if th else [])
    o += tokens("h_marks", th, "BFDSE", 3) + tokens("h_token_marks", th, "BFDS", 3) + big("h_marks") + big("h_token_marks", huge=th)
    return o

@prop("C06", reach={"h_encodings": [1, 2], "h_encodings_cut": [1, 2]})
def c06(th):
    o = any_bytes("h_encodings", 4 if th else 3)
    for t in ["a: <u2>", "'<u3>'", "- <u2><u3>", "\"<any><any><any><any>\"", "# <any><any><any><any>\na", "a<any><any><any>b", "|\n <any><any><any>\n b", "<y><y><y>", "[<y><y>]", "a: <y>\n<y>"]:
        o.append(("h_encodings", M, T(t)))
    o += [(h, M, T(fewer(c, 3 if th else 2))) for h in ("h_encodings",) for c in CONTEXTS]
    o += tokens("h_encodings", th, "BFDS", 3) + big("h_encodings", 20 * M, huge=False)
    for t in HUGE if th else HUGE[:5]:
        o.append(("h_encodings", 40 * M, T(t.replace("<any>", "<y>"))))
    # the same in small pieces
    for m in (0x81, 0x82, 0x83, 0xA1, 0xAF):
        small = m >= 0xA0 and not th
        for t in (["<u4>: a", "'<u3>'", "- <u2>a", "a\r\n<u4>", "\"<y>\\\n<y>\""] if small else ["<u4>: <u3>", "- <u2><u4>", "'<u3><y>'", "|\n <u4><u2>\n", "<any><any><any>", "<u4><any>", "a\r\n<y><u4>", "\"<u4>\\\n<y>\"", "# <u4>\n<u3>: <y>", "&<y>a [*a]", "%YAML 1.1\n--- <u4>"]) + LOOKAHEAD[::6 if small else 1]:
            o.append(("h_encodings_cut", M, bytes([m]) + T(t)))
        if th or m == 0x81:
            o += [("h_encodings_cut", M, bytes([m]) + T(fewer(c, 2 if th else 1))) for c in CONTEXTS]
    for t in HUGE[:6]:
        for m in (0xCC, 0xCD, 0xCE) if th else (0xCD,):
            o.append(("h_encodings_cut", 60 * M, bytes([m]) + T(t.replace("<any>", "<=a\xff>"))))
    for t in ["<u4>: <u4><y>", "'<u4><y>'", "|\n <u4>\n<y><u3>", "<u2>\n<u4>: <u3>", "a\xc2\x85<y>b".encode("latin1"), "\xe2\x80\xa8<y>b".encode("latin1"), "- <u4>\n<y>- <u2>", "<*1-40*a><u4><y>", "!a<u3> <u4>", "\"\\U0001F600<u4>\""]:
        o.append(("h_encodings", M, T(t)))
    return o

@prop("C07", reach={"h_decode": [1, 2, 4]})
def c07(th):
    o = []
    for mode in (0, 1, 2):
        for k in range(0, 5 + th):
            o.append(("h_decode", M, bytes([mode]) + A * k))
        o.append(("h_decode", M, bytes([mode]) + b"\xef\xbb\xbf" + A * 2))
    for m in (4, 8):
        for mode in (0, 1, 2):
            for k in range(0, 5 + th):
                o.append(("h_decode", M, bytes([m + mode]) + A * k))
    # the same at other places of the buffer, and beside characters of every width
    for mode in (0, 1):
        for t in ["<u2><any><any>", "<u3><any><any>", "<u4><any><any>", "<any><u4><any>", "<any><any><u3>", "<*1-40*a><any><any>", "<*1-9*ab><u2><any>", "<any>a<any>a<any>", "\xf4<any><any><any>".encode("latin1"), "\xf0<any><any><any>".encode("latin1"), "\xed<any><any>a".encode("latin1"), "\xe0<any><any>a".encode("latin1"), "\xef<any><any>a".encode("latin1"), "a\xc2<any>a\xc1<any>".encode("latin1")]:
            o.append(("h_decode", M, bytes([mode]) + T(t)))
        for n in (127, 1023, 4094, 8190, 16380, 16382, 16383, 16384):
            o.append(("h_decode", 20 * M, bytes([mode]) + T("<*%d*a>" % n) + A * (3 if n in (127, 16383) else 2)))
    for m in (4, 8):
        a, hi = ("a\0", 1) if m == 4 else ("\0a", 0)
        for t in [a + "<any><any>" + a, "<any><any>" + a + "<any><any>", "<any>" + a + "<any>"] + (["<any><=\\xd8\\xdb\\xdc\\xdf><any><=\\xd8\\xdb\\xdc\\xdf><any><=\\xd8\\xdc\\0>"] if hi else ["<=\\xd8\\xdb\\xdc\\xdf><any><=\\xd8\\xdb\\xdc\\xdf><any><=\\xd8\\xdc\\0><any>"]):
            for mode in (0, 1):
                o.append(("h_decode", M, bytes([m + mode]) + T(t)))
        for n in (511, 4095, 8189, 8191):
            o.append(("h_decode", 20 * M, bytes([m]) + rep(n, n, a) + A * 4))
    return o

# everything for which the scanner looks ahead by more than one character
LOOKAHEAD = ["\"\\U0001F600\\u00e9\\x41\"", "\"a\\\r\n  b\"", "%YAML 1.1\r\n%TAG !a! b\r\n--- !a!c\r\n", "%YAML 1.1 # c\r\n---\r\na\r\n...\r\n", "a: |\r\n  b\r\n\r\n  c\r\n", ">2-\r\n  a\r\n", "'a''b'\r\n", "'it''s\r\n ''x'", "a\r\nb\r\n\r\nc: d",
             "--- a\n--- b\n...\n---\n", "'a\n---x'", "'a\n--- x'", "a\n... \nb", "!a%C3%A9%41 b", "!<a%20b> c", "%TAG !a! b%2Cc\n--- !a!d", "- a\r- b\r\n- c\n", "a\u0085b\u2028c\u2029d: e", "- \u0085- a", "# c\r\n# d\r\na", "[a,\r\n b]", "{a: b,\r\n c : d}", "? a\r\n: b\r\n", "&a b\r\n", "*a\r\n", "!t\r\n",
             "'\u2028\r\n'", "\"\u0085\r\n\\\u0085 a\"", "|\u0085 a\u2029 b\r\n", ">\n \u2028 a\r\n", "a:\tb\r\n", "\ufeffa: b".replace("\ufeff", ""), "\U0001F600: \u20ac\u00e9\r\n", "--- >\r\n a\r\n...\r\n", "a #b\r\nc", "-\r\n-\r\n", "a:\r\n- b\r\n", "--", "---", "..", "...", "--a", "..a", "\"\\", "\"\\U0001", "\"\\x4", "'", "!%4", "%YAML", "%YAML 1.", "\r", "a\r", "|\r", "'a\r", "?\r", "# a\r"]
@prop("C08", reach={"h_chunk": [1, 2]})
def c08(th):
    o = []
    for k in range(0, 4):
        o.append(("h_chunk", M, bytes([3, 0]) + A * k))
    for t in ["a: b\r\n- c", "\xef\xbb\xbfab".encode("latin1"), "\xff\xfea\0b\0".encode("latin1"), "\xfe\xff\0a\xd8\x3d\xdc\0\0b".encode("latin1"), "\xf0\x9f\x98\x80: \xe2\x82\xac\xc3\xa9".encode("latin1"),
              "'a\r\n  b'", "|\n a\r\n b\n", "%YAML 1.1\n--- a", "[a, b]", "\"\\u00e9\\\n x\"", "a<y><y>b"]:
        o.append(("h_chunk", M, bytes([4, 0]) + T(t)))
        o.append(("h_chunk", M, bytes([1, 2]) + T(t)))
    for t in ["\xff\xfe<any><=\\xd8\\xdb><any><=\\xdc\\xdf>a\0", "\xfe\xff<=\\xd8\\xdb><any><=\\xdc\\xdf><any>\0a", "\xff\xfea\0<any><=\\xd8\\xdc\\0>", "\xfe\xff\0a<=\\xd8\\xdc\\0><any>", "<u4>: <u3>", "a<u4><u4>", "\xef\xbb\xbf<u4>", "\xf4<any>\x80<any>", "\xed<any><any>a"]:
        for m in (0x81, 0x82, 0x83, 0xA1, 0xA2):
            o.append(("h_chunk", M, bytes([m, 1 if m == 0x81 else 0]) + T(t.encode("latin1"))))
    # byte by byte, two and three at a time; a first piece of every length
    for c in CONTEXTS:
        o.append(("h_chunk", M, bytes([0x81, 0]) + T(fewer(c, 3 if th else 2))))
        o.append(("h_chunk", M, bytes([0x90 + 3, 0]) + T(fewer(c, 2 if th else 1))))
        o.append(("h_chunk", M, bytes([0xA1, 0]) + T(fewer(c, 2 if th else 0))))
        o.append(("h_chunk", M, bytes([0xA0 + 15, 1]) + T(fewer(c, 1 if th else 0))))
    for t in LOOKAHEAD:
        for e in (0, 2, 3):
            x = T(t)
            if e:
                if 0xF5 in x:
                    continue
                x = lit(x.decode("utf8").encode("utf-16-be" if e == 3 else "utf-16-le").join([b"\xfe\xff" if e == 3 else b"\xff\xfe", b""]))
            for m in (0x81, 0x82, 0x83, 0xA1, 0xA2, 0xAF):
                o.append(("h_chunk", M, bytes([m, 0]) + x))
    # short texts of the characters that the scanner looks ahead for
    for x in ("-. a\n", "'\" a\\", "\r\n -a", "?:- a", "!%4<>a", "#\r\n a", "|>\n a", "&*a,]"):
        o.append(("h_chunk", M, bytes([0x81, 0]) + of(x) * (5 if th else 4)))
        o.append(("h_chunk", M, bytes([0xA1, 0]) + of(x) * (4 if th else 3)))
    for x in ("\n---<y>b", "a\n...<y>b", "---<y>", "...<y>b", "[a,\n---<y>]", "\"a\n...<y>\"", "|\n a\n---<y>", "a: b\n---<y>\n", "---\n---<y>", "- |\n a\n...<y>\n"):
        for m in (0x81, 0x82, 0x83, 0xAF):
            o.append(("h_chunk", M, bytes([m, 0]) + T(x)))
    o += [(h, k, bytes([0x81, 0]) + a) for h, k, a in tokens("h_chunk", th, "BFDSA", 3)]
    for t in HUGE + BIG[-6:]:
        for m in ((0xC0 + 12, 0xC0 + 13, 0xC0 + 14) if t in HUGE else (0x81, 0xC0 + 4, 0xC0 + 7)):
            o.append(("h_chunk", 40 * M, bytes([m, 0]) + T(t.encode("latin1").replace(b"<any>", b"<=a\\xff>"))))
    return o

@prop("C09", reach={"h_ioerr": [1]})
def c09(th):
    o = []
    for t in ["<any><any>", "a: b\r\n- c", "\xef\xbb\xbfab".encode("latin1"), "\xff\xfea\0b\0".encode("latin1"), "\xfe\xff\0a\xd8\x3d\xdc\0".encode("latin1"), "\xe2\x82\xac: \xc3\xa9".encode("latin1"), "- a\n- b\n", "{a: b}", "\"a\nb\"", "|\n a\n b\n", "%YAML 1.1\n--- a", "a<y><y>"]:
        o.append(("h_ioerr", M, bytes([2, 0]) + T(t)))
        o.append(("h_ioerr", M, bytes([0, 1]) + T(t)))
    for c in CONTEXTS:
        o.append(("h_ioerr", M, bytes([0, 0]) + T(fewer(c, 1 if th else 0))))
        o.append(("h_ioerr", M, bytes([0x81, 0]) + T(fewer(c, 1 if th else 0))))
    for t in LOOKAHEAD:
        o.append(("h_ioerr", M, bytes([0, 0]) + T(t)))
        o.append(("h_ioerr", M, bytes([0x81, 0]) + T(t)))
    for t in HUGE:
        o.append(("h_ioerr", 40 * M, bytes([0xC0 + 13, 0]) + T(t.encode("latin1").replace(b"<any>", b"b"))))
    return o

@prop("C10", reach={"h_grammar": [1, 2]})
def c10(th):
    return any_bytes("h_grammar", 5 if th else 4) + contexts("h_grammar", extra=1 if th else 0) + tokens("h_grammar", th, "BFDE") + big("h_grammar") + deep("h_grammar", b"", 4 if th else 3) + rules("h_grammar", th) + ([("h_grammar", 100000 * M, T("<*33000*%s><any>" % k)) for k in ("[", "- ")] if th else [("h_grammar", 1000 * M, T("<*33000*- ><any>"))])

@prop("C21", reach={"h_errors": [2, 4]})
def c21(th):
    return any_bytes("h_errors", 5 if th else 4) + contexts("h_errors", extra=1 if th else 0) + tokens("h_errors", th, "BFDSE") + big("h_errors") + rules("h_errors", th) + vast("h_errors")

# --- emitting: scripts of events with symbolic contents, styles and settings
def elen(t):
    """Length of a template after expansion."""
    i = n = 0
    while i < len(t):
        if t[i] == 0xF5:
            if t[i + 1] == 8:
                assert t[i + 2:i + 4] == t[i + 4:i + 6] and 1 not in t[i + 7:i + 7 + t[i + 6]]
                n += t[i + 6] * int.from_bytes(t[i + 2:i + 4], "little") - 1
            assert t[i + 1] != 7
            n += {9: 2, 10: 3}.get(t[i + 1], 0)
            i += {5: 3 + t[i + 2] if t[i + 1] == 5 else 0, 6: 4, 8: 7 + t[i + 6] if t[i + 1] == 8 else 0}.get(t[i + 1], 2)
        else:
            i += 1
        n += 1
    return n
def cfg(flags=0, indent=0, width=0, brk=0, enc=0):
    b = lambda x: x if isinstance(x, bytes) else bytes([x & 255])
    return b(flags) + b(indent) + b(width) + b(brk) + b(enc)
def st(t):
    t = T(t)
    return lit(bytes([elen(t)])) + t
ANYSTYLE = of(b"\0\1\2\3\4\5")
def sc(value, style=ANYSTYLE, flags=12, anchor=None, tag=None, long=None):
    """Scalar event: flags 4 plain implicit, 8 quoted implicit; long: (n, unit) before the value."""
    s = style if isinstance(style, bytes) else bytes([style])
    f = flags if isinstance(flags, int) else 0
    f |= (1 if anchor is not None else 0) | (2 if tag is not None else 0)
    f |= 16 if long else 0
    return b"s" + (bytes([f])) + s + (st(anchor) if anchor is not None else b"") + (st(tag) if tag is not None else b"") + (lit(long[0].to_bytes(2, "little")) + st(long[1]) if long else b"") + st(value)
def times(n, x):
    return b"R" + lit(n.to_bytes(2, "little")) + x + b"r"
def col(c, items=b"", style=0, flags=4, anchor=None, tag=None):
    s = style if isinstance(style, bytes) else bytes([style])
    f = flags | (1 if anchor is not None else 0) | (2 if tag is not None else 0)
    return c.encode() + bytes([f]) + s + (st(anchor) if anchor is not None else b"") + (st(tag) if tag is not None else b"") + items + {"[": b"]", "{": b"}"}[c]
def seq(*items, **k):
    return col("[", b"".join(items), **k)
def mp(*items, **k):
    return col("{", b"".join(items), **k)
def alias(a):
    return b"*" + st(a)
def doc(node, dflags=1, ds=b"", eflags=1):
    return b"D" + bytes([dflags]) + ds + node + b"d" + bytes([eflags])
def stream(*docs, enc=0):
    return b"S" + bytes([enc]) + b"".join(docs) + b"E"
pl = sc("k", 1)
# where a scalar can stand
PLACES = {
    "root": lambda x: doc(x), "item": lambda x: doc(seq(x)), "item2": lambda x: doc(seq(pl, x, pl)), "key": lambda x: doc(mp(x, pl)), "value": lambda x: doc(mp(pl, x)),
    "key2": lambda x: doc(mp(pl, pl, x, pl)), "fitem": lambda x: doc(seq(x, style=2)), "fitem2": lambda x: doc(seq(pl, x, pl, style=2)), "fkey": lambda x: doc(mp(x, pl, style=2)),
    "fvalue": lambda x: doc(mp(pl, x, style=2)), "nested": lambda x: doc(seq(mp(pl, seq(x)))), "deep": lambda x: doc(mp(pl, mp(pl, seq(seq(x, pl))))),
    "keyseq": lambda x: doc(mp(seq(x), pl)), "two": lambda x: doc(x) + doc(pl), "after": lambda x: doc(pl) + doc(x), "explicit": lambda x: doc(x, 0, b"", 0),
}
SCALARS = ["", "<any>", "<y><y>", "<y><y><y>", "a<y><y>", "<y>a<y>", "<y><y>a", "a<y>b", "a\n<y>b", "<w><w>a<w>", "a<w><w><w>", " <l><l><l>", "a\n<l><l>b", "<u2>", "a<u2>", "<u3>", "<any><any>", "<u4>", "\xef\xbb\xbf<y>".encode("latin1")]
def emitted(h, th, cfgs, places=None, scalars=None, M=M):
    o = []
    for c in cfgs:
        for pn, pf in PLACES.items():
            if places is None or pn in places:
                for s in scalars or SCALARS:
                    o.append((h, M, c + stream(pf(sc(s)))))
    return o
CFG0 = cfg(2)
LONG = ["a b c<y>d e", "aa bb cc<y>dd<y>ee", "a  b <l> c d", "a\nb c<l>d\n e", " a b\n<l>c d", "aaaa<l><l>bbbb c"]
STRUCT = []
def structs():
    """Shapes of collections; every style and flag a choice of the solver."""
    s3, e2 = of(b"\0\1\2"), lambda: sc("a", of(b"\0\1\3\4"))
    o = [doc(seq(style=s3)), doc(mp(style=s3)), doc(seq(seq(style=s3), style=s3)), doc(seq(mp(style=s3), style=s3)), doc(mp(seq(style=s3), mp(style=s3), style=s3)),
         doc(mp(e2(), seq(e2(), style=s3), style=s3)), doc(mp(seq(e2(), style=s3), e2(), style=s3)), doc(seq(seq(e2(), e2(), style=s3), e2(), style=s3)),
         doc(mp(mp(e2(), e2(), style=s3), mp(e2(), e2(), style=s3), style=s3)),
         doc(seq(mp(pl, pl, pl, seq(pl, style=s3), style=s3), style=s3)), doc(mp(pl, mp(pl, mp(pl, pl, style=s3), style=s3), style=s3)),
         doc(seq(sc("a", anchor="x"), alias("x"), style=s3)), doc(mp(alias("x"), alias("y"), style=s3)), doc(mp(sc("a", anchor="x"), alias("x"), alias("x"), sc("b"), style=s3)),
         doc(seq(seq(style=s3, anchor="b"), mp(style=s3, anchor="c", tag="!t", flags=0), style=s3, anchor="d", tag="tag:yaml.org,2002:seq")),
         doc(mp(seq(pl, anchor="q", style=s3), pl, style=s3)), doc(mp(sc("", 1), sc("", 1), sc("", 2), seq(sc("", 1), style=s3), style=s3)),
         doc(alias("x")), doc(seq(sc("", 1), sc("", 1), style=s3))]
    return o
DOCS = [
    doc(pl, 1) + doc(pl, 1), doc(pl, 0) + doc(pl, 0), doc(pl, 1, eflags=0) + doc(pl, 1, eflags=0), doc(pl, 2, eflags=0) + doc(pl, 10), doc(pl, 3) + doc(pl, 0),
    doc(pl, 34), doc(pl, 4, st("!a!") + st("b")), doc(pl, 4, st("!") + st("!c")) + doc(pl, 1), doc(pl, 20, st("!a!") + st("b") + st("!a!") + st("c")),
    doc(sc("x", tag="b<y>", flags=0), 4, st("!a!") + st("b")), doc(sc("x", tag="!c<y>", flags=0), 4, st("!") + st("!c")) + doc(sc("y", tag="!c<y>", flags=0), 1),
    doc(pl, 5, st("!a!") + st("b")), doc(pl, 4, st("!<y>!") + st("<y>")), doc(pl, 4, st("<y>") + st("b")), doc(pl, 4, st("<any>") + st("<any>")), doc(sc("", 1)), doc(sc("", 1)) + doc(sc("", 1)), doc(sc("a\n", 4)) + doc(pl), doc(sc("a\n\n", 4)) + doc(pl),
    doc(sc("a\n\n", 4)), doc(sc("a\n\n", 5), 0, b"", 0) + doc(pl, 0), doc(sc("", 4)) + doc(pl), doc(seq(sc("a\n\n", 4))) + doc(pl, 2), doc(sc("a", 1)) + doc(pl, 2), doc(seq(style=1)) + doc(mp(style=1)),
    doc(sc("a\n\n", 4), 1, b"", 0) + doc(pl, 1), b"", doc(sc("---", 1)) + doc(sc("...", 1)), doc(sc("--- a", 1)), doc(sc("a\n--- b", 5)), doc(sc("a\n...", 4)), doc(sc("%a", 4)), doc(sc("\n%a", 5)),
]
TAGS = ["<y>", "!<y>", "!!<y>", "!a<y>", "tag:yaml.org,2002:<y>", "tag:yaml.org,2002:str", "a<any>", "!<y><y>", "<u2>", "!<u2>", "", "!", "a<u3>"]
ANCHORS = ["<any>", "a<y>", "<u2>", ""]
EVENT_OPS = [b"S\0", b"E", b"D\1", b"D\0", b"d\1", b"d\0", b"*\1a", b"s\x0c\1\1k", b"s\0\0\0", b"[\4\0", b"[\4\2", b"]", b"{\4\0", b"{\4\2", b"}", b"F"]
SYMCFG = cfg(of(b"\0\1\2\3"), of(b"\0\4\x0b\xff"), of(b"\0\x05\x7f\xff"), of(b"\0\1\2\3"), of(b"\0\1\2\3"))
LSC = [sc(x, s) for x in LONG for s in (1, 2, 3, 4, 5)]

def emit_jobs(h, th):
    S = lambda *a, **k: stream(*a, **k)
    J = lambda c, x: (h, M, c + x)
    o = emitted(h, th, [CFG0])
    o += emitted(h, th, [cfg(0), cfg(1)], ["root", "item", "fkey"])
    for x in LSC:
        for w in (5, 8):
            for pn in ("root", "value", "fitem", "nested"):
                o.append(J(cfg(2, 0, w), S(PLACES[pn](x))))
    for x in structs():
        for c in (CFG0, cfg(1), cfg(2, 4, 6)):
            o.append(J(c, S(x)))
    for x in DOCS:
        o.append(J(CFG0, S(x)))
    for t in TAGS:
        for f in (0, 12) if h == "h_roundtrip" else (0, 4, 8, 12):
            o.append(J(CFG0, S(doc(seq(sc("a", of(b"\0\1\2"), f, tag=t), seq(tag=t, flags=f & 4), style=of(b"\1\2"))))))
    # a tag next to the prefixes of the directives: equal, longer, shorter, of several
    for dirs, ts in ((("!a!", "b"), ("<y>", "b<y>", "<y><y>")), (("!a!", "tag:b"), ("tag:b", "tag:<y>")), (("!", "!c"), ("!<y>", "!c", "!c<y>")), (("!!", "c"), ("c", "c<y>", "tag:yaml.org,2002:<y>")), (("!a!", "b", "!c!", "bc"), ("bc", "b<y>", "bc<y>")),
                     (("!c!", "bc", "!a!", "b"), ("bc", "b<y>", "bc<y>")), (("!a!", "!"), ("!", "!<y>", "!!<y>")), (("!a!", "tag:yaml.org,2002:"), ("tag:yaml.org,2002:", "tag:yaml.org,2002:<y>"))):
        for t in ts:
            for node in (sc("a", of(b"\1\2"), 0, tag=t), seq(tag=t, flags=0), mp(sc("", 1, 0, tag=t), pl), mp(tag=t, flags=0, style=2)):
                o.append(J(CFG0, S(doc(node, 4 + (16 if len(dirs) > 2 else 0), b"".join(map(st, dirs))), doc(pl))))
            o.append(J(CFG0, S(doc(pl, 5 + (16 if len(dirs) > 2 else 0), b"".join(map(st, dirs))), doc(sc("a", 1, tag=t)))))
    for a in ANCHORS:
        o.append(J(CFG0, S(doc(seq(sc("a", 0, anchor=a), seq(anchor=a), mp(alias(a) if a else pl, pl), style=of(b"\1\2"))))))
    for x in ["a<y>", "<u2>\n<y>", "a b c <y>"]:
        for pn in ("root", "value", "fkey"):
            o.append(J(SYMCFG if th else cfg(of(b"\0\1\2\3"), of(b"\0\4"), of(b"\0\5"), of(b"\0\3")), S(PLACES[pn](sc(x, ANYSTYLE if th else of(b"\1\2\4\5"))))))
    for c in (cfg(2, 9), cfg(of(b"\0\1"), 4, 5), cfg(3, 3, 12)):
        for pn in PLACES:
            for x in ("", "<l>", "a <l>b"):
                o.append(J(c, S(PLACES[pn](sc(x)))))
        for n in (1, 3, 6):
            for k in ("[", "{", "[{", "?"):
                for v in ("", "a\nb"):
                    o.append(J(c, S(doc(nest(n, sc(v), k)))))
        o.append(J(c, S(doc(mp(pl, seq(mp(pl, sc(""), sc(""), sc("b c d", 5)), seq(sc(""), pl)), sc(""), sc("x\n", 4))))))
    # keys near the simple-key limit of 128 bytes
    for n in (126, 127, 128, 129):
        for f in (dict(), dict(anchor="a"), dict(tag="!t")):
            o.append(J(CFG0, S(doc(mp(sc("x" * (n - 1) + "<y>", 0, **f), pl, style=of(b"\1\2"))))))
    for n in (60, 70, 126, 127, 128, 129):
        N = "a" * n
        kk = [alias(N), seq(anchor=N), mp(anchor=N, style=2), seq(tag="!" + N, flags=0), mp(tag="!" + N, flags=0), mp(anchor="b" * 60, tag="!" + "a" * (n - 60), flags=0), seq(anchor="b" * 60, tag="!" + "a" * (n - 60), flags=0),
              sc("x" * 60, 0, anchor="a" * (n - 60)), sc("x" * 60, of(b"\1\2\3"), 0, tag="!" + "a" * (n - 60)), sc("x" * 30, 0, 0, anchor="c" * 30, tag="!" + "a" * (n - 60))]
        for x in kk:
            o.append(J(CFG0, S(doc(mp(x, pl, style=of(b"\0\2"))))))
    o.append(J(CFG0, S(doc(mp(sc("\xe9".encode() * 64 + b"<y>", 0), pl)))))
    return o + big_emit(h, th)
def nest(n, inner, kinds="[", style=0):
    for i in range(n):
        k = kinds[i % len(kinds)]
        inner = seq(inner, style=style) if k == "[" else mp(pl, inner, style=style) if k == "{" else mp(inner, pl, style=style)
    return inner
Q5 = of(b"\1\2\3\4\5")
def big_emit(h, th, cfgs=None):
    """Sizes at which a threshold could lie: depth, number, length, the output buffer."""
    o = []
    J = lambda c, x, st=5 * M: o.append((h, st, c + stream(x)))
    for c in cfgs or (CFG0, cfg(1), cfg(2, 9, 0)):
        for k in ("[", "{", "[{", "[[{{", "?"):
            for n in (3, 9, 17, 40) if th else (9, 30):
                J(c, doc(nest(n, sc("a<y>", 0), k)))
                J(c, doc(nest(n, sc("a<y>", 0), k, 2)))
        J(c, doc(nest(12, nest(3, sc("a b<y>"), "[{", 2), "{[")))
        for n in (17, 130):
            J(c, doc(seq(times(n, pl), sc("<y>", 0))))
            J(c, doc(seq(times(n, pl), sc("<y>", 0), style=2)))
            J(c, doc(mp(times(n, pl + pl), sc("<y>", 0), pl)))
            J(c, doc(mp(times(n, pl + pl), sc("<y>", 0), pl, style=2)))
            J(c, doc(seq(times(n, seq(pl)), mp(times(n, pl + seq(style=2))))))
            J(c, times(n, doc(pl)) + doc(sc("<y>", 0), 0))
            J(c, times(n, doc(pl, 2, b"", 0)) + doc(sc("<y>", 0)))
            J(c, times(n, doc(pl, 4, st("!a!") + st("b"))) + doc(sc("<y>", 0, 0, tag="b1")))
        for n in (200, 250):
            J(c, doc(seq(sc("x<y>", 0, anchor="a" * n), alias("a" * n), style=of(b"\0\2"))))
            J(c, doc(seq(sc("x<y>", 0, 0, tag="!" + "a" * n), seq(tag="b" * n, flags=0), style=of(b"\0\2"))))
            J(c, doc(sc("x<y>", 0, 0, tag="b" * n + "c"), 4, st("!" + "h" * n + "!") + st("b" * n)))
    # long scalars, near the default width, past it and past the output buffer
    for u, n in (("a", 76), ("a", 79), ("a", 80), ("a", 81), ("a", 130), ("ab ", 26), ("ab ", 27), ("ab ", 90), ("a\n", 30), (" a\n", 30), ("a\n\n", 20), ("ab c\n", 40), ("\xc3\xa9 ", 40), ("\xe2\x82\xac", 45), ("\xf0\x9f\x98\x80 ", 30), ("\n", 40), (" ", 90), ("'", 90), ("\"", 90), ("\\", 90)):
        for pn in ("root", "value", "fitem", "fkey", "nested") if th else ("root", "value", "fitem"):
            for c in (CFG0, cfg(0)) if "\xc3" in u or th else (CFG0,):
                J(c, PLACES[pn](sc(" b<l>c d", Q5, long=(n, u.encode("latin1")))))
    for n in (8180, 16370, 16384) + ((32768,) if th else ()):
        for s_ in (1, 2, 3, 4, 5):
            J(CFG0, doc(seq(pl, sc("b<l>c", s_, long=(n, "a")))), 30 * M)
        J(CFG0, doc(mp(pl, sc("b<l>c", 3, long=(n // 4, "a b\n")))), 30 * M)
    for k in range(16372, 16386, 1 if th else 3):
        J(CFG0, doc(sc("<u3>\n<u2>", 4, long=(k, "a"))), 30 * M)
        J(CFG0, doc(sc("<u3>\n<u2>", 3, long=(k, "a"))), 30 * M)
    J(CFG0, doc(seq(times(3000, pl), sc("<y>", 0))), 30 * M)
    J(cfg(2, 0, 0, 3), doc(seq(times(3000, pl), sc("<y>", 0))), 30 * M)
    for e in (2, 3):
        J(cfg(2, 0, 0, 0, e), doc(seq(times(2800, pl), sc("<u3><y>", 0))), 30 * M)
        J(cfg(2, 0, 0, 0, e), doc(sc("<u4><y>", 1, long=(16376, "a"))), 30 * M)
    for u, n in (("a", 65530), ("ab ", 22000), ("a\n", 33000), (" \n", 33000), ("\xc3\xa9", 33000)):
        J(CFG0, doc(seq(pl, sc(" b<l>c d", of(b"\1\3") if th else 1, long=(n, u.encode("latin1"))))), 1000 * M)
        J(CFG0, doc(seq(pl, sc("b<l>c d", 4 if n == 33000 else 3, long=(n, u.encode("latin1"))))), 1000 * M)
    # settings of every size
    for pn in ("root", "value", "nested", "fitem"):
        J(cfg(of(b"\0\2"), of(b"\0\1\2\x09\x0a\x80\x81\x82\xff"), of(b"\0\1\4\x80\x81\x82\xff")), PLACES[pn](sc("a b<l>c", 1)))
        J(cfg(2, 0, of(b"\0\1\4\x80\x81\x82\xff")), PLACES[pn](sc("a b<l>c", Q5, long=(27, "ab "))))
    return o
def event_seqs(h, th):
    """Event sequences chosen by the solver: every event after every other."""
    o = []
    alpha = [b"S\0", b"E", b"D\1", b"d\1", b"*\1a", b"s\x0c\1\1k", b"[\4\0", b"]", b"{\4\2", b"}"]
    for pre in (b"", b"S\0", b"S\0D\1", b"S\0D\1[\4\0", b"S\0D\1{\4\0", b"S\0D\1[\4\2", b"S\0D\1{\4\2", b"S\0D\1{\4\1s\x0c\1\1k", b"S\0D\1s\x0c\1\1k", b"S\0D\1s\x0c\1\1kd\1", b"S\0D\1[\4\1]d\1E"):
        for a in alpha:
            for b in alpha:
                for c in alpha if th else (b"", b"E"):
                    o.append((h, M, cfg(of(b"\0\1")) + pre + a + b + c + (b"F" if h == "h_emit" and False else b"")))
    return o

@prop("C13", reach={"h_emit_any": [1, 2]})
def c13(th):
    o = emit_jobs("h_emit_any", th) + event_seqs("h_emit_any", th)
    # contents that the reference's interface cannot express
    for t in ["<any>", "a<any>", "<any><any>", "<u2>", "!<u2>", "<u3>", ""]:
        o.append(("h_emit_any", M, CFG0 + stream(doc(sc("x", 1, tag=t, flags=0), 4, st("!a!") + st(t[:8] if t == "<any><any>" else t)))))
        o.append(("h_emit_any", M, CFG0 + stream(doc(sc(t, tag=t[:5], flags=0)))))
        o.append(("h_emit_any", M, CFG0 + stream(doc(sc("x", tag="a", flags=0), 4, st(t) + st(t)))))
        o.append(("h_emit_any", M, CFG0 + stream(doc(seq(sc("x", anchor=t), alias(t if t != "<any><any>" else "<any>"), style=2)))))
    return o

@prop("C14", reach={"h_emit": [1, 2]})
def c14(th):
    return emit_jobs("h_emit", th) + event_seqs("h_emit", th)

# fixed inputs of the known findings (known_findings.json)
KF_TAG = CFG0 + stream(doc(sc("x", 1, 0, tag="!a,")))
KF_FOLD = cfg(2, 0, 5) + stream(doc(sc(" aaaa bbbb cccc\n", 5)))
KF_EMPTY = CFG0 + stream(doc(sc("", 1)))
@prop("C15", reach={"h_roundtrip": [1]})
def c15(th):
    o = []
    for c in (CFG0, cfg(0, 4, 20), cfg(1)) if th else (CFG0,):
        o += [(h, st_, c + a) for h, st_, a in contexts("h_reemit", extra=1 if th else 0) + tokens("h_reemit", th, "BFDSA", 4 if th else 3)]
    o += [("h_reemit", 5 * M, c + T(t)) for t in LOADS for c in (CFG0, cfg(1), cfg(of(b"\0\2"), of(b"\0\4"), of(b"\0\5"), of(b"\0\3")))]
    o += [(h, st_, CFG0 + a) for h, st_, a in big("h_reemit", 10 * M, huge=th)]
    return o + emit_jobs("h_roundtrip", th) + [("h_roundtrip_raw", M, x) for x in (KF_TAG, KF_FOLD, KF_EMPTY)]

@prop("C17", reach={"h_settings": [1], "h_emit": [1]})
def c17(th):
    o = []
    for h in ("h_settings", "h_emit"):
        J = lambda c, x: o.append((h, M, c + stream(x)))
        for pn in ("root", "value", "fkey", "nested"):
            P = PLACES[pn]
            J(SYMCFG, P(sc("a<y>")))
            J(cfg(of(b"\0\1\2\3"), 0, 0, of(b"\0\1\2\3"), of(b"\0\1\2\3")), P(sc("<u2>")))
            J(cfg(of(b"\0\2"), 0, 0, of(b"\0\1\3"), of(b"\0\2")), P(sc("<u2>\n<y>")))
            J(cfg(of(b"\0\2"), 0, 0, of(b"\1\3"), of(b"\0\2\3")), P(sc("<u3>\na")))
            J(cfg(of(b"\0\2"), 0, 0, 0, of(b"\0\1\2\3")), P(sc("\xf0\x9f\x98\x80<y>".encode("latin1"))))
            J(cfg(of(b"\0\2"), 0, 0, of(b"\0\1\2\3"), of(b"\0\2\3")), P(sc("<u4>")))
            J(cfg(of(b"\0\1\2\3"), 0, 0, of(b"\0\1\2\3"), of(b"\0\1")), P(sc("<u4>", ANYSTYLE)))
            J(cfg(of(b"\0\2"), 0, 0, of(b"\0\1\3"), of(b"\0\2")), P(sc("a<u3>", ANYSTYLE)))
        # outside scalars: anchors, tags, directives
        N = cfg(of(b"\0\1\2\3"), 0, 0, of(b"\0\1\3"), of(b"\0\1\2\3"))
        for t in ("<u2>", "<u3>", "a<u2>", "<u4>"):
            for x in (doc(sc("x", 1, anchor=t)), doc(seq(sc("x", 1, anchor=t), alias(t if t == "a" else "b"))), doc(seq(pl, anchor=t)), doc(mp(pl, pl, anchor=t)), doc(sc("x", 1, 0, tag=t)), doc(sc("x", 1, 0, tag="!" + t)), doc(seq(pl, tag=t, flags=0)), doc(sc("x", 1, 0, tag="!!" + t)),
                      doc(pl, 4, st("!a!") + st(t)), doc(pl, 4, st("!" + t + "!") + st("b")), doc(sc("x", 1, 0, tag="b" + t), 4, st("!a!") + st("b"))):
                J(N, x)
        for x in (doc(alias("<any>")), doc(alias("<u2>")), doc(alias("<u3>"))):
            J(N, x)
        for pn in ("root", "value", "nested"):
            for x in ("a b c<l>d e", "aa bb\n\ncc<l>dd ee"):
                J(cfg(2, of(b"\0\2\3\x09"), of(b"\1\5\7\x0b\xff"), of(b"\1\2\3")), PLACES[pn](sc(x)))
        for i in range(0, 12) if not th else range(-2, 20):
            c = cfg(of(b"\0\1"), i, of(b"\0\x14\x7f"))
            e = lambda: sc("a\nb", of(b"\1\2\4\5"))
            J(c, doc(seq(seq(mp(e(), seq(e(), style=1), style=1), style=1), style=1)))
            J(c, doc(mp(pl, mp(pl, seq(e(), mp(pl, e()))), seq(pl), pl)))
            J(c, doc(mp(pl, mp(pl, seq(pl, style=2), style=2), seq(pl, seq(e(), style=0)), pl)))
    # no width, the default, none at all, and the default one named, each with text longer than it
    for w in (0, 1, 4, 80, 127, 0x82, 255):
        for n, u in ((26, "ab "), (27, "ab "), (30, "ab "), (16, "a\nbcd ")) if th else ((27, "ab "), (16, "a\nbcd ")):
            for pn in ("root", "value", "fitem", "nested") if th else ("value", "fitem"):
                for h in ("h_emit", "h_settings"):
                    o.append((h, M, cfg(2, of(b"\0\4"), w) + stream(PLACES[pn](sc(" b<l>c d", Q5, long=(n, u))))))
    # width exactly at the limit
    for w in range(4, 12):
        for x in ("aaaa bb cc", "a b c d e f", "aaaaa  b c"):
            for pn in ("root", "value", "fitem"):
                o.append(("h_emit", M, cfg(2, 2, w) + stream(PLACES[pn](sc(x, of(b"\1\2\3\5"))))))
                o.append(("h_settings", M, cfg(2, 2, w) + stream(PLACES[pn](sc(x, of(b"\1\2\3\5"))))))
    return o

# --- documents
LOADS = [
    "- &a <y><y>\n- *<=ab>\n", "&a [<y><y>, *a]", "&a {<y>: *a}", "- &<=ab> x\n- &<=ab> y\n- *<=abc>", "&a\n- *a\n- <y>", "{&a a: *<=ab>, *<=ab> : b}", "--- &a x\n--- *<=ab>", "--- &a x\n...\n--- &a y\n--- <y>",
    "--- !!str <y>\n--- !<=!ab>\n", "%YAML 1.1\n%TAG !a! b\n--- !a!<=xyz> <y>\n---\n <y>", "? [a, <y>]\n: {b: <y>}", "a: &a\nb: *a\n<y>", "- !!set {a, <y>}\n- ! x\n- ! []\n- ! {}", "- - - a\n    - <y>\n  - b<y>\n- c",
    "a:\n  b: &x c\n  d: [*x, *<=xy>]\ne: <y>", "- &a a\n- &b [*a]\n- [*b, *a, *<=abc>]", "*<=ab>", "&a *<=ab>", "&a &b c", "--- a\n...\n<y>", "--- |\n a\n<y>", "[&a a, &a<y> b]", "{? &k , *k : *k}", "--- &a\n- *a\n--- [*<=ab>]\n",
]
def load_jobs(h, th):
    o = any_bytes(h, 4 if th else 3) + [(h, M, T(t)) for t in LOADS] + contexts(h, extra=1 if th else 0)
    o += tokens(h, th, "A", 4 if th else 3) + tokens(h, th, "BFD", 3) + big(h, 20 * M, huge=False)
    for t in ["- &a a\n<*60*- &b\x01 c\n>- *b<=0123456><=0123456789>\n- *a\n- <y>", "[<*1-40*&a\x01 b, >*a<=0123456789>]", "- &a [<*40*- >\n".replace("<*40*- >", "b, c") + "]\n<*1-40*- *a\n>- <y>", "<*1-20*--- &a b\n>--- *<=ab>", "<*1-20*--- &a\x01 [*a\x01]\n>--- *a1",
              "&<*200*a> [*<*200*a>, *<*200*a><=a >]", "- &a <*200*b>\n- *a<y>", "<*30*&a\x01 [>*a<=012>", "{<*40*&a\x01 k\x01: v, >*a<=0123> : w}", "<*20*%TAG !h\x01! p\x01\n>--- [!h<=0123>!a &a b, *a]"]:
        o.append((h, 5 * M, T(t)))
    return o
@prop("C11", reach={"h_load": [1, 2, 3, 4]})
def c11(th):
    return load_jobs("h_load", th) + [("h_load", M, T(t) + Y) for t in LOADS]
REFS = []
for a in ("- &a x\n- *<A>\n- &<A> y\n- *<A>\n", "--- &<A> [*<A>, &<A> b]\n--- *<A>\n", "{&<A> a: *<A>, b: &<A> c, d: *<A>}", "- [&<A> a, {*<A> : &<A> b}]\n- *<A>\n...\n--- *<A>", "&<A>\n&<A> b: *<A>\n*<A> : c",
          "--- *<A>\n--- a\n", "--- &a a\n--- ]\n--- *a", "- *<A>\n- &<A> b", "- &<A><A> a\n- *<A><A>\n- &<A> c\n"):
    REFS.append(T(a, A=of("abA")))
@prop("C12", reach={"h_load": [1, 2, 3, 4]})
def c12(th):
    return load_jobs("h_load", th) + [("h_load", M, t) for t in REFS] + [("h_load", M, t + Y) for t in REFS]

def dnode(kind, style=0, value="", tag=None):
    s = style if isinstance(style, bytes) else bytes([style])
    return bytes([kind]) + s + bytes([2 if tag is not None else 0]) + (st(tag) if tag is not None else b"") + st(value)
def dgraph(flags, nodes, edges, ds=b""):
    return (flags if isinstance(flags, bytes) else bytes([flags])) + ds + bytes([len(nodes)]) + b"".join(nodes) + b"".join(bytes([9, 0]) if e is None else bytes([len(e)]) + bytes(e) for e in edges)
@prop("C16", reach={"h_dump": [1], "h_redump": [1]})
def c16(th):
    o = []
    J = lambda c, *g: o.append(("h_dump", M, c + b"".join(g)))
    for c in (CFG0, cfg(1)):
        for st1 in (0, 2):
            # all graphs of up to three nodes with up to two edges each, every kind and every target chosen
            J(c, dgraph(3, [dnode(3, st1, "a")], [None]))
            J(c, dgraph(3, [dnode(3, st1, "a"), dnode(3, st1, "b")], [None] * 2))
            if th or (c == CFG0 and st1 == 0):
              J(c, dgraph(0, [dnode(3, st1, "a"), dnode(3, st1, "b"), dnode(3, st1, "c")], [None] * 3))
    # chains: sharing found below other nodes, cycles through several nodes
    for k in (1, 2):
        J(CFG0, dgraph(3, [dnode(k), dnode(1), dnode(1), dnode(0, 0, "x")], [[2, 0], [3, 0], [4, 0], []]))
        J(CFG0, dgraph(3, [dnode(k), dnode(2), dnode(2), dnode(0, 0, "x")], [[2, 0], [3, 0], [4, 0], []]))
        J(CFG0, dgraph(3, [dnode(k), dnode(1), dnode(2), dnode(0, 0, "x"), dnode(0, 0, "y")], [[2, 3], [0, 0], [0, 0], [], []]))
    if th:
        J(CFG0, dgraph(3, [dnode(1), dnode(3, 0, "a"), dnode(3, 0, "b"), dnode(3, 0, "c")], [[2, 3, 4, 0], None, None, None]))
    # contents, styles, tags
    s3 = of(b"\0\1\2")
    for v in SCALARS[:9] + ["a<u2>", "a\n<y>", " <y>a", "a<y>\n"]:
        for root in (1, 2):
            J(CFG0, dgraph(3, [dnode(root, s3), dnode(0, ANYSTYLE, v), dnode(0, 0, "k")], [[2, 3] if root == 2 else [3, 2], [], []]))
        J(CFG0, dgraph(3, [dnode(0, ANYSTYLE, v)], [[]]))
        J(CFG0, dgraph(0, [dnode(2, s3), dnode(0, ANYSTYLE, v), dnode(0, 0, "k")], [[3, 2, 2, 3], [], []]))
    for t in TAGS[:10] + ["a%<y>"]:
        for k in range(3):
            J(CFG0, dgraph(3, [dnode(1, s3), dnode(k, 0, "v", tag=t)], [[2], []]))
            J(CFG0, dgraph(3, [dnode(k, 0, "v", tag=t)], [[]]))
        J(CFG0, dgraph(11, [dnode(0, 0, "v", tag=t)], [[]], st("!a!") + st("a")))
    two = dgraph(3, [dnode(1), dnode(0, 0, "x")], [[2, 2], []])
    for fl in range(4):
        J(CFG0, two, dgraph(fl, [dnode(1), dnode(0, 0, "<y>")], [[2, 2], []]), two)
        J(CFG0, dgraph(fl, [dnode(0, 4, "a\n<w>")], [[]]), dgraph(fl, [dnode(0, 0, "b")], [[]]))
        J(CFG0, dgraph(of(bytes((4 | fl, 20 | fl))), [dnode(0, 0, "a")], [[]]), dgraph(of(bytes((fl, 20 | fl, 4 | fl))), [dnode(1), dnode(0, 0, "<y>")], [[2], []]))
        J(CFG0, dgraph(4 | fl, [dnode(0, 0, "a")], [[]]), dgraph(fl, [dnode(0, 0, "b")], [[]]))
        J(CFG0, dgraph(8 | fl, [dnode(0, 0, "a", tag="b<y>")], [[]], st("!a!") + st("b")), dgraph(fl, [dnode(0, 0, "b", tag="b<y>")], [[]]))
    J(SYMCFG, dgraph(3, [dnode(1, s3), dnode(2, s3), dnode(0, 0, "a b")], [[2, 2], [3, 1], []]))
    o += [("h_redump", M, T(t)) for t in LOADS] + any_bytes("h_redump", 3)
    o += contexts("h_redump")
    # many nodes, many shared ones
    for n, m, deep in ((40, 2, 0), (120, 2, 0), (1005, 2, 0), (40, 2, 1), (41, 3, 2), (300, 1, 1), (60, 1, 2), (30, 2, 4), (110, 1, 4), (30, 2, 5), (32, 1, 6), (9, 2, 1), (10, 2, 1), (11, 2, 5)):
        for c in (CFG0, cfg(1)) if n < 200 else (CFG0,):
            o.append(("h_dump_many", 20 * M, c + lit(n.to_bytes(2, "little") + bytes([m, deep])) + T("<y>")))
    for n, m in ((33000, 1), (2500, 2)):
        o.append(("h_dump_many", 2000 * M, CFG0 + lit(n.to_bytes(2, "little") + bytes([m, 0])) + T("<l>")))
    for n in (20, 40):
        # deep chains, the last of which refers to the first, the middle and itself
        for k in (1, 2):
            nodes = [dnode(k, 0)] * n + [dnode(0, 0, "<y>")]
            edges = [[i + 2, i + 2] if k == 2 else [i + 2] for i in range(n)]
            for t in (1, n // 2, n):
                e = list(edges)
                e[n - 1] = [n + 1, t]
                J(CFG0, dgraph(3, nodes, e + [[]]))
    for a in "<*1-20*- &a\\x01 b\n>- *a0\n- <y>", "<*40*--- &a [*a]\n>--- &b [*b, <y>]", "&a [<*60*x, >*a, <y>]", "<*30*- >&a <y>", "{<*40*k\\x01: &a\\x01 v\\x01, >z: *a1<=0123>}":
        o.append(("h_redump", 5 * M, T(a)))
    o += [("h_dump_raw", M, CFG0 + dgraph(3, [dnode(0, 0, "v", tag="!a,")], [[]])), ("h_dump_raw", M, CFG0 + dgraph(3, [dnode(0, 0, "")], [[]]))]
    return o

@prop("C20", reach={"h_build": [1]})
def c20(th):
    return [("h_build_many", 20 * M, n.to_bytes(2, "little")) for n in (2, 3, 16, 17, 40, 130, 300, 700)] + [("h_build_many", 1000 * M, n.to_bytes(2, "little")) for n in (33000,)] + [("h_build", M, bytes([k]) + T(v)) for k in range(0, 6 if th else 5) for v in ("", "<any>", "a<u2>")[: 3 if k < 4 else 1]]

@prop("C18", reach={"h_writer": [1, 2]})
def c18(th):
    o = []
    scripts = [stream(doc(sc("a<y>"))), stream(doc(seq(pl, sc("b c", 3)))), b"S\0F" + doc(pl) + b"F" + doc(sc("x<y>", 1)) + b"FE", b"S\0" + b"D\1[\4\0s\x0c\1\1aFs\x0c\1\1bs\x0c\1\1cF]Fd\1FE",
               stream(doc(mp(pl, sc("a\nb", 4)))), stream(doc(pl), doc(pl)), stream(doc(sc("\xc3\xa9<u2>".encode("latin1"), 1)))]
    scripts += [stream(), b"S\0FE", b"S\0FFE", stream(doc(sc("a\n\n", 4))), stream(doc(sc("a\n\n", 4)), doc(pl)), stream(doc(pl, 0, b"", 0)), stream(doc(pl, 4, st("!a!") + st("b")), doc(pl)), b"S\0" + doc(pl) + b"F", b"S\0" + doc(pl), b"S\0" + doc(sc("a\n\n", 4)), b"S\0D\0s\x0c\4\3a\n\nd\0", b"S\0D\1F[\4\2Fs\x0c\1\1aF]Fd\1F"]
    for s in scripts:
        for e in (0, 2, 3):
            c = cfg(of(b"\2\3"), 0, 0, of(b"\0\3") if e == 0 else 0, e)
            o.append(("h_writer", M, bytes([1, 1, 1]) + c + s))
            o.append(("h_writer", M, bytes([3, 1, 0]) + c + s))
            o.append(("h_writer", M, bytes([0, 2, 1]) + c + s))
    big = [stream(doc(sc("b<l>c", k, long=(16376, "a")))) for k in (1, 3, 4)] + [stream(doc(seq(times(3500, pl), pl))), b"S\0D\1[\4\0" + times(1700, pl) + b"F" + times(1700, pl) + b"F]d\1FE", stream(times(40, doc(pl)), doc(pl)), stream(doc(sc("\xe2\x82\xac<u2>".encode("latin1"), 1, long=(5459, "\xe2\x82\xac".encode("latin1")))))]
    for s in big:
        for e in (0, 2, 3):
            c = cfg(2, 0, 0, 0, e)
            for md in ([1, 1, 0], [3, 0, 0], [0, 2, 0], [1, 0, 1]):
                if s is big[5] and md[2]:
                    continue
                o.append(("h_writer", 40 * M, bytes(md) + c + s))
    return o

@prop("C19", reach={"h_reset": [1, 2], "h_reset_emit": [1, 2]})
def c19(th):
    o = []
    hist = ["a: [b, {c: <y>", "- &a b\n- *a\n- <y>", "%YAML 1.1\n%TAG !a! b\n--- !a!c <y>", "\xff\xfea\0<any><any>b\0".encode("latin1"), "a\n...\n<y>", "? a\n: - b\n<y>", "'a<y>", "|\n a\n <y>", "[a]: b\n&x <y>", "", "\xef\xbb\xbfa<any>".encode("latin1"), "- - - a\n<y>", "\xef\xbb\xbfa: b\n- c<y>".encode("latin1"), "\xfe\xff\0a\0b\0:".encode("latin1"), "a: b\n\x01", "[a, b]\n\xff".encode("latin1")]
    nxt = ["a: b\n", "*a", "!a!c d", "- x\n- y", "]", "a\0"[:1], "%YAML 1.1\n---\n", "\xfe\xff\0a".encode("latin1"), "[a, b: c]", "<y>", "ab\x01", "# \xc3\xa9<any>".encode("latin1"), "\xff\xfea\0\0\xd8".encode("latin1"), "[a"]
    for a in hist:
        for b in nxt if th else nxt[:]:
            t = T(a)
            o.append(("h_reset", M, bytes([0, len(t)]) + t + T(b)))
    for a in ("<*40*[>", "<*40*- >", "<*20*{a: >", "<*30*%TAG !a\\x01! b\n>--- [&a", "'<*40*a\n>", "<*20*--- a\n>"):
        for b in ("a: [b]\n", "*a", "- <y>", "? a\n: b\n- c"):
            t = T(a)
            o.append(("h_reset", M, bytes([0, len(t)]) + t + T(b)))
    for e in (1, 2, 3):
        t = T("a<any><any>")
        o.append(("h_reset", M, bytes([e, len(t)]) + t + T("b: <y>")))
    h1 = [cfg(3, 4, 20, 3, 2) + stream(doc(seq(mp(pl, seq(pl)), sc("a\nb", 4)))), cfg(0, 0, 0, 0, 3) + stream(doc(sc("x", tag="b1", flags=0), 20, st("!a!") + st("b") + st("!c!") + st("d"))), cfg(2) + stream(doc(sc("a\n\n", 4))) , cfg(2) + stream(doc(seq(seq(pl, style=2), style=2)), doc(pl)),
          CFG0 + stream(doc(nest(12, pl, "[{"), 0), doc(pl, 2, b"", 0)), CFG0 + stream(doc(nest(9, pl, "[", 2))), CFG0 + stream(doc(mp(sc("a", anchor="x"), alias("x")))), cfg(2, 0, 0, 1, 0) + b"S\3D\0", CFG0 + b"S\0D\1{\4\0s\x0c\3\1k[\4\2s\x0c\1\1k",
          cfg(2, 9) + b"S\0D\1[\4\0{\4\0]E", cfg(1, 3, 9, 1, 1) + stream(doc(mp(mp(pl, pl), pl)))]
    h2 = [CFG0 + stream(doc(mp(pl, seq(pl, sc("a<y>"))))), cfg(0) + stream(doc(sc("x", tag="b1", flags=0))), CFG0 + stream(doc(pl, 0), doc(pl, 1)), CFG0 + b"D\1", cfg(2, 0, 0, 0, 0) + stream(doc(seq(seq(pl), sc("\xc3\xa9"))))]
    for a in h1:
        for b in h2:
            n = elen(a)
            o.append(("h_reset_emit", M, bytes([n]) + a + b))
    return o

# --- scanning, rule by rule
# any break; any break or blank
BR = alts("\n", "\r", "\r\n", b"\xc2\x85", b"\xe2\x80\xa8", b"\xe2\x80\xa9")
BB = alts("\n", "\r\n", b"\xc2\x85", b"\xe2\x80\xa8", " ", "\t")
BBT = alts("\n", "\r", b"\xc2\x85", b"\xe2\x80\xa9", "\n ", "a")
QCH = of("a \t\n\r'\"\\-.")
QESC = of("0abt\tnvfre \"/\\N_LPxuU'\n\rzX1")
@prop("C22", reach={"h_quoted": [1, 2], "h_events": [1, 3]})
def c22(th):
    o, H = [], "h_quoted"
    k = dict(q=QCH, e=QESC)
    for q in "'\"":
        for n in range(0, 6 if th else 5):
            o.append((H, M, T(q + "<q>" * n + q, **k)))
            o.append((H, M, T(q + "a<q>" + "<q>" * n, **k)))
        for t in ["a\n<q><q><q>b", "<any><any><any>", "a<u2><q>b", "a<u3><q>b", "a \n<q>\n<q>b", "---<q>", "a\n---<q>b", "a\n...<q>b", "a\n--<q>b", "a<u3>\n<u3>b"]:
            o.append((H, M, T(q + t + q, **k)))
    for t in ["\\<any>", "\\<any>a", "a\\<any><any>", "\\<e><q><q>", "\\<q>\\<q>", "a \\\n<q><q>b", "a\\\r\n <q>b", "a<q>\\\n<q>b", "\\x<any><any>", "\\x<any>", "\\u<h><h><any><any>", "\\u<any><any>00", "\\u<any>", "\\u00<any>",
              "\\U000<h><any>000", "\\U0010<h><h><any><any>", "\\U<any><any>100000", "\\U0000<=dD><=789abcdefABCDEF>00", "\\U0000<any><any>41", "\\uD<=789abcdefABCDEF>00", "\\uFFF<any>", "\\U0000000<any>", "\\U<any><any><any>", "\\x4<any>\\x<any>1", "\\u00e9<q><q>"]:
        o.append((H, M, T('"' + t + '"', **k)))
        o.append((H, M, T('"' + t, **k)))
    for q in ("'", '"'):
        for a, b in [("", ""), ("a", "b"), ("a ", " b"), ("a:\n  b", " c")]:
            for n in range(1, 5 if th else 4):
                o.append((H, M, T(q + a) + BR * n + T(b + q)))
            o.append((H, M, T(q + a) + BB * (5 if th else 4) + T(b + q)))
    for n in (1, 2, 3):
        o.append((H, M, T("\"a\\") + BR * n + T(" b\"")))
        o.append((H, M, T("\"a") + BR + T("\\") + BR * n + T("b\"")))
    for t in ["- \"a\\<any>\"", "{\"<y><y>\": '<y>'}", "['a<w><w>b', \"<w>\"]", "'<w><y>'<y>: b", "\"\\<any>\": a", "a: \"b<w><w>\n  c\""]:
        o.append(("h_events", M, T(t)))
    return o

@prop("C23", reach={"h_events": [1, 3]})
def c23(th):
    o = []
    k = dict(t=of("a!<>%,[]{}: \n'&-_09~"), x=of("0123456789abcdefABCDEFgG%"), H=of("!aA0-_% b"))
    for t in ["!<t><t><t> a", "!a<t><t>", "!!<t><t> a", "!<<t><t>> a", "!<a<t><t>", "!a!<t><t> a", "! <t>", "!%<x><x> a", "!a%<x><x><t>", "!<%<x><x>> a", "!!%<x><x>%<x><x> a", "!a%<any><any>", "!%C3%<x><x> a", "!%E2%82%<x><x> a", "!%F<x>%9<x>%80%80", "!<any><any>", "!a<any> b", "!<<any><any>> b",
              "!%E<x>%<x>0%80", "!%ED%<x>0%80", "!%F0%<x>0%80%80", "!%F4%<x>F%80%80", "!%C<x>%80", "!a!%41<t> a", "!%00", "!a%0<x>"]:
        for pre in ("", "- ", "[", "a: ", "{a: "):
            o.append(("h_events", M, T(pre + t, **k)))
    for n in (1, 7, 8, 9, 15, 16, 17, 33, 64, 130):
        for post in ("%TAG !a<=0123456789><=0123456789>! c\n--- a", "--- !a<=0123456789><=0123456789>!x<y>"):
            o.append(("h_events", 5 * M, T("<*%d*%%TAG !a\\x01! b\\x01\n>" % n + post)))
    D = "%TAG !a! "
    for t in [D + "b<t><t>\n--- !a!<t>", D + "<t>\n--- !a!c", D + "!<t>\n--- !a!<=ab>", "%TAG <H><H><H> b\n---\n- !a!c\n- !!x\n- !y", "%TAG ! <t>a\n--- !b", "%TAG !! <t>a\n--- !!b", "%TAG !<H>! b\n%TAG !<H>! c\n--- !a!x", "%TAG !<H>! b\n--- !<H>!x", "%TAG !a! b%<x><x>\n--- !a!x%<x>1",
              D + "b\n--- !a!x\n--- !a!y", D + "b\n--- !a!x\n...\n%TAG !<=ab>! c\n--- !a!y", D + "b\n--- !a!x\n...\n%YAML 1.1\n--- !<=!a>x", "%TAG !! b\n--- !!x\n...\n--- !!y\n", "%TAG ! b\n--- !x\n...\n--- !y\n", "%TAG !a!<w>b<w>\n---<w>!a!x", "%TAG<w><w>!a! b\n--- a", "%TAG !a! b<any><any>\n--- !a!x", "%TAG !<any><any> b\n--- a", D + "b\n" + D + "b\n--- a",
              D + "b #<any>\n--- !a!x", D + "b\n%TAG !b! !a!\n--- !b!x", D + "tag:yaml.org,2002:\n--- !a!<=is>tr", "--- !b!x", "--- [!a!b, !!<=ab>, !<=ab>]", "%TAG ! tag:x,2000:\n---\n- !\n- !<t>\n- !<!>"]:
        o.append(("h_events", M, T(t, **k)))
        if th:
            o.append(("h_events", M, T(t, **k) + Y))
    return o

@prop("C24", reach={"h_key": [1, 2], "h_events": [1, 3]})
def c24(th):
    o = []
    for form in range(14):
        for w in (1, 2, 3, 4):
            if form in (0, 2, 3, 5, 10) or w == 1 or (w == 2 and th):
                o.append(("h_key", 5 * M, bytes([form, w]) + (1023).to_bytes(2, "little") + T("v")))
    for n in (1, 127, 128, 129, 511):
        o.append(("h_key", M, bytes([0, 1]) + n.to_bytes(2, "little") + T("<=va>")))
    k = dict(d=of("0123456789.a "), n=rng(0x30, 0x39))
    for n in range(0, 12):
        o.append(("h_events", M, T("%YAML 1." + "1" * n + "<d><d>\n--- a", **k)))
        o.append(("h_events", M, T("%YAML " + "1" * n + "<d>.1\n--- a", **k)))
        o.append(("h_tokens", M, T("%YAML " + "<n>" * min(n, 2) + "9" * max(0, n - 2) + "." + "1" * max(0, n - 2) + "<n>" * min(n, 2) + "<d>\n--- a", **k)))
    for t in ["%YAML <d>.<d>\n--- a", "%YAML <d><d><d>\n---", "%YAML 1.1<any>\n--- a", "%YAML<any>1.1\n--- a", "%YAML 1.1\n%YAML 1.<=12>\n--- a", "%YAML 1.1\n--- a\n...\n%YAML 1.<d>\n--- b", "%YAML 1.1\n--- a\n--- b", "%YAML 1.<any>\n--- a", "%YAML <any>.1\n--- a", "%YAML 1<any>1\n--- a", "%YAM<any> 1.1\n--- a", "%<any><any><any> 1.1\n--- a",
              "%A<any> b\n%A c\n--- d", "%YAML 1.1 #<any>\n--- a", "%YAML 1.1\n%B\n%YAML 1.1\n--- a", "%YAML 1.1\n<y><y>", "%YAML 1.1\na<y>"]:
        o.append(("h_events", M, T(t, **k)))
    return o

@prop("C25", reach={"h_events": [1, 3]})
def c25(th):
    o = []
    k = dict(h=of("+-0123456789 #a\n"), b=of("a \n"), c=of("a \t\n-#"))
    for i in "|>":
        for pre in ("", "- ", "a: ", "--- ", "? "):
            o.append(("h_events", M, T(pre + i + "<h><h><h>\n  a", **k)))
            o.append(("h_events", M, T(pre + i + "<h>\n" + "<b>" * (6 if th else 5), **k)))
        for hd in ("", "-", "+", "1", "2", "2-", "+1"):
            o.append(("h_events", M, T("- " + i + hd + "\n  a<c><c><c>\n", **k)))
            o.append(("h_events", M, T("- " + i + hd + "\n" + "<b>" * (7 if th else 6), **k)))
            o.append(("h_events", M, T("a: " + i + hd + "\n <b><b>a\n <b><b>b\n<b>c: d", **k)))
            o.append(("h_events", M, T("- " + i + hd + "\n  a\n<c><c><c><c>b\n- c", **k)))
            o.append(("h_events", M, T(i + hd + "\n<b><b><b>\n<b>a<b>", **k)))
            o.append(("h_events", M, T("- - " + i + hd + "\n    a\n<b><b><b><b>\n", **k)))
        for t in ["\n a\r\n<c><c>b", "\n a\r<c>b", "\n a\xc2\x85<c>b".encode("latin1").decode("latin1"), "\n a\n\xe2\x80\xa8<c>b", "\n  a\n   b\n<b><b><b>c\n  d", "\n  a\n\n\n<b><b><b>c", "\n\n\n<b><b>a", "\n   \n <b>a", "\n\t<c>a", "\n \t<c>a", " #<any>\n a", "#<any>\n a", "<any>\n a", "<any><any>", "\n a\n...<any>", "\n---<any>", "\n a\n#<c>b\n", "\n  a\n #<c>b\n", "\n<u2>", "\n <u3>\n <u3>"]:
            t = t.encode("latin1")
            o.append(("h_events", M, T(i.encode() + t, **k)))
            o.append(("h_events", M, T(b"a: " + i.encode() + t, **k)))
        for hd in ("", "-", "+"):
            for n in (1, 2, 3):
                o.append(("h_events", M, T(i + hd) + BR * n + T(" a")))
                o.append(("h_events", M, T(i + hd + "\n a") + BR * n + T(" b\n")))
                o.append(("h_events", M, T("- " + i + hd + "\n  a") + BR * n + T("- b")))
                o.append(("h_events", M, T("a: " + i + hd + "\n  b") + BR * n))
            o.append(("h_events", M, T(i + hd + "\n a") + BBT * (5 if th else 4) + T("b")))
            o.append(("h_events", M, T(i + hd + "\n") + BBT * 3 + T("\n  b\n") + BBT * 2))
            for pre in ("", "- ", "a:\n - "):
                o.append(("h_events", OWN, T(pre + i + hd + "\n") + alts("\n", "  \n", "    \n", "   a\n", "    b\n", " \t\n", "  c\n") * (6 if th else 5)))
                o.append(("h_events", OWN, T(pre + i + hd) + alts("\n", "\r\n", " \n", "\n   a", "\n    \tb", "\n    ", "\n# c", "\n- d", "\n...", "\n ") * (5 if th else 4)))
    return o

@prop("C26", reach={"h_events": [1, 3]})
def c26(th):
    o = []
    k = dict(c=of(":#,[]{}?- \t\n\"'a"), b=of("a \n"), f=of(",:]}# \n?-a"))
    for pre, post in [("", ""), ("- ", ""), ("a: ", ""), ("[", "]"), ("{", "}"), ("{a: ", "}"), ("[a: ", "]"), ("? ", ""), ("--- ", ""), ("- - ", ""), ("&x ", ""), ("!t ", ""), ("a:\n  ", ""), ("[[", "]]"), ("{[", "]}")]:
        for t in ["a<c><c>b", "<c><c><c>", "a<c>\n<c>b", "a<b><b><b>b"]:
            o.append(("h_events", M, T(pre + t + post, **k)))
        o.append(("h_events", M, T(pre + "a<any>b" + post, **k)))
        o.append(("h_events", M, T(pre + "a<u2><c>b" + post, **k)))
        if th:
            o.append(("h_events", M, T(pre + "a<c><c><c><c>b" + post, **k)))
    for t in ["a\n\n<b><b><b>b", "a:\n  b\n<b><b><b>c: d", "a: b\n<c><c>c: d", "- a\n<b><b>b\n- c", "a\n<=-.><=-.><=-.><c>b", "[a\n---<c>b]", "a\t<c>\n\t<c>b", "a \t<c>#<c>", "a\r\n<c>b", "a\xc2\x85<c>b", "a\xe2\x80\xa8<c>b", "a\xe2\x80\xa9\n<c>b", "[a\n<f><f>b]", "{a\n<f><f>b: c}", "- a\n -<c>b", "a: b\n  #<c>\n  c", "a #<c>\n b", "a: b: <c>", "http://a<c>b", "a::<c>b", "[a:<c>b]", "{a:<c>b}", "[a::<c>]", "-<c><c>a", "?<c><c>a", ":<c><c>a", "[-<c>a]", "[?<c>a]", "[:<c>a]", "a\n  b\n <b>c<c>\nd"]:
        o.append(("h_events", M, T(t.encode("latin1"), **k)))
    for a, b in [("a", "b"), ("- a", " b"), ("[a", "b]"), ("{a: b", "c}"), ("a: b", " c"), ("a", "b: c"), ("? a", " b")]:
        for n in range(1, 5 if th else 4):
            o.append(("h_events", M, T(a) + BR * n + T(b)))
        o.append(("h_events", M, T(a) + BB * (5 if th else 4) + T(b)))
    return o

@prop("C27", reach={"h_iface": [1, 2, 3], "h_out": [1, 2], "h_open": [1]})
def c27(th):
    o = any_bytes("h_iface", 4 if th else 3)
    for c in CONTEXTS:
        o.append(("h_iface", 2 * M, T(fewer(c, 3 if th else 1))))
    o += tokens("h_iface", th, "BFDS", 3) if th else tokens("h_iface", th, "D", 3)
    for t in ["<u2>: <u4>", "- <u3>\n- '<u4>'", "<any><any>", "a<any>"] + LOOKAHEAD:
        o.append(("h_iface", 2 * M, T(t)))
    S = lambda *a: stream(*a)
    for enc in (0, 1):
        c = cfg(of(b"\0\1\2"), of(b"\0\4"), of(b"\0\5"), of(b"\0\3"), enc)
        for pn in PLACES:
            for x in ("a<y>", "<u2>", "a b<l>c", "a\n"):
                o.append(("h_out", M, (c if pn in ("value", "root") else CFG0) + S(PLACES[pn](sc(x)))))
        for x in structs() + DOCS:
            o.append(("h_out", M, cfg(2, 0, 0, 0, enc) + S(x)))
    for x in (doc(sc("b<l>c", 1, long=(16376, "a"))), doc(seq(times(3500, pl), pl)), times(1500, doc(pl)) + doc(pl)):
        o.append(("h_out", 20 * M, CFG0 + S(x)))
    for a in EVENT_OPS:
        for b in EVENT_OPS:
            if a != b"F" and b != b"F":
                o.append(("h_out", M, cfg(of(b"\0\1")) + b"S\0D\1[\4\0" + a + b))
                o.append(("h_out", M, CFG0 + b"S\0" + a + b))
    for t in LOADS + ["", "a", "--- a\n--- <y>\n...\n", "a: |\n b\n\n--- c<y>\n", "%TAG !a! b\n--- !a!c <y>\n--- d", "- <y>\n", "--- [<y>]\n---\n"]:
        o.append(("h_open", M, CFG0 + T(t)))
        o.append(("h_open", M, cfg(of(b"\0\1\2"), of(b"\0\5")) + T(t)))
    return o

@prop("C28", reach={"h_error_place": [1, 2, 3, 4], "h_error_load": [1, 2, 3], "h_error_emit": [1, 2], "h_error_io": [1]})
def c28(th):
    o, H = [], "h_error_place"
    for k in range(1, 4 + th):
        o.append((H, M, b"\0" + A * k))
    for t in ["a<any><any><any>", "<u2><any><any>", "<u3><any><any>", "<u4><any><any>", "<any><u2><any>", "# <any><u3><any>\n", "'<any>b<any>'", "|\n <any><any>", "- a\n- <any><any>", "\xef\xbb\xbf<any><any>", "\xef\xbb\xbfa<u2><any><any>", "\xf0<any><any><any>", "\xed<any><any><any>",
              "\xff\xfe<b><any><b>", "\xfe\xff<any><b><b>", "\xff\xfea\0<b><any>", "\xfe\xff\0a<any><b>", "\xff\xfe<b><sg><any><sg><b><b>", "\xfe\xff<sg><b><sg><any><b><b>", "\xff<any><any>", "\xfe<any><any>", "# \xf0\x90\x80\x80<any>\xe2\x80<any>"]:
        x = T(t.encode("latin1"), b=of(b"\0\1\x1fa\x7f\x80\xfe\xff"), sg=of(b"\xd8\xdb\xdc\xdf\0\xff"))
        for m in (0, 0x81, 0x82, 0x93, 0xA1) if th else (0, 0x81):
            o.append((H, M, bytes([m]) + x))
    for n in (127, 1023, 4095, 8190, 16382, 16384, 20000):
        for x in ("a", "\xc3\xa9", "a\n"):
            o.append((H, 20 * M, b"\0" + T(("# <*%d*%s>" % (n, x)).encode("latin1")) + A * 2))
            o.append((H, 40 * M, b"\xcd" + T(("# <*%d*%s>" % (n, x)).encode("latin1")) + A))
    for n in (511, 8190):
        o.append((H, 20 * M, b"\0" + lit(b"\xff\xfe#\0") + rep(n, n, "a\0") + of(b"\0\1\x7f\xfe\xff") + A))
        o.append((H, 20 * M, b"\0" + lit(b"\xfe\xff\0#") + rep(n, n, "\0a") + A + of(b"\0\1\x7f\xfe\xff")))
    o += [("h_error_load", M, t) for t in REFS] + [("h_error_load", M, t + Y) for t in REFS] + load_jobs("h_error_load", th) + tokens("h_error_load", th, "AE", 3)
    o += [("h_error_load", 2 * M, T(fewer(c, 3 if th else 1))) for c in CONTEXTS]
    o += event_seqs("h_error_emit", th)
    for t in TAGS + ["", "!", "<u2>", "!a!<y>"]:
        for x in (sc("x", 1, tag=t, flags=0), sc("x", anchor=t), alias(t), seq(pl, style=2), sc("", 1, flags=0)):
            o.append(("h_error_emit", M, CFG0 + stream(doc(x))))
        o.append(("h_error_emit", M, CFG0 + stream(doc(pl, 4, st(t) + st("b")))))
        o.append(("h_error_emit", M, CFG0 + stream(doc(pl, 4, st("!a!") + st(t)))))
    o.append(("h_error_io", M, b""))
    return o

@prop("C29", reach={"h_tool_parse": [1, 2], "h_tool_emit": [1, 2]})
def c29(th):
    o, H = any_bytes("h_tool_parse", 4 if th else 3), "h_tool_emit"
    o += [("h_tool_parse", 2 * M, T(fewer(c, 3 if th else 2))) for c in CONTEXTS]
    o += [("h_tool_parse", 2 * M, T(t)) for t in LOADS + ["'<any>'", "\"<any><any>\"", "\"\\<any>\"", "&a<y> !b<y> 'c'", "!<u2> <u3>", "|\n a<any>\n<any>", "- &a !t '<y>'\n- *a"]] + tokens("h_tool_parse", th, "BFDA", 3)
    for x in structs() + DOCS:
        o.append((H, M, stream(x)))
    for s in range(6):
        for t in SCALARS + ["<any>\\<any>", "a: <y>", "\n\r\t\\<y>"]:
            for f in (PLACES["root"], PLACES["value"]) if th else (PLACES["value"],):
                o.append((H, M, stream(f(sc(t, s)))))
        for a in ("x", "x<y>", "<u2>"):
            o.append((H, M, stream(doc(sc("v<y>", s, anchor=a)))))
            o.append((H, M, stream(doc(sc("v<y>", s, tag=a, flags=0)))))
            o.append((H, M, stream(doc(sc("<y>", s, anchor=a, tag="!t<y>", flags=0)))))
    for t in TAGS:
        for x in (seq(sc("x", 1, tag=t, flags=0), pl), seq(pl, tag=t, anchor="a"), seq(mp(tag=t, anchor="b"), alias("b")), mp(pl, sc("y", 2, tag=t, flags=0, anchor="c"))):
            o.append((H, M, stream(doc(x))))
    for t in ("a<y>", "<y>b", "<u2>"):
        o += [(H, M, stream(doc(x))) for x in (seq(pl, anchor=t), seq(mp(anchor=t), pl), mp(sc("x", anchor=t), alias(t)))]
    for a in EVENT_OPS:
        for b in EVENT_OPS:
            o.append((H, M, b"S\0D\1[\4\0" + a + b))
            o.append((H, M, b"S\0" + a + b))
    return o

@prop("C30", reach={"h_load_ref": [1, 2, 3], "h_dump_ref": [3]})
def c30(th):
    o, H = [], "h_load_ref"
    for h, st_, a in load_jobs("h_load", th) + [("h_load", M, t) for t in REFS] + [("h_load", M, t + Y) for t in REFS]:
        o.append((H, st_, CFG0 + a))
    o += [(H, 1000 * M, CFG0 + T(VAST[k].encode("latin1"))) for k in (3, 6)]
    for t in LOADS + ["<u4>: <u3>", "- <any>", "|\n <y>\n", "%TAG !a! <y>b\n--- !a!c d", "!<y> a", "!!<y> [b]", "! {a: b}", "- &a<y> b\n- *a<y>\n"]:
        o.append((H, M, cfg(of(b"\0\1"), of(b"\0\4"), of(b"\0\5"), of(b"\0\3")) + T(t)))
    k = 0
    for h, st_, a in GEN["C16"](th):
        if h in ("h_dump", "h_dump_raw"):
            o.append(("h_dump_ref", st_, bytes([k & 3]) + a))
            k += 1
    two = dgraph(3, [dnode(1), dnode(0, 0, "x")], [[2, 2], []])
    for how in range(4):
        H = "h_dump_ref"
        J = lambda c, *g: o.append((H, M, bytes([how]) + c + b"".join(g)))
        J(CFG0, two, two, two)
        J(CFG0, dgraph(3, [], []))
        J(CFG0, two, dgraph(3, [], []))
        for e in (1, 2, 3):
            J(cfg(2, 0, 0, of(b"\0\1\2\3"), e), two)
        # nodes that nothing refers to, default styles, several tag directives and versions
        J(CFG0, dgraph(of(b"\0\1\2\3"), [dnode(0, 0, "a<y>"), dnode(1, 0), dnode(0, 0, "c")], [[], [3], []]), two)
        for fl in (4, 5, 8, 12):
            g = dgraph(fl, [dnode(2), dnode(0, 0, "x<y>"), dnode(0, 3, "y", tag="b<y>")], [[2, 3, 3, 2], [], []], (st("!a!") + st("b")) if fl & 8 else b"")
            J(CFG0, g)
            J(CFG0, g, two, g)
            J(CFG0, two, g)
        # versions: 1.1, 1.2, and those that are refused
        for g in (dgraph(of(b"\4\5\x14\x15"), [dnode(0, 0, "a")], [[]]), dgraph(of(bytes(i << 4 | j for i in range(8) for j in (4, 5, 7))), [dnode(2), dnode(0, 0, "x")], [[2, 2], []])):
            J(CFG0, g)
            J(CFG0, two, g)
            J(CFG0, g, two, g)
        for v in ("---", "...", "--- a", "a\n---", "\n", "a\n\n", "<u2>", "<u3>", "<u4>", "\xef\xbb\xbf<y>".encode("latin1")):
            J(CFG0, dgraph(how, [dnode(0, ANYSTYLE, v)], [[]]), dgraph(how, [dnode(1), dnode(0, ANYSTYLE, v)], [[2], []]))
    return o

@prop("C31", reach={"h_stream": [1, 2], "h_ends": [1, 2]})
def c31(th):
    o = []
    for w in (0, 1, 2):
        p = bytes([w])
        o += [("h_stream", M, p + A * k) for k in range(0, (4 if th else 3) + 1)]
        for c in CONTEXTS:
            o.append(("h_stream", M, p + T(fewer(c, 2 if th else 1))))
        for t in LOOKAHEAD:
            o.append(("h_stream", M, p + T(t)))
        for x in tokens("h_stream", th, "BFDSA", 3 if th else 2):
            o.append((x[0], x[1], p + x[2]))
        for t in BIG[-6:]:
            o.append(("h_stream", 40 * M, p + T(t.encode("latin1"))))
        for b, e in ((b"\xff\xfe", "utf-16-le"), (b"\xfe\xff", "utf-16-be")):
            o += [("h_stream", M, p + lit(b + t.encode(e))) for t in ("a: b\n- c", "- \U0001f600\n- b\n...\n", "--- a\n---\nb", "%YAML 1.1\n--- [a, b]\n")]
            o += [("h_stream", M, p + lit(b + "- ".encode(e)) + A * 2 + lit("\n-".encode(e)))]
        for m in (0x81, 0x82, 0xA1, 0x8F):
            o += [("h_ends", M, p + bytes([m]) + A * k) for k in range(0, 3)]
            for c in CONTEXTS if m == 0x81 else CONTEXTS[::9]:
                o.append(("h_ends", M, p + bytes([m]) + T(fewer(c, 1))))
            for b, e in ((b"\xff\xfe", "utf-16-le"), (b"\xfe\xff", "utf-16-be"), (b"\xef\xbb\xbf", "utf-8")):
                o += [("h_ends", M, p + bytes([m]) + lit(b + t.encode(e))) for t in ("", "a: b\n- c", "- \U0001f600\n- b\n...\n", "--- a\n---\nb")]
    return o

def elin(x, n=400):
    return ("h_elinear", 10 * M, bytes([0]) + n.to_bytes(2, "little") + x)
def dlin(c, shape, style, text, n=400):
    return ("h_elinear", 10 * M, bytes([1]) + n.to_bytes(2, "little") + c + bytes([shape]) + style + st(text))
@prop("C32", reach={"h_elinear": [1]})
def c32(th):
    o = []
    s3 = of(b"\0\1\2")
    for k, c in enumerate([cfg(2), cfg(1), cfg(0, 4, 20), cfg(2, 2, -1 & 255), cfg(2, 0, 0, 3, 2)] + ([cfg(0, 9, 127, 2, 3), cfg(3, 1, 5)] if th else [])):
        full = k < 2 or th
        # long scalars
        for u in ["<y>", "a<y>", "<l>", "a <l>", "\xc3\xa9".encode("latin1"), "\xf0\x9f\x98\x80".encode("latin1"), "ab ", " a", "a\n", "\n ", "'", "\\", "\t", "\xc2\x85".encode("latin1"), "\xef\xbb\xbf".encode("latin1")]:
            o.append(elin(c + stream(doc(seq(sc("b", ANYSTYLE if full else of(b"\1\2\3\4\5"), long=(1, u)), sc("c", 1))))))
        o.append(elin(c + stream(doc(mp(sc("b", long=(1, "a<y>")), pl)))))
        o.append(elin(c + stream(doc(sc("b", 1, 12, anchor="a<=b1>", tag="!<=b1>")))))
        # many events
        for x in (sc("<y>"), seq(style=s3), mp(style=s3)) if not full else (sc("<y>"), sc("a", tag="!t<=a%>", flags=0), sc("a\n<l>"), alias("a"), sc("", anchor="a"), seq(style=s3), mp(style=s3), seq(sc("<=a#\n>"), style=s3), mp(sc("<=a#\n>", of(b"\0\1\3\4")), sc("a", 1), style=s3), mp(seq(style=s3), mp(style=s3), style=s3)):
            o.append(elin(c + stream(doc(seq(times(1, x), style=s3)))))
            if not full:
                continue
            o.append(elin(c + stream(doc(mp(times(1, pl + x), style=s3)))))
            o.append(elin(c + stream(doc(mp(times(1, x + pl), style=s3)))))
            o.append(elin(c + stream(times(1, doc(x)))))
        o.append(elin(c + stream(times(1, doc(sc("a", tag="!a!b", flags=0), 4, st("!a!") + st("!a!")), ))))
        o.append(elin(c + stream(times(1, doc(pl, 2)))))
        o.append(elin(c + stream(times(1, doc(pl, 0, b"", 0)))))
        o.append(elin(c + stream(doc(seq(times(1, sc("<=a#\n>") + b"F"), style=s3)))))
        for w in range(6):
            for t in ("<y>", "a<l>") if w in (0, 1) else ("a",):
                o.append(dlin(c, w, s3, t))
    return o
