"""Reference for the lexical grammar, written from its definition (README, and py/direct.py for the contract), and texts to try."""
import random, re
from direct import KEYWORDS, ONE, MORE, camel

IDC = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789")
HEX = frozenset(b"0123456789abcdefABCDEF")

def step(s, i):
    """-> (end, token or None) or None: no token starts here"""
    c = s[i]
    if c in b" \t\n\r\x0c": return i + 1, None
    if c == 0x22:
        o = []; j = i + 1
        while j < len(s):
            if s[j] == 0x5c and j + 1 < len(s):
                j += 1
                if s[j] in HEX:
                    k = 2 if j + 1 < len(s) and s[j + 1] in HEX else 1
                    o.append(int(s[j:j + k], 16)); j += k
                else: o.append(s[j]); j += 1
            elif s[j] == 0x22: return j + 1, ["String", o]
            else: o.append(s[j]); j += 1
        return None
    if 48 <= c <= 57:
        m = re.match(rb"0x[0-9a-fA-F]*|[0-9]+", s[i:]); return i + m.end(), ["Int", m.group().decode()]
    if s[i:i + 2] == b"//":
        k = s.find(b"\n", i); e, t = (len(s), s[i + 2:]) if k < 0 else (k + 1, s[i + 2:k])
        return e, ["CommentLine", t.decode("utf8", "replace")]
    if s[i:i + 2] == b"/*":
        if i + 2 == len(s): return i + 2, None
        k = s.find(b"*/", i + 2); e, t = (len(s), s[i + 2:]) if k < 0 else (k + 2, s[i + 2:k])
        return e, ["CommentBlock", t.decode("utf8", "replace")]
    for n in (3, 2, 1):
        t = s[i:i + n].decode("latin1")
        if len(t) == n and t in (MORE if n > 1 else ONE): return i + n, {**MORE, **ONE}[t]
    if c in IDC:
        j = i
        while j < len(s) and s[j] in IDC: j += 1
        w = s[i:j].decode(); return j, camel(w) if w in KEYWORDS else ["Ident", w]
    return None

def at(s, n):
    k = s.rfind(b"\n", 0, n) + 1; return s.count(b"\n", 0, n) + 1, n - k + 1

def lex(text, strip):
    s = text.encode(); i = 0; o = []
    while i < len(s):
        r = step(s, i)
        if r is None: return None
        if r[1] is not None and not (strip and r[1][0] in ("CommentLine", "CommentBlock")): o.append([r[1], *at(s, i), *at(s, r[0])])
        i = r[0]
    return o

ATOMS = list(ONE) + list(MORE) + KEYWORDS + ["a", "_", "foo_1", "U8", "type_", "u8le", "i8x", "u128lex", "0", "007", "12345678901234567890123", "0x", "0xFf", "0x1g", "0X1", "0xaBcDeF0", "0B1", "0o7", "1e5", "1.5", "00x1", "1x2", "1_0", '"a"', '""', '"\\41\\4"', '"\\n\\q\\\\"', '"é"', '"x\ny"', '"\\"', '"ab', "// c", "//", "// c\n", "//\n", "/**/", "/* a\n b */", "/*", "/* x", "/*/", "/***/", " ", "\n", "\t", "\r\n", "  ", "\x0c", "\x0b", "$", "é", "'", "`", "@", "#", "\\", "\x00", "-1", ">>>=", "<<=", ">=>", "...", ":::>", "?::", "&&&", "|||", "====", "!=="]
def texts(seed, n):
    r = random.Random(f"lex/{seed}"); o = [""] + ATOMS + [a + b for a in ATOMS[:44] for b in ATOMS[:44]]
    o += [a + " x" for a in ATOMS] + ["x\n" + a + " y\nz" for a in ATOMS]
    good = [a for a in ATOMS if lex(a, False) is not None and not a.startswith("/*") and a != '"ab']
    while len(o) < n:
        k = r.random()
        if k < .6: t = "".join(r.choice(good) + r.choice(["", " ", "\n", "  ", " /* c */ ", "// c\n"]) for _ in range(r.randint(1, 14)))
        elif k < .8: t = "".join(r.choice(ATOMS) for _ in range(r.randint(1, 8)))
        else: t = "".join(r.choice("ab_0129xXfFAB\"\\/*<>=!&|.:?-+ \n\tué") for _ in range(r.randint(1, 20)))
        o.append(t)
    return o
