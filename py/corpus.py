"""The programs each property is decided on. A program is compiled by the compiler of /repo on every run; the code it
emits is verified against contracts derived from the program (contracts.py) for all inputs."""
from ps import *
ALLI = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128"]
u8, u16, u32, u64, u128 = (Sc(x) for x in ("u8", "u16", "u32", "u64", "u128"))
i8, i16, i32, i64, i128 = (Sc(x) for x in ("i8", "i16", "i32", "i64", "i128"))
def le(t): return Sc(t, True)
F32, F64 = Fl("f32"), Fl("f64")
def V(n, t=None): return Va(n, t.t if isinstance(t, (Sc, Fl)) else t)
def c64(e): return Ca(e, "u64")
def n64(k): return I(k, "u64", suf=False)
def eq(a, b): return Bi("==", a, b)
def gt(a, b): return Bi(">", a, b)
def K8(k): return I(k, "u8")
C = Co

E8 = En("E8", u8, [("a", 1), ("b", None), ("c", 9), ("d", None)])
E8d = En("E8d", u8, [("a", 0), ("b", None), ("c", 200)], "other")
E16 = En("E16", u16, [("x1", 256), ("y", None), ("z", 65535)])
E16l = En("E16l", le("u16"), [("x1", 258), ("y", 4096)], "rest")
Ei8 = En("Ei8", i8, [("p", 3), ("q", 127)], "o")
Ei32 = En("Ei32", i32, [("p", 70000), ("q", None)])
E64 = En("E64", u64, [("p", 1 << 40), ("q", None)], "o")
E128 = En("E128", u128, [("p", 5), ("q", 1 << 100)])
B8 = Bf("B8", u8, [("a", 1), ("b", None), ("c", None), ("h", 0x80)])
B16 = Bf("B16", u16, [("a", 1), ("b", None), ("c", 0x100), ("d", None)])
B32l = Bf("B32l", le("u32"), [("lo", 1), ("hi", 0x80000000)])
B64 = Bf("B64", u64, [("a", 2), ("b", None), ("c", 1 << 63)])
Bs8 = Bf("Bs8", i8, [("a", 1), ("two", 6), ("top", Un("~", I(127, "i8")))])
Bs32 = Bf("Bs32", le("i32"), [("lo", 1), ("hi", Un("~", I(0x7fffffff, "i32"))), ("mid", 0x1000)])
Bmix = Bf("Bmix", u16, [("one", 1), ("nibble", 0xf0), ("top", 0x8000)])

def P01():
    o = []
    o.append(Prog("sc_be", Ty("S", C([Fd("f" + t, Sc(t)) for t in ALLI] + [Fd("x", F32), Fd("y", F64), Fd("z", Bo())]))))
    o.append(Prog("sc_le", Ty("S", C([Fd("f" + t, le(t)) for t in ALLI[2:]] + [Fd("k", u16)]))))
    o.append(Prog("sc_tup", *[Ty("T" + t, Sc(t)) for t in ALLI], *[Ty("L" + t, le(t)) for t in ALLI[2:]], Ty("TF", F32), Ty("TG", F64), Ty("TB", Bo())))
    o.append(Prog("sc_mix", Ty("A", le("u32")), Ty("B", i16), Ty("S", C([Fd("a", Ref("A")), Fd("b", Ref("B")), Fd("c", le("u16")), Fd("d", u16), Fd("e", Bo()), Fd("f", Bo()), Fd("g", le("i64")), Fd("h", F64)]))))
    return o

def P02():
    o = [Prog("en_all", E8, E8d, E16, E16l, Ei8, Ei32, E64, E128)]
    o.append(Prog("en_use", E8, E8d, E16l, Ty("S", C([Fd("k", Ref("E8")), Fd("j", Ref("E8d")), Fd("t", u8, cond=eq(V("k", E8), Ea(E8, "b"))), Fd("u", u16, cond=Bi("!=", V("j", E8d), Ea(E8d, "a"))), Fd("w", Ref("E16l"))]))))
    o.append(Prog("en_arr", E8, E8d, E16, E16l, Ty("S", C([Fd("n", u8), Fd("a", Arr(Ref("E8"), n64(3))), Fd("b", Arr(Ref("E16l"), c64(V("n", u8)))), Fd("d", Arr(Ref("E8d")))])), Ty("Q", C([Fd("a", Arr(Ref("E16")))])),
                  Ty("L", Arr(Ref("E16l"), n64(2)))))
    o.append(Prog("en_cast", E8, E16, Ty("S", C([Fd("k", Ref("E8")), Fd("a", Arr(u8, c64(Ca(V("k", E8), "u8")))), Fd("m", u16, cond=gt(Ca(V("k", E8), "u8"), K8(3)))]))))
    o.append(Prog("en_ord", En("Z", u8, [("z9", 9), ("z3", 3), ("z4", None), ("z0", 0)]), En("Y", i16, [("a", 0), ("b", None), ("c", 32767)]), En("One", u32, [("only", 77)]), En("Big", u8, [(f"v{i}", 0 if i == 0 else None) for i in range(40)], "more")))
    return o

def P03():
    o = [Prog("bf_all", B8, B16, B32l, B64, Bmix), Prog("bf_sign", Bs8, Bs32)]
    o.append(Prog("bf_use", B8, B16, Ty("S", C([Fd("f", Ref("B8")), Fd("a", u8, cond=Mem(V("f", B8), B8, "a")), Fd("b", u16, cond=Mem(V("f", B8), B8, "b")), Fd("h", u32, cond=Un("!", Mem(V("f", B8), B8, "h"))), Fd("g", Ref("B16")),
                  Fd("w", u8, cond=Bi("&&", Mem(V("g", B16), B16, "d"), Mem(V("f", B8), B8, "c")))]))))
    o.append(Prog("bf_arr", B8, B32l, Ty("S", C([Fd("n", u8), Fd("a", Arr(Ref("B8"), n64(2))), Fd("b", Arr(Ref("B32l"), c64(V("n", u8)))), Fd("c", Arr(Ref("B8")))]))))
    o.append(Prog("bf_shape", Bf("S1", u8, [("x", 0x80)]), Bf("S2", u32, [("a", 1)] + [(f"a{i}", None) for i in range(31)]), Bf("S3", u8, [("a", 1), ("every", 0xff)]), Bf("S4", u128, [("lo", 1), ("hi", 1 << 127)]), Bf("S5", i16, [("a", 1), ("b", 0x4000)])))
    return o

def P04():
    o = []
    o.append(Prog("co_nest", Ty("S", C([Fd("a", u8), Fd("g", C([Fd("b", u16), Fd("h", C([Fd("c", u32), Fd("d", le("u16"))])), Fd("e", u8)])), Fd("f", Bo())]))))
    o.append(Prog("co_ref", E8, Ty("A", C([Fd("x", u8), Fd("y", le("u32"))])), Ty("B", C([Fd("l", Ref("A")), Fd("m", u8), Fd("r", Ref("A")), Fd("k", Ref("E8"))])), Ty("D", C([Fd("b", Ref("B")), Fd("c", Ref("B")), Fd("z", Ref("W"))])), Ty("W", u64)))
    o.append(Prog("co_many", Ty("S", C([Fd("a", u8), Fd("g", C([Fd("b", u16), Fd("c", u16), Fd("d", u16), Fd("e", u8), Fd("f", u8), Fd("h", C([Fd("i", u16), Fd("j", u8), Fd("k", u16)]))]), cond=gt(V("a", u8), K8(2))), Fd("l", C([Fd("m", u16), Fd("n", u16), Fd("o", u16)]))]))))
    o.append(Prog("co_fwd", Ty("Top", C([Fd("h", Ref("Hdr")), Fd("body", Arr(Ref("Item"), c64(V("n", u8)))) ][:1] + [Fd("n", u8), Fd("body", Arr(Ref("Item"), c64(V("n", u8)))), Fd("tail", Ref("Tail"))])), Ty("Hdr", C([Fd("m", u32), Fd("v", u8)])), Ty("Item", C([Fd("k", u16), Fd("v", i64)])), Ty("Tail", C([Fd("crc", le("u32"))]))))
    o.append(Prog("co_names", Ty("S", C([Fd("type_", u8), Fd("len_", u16), Fd("self_", u8), Fd("r_0", u8), Fd("scratch", u16), Fd("raw", Arr(u16, c64(V("r_0", u8)))), Fd("size", u8), Fd("i", u8), Fd("buf", Arr(u8))]))))
    o.append(Prog("co_same", Ty("P", C([Fd("a", u8), Fd("b", u8), Fd("c", u8), Fd("d", u8), Fd("e", u8), Fd("f", u8), Fd("g", u8), Fd("h", u8)])), Ty("S", C([Fd("p", Ref("P")), Fd("q", Ref("P")), Fd("w", C([Fd("x", Ref("P")), Fd("y", u8), Fd("v", C([Fd("z", u8), Fd("u", u8)]))]))]))))
    o.append(Prog("co_empty", Ty("Nil", C([])), Ty("S", C([Fd("a", u8), Fd("n", Ref("Nil")), Fd("b", u8), Fd("g", C([])), Fd("c", u16)]))))
    return o

def P05():
    o = []
    o.append(Prog("cf_basic", Ty("S", C([Fd("a", u8), Fd("b", u16, cond=gt(V("a", u8), K8(4))), Fd("c", u32, cond=eq(V("a", u8), K8(2))), Fd("d", u8), Fd("e", i8, cond=Bi("||", eq(V("a", u8), K8(2)), Bi("<", V("d", u8), K8(3))))]))))
    o.append(Prog("cf_cont", Ty("P", C([Fd("x", u8), Fd("y", u16)])), Ty("S", C([Fd("a", u8), Fd("p", Ref("P"), cond=eq(V("a", u8), K8(1))), Fd("g", C([Fd("q", u8), Fd("r", Arr(u16, c64(V("q", u8)))), Fd("s", Ref("P")), Fd("gg", C([Fd("t", u8)]))]), cond=gt(V("a", u8), K8(1))), Fd("z", u8)]))))
    o.append(Prog("cf_types", E8, B8, Ty("S", C([Fd("a", u8)] + [Fd(n, t, cond=gt(V("a", u8), K8(i))) for i, (n, t) in enumerate([("bo", Bo()), ("en", Ref("E8")), ("bf", Ref("B8")), ("fl", F32), ("ar", Arr(u8, n64(2))), ("aw", Arr(le("u32"), n64(2))), ("ae", Arr(Ref("E8"), n64(1))), ("vi", Fo("v32")), ("st", Fo("utf8")), ("le_", le("i64")), ("re", Arr(u16))])]))))
    o.append(Prog("cf_bool", Ty("S", C([Fd("f", Bo()), Fd("g", Bo()), Fd("a", u8, cond=V("f", "bool")), Fd("b", u8, cond=Un("!", V("g", "bool"))), Fd("c", u8, cond=Bi("&&", V("f", "bool"), V("g", "bool"))), Fd("d", u8, cond=Bi("!=", V("f", "bool"), V("g", "bool")))]))))
    o.append(Prog("cf_arg", Ty("P", C([Fd("x", u8), Fd("y", u16, cond=gt(V("k", u8), V("x", u8))), Fd("w", u8, cond=V("on", "bool"))]), args=[("k", u8, None), ("on", Bo(), None)]),
                  Ty("S", C([Fd("n", u8), Fd("p", Ref("P", [V("n", u8), gt(V("n", u8), K8(3))])), Fd("q", Ref("P", [K8(7), B(True)]), cond=Bi("<=", V("n", u8), K8(9)))]))))
    o.append(Prog("cf_chain", Ty("S", C([Fd("a", u8), Fd("g", C([Fd("b", u8), Fd("c", u16)]), cond=Bi("&", V("a", u8), K8(1)) and eq(Bi("&", V("a", u8), K8(1)), K8(1))), Fd("h", C([Fd("d", u32)]), cond=Bi("!=", Bi("&", V("a", u8), K8(2)), K8(0))), Fd("i", C([Fd("e", Arr(u8))]), cond=Bi(">=", V("a", u8), K8(4)))]))))
    k = V("k", u8)
    o.append(Prog("cd_top", Ty("T", u16, args=[("k", u8, None)], cond=gt(k, K8(3))), Ty("U", Arr(u8, c64(k)), args=[("k", u8, None), ("f", Bo(), None)], cond=V("f", "bool")), Ty("S", C([Fd("a", u8), Fd("t", Ref("T", [V("a", u8)])), Fd("u", Ref("U", [K8(2), gt(V("a", u8), K8(5))])), Fd("z", u8)]))))
    o.append(Prog("cd_opt", Ty("T", u16, args=[("k", u8, None)], cond=gt(k, K8(3))), Ty("S", C([Fd("a", u8), Fd("t", Ref("T", [V("a", u8)]), cond=gt(V("a", u8), K8(1))), Fd("g", C([Fd("x", u8), Fd("u", Ref("T", [V("x", u8)]))]), cond=gt(V("a", u8), K8(2)))]))))
    return o

def P06():
    o = []
    el = [("b", u8), ("sb", i8), ("w", u16), ("wl", le("u16")), ("d", i32), ("q", le("u64")), ("h", u128), ("f", F32), ("g", F64)]
    o.append(Prog("ar_fix", Ty("S", C([Fd("n" + n, Arr(t, n64(i % 4))) for i, (n, t) in enumerate(el)]))))
    o.append(Prog("ar_len", Ty("S", C([Fd("n", u8), Fd("m", u16)] + [Fd("a" + n, Arr(t, c64(V("n", u8)))) for n, t in el[:6]] + [Fd("z", Arr(u16, Bi("+", c64(V("m", u16)), I(1, "u64"))))]))))
    o.append(Prog("ar_rest", *[Ty("T" + n, C([Fd("h", u8), Fd("a", Arr(t))])) for n, t in el]))
    o.append(Prog("ar_ref", E8, Ty("P", C([Fd("x", u8), Fd("y", u16)])), Ty("S", C([Fd("n", u8), Fd("a", Arr(Ref("P"), c64(V("n", u8)))), Fd("b", Arr(Ref("P"), n64(2))), Fd("v", Arr(Fo("v64"), c64(V("n", u8)))), Fd("r", Arr(Ref("P")))])), Ty("Q", C([Fd("s", Arr(Fo("utf8"), n64(2))), Fd("t", Arr(Fo("utf8")))]))))
    o.append(Prog("ar_term", Ty("P", C([Fd("x", u8), Fd("y", u8)])), Ty("S", C([Fd("z", Arr(u8, term=b"\0")), Fd("a", Arr(u8, term=b"ab")), Fd("w", Arr(u16, term=b"\0\0")), Fd("p", Arr(Ref("P"), term=b"."))])), Ty("T", C([Fd("k", u8), Fd("d", Arr(Fo("v16"), term=b"\xff")), Fd("t", u8)]))))
    o.append(Prog("ar_bool", Ty("S", C([Fd("n", u8), Fd("a", Arr(Bo(), c64(V("n", u8)))), Fd("b", Arr(Bo(), n64(3))), Fd("d", Arr(Bo()))])), Ty("H", Arr(Bo(), n64(2)))))
    o.append(Prog("ar_2d", Ty("S", C([Fd("n", u8), Fd("m", Arr(Arr(u8, n64(2)), c64(V("n", u8)))), Fd("w", Arr(Arr(u16, c64(V("n", u8))), n64(2)))]))))
    o.append(Prog("ar_arg", Ty("P", C([Fd("x", u8), Fd("y", Arr(u8, c64(V("k", u8))))]), args=[("k", u8, None)]), Ty("S", C([Fd("n", u8), Fd("k", u8), Fd("a", Arr(Ref("P", [V("k", u8)]), c64(V("n", u8)))), Fd("b", Arr(Ref("P", [Bi("+", V("k", u8), V("n", u8))])))]))))
    o.append(Prog("ar_top", Ty("A", Arr(u8)), Ty("B", Arr(le("u16"), n64(3))), Ty("D", Arr(u32)), Ty("P", C([Fd("x", u8)])), Ty("F", Arr(Ref("P"), n64(2))), Ty("G", Arr(Ref("P"))), Ty("H", Arr(u8, term=b"\n"))))
    o.append(Prog("ar_wide", E8, Ty("P", C([Fd("x", u8)])), Ty("S", C([Fd("n", u64), Fd("a", Arr(Ref("P"), V("n", u64))), Fd("m", u64), Fd("b", Arr(u16, V("m", u64))), Fd("k", u64), Fd("e", Arr(Ref("E8"), V("k", u64))), Fd("t", u8)]))))
    k = V("k", u8)
    o.append(Prog("ar_var", Ty("T", C([Fd("A", Arr(Arr(u8, n64(2)), c64(k)), cond=Bi("<", k, K8(3))), Fd("B", C([Fd("n", u8), Fd("m", Arr(Arr(u16, c64(V("n", u8))), n64(2))), Fd("s", Arr(u8, term=b";"))]), cond=Bi("<", k, K8(6))), Fd("D", Arr(u8, term=b"."))], tagged=True), args=[("k", u8, None)]), Ty("S", C([Fd("t", u8), Fd("v", Ref("T", [V("t", u8)])), Fd("z", u8)]))))
    return o

def P07():
    o = []
    o.append(Prog("ll_inl", Ty("S", C([Fd("n", u8), Fd("g", C([Fd("a", u8), Fd("r", Arr(u8))], n=c64(V("n", u8)))), Fd("t", u8)]))))
    o.append(Prog("ll_rest", Ty("P", C([Fd("x", u8), Fd("y", u8)])), Ty("S", C([Fd("n", u16), Fd("g", C([Fd("r", Arr(Ref("P")))], n=c64(V("n", u16)))), Fd("w", C([Fd("q", Arr(u16))], n=I(4, "u64"))), Fd("t", Arr(u8))]))))
    o.append(Prog("ll_top", Ty("P", C([Fd("x", u8), Fd("y", Arr(u8))], n=c64(V("k", u8))), args=[("k", u8, None)]), Ty("S", C([Fd("n", u8), Fd("p", Ref("P", [V("n", u8)])), Fd("q", Ref("P", [K8(3)])), Fd("t", u16)]))))
    o.append(Prog("ll_nest", Ty("S", C([Fd("n", u8), Fd("m", u8), Fd("g", C([Fd("a", u8), Fd("h", C([Fd("b", Arr(u8))], n=c64(V("m", u8)))), Fd("c", Arr(u8))], n=c64(V("n", u8)))), Fd("t", u8)]))))
    o.append(Prog("ll_cond", Ty("S", C([Fd("n", u8), Fd("g", C([Fd("a", u8), Fd("r", Arr(u16))], n=Bi("*", c64(V("n", u8)), I(2, "u64"))), cond=gt(V("n", u8), K8(0))), Fd("t", u8)]))))
    o.append(Prog("ll_str", Ty("S", C([Fd("n", u8), Fd("g", C([Fd("s", Fo("utf8")), Fd("v", Fo("v32")), Fd("z", Arr(u8, term=b";"))], n=c64(V("n", u8)))), Fd("t", u8)]))))
    o.append(Prog("ll_wide", Ty("S", C([Fd("n", u64), Fd("g", C([Fd("a", u8), Fd("r", Arr(u8))], n=V("n", u64))), Fd("m", le("u32")), Fd("h", C([Fd("b", u16), Fd("c", Arr(u16))], n=c64(V("m", u32)))), Fd("t", u8)]))))
    o.append(Prog("ll_deep", Ty("P", C([Fd("x", u8), Fd("g", C([Fd("y", u8), Fd("z", Arr(u8))], n=V("k", u64)))], n=V("l", u64)), args=[("k", u64, None), ("l", u64, None)]), Ty("S", C([Fd("k", u64), Fd("l", u16), Fd("p", Ref("P", [V("k", u64), c64(V("l", u16))])), Fd("q", Arr(Ref("P", [I(2, "u64"), c64(V("l", u16))]), I(2, "u64"))), Fd("t", u8)]))))
    k = V("k", u8)
    o.append(Prog("ll_opt", Ty("S", C([Fd("n", u8), Fd("g", C([Fd("x", u8), Fd("r", Arr(u8))], n=c64(V("n", u8))), cond=gt(V("n", u8), K8(2))), Fd("h", C([Fd("y", Arr(u16))], n=Bi("+", c64(V("n", u8)), I(1, "u64"))), cond=Bi("<", V("n", u8), K8(9))), Fd("t", u8)]))))
    o.append(Prog("li_enum", Ty("T", C([Fd("A", Arr(u8), cond=eq(k, K8(1))), Fd("B", C([Fd("x", u8), Fd("r", u16)]), cond=gt(k, K8(3))), Fd("D", u32)], tagged=True, n=c64(V("l", u8))), args=[("k", u8, None), ("l", u8, None)]), Ty("S", C([Fd("t", u8), Fd("l", u8), Fd("v", Ref("T", [V("t", u8), V("l", u8)])), Fd("z", u8)]))))
    return o

def P08():
    o = []
    L = lambda n, t: Call("len", V(n, t))
    o.append(Prog("ca_len", Ty("S", C([Fd("n", u8, calc=Ca(L("a", Arr(u16)), "u8")), Fd("m", le("u32"), calc=Ca(L("b", Arr(u8)), "u32")), Fd("a", Arr(u16, c64(V("n", u8)))), Fd("b", Arr(u8, c64(V("m", u32)))), Fd("t", u8)]))))
    o.append(Prog("ca_expr", Ty("S", C([Fd("a", u8), Fd("s", u16, calc=Bi("+", Ca(V("a", u8), "u16"), I(7, "u16"))), Fd("m", u32, calc=I(0xdeadbeef, "u32", hexa=True)), Fd("f", Bo(), calc=gt(V("a", u8), K8(9))), Fd("q", u8, calc=Te(gt(V("a", u8), K8(3)), K8(1), K8(2)))]))))
    o.append(Prog("ca_blen", Ty("S", C([Fd("l", u16, calc=Ca(Call("blen", V("b", None)), "u16")), Fd("b", C([Fd("p", u8), Fd("q", Arr(u8))], n=c64(V("l", u16)))), Fd("t", u8)]))))
    o.append(Prog("ca_blen2", Ty("P", C([Fd("x", u8), Fd("y", Arr(u8))])), Ty("S", C([Fd("h", u8), Fd("l", u32, calc=Ca(Call("blen", V("b", None)), "u32")), Fd("k", u16), Fd("b", C([Fd("p", u16), Fd("q", Ref("P"))], n=c64(V("l", u32)))), Fd("z", u8)]))))
    o.append(Prog("ca_blen3", Ty("S", C([Fd("l", u8, calc=Ca(Bi("+", Call("blen", V("b", None)), I(2, "u64")), "u8")), Fd("b", C([Fd("p", Arr(u16))], n=Bi("-", c64(V("l", u8)), I(2, "u64")))), Fd("m", u8, calc=Ca(Call("blen", V("e", None)), "u8")), Fd("e", C([Fd("w", Fo("utf8"))], n=c64(V("m", u8))))]))))
    o.append(Prog("ca_cond", Ty("S", C([Fd("a", u8), Fd("n", u8, calc=K8(5), cond=gt(V("a", u8), K8(1))), Fd("g", C([Fd("k", u16, calc=I(0x1234, "u16")), Fd("d", u8)]), cond=gt(V("a", u8), K8(2)))]))))
    o.append(Prog("ca_arr", Ty("I", C([Fd("n", u8, calc=Ca(L("s", Arr(u8)), "u8")), Fd("s", Arr(u8, c64(V("n", u8))))])), Ty("S", C([Fd("c", u16, calc=Ca(L("xs", Arr(Ref("I"))), "u16")), Fd("xs", Arr(Ref("I"), c64(V("c", u16))))]))))
    o.append(Prog("ca_fn", Ty("S", C([Fd("a", Arr(u8, n64(3))), Fd("s", u64, calc=Call("sum", V("a", Arr(u8)))), Fd("b", u32), Fd("k", u8, calc=Call("bits", c64(V("b", u32))))]))))
    BL = lambda n: Call("blen", V(n, None))
    l, m = V("l", u8), V("m", u8)
    tgt = lambda n, k: Fd(n, C([Fd(n + "p", u8), Fd(n + "q", Arr(u8))], n=c64(k)))
    bl, bm = Fd("l", u8, calc=Ca(BL("x"), "u8")), Fd("m", u8, calc=Ca(BL("y"), "u8"))
    o.append(Prog("ca_pend1", Ty("S", C([bl, bm, tgt("y", m), tgt("x", l), Fd("t", u8)]))))
    o.append(Prog("ca_pend2", Ty("S", C([bl, bm, tgt("x", l), Fd("k", u8), tgt("y", m), Fd("t", u8)]))))
    o.append(Prog("ca_pend3", Ty("S", C([Fd("l", u16, calc=Ca(Bi("+", BL("x"), BL("y")), "u16")), Fd("m", u8, calc=Ca(BL("y"), "u8")), tgt("y", m), Fd("k", u16), Fd("x", C([Fd("z", Arr(u8))], n=Bi("-", c64(V("l", u16)), c64(m)))), Fd("t", u8)]))))
    k = V("k", u8)
    o.append(Prog("ca_var", Ty("T", C([Fd("A", C([Fd("n", u8, calc=Ca(L("s", Arr(u8)), "u8")), Fd("s", Arr(u8, c64(V("n", u8))))]), cond=eq(k, K8(1))), Fd("B", C([Fd("c", u16, calc=I(0x1234, "u16")), Fd("x", u8), Fd("y", u8, calc=Bi("^", V("x", u8), K8(0x55)))]), cond=gt(k, K8(3))), Fd("D", u16)], tagged=True), args=[("k", u8, None)]), Ty("S", C([Fd("t", u8), Fd("v", Ref("T", [V("t", u8)])), Fd("z", u8)]))))
    o.append(Prog("ca_var2", Ty("T", C([Fd("A", C([Fd("l", u8, calc=Ca(BL("x"), "u8")), tgt("x", V("l", u8)), Fd("w", u8)]), cond=eq(k, K8(1))), Fd("D", u16)], tagged=True), args=[("k", u8, None)]), Ty("S", C([Fd("t", u8), Fd("v", Ref("T", [V("t", u8)])), Fd("z", u8)]))))
    o.append(Prog("ca_en", E8, B8, Ty("S", C([Fd("e", Ref("E8"), calc=Ea(E8, "a")), Fd("a", u8), Fd("m", u8, calc=Ca(Ea(E8, "c"), "u8"))]))))
    o.append(Prog("ca_pend4", Ty("S", C([Fd("h", u8), bl, Fd("h2", u8), Fd("m", u8, calc=Ca(BL("x"), "u8")), Fd("h3", u8), tgt("x", l), Fd("t", u8), Fd("n", u8, calc=Ca(BL("x"), "u8"))]))))
    return o

def P09():
    o = []
    k = V("k", u8)
    o.append(Prog("te_basic", Ty("T", C([Fd("A", u8, cond=eq(k, K8(1))), Fd("B", C([Fd("x", u8), Fd("y", u16)]), cond=eq(k, K8(2))), Fd("D", Arr(u8), cond=gt(k, K8(7)))], tagged=True), args=[("k", u8, None)]), Ty("S", C([Fd("t", u8), Fd("v", Ref("T", [V("t", u8)]))]))))
    o.append(Prog("te_def", E8, Ty("P", C([Fd("x", u8)])), Ty("T", C([Fd("A", Ref("P"), cond=eq(V("k", E8), Ea(E8, "a"))), Fd("B", Arr(Ref("P"), n64(2)), cond=eq(V("k", E8), Ea(E8, "c"))), Fd("Other", C([Fd("raw", Arr(u8))]))], tagged=True), args=[("k", Ref("E8"), None)]), Ty("S", C([Fd("t", Ref("E8")), Fd("v", Ref("T", [V("t", E8)]))]))))
    o.append(Prog("te_two", Ty("T", C([Fd("A", le("u32"), cond=Bi("&&", eq(k, K8(1)), V("w", "bool"))), Fd("B", u64, cond=eq(k, K8(1))), Fd("D", Fo("v32"), cond=V("w", "bool")), Fd("F", C([Fd("n", u8), Fd("s", Arr(u16, c64(V("n", u8))))]), cond=eq(k, K8(0)))], tagged=True), args=[("k", u8, None), ("w", Bo(), None)]),
                  Ty("S", C([Fd("t", u8), Fd("v", Ref("T", [V("t", u8), gt(V("t", u8), K8(2))])), Fd("u", Ref("T", [K8(1), B(True)])), Fd("z", u8)]))))
    o.append(Prog("te_arr", Ty("T", C([Fd("A", u16, cond=eq(k, K8(0))), Fd("B", C([Fd("x", u8), Fd("y", u8)]), cond=eq(k, K8(1)))], tagged=True), args=[("k", u8, None)]), Ty("S", C([Fd("n", u8), Fd("t", u8), Fd("v", Arr(Ref("T", [V("t", u8)]), c64(V("n", u8)))), Fd("o", Ref("T", [V("t", u8)]), cond=gt(V("n", u8), K8(1)))]))))
    o.append(Prog("te_len", Ty("T", C([Fd("A", Arr(u8), cond=eq(k, K8(1))), Fd("B", C([Fd("x", u8), Fd("r", Arr(u8))]), cond=gt(k, K8(1)))], tagged=True, n=c64(V("l", u8))), args=[("k", u8, None), ("l", u8, None)]), Ty("S", C([Fd("t", u8), Fd("l", u8), Fd("v", Ref("T", [V("t", u8), V("l", u8)])), Fd("z", u8)]))))
    o.append(Prog("te_over", Ty("T", C([Fd("A", u8, cond=Bi("<", k, K8(3))), Fd("B", C([Fd("x", u8), Fd("r", Arr(u8))]), cond=Bi("<", k, K8(6))), Fd("D", u16, cond=Bi("||", eq(k, K8(1)), gt(k, K8(8)))), Fd("F", Arr(u16))], tagged=True, n=V("l", u64)), args=[("k", u8, None), ("l", u64, None)]), Ty("S", C([Fd("t", u8), Fd("l", u64), Fd("v", Ref("T", [V("t", u8), V("l", u64)])), Fd("w", Ref("T", [V("t", u8), I(2, "u64")])), Fd("z", u8)]))))
    o.append(Prog("te_cond", Ty("T", C([Fd("A", C([Fd("f", u8), Fd("g", u16, cond=gt(V("f", u8), K8(2))), Fd("h", Arr(u8, c64(V("f", u8))))]), cond=eq(k, K8(0))), Fd("B", Bo(), cond=Bi("<", k, K8(5)))], tagged=True), args=[("k", u8, None)]), Ty("S", C([Fd("t", u8), Fd("v", Ref("T", [V("t", u8)]))]))))
    o.append(Prog("te_xf", Ty("T", C([Fd("A", u16, cond=eq(k, K8(1)), tf=[Tf("xfa")]), Fd("B", C([Fd("x", u8), Fd("y", u16)]), cond=gt(k, K8(5)), tf=[Tf("xfk", [k]), Tf("xfb")]), Fd("D", Arr(u8), cond=gt(k, K8(3)), tf=[Tf("xfb", cond=eq(k, K8(4)))]), Fd("F", u8, tf=[Tf("xfb")])], tagged=True), args=[("k", u8, None)]), Ty("S", C([Fd("t", u8), Fd("v", Ref("T", [V("t", u8)])), Fd("z", u8)]))))
    return o

def P10():
    o = [Prog("vi_all", *[Ty("T" + n, C([Fd("v", Fo(n))])) for n in ("v8", "v16", "v32", "v64", "v128")], foreign=True)]
    o.append(Prog("vi_use", Ty("S", C([Fd("n", Fo("v32")), Fd("k", u8), Fd("a", Arr(Fo("v16"), c64(V("k", u8)))), Fd("c", Fo("v64"), cond=gt(V("n", i32), I(100, "i32"))), Fd("z", Fo("v8")), Fd("r", Arr(Fo("v128")))]))))
    return o

def P11():
    o = [Prog("st_all", Ty("U", C([Fd("s", Fo("utf8"))])), Ty("UN", C([Fd("n", u8), Fd("s", Fo("utf8", [c64(V("n", u8))]))])), Ty("W", C([Fd("n", u8), Fd("s", Fo("utf16", [c64(V("n", u8))]))])), foreign=True)]
    o.append(Prog("st_use", Ty("S", C([Fd("a", Fo("utf8")), Fd("n", u8), Fd("b", Fo("utf8", [c64(V("n", u8))])), Fd("w", Fo("utf16", [c64(V("n", u8))])), Fd("c", Fo("utf8"), cond=gt(V("n", u8), K8(2))), Fd("x", Arr(Fo("utf8"), c64(V("n", u8)))), Fd("z", u8)]))))
    return o

def P12():
    o = []
    a = V("a", u8)
    o.append(Prog("tf_one", Ty("S", C([Fd("a", u8), Fd("b", u16, tf=[Tf("xfa")]), Fd("d", Arr(u8, c64(a)), tf=[Tf("xfb")]), Fd("g", C([Fd("x", u8), Fd("y", u32)]), tf=[Tf("xfk", [a])]), Fd("t", u8)]))))
    o.append(Prog("tf_chain", Ty("P", C([Fd("x", u8), Fd("y", u16)])), Ty("S", C([Fd("a", u8), Fd("b", Arr(u16, n64(2)), tf=[Tf("xfa"), Tf("xfb")]), Fd("g", C([Fd("p", Ref("P")), Fd("q", u8)]), tf=[Tf("xfb"), Tf("xfk", [a]), Tf("xfa")]), Fd("t", u8)]))))
    o.append(Prog("tf_cond", Ty("S", C([Fd("a", u8), Fd("b", Arr(u8, n64(3)), tf=[Tf("xfa", cond=gt(a, K8(3)))]), Fd("d", u32, tf=[Tf("xfm", [I(0x01020304, "u32", hexa=True), a], cond=eq(a, K8(1)))]), Fd("g", C([Fd("x", u8), Fd("y", le("u16"))]), tf=[Tf("xfb", cond=Bi("<", a, K8(9))), Tf("xfk", [Bi("+", a, K8(1))])])]))))
    o.append(Prog("tf_fc", Ty("S", C([Fd("a", u8), Fd("b", Arr(u8, n64(2)), cond=gt(a, K8(0)), tf=[Tf("xfb")]), Fd("d", C([Fd("x", u8), Fd("y", u16)]), cond=gt(a, K8(1)), tf=[Tf("xfa"), Tf("xfb")]), Fd("e", u16, cond=gt(a, K8(2)), tf=[Tf("xfa", cond=gt(a, K8(4)))])]))))
    o.append(Prog("tf_type", Ty("T", C([Fd("x", u8), Fd("r", Arr(u8))]), tf=[Tf("xfb")]), Ty("U", Arr(u16, n64(2)), tf=[Tf("xfa"), Tf("xfb")]), Ty("W", C([Fd("k", u8), Fd("z", Ref("U")), Fd("t", Ref("T"))]))))
    o.append(Prog("tf_len", Ty("S", C([Fd("n", u8), Fd("g", C([Fd("x", u8), Fd("r", Arr(u8))], n=c64(V("n", u8))), tf=[Tf("xfb")]), Fd("t", u8)]))))
    o.append(Prog("tf_ref", Ty("P", C([Fd("x", u8), Fd("y", u16)])), Ty("S", C([Fd("p", Ref("P"), tf=[Tf("xfb")]), Fd("q", Arr(Ref("P"), n64(2)), tf=[Tf("xfa")]), Fd("v", Fo("v32"), tf=[Tf("xfb")]), Fd("z", u8)]))))
    o.append(Prog("tf_gzip", Ty("S", C([Fd("a", u8), Fd("d", C([Fd("x", u8), Fd("r", Arr(u8))]), tf=[Tf("gzip")])])), Ty("T", C([Fd("a", u8), Fd("d", Arr(u16, c64(V("a", u8))), tf=[Tf("xfa"), Tf("gzip")])]))))
    k = V("k", u8); f = V("f", "bool")
    o.append(Prog("tf_top", Ty("T", u16, args=[("k", u8, None), ("f", Bo(), None)], tf=[Tf("xfk", [k]), Tf("xfa", cond=f)]), Ty("U", C([Fd("x", u8), Fd("y", Arr(u16))]), args=[("k", u8, None)], tf=[Tf("xfb", cond=gt(k, K8(3))), Tf("xfk", [Bi("+", k, K8(1))])]), Ty("S", C([Fd("a", u8), Fd("p", Ref("T", [a, gt(a, K8(2))])), Fd("q", Ref("U", [a]))]))))
    o.append(Prog("tf_var", Ty("T", C([Fd("A", u16, cond=eq(k, K8(1)), tf=[Tf("xfa")]), Fd("B", C([Fd("x", u8), Fd("y", u16)]), cond=gt(k, K8(5)), tf=[Tf("xfk", [k]), Tf("xfb")]), Fd("F", Arr(u8), tf=[Tf("xfb", cond=eq(k, K8(4)))])], tagged=True), args=[("k", u8, None)]), Ty("S", C([Fd("t", u8), Fd("v", Ref("T", [V("t", u8)]))]))))
    return o

def P13():
    o = []
    k = V("k", u8)
    o.append(Prog("ta_req", Ty("P", C([Fd("x", Arr(u8, c64(k))), Fd("y", u16, cond=gt(V("m", u16), I(300, "u16")))]), args=[("k", u8, None), ("m", u16, None)]), Ty("S", C([Fd("a", u8), Fd("b", u16), Fd("p", Ref("P", [V("a", u8), V("b", u16)])), Fd("q", Ref("P", [Bi("+", V("a", u8), K8(1)), Ca(V("a", u8), "u16")])), Fd("r", Arr(Ref("P", [K8(2), V("b", u16)]), n64(2)))]))))
    o.append(Prog("ta_def", Ty("P", C([Fd("x", Arr(u8, c64(k)))]), args=[("k", u8, K8(3))]), Ty("Q", C([Fd("y", u8, cond=gt(V("m", u16), I(5, "u16"))), Fd("z", u8, cond=V("f", "bool"))]), args=[("m", u16, I(9, "u16")), ("f", Bo(), B(True))])))
    o.append(Prog("ta_deep", Ty("A", C([Fd("v", Arr(u8, c64(k))), Fd("w", u8, cond=V("f", "bool"))]), args=[("k", u8, None), ("f", Bo(), None)]), Ty("B", C([Fd("a", Ref("A", [Bi("+", V("j", u8), K8(1)), V("g", "bool")])), Fd("c", u8)]), args=[("j", u8, None), ("g", Bo(), None)]), Ty("S", C([Fd("n", u8), Fd("t", Bo()), Fd("b", Ref("B", [V("n", u8), Un("!", V("t", "bool"))])), Fd("b2", Arr(Ref("B", [K8(0), V("t", "bool")])))]))))
    o.append(Prog("ta_enum", E8, B8, Ty("P", C([Fd("x", u8, cond=eq(V("e", E8), Ea(E8, "b"))), Fd("y", u16, cond=Mem(V("b", B8), B8, "h"))]), args=[("e", Ref("E8"), None), ("b", Ref("B8"), None)]), Ty("S", C([Fd("e", Ref("E8")), Fd("b", Ref("B8")), Fd("p", Ref("P", [V("e", E8), V("b", B8)]))]))))
    o.append(Prog("ta_names", Ty("P", C([Fd("x", Arr(u8, c64(V("r_1", u8)))), Fd("reader", u8), Fd("y", Arr(u16, c64(V("reader2", u8)))), Fd("z", u32, cond=gt(V("writer", u16), I(9, "u16"))), Fd("w", Arr(Fo("v32"), c64(V("r_0", u8))))]), args=[("r_1", u8, None), ("writer", u16, None), ("r_0", u8, None), ("reader2", u8, None)]), Ty("S", C([Fd("n", u8), Fd("m", u8), Fd("p", Ref("P", [V("n", u8), Ca(V("m", u8), "u16"), V("m", u8), Bi("&", V("n", u8), K8(3))])), Fd("q", Arr(Ref("P", [K8(1), I(3, "u16"), V("n", u8), K8(0)]), c64(V("m", u8))))]))))
    o.append(Prog("ta_order", Ty("P", C([Fd("x", Arr(u8, c64(V("a", u8)))), Fd("y", Arr(u16, c64(V("b", u8)))), Fd("z", Arr(u32, c64(V("c", u8))))]), args=[("a", u8, None), ("b", u8, None), ("c", u8, None)]), Ty("S", C([Fd("c", u8), Fd("a", u8), Fd("b", u8), Fd("p", Ref("P", [V("b", u8), V("c", u8), V("a", u8)]))]))))
    m = V("m", u16); a = V("a", u8); b = V("b", u16)
    O = Ty("P", C([Fd("x", Arr(u8, c64(k))), Fd("y", u16, cond=gt(m, I(5, "u16"))), Fd("z", u8, cond=V("f", "bool"))]), args=[("k", u8, None), ("m", u16, I(9, "u16")), ("f", Bo(), B(False))])
    o.append(Prog("ta_opt", O, Ty("S", C([Fd("a", u8), Fd("b", u16), Fd("p", Ref("P", [a])), Fd("q", Ref("P", [a, b])), Fd("r", Ref("P", [K8(1), b, gt(a, K8(2))])), Fd("s", Arr(Ref("P", [K8(1), Ca(a, "u16")]), n64(2)))]))))
    o.append(Prog("ta_opt2", Ty("P", C([Fd("x", Arr(u8, c64(V("n", u8)))), Fd("y", Arr(u8, c64(k)))]), args=[("k", u8, K8(2)), ("n", u8, Bi("+", k, K8(1)))]), Ty("T", C([Fd("A", Ref("P", [V("j", u8)]), cond=gt(V("j", u8), K8(3))), Fd("D", C([Fd("x", Ref("P", [V("j", u8), V("j", u8)])), Fd("y", Ref("P"))]), cond=gt(V("j", u8), K8(1))), Fd("Z", Ref("P"))], tagged=True), args=[("j", u8, K8(2))]), Ty("S", C([Fd("a", u8), Fd("p", Ref("P")), Fd("q", Ref("P", [a]), cond=gt(a, K8(2))), Fd("t", Ref("T")), Fd("u", Ref("T", [a]))]))))
    o.append(Prog("ta_const", Cn("k", u8, K8(1)), Cn("m", u16, I(300, "u16")), Cn("c", u8, K8(2)), Ty("P", C([Fd("x", Arr(u8, c64(k))), Fd("y", u16, cond=gt(V("m", u16), I(5, "u16"))), Fd("c", u8), Fd("z", Arr(u16, c64(V("c", u8))))]), args=[("k", u8, None), ("m", u16, I(2, "u16"))]), Ty("S", C([Fd("a", u8), Fd("p", Ref("P", [V("a", u8)])), Fd("q", Ref("P", [K8(3), Ca(V("a", u8), "u16")]))]))))
    return o

def P14():
    o = []
    n = V("n", u8)
    o.append(Prog("pd_basic", Ty("S", C([Fd("a", u8), Pad(I(3, "u64")), Fd("b", u16), Fd("n", u8), Pad(c64(n)), Fd("c", u8)]))))
    o.append(Prog("pd_fn", Ty("S", C([Fd("n", u8), Fd("d", Arr(u8, c64(n))), Pad(Call("pad", I(4, "u64"), c64(n))), Fd("c", u32), Pad(Call("pad", I(8, "u64"), Bi("+", c64(n), I(5, "u64")))), Fd("t", u8)]))))
    o.append(Prog("pd_odd", Ty("S", C([Fd("n", u8)] + [Pad(Call("pad", I(k, "u64"), Bi("+", c64(n), I(k - 1, "u64")))) for k in (1, 3, 5, 6, 7, 10)] + [Fd("c", u32), Fd("t", u8)]))))
    o.append(Prog("pd_in", Ty("P", C([Fd("x", u8), Pad(I(1, "u64"))])), Ty("S", C([Fd("n", u8), Fd("g", C([Fd("a", u8), Pad(I(2, "u64")), Fd("b", u8)]), cond=gt(n, K8(1))), Fd("l", C([Fd("r", u8), Pad(I(1, "u64")), Fd("s", Arr(u8))], n=c64(n))), Fd("p", Arr(Ref("P"), n64(2)))]))))
    o.append(Prog("pd_tern", Ty("S", C([Fd("n", u8), Pad(Te(gt(n, K8(3)), I(2, "u64"), I(0, "u64"))), Fd("k", u16), Pad(Call("pad", Te(gt(n, K8(3)), I(4, "u64"), I(2, "u64")), c64(V("k", u16)))), Fd("t", u8)]))))
    o.append(Prog("pd_data", Ty("S", C([Fd("n", u8), Fd("k", u8), Pad(Call("pad", c64(n), c64(V("k", u8)))), Fd("b", u16), Fd("t", u8, cond=gt(Call("pad", c64(n), Bi("+", c64(V("k", u8)), I(1, "u64"))), I(2, "u64")))]))))
    k = V("k", u8)
    o.append(Prog("pd_var", Ty("T", C([Fd("A", C([Fd("x", u8), Pad(I(2, "u64")), Fd("y", u16)]), cond=eq(k, K8(1))), Fd("B", C([Pad(c64(k)), Fd("w", u8)]), cond=gt(k, K8(3))), Fd("D", C([Fd("r", u8), Pad(Call("pad", I(4, "u64"), c64(V("r", u8)))), Fd("s", u8)]))], tagged=True), args=[("k", u8, None)]), Ty("S", C([Fd("t", u8), Fd("v", Ref("T", [V("t", u8)])), Fd("z", u8)]))))
    o.append(Prog("fn_big", Ty("S", C([Fd("a", u64), Fd("v", Arr(u64, n64(2))), Fd("x", u8, cond=gt(Call("bits", V("a", u64)), K8(40))), Fd("k", u8, calc=Call("bits", V("a", u64))), Fd("y", u8, cond=eq(Call("bits", V("a", u64)), K8(64)))]))))
    ln = lambda n, t: Call("len", V(n, t))
    o.append(Prog("fn_len", E8, B16, Ty("S", C([Fd("a", u32), Fd("e", Ref("E8")), Fd("f", Ref("B16")), Fd("o", Bo()), Fd("w", u128), Fd("x", u64, calc=ln("a", u32)), Fd("y", u8, calc=Ca(ln("e", E8), "u8")), Fd("z", u8, calc=Ca(Bi("+", ln("f", B16), Bi("*", ln("w", u128), ln("o", Bo()))), "u8")), Fd("v", Arr(u8), cond=gt(Bi("+", ln("a", u32), c64(V("a", u32))), I(9, "u64")))]))))
    o.append(Prog("fn_use", Ty("S", C([Fd("a", u8), Fd("v", Arr(u16, n64(2))), Fd("x", u8, cond=gt(Call("bits", c64(V("a", u8))), K8(3))), Fd("y", u8, cond=gt(Call("sum", V("v", Arr(u16))), I(1000, "u64"))), Fd("z", Arr(u8, Call("bits", c64(V("a", u8))) and c64(Call("bits", c64(V("a", u8))))))]))))
    o.append(Prog("fn_sum", Ty("S", C([Fd("v", Arr(u32, n64(3))), Fd("s", u64, calc=Call("sum", V("v", Arr(u32)))), Fd("x", u8, cond=gt(Call("sum", V("v", Arr(u32))), I(5000000000, "u64")))]))))
    return o

def P15():
    o = []
    a, b, c = V("a", u8), V("b", u8), V("c", u8)
    w, x = V("w", i32), V("x", i32)
    def S(name, fields, exprs, ty="bool"):
        fs = [Fd(n, t) for n, t in fields]
        for i, e in enumerate(exprs): fs.append(Fd(f"c{i}", u8, cond=e) if ty == "bool" else Fd(f"c{i}", Sc(ty), calc=e))
        return Prog(name, Ty("S", C(fs)))
    ab = [("a", u8), ("b", u8), ("c", u8)]
    o.append(S("ex_arith", ab, [Bi("+", a, Bi("*", b, c)), Bi("*", Bi("+", a, b), c), Bi("-", Bi("-", a, b), c), Bi("-", a, Bi("-", b, c)), Bi("/", a, K8(3)), Bi("%", a, K8(7)), Bi("+", Bi("/", Bi("*", a, b), K8(2)), c), Bi("*", Bi("/", a, K8(2)), b)], "u8"))
    o.append(S("ex_bits", ab, [Bi("|", a, Bi("^", b, Bi("&", c, K8(15)))), Bi("&", Bi("|", a, b), c), Bi("^", Bi("&", a, b), Bi("|", b, c)), Bi("<<", a, K8(3)), Bi(">>", a, K8(2)), Un("~", a), Bi("&", Un("~", a), b), Bi("<<", Bi("+", a, K8(1)), K8(2)), Bi("+", a, Bi(">>", b, K8(1))), Bi("|", Bi("<<", a, K8(4)), Bi(">>", b, K8(4)))], "u8"))
    o.append(S("ex_cmp", ab, [Bi("<", a, b), Bi("<=", a, b), Bi(">", a, b), Bi(">=", a, b), eq(a, b), Bi("!=", a, b), Bi("&&", Bi("<", a, b), Bi("<", b, c)), Bi("||", Bi("<", a, b), Bi("<", b, c)), Bi("||", eq(a, b), Bi("&&", eq(b, c), gt(a, K8(3)))), Bi("&&", Bi("||", eq(a, b), eq(b, c)), gt(a, K8(3))), Un("!", Bi("||", eq(a, b), gt(c, b)))]))
    o.append(S("ex_mixed", ab, [eq(Bi("+", a, b), c), gt(Bi("&", a, K8(6)), K8(2)), eq(Bi("&", a, K8(1)), Bi("&", b, K8(1))), Bi("<", Bi("<<", a, K8(1)), b)]))
    o.append(S("ex_mixed2", ab, [eq(Bi("|", a, b), Bi("^", b, c)), Un("!", eq(Un("~", a), b)), Bi("!=", gt(a, b), gt(b, c)), gt(Te(gt(a, b), a, b), c)]))
    o.append(S("ex_cast", ab + [("w", i32), ("q", u64)], [gt(Ca(a, "u16"), Bi("*", Ca(b, "u16"), I(2, "u16"))), Bi("<", Ca(w, "u8"), a), Bi("<", Ca(w, "i64"), I(70000, "i64")), gt(Ca(Bi("+", a, b), "u32"), I(100, "u32")), eq(Bi("+", Ca(a, "u32"), Ca(b, "u32")), Ca(c, "u32")), Bi("<", Ca(V("q", u64), "i32"), w), gt(Ca(Ca(w, "u8"), "u64"), V("q", u64))]))
    o.append(S("ex_sign", [("w", i32), ("x", i32), ("s", i8)], [Bi("+", w, x), Bi("-", w, Bi("*", x, I(3, "i32"))), Un("-", w), Bi("-", Un("-", w), x), Bi("/", w, I(7, "i32")), Bi("%", w, I(5, "i32")), Bi(">>", w, I(3, "i32")), Un("~", x), Ca(V("s", i8), "i32"), Te(Bi("<", w, x), w, Un("-", x))], "i32"))
    # a divisor read from the data: zero is an error
    o.append(S("ex_divd", ab, [Bi("/", a, b), Bi("%", a, b), Bi("/", Bi("+", a, b), Bi("-", b, c)), Bi("%", Bi("*", a, c), Bi("&", b, c)), Bi("/", Bi("/", a, b), c), Bi("/", a, Bi("/", b, c)), Bi("-", a, Bi("*", b, Bi("/", a, b))), Te(gt(b, K8(0)), Bi("/", a, b), c), Bi("%", K8(200), Un("~", a))], "u8"))
    o.append(S("ex_divs", [("w", i32), ("x", i32), ("s", i8)], [Bi("/", w, x), Bi("%", w, x), Bi("/", w, Un("-", I(1, "i32"))), Bi("%", w, Un("-", x)), Bi("/", Bi("+", w, I(1, "i32")), Ca(V("s", i8), "i32"))], "i32"))
    o.append(S("ex_divb", ab, [gt(Bi("/", a, b), K8(2)), Bi("&&", gt(b, K8(0)), eq(Bi("%", a, b), c)), Bi("||", eq(c, K8(0)), Bi("<", Bi("/", b, c), a))]))
    o.append(S("ex_tern", ab, [Te(gt(a, b), Te(gt(b, c), K8(1), K8(2)), K8(3)), Te(eq(a, K8(1)), b, c), Bi("+", Te(gt(a, b), a, b), K8(1)), Te(Bi("&&", gt(a, K8(1)), gt(b, K8(1))), Bi("+", a, b), Bi("*", a, b))], "u8"))
    o.append(Prog("ex_index", Ty("S", C([Fd("n", u8), Fd("v", Arr(u8, Bi("+", c64(V("n", u8)), I(2, "u64")))), Fd("x", u8, cond=gt(Ix(V("v", Arr(u8)), I(1, "u64"), "u8"), K8(3))), Fd("y", u16, cond=gt(Bi("+", Ix(V("v", Arr(u8)), I(0, "u64"), "u8"), K8(1)), V("n", u8)))]))))
    o.append(Prog("ex_cidx", Ty("S", C([Fd("n", u8), Fd("i", u8), Fd("v", Arr(u16, c64(V("n", u8)))), Fd("x", u8, cond=gt(Ix(V("v", Arr(u16)), c64(V("i", u8)), "u16"), I(300, "u16")))]))))
    o.append(Prog("ex_elvis", Ty("S", C([Fd("a", u8), Fd("b", u8, cond=gt(a, K8(3))), Fd("w", i32, cond=Bi("<", a, K8(9))), Fd("x", u8, cond=gt(El(V("b", u8), K8(4)), K8(2))), Fd("y", u8, cond=eq(El(V("w", i32), Un("-", I(1, "i32"))), Ca(a, "i32"))), Fd("z", u8, cond=gt(Bi("+", El(V("b", u8), a), K8(1)), El(V("b", u8), Bi("+", a, K8(2)))))]))))
    o.append(Prog("ex_ucast", Ty("S", C([Fd("a", u8), Fd("s", i8), Fd("q", u16, calc=Un("~", Ca(a, "u16"))), Fd("r", i32, calc=Un("-", Ca(V("s", i8), "i32"))), Fd("x", u8, cond=gt(Un("~", Ca(a, "u16")), I(65400, "u16"))), Fd("y", u8, cond=Un("!", eq(Un("-", Ca(V("s", i8), "i16")), Ca(a, "i16"))))]))))
    # every ordered pair of integer operators, nested both ways and printed with the fewest parentheses
    IO = ["|", "^", "&", "<<", ">>", "+", "-", "*", "/", "%"]
    RK = {"|": (5, 2), "^": (5, 2), "&": (6, 3), "<<": (1, 2), ">>": (6, 1), "+": (3, 2), "-": (5, 2), "*": (3, 2), "/": (6, 2), "%": (5, 3)}
    def rhs(o, k, v): return K8(k) if o in ("<<", ">>", "/", "%") else v
    prs = []
    for o1 in IO:
        for o2 in IO:
            prs.append(Bi(o2, Bi(o1, a, rhs(o1, 3, b)), rhs(o2, 2, c)))
            # (that a bitwise combination of constants is a valid shift or divisor is not provable here)
            if o1 not in ("<<", ">>", "/", "%") or o2 in ("+", "-", "*", "/", "%"): prs.append(Bi(o1, a, Bi(o2, K8(RK[o2][0]), K8(RK[o2][1])) if o1 in ("<<", ">>", "/", "%") else Bi(o2, b, rhs(o2, 2, c))))
    for i in range(0, len(prs), 25): o.append(S(f"ex_pair{i // 25}", ab, prs[i:i + 25], "u8"))
    # comparisons and logic over each level, in both orders
    CO = ["==", "!=", "<", ">", "<=", ">="]; bs = []
    for i, o1 in enumerate(["|", "^", "&", ">>", "+", "*"]):
        for j in range(2):
            q = CO[(i + 3 * j) % 6]
            bs += [Bi(q, Bi(o1, a, rhs(o1, 1, b)), c), Bi(q, a, Bi(o1, b, rhs(o1, 1, c)))]
    p, q, r, l = Bi("<", a, b), gt(c, K8(3)), eq(a, c), lambda x, y, z, m: Bi(x, y, Bi(m, z[0], z[1]))
    lg = []
    for o1 in ("&&", "||", "==", "!="):
        for o2 in ("&&", "||", "==", "!="):
            lg += [Bi(o2, Bi(o1, p, q), r), Bi(o1, p, Bi(o2, q, r))]
    lg += [Un("!", Bi("&&", p, q)), Bi("&&", Un("!", p), q), Bi("||", Un("!", Bi("==", p, q)), r), Te(p, q, r), Bi("&&", p, Te(q, r, p)), Te(Te(p, q, r), r, q), Te(p, q, Te(q, r, p)), Te(p, Te(q, r, p), r)]
    bs += lg
    for i in range(0, len(bs), 22):
        o.append(Prog(f"ex_logic{i // 22}", Ty("S", C([Fd(n, t) for n, t in ab] + [Fd(f"c{j}", Bo(), calc=e) for j, e in enumerate(bs[i:i + 22])]))))
    N = Cr("N", 4, "u8", Bi("+", K8(3), K8(1))); M = Cr("M", 0x10, "u64")
    o.append(Prog("ex_const", Cn("N", u8, Bi("+", K8(3), K8(1))), Cn("M", u64, I(16, "u64", hexa=True)), Ty("S", C([Fd("a", u8), Fd("v", Arr(u8, M)), Fd("x", u8, cond=gt(a, N)), Fd("y", u8, cond=gt(Bi("*", N, K8(3)), a)), Fd("z", Arr(u8, Ca(N, "u64"))), Fd("t", u8, calc=Bi("+", N, a))]))))
    return o

def P21():
    o = []
    B = dict(asy=True)
    a = V("a", u8); k = V("k", u8)
    o.append(Prog("as_mix", E8, B8, Ty("P", C([Fd("x", u8), Fd("y", u16)])), Ty("S", C([Fd("a", u8), Fd("e", Ref("E8")), Fd("f", Ref("B8")), Fd("t", Arr(u32, c64(a)), cond=Mem(V("f", B8), B8, "a")), Fd("g", C([Fd("q", u8), Fd("w", le("i64"))]), cond=gt(a, K8(3))), Fd("p", Arr(Ref("P"), n64(2))), Fd("vi", Fo("v32")), Fd("s", Fo("utf8")), Fd("r", Arr(Ref("P")))])), **B))
    o.append(Prog("as_len", Ty("S", C([Fd("l", u16, calc=Ca(Call("blen", V("b", None)), "u16")), Fd("n", u8), Fd("b", C([Fd("p", u8), Fd("q", Arr(u8))], n=c64(V("l", u16)))), Pad(Call("pad", I(4, "u64"), c64(V("n", u8)))), Fd("z", Arr(u8, term=b"ab")), Fd("y", u8)])), **B))
    o.append(Prog("as_tag", Ty("T", C([Fd("A", u8, cond=eq(k, K8(1))), Fd("B", C([Fd("x", u8), Fd("y", Arr(u16, c64(V("x", u8))))]), cond=gt(k, K8(3)))], tagged=True), args=[("k", u8, None)]), Ty("S", C([Fd("a", u8), Fd("t", Ref("T", [a])), Fd("u", Fo("utf16", [c64(a)])), Fd("w", Fo("utf8", [c64(a)])), Fd("v", Arr(Fo("v64"), c64(a)))])), **B))
    o.append(Prog("as_tf", Ty("S", C([Fd("a", u8), Fd("b", Arr(u8, n64(2)), tf=[Tf("xfa"), Tf("xfb")]), Fd("d", C([Fd("x", u8), Fd("y", u16)]), tf=[Tf("xfk", [a])]), Fd("t", u8)])), **B))
    o.append(Prog("as_sc", Ty("S", C([Fd("f" + t, Sc(t)) for t in ALLI] + [Fd("l" + t, le(t)) for t in ALLI[2:]] + [Fd("x", F32), Fd("y", F64), Fd("z", Bo())])), Ty("T", u16), Ty("U", Arr(le("u32"))), **B))
    want = {"P02": "en_arr", "P03": "bf_sign", "P05": "cd_opt cf_arg", "P06": "ar_var ar_term", "P07": "ll_opt ll_cond ll_deep", "P08": "ca_var ca_pend2 ca_arr", "P09": "te_over te_xf te_cond", "P12": "tf_top tf_len", "P13": "ta_opt", "P14": "pd_var fn_use"}
    for q, ns in want.items():
        for p in BY[q]():
            if p.name in ns.split(): p.name, p.asy = "as_" + p.name, True; o.append(p)
    return o
def P16():
    a = V("a", u8); n = V("n", u8); K = Cr("K", 7, "u8"); N = Cr("N", 9, "u8", Bi("+", K, K8(2)))
    def mk(name, plan, parts, *ds, **k):
        p = Prog(name, *ds, **k); p.parts = parts; p.plan = plan; return p
    P_ = Ty("P", C([Fd("x", u8), Fd("y", Ref("E8"))])); T_ = Ty("T", C([Fd("v", Arr(Ref("P"), c64(n))), Fd("w", u16, cond=gt(n, K))]), args=[("n", u8, None)])
    G_ = Ty("G", C([Fd("A", Ref("P"), cond=eq(n, K8(1))), Fd("D", C([Fd("x", u8), Fd("f", Ref("B8"))]), cond=gt(n, N)), Fd("Z", u8)], tagged=True), args=[("n", u8, None)])
    S1 = Ty("S", C([Fd("a", u8), Fd("p", Ref("P"), cond=gt(a, K)), Fd("e", Arr(Ref("E8"), n64(2))), Fd("b", Ref("B8"))]))
    S2 = Ty("S", C([Fd("a", u8), Fd("t", Ref("T", [a])), Fd("g", Ref("G", [Bi("+", a, K)])), Fd("u", u8, calc=Bi("*", N, a))]))
    R_ = Ty("L", C([Fd("a", u8), Fd("n", Arr(u8, c64(K)), cond=gt(a, K))]))
    F_ = Ty("F", C([Fd("s", Fo("utf8", [n64(2)])), Fd("v", Fo("v32")), Fd("b", Arr(u8, n64(3)), tf=[Tf("xfk", [K])])]))
    S4 = Ty("S", C([Fd("f", Ref("F")), Fd("l", Ref("L")), Fd("v", Fo("v32")), Fd("q", u16, tf=[Tf("xfk", [K8(3)])])]))
    kc, nc = Cn("K", u8, K8(7)), Cn("N", u8, Bi("+", K, K8(2))); o = []
    for i in range(3):
        o.append(mk(f"im_one{i}", .1 + i / 7, [["K", "E8", "B8", "P"], ["S"]], kc, E8, B8, P_, S1))
        o.append(mk(f"im_chain{i}", .2 + i / 7, [["K", "N"], ["E8", "P", "B8"], ["T", "G"], ["S"]], kc, nc, E8, P_, B8, T_, G_, S2))
        o.append(mk(f"im_two{i}", .3 + i / 7, [["K"], ["E8", "P"], ["B8"], ["N", "T", "G", "S"]], kc, nc, E8, P_, B8, T_, G_, S2))
        o.append(mk(f"im_ffi{i}", .4 + i / 7, [["K", "F"], ["L"], ["S"]], kc, F_, R_, S4))
    return o
def P17():
    """programs of the other properties, their decoders also shown to come to an end, and what a hostile input can reach"""
    want = {"P02": "en_arr en_cast", "P03": "bf_arr", "P05": "cf_types cd_opt", "P06": "ar_var ar_len ar_rest ar_ref ar_term ar_bool ar_2d ar_arg", "P07": "ll_opt li_enum ll_nest ll_wide ll_deep ll_str", "P08": "ca_blen3 ca_arr", "P09": "te_def te_arr te_over te_xf", "P10": "vi_use", "P11": "st_use", "P12": "tf_chain tf_len tf_top", "P13": "ta_deep", "P14": "pd_in pd_data pd_var", "P15": "ex_divd ex_divs ex_cidx", "P21": "as_mix as_tag as_len"}
    o = [p for k, ns in want.items() for p in BY[k]() if p.name in ns.split()]
    n, m, i = V("n", u64), V("m", u64), V("i", u64); A = Arr(u16)
    o.append(Prog("ho_len", E8, Ty("P", C([Fd("k", u16), Fd("s", Fo("utf8"))])), Ty("S", C([Fd("n", u64), Fd("a", Arr(u128, n)), Fd("m", u64), Fd("b", Arr(Ref("P"), m)), Fd("i", u64), Fd("c", Arr(Ref("E8"), i)), Fd("d", Arr(Arr(u32, Bi("*", n, m)), i)), Fd("e", Arr(Bo(), Bi("-", n, I(1, "u64")))), Fd("u", Fo("utf8", [Bi("+", m, I(1, "u64"))])), Fd("w", Fo("utf16", [Bi("*", i, I(2, "u64"))]))]))))
    o.append(Prog("ho_idx", Ty("S", C([Fd("n", u64), Fd("a", Arr(u16, n)), Fd("i", u64), Fd("x", u8, cond=gt(Ix(V("a", A), i, "u16"), I(9, "u16"))), Fd("y", u8, cond=gt(Ix(V("a", A), Bi("-", i, I(1, "u64")), "u16"), Ix(V("a", A), Bi("/", i, n), "u16"))), Fd("z", Arr(u16, Ca(Ix(V("a", A), Bi("%", i, n), "u16"), "u64")))]))))
    o.append(Prog("ho_pad", Ty("S", C([Fd("n", u64), Pad(n), Fd("m", u64), Pad(Call("pad", m, n)), Fd("i", u64), Fd("g", C([Fd("a", u8), Pad(Bi("-", m, i)), Fd("r", Arr(u16))], n=i)), Fd("t", u8)]))))
    o.append(Prog("ho_lim", Ty("T", C([Fd("A", C([Fd("x", Arr(u16)), ], n=V("l", u64)), cond=gt(V("k", u64), I(3, "u64"))), Fd("D", Arr(Fo("v32"), V("k", u64))), ], tagged=True, n=V("k", u64)), args=[("k", u64, None), ("l", u64, None)]), Ty("S", C([Fd("n", u64), Fd("m", u64), Fd("t", Arr(Ref("T", [n, m]), n64(2))), Fd("g", C([Fd("h", C([Fd("v", Arr(u32))], n=Bi("*", m, I(4, "u64")))), Fd("q", Fo("utf8"))], n=n)), Fd("z", Arr(Fo("v64")))]))))
    return o
# specifications whose imports have no meaning: they are rejected with an error
BAD = {"P16": [("import of a file that does not exist", 'import T from "b";\ntype S = container { t: T };', {"a": "type T = u8;"}),
    ("import of a name that the file does not have", 'import T from "a";\ntype S = container { t: T };', {"a": "type U = u8;"}),
    ("import of a name that the file does not have, with an alias it has", 'import T as U from "a";\ntype S = container { t: U };', {"a": "type U = u8;"}),
    ("use of a name that was not imported", 'import U from "a";\ntype S = container { t: T };', {"a": "type U = u8;\ntype T = u8;"}),
    ("use of a name under which a type was not imported", 'import T as U from "a";\ntype S = container { t: T };', {"a": "type T = container { x: u8 };"}),
    ("use of a constant that was not imported", 'import U from "a";\ntype S = container { t: u8 = K };', {"a": "type U = u8;\nconst K: u8 = 1;"}),
    ("file that imports itself", 'import T from "a";\ntype S = container { t: T };', {"a": 'import T from "a";'}),
    ("files that import each other", 'import T from "a";\ntype S = container { t: T };', {"a": 'import U from "b";\ntype T = container { u: U };', "b": 'import T from "./a";\ntype U = u8;'}),
    ("imported file that does not parse", 'import T from "a";\ntype S = container { t: T };', {"a": "type T = = u8;"}),
    ("imported file with an unknown type", 'import T from "a";\ntype S = container { t: T };', {"a": "type T = container { x: Q };\n"}),
    ("declaration of an imported name", 'import T from "a";\ntype T = u8;\ntype S = container { t: T };', {"a": "type T = u8;"})]}
BY = {k: v for k, v in globals().items() if k[0] == "P" and k[1:].isdigit()}
