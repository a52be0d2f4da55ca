"""What decides each property: Kani harness modules and Verus units."""
TRUSTED = ["Kani 0.68 / CBMC 6.11 and the Rust MIR semantics it implements (64-bit little-endian host, dev profile with overflow checks)",
           "rustc, core/alloc as compiled by Kani's nightly toolchain", "the adapter functions and ghost specifications in /verif"]
S = lambda m: ("shadow", m)
C = lambda m: ("client", m)
K = lambda m: ("kani", m)
G = lambda m: ("program", m)
PROPS = {
 "L01": dict(kani=[K("l01")], level="proof"),
 "L02": dict(kani=[K("l02")], verus=["l02"], level="proof"),
 "L03": dict(kani=[K("l03")], level="proof"),
 "L04": dict(kani=[K("l04")], verus=["l04"], level="proof"),
 "L05": dict(kani=[K("l05")], level="proof"),
 "L06": dict(kani=[K("l06")], level="proof"),
 "L07": dict(kani=[K("l07")], level="model_checking"),
 "L08": dict(kani=[K("l08")], level="proof"),
 "L09": dict(kani=[K("l09")], level="proof"),
 "L10": dict(kani=[K("l10")], level="proof"),
 "A01": dict(kani=[S("a01")], level="proof"),
 "A02": dict(kani=[S("a02")], level="proof"),
 "A03": dict(kani=[S("a03")], level="proof"),
 "A04": dict(kani=[S("a04")], level="proof"),
 "A05": dict(kani=[S("a05")], level="proof"),
 "A06": dict(kani=[S("a06")], level="proof"),
 "A07": dict(kani=[S("a07")], level="proof"),
 "A08": dict(kani=[S("a08")], level="proof"),
 "A09": dict(kani=[S("a09")], level="proof"),
 "R01": dict(kani=[K("r01")], verus=["r01"], level="proof"),
 "R02": dict(kani=[K("r02")], verus=["r02"], level="proof"),
 "R03": dict(kani=[K("r03")], verus=["r03"], level="proof"),
 "R04": dict(kani=[K("r04")], verus=["r04"], level="proof"),
 "R05": dict(kani=[K("r05")], verus=["r05"], level="proof"),
 "R06": dict(kani=[K("r06")], verus=["r06"], level="proof"),
 "R07": dict(kani=[K("r07")], verus=["r07"], level="proof"),
 "R08": dict(kani=[K("r08")], level="proof"),
 "I01": dict(kani=[K("i01")], verus=["i01"], level="proof"),
 "I02": dict(kani=[K("i02")], verus=["i01"], level="proof"),
 "I03": dict(kani=[K("i03")], verus=["i01"], level="proof"),
 "I04": dict(kani=[C("i04")], verus=["i04"], level="proof"),
 "P01": dict(kani=[G("p01")], verus=["p01"], level="proof"),
 "P03": dict(kani=[G("p03")], level="model_checking"),
 "P04": dict(kani=[G("p04")], level="model_checking"),
 "P05": dict(kani=[G("p05")], level="model_checking"),
 "P06": dict(kani=[G("p06")], level="model_checking"),
 "S01": dict(kani=[K("s01")], level="proof"),
 "X01": dict(kani=[K("x01"), S("x01s")], level="proof"),
}
NOT_APPLICABLE = {}
