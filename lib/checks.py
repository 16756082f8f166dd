"""The checks, one per property."""
import os
import vf

CHECKS = {}
PREBUILD = [("drv_ff", "opt"), ("drv_u72", "opt"), ("drv_u72", "i128"), ("drv_ntt", "opt"), ("drv_fft", "opt"),
            ("drv_codec", "opt"), ("drv_codec", "asan"), ("drv_hash", "opt"), ("drv_sampler", "opt"), ("drv_ntru", "opt"),
            ("drv_sign", "opt"), ("drv_tree", "opt"), ("drv_keygen", "opt"),
            ("drv_verify", "opt"), ("drv_verify", "asan"), ("drv_fresh", "opt"), ("drv_hex", "opt"), ("drv_hex", "asan"),
            ("drv_iso", "opt"), ("drv_iso", "yield"), ("drv_iso", "tsan")]


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


@check("C08")
def c08(c):
    full = {"FULL": 1 if c.thorough else 0}
    c.validate("T_FF", c.record("drv_ff", ["--pow", c.pick(97, 1500)]), env=full)
    for fn in ("add", "sub", "mul", "div", "addto", "multo", "cmp"):
        t = c.record("drv_ff", ["--fn", fn, "--dir", c.dir])
        c.validate("T_FF", t, env=full, sample=False)
        f = os.path.join(c.dir, fn + ".bin")
        if os.path.exists(f):
            os.unlink(f)
    c.notes["pairs_per_binary_operation"] = 12289 * 12289


@check("C15")
def c15(c):
    for variant in ("opt", "i128"):
        c.validate("T_U72", c.record("drv_u72", ["--n", c.pick(20000, 300000)], variant=variant))


@check("C09")
def c09(c):
    for lg in (9, 10):
        c.validate("T_NTT", c.record("drv_ntt", ["--lg", lg, "--n", c.pick(96, 1000), "--step", c.pick(1 if lg == 9 else 3, 1)]))


@check("C10")
def c10(c):
    c.model("MC_Fx")
    for k in range(c.pick(1, 6)):
        c.seed += 1000 * k
        c.validate("T_FFT", c.record("drv_fft", ["--k", c.pick(1, 3)]))


def scenarios(c, module):
    out = os.path.join(c.dir, module + ".scen")
    c.model(module, env={"OUT": out})
    return out


@check("C04")
def c04(c):
    c.model("MC_Codec", "MC_Codec_fld")
    for v in ("opt", "asan"):
        c.validate("T_Codec", c.record("drv_codec", ["--what", "pk", "--k", c.pick(1, 8)], variant=v))


@check("C05")
def c05(c):
    c.model("MC_Codec", "MC_Codec_fld")
    for v in ("opt", "asan"):
        c.validate("T_Codec", c.record("drv_codec", ["--what", "sk", "--k", c.pick(1, 8)], variant=v))
    t = c.records(*[("drv_sign", ["--lg", lg, "--what", "sksign", "--k", c.pick(2, 16), "--skip", c.seed % 16]) for lg in (9, 10)])
    c.validate("T_Codec", c.merge(t))


@check("C06")
def c06(c):
    for m in c.pick(("MC_Codec",), ("MC_Codec", "MC_Codec_3", "MC_Codec_big")):
        c.model("MC_Codec", m)
    scen = scenarios(c, "GenSig")
    for v in ("opt", "asan"):
        c.validate("T_Codec", c.record("drv_codec", ["--what", "sig", "--k", c.pick(1, 10), "--scen", scen], variant=v))


@check("C07")
def c07(c):
    c.model("MC_Hash")
    c.validate("T_Hash", c.record("drv_hash", ["--k", c.pick(1, 20)]))


@check("C11")
def c11(c):
    c.design_of("MC_Sampler", c.pick("MC_Sampler", "MC_Sampler_big"), faults=("table", "sign", "ccs"))
    c.validate("T_Sampler", c.record("drv_sampler", ["--k", c.pick(1, 10)]))


@check("C13")
def c13(c):
    c.model("MC_Solver")
    c.model("MC_Solver", "MC_Solver_4")
    c.validate("T_NTRU", c.record("drv_ntru", ["--k", c.pick(1, 6)]))
    c.validate("T_NTRU", c.record("drv_ntru", ["--big", c.pick(1, 6)]))


def sign(c, *jobs):
    """jobs: (lg, what, k, skip[, args])"""
    t = c.records(*[("drv_sign", ["--lg", lg, "--what", what, "--k", k, "--skip", skip, *map(str, more)]) for lg, what, k, skip, *more in jobs])
    c.validate("T_Sign", c.merge(t))


def keygen(c, *jobs):
    """jobs: (lg, runs, nth)"""
    t = c.records(*[("drv_keygen", ["--lg", lg, "--runs", runs, "--nth", nth]) for lg, runs, nth in jobs])
    c.validate("T_Keygen", c.merge(t))


SIGN_ACTIONS = ("DrawGood", "DrawLong", "DrawNofit", "Emit")
KEYGEN_ACTIONS = ("RejRange", "RejInv", "RejGs", "NoSol", "RejF", "Emit")


@check("C01")
def c01(c):
    c.design_of("MC_SignLoop", must_take=SIGN_ACTIONS, faults=c.pick(("norm", "fit", "salt"), ("norm", "fit", "salt", "late")))
    for k in range(c.pick(1, 12)):
        c.seed += 1000 * k
        sign(c, (9, "session", 4, 4 * k), (10, "session", 2, 2 * k), (9, "e2e", 2, 0), (10, "e2e", 1, 0), (9, "retries", 1, k), (9, "edges", 6, 5 * k), (10, "edges", 2, 2 * k))


@check("C12")
def c12(c):
    for m in c.pick(("MC_Lattice",), ("MC_Lattice", "MC_Lattice_16", "MC_Lattice_32")):
        c.model("MC_Lattice", m)
    for k in range(c.pick(1, 5)):
        c.seed += 1000 * k
        c.validate("T_Tree", c.record("drv_tree", ["--k", c.pick(1, 3)]))
        sign(c, (9, "pair", 4, 4 + 4 * k), (10, "pair", 2, 2 + 2 * k), (9, "skew", 1, k % 2), (9, "small", 1, k))


@check("C17")
def c17(c):
    for k in range(c.pick(1, 10)):
        c.seed += 1000 * k
        sign(c, (9, "pair", 6, 8 + 6 * k), (10, "pair", 3, 4 + 3 * k), (9, "low", 1, k), (10, "low", 1, k), (9, "skew", 2, 0), (9, "wide", c.pick(2, 4), 2 * k), (10, "wide", 1, k), (9, "small", 4, 0), (10, "small", 2, 0))


@check("C02")
def c02(c):
    c.model("MC_Verify", c.pick("MC_Verify", "MC_Verify_5"))
    for k in range(c.pick(1, 10)):
        c.seed += 1000 * k
        for v in ("opt", "asan")[:c.pick(2, 1 + (k < 3))]:
            c.validate("T_Verify", c.merge(c.records(*[("drv_verify", ["--lg", lg, "--k", 2], v) for lg in (9, 10)])))


@check("C14")
def c14(c):
    c.model("MC_Fresh", c.pick("MC_Fresh", "MC_Fresh_4"))
    for f in ("salt", "copy", "seed"):
        c.refute("MC_Fresh", FAULT=f)
    for k in range(c.pick(1, 8)):
        c.seed += 1000 * k
        for t in c.records(*[("drv_fresh", ["--lg", lg, "--k", c.pick(1, 3), "--mib", 5000 if c.thorough and not k else 200]) for lg in (9, 10)]):
            c.validate("T_Fresh", t)


@check("C16")
def c16(c):
    c.build(*[("drv_iso", v) for v in ("yield", "tsan", "opt")])
    c.model("MC_Iso", c.pick("MC_Iso", "MC_Iso_3"))
    for f in ("static", "cache", "input", "next"):
        c.refute("MC_Iso", FAULT=f)
    scen = scenarios(c, "GenIso")
    for k in range(c.pick(1, 10)):
        c.seed += 1000 * k
        for v, what in (("yield", "schedules"), ("tsan", "free"), ("yield", "keygen"), ("opt", "sequences")):
            n = c.pick(1, 1 if what == "sequences" else 3)
            for t in c.records(*[("drv_iso", ["--lg", lg, "--what", what, "--scen", scen, "--k", n], v)
                                 for lg in (9, 10) if c.thorough or lg == 9 or what != "keygen"]):
                c.validate("T_Iso", t)


@check("C03")
def c03(c):
    c.design_of("MC_KeygenLoop", must_take=KEYGEN_ACTIONS, faults=("range", "inv", "gs", "nosol", "F"))
    for k in range(c.pick(1, 8)):
        c.seed += 1000 * k
        o = 6 * k
        keygen(c, (9, "pv0,xvPL,e", o), (9, "a,n,w", o + 1), (9, "1eL,XL,2vv0", o + 2), (9, "pxX,8w", o + 4),
               (10, "xv0", o + 3), (10, "p0L", o + 4), (10, "n", o + 5), (10, "vX", o), (10, "1P", o + 1))


@check("C18")
def c18(c):
    c.designs(("MC_SignLoop", "MC_SignLoop_live", (), ()),
              ("MC_SignLoop", None, SIGN_ACTIONS, c.pick(("late",), ("norm", "fit", "salt", "late"))),
              ("MC_KeygenLoop", None, KEYGEN_ACTIONS, c.pick(("late",), ("range", "inv", "gs", "nosol", "F", "late"))))
    for k in range(c.pick(1, 8)):
        c.seed += 1000 * k
        o = 4 * k
        keygen(c, (9, "1v0,2340,590", o), (9, "60,7ewL,ppX,1a", o + 1), (10, "138P", o + 2), (10, "460L", o + 3), (9, "950,xvvP", o + 3), (10, "pve", o),
               (9, "1*700.0", o + 4), (9, "4*600.3*200.0L", o + 5), (10, "5*150.2*400.0", o + 6))
        sign(c, (9, "retries", c.pick(3, 6), 3 * k), (10, "retries", c.pick(1, 2), k), (9, "edges", 18, 0), (10, "edges", 8, 0))


@check("C19")
def c19(c):
    c.designs(("MC_Hex", None, ("Write", "Read"), ("strip", "swap")))
    for v in ("opt", "asan"):
        c.validate("T_Hex", c.record("drv_hex", ["--k", c.pick(1, 40)], variant=v))


if __name__ == "__main__":
    vf.main(CHECKS)
