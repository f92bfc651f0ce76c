# Which explorations decide which property.  A job = one harness build (+ run arguments).
INS, INS2, HINT, ERASE, REPL, MOD, MODK, NODE, SEQINS, SEQREM, SEQARR, SPLI, RNDCAP, HPOL, CLR, MERGE, SPLX, WHOLE, RANGE, MLF = (1 << i for i in range(20))
GROW = INS | INS2 | HINT | SEQINS
SEQ = SEQINS | SEQREM | SEQARR | SPLI
ONE = INS | SEQINS | ERASE            # minimal generators: enough to reach every small state

COMMON_ASSUMPTIONS = [
    "g++ 13, x86-64, C++17; user-supplied comparisons, hashes and equalities are consistent (strict weak orders / equivalences)",
    "bounds are the number of elements, the value alphabet and the operation set of each job; nothing beyond them is claimed",
    "the reference model (harness/model.hpp, engine_expect.inc) transcribes the reference documentation",
]
SAN = "address,undefined"


def core(name, cfg, fam, args, targs=None, san=None, defs=(), flags=(), opt="-O1", n=None, **kw):
    d = ["VCFG=" + cfg, "VERIF_FAM=%du" % fam] + list(defs)
    if n:
        d.append("VERIF_MAXN=%d" % n)
    a = args.split()
    return dict(name=name, src=["core.cpp"], defs=d, args=a + ["--max-s=200"], targs=(targs.split() if targs else a) + ["--max-s=3000"], san=san, flags=list(flags), opt=opt, **kw)


UA = ["VUNEQ=1", "VMIX=1"]

PROPS = {}
NOTE_MC = ("Explores every operation sequence over the job's alphabet to a fixpoint of canonical container states (up to the size bound) on the real code; "
           "after each transition the whole container is compared with an array model through every index, iterator and observer, and deep-checked by further operations. "
           "Trusts the model's transcription of the documentation, g++ and the bounds listed in the evidence; sanitizer builds of some jobs catch stray memory accesses.")
NOTE_FE = ("For every transition of the explicit state space, re-executes it once per user operation or allocation it performs with an exception thrown there (and chains of two faults where listed); "
           "checks the documented guarantee, that all indices agree, and that nothing leaks. Trusts the model's reading of the documented guarantees; bounds are in the evidence.")


def prop(pid, level, technique, note, jobs, assumptions=(), **kw):
    note = note or NOTE_MC
    PROPS[pid] = dict(level=level, technique=technique, note=note, jobs=jobs, assumptions=list(assumptions), **kw)


def jobs(pid, tier):
    return PROPS[pid]["jobs"](tier)


MC_T = "explicit-state model checking: BFS to fixpoint over the real container, every transition compared with an array model"
FE_T = "exhaustive fault injection at every user operation of every transition of the explicit state space (real code)"


def q(tier, a, b):
    return a if tier == "quick" else b


# --------------------------------------------------------------------------------------------------
def c01(t):
    f = INS | INS2 | HINT | SEQINS | RANGE | ERASE | CLR
    n = q(t, 4, 5)
    return [
        core("uuu", "UUU", f, "--nmax=%d" % n), core("mix", "MIX", f, "--nmax=%d" % q(t, 2, 3)), core("rks", "RKS", f, "--nmax=%d" % n),
        core("aho", "AHO", f, "--nmax=%d" % n), core("oo", "OO", f, "--nmax=%d" % n), core("hh", "HH", f, "--nmax=%d" % n),
        core("sro", "SRO", f, "--nmax=%d" % q(t, 3, 5)), core("ruh", "RUH", f, "--nmax=%d" % n), core("rr", "RR", f, "--nmax=%d" % n),
        core("ux", "UX", f, "--nmax=%d" % q(t, 3, 4)), core("hok", "HOK", INS | HINT | ERASE, "--nmax=4"), core("mx5", "MX5", f, "--nmax=%d" % q(t, 3, 4)), core("hok-all", "HOK", f, "--nmax=%d" % q(t, 2, 4)),
        core("uuu-asan", "UUU", f, "--nmax=2", san=SAN), core("mix-asan", "MIX", f, "--nmax=2", san=SAN),
    ] + [core(c.lower() + "-nh", c, ONE | HINT | NODE, "--nmax=%d" % (n + q(t, 0, 1))) for c, n in [("OO", 3), ("HH", 3), ("UUU", 3), ("MIX", 2), ("AHO", 3), ("SRO", 3), ("RUH", 3)]] + ranges(0) + ints(0)


prop("C01", "model_checking", MC_T, "", c01)


def c02(t):
    f = INS | INS2 | HINT | ERASE | REPL | MOD | MODK | CLR
    return [
        core("shape-nu", "OS", INS | HINT | ERASE, "--nmax=%d" % q(t, 16, 18), n=20), core("shape-u", "O8", INS | HINT | ERASE, "--nmax=8"),
        core("shape-asan", "OS", INS | HINT | ERASE, "--nmax=11", san=SAN, n=20),
        core("o1", "O1", f, "--nmax=%d" % q(t, 7, 8)), core("ou1", "OU1", f, "--nmax=4"), core("oo", "OO", f, "--nmax=%d" % q(t, 4, 5)),
        core("o1-desc", "O1", f | MERGE | WHOLE, "--nmax=2 --nmax2=%d --two" % q(t, 4, 5), defs=["VMIX=1"]),
        core("o1-wide", "O1", f, "--nmax=%d" % q(t, 6, 7), defs=["BOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES"]),
    ] + large(2)


prop("C02", "model_checking", MC_T, "", c02)


def c03(t):
    f = INS | INS2 | HINT | ERASE | REPL | MOD | MODK | CLR
    return [
        core("shape-nu", "KS", INS | HINT | ERASE, "--nmax=%d" % q(t, 16, 18), n=20), core("shape-u", "K8", INS | HINT | ERASE | MODK, "--nmax=%d" % 8),
        core("shape-asan", "KS", INS | HINT | ERASE, "--nmax=10", san=SAN, n=20),
        core("k1", "K1", f | NODE, "--nmax=%d" % q(t, 7, 8)), core("ku1", "KU1", f, "--nmax=4"), core("rr", "RR", f, "--nmax=%d" % q(t, 4, 5)),
        core("k1-two", "K1", f | MERGE | WHOLE, "--nmax=%d --two" % q(t, 3, 4), defs=["VMIX=1"]),
        core("rks", "RKS", f | SEQINS, "--nmax=%d" % q(t, 3, 4)),
        core("k1-fault", "K1", INS | HINT | ERASE | REPL | MOD | MODK, "--nmax=%d --faults" % q(t, 4, 5)),
    ] + large(3)


prop("C03", "model_checking", MC_T, "", c03)


def c04(t):
    f = INS | INS2 | HINT | ERASE | REPL | MOD | MODK | CLR
    return [
        core("h1", "H1", INS | ERASE, "--nmax=%d" % q(t, 7, 9)), core("h1-asan", "H1", INS | ERASE, "--nmax=5", san=SAN), core("h1-pol", "H1", INS | ERASE | HPOL, "--nmax=%d" % q(t, 4, 5)),
        core("h1-all", "H1", f, "--nmax=%d" % q(t, 5, 6)), core("hu1", "HU1", f | HPOL, "--nmax=4"), core("hh", "HH", f, "--nmax=%d" % q(t, 3, 4)), core("hh-pol", "HH", INS | ERASE | HPOL | MOD, "--nmax=2"),
        core("h1-whole", "H1", INS | ERASE | WHOLE | CLR, "--nmax=%d --nmax2=%d --two" % (q(t, 3, 4), q(t, 3, 4))), core("hu1-whole", "HU1", INS | ERASE | WHOLE | CLR, "--nmax=%d --two" % q(t, 3, 4)),
        core("h1-fault", "H1", INS | ERASE | REPL | MOD | HPOL, "--nmax=%d --faults" % q(t, 2, 3)),
        mini("buckets", "buckets.cpp", "--b0=30000 --b1=200", "--b0=200000 --b1=2000"), mini("buckets-asan", "buckets.cpp", "--b0=200 --b1=5", san=SAN),
    ] + large(4)


prop("C04", "model_checking", MC_T, "", c04)


def c05(t):
    return [
        core("s1", "S1", SEQ | RANGE | CLR, "--nmax=%d" % q(t, 5, 6)), core("s1-asan", "S1", SEQ | RANGE | CLR, "--nmax=3", san=SAN), core("su", "SU", SEQ | RANGE | CLR | INS | HINT | REPL | MOD, "--nmax=%d" % q(t, 3, 5)),
        core("s1-sort", "S2", SEQINS | SEQARR, "--nmax=%d" % q(t, 9, 10)), core("hs", "HS", SEQ | ERASE | INS, "--nmax=%d" % q(t, 4, 5)), core("sro", "SRO", SEQ | ERASE | INS, "--nmax=%d" % q(t, 4, 5)),
        core("s1-two", "S1", SEQINS | SPLX | SEQREM, "--nmax=3 --nmax2=%d --two" % q(t, 3, 4)),
    ] + ints(1) + arr(1) + large(5)


prop("C05", "model_checking", MC_T, "", c05)


def c06(t):
    return [
        core("a1", "A1", SEQ | RANGE | CLR, "--nmax=%d" % q(t, 5, 6)), core("a1-asan", "A1", SEQ | RANGE | CLR | RNDCAP, "--nmax=2", san=SAN), core("ruh", "RUH", SEQ | RANGE | CLR | INS | HINT | REPL | MOD, "--nmax=%d" % q(t, 3, 5)),
        core("a1-cap", "AS", SEQINS | ERASE | RNDCAP | CLR, "--nmax=%d" % q(t, 38, 58), n=60), core("a1-sort", "A2", SEQINS | SEQARR | ERASE, "--nmax=%d" % q(t, 8, 9)), core("sro", "SRO", SEQ | ERASE | INS, "--nmax=%d" % q(t, 4, 5)),
        core("a1-capfull", "A1", SEQ | RNDCAP | CLR, "--nmax=%d" % q(t, 3, 4)), core("a1-two", "A1", SEQINS | SPLX | SEQREM, "--nmax=3 --nmax2=%d --two" % q(t, 4, 5)),
        core("a1-swapcap", "AS", SEQINS | RNDCAP | WHOLE | CLR, "--nmax=3 --nmax2=%d --two" % q(t, 3, 4)), core("ar-cap", "SR", SEQINS | RNDCAP | CLR, "--nmax=%d" % q(t, 3, 4)),
        core("a1-fault", "A1", SEQ | RNDCAP | RANGE, "--nmax=%d --faults" % q(t, 3, 4)),
    ] + ints(2) + arr(2) + large(6)


prop("C06", "model_checking", MC_T, "", c06)


def c07(t):
    f = ONE | REPL | MOD | MODK
    return [
        core("oo", "OO", f, "--nmax=%d" % q(t, 4, 5)), core("hh", "HH", f, "--nmax=%d" % q(t, 4, 5)), core("uuu", "UUU", f, "--nmax=%d" % q(t, 3, 4)), core("mix", "MIX", f, "--nmax=%d" % q(t, 3, 4)),
        core("rr", "RR", f, "--nmax=%d" % q(t, 4, 5)), core("aho", "AHO", f, "--nmax=3"), core("rks", "RKS", f, "--nmax=%d" % q(t, 3, 4)), core("o1", "O1", f, "--nmax=%d" % q(t, 6, 8)), core("h1", "H1", f, "--nmax=%d" % q(t, 5, 6)),
        core("uuu-asan", "UUU", f, "--nmax=2", san=SAN), core("mix-asan", "MIX", f, "--nmax=2", san=SAN),
    ]


prop("C07", "model_checking", MC_T, "", c07)


def c08(t):
    f = INS | INS2 | HINT | SEQINS | NODE | ERASE
    return [core(c.lower(), c, f, "--nmax=%d --faults" % (n + q(t, 0, 1))) for c, n in [("OO", 2), ("HH", 2), ("UUU", 2), ("MIX", 2), ("RKS", 2), ("AHO", 2), ("SRO", 3), ("RUH", 3), ("RR", 2)]] + [
        core("shape", "OS", INS | HINT | ERASE, "--nmax=%d --faults" % q(t, 8, 10), n=20), core("h1", "H1", INS | ERASE | HPOL, "--nmax=%d --faults" % q(t, 3, 4)), core("a1", "AS", SEQINS | ERASE | RNDCAP, "--nmax=%d --faults" % q(t, 17, 26), n=40),
        core("uuu-asan", "UUU", f, "--nmax=1 --faults", san=SAN), core("mix-asan", "MIX", f, "--nmax=1 --faults", san=SAN)] + xfer(t, 2, 1)


prop("C08", "fault_enumeration", FE_T, NOTE_FE, c08)


def c09(t):
    f = ONE | REPL | MOD | MODK
    return [core(c.lower(), c, f, "--nmax=%d --faults --faultchain" % (n + q(t, 0, 1))) for c, n in [("OO", 3), ("HH", 2), ("UUU", q(t, 1, 2)), ("MIX", 2), ("RKS", 2), ("AHO", 2), ("SRO", 3), ("RUH", 3), ("RR", 3), ("O1", 4), ("H1", 4)]] + [
        core("uuu-asan", "UUU", f, "--nmax=%d --faults" % q(t, 1, 2), san=SAN), core("mix-asan", "MIX", f, "--nmax=%d --faults" % q(t, 1, 2), san=SAN)]


prop("C09", "fault_enumeration", FE_T, NOTE_FE, c09)


def c10(t):
    l = [core(c.lower(), c, RANGE | SEQ | ERASE | RNDCAP | HPOL | CLR | INS, "--nmax=%d --faults --faultchain" % (n + q(t, 0, 1))) for c, n in [("S1", 3), ("A1", 2), ("HS", 2), ("SRO", 2), ("RUH", 2), ("OO", 2), ("H1", 2), ("K1", 3), ("AHO", 1)]]
    l += [core(c.lower() + "-two", c, ONE | MERGE | SPLX, "--nmax=%d --two --faults" % n) for c, n in [("O1", 3), ("H1", q(t, 2, 3)), ("S1", 3), ("A1", q(t, 2, 3)), ("SU", 2), ("RUH", q(t, 1, 2)), ("SRO", q(t, 1, 2)), ("OO", q(t, 1, 2))]]
    l += [core(c.lower() + "-whole", c, ONE | WHOLE, "--nmax=%d --two --faults" % n) for c, n in [("O1", 2), ("H1", q(t, 2, 3)), ("S1", 3), ("A1", 2), ("RUH", q(t, 1, 2)), ("RKS", 1)]]
    l += [core(c.lower() + "-ueq", c, ONE | SPLX | WHOLE, "--nmax=%d --two --faults" % n, defs=UA) for c, n in [("S1", 2), ("A1", 2), ("HU1", q(t, 1, 2)), ("SRO", 1)]]
    l += [core("h1-rehash", "H1", INS | HPOL, "--nmax=%d --faults" % q(t, 4, 5))]
    l += [core("sro-asan", "SRO", RANGE | SEQ | ERASE, "--nmax=2 --faults", san=SAN), core("sro2-asan", "SRO", ONE | SPLX | WHOLE, "--nmax=1 --two --faults", san=SAN)]
    l += xfer(t, 1, 1) + ranges(1)
    return l


prop("C10", "fault_enumeration", FE_T, NOTE_FE, c10)


def c11(t):
    f = ONE | NODE | HINT | CLR
    return [core(c.lower(), c, f, "--nmax=%d" % (n + q(t, 0, 1))) for c, n in [("OO", 3), ("HH", 3), ("UUU", 3), ("MIX", 2), ("RKS", 3), ("AHO", 3), ("SRO", 3), ("RUH", 3), ("RR", 3)]] + [
        core("oo-two", "OO", f, "--nmax=%d --two" % q(t, 1, 2)), core("hs-two", "HS", f, "--nmax=%d --two" % q(t, 2, 3)), core("a1-two", "RUH", f, "--nmax=%d --two" % q(t, 2, 3)), core("ueq", "SU", f, "--nmax=2 --two", defs=UA),
        core("mix-asan", "MIX", f, "--nmax=2", san=SAN), core("h-shape", "H1", INS | NODE, "--nmax=%d" % q(t, 5, 6)), core("k-shape", "KS", INS | HINT | NODE, "--nmax=%d" % q(t, 8, 11), n=20)] + xfer(t, 2, 0)


prop("C11", "model_checking", MC_T, "", c11)


def c12(t):
    f = ONE | MERGE | SPLX
    return [core(c.lower(), c, f, "--nmax=%d --two" % (n + q(t, 0, 1))) for c, n in [("OO", 2), ("HH", 2), ("RR", 2), ("O1", 4), ("H1", 3), ("K1", 3), ("S1", 4), ("A1", 3), ("SU", 3), ("RUH", 2), ("SRO", 2), ("RKS", 2), ("UUU", 1)]] + [
        core("mixed-dir", "OO", f, "--nmax=2 --two", defs=["VMIX=1"]), core("ueq-s", "SU", f, "--nmax=%d --two" % q(t, 2, 3), defs=UA), core("ueq-a", "A1", f, "--nmax=%d --two" % q(t, 2, 3), defs=UA), core("asan", "SRO", f, "--nmax=1 --two", san=SAN),
        core("asan-hh", "HH", f, "--nmax=1 --two", san=SAN)] + xfer(t, 1, 0)


prop("C12", "model_checking", MC_T, "", c12)


def c13(t):
    f = ONE | WHOLE | CLR
    return [core("h1-mlf", "H1", INS | MLF | WHOLE, "--nmax=%d --two" % q(t, 1, 2)), core("hu1-mlf", "HU1", INS | MLF | WHOLE, "--nmax=%d --two" % q(t, 1, 2), defs=UA + ["VALLOC=PropAlloc"]), core("a1-cap", "AS", SEQINS | RNDCAP | WHOLE, "--nmax=%d --two" % q(t, 2, 4))] + [core(c.lower(), c, f, "--nmax=%d --two" % (n + q(t, 0, 1)), defs=["VMIX=1"]) for c, n in [("OO", 2), ("HH", 2), ("RR", 2), ("O1", 4), ("H1", 4), ("K1", 3), ("S1", 4), ("A1", 3), ("RUH", 2), ("SRO", 2), ("RKS", 2), ("AHO", 1), ("UUU", 1)]] + [
        core("asan", "MIX", f, "--nmax=1 --two", san=SAN), core("asan-hh", "H1", f, "--nmax=3 --two", san=SAN)] + big(1)


prop("C13", "model_checking", MC_T, "", c13)


def c14(t):
    f = ONE | WHOLE | SPLX | MERGE | CLR
    l = []
    for c, n in [("HU1", 2), ("A1", 2), ("SRO", 1), ("O1", 2), ("K1", 2), ("S1", 2), ("H1", 2)]:
        for a in ["BasicAlloc", "PropAlloc", "PcaAlloc", "PmaAlloc", "PsAlloc"]:
            if a in ("PcaAlloc", "PsAlloc") and c in ("K1", "S1", "HU1"):
                continue
            l.append(core("%s-%s" % (c.lower(), a[:-5].lower()), c, f, "--nmax=%d --two" % (n + q(t, 0, 1)), defs=UA + ["VALLOC=" + a]))
    for c in ["HU1", "A1", "O1", "SRO"]:
        l.append(core(c.lower() + "-soccc", c, f | NODE, "--nmax=1 --two --soccc", defs=UA))
        l.append(core(c.lower() + "-fault", c, f, "--nmax=1 --two --faults", defs=UA))
    l.append(core("ae", "RUH", f, "--nmax=1 --two", defs=["VALLOC=AeAlloc"]))
    g = GROW | ERASE | MOD | SEQ | RANGE | RNDCAP | HPOL | CLR
    l += [core(c.lower() + "-one", c, g, "--nmax=%d" % (n + q(t, 0, 1))) for c, n in [("A1", 4), ("S1", 3), ("H1", 3), ("SRO", 2), ("HS", 2), ("O1", 3)]]
    l += [ser("ser-" + c.lower(), c, ONE, "--nmax=%d --xops=1" % (n + q(t, 0, 1)), ar=a) for c, n, a in [("SRO", 2, 0), ("MIX", 2, 1), ("HH", 2, 2)]] + [ser("ser-ueq", "SU", ONE, "--nmax=1 --two", defs=UA)]
    return l


prop("C14", "model_checking", MC_T, "", c14)


def c15(t):
    f = GROW | ERASE | REPL | MOD | MODK | SEQ | RNDCAP | HPOL | CLR
    return [core(c.lower(), c, f & ~HPOL if c in ("MIX", "AHO", "UUU", "HH") else f, "--nmax=%d" % (n + q(t, 0, 1))) for c, n in [("OO", 3), ("HH", 3), ("MIX", 2), ("RKS", 2), ("AHO", 2), ("SRO", 3), ("RUH", 2), ("RR", 3), ("UUU", 2), ("HS", 2)]] + [
        core(c.lower() + "-two", c, ONE | WHOLE | MERGE | SPLX | NODE, "--nmax=1 --two") for c in ["MIX", "AHO", "RKS", "HH"]] + [core("mix-asan", "MIX", f & ~HPOL, "--nmax=2", san=SAN),
        core("a1", "A1", SEQ | RANGE | RNDCAP | CLR, "--nmax=%d" % q(t, 5, 6)), core("a1-sort", "A2", SEQINS | SEQARR | ERASE, "--nmax=%d" % q(t, 7, 9)),
        core("s1", "S1", SEQ | RANGE | CLR, "--nmax=%d" % q(t, 5, 6)), core("o1", "O1", f & ~HPOL, "--nmax=%d" % q(t, 5, 7)), core("k1", "K1", f & ~HPOL, "--nmax=%d" % q(t, 5, 7)),
        core("h1", "H1", INS | ERASE | MOD | HPOL, "--nmax=%d" % q(t, 4, 5)), core("o-shape", "OS", INS | HINT | ERASE, "--nmax=%d" % q(t, 12, 16), n=20)]


prop("C15", "model_checking", MC_T, "", c15)


# -------------------------------------------------------------------------------------------------- C16 serialization
def ser(name, cfg, fam, args, targs=None, ar=0, defs=(), san=None):
    return core(name, cfg, fam, args, targs, san=san, defs=["VSER=%d" % ar, 'VERIF_PRE="ser_pre.hpp"', 'VERIF_EXTRA="ser.inc"'] + list(defs), libs=["-lboost_serialization"])


def c16(t):
    CD = ["VSER_CD"]
    return [
        ser("sr-perm", "SR", SEQINS | SPLI, "--nmax=%d" % q(t, 7, 8)), ser("rs-perm", "RS", SEQINS | SPLI, "--nmax=%d" % q(t, 7, 8), ar=1, defs=CD),
        ser("so", "SO", SEQINS | SEQARR | INS, "--nmax=%d" % q(t, 5, 6)), ser("hsr", "HSR", SEQINS | INS | MOD, "--nmax=%d" % q(t, 4, 5)),
        ser("o1", "O1", INS | HINT | MODK, "--nmax=%d --xops=%d" % (q(t, 6, 7), q(t, 4, 5)), ar=2), ser("oo", "OO", ONE | MOD, "--nmax=%d --xops=%d" % (q(t, 3, 4), q(t, 3, 4))), ser("rr", "RR", ONE | MOD, "--nmax=%d --xops=%d" % (q(t, 3, 4), q(t, 3, 4)), ar=1),
        ser("hh", "HH", ONE, "--nmax=%d --xops=2" % q(t, 3, 4)), ser("h1", "H1", ONE | HPOL, "--nmax=%d --xops=%d" % (q(t, 4, 5), q(t, 2, 3)), ar=2, defs=CD), ser("rks", "RKS", ONE | SEQARR, "--nmax=%d --xops=2" % q(t, 3, 4), ar=1), ser("aho", "AHO", ONE | RNDCAP, "--nmax=%d --xops=2" % q(t, 2, 3)),
        ser("mix", "MIX", ONE, "--nmax=%d --xops=2" % q(t, 3, 4), ar=2), ser("uuu", "UUU", ONE, "--nmax=4 --xops=3"),
        ser("su-two", "SU", ONE, "--nmax=%d --two" % q(t, 2, 3)), ser("hh-two", "HH", ONE, "--nmax=%d --two" % q(t, 1, 2), ar=1), ser("sro-two", "SRO", ONE, "--nmax=%d --two" % q(t, 1, 2), ar=2),
        ser("f-sro", "SRO", SEQINS | SPLI, "--nmax=%d --xfaults" % q(t, 3, 4)), ser("f-hh", "HH", ONE, "--nmax=%d --xfaults" % q(t, 3, 4)), ser("f-o1", "O1", ONE | HINT, "--nmax=%d --xfaults" % q(t, 4, 5)), ser("f-aho", "AHO", ONE, "--nmax=%d --xfaults" % q(t, 2, 3), defs=CD),
        ser("f-rks", "RKS", ONE, "--nmax=%d --xfaults" % q(t, 2, 3), ar=1), ser("f-mix", "MIX", ONE, "--nmax=%d --xfaults" % q(t, 1, 2), ar=2),
        ser("asan-sro", "SRO", SEQINS | SPLI, "--nmax=%d --xfaults" % q(t, 2, 3), san=SAN), ser("asan-mix", "MIX", ONE, "--nmax=2 --xfaults", san=SAN),
    ] + big(2)


prop("C16", "model_checking", "explicit-state model checking: archive round trip of every reachable container state of the real code, compared with an array model; exhaustive fault and truncation points",
     "Every container state reachable within the bound is saved and reloaded (into empty and used containers) through real Boost.Serialization archives; contents, order, iterators, pointers and subsequent operations are compared with the array model. "
     "Faults at every user operation and truncation at every token. Trusts the model and Boost.Serialization itself.", c16)


# -------------------------------------------------------------------------------------------------- C17 safe mode
def safe(name, cfg, fam, args, targs=None, defs=(), **kw):
    return core(name, cfg, fam, args, targs, defs=["VERIF_SAFE"] + list(defs), **kw)


def mis(name, cfg, fam, args, targs=None, defs=(), **kw):
    return core(name, cfg, fam, args, targs, defs=["VERIF_SAFE", 'VERIF_EXTRA="safe.inc"', 'VERIF_EXTRA_NAME="misuses_diagnosed"'] + list(defs), **kw)


def c17(t):
    f = INS | INS2 | HINT | ERASE | REPL | MOD | MODK | SEQINS | SEQREM | SEQARR | SPLI | CLR | RANGE
    g = ONE | NODE | MERGE | SPLX | WHOLE | CLR
    return [
        mis("m-mix", "MIX", INS | ERASE, "--nmax=%d" % q(t, 3, 4)), mis("m-sro", "SRO", INS | ERASE | SEQINS, "--nmax=%d" % q(t, 3, 4)), mis("m-rr", "RR", INS | ERASE, "--nmax=%d" % q(t, 3, 4)), mis("m-ruh", "RUH", INS | ERASE, "--nmax=%d" % q(t, 3, 4)), mis("m-rks", "RKS", INS | ERASE | SEQINS, "--nmax=%d" % q(t, 3, 4)),
        mis("m-hh-ueq", "HH", INS | ERASE, "--nmax=2 --two", defs=["VUNEQ=1"]), mis("m-oo-two", "OO", INS | ERASE, "--nmax=%d --two" % q(t, 1, 2)), mis("m-su-ueq", "SU", INS | ERASE, "--nmax=%d --two" % q(t, 2, 3), defs=["VUNEQ=1"]),
        mis("m-asan", "RKS", INS | ERASE | SEQINS, "--nmax=1", san=SAN),
    ] + [safe(c.lower(), c, f, "--nmax=%d" % (n + q(t, 0, 1))) for c, n in [("OO", 2), ("HH", 2), ("SRO", 2), ("RUH", 2), ("RR", 2), ("RKS", 2), ("MIX", 1)]] + [
        safe(c.lower() + "-two", c, g if c != "OO" else g & ~SPLX & ~WHOLE, "--nmax=%d --two" % (n + q(t, 0, 1))) for c, n in [("OO", 1), ("HH", 1), ("SRO", 1), ("RUH", 1), ("RKS", 1), ("S1", 2), ("O1", 2)]] + [
        safe("su-ueq", "SU", g, "--nmax=%d --two" % q(t, 1, 2), defs=UA), safe("aho", "AHO", ONE | MOD | MODK | REPL, "--nmax=%d" % q(t, 2, 3)), safe("uuu", "UUU", ONE | MOD | MODK | REPL, "--nmax=%d" % q(t, 2, 3)), safe("uuu-fault", "UUU", ONE | MOD | REPL, "--nmax=%d --faults" % q(t, 2, 3)), safe("aho-fault", "AHO", ONE | MOD | REPL, "--nmax=2 --faults"), safe("rks-fault", "RKS", ONE | MOD | REPL, "--nmax=2 --faults"),
        safe("oo-fault", "OO", ONE | MOD | MODK | REPL, "--nmax=%d --faults" % q(t, 2, 3)), safe("sro-fault", "SRO", ONE | SEQ | MOD, "--nmax=%d --faults" % q(t, 1, 2)),
        safe("ser", "SRO", SEQINS, "--nmax=%d --xops=1" % q(t, 2, 3), defs=["VSER=0", 'VERIF_PRE="ser_pre.hpp"', 'VERIF_EXTRA="ser.inc"'], libs=["-lboost_serialization"]),
    ]


prop("C17", "model_checking", MC_T + "; misuse matrix in every state",
     "In safe mode: every transition of the explicit state space must run without a diagnostic, iterators to erased elements and of destroyed containers must be invalid, and in every reachable state every function is called with every kind of wrong iterator and must report the documented code and change nothing. "
     "Trusts the model's transcription of the documentation; range insertion into sequenced and random access indices at a foreign position is not diagnosed by the library and is not required.", c17)


# -------------------------------------------------------------------------------------------------- C18 build configurations
def c18(t):
    f = INS | INS2 | HINT | ERASE | REPL | MOD | MODK | CLR | NODE
    l = []
    FA, WIDE, INV, SAFE = ["VALLOC=FancyAlloc"], ["BOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES"], ["VERIF_INV"], ["VERIF_SAFE"]
    s = SEQ | RANGE | RNDCAP
    for nm, d, kw in [("fancy", FA, {}), ("inv", INV, {}), ("wide", WIDE, {}), ("clang", [], dict(cxx="clang++")), ("c20", [], dict(std="c++20")), ("all", FA + INV + SAFE, {})]:
        for c, n in [("OO", 2), ("HH", 2), ("SRO", 2), ("RKS", 2), ("AHO", 1), ("RR", 2)]:
            if (nm in ("wide",) and c in ("HH", "SRO")) or (nm in ("clang", "c20") and c in ("OO", "RR")):
                continue
            l.append(core("%s-%s" % (nm, c.lower()), c, f | SEQINS | (s if c == "SRO" else 0), "--nmax=%d" % (n + q(t, 0, 1)), defs=d, **kw))
        if nm in ("fancy", "inv"):
            for c, n in [("OO", 1), ("HH", 1), ("SRO", 1), ("RKS", 1)]:
                l.append(core("%s-%s-two" % (nm, c.lower()), c, ONE | WHOLE | MERGE | SPLX | NODE, "--nmax=%d --two" % (n + q(t, 0, 1)), defs=d, **kw))
    l.append(core("fancy-shape", "OS", INS | HINT | ERASE, "--nmax=%d" % q(t, 8, 11), n=20, defs=FA))
    l.append(core("fancy-kshape", "KS", INS | HINT | ERASE, "--nmax=%d" % q(t, 8, 11), n=20, defs=FA))
    l.append(core("inv-shape", "OS", INS | HINT | ERASE, "--nmax=%d" % q(t, 8, 11), n=20, defs=INV))
    l.append(core("wide-shape", "KS", INS | HINT | ERASE, "--nmax=%d" % q(t, 8, 11), n=20, defs=WIDE))
    l.append(core("fancy-h1", "H1", INS | ERASE | HPOL | WHOLE, "--nmax=%d --nmax2=1 --two" % q(t, 1, 2), defs=FA))
    for nm, d in [("inv", INV), ("fancy", FA)]:
        l.append(core(nm + "-hpol", "H1", INS | ERASE | MOD | REPL | HPOL, "--nmax=%d" % q(t, 3, 4), defs=d))
        l.append(core(nm + "-a1", "A1", SEQ | RANGE | RNDCAP, "--nmax=3", defs=d))
        l.append(core(nm + "-s1", "S1", SEQ | RANGE, "--nmax=3", defs=d))
    l.append(core("inv-h1", "H1", INS | ERASE | HPOL | WHOLE, "--nmax=%d --nmax2=1 --two" % q(t, 1, 2), defs=INV))
    l.append(core("inv-hfault", "H1", INS | ERASE | HPOL | REPL | MOD, "--nmax=2 --faults", defs=INV))
    l.append(core("inv-fault", "UUU", ONE | REPL | MOD | MODK, "--nmax=%d --faults" % q(t, 1, 2), defs=INV))
    l.append(core("inv-sfault", "SRO", ONE | SEQ, "--nmax=%d --faults" % q(t, 1, 2), defs=INV))
    l.append(core("fancy-fault", "AHO", ONE | REPL | MOD, "--nmax=%d --faults" % q(t, 1, 2), defs=FA))
    return l


prop("C18", "model_checking", MC_T + ", once per build configuration", NOTE_MC + " Configurations: fancy-pointer allocator (self-relative-style pointers that are checked), compressed and plain tree nodes, invariant-checking mode, safe mode, g++ and clang++, C++17 and C++20.", c18)


# -------------------------------------------------------------------------------------------------- C19 threads
def conc(name, args, targs=None, defs=(), **kw):
    return dict(name=name, src=[], conc=True, defs=list(defs), args=args.split() + ["--max-s=250"], targs=(targs or args).split() + ["--max-s=3000"], rargs=[x for x in args.split()], **kw)


def c19(t):
    S, I, IX = ["VERIF_CSAFE"], ["VERIF_CSAFE", "VERIF_CINV"], range(5)
    b = q(t, "--bound=1 --cap=8000", "--bound=2 --cap=20000")
    return [conc("plain", "--elems=2"), conc("plain3", "--threads=3"), conc("plain-seq", "--len=2 --elems=3"), conc("bilock", "", defs=["VERIF_BILOCK", "VERIF_CSAFE"], optional=True), conc("inv", "--bound=1 --cap=500 --index=4", defs=I)] + \
        [conc("safe-%d" % i, "--index=%d %s" % (i, b), defs=S) for i in IX] + [conc("safe1-%d" % i, "--index=%d --elems=1 %s" % (i, b), defs=S) for i in IX] + \
        [conc("safe3-%d" % i, "--threads=3 --elems=1 --index=%d %s" % (i, q(t, "--bound=1 --cap=200", "--bound=1 --cap=2000")), defs=S) for i in IX] + \
        [conc("safeseq-%d" % i, "--len=2 --elems=1 --index=%d %s" % (i, q(t, "--bound=1 --cap=300", "--bound=2 --cap=3000")), defs=S) for i in IX]


prop("C19", "model_checking", "stateless model checking of the real code: all interleavings at lock operations (sleep sets; preemption bound where noted) with happens-before race detection",
     "Runs two- and three-thread programs over the real containers as fibers and enumerates every interleaving of their lock operations (complete with sleep sets up to a cap on the number of schedules, then all schedules with at most the stated number of preemptions). "
     "In every schedule a vector-clock race detector checks every instrumented memory access; results, validity of iterators and final contents are compared with runs of each thread alone. Assumes sequential consistency for race-free programs; memory accesses inside libstdc++'s compiled parts are not seen.", c19, rule="programs x schedules")


# -------------------------------------------------------------------------------------------------- C22 comparison
def c22(t):
    def cmp(name, cfg, fam, args, targs=None, defs=(), **kw):
        return core(name, cfg, fam, args, targs, defs=['VERIF_EXTRA="cmp.inc"', 'VERIF_EXTRA_NAME="comparisons"'] + list(defs), **kw)
    return [cmp("hp", "HP", ONE, "--nmax=%d --nmax2=4 --two" % q(t, 5, 6)), cmp("hp2", "HP2", ONE, "--nmax=%d --two" % q(t, 5, 6)), cmp("hp2-long", "HP2", ONE, "--nmax=6 --nmax2=%d --two" % q(t, 4, 5)), cmp("hp-pol", "HP", ONE | HPOL, "--nmax=2 --nmax2=%d --two" % q(t, 1, 2)), cmp("hup", "HUP", ONE, "--nmax=3 --two"), cmp("h1", "H1", ONE, "--nmax=5 --nmax2=%d --two" % q(t, 4, 5)),
            cmp("op", "OP", ONE, "--nmax=%d --two" % q(t, 5, 6)), cmp("kop", "KOP", ONE, "--nmax=%d --two" % q(t, 3, 4)), cmp("oop", "OOP", ONE, "--nmax=4 --two"), cmp("ssa", "SSA", ONE, "--nmax=%d --two" % q(t, 3, 4)), cmp("mix", "MIX", ONE, "--nmax=%d --two" % q(t, 2, 3)), cmp("s1", "S1", ONE, "--nmax=%d --two" % q(t, 5, 6)), cmp("ruh", "RUH", ONE | SPLI, "--nmax=3 --two"),
            cmp("aho", "AHO", ONE, "--nmax=%d --two" % q(t, 2, 3)), cmp("desc", "OOP", ONE, "--nmax=%d --two" % q(t, 3, 4), defs=["VMIX=1"]), cmp("asan", "HP", ONE, "--nmax=2 --two", san=SAN)]


prop("C22", "model_checking", MC_T + "; comparison operators on every pair of states", NOTE_MC + " Comparisons of all pairs of indices of equal kind and of whole containers are evaluated in every reachable pair of container states.", c22)


# -------------------------------------------------------------------------------------------------- C20, C21 composite keys and key extractors
def ints(which):
    return [mini("ints", "ints.cpp", "--b0=4 --b1=4 --b2=%d" % which, "--b0=5 --b1=5 --b2=%d --b3=3" % which), mini("ints-asan", "ints.cpp", "--b0=2 --b1=3 --b2=%d" % which, san=SAN)]


def arr(which):
    return [mini("arr", "arr.cpp", "--b0=300 --b1=14 --b2=%d" % which, "--b0=500 --b1=16 --b2=%d" % which), mini("arr-asan", "arr.cpp", "--b0=70 --b1=6 --b2=%d" % which, san=SAN)]


def large(which):
    return [mini("large", "large.cpp", "--b2=%d" % which, "--b1=1000003 --b2=%d" % which)]


def big(which):
    k = dict(libs=["-lboost_serialization"])
    return [mini("big", "big.cpp", "--b0=300 --b2=%d" % which, "--b0=1500 --b2=%d" % which, **k), mini("big-asan", "big.cpp", "--b0=70 --b2=%d" % which, san=SAN, **k)]


def mini(name, src, args="", targs=None, defs=(), **kw):
    return dict(name=name, src=[src], defs=list(defs), args=args.split() + ["--max-s=400"], targs=(targs or args).split() + ["--max-s=3000"], **kw)


EX_T = "exhaustive enumeration of all inputs and container contents within the bound, on the real code, compared with a lexicographic model"


def c20(t):
    l = [mini("ops-%d" % n, "ck.cpp", "--b0=%d" % b, "--b0=%d" % tb, defs=["CKN=%d" % n]) for n, b, tb in [(1, 9, 20), (2, 6, 9), (3, 4, 6), (4, 4, 4), (5, 3, 3), (6, 2, 3), (7, 2, 2), (8, 2, 2), (9, 2, 2), (10, 2, 2)]]
    l += [mini("ops-4-clang", "ck.cpp", "--b0=3", defs=["CKN=4"], cxx="clang++"), mini("ops-3-c20", "ck.cpp", "--b0=3", defs=["CKN=3"], std="c++20"), mini("ops-4-asan", "ck.cpp", "--b0=2", defs=["CKN=4"], san=SAN)]
    l += [mini("cont-2", "ckc.cpp", "--b0=2 --b1=4 --b2=7 --b3=3", "--b0=2 --b1=5 --b2=9 --b3=4"), mini("cont-3", "ckc.cpp", "--b0=3 --b1=2 --b2=3", "--b0=3 --b1=3 --b2=4"), mini("cont-asan", "ckc.cpp", "--b0=2 --b1=2 --b3=2", san=SAN)]
    return l


prop("C20", "model_checking", EX_T,
     "All values of keys of 1 to 10 components over small digit alphabets are compared, by every operator and predicate, with all results and tuples of every length; predicates carry state in several combinations. Containers with five composite-keyed indices are built with every content up to the bound and asked every full and partial key. Not a source-level proof; the bounds are in the evidence.", c20)


def c21(t):
    return [mini("extract", "kx.cpp"), mini("extract-c20", "kx.cpp", std="c++20"), mini("extract-clang", "kx.cpp", cxx="clang++"), mini("extract-asan", "kx.cpp", san=SAN), mini("cont", "kx.cpp", "--b0=4", "--b0=5"), mini("cont-asan", "kx.cpp", "--b0=3", san=SAN)]


prop("C21", "model_checking", "exhaustive enumeration of extractors x ways of reaching an object, and explicit-state exploration of containers keyed by them, on the real code",
     "Every predefined key extractor is applied to objects, references, wrappers and chained pointers of every documented shape; returned references must designate the element's own key and be writable exactly when documented. Containers of objects, pointers, smart pointers, wrappers and derived objects are explored through all operation sequences up to the depth.", c21)

def ranges(faults):
    return [mini("ranges%s-%d" % ("-faults" if faults else "", n), "xfer.cpp", "--b1=%d --b2=6 --b3=%d" % ((5, 0) if not faults else (4, 1)), "--b1=%d --b2=6 --b3=%d" % ((6, 0) if not faults else (5, 1)), defs=["XF=%d" % n]) for n in (8, 9, 10)] + [
        mini("ranges-asan", "xfer.cpp", "--b1=3 --b2=4 --b3=%d" % faults, defs=["XF=9"], san=SAN)]


def xfer(t, kinds, faults):
    r = []
    for n in range(8):
        big = n in (2, 7)
        qb, tb = ("2 3 6", "3 3 6") if faults else ("3 3 6" if big else "3 4 6", "4 4 6" if not big else "3 4 6")
        f = lambda b: " ".join("--b%d=%s" % (i, x) for i, x in enumerate(b.split() + [str(kinds * 2 + faults)]))
        r.append(mini("xfer%s-%d" % ("-faults" if faults else "", n), "xfer.cpp", f(qb), f(tb), defs=["XF=%d" % n]))
    return r


# -------------------------------------------------------------------------------------------------- C23 complexity
def c23(t):
    return [mini("cost-64", "cost.cpp", "--b0=64", "--b0=64"), mini("cost-128", "cost.cpp", "--b0=128", "--b0=256"), mini("cost-clang-64", "cost.cpp", "--b0=64", "--b0=512", cxx="clang++"), mini("cost-c20-128", "cost.cpp", "--b0=128", "--b0=512", std="c++20")]


prop("C23", "exploration", "exhaustive enumeration of operations x positions x construction orders at two sizes on the real code, counting elementary steps",
     "Every operation is run at every position (or every 1/64th of the positions) of containers built in every order of a list, with a given number of elements and sixteen times as many; the pointer dereferences of the library (through fancy pointers) and the calls of user functions are counted exactly and their maximum (or sum, where the documentation amortises) may only grow as the documented bound. A bound on growth between measured sizes, not a proof for all sizes.", c23)
