"""The checks: property -> jobs per tier."""
from .run import Job
CHECKS = {}
def reg(pid, assumptions=(), **kw):
    def deco(f): CHECKS[pid] = (f, list(assumptions)); return f
    return deco

@reg("P01", ["the little-endian host the library is built for"])
def p01(tier):
    return [Job("enc", "be", {"mode": 0}, fake=False, covers=["end"], bounds="all values of every width (complete)")]

@reg("P02", ["IBM zero patterns (fraction 0) may convert to a zero of either sign"])
def p02(tier):
    return [Job("enc", f"ibm_{b}", {"mode": 1, "big": b}, fake=False, covers=["denormal", "overflow", "unnormalised"], bounds="all 2^32 patterns (complete), " + ("big" if b else "little") + "-endian bytes") for b in (1, 0)] + p02_traces()

@reg("P03")
def p03(tier):
    return [Job("text", "conv", {"mode": 0}, covers=["high", "unmapped"], bounds="all 256 byte values in both directions (complete)")] + \
           [Job("text", f"file_{n}", {"mode": 1, "ebcdic": e}, covers=["file"], bounds="a mostly-text header in the encoding, one arbitrary byte at the first, middle or last position") for e, n in ((0, "ascii"), (1, "ebcdic"))]

def thor(tier, a, b): return b if tier == "thorough" else a

def p02_traces(): return [Job("rd", "ibm_traces", {"mode": 3}, covers=["ibm"], bounds="two traces of one sample each, all sample patterns, contiguous and listed reads")]

@reg("P04", ["the offsets are below 2^40 traces, so that byte offsets do not wrap"])
def p04(tier):
    return [Job("layout", "arith", {"mode": 0}, covers=["arith"], bounds="all sample counts 0..32767, all trace indexes below 2^40"),
            Job("layout", "inverse_nt", {"mode": 1, "by": 0, "ntbits": thor(tier, 11, 16)}, covers=["inverse"], solver_ms=120000, time=thor(tier, 300, 800), bounds="21 sample counts from 0 to 32767, all trace counts below 2^%d, all lengths of a partial trailing trace" % thor(tier, 11, 16)),
            Job("layout", "inverse_ns", {"mode": 1, "by": 1}, covers=["inverse"], solver_ms=120000, time=thor(tier, 300, 800), bounds="10 trace counts from 0 to 1000, all sample counts, all lengths of a partial trailing trace"),
            Job("layout", "accesses", {"mode": 2}, covers=["list", "contiguous"], bounds="every object-layer operation, 0..3 traces at any index below 2^40, 6 sample counts")]

@reg("P05", ["coordinates are concrete here (their encoding is P06); the other parameters and the samples are arbitrary"])
def p05(tier):
    J = []
    for r in range(4): J.append(Job("rw", f"one_r{r}", {"ops": 1, "rule": r}, covers=["done", "contiguous", "empty", "list"], bounds="one write, 3 traces of 2 samples, rule set %d, then read back" % r))
    J.append(Job("rw", "pre", {"ops": 1, "pre": 1, "read": 0}, covers=["done", "list"], bounds="one write over existing traces"))
    J.append(Job("rw", "pre3", {"ops": 1, "pre": 1, "rule": 3}, covers=["done", "list"], bounds="one write over existing traces, partial-extent rule set"))
    J.append(Job("rw", "skip", {"ops": 1, "skip": 1}, covers=["done", "list"], bounds="one write from a later position of the parameter structure"))
    J.append(Job("rw", "two_r0", {"ops": 2, "read": 0}, covers=["done", "list"], bounds="all sequences of two writes, 3 traces of 2 samples"))
    for r in (1, 2, 3): J.append(Job("rw", f"two_r{r}", {"ops": 2, "nt": 2, "ns": 1, "rule": r, "read": 0}, covers=["done"], bounds="all sequences of two writes, 2 traces of 1 sample, rule set %d" % r))
    J.append(Job("rw", "three", {"ops": 3, "nt": 2, "ns": 1, "read": 0}, covers=["done"], bounds="all sequences of three writes, 2 traces of 1 sample"))
    if tier == "thorough":
        J.append(Job("rw", "three_r3", {"ops": 3, "nt": 2, "ns": 1, "read": 0, "rule": 3}, covers=["done"], time=800, bounds="all sequences of three writes, 2 traces of 1 sample, partial-extent rules"))
        J.append(Job("rw", "two_big", {"ops": 2, "nt": 4, "ns": 3, "read": 0}, covers=["done", "list"], time=800, bounds="all sequences of two writes, 4 traces of 3 samples"))
        J.append(Job("rw", "two_skip", {"ops": 2, "nt": 3, "ns": 2, "read": 1, "skip": 2, "pre": 1}, covers=["done", "list"], time=800, bounds="all sequences of two writes over existing traces, parameter position 2"))
    return J

FPO = ("--fork-select", "--tab", "8")
@reg("P06", ["at most four decimals are kept, as the format allows", "windows of 2^bits consecutive decimal values around the scale boundaries, not all doubles"])
def p06(tier):
    J = [Job("coord", f"whole_{n}_{f}", {"mode": 0, "n": n, "first": f}, covers=["done"], bounds=f"{n} whole numbers sharing a scale, all 2^{32 * n} values") for n, f in ((1, 0), (1, 5), (2, 2), (3, 0), (3, 3), (6, 0))]
    J += [Job("coord", "one", {"mode": 1, "n": 1, "bits": 8}, opts=FPO, covers=["done", "fraction", "large"], bounds="one coordinate in each of 24 windows of 256 decimal values")]
    J.append(Job("coord", "forms", {"mode": 1, "n": 1, "bits": 2, "forms": 1}, opts=FPO, covers=["done", "fraction", "large"], bounds="every form of write at parameter positions 0 to 2, one coordinate in each of 24 windows of 4 decimal values"))
    J += [Job("coord", f"wforms_{n}", {"mode": 0, "n": n, "first": 0, "forms": 1}, covers=["done"], bounds=f"every form of write at parameter positions 0 to 2, {n} whole numbers sharing a scale") for n in (1, 2)]
    b = thor(tier, 4, 8)
    J += [Job("coord", f"two_{w}", {"mode": 1, "n": 2, "w0": w, "bits": b}, opts=FPO, covers=["done"], time=thor(tier, 300, 850), bounds=f"two coordinates, window {w} against each of 24 windows, 2^{b} decimal values each") for w in range(24)]
    if tier == "thorough": J += [Job("coord", f"three_{w}_{x}", {"mode": 1, "n": 3, "w0": w, "w1": x, "bits": 4}, opts=FPO, covers=["done"], time=850, bounds=f"three coordinates, windows {w} and {x} against each of 24") for w in (0, 3) for x in (5, 10, 15, 19)]
    return J

@reg("P07", ["locations of added rules lie within the trace header"])
def p07(tier):
    J = [Job("rule", f"sym2_{s}", {"mode": 0, "ops": 2, "sym": 1, "start": s}, covers=["done", "full", "partial"], time=thor(tier, 300, 800), bounds="every sequence of two of 24 edits with arbitrary header locations, starting from rule set %d" % s) for s in range(3)]
    J += [Job("rule", f"seq3_{s}", {"mode": 0, "ops": 3, "start": s}, covers=["done", "full", "partial"], time=thor(tier, 300, 800), bounds="every sequence of three of 24 edits, starting from rule set %d" % s) for s in range(3)]
    J += [Job("rule", "each2", {"mode": 0, "ops": 2, "each": 1, "start": 1}, covers=["done"], bounds="every sequence of two of 24 edits, checked after each")]
    if tier == "thorough":
        J += [Job("rule", f"sym3_{s}", {"mode": 0, "ops": 3, "sym": 1, "start": s}, covers=["done", "full", "partial"], time=850, bounds="every sequence of three of 24 edits with arbitrary header locations") for s in range(3)]
        J += [Job("rule", "seq4", {"mode": 0, "ops": 4, "start": 1}, covers=["done", "full", "partial"], time=850, bounds="every sequence of four of 24 edits")]
    return J

@reg("P08", ["floating-point values are compared by their bits"])
def p08(tier):
    J = [Job("rule", f"set_{r}", {"mode": 1, "rule": r}, covers=["present", "absent"], bounds=f"3 traces, rule set {r}, each of the 35 parameters, all contents and values") for r in range(6)]
    return J + [Job("rule", f"cpy_{a}_{b}", {"mode": 2, "src": a, "dst": b}, covers=["done", "moved"], bounds=f"3 traces, from rule set {a} to {b}, every pair of positions, all contents") for a in range(6) for b in range(6)]

@reg("P09", ["the sample interval is a whole number of microseconds between 1 and 32767, as the format can store", "the text contains a space, so that its encoding can be recognised"])
def p09(tier):
    J = [Job("rw", "orders", {"mode": 1}, covers=["done", "overwrite"], bounds="every order of setting sample count, trace count, interval and text, once or twice, over a new or an existing file, followed by every form of write"),
         Job("rw", "ns", {"mode": 2, "some": 0}, covers=["done"], bounds="all sample counts 1..32767, no traces"),
         Job("rw", "nt", {"mode": 2, "some": 1}, covers=["done"], bounds="all sample counts 1..32767, all trace counts up to 10^6"),
         Job("rw", "text", {"mode": 4}, covers=["done"], bounds="texts of 9, 3200 and more characters with one arbitrary printable character at three positions")]
    J += [Job("rw", f"history{o}_{n}_{w}", {"mode": 5, "ranks": n, "ops": o, "bits": w, "base": b}, covers=["done", "grown", "stated"], time=thor(tier, 400, 850), bounds=f"every sequence of {o} writes of up to two traces at any of 2^{w} positions from {b}, with and without a trace count stated first, {n} process(es)") for o, n, w, b in thor(tier, ((1, 1, 12, 0), (2, 1, 8, 0), (2, 1, 6, 2**32 - 16), (1, 2, 8, 0)), ((1, 1, 16, 0), (2, 1, 10, 0), (2, 1, 6, 2**32 - 16), (3, 1, 6, 0), (1, 2, 9, 0), (1, 3, 6, 0), (2, 2, 6, 0), (2, 1, 6, 2**31 - 20)))]
    W = [0, 244, 468, 992, 1980, 3990, 32704] if tier == "quick" else [0, 64, 128, 192, 256, 320, 448, 480, 512, 900, 980, 1240, 1650, 1980, 2480, 3300, 3980, 4980, 7990, 8180, 9970, 11990, 15990, 16380, 19990, 24980, 29990, 32704]
    J += [Job("rw", f"inc_{b}", {"mode": 3, "base": b, "width": 64}, covers=["done"], time=400, bounds=f"every interval of {max(b, 1)}..{b + 63} microseconds") for b in W]
    return J

@reg("P10", ["the rule sets and sizes of the jobs"])
def p10(tier):
    J = [Job("rw", f"one_r{r}", {"ops": 1, "rule": r, "read": 0, "skip": s}, covers=["done", "list", "contiguous", "empty"], bounds="every form of one write, 3 traces of 2 samples, rule set %d, parameter position %d" % (r, s)) for r in range(4) for s in (0, 1)]
    J.append(Job("rw", "two", {"ops": 2, "nt": 3, "read": 0}, covers=["done", "list"], bounds="all sequences of two writes"))
    if tier == "thorough":
        J.append(Job("rw", "wide", {"ops": 1, "nt": 4, "ns": 4, "read": 0, "skip": 2}, covers=["done", "list"], time=800, bounds="one write, 4 traces of 4 samples"))
        for r in (1, 2, 3): J.append(Job("rw", f"two_r{r}", {"ops": 2, "nt": 3, "ns": 2, "rule": r, "read": 0, "skip": 1}, covers=["done"], time=800, bounds="all sequences of two writes, rule set %d" % r))
    return J

@reg("P11")
def p11(tier):
    J = [Job("rd", f"beyond_r{r}", {"mode": 0, "rule": r}, covers=["beyond", "cut", "some"], bounds="3 traces of 2 samples, requests of 0..5 traces from 10 offsets between 0 and 2^64-1, rule set %d" % r) for r in range(5)]
    J += [Job("rd", f"ranks{n}", {"mode": 0, "ranks": n, "rule": 0}, covers=["beyond", "cut"], bounds=f"{n} processes with different requests") for n in (2, 3)]
    J += [Job("rd", "trailing", {"mode": 0, "extra": 100}, covers=["beyond"], bounds="a file with a partial trailing trace"), Job("rd", "tiny", {"mode": 1}, covers=["done"], bounds="files of 0, 1, 3599 and 3600 bytes")]
    if tier == "thorough":
        J += [Job("rd", f"ranks2_r{r}", {"mode": 0, "ranks": 2, "rule": r, "samekind": 1}, covers=["beyond", "cut"], time=800, bounds="two processes, rule set %d" % r) for r in (1, 2, 3, 4)]
        J += [Job("rd", f"ns{ns}", {"mode": 0, "ns": ns, "nt": 4}, covers=["beyond", "cut"], time=800, bounds=f"4 traces of {ns} samples") for ns in (1, 5)]
    return J

@reg("P12", ["writing lists is decided together with P05"])
def p12(tier):
    n = thor(tier, 3, 4)
    J = [Job("rd", f"asc_r{r}", {"mode": 2, "rule": r, "n": n, "form": 0}, covers=["clean", "full", "none", "repeat"], time=800, bounds=f"every ascending list of up to {n} of 3 traces, with repeats, rule set {r}") for r in range(5)]
    J += [Job("rd", f"any_r{r}", {"mode": 2, "rule": r, "n": n, "form": 1}, covers=["clean", "full", "none", "repeat", "descending"], time=800, bounds=f"every list of up to {n} of 3 traces in any order, rule set {r}") for r in range(5)]
    J += [Job("rd", "asc_4", {"mode": 2, "nt": 4, "n": 4, "form": 0}, covers=["full", "repeat"], bounds="every ascending list of up to 4 of 4 traces"),
          Job("rd", "any_4", {"mode": 2, "nt": 4, "n": 4, "form": 1}, covers=["full", "repeat"], bounds="every list of up to 4 of 4 traces"),
          Job("rw", "write", {"ops": 1, "nt": 4, "pre": 1}, covers=["done", "list"], bounds="writing every ascending list of distinct traces, over existing traces"),
          Job("rw", "write_r3", {"ops": 1, "nt": 3, "pre": 1, "rule": 3}, covers=["done", "list"], bounds="writing every ascending list of distinct traces, partial-extent rules")]
    return J

@reg("P13", ["the message limit holds at least one block of a strided and two blocks of a listed transfer", "listed positions are in ascending order, as the file layer passes them, and without overlap when writing"])
def p13(tier):
    W = {0: "contiguous", 1: "strided", 2: "listed"}
    J = [Job("chunk", f"{W[m]}_small", {"mode": m, "nb": thor(tier, 5, 7)}, covers=["chunked", "nothing", "whole", "read", "write", "independent"], time=thor(tier, 300, 800), bounds=f"every {W[m]} request of up to {thor(tier, 5, 7)} blocks of 1..3 bytes under every small message limit, arbitrary data") for m in W]
    J += [Job("chunk", f"{W[m]}_ranks{n}", {"mode": m, "ranks": n, "nb": thor(tier, 6 - n, 5)}, covers=["chunked", "nothing", "whole", "read", "write"], time=thor(tier, 300, 800), bounds=f"{n} processes with different {W[m]} requests of up to {thor(tier, 6 - n, 5)} blocks") for m in W for n in (2, 3)]
    J += [Job("chunk", "contiguous_large", {"mode": 0, "large": 1}, covers=["chunked", "nothing"], bounds="all sizes up to three times the default limit (about 1.6 GB), all offsets below 2^60"),
          Job("chunk", "contiguous_large2", {"mode": 0, "large": 1, "ranks": 2}, covers=["chunked", "nothing"], bounds="two processes, all sizes up to three times the default limit")]
    J += [Job("chunk", f"{W[m]}_large", {"mode": m, "large": 1, "nb": thor(tier, 5, 9)}, covers=["chunked", "nothing"], time=thor(tier, 400, 800), bounds=f"up to {thor(tier, 5, 9)} blocks of a size near the default limit, all offsets below 2^50") for m in (1, 2)]
    return J

@reg("P15", ["a call that fails returns an error code; opening fails on all processes or on none", "with several processes the query of the file size does not fail on one of them only"])
def p15(tier):
    J = [Job("fail", f"ops_lim{l}", {"lim": l}, covers=["fault", "fine", "open", "close", "list"], bounds=f"14 operations, a fault at every storage call (symbolic index), message limit {l or 'default'}") for l in (0, 1200)]
    J += [Job("fail", f"ranks{n}_lim{l}_{e}", {"ranks": n, "lim": l, "even": e}, covers=["fault", "fine", "open", "close", "list"], bounds=f"{n} processes, a fault on any one of them at every storage call, message limit {l or 'default'}") for n in thor(tier, (2,), (2, 3)) for l in (0, 1200) for e in (0, 1)]
    return J

@reg("P16", ["at most 2^63 items"])
def p16(tier):
    C = ["next", "sizes", "location"]
    J = [Job("comm", f"any_{b}_{p}", {"mode": 0, "bits": b, "pbits": p}, covers=C, time=thor(tier, 300, 850), bounds=f"all item counts below 2^{b}, all process counts below 2^{p}, all ranks and items") for b, p in thor(tier, ((10, 4), (9, 5)), ((10, 4), (9, 5), (11, 5), (10, 6), (12, 4)))]
    J += [Job("comm", f"procs_{p}", {"mode": 0, "ranks": p, "bits": b}, covers=[c for c in C if p > 1 or c != "next"], time=thor(tier, 300, 850), bounds=f"{p} processes, all item counts below 2^{b}, all ranks and items") for p, b in thor(tier, ((1, 63), (2, 63), (3, 24), (4, 40), (5, 20), (6, 24), (7, 20)), ((1, 63), (2, 63), (3, 28), (4, 63), (5, 24), (6, 26), (7, 24), (8, 40), (12, 20), (24, 16), (100, 16)))]
    return J + [Job("comm", "windows", {"mode": 0, "win": 1}, covers=C, time=thor(tier, 400, 850), bounds="256 item counts and items around 2^16, 2^31, 2^32, 2^40 and 2^63, 2 to 65537 processes")]

TY = ["SrcRcv", "SrcOff", "SrcROff", "RcvOff", "RcvROff", "LineOff", "LineROff", "OffLine", "ROffLine"]
@reg("P17", ["coordinates are not NaN; for calculated offsets they are whole numbers, so that the offset is exact", "trace numbers below 2^32 and different"])
def p17(tier):
    J = []
    for t in range(9):
        calc = t in (1, 3, 5, 7); C = ["first", "second"] + ([] if calc else ["signs"])
        if not calc: J.append(Job("sort", f"{TY[t]}", {"mode": 0, "type": t, "exact": 0}, covers=C, time=thor(tier, 400, 850), bounds="all pairs of traces, all finite and infinite coordinates, line numbers, offsets and trace numbers"))
        else:
            J.append(Job("sort", f"{TY[t]}_4", {"mode": 0, "type": t, "exact": 1, "cbits": 4}, covers=C, time=thor(tier, 400, 850), bounds="all pairs of traces with whole coordinates of 4 bits, all line and trace numbers"))
            if tier == "thorough": J += [Job("sort", f"{TY[t]}_axis{a}", {"mode": 0, "type": t, "exact": 1, "cbits": 8, "axis": a}, covers=C, time=850, bounds="all pairs of traces with whole coordinates of 8 bits along one axis, all line and trace numbers") for a in (0, 1)]
    return J

@reg("P18", ["the rule set holds the global trace number, as the sort requires"])
def p18(tier):
    C = ["done", "moved", "far"]
    def s(name, bounds, covers=C, **p): return Job("sort", name, dict(mode=1, **p), covers=covers, time=thor(tier, 500, 850), bounds=bounds)
    J = [s("one", "one process, up to 5 traces with arbitrary inlines", ["done", "moved"], ranks=1, lo=0, hi=5, rule=1),
         s("two_2", "two processes with two traces each, copied headers, arbitrary inlines", ranks=2, lo=2, hi=2, rule=2),
         s("two_33", "two processes with three traces each, arbitrary inlines", ranks=2, lo=3, hi=3, rule=0),
         s("two_23", "two processes with two or three traces each, arbitrary offsets, list in file order or not", ranks=2, lo=2, hi=3, rule=1, type=8, il=0, off=1, form=1),
         s("two_23b", "two processes with two or three traces each, arbitrary inlines", ranks=2, lo=2, hi=3, rule=1),
         s("two_4", "two processes with four traces each, inlines 0 and 1", ranks=2, lo=4, hi=4, rule=2, bits=1),
         s("two_5", "two processes with two to five traces each, inlines 0 and 1", ranks=2, lo=2, hi=5, rule=0, bits=1),
         s("three_23", "three processes with two or three traces each, inlines 0 and 1", ranks=3, lo=2, hi=3, rule=1, bits=1),
         s("four_2", "four processes with two traces each, inlines 0 and 1", ranks=4, lo=2, hi=2, rule=0, bits=1),
         s("list_1", "a plain list on one process, up to 4 arbitrary entries", ["list"], ranks=1, lo=0, hi=4, form=2),
         s("list_2", "a plain list on two processes, 2 or 3 entries each", ["list"], ranks=2, lo=2, hi=3, form=2, bits=2),
         s("list_3", "a plain list on three processes, 2 entries each", ["list"], ranks=3, lo=2, hi=2, form=2, bits=1),
         s("group", "a group of two of three processes with two traces each", C + ["idle"], ranks=3, idle=1, lo=2, hi=2, rule=1),
         s("few", "two processes with no or one trace each", ["done"], ranks=2, lo=0, hi=1, rule=0),
         s("few_list", "a plain list on two processes with no or one entry each", ["list"], ranks=2, lo=0, hi=1, form=2)]
    if tier == "thorough":
        J += [s("three_2", "three processes with two traces each, arbitrary inlines", ranks=3, lo=2, hi=2, rule=0), s("two_8", "two processes with eight traces each, one of two inlines", ranks=2, lo=7, hi=7, rule=0, bits=1), s("three_4", "three processes with three or four traces each, inlines 0 and 1", ranks=3, lo=3, hi=4, rule=0, bits=1), s("five_2", "five processes with two traces each", ranks=5, lo=2, hi=2, rule=0, bits=1), s("list_33", "a plain list on two processes, 3 arbitrary entries each", ["list"], ranks=2, lo=3, hi=3, form=2), s("lines", "two processes with two traces each, arbitrary line numbers and offsets", ranks=2, lo=2, hi=2, rule=1, type=6, xl=1, off=1)]
    return J

@reg("P19", ["coordinates are whole numbers with a scale factor of one"])
def p19(tier):
    C = ["ordered", "unordered"]; J = []
    V = {0: ((120, 32),), 1: ((80, 4), (24, 3)), 2: ((12, 32),), 3: ((80, 4), (96, 3)), 4: ((36, 32),), 5: ((9, 4), (3, 32)), 6: ((7, 32),), 7: ((24, 4), (3, 32)), 8: ((7, 32),)}
    for t in range(9):
        for v, b in V[t]: J.append(Job("sort", f"range_{TY[t]}_{v}", {"mode": 2, "type": t, "vary": v, "bits": b, "nt": thor(tier, 4, 5)}, covers=C + ["short"], time=thor(tier, 400, 850), bounds="every range of a file of %d traces with arbitrary %d-bit keys (key set %d)" % (thor(tier, 4, 5), b, v)))
    for n, nt in thor(tier, ((1, 4), (2, 5), (3, 5), (4, 4), (6, 6)), ((1, 6), (2, 7), (3, 7), (4, 6), (6, 7))): J.append(Job("sort", f"tool_{n}", {"mode": 3, "ranks": n, "nt": nt, "type": 6, "vary": 1}, covers=C + (["split"] if n > 1 else []), time=thor(tier, 400, 850), bounds=f"the verification tool on files of up to {nt} traces with arbitrary inlines, {n} process(es)"))
    return J + [Job("sort", f"tool_{TY[t]}", {"mode": 3, "ranks": 2, "nt": 3, "type": t, "vary": v, "bits": b}, covers=C + ["split"], bounds="the verification tool on files of up to 3 traces, two processes") for t, v, b in ((0, 120, 32), (2, 4, 32), (8, 6, 32))]

@reg("P21")
def p21(tier):
    J = [Job("comm", f"procs{n}", {"mode": 3, "ranks": n, "hi": h, "sched": s}, covers=["none", "one", "several"], time=thor(tier, 300, 850), bounds=f"0..{h} traces with arbitrary line numbers on {n} processes") for n, h, s in thor(tier, ((1, 5, 0), (2, 4, 2), (3, 4, 0), (4, 3, 0)), ((1, 6, 0), (2, 5, 4), (3, 5, 2), (4, 4, 1), (6, 3, 0)))]
    J += [Job("comm", f"one_line{n}", {"mode": 3, "ranks": n, "lo": 4, "hi": h, "xl": 0}, covers=["one", "several"], time=thor(tier, 300, 850), bounds=f"4..{h} traces of one crossline with arbitrary inlines on {n} processes") for n, h in thor(tier, ((3, 6), (4, 5)), ((3, 7), (4, 7), (5, 6)))]
    return J

@reg("P22", ["writes of one element by different processes are separated by a barrier", "one-sided accesses take effect at the unlock at the latest, and any process may be scheduled at a lock or unlock"])
def p22(tier):
    T = ["24-byte structures", "doubles", "bytes", "ints", "gather records"]
    J = [Job("comm", f"type{t}_procs{n}", {"mode": 2, "type": t, "ranks": n, "n": thor(tier, 4 if n < 3 else 3, 5 if n < 4 else 3)}, covers=["none", "again"], time=thor(tier, 300, 850), bounds=f"vectors of {T[t]} of up to {thor(tier, 4 if n < 3 else 3, 5 if n < 4 else 3)} elements, every assignment of writers, {n} processes") for t in range(5) for n in (1, 2, 3)]
    J += [Job("comm", f"sched_procs{n}", {"mode": 2, "ranks": n, "n": 3, "sched": thor(tier, 5 - n, 7 - n)}, covers=["none", "again"], time=thor(tier, 300, 850), bounds=f"as above with {thor(tier, 5 - n, 7 - n)} arbitrary preemptions") for n in (2, 3)]
    return J + [Job("comm", "type0_procs4", {"mode": 2, "type": 0, "ranks": 4, "n": 3}, covers=["none", "again"], bounds="4 processes")]

@reg("P20", ["parameters are not NaN"])
def p20(tier):
    def m(name, bounds, covers, **p): return Job("minmax", name, p, covers=covers, time=thor(tier, 400, 850), bounds=bounds)
    D = ["done", "nothing", "idle", "alone"]; I = "32-bit integer parameters"; R = "parameters of any double value"
    J = [m("one", f"one process, up to {thor(tier, 3, 4)} traces, {I}", ["done", "nothing"], mode=0, ranks=1, hi=thor(tier, 3, 4)),
         m("two", f"two processes, up to two traces each, {I}", D, mode=0, ranks=2, hi=2),
         m("three", f"three processes, up to one trace each, {I}", D[:3], mode=0, ranks=3, hi=1),
         m("two_real", f"two processes, up to two traces each, {R}", D, mode=0, ranks=2, kind=1, hi=2),
         m("two_form", f"two processes, parameter pairs given by elements, {R}", D, mode=0, form=1, kind=1, ranks=2),
         m("one_index", "one process, parameters held as unsigned integers below 2^52", ["done", "nothing"], mode=0, kind=2, ranks=1, hi=2),
         m("set", f"a set of two files of up to two traces, {I}", ["done", "nothing", "emptyfile"], mode=1, hi=2),
         m("set_two", f"a set of one file of up to two traces on two processes, {I}", ["done", "nothing"], mode=1, ranks=2, files=1, hi=2),
         m("set_two_two", f"a set of two files of up to one trace on two processes, {I}", ["done", "nothing", "emptyfile"], mode=1, ranks=2, files=2, hi=1),
         m("set_real", f"a set of one file of up to two traces, {R}", ["done", "nothing"], mode=1, kind=1, files=1, hi=2),
         m("set_three", f"a set of three files of up to one trace, {I}", ["done", "nothing", "emptyfile"], mode=1, files=3, hi=1),
         m("set_form", f"a set of two files of up to two traces, pairs given as parameters, {I}", ["done", "nothing", "emptyfile"], mode=1, files=2, hi=2, form=1)]
    return J + thor(tier, [], [m("three_two", f"three processes, up to two traces each, {I}", D, mode=0, ranks=3, hi=2), m("four", f"four processes, up to one trace each, {I}", D[:3], mode=0, ranks=4, hi=1), m("set_two_2", f"a set of two files of up to two traces on two processes, {I}", ["done", "nothing", "emptyfile"], mode=1, ranks=2, files=2, hi=2)])

@reg("P25", ["samples of magnitude 0 or at least 2^-67 and finite, so that the product with the test weights is exact"])
def p25(tier):
    J = [Job("signal", "ends", {"mode": 0, "n": thor(tier, 5, 7)}, covers=["dead", "late", "live", "overlap", "clipped"], time=thor(tier, 400, 850), bounds=f"traces of 1..{thor(tier, 5, 7)} samples, all tail lengths up to the trace length, C and C++ interface, all sample values")]
    J += [Job("signal", "linear", {"mode": 1, "shape": 0, "widths": thor(tier, 11, 14)}, covers=["done", "rise"], time=thor(tier, 400, 850), bounds=f"the linear shape: {thor(tier, 11, 14)} widths from 1 to {thor(tier, 50, 250)}, all positions")]
    return J + [Job("signal", n, {"mode": 1, "shape": i, "w": thor(tier, 24, 64)}, covers=["done", "rise"], bounds=f"the {n} shape: all widths up to {thor(tier, 24, 64)} and all positions") for i, n in ((1, "cosine"), (2, "cosine_square"))]

@reg("P26", ["the statistics are checked on windows of zeros and odd integers of up to 5 bits, on which their sums are exact"])
def p26(tier):
    S = ["rectangular", "triangular", "mean_abs", "median"]
    J = [Job("signal", "windows", {"mode": 2, "n": thor(tier, 6, 8), "w": thor(tier, 10, 12)}, covers=["done", "inside", "wide"], time=thor(tier, 400, 850), bounds=f"traces of 1..{thor(tier, 6, 8)} samples, all windows below {thor(tier, 10, 12)}, C and C++ interface, all finite samples")]
    J += [Job("signal", f"{S[i]}", {"mode": 3, "stat": i}, covers=["done", "zero"], time=thor(tier, 400, 850), bounds="windows of 1..3 samples, every centre") for i in range(4)]
    J += [Job("signal", f"{S[i]}_{n}", {"mode": 3, "stat": i, "n": n, "bits": b}, covers=["done", "zero"], time=thor(tier, 400, 850), bounds=f"windows of {n} samples of zeros and odd integers of {b + 1} bits") for i, n, b in ((0, 5, 4), (1, 4, 4), (2, 5, 4), (3, 4, 0)) + thor(tier, (), ((0, 7, 4), (2, 6, 3)))]
    return J + [Job("signal", "dead", {"mode": 4}, covers=["done"], bounds="traces of up to five zeros, windows below 8, all statistics")]

@reg("P27", ["the Fourier transform is a stand-in that touches exactly the documented ranges and yields arbitrary values", "the centre of the window lies within the trace", "the padding is checked through an order-1 recursion with integer coefficients"])
def p27(tier):
    C = ["done", "edge", "outside"]; D = ["time", "frequency"]; T = ["lowpass", "highpass", "bandpass", "bandstop"]; P = ["zero", "symmetric", "extend", "cyclic"]
    J = [Job("signal", f"{D[d]}_{T[t]}", {"mode": 5, "domain": d, "type": t, "ns": thor(tier, 7, 9)}, covers=C, time=thor(tier, 400, 850), bounds=f"two traces of 1..{thor(tier, 7, 9)} samples, all windows up to two longer than the trace, all centres and paddings, {T[t]} filter of order 1") for d in (0, 1) for t in range(4)]
    J += [Job("signal", f"order_{T[t]}", {"mode": 5, "auto": 1, "ns": 3, "type": t}, covers=C, time=thor(tier, 400, 850), bounds=f"four pairs of bands, order derived from them, {T[t]} filter") for t in range(4)]
    return J + [Job("signal", f"padding_{P[k]}", {"mode": 6, "pad": k, "half": thor(tier, 8, 12)}, covers=["done", "short"], time=thor(tier, 400, 850), bounds=f"windows of 1, 3, .. {thor(tier, 15, 23)} samples of 6 bits") for k in range(4)]

@reg("P23", ["operations are the ones on single traces (taper, gain control) and text headers", "samples of moderate magnitude when an operation is applied"])
def p23(tier):
    T = thor(tier, 300, 850); J = []
    def j(name, covers, bounds, **p): J.append(Job("flow", name, p, covers=covers, time=T, bounds=bounds))
    j("one", ["done", "empty"], "one file of 0..%d traces" % thor(tier, 3, 6), files=1, hi=thor(tier, 3, 6))
    j("two", ["done", "empty", "emptyfile"], "two files of 0..%d traces" % thor(tier, 2, 4), files=2, hi=thor(tier, 2, 4))
    for m in (1, 2): j(f"two_block{m}", ["done", "empty", "emptyfile"], f"two files of 0..2 traces, memory for blocks of {m}", files=2, hi=2, mem=m)
    j("two_ranks2", ["done", "empty", "emptyfile"], "two files of 0..%d traces on two processes" % thor(tier, 1, 2), files=2, hi=thor(tier, 1, 2), ranks=2)
    for r in (2, 3): j(f"blocks_ranks{r}", ["done", "empty"], f"one file of 0..3 traces on {r} processes, blocks of one trace, all operations", files=1, hi=3, ranks=r, mem=1, ops=3)
    for o in (1, 2, 3, 4): j(f"ops{o}", ["done", "empty"], "one file of 0..2 traces, " + ("taper", "gain control", "taper then gain control", "gain control then taper")[o - 1], files=1, hi=2, ops=o)
    j("taper_front", ["done"], "one file of 0..2 traces, front taper only", files=1, hi=2, ops=1, tail=0)
    for f in (1, 2): j(f"form{f}", ["done"], ("output by the destructor", "a second output of the same set")[f - 1], files=f, hi=thor(tier, 1, 2), form=f, ops=3)
    for r in (1, 2): j(f"rule{r}", ["done"], f"one file of 0..3 traces, rule set {r}", files=1, hi=3, rule=r)
    j("keys", ["done", "groups", "emptyfile"], "two files of 0..2 traces, each of one of three lengths and intervals", files=2, hi=2, keys=3)
    j("three", ["done", "emptyfile"], "three files of 0..1 traces", files=3, hi=1)
    j("three_keys", ["done", "groups"], "three files of 0..1 traces of one of two trace lengths, blocks of one trace", files=3, hi=1, keys=2, mem=1)
    if tier == "thorough":
        j("three_deep", ["done", "emptyfile"], "three files of 0..2 traces on two processes, blocks of one trace", files=3, hi=2, ranks=2, mem=1)
        j("keys_ranks", ["done", "groups"], "two files of 0..2 traces of three keys on two processes", files=2, hi=2, keys=3, ranks=2)
        j("ops_ranks3", ["done"], "two files of 0..2 traces on three processes, all operations, blocks of one", files=2, hi=2, ranks=3, mem=1, ops=4)
    return J

@reg("P24", ["traces which compare equal may come in any order", "a set that leaves less than three traces on one of several processes may be refused with a reported error"])
def p24(tier):
    T = thor(tier, 400, 850); J = []
    def j(name, covers, bounds, **p): J.append(Job("flow", name, p, covers=covers, time=T, bounds=bounds))
    j("one", ["done", "moved", "sorted"], "one file of 0..%d traces with any line numbers" % thor(tier, 4, 5), files=1, hi=thor(tier, 4, 5), sort=1)
    j("two", ["done", "moved", "sorted"], "two files of 0..2 traces with any line numbers", files=2, hi=2, sort=1)
    j("ops", ["done", "moved", "sorted"], "two sorts and a taper, one file of 0..4 traces, copied headers", files=1, hi=4, sort=2, rule=2, ops=1)
    j("forms", ["done", "moved", "sorted"], "two outputs, full rule set, blocks of two", files=1, hi=thor(tier, 3, 5), sort=1, rule=1, form=2, mem=2)
    j("copy_blocks", ["done", "moved", "sorted"], "copied headers, blocks of one", files=1, hi=3, sort=1, rule=2, mem=1)
    j("keys", ["done", "moved", "sorted", "groups"], "two files of 0..2 traces of one of two trace lengths", files=2, hi=2, keys=2, sort=1, bits=2)
    for s in (1, 2): j(f"ranks2_{s}", ["done", "moved", "sorted"], "files of 6 and 2 traces on two processes, one bit of line number", files=2, nt0=6, nt1=2, ranks=2, sort=s, bits=1)
    j("ranks2_six", ["done", "moved", "sorted"], "one file of 6 traces on two processes", files=1, lo=6, hi=6, ranks=2, sort=1, bits=2)
    j("ranks2_keys", ["refused"] + thor(tier, [], ["done"]), "two files of 0..%d traces of two trace lengths on two processes" % thor(tier, 3, 4), files=2, ranks=2, sort=1, hi=thor(tier, 3, 4), bits=1, keys=2)
    j("ranks3", ["done", "moved", "sorted"], "files of 6 and 4 traces on three processes", files=2, ranks=3, nt0=6, nt1=4, sort=1, bits=1)
    return J

@reg("P28", ["each process holds its traces in ascending order of the source x coordinate, as the utility arranges", "coordinates are small whole numbers which differ along one axis, so that distances are exact", "matches beyond the limit are unspecified"])
def p28(tier):
    T = thor(tier, 450, 850); J = []
    def j(name, covers, bounds, **p): J.append(Job("fourd", name, p, covers=covers, time=T, bounds=bounds))
    M = ["done", "match", "none"]
    j("two", M + ["last", "reversed"], "lists of 1..2 traces, coordinates of 2 bits, limit 1", bits=2, limit=1)
    j("few", M + ["last", "reversed", "nocandidates", "idle"], "lists of 0..2 traces, coordinates of 2 bits, limit 0", lo1=0, lo2=0, bits=2, limit=0)
    j("one", M + ["last", "reversed"], "one against 1..2 traces, coordinates of 3 bits, limit 2", bits=3, hi1=1)
    j("sources", M + ["last"], "1 against 1..3 traces with equal receivers, 3 bits, limit 2", hi1=1, hi2=3, rcv=0)
    j("five", M + ["last"], "1 against 5 traces with equal receivers, 2 bits, limit 0", lo2=5, hi2=5, hi1=1, rcv=0, bits=2, limit=0)
    j("y", M + ["last"], "lists of 1..2 traces along y, 3 bits, limit 2", axis=1)
    j("lines", M + ["last", "reversed"], "one against 1..2 traces of two inlines", ixline=1, hi1=1, bits=2, limit=1)
    j("crosslines", M + ["last", "reversed"], "one against 1..2 traces of two inlines and crosslines", ixline=2, hi1=1, bits=2)
    j("ranks2", M + ["remote", "reversed"], "two processes of one trace of each survey, 2 bits, limit 1", ranks=2, hi1=1, hi2=1, bits=2, limit=1)
    j("ranks2_few", M + ["remote", "reversed", "nocandidates", "idle"], "two processes of 0..1 traces of each survey, 1 bit, limit 0", ranks=2, lo1=0, hi1=1, lo2=0, hi2=1, bits=1, limit=0)
    j("ranks2_sources", M + ["remote", "last"], "two processes of 1 and 1..2 traces with equal receivers, 2 bits, limit 1", ranks=2, rcv=0, hi1=1, bits=2, limit=1)
    j("ranks2_idle", M + ["remote", "nocandidates", "idle"], "two processes of 0..1 traces with equal receivers, 2 bits, limit 1", ranks=2, rcv=0, lo1=0, lo2=0, hi1=1, hi2=1, bits=2, limit=1)
    j("ranks2_y", M + ["remote", "last"], "two processes of 1 and 1..2 traces along y", ranks=2, axis=1, bits=2, hi1=1, limit=1)
    j("ranks2_lines", M + ["remote"], "two processes of one trace along y of two inlines and crosslines", ranks=2, axis=1, bits=2, hi1=1, hi2=1, limit=1, ixline=2)
    j("ranks3", M + ["remote"], "three processes of one trace with equal receivers, 1 bit", ranks=3, rcv=0, hi1=1, hi2=1, bits=1, limit=0)
    j("ranks3_y", M + ["remote", "nocandidates", "idle"], "three processes of 0..1 traces along y", ranks=3, axis=1, bits=2, lo1=0, hi1=1, lo2=0, hi2=1, limit=1)
    if tier == "thorough":
        j("two_wide", M + ["last", "reversed"], "lists of 1..2 traces, coordinates of 3 bits, limit 2", bits=3)
        j("ranks2_wide", M + ["remote"], "two processes of 0..1 traces, 2 bits, limit 1", ranks=2, lo1=0, hi1=1, lo2=0, hi2=1, bits=2, limit=1)
        j("ranks3_one", M + ["remote", "reversed"], "three processes of one trace, 1 bit", ranks=3, hi1=1, hi2=1, bits=1, limit=0)
    return J

@reg("P30")
def p30(tier):
    J = [Job("comm", f"world{n}", {"mode": 1, "ranks": n}, covers=["done"], bounds=f"all values, {n} processes") for n in range(1, 7)]
    return J + [Job("comm", f"split{k}_{n}_{i}", {"mode": 1, "ranks": n, "split": k, "idle": i}, covers=["done"] + ["idle"] * i, bounds=f"all values, two groups of {k} and {n - k} processes" + (", the first idle" if i else "")) for n, k in ((2, 1), (3, 1), (3, 2), (4, 2), (6, 2)) for i in (0, 1)]

HOOKS = {"guard": "EXSEISDAT_VERIF", "enable": "the checks compile /repo/src with -DEXSEISDAT_VERIF (vp/build.py)", "source_commits": ["abf85986004f7fb5ad0a44b807bbd0bfefa0d093"]}
DEFAULT_NOTE = "Every path of the encoded functions within the stated bounds is explored and every assertion and memory access decided by Z3; nothing is claimed outside the bounds. Trusts clang's front end, the executor, the MPI/file model in rt/ and the harness oracle; sampled models of completed paths and all counterexamples are replayed on a sanitized native build."
NOTES = {}
NOT_APPLICABLE = {}
