"""Which harnesses decide which property, with which bounds."""
COMMON_ASSUMPTIONS = [
    "the compiler front end (clang 18 -O0 plus sroa, early-cse, simplifycfg) translates the sources as gcc -O2 does, up to undefined behaviour, which the engine reports",
    "the models of libstdc++/libc out-of-line functions and of exception unwinding in /verif/engine are faithful (checked on every run by replaying path witnesses on the native build)",
    "memory allocation never fails; one thread",
]
PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


def configs(pid, tier):
    out = []
    for c in PROPS[pid]["configs"]:
        t = c.get("tier", "both")
        if t != "both" and t != tier:
            continue
        d = {k: v for k, v in c.items() if k not in ("quick", "thorough", "tier")}
        over = c.get(tier, {})
        d.update(over)
        d["defs"] = list(c.get("defs", [])) + list(over.get("defs", []))
        out.append(d)
    return out




def C(name, src, defs=(), quick=(), thorough=(), expect=(), quick_kw=None, thorough_kw=None, **kw):
    """one configuration: defs always, quick/thorough added per tier; quick_kw/thorough_kw override keys per tier"""
    d = dict(name=name, src=src + ".cpp", defs=list(defs), expect=list(expect))
    d.update(kw)
    d["quick"] = dict(defs=list(quick), **(quick_kw or {}))
    d["thorough"] = dict(defs=list(thorough), **(thorough_kw or {"time": 800}))
    return d



def LONG(mode, *defs, **kw):
    """the same property on much longer signals, wider formulas, longer histories (harness/long.cpp)"""
    return C(kw.pop("name", "long"), "long", ["-DMODE=%d" % mode] + list(defs), expect=["long"], **kw)


EXACT = "in the configurations marked exact, doubles declared as reals are idealised as exact real numbers (floating-point rounding is decided separately: R13, and the IEEE configurations of S, R01, R06, R08); every reported counterexample is still replayed on the native IEEE build"
ROUND = "in the configurations over reals, each floating-point operation is the exact result plus an error within the IEEE bound, so a discharged assertion holds for every rounding"

prop("S01",
     bounds="every sequence of N appends (N=4 quick, 6 thorough), both overloads, every 64-bit pattern for time, value and slope",
     outside="longer histories",
     configs=[C("append", "S01", quick=["-DN=4"], thorough=["-DN=6"], expect=["accepted", "rejected"])])

prop("S02",
     bounds="every list of up to N samples (IEEE: N=2 quick, 4 thorough, all 64-bit patterns for time, value, slope; slopes: N=3/4, 4 gaps, 2 origins, every value), three ways of building, lengths differing by one",
     outside="longer lists; slopes for other time gaps",
     assumptions=[ROUND],
     configs=[C("ieee", "S02", quick=["-DN=2"], thorough=["-DN=4"], expect=["built", "mismatch", "rejected"]),
              C("slopes", "S02", ["-DREAL"], quick=["-DN=3"], thorough=["-DN=4"], expect=["built", "mismatch"])])

prop("S03",
     bounds="IEEE: up to N=2 (thorough 3) samples and a lookup time, all 64-bit patterns; interpolation: N=3 samples on a fixed lattice, every lookup time of a grid, every value",
     outside="longer signals; interpolation between other time pairs",
     assumptions=[ROUND],
     configs=[C("ieee", "S03", quick=["-DN=2"], thorough=["-DN=4"], expect=["found", "rejected"]),
              C("line", "S03", ["-DREAL"], thorough=["-DN=3"], expect=["hit", "between"])])

prop("S04",
     bounds="up to N=3 (thorough 6) samples, begin and end times: every 64-bit pattern (NaN samples excluded by S01)",
     outside="longer signals",
     configs=[C("ranges", "S04", quick=["-DN=3"], thorough=["-DN=6"], expect=["at-sample", "after-end", "before-begin", "between", "empty"])])

prop("S05",
     bounds="up to N=4 (thorough 6) samples on a lattice with every real value; up to 5 samples over the special values (infinities, NaN, signed zero)",
     outside="longer signals",
     assumptions=[ROUND],
     configs=[C("values", "S05", thorough=["-DN=6"], expect=["dropped"]),
              C("special", "S05", ["-DSPECIAL"], quick=["-DN=4"], thorough=["-DN=5"], expect=["dropped"])])

prop("S06",
     bounds="every non-empty subset of a 3-instant (thorough 4) lattice, every pair start < end from a grid around it, every value and fill",
     outside="other time ratios; longer signals",
     assumptions=[ROUND],
     configs=[C("resize", "S06", thorough=["-DN=4"], expect=["resized", "disjoint", "extends", "inside"])])

prop("S07",
     bounds="IEEE: up to 3 samples, every 64-bit pattern, every shift keeping the times distinct; resize-and-shift on a lattice with every value",
     outside="longer signals",
     assumptions=[ROUND],
     configs=[C("ieee", "S07", thorough=["-DN=4"], expect=["shifted", "empty"]),
              C("resize-shift", "S07", ["-DREAL"], expect=["resize-shifted"])])

prop("S08",
     bounds="every pair of subsets of a 5-instant (thorough 6) lattice with every value, plus two signals of up to 2 samples (thorough 3) with arbitrary IEEE times",
     outside="longer signals; interpolated values for other time ratios",
     assumptions=[ROUND],
     configs=[C("lattice", "S08", quick=["-DLAT=5"], thorough=["-DLAT=6"], expect=["overlap", "disjoint", "interpolated"]),
              C("any-times", "S08", ["-DFPT"], thorough=["-DN=3"], expect=["overlap", "disjoint"])])

prop("S09",
     bounds="every pair of samples with values and slopes over the reals in the stated ranges at lattice times; comparisons and negation for every 64-bit pattern",
     outside="crossing times at extreme slopes (rounding)",
     assumptions=[ROUND],
     configs=[C("geometry", "S09", expect=["interpolate", "area", "no-area", "intersect"]),
              C("order", "S09", ["-DFPM"], expect=["compared"])])

prop("R01",
     bounds="signals of 1..3 (thorough 5) samples, all 64-bit patterns for times, values and the constant, all four comparisons",
     outside="longer signals",
     configs=[C("margin", "R01", quick=["-DN=3"], thorough=["-DN=5"], expect=["above", "below"])])

prop("R02",
     bounds="IEEE: 1..3 (thorough 4) samples over five formulas; ramps with every level over five sub-formulas, masks and slopes",
     outside="longer signals, other sub-formulas",
     assumptions=[EXACT],
     configs=[C("ieee", "R02", quick=["-DFPM", "-DN=2"], thorough=["-DFPM", "-DN=4"], expect=["negated"]),
              C("nested", "R02", exact=True, expect=["negated"])])

prop("R03",
     bounds="every pair of non-empty subsets of a 3-instant (thorough 4) lattice with every value for each sample; crossings: pairs of ramps with 3x3 slope patterns and every level",
     outside="longer signals, other slope patterns",
     assumptions=[EXACT],
     configs=[C("values", "R03", exact=True, quick=["-DLAT=3"], thorough=["-DLAT=4"], expect=["and", "or", "disjoint"]),
              C("crossing", "R03", exact=True, quick=["-DLAT=4", "-DCROSS=2"], thorough=["-DCROSS=3"], expect=["and", "or", "crossing"])])

prop("R04",
     bounds="three (four) operands over distinct signals, two and three operands over the same signals (repeated, parallel and opposite bounds, some negated), every order/grouping listed, timestamps masks and ramp slopes as listed, every level",
     outside="more operands; other slopes",
     assumptions=[EXACT],
     configs=[C("three", "R04", exact=True, quick=["-DLAT=3", "-DMASKS=3", "-DPATS=1"], thorough=["-DLAT=4", "-DMASKS=3", "-DPATS=2"], expect=["and", "or"]),
              C("shared", "R04", ["-DSHARED"], exact=True, quick=["-DMASKS=1", "-DOPS=4"], thorough=["-DMASKS=3", "-DOPS=6"], expect=["and", "or"]),
           C("four", "R04", ["-DK=4"], exact=True, quick=["-DLAT=2", "-DMASKS=1", "-DPATS=1"], thorough=["-DLAT=2", "-DMASKS=3", "-DPATS=2"], expect=["and", "or"])])

prop("R05",
     bounds="eleven combinations of signal spans (two of them before time zero), both constants, 22 formulas, every value",
     outside="longer signals, deeper nesting",
     assumptions=[EXACT],
     configs=[C("constants", "R05", exact=True, expect=["true", "false"])])

prop("R06",
     bounds="1..3 (thorough 5) samples, every 64-bit pattern for times and non-NaN values, all three ways to leave the interval out",
     outside="longer signals",
     configs=[C("suffix", "R06", quick=["-DN=3"], thorough=["-DN=5"], expect=["eventually", "always"])])

prop("R07",
     bounds="17 windows (closed, zero-width integer, infinite, beyond the signal), every subset of a 4-instant lattice (thorough 5, two lattices), every value",
     outside="longer signals; other lattices and windows",
     assumptions=[EXACT],
     configs=[C("windows", "R07", exact=True, quick=["-DLATS=1", "-DLAT=4"], thorough=["-DLATS=2", "-DLAT=5"], expect=["eventually", "always"])])

prop("R08",
     bounds="IEEE: shared timestamps, up to 2 (thorough 3) samples, every non-NaN 64-bit pattern; every pair of subsets of a 3-instant (thorough 4) lattice, every value",
     outside="longer signals",
     assumptions=[EXACT],
     configs=[C("ieee", "R08", quick=["-DFPM=2"], thorough=["-DFPM=3"], expect=["until"]),
              C("lattice", "R08", exact=True, quick=["-DLAT=3"], thorough=["-DLAT=4"], expect=["until", "disjoint"])])

prop("R09",
     bounds="eleven outer operators over eleven inner formulas (thorough: every pair), ramp traces with every level",
     outside="other formulas, deeper nesting",
     assumptions=[EXACT],
     configs=[C("compose", "R09", exact=True, quick=["-DMASKS=1", "-DSLOPES=1"], thorough=["-DMASKS=2", "-DSLOPES=1", "-DPAIRS"], expect=["unary", "binary"])])

prop("R10",
     bounds="bounded and unbounded always/eventually over eight windows and six masks; conjunction/disjunction of two and three operands; ramps with every level",
     outside="other shapes",
     assumptions=[EXACT],
     configs=[C("dual", "R10", exact=True, expect=["always", "eventually", "and", "or"])])

prop("R11",
     bounds="sixteen formulas over two signals with N=2 (thorough 3) shared timestamps, every value, every constant (multiples of 2^-4 up to 16)",
     outside="longer traces, other formulas",
     assumptions=[EXACT],
     configs=[C("sign", "R11", exact=True, quick=["-DN=2"], thorough=["-DN=3"], expect=["evaluated"])])

prop("R12",
     bounds="ten formulas (and an interfering second one), two (thorough all) timestamp masks, every level; eight formulas and three traces destroyed and made again in the same memory",
     outside="other formulas",
     assumptions=[EXACT],
     configs=[C("pure", "R12", exact=True, quick=["-DMASKS=1"], thorough=["-DMASKS=2"], expect=["pure"]),
              C("reuse", "R12", ["-DREUSE"], exact=True, args=["--reuse"], expect=["reused"])])

prop("R13",
     bounds="two signals of two samples on shared times with every finite IEEE value; two and three signals on two lattices (spacing 0.1..1, offset 0 and 1e6) with every value, rounding modelled as a bounded error",
     outside="longer signals and other spacings; a candidate that depends on rounding and does not replay natively is not reported",
     assumptions=[ROUND, EXACT],
     configs=[C("ieee", "R13", ["-DFPX"], quick_kw={"rlimit": 3000000, "time": 150}, expect=["and", "or"]),
              C("steep", "R13", ["-DSTEEP"], quick=["-DN=2"], thorough=["-DN=3"], expect=["evaluated"]),
              C("rounding", "R13", quick=["-DLAT=2"], thorough=["-DLAT=3", "-DFULL"], expect=["and", "or"]),
              C("three", "R13", ["-DTHREE=2"], exact=True, quick=["-DLAT=2"], thorough=["-DLAT=3"], expect=["and", "or"])])

prop("R14",
     bounds="fourteen unevaluable constructs in fifteen contexts, trace masks, every level; the same contexts with the absent signal supplied evaluate",
     outside="other contexts",
     assumptions=[EXACT],
     configs=[C("reject", "R14", ["-DVALID=1"], exact=True, expect=["rejected", "valid"])])

prop("R15",
     bounds="sixteen formulas, five masks, two (thorough five) exact translations, ramps with every level",
     outside="other formulas",
     assumptions=[EXACT],
     configs=[C("translate", "R15", exact=True, quick=["-DSLOPES=1", "-DDTS=2"], thorough=["-DSLOPES=3", "-DDTS=5"], expect=["translated"])])

prop("M01",
     bounds="every history of N=6 (thorough 8) pushes interleaved with pops from the front, eight element/comparison kinds, every real value; N=4 (thorough 5) with every IEEE value",
     outside="longer histories",
     assumptions=[EXACT],
     configs=[C("reals", "M01", ["-DPOPS=1", "-DREALV"], exact=True, quick=["-DN=6"], thorough=["-DN=8"], expect=["min", "max"]),
              C("ieee", "M01", ["-DPOPS=1"], quick=["-DN=4"], thorough=["-DN=5"], expect=["min", "max"])])

prop("A01",
     bounds="every pair of 64-bit patterns as real bounds, every pair of 64-bit unsigned integers; construction, copy and transport through the three temporal operators",
     outside="nothing within the interval type",
     configs=[C("interval", "A01", expect=["accepted", "rejected", "integer", "default", "carried"])])

prop("A02",
     bounds="every chain of three (thorough four) combinations with & | ~ over thirteen kinds of formula, with every pair of constants in the predicates",
     outside="longer chains, other formula shapes",
     configs=[C("chains", "A02", quick=["-DK=3"], thorough=["-DK=4"], expect=["and", "or", "not", "merged"])])

prop("A03",
     bounds="implication, exclusive or and equivalence over 8x8 operand formulas (constants included) and over an operand with itself, its equal, its negation and another one over the same signal, two (thorough four) timestamp masks, ramps of one (thorough three) slope patterns with every level",
     outside="longer traces, other operands",
     assumptions=[EXACT],
     configs=[C("meaning", "A03", exact=True, quick=["-DMASKS=2", "-DSLOPES=1"], thorough=["-DMASKS=4", "-DSLOPES=3"], expect=["evaluated", "reduced", "constants"]),
              C("same", "A03", ["-DSAME"], exact=True, quick=["-DMASKS=2", "-DSLOPES=1"], thorough=["-DMASKS=4", "-DSLOPES=3"], expect=["evaluated", "reduced", "constants"])])

prop("A04",
     bounds="names of up to two arbitrary bytes plus fixed ones, every 64-bit constant, four comparisons, operand lists of 0..5, every interval, six operand formulas",
     outside="longer arbitrary names",
     configs=[C("builders", "A04", expect=["predicate", "equal", "different", "constant", "too-few", "nary", "unary", "until", "shared"])])

POS = dict(parser=True, replace=["tao::pegtl::to_string.*position=sx_position_text"], keep=["sx_position_text"])
PARSE = "source positions occur only in error texts, whose construction is replaced; the oracle is an independent recursive-descent reader of the documented notation (harness/refparse.h)"

prop("P01",
     bounds="a definition followed by an assertion whose formula has every operator over every operand kind (depth 1; thorough depth 2), chains of two or three (thorough four) commands with references; names, signals and digits are arbitrary identifier bytes and digits",
     outside="deeper nesting (P05 covers 40 and 900 levels of four operators), names longer than two bytes",
     assumptions=[PARSE],
     configs=[C("operators", "P01", quick=["-DDEPTH=1"], thorough=["-DDEPTH=2"], expect=["accepted", "rejected"], **POS),
              C("references", "P01", quick=["-DREFS=3"], thorough=["-DREFS=4"], expect=["accepted", "rejected"], **POS),
              C("two-letter", "P01", ["-DREFS=2", "-DW=2"], tier="thorough", expect=["accepted", "rejected"], **POS)])

prop("P02",
     bounds="every result of cutting up to one byte out of, and putting up to one arbitrary byte into, ten specifications at every position (thorough: two and two), plus seventy malformed ones (thorough: each with an edit of one byte)",
     outside="edits of more bytes",
     assumptions=[PARSE],
     configs=[C("edit0", "P02", ["-DSET=0"], quick=["-DSTEP=1", "-DDEL=1", "-DINS=1"], thorough=["-DSTEP=1", "-DDEL=2", "-DINS=2"], expect=["accepted", "rejected"], **POS),
              C("edit1", "P02", ["-DSET=1"], quick=["-DSTEP=1", "-DDEL=1", "-DINS=1"], thorough=["-DSTEP=1", "-DDEL=2", "-DINS=2"], expect=["accepted", "rejected"], **POS),
              C("edit2", "P02", ["-DSET=2"], quick=["-DSTEP=1", "-DDEL=1", "-DINS=1"], thorough=["-DSTEP=1", "-DDEL=2", "-DINS=2"], expect=["accepted", "rejected"], **POS),
              C("listed", "P02", ["-DSET=3"], quick=["-DSTEP=3", "-DDEL=0", "-DINS=1"], thorough=["-DSTEP=1", "-DDEL=1", "-DINS=1"], expect=["accepted", "rejected"], **POS)])

prop("P03",
     bounds="eighteen numeral shapes with arbitrary digits or bytes, thirty fixed numerals at the edges of long and double, both operand orders, four operators; up to three arbitrary bytes as the operator",
     outside="longer numerals with arbitrary digits",
     assumptions=[PARSE, "strtod is modelled by its correctly rounded result (exact arithmetic for up to 15 digits and exponents up to 22, otherwise the host's strtod per digit value)"],
     configs=[C("numerals", "P03", thorough=["-DMORE"], expect=["accepted", "rejected"], **POS),
              C("operators", "P03", ["-DOPS"], expect=["accepted", "rejected"], **POS)])

prop("P04",
     bounds="a specification of thirty tokens: in any one gap (also before the first and after the last token) up to one (thorough two) arbitrary white-space bytes, a comment of up to two (thorough three) arbitrary bytes, more white space; comment ended by the end of the input",
     outside="several unusual gaps at once; longer comments",
     assumptions=[PARSE],
     configs=[C("gaps", "P04", quick=["-DGAP=1"], thorough=["-DGAP=2"], expect=["compared"], **POS)])

prop("P05",
     bounds="every byte string of up to 6 (thorough 8) bytes; every string of up to 2 (thorough 3) bytes inside thirteen partial specifications; four operators nested 40 (thorough 900) deep with an arbitrary digit inside, and nested 40000 deep",
     outside="longer arbitrary strings",
     assumptions=[PARSE],
     configs=[C("bytes", "P05", quick=["-DL=6"], thorough=["-DL=8"], expect=["accepted", "rejected"], **POS),
              C("framed", "P05", ["-DFRAMES=13"], quick=["-DL=2"], thorough=["-DL=3"], expect=["accepted", "rejected"], **POS),
              C("nested", "P05d", quick=["-DDEEP=40"], thorough=["-DDEEP=900"], expect=["accepted"], args=["--max-stack", "200000"], **POS),
              C("deep", "P05d", ["-DDEEP=40000"], expect=[], args=["--max-stack", "200000"], **POS)])

prop("P06",
     bounds="two commands and a use with every identifier of one (thorough two) bytes; nine keyword-like prefixes with an optional further byte; two specifications parsed one after the other; four shapes of misuse with two-byte names",
     outside="longer names, more commands (P01 covers chains)",
     assumptions=[PARSE],
     configs=[C("resolve", "P06", ["-DMODE=0"], quick=["-DW=1"], thorough=["-DW=2"], expect=["accepted", "rejected"], **POS),
              C("keywords", "P06", ["-DMODE=1", "-DW=1"], expect=["accepted", "rejected"], **POS),
              C("again", "P06", ["-DMODE=2", "-DW=1"], expect=["accepted", "rejected"], **POS),
              C("misuse", "P06", ["-DMODE=3"], quick=["-DW=1"], thorough=["-DW=2"], expect=["accepted", "rejected"], **POS)])

prop("P07",
     bounds="every file of up to five (thorough seven) bytes; three framing texts with up to two (thorough three) arbitrary bytes inside; a file that does not exist",
     outside="longer files; files changed while read; other I/O errors",
     assumptions=[PARSE, "system calls, stdio, file streams and the out-of-line parts of std::filesystem are models of one regular file (engine/fs.cpp, engine/io.cpp); witnesses are replayed on real files"],
     configs=[C("file", "P07", quick=["-DL0=5", "-DL=2"], thorough=["-DL0=7", "-DL=3"], expect=["accepted", "rejected", "missing"], **POS)])

NUMBERS = dict(fmt="impl", replace=["fmt::v9::appender fmt::v9::detail::write<char, fmt::v9::appender, double, 0>\\(fmt::v9::appender, double\\)=sx_fmt_double",
                                   "fmt::v9::appender fmt::v9::detail::write<char, fmt::v9::appender, double, 0>\\(fmt::v9::appender, double, fmt.*=sx_fmt_specs",
                                   "std::back_insert_iterator<.*> fmt::v9::detail::write<char, std::back_insert_iterator<.*>, double, 0>\\(std::back_insert_iterator<.*>, double\\)=sx_fmt_double_s"],
               keep=["sx_fmt_double", "sx_fmt_double_s", "sx_fmt_specs"], args=["--zero-stack"])
prop("F01",
     bounds="every operator over every operand kind (depth 1 with every non-NaN constant and every pair of interval bounds, the number's digits represented by its bits; depth 1 with nine constants and seven intervals; depth 2 with fewer constants and three intervals; thorough: depth 2 with all), names of one or two arbitrary lower-case letters",
     outside="other constants and interval bounds (their shortest decimal form comes from {fmt}); names containing spaces, parentheses or the letters of the notation",
     assumptions=["the oracle is a reader of the documented notation that must give back the printed formula", "the real {fmt} 9 templates are executed; locals start as zero; in the configuration any-number the shortest decimal form of a double is represented by its bits: it tells all doubles except NaNs apart"],
     configs=[C("one", "F01", ["-DDEPTH=1"], fmt="impl", args=["--zero-stack"], expect=["printed"]),
              C("any-number", "F01", ["-DDEPTH=1", "-DANY"], expect=["printed"], **NUMBERS),
              C("two", "F01", ["-DDEPTH=2"], quick=["-DSMALL"], fmt="impl", args=["--zero-stack"], expect=["printed"])])

prop("F02",
     bounds="signals of 0..2 (thorough 3) samples with every non-NaN time and value; one to 260 samples of which any one value is free; single samples",
     outside="NaN; the decimal digits themselves (from {fmt}), except for thirteen fixed numbers",
     assumptions=["in the configurations any and long, the shortest decimal form of a double is represented by its bits: it tells all doubles except NaNs apart", "the rest of {fmt} 9 is executed; locals start as zero"],
     configs=[C("any", "F02", quick=["-DMAXN=2"], thorough=["-DMAXN=3"], expect=["printed"], **NUMBERS),
              C("long", "F02", ["-DWIDE"], expect=["printed"], **NUMBERS),
              C("digits", "F02", ["-DFIXED", "-DMAXN=1"], fmt="impl", args=["--zero-stack"], expect=["printed"])])

LONGS = {"S01": [LONG(101)], "S02": [LONG(102, exact=True)], "S03": [LONG(103, exact=True)], "S04": [LONG(104)], "S05": [LONG(105, exact=True)], "S06": [LONG(106, exact=True)],
         "S07": [LONG(107, exact=True)], "S08": [LONG(108, exact=True)], "R01": [LONG(201, exact=True)],
         "R02": [LONG(201, "-DNEG=1", exact=True), LONG(201, "-DNEG=2", name="long-twice", exact=True)], "R03": [LONG(203, exact=True, thorough=["-DDEEP=1"])], "R04": [LONG(204, exact=True)],
         "R14": [LONG(204, "-DMISSING", exact=True)], "R06": [LONG(206, exact=True)], "R07": [LONG(207, exact=True)], "R08": [LONG(208, exact=True, thorough=["-DDEEP=1"])], "R09": [LONG(209, exact=True)],
         "R12": [LONG(212, exact=True)], "M01": [LONG(301, exact=True)]}
for _p, _c in LONGS.items():
    PROPS[_p]["configs"] += _c + [dict(c, name="vast", defs=c["defs"] + ["-DVAST"]) for c in _c[:1]]
    PROPS[_p]["bounds"] += "; and, with few free values, signals of 9 to 40 samples, up to 24 operands, 34 wedge candidates, nesting 12, 20 evaluations (harness/long.cpp)"


# The same configurations in other units: a power-of-two unit changes nothing but what depends on absolute sizes.
SCALES = {1: "minute", 2: "huge", 3: "close", 4: "flat", 5: "steep", 6: "fine"}
SCALED = {"S02": {"slopes": (1, 2, 3, 4, 5)}, "S03": {"line": (1, 2, 3, 4, 5)}, "S05": {"values": (1, 2, 3, 4, 5)}, "S06": {"resize": (1, 2, 3, 4, 5, 6)}, "S07": {"resize-shift": (1, 2, 3, 4, 5, 6)}, "S08": {"lattice": (1, 2, 3, 4, 5)},
          "S09": {"geometry": (1, 2, 4, 5)}, "R02": {"nested": (1, 2)}, "R03": {"values": (1, 2, 3, 4, 5), "crossing": (1, 2, 4, 5)}, "R04": {"three": (1, 2)}, "R05": {"constants": (1, 2, 3)}, "R07": {"windows": (1, 2, 3, 4, 5, 6)},
          "R08": {"lattice": (1, 2, 3, 4, 5)}, "R09": {"compose": (1, 2)}, "R10": {"dual": (1, 2, 6)}, "R11": {"sign": (1, 2)}, "R12": {"pure": (1, 2)}, "R15": {"translate": (1, 2)}, "A03": {"meaning": (1, 2)}}
for _p, _m in SCALED.items():
    for _c in list(PROPS[_p]["configs"]):
        for _k in _m.get(_c["name"], ()):
            _d = dict(_c)
            _d["name"] += "-" + SCALES[_k]
            _d["defs"] = _c["defs"] + ["-DSCALE=%d" % _k]
            if _k in (2, 5, 6):
                _d["exact"] = True            # the certificates of exactness reach down to units of 1 only
            if (_p, _k) == ("R10", 6):
                _d["expect"] = ["always", "eventually"]     # windows are what this unit is for
            PROPS[_p]["configs"].append(_d)
    PROPS[_p]["bounds"] += "; the same in minute units (2^-60), huge units (2^40)" + (", close together (2^-42 apart at 1)" if any(3 in v for v in _m.values()) else "") + (", flat (slopes of 2^-48) and steep (2^48)" if any(4 in v for v in _m.values()) else "") + (", fine (1 + 2^-40)" if any(6 in v for v in _m.values()) else "")


def PLONG(part):
    return C("long", "plong", ["-DPART=%d" % part], expect=["accepted", "rejected"] if part != 3 else ["accepted"], **POS)


for _p, _k in {"P01": 1, "P02": 2, "P03": 3, "P04": 4, "P06": 6}.items():
    PROPS[_p]["configs"].append(PLONG(_k))
    PROPS[_p]["bounds"] += "; and, with few arbitrary bytes, up to 130 operands, 70 commands, names of 260 bytes, numerals of 80 digits, gaps of 1100 bytes, nesting of 33 operators (harness/plong.cpp)"

PROPS["A02"]["configs"].append(C("long", "A02", ["-DCHAIN"], expect=["chain", "merged"]))
PROPS["A04"]["configs"].append(C("long", "A04", ["-DWIDE"], expect=["nary", "equal", "different"]))
PROPS["F01"]["configs"].append(C("long", "F01", ["-DWIDE"], fmt="impl", args=["--zero-stack"], expect=["printed"]))
for _p in ("A02", "A04", "F01"):
    PROPS[_p]["bounds"] += "; and, with one free value, up to 40 operands in a chain or list, names of 200 bytes, nesting of 40 operators"
PROPS["A02"]["bounds"] = PROPS["A02"]["bounds"].replace("over thirteen kinds of formula", "over fifteen kinds of formula or the chain itself")
