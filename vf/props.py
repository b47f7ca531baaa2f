import os

from .driver import Unit, check


THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
NSYM = 6 if THOROUGH else 5


TF = ("-DVF_THOROUGH",) if THOROUGH else ()
MASKS = "every subset of the variables up to %d of them, 7 shapes beyond; trimmable symbols: at most 5 variables" % (6 if THOROUGH else 4)


PAR = {"range_par_.*": dict(max_steps=40000000)}


def mono(*names, pb=""):
    """the contracts of both monomial types"""
    us = []
    masked = ("p_degree", "subs", "merge", "trim", "diff", "integrate", "trim_identify")
    for full in (True, False):
        ps = [n + "_[iu](32|64)" + ("_[12]" if n == "range_par" else "") for n in names if (n not in masked) == full]
        if not ps:
            continue
        b = pb or ("" if full else MASKS)
        us.append(Unit("packed_monomial.cpp", ps, flags=TF, bounded=b, popts=PAR))
        ps = [n + "_[iu](32|64)_[0-9]" for n in names if (n not in masked) == full]
        b = "; ".join(x for x in (pb, "" if full else MASKS, DPM) if x)
        us.append(Unit("d_packed_monomial.cpp", ps, flags=TF, bounded=b, popts=PAR))
    return us, {}


DPM = "(T, PSize) in {(i32,1), (u32,3), (i64,2), (i64,8), (u64,1), (u64,4)}, at most 2*PSize+1 variables"


SER = ("-isystem", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shim_series"))


SERB = "series of at most 2 terms, 3 in both operands, and 2 segments; 3 symbols"


TXB = "monomials of at most 2 symbols, series of at most 3 terms (49 to 51 for the ellipsis), coefficients within 99 and exponents within 1000 in absolute value"


REN = {".*": dict(render=True)}


POLB = "polynomials of at most 3 terms, 4 in both operands, and 16 segments; 3 symbols"


def run(p):
    units, kw = PROPS[p]
    return check(p, units, **kw)


PROPS = {
    "P01": ([Unit("kpack.cpp", ["round_trip_.*", "unpack_pack_.*"])], {}),
    "P02": ([Unit("kpack.cpp", ["pack_.*", "unpack_ctor_.*", "unpack_exhausted_.*", "tables_.*"])], {}),
    "P03": ([Unit("arith.cpp", ["add_sub_.*"]), Unit("arith.cpp", ["add_sub_.*"], flags=("-DVF_NO_BUILTINS",))], {}),
    "P04": ([Unit("to_string.cpp", ["str_.*", "stream_.*"])], {}),
    "P06": ([Unit("symbols.cpp", ["merge"], bounded="at most %d distinct symbols in the union of the two sets" % NSYM,
                  flags=("-DVF_N=%d" % NSYM,))], {}),
    "P07": ([Unit("symbols.cpp", ["ss_.*", "sm_.*"], bounded="at most %d distinct symbols in the union of the two sets" % NSYM,
                  flags=("-DVF_N=%d" % NSYM,))], {}),
    "P08": mono("construct", "equality", "compatible"),
    "P09": mono("mul", "square"),
    "P10": mono("range_check", "range_par", pb="ranges of at most 2 elements (2x2 in one variable), or 5001 elements with 2 arbitrary ones"),
    "P11": mono("degree", "p_degree"),
    "P12": mono("diff", "integrate"),
    "P13": mono("power", pb="at most %d variables" % (5 if THOROUGH else 3)),
    "P14": mono("evaluate", "subs"),
    "P15": mono("merge", "trim", "trim_identify"),
    "P19": ([Unit("series_core.cpp", [".*"], flags=SER, bounded="series of at most 2 terms and 4 segments")], {}),
    "P20": ([Unit("series_arith.cpp", ["(add|sub|in_add|in_sub|throws)_same_11.*", "(self|scalar|neg|scale)_.*"], flags=SER + TF, bounded=SERB)], {}),
    "P21": ([Unit("series_arith.cpp", ["(add|sub|in_add|in_sub|throws)_(same_12|same_21|syms).*"], flags=SER + TF, bounded=SERB)], {}),
    "P22": ([Unit("series_arith.cpp", ["equal_.*"], flags=SER + TF, bounded=SERB)], {}),
    "P23": ([Unit("poly_mul.cpp", ["(mt|mt_seg|simple|simple_move|syms|overflow|throws)_.*"], flags=SER + TF, bounded=POLB)], {}),
    "P24": ([Unit("poly_mul.cpp", ["[tp](mt|mt_seg|simple|syms|overflow|throws)_.*"], flags=SER + TF, bounded=POLB)], {}),
    "P25": ([Unit("poly_diff.cpp", ["(diff|int|throws)_.*"], flags=SER + TF, bounded=POLB)], {}),
    "P26": ([Unit("degree.cpp", [".*"], flags=SER + TF, bounded=POLB)], {}),
    "P27": ([Unit("series_eval.cpp", ["(trim|add)_.*"], flags=SER + TF, bounded=POLB)], {}),
    "P28": ([Unit("series_eval.cpp", ["(eval|subs)_.*"], flags=SER + TF, bounded=POLB)], {}),
    "P29": ([Unit("poly_pow.cpp", [".*"], flags=SER + TF, bounded=POLB)], {}),
    "P30": ([Unit("power_series.cpp", ["(set|truncate|add|sub|in_add|in_sub|scalar|mul|in_mul|keep|equality|make).*"], flags=SER + TF, bounded=POLB)], {}),
    "P31": ([Unit("power_series.cpp", ["(pow|diff|int|subs)_.*|subs"], flags=SER + TF, bounded=POLB)], {}),
    "P32": ([Unit("s11n.cpp", ["packed_.*"], flags=SER + TF), Unit("s11n.cpp", ["(symbols|dynamic|series|several|throws).*"], flags=SER + TF, bounded=POLB)], {}),
    "P33": ([Unit("text.cpp", [".*"], flags=SER + TF, bounded=TXB, popts=REN)], {}),
    "P36": ([Unit("size.cpp", [".*"], flags=SER + TF, bounded="series of at most 3 terms and 4 segments")], {}),
    "P35": ([Unit("numbers.cpp", [".*"], flags=SER + TF)], {}),
    "P34": ([Unit("poly_make.cpp", [".*"], flags=SER + TF, bounded="three symbols, names of at most two characters")], {}),
    "P05": ([Unit("arith.cpp", ["conv_.*", "mp_.*"])], {}),
}
