from vp import Goal

PROPS = {}
NOT_APPLICABLE = {}
R8 = [dict(VP_R=i) for i in range(8)]
def rl(*ranges):
    return [dict(VP_R=i, VP_LO=a, VP_HI=b) for a, b in ranges for i in range(8)]

L32 = rl((0, 15), (16, 32))
L64 = rl((0, 15), (16, 31), (32, 47), (48, 63), (64, 64))
def nz(l):
    return [dict(c, VP_LO=max(1, c["VP_LO"])) for c in l]
PROPS["C01"] = dict(goals=[
    Goal("getbitu", "bits_get.c", "h_getbitu", ["getbitu"], srcs=["bits.c"],
         cases=L32, solvers=["cvc5", "sat"], unwind=34),
    Goal("getbitul", "bits_get.c", "h_getbitul", ["getbitul"], srcs=["bits.c"],
         cases=L64, solvers=["cvc5", "sat"], unwind=66),
    Goal("getbits", "bits_get.c", "h_getbits", ["getbits"], replace=["getbitu"],
         srcs=["bits.c"], cases=nz(rl((1, 32))), solvers=["sat", "cvc5"], unwind=34),
    Goal("getbitsl", "bits_get.c", "h_getbitsl", ["getbitsl"], replace=["getbitul"],
         srcs=["bits.c"], cases=nz(rl((1,64))), solvers=["sat", "cvc5"], unwind=66),
])

PROPS["C02"] = dict(goals=[
    Goal(f, "bits_set.c", "h_" + f, [f], srcs=["bits.c"], solvers=["sat", "cvc5"],
         unwind=12) for f in ("setbitu", "setbits", "setbitul", "setbitsl")])

PROPS["C03"] = dict(goals=[
    Goal("bitshl", "bits_move.c", "h_bitshl", ["bitshl"], srcs=["bits.c"],
         defs=["VP_N=10"], unwind=12, bounded="buffers of 1 to 10 bytes, any shift"),
    Goal("getbitu-bitform", "bits_move.c", "h_getbit_k", ["getbitu"],
         srcs=["bits.c"], cases=L32, solvers=["cvc5", "sat"], unwind=34, native=False),
    Goal("setbitu-bitform", "bits_move.c", "h_setbit_k", ["setbitu"],
         srcs=["bits.c"], cases=R8, solvers=["sat", "cvc5"], unwind=34, native=False),
    Goal("bitcopy", "bits_move.c", "h_bitcopy", ["bitcopy"], srcs=["bits.c"],
         cases=[dict(VP_SI=i, VP_DI=j) for i in range(8) for j in range(8)],
         defs=["VP_N=10"], unwind=34, solvers=["sat", "cvc5"],
         bounded="buffers of 10 bytes, up to 80 bits, starting in byte 0"),
])

PROPS["C04"] = dict(goals=[
    Goal("parity", "words.c", "h_parity", ["parity"], srcs=["bits.c"], unwind=66),
    Goal("bytes_interleave", "words.c", "h_interleave", ["bytes_interleave"],
         srcs=["bits.c"], unwind=66)] + [
    Goal("count_bits_u%d" % w, "words.c", "h_count%d" % w, ["count_bits_u%d" % w],
         srcs=["bits.c"], unwind=66) for w in (8, 16, 32, 64)] + [
    Goal(f, "words.c", "h_" + f, [f + "/c_" + f], srcs=["bits.c"], unwind=66)
    for w in (16, 32, 64) for f in ("byte_swap_%d" % w, "htobe_%d" % w,
        "betoh_%d" % w, "htole_%d" % w, "letoh_%d" % w)])

STREAM_B = "successful reads from buffers of up to 64 bytes; rejected ones from buffers of any length"
PROPS["C05"] = dict(goals=[
    Goal("in_" + f, "streams.c", "h_" + f, ["swiftnav_in_bitstream_" + f + "/c_" + f],
         replace=[f], srcs=["bits.c"], unwind=66)
    for f in ("getbitu", "getbits", "getbitul", "getbitsl")] + [
    Goal("out_" + f, "streams.c", "h_" + f, ["swiftnav_out_bitstream_" + f + "/c_" + f],
         replace=[f], srcs=["bits.c"], unwind=66)
    for f in ("setbitu", "setbits", "setbitul", "setbitsl")] + [
    Goal(s + f, "streams.c", "h_swiftnav_" + s + f, ["swiftnav_" + s + f + "/c_swiftnav_" + s + f],
         srcs=["bits.c"], unwind=66)
    for s in ("in_bitstream", "out_bitstream", "bytestream") for f in ("_remove", "_remaining")] + [
    Goal("get_bytes", "streams.c", "h_get_bytes", ["swiftnav_bytestream_get_bytes/c_get_bytes"],
         srcs=["bits.c"], unwind=34,
         defs=["W=16"], bounded=STREAM_B.replace("64", "16"))] + [
    Goal(f, "streams.c", "h_" + f, ["swiftnav_bytestream_" + f + "/c_" + f],
         srcs=["bits.c"], unwind=34, bounded=STREAM_B)
    for f in ["decode_%s%d" % (s, w) for s in "us" for w in (8, 16, 32, 64)]])

PROPS["C06"] = dict(goals=[
    Goal("byte-step", "crc.c", "h_step", ["crc24q"], srcs=["edc.c"], unwind=18),
    Goal("byte-chain", "crc.c", "h_chain", srcs=["edc.c"], unwind=130, dfcc=False,
         fns=["crc24q"], cases=[dict(VP_LEN=n, N=max(1, n)) for n in
         (0, 1, 2, 3, 5, 8, 13, 24, 32)], solvers=["cvc5", "sat"],
         bounded="messages of 0 to 32 bytes (nine lengths)"),
    Goal("pieces", "crc.c", "h_compose", srcs=["edc.c"], unwind=66, dfcc=False,
         fns=["crc24q"], cases=[dict(VP_LEN=n, N=n, VP_K=k) for n, k in
         ((7, 1), (7, 3), (16, 7), (16, 15), (32, 20))], solvers=["cvc5", "sat"],
         bounded="messages of 7, 16, 32 bytes, five split points"),
    Goal("crc24q_bits", "crc.c", "h_bits", ["crc24q_bits"], srcs=["edc.c"],
         cases=[dict(VP_R=i, VP_LEN=n, N=n) for n in (1, 2, 6) for i in range(8)],
         unwind=66, solvers=["cvc5", "sat"],
         bounded="messages of 1-16 and 41-48 bits"),
    Goal("crc24q_bits-long", "crc.c", "h_bits", ["crc24q_bits"], srcs=["edc.c"],
         cases=[dict(VP_R=i, VP_LEN=n, N=n) for n in (15, 20) for i in range(8)],
         unwind=66, solvers=["cvc5", "sat"], tier="thorough", timeout=800,
         bounded="messages of 113-120 and 153-160 bits")])

FIFO_SZ = [dict(SZ=n) for n in (1, 2, 4, 8, 16)]
PROPS["C07"] = dict(goals=[
    Goal("fifo_" + f, "fifo.c", "h_" + f, ["fifo_" + f], srcs=["fifo_byte.c"],
         unwind=20, defs=["VP_SYM"]) for f in ("init", "length", "space", "remove")] + [
    Goal("fifo_" + f, "fifo.c", "h_" + f, ["fifo_" + f], srcs=["fifo_byte.c"],
         unwind=20, cases=FIFO_SZ, bounded="buffer sizes 1, 2, 4, 8, 16; any index values, any request size")
    for f in ("peek", "read", "write")])

SET_SRCS = ["set.c", "signal.c", "glo_map.c"]
SET_B = "arrays of up to %d elements, any contents"
PROPS["C08"] = dict(goals=[
    Goal("is_set", "sets.c", "h_is_set", ["is_set"], srcs=SET_SRCS, unwind=260,
         cases=[dict(VP_NS=n) for n in (0, 1, 2, 3, 4, 8, 32, 255)], bounded="arrays of 0-4, 8, 32 and 255 elements"),
    Goal("is_sid_set", "sets.c", "h_is_sid_set", ["is_sid_set"], srcs=SET_SRCS,
         cases=[dict(VP_NS=n) for n in range(6)], unwind=8, bounded=SET_B % 5)] + [
    Goal(f, "sets.c", "h_" + f, [f], srcs=SET_SRCS, unwind=13, bounded=SET_B % 5,
         cases=[dict(VP_NA=n, VP_NB=0) for n in range(6)])
    for f in ("insertion_index", "insert_element", "remove_element")] + [
    Goal(f + t, "sets.c", "h_" + f, [f], srcs=SET_SRCS, unwind=13, bounded=SET_B % k, tier=q,
         defs=["N=%d" % k], cases=[dict(VP_NA=n, VP_NB=m) for n in range(k + 1) for m in range(k + 1)
                                   if k == 3 or max(n, m) == 4])
    for t, k, q in (("", 3, "quick"), ("-4", 4, "thorough"))
    for f in ("intersection", "intersection_map")])

SIG_SRCS = ["signal.c", "glo_map.c"]
SS = SIG_SRCS + ["sid_set.c", "bits.c"]
PROPS["C09"] = dict(goals=[
    Goal("sid_set_" + f, "sid_set.c", "h_" + f, ["sid_set_" + f], srcs=SS, unwind=66)
    for f in ("init", "add", "remove", "contains")] + [
    Goal("sid_set_get_" + f, "sid_set.c", "h_" + f, ["sid_set_get_" + f], defs=["VP_COUNT_BY_CONTRACT"],
         srcs=SIG_SRCS + ["sid_set.c"], native_srcs=["bits.c"], unwind=66) for f in ("sig_count", "sat_count")],
    assumptions=["count_bits_u64 taken at its contract (number of set bits), which C04 discharges"])

def sig(n, f, **k):
    return Goal(n, "signal.c", "h_" + f, srcs=SIG_SRCS, **dict(dict(unwind=66), **k))
PROPS["C10"] = dict(goals=[
    sig("sid_valid", "valid", enforce=["sid_valid"]),
    sig("constellation_valid", "cons_valid", enforce=["constellation_valid"]),
    sig("sid_to_code_index", "to_index", enforce=["sid_to_code_index"]),
    sig("sid_from_code_index", "from_index", enforce=["sid_from_code_index"]),
    sig("index-roundtrip", "roundtrip", dfcc=False, fns=["sid_to_code_index", "sid_from_code_index"]),
    sig("construct_sid", "construct", enforce=["construct_sid"]),
    sig("sid_to_constellation", "sid_cons", enforce=["sid_to_constellation"]),
    sig("code_to_constellation", "code_cons", enforce=["code_to_constellation"]),
    sig("constellation_to_sat_count", "sat_count", enforce=["constellation_to_sat_count"]),
    sig("sid_compare", "compare", enforce=["sid_compare/c_compare"]),
    sig("sid_is_equal", "equal", enforce=["sid_is_equal/c_equal"]),
    sig("predicates", "predicates", dfcc=False, fns=["is_gps", "is_sbas", "is_glo", "is_bds2", "is_qzss", "is_gal",
        "constellation_to_l1_code", "constellation_to_l5_code", "constellation_to_char", "char_to_constellation"])])
PROPS["C11"] = dict(goals=[
    sig("names", "code_names", dfcc=False, fns=["code_to_string", "constellation_to_string",
        "constellation_string_to_enum", "sub_constellation_to_string", "sub_constellation_string_to_enum",
        "sub_constellation_to_constellation"]),
    sig("code_string_to_enum", "label", enforce=["code_string_to_enum"]),
    sig("sid_to_string", "to_string", dfcc=False, fns=["sid_to_string", "sat_code_to_string"],
        cases=[dict(VP_C=i) for i in (-1, 0, 2, 3, 14, 44, 64)]),
    sig("sid_to_string-edges", "to_string", dfcc=False, fns=["sid_to_string", "sat_code_to_string"],
        defs=["VP_EDGES"], bounded="first, last and largest satellite number of every code"),
    sig("sid_to_string-all", "to_string", dfcc=False, fns=["sid_to_string", "sat_code_to_string"],
        cases=[dict(VP_C=i) for i in range(64) if i not in (0, 2, 3, 14, 44)], tier="thorough"),
    sig("code-data", "code_data", dfcc=False, fns=["sid_to_carr_freq", "sid_to_lambda", "code_to_sv_doppler_min",
        "code_to_sv_doppler_max", "code_to_chip_count", "code_to_prn_period_ms", "code_to_phase_alignment"]),
    sig("sbas", "sbas", dfcc=False, fns=["get_sbas_system", "get_sbas_prn_list"])])

PROPS["C12"] = dict(goals=[
    Goal("glo_map-" + n, "glo_map.c", "h_" + n, dfcc=False, fns=f, srcs=SIG_SRCS, unwind=66)
    for n, f in (("read", ["glo_map_valid", "glo_map_get_fcn"]), ("set", ["glo_map_set_slot_id"]),
                 ("clear", ["glo_map_clear_slot_id"]), ("clear_all", ["glo_map_clear_all"]),
                 ("slots", ["glo_map_get_slot_id"]), ("freq", ["sid_to_carr_freq", "sid_to_lambda"]))])

GN = ["decode_glo.c", "glo_map.c", "bits.c"]
PROPS["C13"] = dict(goals=[
    Goal("extract_word_glo", "glo_nav.c", "h_extract", dfcc=False, fns=["extract_word_glo"], srcs=GN, native_srcs=["signal.c"], unwind=4),
    Goal("error_detection_glo", "glo_nav.c", "h_detect", dfcc=False, fns=["error_detection_glo"],
         srcs=GN[:2], native_srcs=["bits.c", "signal.c"], defs=["VP_PARITY_BY_CONTRACT"], unwind=90, solvers=["cvc5", "sat"]),
    Goal("hamming-code", "glo_nav.c", "h_code", dfcc=False, fns=["error_detection_glo"], srcs=GN, native_srcs=["signal.c"], unwind=90)])
PROPS["C14"] = dict(goals=[
    Goal("decode_glo_string_%d" % i, "glo_nav.c", "h_string%d" % i, dfcc=False, solvers=["cadical", "sat"],
         fns=["decode_glo_string_%d" % i], srcs=GN, native_srcs=["signal.c"], unwind=90) for i in range(1, 6)])


TS = ["gnss_time.c", "bits.c"]
def tm(n, f, **k):
    return Goal(n, "time.c", "h_" + f, **dict(dict(srcs=TS, native_srcs=["signal.c", "glo_map.c"], dfcc=False, unwind=20,
                                                  solvers=["cadical", "sat"]), **k))
WK = "times of week within 2 weeks of the week they are given for"
PROPS["C15"] = dict(goals=[
    tm("valid", "valid", fns=["gps_time_valid", "gps_current_time_valid", "gps_current_time_valid_with_wn_ref"]),
    tm("normalize-unsafe", "unsafe", fns=["unsafe_normalize_gps_time"], unwind=4, bounded=WK),
    tm("normalize", "normalize", fns=["normalize_gps_time_safe"], unwind=4, bounded=WK),
    tm("normalize-assert", "assert_variant", fns=["normalize_gps_time"], unwind=4, bounded=WK),
    tm("duration", "duration", fns=["normalize_gps_time_duration"], unwind=4, bounded=WK),
    tm("add_secs", "add", fns=["add_secs"], unwind=5, bounded="steps of less than 2 weeks", solvers=["cvc5fpa", "cadical"])])
PROPS["C16"] = dict(goals=[
    tm("week-cycle", "cycle", fns=["gps_adjust_week_cycle", "gps_adjust_week_cycle256"]),
    tm("match-weeks", "match", fns=["gps_time_match_weeks_safe", "gps_time_match_weeks"])])
WP = [dict(VP_W1=a, VP_W2=b) for a, b in ((0, 0), (2200, 2200), (2200, 2199), (2199, 2200), (0, 1), (1930, 1042), (32767, 0), (0, 32767))]
CONC = ["--no-standard-checks", "--unwinding-assertions"]
WU = [dict(VP_W1=a, VP_W2=b) for a, b in ((-1, 2200), (2200, -1), (-1, -1))]
FPA = dict(solvers=["z3fpa", "cvc5fpa", "cadical"], unwind=5)
PROPS["C17"] = dict(goals=[
    tm("difference", "diff", fns=["gpsdifftime"], cases=WP, bounded="any times of week, eight pairs of weeks", **FPA),
    tm("difference-weeks", "diff_week", fns=["gpsdifftime"], bounded="any pair of weeks, one pair of times of week", solvers=["cvc5fpa", "cadical"]),
    tm("difference-unknown", "diff", fns=["gpsdifftime"], cases=WU, unwind=5, solvers=["cvc5fpa", "cadical"]),
    tm("reversed", "diff_rev", fns=["gpsdifftime"], cases=WU, unwind=9, checks=CONC, bounded="eight times of week, incl. half a week apart, unknown weeks"),
    tm("week-second-form", "diff_ws", fns=["gpsdifftime_week_second"], defs=["VP_ANY"], unwind=5, solvers=["cvc5fpa", "cadical"], tier="thorough"),
    tm("week-second-pairs", "diff_ws", fns=["gpsdifftime_week_second"], cases=WP[1:4], unwind=5, solvers=["cvc5fpa", "cadical"],
       bounded="any times of week, three pairs of weeks"),
    tm("in-range", "range", fns=["gpstime_in_range"], cases=[dict(VP_W1=a, VP_W2=2199, VP_W3=2200, VP_Q2=q, VP_Q3=r) for a in (2198, 2199, 2200, 2201)
        for q, r in ((2419199, 0), (1209600, 1209601))],
       bounded="ranges from week 2199 to 2200, two pairs of ends, any time on quarters of a second in weeks 2198 to 2201", unwind=5),
    tm("in-range-one-week", "range", fns=["gpstime_in_range"], cases=[dict(VP_W1=a, VP_W2=b, VP_W3=c) for a, b, c in
        ((2200, 2200, 2200), (2199, 2199, 2200), (2198, 2199, 2200), (2201, 2199, 2200))],
       bounded="times on quarters of a second, four triples of weeks", unwind=5, tier="thorough")])
PROPS["C18"] = dict(goals=[
    tm("calendar-any-week", "calendar", fns=["make_utc_tm"], cases=[dict(VP_D=d, VP_TOD=s) for d, s in
        ((0, 0), (1, 1), (2, 43200.25), (5, 3661), (6, 86399.999))], bounded="five times of week, every week"),
    tm("clock", "clock", fns=["make_utc_tm"], cases=[dict(VP_D=d) for d in (0, 6)], bounded="any time on days 0 and 6 of week 2000"),
    tm("clock-all", "clock", fns=["make_utc_tm"], cases=[dict(VP_D=d) for d in (1, 2, 3, 4, 5)], tier="thorough"),
    tm("calendar-all", "calendar", fns=["make_utc_tm"], cases=[dict(VP_D=d) for d in range(7)], tier="thorough", timeout=800),
    tm("months", "months", fns=["is_leap_year", "days_in_month"]),
    tm("unix", "unix", fns=["unix_time_valid", "unix_time_valid_with_wn_ref", "time2gps_t"])],
    assumptions=["fmod of the C library is exact (stand-in in harness/time_spec.h)"])
# concrete inputs: memory safety is part of the other goals
def lp(n, f, **k):
    g = tm(n, f, **k)
    g.harness = "leap.c"
    return g
LW = [dict(VP_L=i, VP_DW=0) for i in range(18)]
PROPS["C19"] = dict(goals=[
    lp("edges", "edges", fns=["get_gps_utc_offset", "is_leap_second_event", "get_utc_gps_offset"], bounded="eleven points around each of the 18 leap seconds",
       cases=[dict(VP_L0=i) for i in range(0, 18, 3)], checks=CONC),
    lp("inserted-second", "inserted", fns=["gps2utc", "gps2date", "gps2doy"], cases=[dict(VP_L0=i) for i in range(0, 18, 3)],
       bounded="five points in each of the 18 leap seconds", checks=CONC),
    lp("offset-leap-weeks", "offset", fns=["get_gps_utc_offset", "is_leap_second_event"], cases=[LW[2], LW[17]]),
    lp("offset-any-week", "offset", fns=["get_gps_utc_offset", "is_leap_second_event"], cases=[dict(VP_TOD=300000.5)]),
    lp("utc-offset-leap-weeks", "offset_utc", fns=["get_utc_gps_offset"], cases=[LW[2], LW[17]]),
    lp("utc-offset-any-week", "offset_utc", fns=["get_utc_gps_offset"], cases=[dict(VP_TOD=300000.5)]),
    lp("gps2time", "gps2time", fns=["gps2time"], cases=[LW[17]]),
    lp("gps2utc", "gps2utc", fns=["gps2utc"], cases=[dict(VP_D=d, VP_TOD=s) for d, s in ((0, 0.5), (0, 17.75), (0, 18), (3, 5.25), (6, 86399.5))],
       bounded="five times in week 2200"),
    lp("gps2utc-days", "gps2utc", fns=["gps2utc"], cases=[dict(VP_D=0), dict(VP_D=3)], tier="thorough", timeout=600),
    lp("broadcast-switch", "params_switch", fns=["get_gps_utc_offset", "is_leap_second_event"], defs=["VP_A1=0.0", "VP_A2=0.0"],
       cases=[dict(VP_WN=w, VP_A0=a) for w in (1929, 1930, 1931) for a in ("0.0", "-0x1p-28")],
       bounded="one set of broadcast parameters, two constant terms, any time of three weeks"),
    lp("broadcast-points", "params", fns=["get_gps_utc_offset", "get_utc_gps_offset", "gps2utc"], checks=CONC,
       cases=[dict(VP_A0=a, VP_A1=b, VP_A2=c, VP_I0=i) for a, b, c in (("0.0", "0.0", "0.0"), ("0x53p-30", "-0x7p-50", "0.0"), ("-0x1p-27", "0x1p-46", "0x1p-70"), ("0x53p-30", "-0x7p-33", "0.0")) for i in (0, 4, 8)],
       bounded="four sets of broadcast parameters, eleven times"),
    ])
def gl(n, f, **k):
    g = tm(n, f, **k)
    g.harness = "glo_time.c"
    return g
PROPS["C20"] = dict(goals=[
    gl("glo-invalid", "invalid", fns=["glo2gps"]),
    gl("glo2gps", "glo2gps", fns=["glo2gps"], unwind=150, cases=[dict(VP_N4=a, VP_NT=b, VP_HR=c, VP_S="30.25") for a, b, c in ((6, 366, 2), (27, 367, 4))],
       bounded="two hours of two days, any minute"),
    gl("glo2gps-days", "glo2gps", fns=["glo2gps"], unwind=150, tier="thorough", bounded="one hour of nine days, any minute", cases=[dict(VP_N4=a, VP_NT=b, VP_HR=c, VP_S="30.25")
        for a, b, c in ((1, 1, 3), (6, 1, 2), (6, 367, 2), (6, 1461, 23), (26, 1461, 12), (27, 366, 4), (27, 365, 4), (30, 731, 5), (31, 1460, 0))]),
    gl("round-trip", "round_trip", fns=["gps2glo", "glo2gps"], checks=CONC, unwind=150,
       cases=[dict(VP_WN=w) for w in (835, 1042, 1356, 1929, 1930, 2086, 2347, 4000, 6312, 6313, 6400, 6500)], bounded="eight times of twelve weeks"),
    gl("inserted-second", "glo_leap", fns=["gps2glo", "glo2gps"], checks=CONC, unwind=60, cases=[dict(VP_L0=i) for i in (11, 15)], bounded="six points around seven leap seconds"),
    gl("date2mjd", "date2mjd", fns=["date2mjd"], bounded="midnights of the years 1900 to 2299"),
    gl("mjd2date", "mjd2date", fns=["mjd2date"], bounded="midnights of the years 1900 to 2299"),
    gl("dates", "dates", fns=["date2mjd", "mjd2date"], checks=CONC, cases=[dict(VP_F=i) for i in range(6)], bounded="42 dates and times"),
    gl("epochs", "epoch", fns=["round_to_epoch", "floor_to_epoch"], cases=[dict(VP_HZ=h, VP_LO=l) for h in (1, 4, 10) for l in (604796, 1000)],
       bounded="three rates, any time in the last four seconds of a week and in four seconds within it"),
    gl("epochs-week", "epoch", fns=["round_to_epoch", "floor_to_epoch"], cases=[dict(VP_HZ=i) for i in (1, 10)], tier="thorough", timeout=700),
    ])

ES = ["ephemeris.c", "gnss_time.c", "bits.c", "signal.c"]
EN = ["glo_map.c", "decode_glo.c", "shm.c", "edc.c", "linear_algebra.c", "coord_system.c"]
def ep(n, f, **k):
    return Goal(n, "eph_decode.c", "h_" + f, **dict(dict(srcs=ES, native_srcs=EN, dfcc=False, unwind=34, solvers=["uf", "cadical"],
        drop=["sid_to_string"], pre="bitext.h"), **k))
SX = ep("sign-extension", "sign_extend", fns=["BITS_SIGN_EXTEND_32"], pre=None, drop=(), solvers=["sat"], srcs=["bits.c"], native_srcs=ES + EN)
PROPS["C21"] = dict(goals=[
    ep("lnav", "lnav", fns=["decode_ephemeris_with_wn_ref"])])
PROPS["C22"] = dict(goals=[
    ep("bds-d1", "bds", fns=["decode_bds_d1_ephemeris"]), SX])
PROPS["C23"] = dict(goals=[
    ep("inav", "inav", fns=["decode_gal_ephemeris_safe"]), SX])

def es(n, f, **k):
    return Goal(n, "eph_status.c", "h_" + f, **dict(dict(srcs=["ephemeris.c", "gnss_time.c", "signal.c", "shm.c", "decode_glo.c", "glo_map.c"],
        native_srcs=["bits.c", "edc.c", "linear_algebra.c", "coord_system.c"], dfcc=False, unwind=34, solvers=["cadical", "sat"],
        drop=["sid_to_string"]), **k))
EA = ["ephemeris.c", "shm.c", "signal.c"]
EAN = ["gnss_time.c", "decode_glo.c", "glo_map.c", "bits.c", "edc.c", "linear_algebra.c", "coord_system.c"]
PROPS["C24"] = dict(goals=[
    es("status", "status", fns=["get_ephemeris_status_t", "ephemeris_healthy"]),
    es("usable", "usable", fns=["ephemeris_valid", "ephemeris_params_valid"], defs=["VP_ABS"], srcs=EA, native_srcs=EAN, drop=(), solvers=["uf", "cadical"]),
    es("detailed", "usable", fns=["ephemeris_valid_detailed", "ephemeris_params_valid"], defs=["VP_ABS", "VP_DETAIL"], srcs=EA, native_srcs=EAN, drop=(), solvers=["uf", "cadical"]),
    es("edges", "edges", fns=["ephemeris_valid"], checks=CONC, bounded="both ends of four intervals at four reference times, week known and unknown", cases=[dict(VP_H0=i) for i in range(4)]),
    ], assumptions=["normalize_gps_time and gpstime_in_range depend on their arguments only (their contracts: C15, C17) in the goals usable and detailed"])
PROPS["C25"] = dict(goals=[
    es("words", "health", fns=["check_6bit_health_word", "check_8bit_health_word", "check_nav_dhi", "check_alma_page25_health_word", "shm_gps_decode_shi_ephemeris"]),
    es("healthy", "healthy", fns=["ephemeris_healthy"]),
    ])

def cd(n, f, **k):
    return Goal(n, "codes.c", "h_" + f, **dict(dict(srcs=["ephemeris.c", "nav_meas.c", "gnss_time.c", "bits.c", "signal.c", "shm.c", "decode_glo.c", "glo_map.c"],
        native_srcs=["edc.c", "linear_algebra.c", "coord_system.c"], dfcc=False, unwind=34, solvers=["cadical", "sat"], drop=["sid_to_string"]), **k))
PROPS["C26"] = dict(goals=[
    cd("ura", "ura", fns=["decode_ura_index", "encode_ura", "decode_bds_ura_index"]),
    cd("fit-interval", "fit", fns=["decode_fit_interval"]),
    cd("sisa", "sisa", fns=["decode_sisa_index"], unwind=260, checks=CONC),
    cd("lock-time", "lock", fns=["encode_lock_time", "decode_lock_time"], conv=True),
    cd("lock-time-round-trip", "lock_trip", fns=["encode_lock_time", "decode_lock_time"])])
def ob(n, f, **k):
    return Goal(n, "orbit.c", "h_" + f, **dict(dict(srcs=["ephemeris.c", "signal.c", "shm.c", "glo_map.c"],
        native_srcs=["gnss_time.c", "decode_glo.c", "bits.c", "edc.c", "linear_algebra.c", "coord_system.c"], dfcc=False, unwind=34, solvers=["uf", "cadical"], abstract_only=True), **k))
PROPS["C27"] = dict(goals=[
    ob("group-delay", "tgd", fns=["get_tgd_correction"], cases=[dict(VP_CON="CONSTELLATION_" + c) for c in ("GPS", "QZS", "GAL", "BDS", "GLO")]),
    ob("gate", "gate", dfcc=True, abstract_only=False, solvers=["cadical"], replace=["ephemeris_valid_detailed/c_verdict", "calc_sat_state_n/c_never"], fns=["calc_sat_state", "calc_sat_state_orbit_type", "calc_sat_az_el", "calc_sat_doppler"]),
    ])
PROPS["C38"] = dict(goals=[
    ob("kepler", "state", fns=["calc_sat_state_n", "calc_sat_state_kepler"], cases=[dict(VP_CODE="CODE_" + c) for c in ("GPS_L1CA", "QZS_L2CL", "GAL_E1B", "BDS2_B1")]),
    ob("kepler-geo", "state", fns=["calc_sat_state_n", "calc_sat_state_kepler"], cases=[dict(VP_CODE="CODE_BDS2_B1", VP_ORBIT="GEO")]),
    ob("sbas", "state", fns=["calc_sat_state_n", "calc_sat_state_xyz"], cases=[dict(VP_CODE="CODE_SBAS_L1CA")]),
    ob("glonass", "state", fns=["calc_sat_state_n", "calc_sat_state_glo"], cases=[dict(VP_CODE="CODE_GLO_L2OF", VP_CEIL=n) for n in list(range(31)) + [4294967295]]),
    ob("doppler", "doppler", fns=["calc_sat_doppler", "calc_sat_az_el"], srcs=["ephemeris.c", "signal.c", "shm.c", "glo_map.c", "linear_algebra.c"],
       native_srcs=["gnss_time.c", "decode_glo.c", "bits.c", "edc.c", "coord_system.c"]),
    ])

def pg(n, f, **k):
    return Goal(n, "pages.c", "h_" + f, **dict(dict(srcs=["almanac.c", "ionosphere.c", "gnss_time.c", "bits.c", "signal.c", "shm.c"],
        native_srcs=["glo_map.c", "decode_glo.c", "ephemeris.c", "edc.c", "linear_algebra.c", "coord_system.c"], dfcc=False, unwind=34,
        solvers=["uf", "cadical"], drop=["sid_to_string"], pre="bitext.h"), **k))
PROPS["C28"] = dict(goals=[
    pg("utc", "utc", defs=["VP_OVERRIDE"], override=["gpsdifftime", "normalize_gps_time"], fns=["decode_utc_parameters_with_wn_ref"]),
    pg("iono", "iono", fns=["decode_iono_parameters"]),
    pg("bds-iono", "bds_iono", fns=["decode_bds_d1_iono"]), SX])
PROPS["C29"] = dict(goals=[
    pg("almanac", "alm", fns=["almanac_decode"]),
    pg("week", "alm_week", fns=["almanac_decode_week_with_wn_ref"]),
    pg("health", "alm_health", fns=["almanac_decode_health"]),
    pg("usable", "alm_valid", defs=["VP_OVERRIDE"], override=["gpsdifftime", "normalize_gps_time"], fns=["almanac_valid", "almanac_healthy"])])

def mi(n, f, **k):
    return Goal(n, "misc.c", "h_" + f, **dict(dict(srcs=["memcpy_s.c", "logging_common.c", "subsystem_status_report.c", "nav_meas.c", "glonass_phase_biases.c",
        "signal.c", "glo_map.c", "gnss_time.c"], native_srcs=["bits.c"], dfcc=False, unwind=34, defs=["VP_CODE=CODE_GPS_L1CA"]), **k))
PROPS["C30"] = dict(goals=[
    mi("memcpy_s", "memcpy_s", fns=["memcpy_s"], srcs=["memcpy_s.c"], native_srcs=["subsystem_status_report.c", "nav_meas.c", "glonass_phase_biases.c", "logging_common.c", "signal.c", "glo_map.c", "gnss_time.c", "bits.c"], bounded="both regions in one array of 16 bytes; any sizes"),
    mi("strnlen", "strnlen", fns=["swift_strnlen"], bounded="buffers of at most 16 bytes; any limit"),
    mi("path", "path", fns=["truncate_path_"], bounded="paths of at most 15 characters")])
PROPS["C31"] = dict(goals=[
    mi("report", "report", fns=["swiftnav_subsystem_status_report_callback_register", "swiftnav_subsystem_status_report_callback_deregister",
        "swiftnav_subsystem_status_report_callback_reset", "swiftnav_send_subsystem_status_report"], bounded="lists of at most three nodes", unwind=9)])
PROPS["C32"] = dict(goals=[
    mi("flags", "flags", fns=["pseudorange_valid", "nav_meas_cmp"]),
    mi("equal", "meas_equal", fns=["nav_meas_equal", "measurement_std_equal"], solvers=["uf", "cadical"]),
    mi("clock", "correct", fns=["nav_meas_cor_sat_clk_on_pseudorange", "nav_meas_cor_sat_clk_on_measured_doppler", "nav_meas_cor_sat_clk_on_carrier_phase"], solvers=["uf", "cadical"],
       defs=(), cases=[dict(VP_CODE="CODE_" + c) for c in ("GPS_L1CA", "GAL_E5I", "BDS2_B1")]),
    mi("biases", "biases", fns=["get_glonass_bias", "glonass_biases_are_equal", "is_bias_mask_flag_set"], solvers=["uf", "cadical"])])
