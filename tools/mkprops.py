#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing the list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Bit-field reads return exactly the addressed field",
  "Reading a bit field of any length at any bit offset of a buffer returns exactly those bits, most significant bit first, as an unsigned value of that width, or as its two's-complement sign-extended value for the signed readers (32-bit and 64-bit variants alike). No byte outside the ones the field occupies is read and nothing is written.",
  ["inputs"], "every offset up to 2^32 bits, every length (0..32 / 0..64, at least 1 for signed readers), every buffer content",
  "The tests read a few fields at a few offsets; the shift and index arithmetic has one case per (offset mod 8, length) pair.",
  ["src/bits.c", "include/swiftnav/bits.h"],
  [("getbitu/getbitul/getbits/getbitsl", "src/bits.c")])
p("C02", "Bit-field writes change exactly the addressed field",
  "Writing a value into a bit field of any length at any bit offset stores the value's low bits there, most significant bit first, and leaves every other bit of the buffer as it was, so that reading the field back returns the stored bits; a length of zero or beyond the variant's width (32 or 64) writes nothing. No byte outside the ones the field occupies is touched.",
  ["inputs"], "every offset, every length, every value, every previous buffer content",
  "Tests write a handful of fields; masks differ for every (offset mod 8, length) pair, including the ones that need an extra output byte.",
  ["src/bits.c"], [("setbitu/setbits/setbitul/setbitsl", "src/bits.c")])
p("C03", "Bit-string shift and copy move exactly the requested bits",
  "Shifting a buffer left by n bits moves every bit n places towards the start, fills with zeros and clears the whole buffer when n is at least its size in bits. Copying n bits between two non-overlapping buffers at arbitrary bit offsets makes those destination bits equal to the source bits and leaves all other destination bits and the source unchanged.",
  ["inputs"], "every shift / offset / count and every content",
  "Tests use fixed patterns; the byte and bit remainders interact.",
  ["src/bits.c"], [("bitshl, bitcopy", "src/bits.c")])
p("C04", "Word-level bit arithmetic is exact for every word",
  "Parity is 1 exactly for words with an odd number of set bits; population counts equal the number of set (or clear) bits for every width; byte interleaving puts bit i of the first byte at bit 2i and of the second at bit 2i+1; byte swaps and host/big/little-endian conversions permute bytes exactly and are their own inverses.",
  ["inputs"], "every 8/16/32/64-bit word",
  "Tests sample a few words of a 2^64 domain.",
  ["src/bits.c", "include/swiftnav/bits.h"],
  [("parity, count_bits_*, bytes_interleave, byte_swap_*, *to*_*", "src/bits.c, include/swiftnav/bits.h")])
p("C05", "Bit and byte stream readers never leave their buffer",
  "A stream reader over a buffer of known length returns data, and advances, only when the whole requested item lies inside the buffer; otherwise it reports failure, reads nothing outside the buffer and leaves its position and the output untouched. This holds for every position, relative offset and length, including ones whose sum exceeds 32 bits, and the values returned are the ones stored at that place.",
  ["inputs", "histories"], "every buffer length, stream state reachable through the API, offset and requested size",
  "Tests run a few reads near the end of a small buffer; 32-bit wrap-around of offset plus length is out of their reach.",
  ["include/swiftnav/bitstream.h", "include/swiftnav/bytestream.h"],
  [("would_overflow guards", "bitstream.h, bytestream.h")],
  [("swiftnav_bitstream_t / swiftnav_bytestream_t", "data pointer, offset, length", "bitstream.h, bytestream.h")])
p("C06", "CRC-24Q is the polynomial remainder, in every calling form",
  "The byte-oriented checksum equals the remainder of the message, continued from the initial value, modulo the CRC-24Q generator polynomial (0x1864CFB) for every message, and checking a message in pieces gives the same result as in one go. The bit-oriented form equals the same checksum over the message left-padded with zero bits to whole bytes, reads nothing outside the message and never exceeds 24 bits.",
  ["inputs"], "every message, length and initial value",
  "Tests compare a few messages; a wrong entry in a 256-entry table or a wrong tail mask is only visible on particular bytes.",
  ["src/edc.c"], [("crc24q, crc24q_bits, crc24qtab", "src/edc.c")])
p("C07", "The byte FIFO is a bounded first-in first-out queue",
  "For every history of write, read, peek and remove calls the queue returns exactly the bytes written and not yet removed, in order; it never holds more than its capacity, rejected bytes are reported in the returned count, length plus space always equals capacity, and indices never address memory outside the buffer.",
  ["histories", "inputs"], "every queue state (including wrapped indices) and every request size",
  "Tests cannot enumerate index wrap-around and 32-bit index overflow states.",
  ["src/fifo_byte.c"], [("fifo_write/read/peek/remove, index masking", "src/fifo_byte.c")],
  [("fifo_t", "read_index, write_index, size", "include/swiftnav/fifo_byte.h")])
p("C08", "Sorted-set operations keep sets sorted, duplicate-free and exact",
  "An array is reported as a set exactly when it is strictly increasing; membership, intersection and insertion position are those of mathematical sets; inserting an element yields exactly that set with the element added in order, and removal takes out the first element not less than the given one (the last one if all are smaller), without reading or writing beyond the arrays.",
  ["inputs"], "every pair of arrays over every element type and comparison, every element",
  "Tests use small fixed arrays; boundary positions (before the first, after the last, empty set) multiply.",
  ["src/set.c"], [("is_set, intersection_map, insertion_index, insert_element, remove_element", "src/set.c")])
p("C09", "The signal-id set behaves as an exact set with correct counts",
  "After any sequence of add and remove operations the set contains exactly the signals added and not since removed, its signal count is their number and its satellite count is the number of distinct satellites (constellation, number) among them; operations on one signal never affect another.",
  ["histories", "inputs"], "every reachable set state and every valid signal",
  "There are 2^(signals) states; the tests touch a handful of signals.",
  ["src/sid_set.c"], [("sid_set_add/remove/contains/get_sat_count/get_sig_count", "src/sid_set.c")],
  [("gnss_sid_set_t", "one 64-bit map per code", "include/swiftnav/sid_set.h")])
p("C10", "Signal identifiers map one-to-one to indices and order consistently",
  "A (satellite, code) pair is valid exactly when the code is valid and the satellite number lies in that code's constellation range; valid signals map one-to-one onto code-specific and constellation-specific indices that map back to the same signal, with no two signals sharing an index. The comparison of signals is a total order that is zero exactly for equal signals.",
  ["inputs"], "every (satellite, code) value and every index",
  "Tests sample; validity has to be exact at every range boundary of every code.",
  ["src/signal.c", "include/swiftnav/signal.h"],
  [("sid_valid, sid_to_code_index, sid_from_code_index, sid_compare", "src/signal.c")])

p("C11", "Signal names and per-signal constants agree in both directions",
  "Every valid code, constellation and sub-constellation has its own name, looking a name up returns the code it belongs to and any other text is invalid; the name of a signal is the code name and satellite number, is never written beyond the given buffer and invalid codes give the fixed unknown text. Carrier frequency, wavelength, chip count, period, phase alignment and SBAS system of a signal are those of its interface specification, with wavelength times frequency equal to the speed of light.",
  ["inputs"], "every code, every satellite number, every candidate name and every buffer length",
  "The table has 64 rows with about ten facts each; tests look at a few rows.",
  ["src/signal.c", "include/swiftnav/signal.h"],
  [("code_table, sid_to_string, code_string_to_enum", "src/signal.c"), ("sid_to_carr_freq, sid_to_lambda", "include/swiftnav/signal.h")])
p("C12", "The GLONASS slot map returns the last frequency stored per slot",
  "A GLONASS slot is mapped exactly when a frequency was stored for it since it was last cleared, and reading it returns the last frequency number stored; storing or clearing one slot leaves all others unchanged, and clearing everything empties the map. Listing the slots of a frequency returns exactly the slots mapped to it, and the carrier frequency of a GLONASS signal follows the stored number.",
  ["histories", "inputs"], "every reachable map content, every slot and frequency number",
  "There are 15^28 map contents; tests store a few entries.",
  ["src/glo_map.c", "src/signal.c"],
  [("glo_map_set_slot_id, clear, get_fcn, get_slot_id", "src/glo_map.c")],
  [("glo_map", "frequency number per slot, 0 when unmapped", "src/glo_map.c")])

p("C13", "GLONASS string parity accepts code words and finds every single error",
  "A GLONASS navigation string that is a code word of the interface specification's Hamming code passes the check; a code word with one flipped bit is reported as correctable at exactly that bit, and a code word with two flipped bits in the coded part is never accepted as clean. Extracting a bit field from a string returns exactly the addressed bits, numbered as in the specification.",
  ["inputs"], "every 85-bit string, every pair of flipped bits, every field position",
  "There are 2^77 code words and thousands of error patterns; a wrong bit in one of the eight parity masks is only visible on some of them.",
  ["src/decode_glo.c"],
  [("error_detection_glo, extract_word_glo, parity masks", "src/decode_glo.c")])
p("C14", "GLONASS ephemeris strings decode field by field as specified",
  "Each of the GLONASS navigation strings 1 to 5 yields exactly the position, velocity, acceleration, clock, health, time and orbit-age values its bits encode under the interface specification (sign-and-magnitude fields, specified scale factors), written only to that string's own outputs. Fields of the ephemeris that a string does not carry are left as they were.",
  ["inputs"], "every content of every string and every previous state of the ephemeris",
  "Tests decode a few recorded strings; a wrong sign bit, width or scale shows only for particular values.",
  ["src/decode_glo.c"], [("decode of strings 1..5", "src/decode_glo.c")])
p("C15", "GPS time normalisation keeps the instant and yields a valid time",
  "A GPS time is valid exactly when its week is known and 0 <= time of week < one week. Normalising a time, a duration, or adding seconds keeps the instant (duration) it denotes and produces the unique form with the time of week in range (for durations: less than a week of seconds, never of opposite sign to the weeks); normalising a normal time changes nothing.",
  ["inputs"], "every week, every time of week including the smallest negative ones and exact week boundaries",
  "The tests use round numbers; rounding at the ends of the week (a tiny negative time of week rounds to a full week) needs particular doubles.",
  ["src/gnss_time.c"], [("normalize_gps_time*, normalize_gps_time_duration, add_secs, gps_time_valid", "src/gnss_time.c")],
  [("gps_time_t", "tow in seconds, wn week or -1 when unknown", "include/swiftnav/gnss_time.h")])
p("C16", "Truncated week numbers resolve to the right full week",
  "A week number known modulo 1024 (or 256) is expanded to the first week not before the reference that is congruent to it. Matching a time of week against a reference time chooses the week that puts it within half a week of the reference, never touches the time of week or the reference, and fails only when that week would be negative.",
  ["inputs"], "every truncated week, reference week, and pair of times of week",
  "Roll-over boundaries depend on the pair of weeks; the tests use a few present-day values.",
  ["src/gnss_time.c"], [("gps_adjust_week_cycle, gps_adjust_week_cycle256, gps_time_match_weeks*", "src/gnss_time.c")])
p("C17", "Time differences and ranges are exact across week boundaries",
  "The difference of two GPS times is the elapsed number of seconds between them, including whole weeks; when a week is unknown it is the nearest difference modulo a week, at most half a week in size; reversing the two times negates it. The week/second form of a difference denotes the same elapsed time and is defined exactly for valid times, and a time is in a range exactly when it is not before the beginning and not after the end.",
  ["inputs"], "every pair or triple of times, in the same or different weeks",
  "The tests use a few pairs; sign and wrap cases multiply with week order and unknown weeks.",
  ["src/gnss_time.c"], [("gpsdifftime, gpsdifftime_week_second, gpstime_in_range", "src/gnss_time.c")])
p("C18", "Broken-down time is the Gregorian date and time of day",
  "Every valid time converts to the day, month, year, day of week and day of year of the proleptic Gregorian calendar counted from 6 January 1980, with the hour, minute, second and fraction of its time of day. Leap years and month lengths follow the Gregorian rules, and Unix times convert to the week and second they denote and are valid exactly after the reference week.",
  ["inputs"], "every week from 0 to 32767 and every time of week; every Unix time",
  "Tests check a few dates; leap-year and month boundaries over centuries and integer overflow in far weeks are not sampled.",
  ["src/gnss_time.c"], [("make_utc_tm, days_in_month, is_leap_year, time2gps_t, unix_time_valid", "src/gnss_time.c")])

p("C19", "GPS and UTC convert into each other exactly across leap seconds",
  "The GPS-UTC offset at a time is the number of leap seconds introduced before it, from the built-in table or from broadcast parameters when those are given, in both directions of the conversion, including the polynomial part of the broadcast parameters. During a leap second, and only then, the seconds read 60, and converting a GPS time to broken-down UTC yields the calendar date and time of day of that instant.",
  ["inputs"], "every time around every entry of the leap second table and around a broadcast leap second",
  "A leap second is one second in years: the tests look at a few instants, an off-by-one in a comparison is visible at exactly one of them.",
  ["src/gnss_time.c"], [("get_gps_utc_offset, get_utc_gps_offset, is_leap_second_event, gps2utc", "src/gnss_time.c")])
p("C20", "GLONASS times, dates and modified Julian days convert exactly both ways",
  "A GLONASS four-year interval, day and time of day convert to the GPS time of the same instant and back, and day numbers outside the interval or times outside the day give an unknown time. Calendar dates, modified Julian days and GPS times denote the same instant in every direction of conversion, and rounding or flooring a time to an epoch rate yields the nearest, or the last not later, epoch of that rate.",
  ["inputs"], "every day of every four-year interval, every calendar date and time of day",
  "Day-of-year arithmetic across leap years (and the non-leap year 2100) goes wrong on single days the tests do not name.",
  ["src/gnss_time.c"], [("glo2gps, gps2glo, date2mjd, mjd2date, gps2mjd, utc2mjd, round_to_epoch, floor_to_epoch", "src/gnss_time.c")])

p("C21", "GPS and QZSS ephemeris subframes decode field by field as specified",
  "Decoding subframes 1 to 3 of the GPS or QZSS navigation message yields exactly the values the interface specification assigns to their bits: each field with its position, sign and scale, the accuracy and fit interval from their tables, and the full week nearest the reception time. The ephemeris is valid exactly when its three issue-of-data copies agree and its reference time is a time of week, and nothing but the ephemeris is written.",
  ["inputs"], "every content of the 24 words, every previous ephemeris, every reception time and reference week",
  "There are 2^720 messages; tests decode a few recorded ones, so a wrong shift or sign shows only for particular values.",
  ["src/ephemeris.c"], [("decode_ephemeris_with_wn_ref, decode_fit_interval", "src/ephemeris.c")])
p("C22", "BeiDou D1 ephemeris subframes decode field by field as specified",
  "Decoding subframes 1 to 3 of the BeiDou D1 navigation message yields exactly the values the interface specification assigns to their bits, including fields split over several words, the week counted from the BeiDou epoch, and issues of data derived from the reference times.",
  ["inputs"], "every content of the 30 words and every previous ephemeris",
  "A recorded message or two cannot show a wrong mask on a split field.",
  ["src/ephemeris.c"], [("decode_bds_d1_ephemeris, decode_bds_ura_index", "src/ephemeris.c")])
p("C23", "Galileo I/NAV ephemeris words decode field by field as specified",
  "Decoding words 1 to 5 of the Galileo I/NAV message yields exactly the values the interface specification assigns to their bits, with reference times in the week nearest the transmission time. It is refused exactly when a reference time is no time of week, and a refused ephemeris is not valid.",
  ["inputs"], "every content of the five words and every previous ephemeris",
  "Tests decode one recorded ephemeris.",
  ["src/ephemeris.c"], [("decode_gal_ephemeris_safe, decode_sisa_index", "src/ephemeris.c")])
p("C24", "An ephemeris is usable exactly when its status and validity interval say so",
  "The status of an ephemeris is the first of these that applies: no record, not valid, no week, no fit interval, unhealthy, inconsistent issue of data, good. It is usable at a time exactly when the status is good and the time and its clock reference time lie in its validity interval: centred on the reference time for GPS, QZSS and GLONASS, beginning there for Galileo and BeiDou, unlimited for SBAS.",
  ["inputs"], "every ephemeris record and every time",
  "The tests try a handful of ages of a GPS ephemeris; each constellation has its own interval and consistency rule.",
  ["src/ephemeris.c"], [("get_ephemeris_status_t, ephemeris_valid, ephemeris_valid_detailed, ephemeris_params_valid", "src/ephemeris.c")])
p("C25", "Health words disable exactly the signals the specification says",
  "A six-bit, eight-bit or almanac health word marks a signal unusable exactly when the table of the interface specification says so for its band and code, and the data health bits are honoured except for masked errors. A valid ephemeris is healthy for a signal exactly when its accuracy index and health word allow it, by the rule of its constellation.",
  ["inputs"], "every health word, every code, every ephemeris record",
  "The table has 32 rows for each of eight bands and codes; tests look at a few.",
  ["src/shm.c", "src/ephemeris.c"], [("check_6bit_health_word, check_8bit_health_word, check_nav_dhi, check_alma_page25_health_word", "src/shm.c"), ("ephemeris_healthy", "src/ephemeris.c")])

p("C26", "Accuracy, fit-interval and lock-time indices convert by their tables",
  "Every accuracy index of GPS, BeiDou and Galileo yields the accuracy of its table and every other index none; an accuracy is encoded as the smallest index that covers it, and negative or too large values get no index. The fit interval and the lock-time indicator follow their tables, including their boundaries: an indicator covers the times from its minimum up to the next one.",
  ["inputs"], "every index, every accuracy, every issue of data, every lock time >= 0",
  "Boundaries between table rows are single values the tests do not hit.",
  ["src/ephemeris.c", "src/nav_meas.c"], [("decode_ura_index, encode_ura, decode_bds_ura_index, decode_sisa_index, decode_fit_interval", "src/ephemeris.c"), ("encode_lock_time, decode_lock_time", "src/nav_meas.c")])

p("C27", "Group delays are those of the signal; unusable records yield no state",
  "For every signal of GPS, QZSS, Galileo, BeiDou and GLONASS the group delay is the broadcast one of its band, scaled by the squared ratio of the frequencies where the interface specification says so, and signals without one are refused. A satellite state, azimuth, elevation or Doppler is computed from an ephemeris only if it is valid and covers the time; otherwise -1 is returned and no output is written.",
  ["inputs"], "every ephemeris record, time and signal",
  "Which broadcast delay belongs to which of the 66 codes is a table tests sample.",
  ["src/ephemeris.c"], [("get_tgd_correction, calc_sat_state, calc_sat_state_orbit_type, calc_sat_az_el, calc_sat_doppler", "src/ephemeris.c")])

p("C38", "Satellite position, velocity, acceleration and clock follow the specification",
  "For every ephemeris and time the satellite's position, velocity, acceleration, clock error (with group delay and relativity) and clock rate are those of the orbit model of its system: Kepler elements (GPS, QZSS, Galileo, BeiDou incl. the position of geostationary satellites), quadratic (SBAS), or fourth-order Runge-Kutta steps of at most 30 s, at most 30 of them, of the GLONASS equations of motion. The Doppler shift is the carrier frequency times the line-of-sight component of the velocity of the satellite relative to the receiver, over the speed of light, and azimuth and elevation are those of the computed position.",
  ["inputs"], "every ephemeris record, time, receiver position and velocity; mathematical library functions as functions of their arguments only",
  "A wrong sign in one of 40 terms shifts the position by metres for some orbits and by nothing for the sampled ones.",
  ["src/ephemeris.c"], [("calc_sat_state_n, calc_sat_state_kepler, calc_sat_state_xyz, calc_sat_state_glo, calc_ecef_vel_acc, calc_sat_doppler, calc_sat_az_el", "src/ephemeris.c")])

p("C28", "UTC and ionosphere parameters decode field by field as specified",
  "A UTC page of the GPS navigation message (data id 1, SV id 56) is decoded exactly when its day number is 1 to 7, yielding the polynomial, the reference time and weeks nearest the reference week, the leap seconds, and the start of the leap second at the end of the given day. The GPS ionosphere page and the BeiDou D1 ionosphere words yield exactly the eight coefficients and the reference time of the interface specification; any other page is refused.",
  ["inputs"], "every content of the words, every reference week up to 32000",
  "Tests decode one recorded page; week roll-over at multiples of 256 and signed coefficients need particular values.",
  ["src/gnss_time.c", "src/ionosphere.c"], [("decode_utc_parameters", "src/gnss_time.c"), ("decode_iono_parameters, decode_bds_d1_iono", "src/ionosphere.c")])
p("C29", "Almanac pages decode as specified and an almanac's usability is exact",
  "Almanac pages of the GPS navigation message decode, for SV 1 to 32 only, to exactly the values the interface specification assigns to their bits; the almanac week and health pages likewise, each recognised by its SV id. An almanac is healthy exactly when its health word says so, and usable at a time exactly when it is valid, healthy, has a fit interval and a week, and the time is within half the fit interval of its reference time.",
  ["inputs"], "every content of the eight words, every almanac record and time",
  "Tests decode few pages; the boundaries of the interval and single health codes are not among them.",
  ["src/almanac.c"], [("almanac_decode, almanac_decode_week, almanac_decode_health, almanac_healthy, almanac_valid", "src/almanac.c")])

p("C30", "Checked copying reports every misuse and otherwise copies exactly",
  "memcpy_s refuses a null destination, a null source, a destination of size zero, a count of zero, a count larger than the destination and overlapping regions, each with its own code and in this order, and changes nothing; otherwise exactly the counted bytes of the destination become those of the source. The bounded string length never reads past the limit, and shortening a path yields its last component.",
  ["inputs"], "every pair of regions, sizes and counts; every string and limit; every path",
  "Overlap and size checks differ at single offsets and sizes.",
  ["src/memcpy_s.c", "src/logging_common.c", "include/swiftnav/swift_strnlen.h"], [("memcpy_s", "src/memcpy_s.c"), ("truncate_path_", "src/logging_common.c"), ("swift_strnlen", "include/swiftnav/swift_strnlen.h")])
p("C31", "Status reports reach every registered callback exactly once, in order",
  "A status report calls every registered callback exactly once, in the order of registration, with the report's values and the callback's own context. A deregistered node is called no more and the others are unaffected; deregistering a node that is not registered changes nothing; it can be registered again; a reset removes all.",
  ["histories"], "every list of nodes, every node removed from it and added again",
  "List removal goes wrong at the head, the tail or the only node; tests try one.",
  ["src/subsystem_status_report.c"], [("swiftnav_subsystem_status_report_callback_register, _deregister, _reset, swiftnav_send_subsystem_status_report", "src/subsystem_status_report.c")])
p("C32", "Measurement validity, comparison, clock correction and GLONASS biases are exact",
  "A pseudorange is valid exactly when its code-valid flag is set and it is not excluded by RAIM; measurements are ordered by signal and equal exactly when every field is (numbers within the stated tolerance). The satellite clock corrections add the clock error times the speed of light or carrier frequency. The GLONASS bias of L1 or L2 is that of the open signal if its mask bit is set, else of the P code if that is, else zero; bias sets are equal when mask and every bias are.",
  ["inputs"], "every measurement, flag word, signal and bias set",
  "A forgotten field of an equality, or a mask bit of the other band, shows only when that field alone differs.",
  ["src/nav_meas.c", "src/glonass_phase_biases.c"], [("pseudorange_valid, nav_meas_equal, nav_meas_cmp, measurement_std_equal, nav_meas_cor_sat_clk_on_*", "src/nav_meas.c"), ("get_glonass_bias, glonass_biases_are_equal, is_bias_mask_flag_set", "src/glonass_phase_biases.c")])

# ---- write ----
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
