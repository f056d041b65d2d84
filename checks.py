"""Which harnesses decide which property, and within what bounds."""

def H(name, bounds, shards=1, time=(150, 1500), steps=40_000_000, flags=(), tshards=None):
    return dict(name=name, bounds=bounds, shards=shards, time=time, steps=steps, flags=list(flags), tshards=tshards or shards)

CHECKS = {}
TITLES = {}

CHECKS["C01"] = dict(
    harnesses=[
        H("c01_m6", "NumDiff::<6>, orders 1..=6, 9 samples of magnitude <= 2^45, one re-initialisation at any step"),
        H("c01_m5", "NumDiff::<5>, orders 1..=5, 9 samples of magnitude <= 2^45, one re-initialisation at any step"),
    ],
    assumes=["no difference leaves 64 bits (samples bounded by 2^45)"],
)

CHECKS["C02"] = dict(
    harnesses=[
        H("c02_lengths", "4 lines of 0-2 printable columns (thorough: 0-3), any lengths", shards=3),
        H("c02_reinit", "same, first line and any later one given to both sides as initialisation", shards=5),
        H("c02_trimmed", "3 lines of 0-3 columns (thorough: 4), differentials trimmed", shards=4),
        H("c02_meaning", "buffer of 0-3 columns, any differential of 0-5 columns", shards=4),
    ],
    assumes=["columns are treated alike whatever their index (columns above the bound)"],
)

CHECKS["C03"] = dict(
    harnesses=[
        H("c03_v3_values", "parse of CRINEX3, G(2 sats x 3) R(1x2) S(1x1), 3 epochs (thorough 5): any one of 3 observables (thorough: all) with order 1-5, initial value any of 12 digits 2e11-9e11, -7 digits 2e6-9e6, or 5; first differential 1/2/4 digits then 2 digits, either sign; others all present or every other one", shards=8),
        H("c03_v3_presence", "same, one observable present or blank at each of 4 epochs, others present, half absent, or interrupted; lines trimmed or not", shards=8),
        H("c03_v3_flags", "same, one of 3 observables: LLI blank/3 and SNR blank/8 at the first epoch, then any differential of either at the second", shards=8),
        H("c03_v1_values", "CRINEX1, G(2) R(1) x 7 observables, 2 epochs (thorough 4), values as c03_v3_values", shards=8),
        H("c03_v1_presence", "CRINEX1, 3 epochs, presence as c03_v3_presence", shards=8),
        H("c03_v1_flags", "CRINEX1, 2 epochs, flags as c03_v3_flags", shards=8),
        H("c03_v3_lines", "Decompressor line by line: 1-12 observables, any blank run from any position, flags or not, line trimmed or not, newline kept or not; text compared", shards=6),
        H("c03_v1_lines", "same, CRINEX1 (lines wrap by 5); compared up to trailing blanks and blank lines (extra ones are pinned by existing tests)", shards=6),
        H("c03_v3_epochs", "1-40 satellites then 1-37 (text differential), any tenth of second, clock offset or not", shards=4),
        H("c03_v1_epochs", "same, CRINEX1 (lines wrap by 12)", shards=4),
    ],
    assumes=["an observation that turns blank carries no flags and is reinitialised when it comes back (as RNX2CRX does)", "receiver clock offsets of parsed observations: see C04/C05 known findings"],
)

CHECKS["C04"] = dict(
    harnesses=[
        H("c04_values", "RINEX3 epoch, GPS (3) + Galileo (2) + SBAS (2) observables: one signal with any millesimal value of 14 columns, or any LLI, or any SNR, others present or absent; or any subset of the signals", shards=8),
        H("c04_epochs", "4 epochs (0.1 us resolution), any of the three observation flags with or without a receiver clock offset (itself not compared) at one of them", shards=4),
        H("c04_satellites", "one satellite of each constellation, any number 1-37 (BeiDou 1-63, SBAS 20-58) for one of them", shards=7),
        H("c04_observables", "1 to 30 observables (header lists wrap), 2 satellites, signals partly missing", shards=6),
    ],
    assumes=["values fit 14 columns, one signal per satellite and observable, header describes every observable"],
    kf=["c04_kf_clock"],
)

CHECKS["C05"] = dict(
    harnesses=[
        H("c05_values", "RINEX2 epoch, GPS + Galileo x 7 observables (2 lines each): one signal with any millesimal value of 14 columns, or any LLI, or any SNR, others present or absent; or every other signal present or not", shards=8),
        H("c05_epochs", "4 epochs (0.1 us resolution), any of the three observation flags with or without a receiver clock offset (itself not compared) at one of them", shards=4),
        H("c05_satellites", "1 to 40 satellites of four constellations, with or without a clock offset, followed by a second epoch", shards=8),
        H("c05_observables", "1 to 23 observables (header and satellites wrap), 2 satellites, signals partly missing", shards=6),
    ],
    assumes=["values fit 14 columns, one signal per satellite and observable, header describes every observable"],
    kf=["c05_kf_clock"],
)

CHECKS["C06"] = dict(
    harnesses=[
        H("c06_v3", "RINEX3 epoch, G(3)+E(2)+S(1) observables; one field entirely free (value shapes, digits, LLI, SNR, cut line end) with the others all blank or all known; or any subset of the six fields present", shards=7),
        H("c06_v2_3", "RINEX2 epoch, 2 GPS satellites x 3 observables, same field freedom, any subset of one satellite's fields present", shards=4),
        H("c06_v2_5", "RINEX2 epoch, mixed, 2 satellites x 5 observables", shards=6),
        H("c06_v2_6", "RINEX2 epoch, 2 satellites x 6 observables (two lines each)", shards=7),
        H("c06_v2_sats", "RINEX2 epoch, 1..=26 satellites listed over up to 3 lines, system letter present or blank, every value, LLI and SNR free", shards=8),
    ],
    assumes=["value fields are spelled [-]d...d.ddd right aligned", "RINEX2 lines keep the columns of their trailing blank fields (KNOWN-FINDING c06_kf_truncated)"],
    kf=["c06_kf_truncated"],
)

Y7 = "years 1980 1981 1999 2000 2001 2020 2078 2079 (months 1 2 3 12) and 2023 2024 (every month), in thorough every month of 1980..=2079; every day, hour, minute, second and fraction digit; or one leading zero blank; "
CHECKS["C07"] = dict(
    harnesses=[
        H("c07_obs", "observation files V2 and V3, five timescales, one epoch: " + Y7 + "7 fraction digits", shards=8),
        H("c07_nav", "navigation files V2 (GPS, Glonass), V3, V4 (GPS, Glonass, Galileo, BDS, QZSS), one message: " + Y7 + "one fraction digit in V2", shards=8),
        H("c07_others", "meteo V2 V3, IONEX (and its first map), clock V3.00 V3.04 in five timescales, DORIS: " + Y7 + "6 fraction digits (clock), 9 (DORIS)", shards=8),
        H("c07_invalid", "same layouts: one of day, month, hour, minute, second out of its range (any digits), years 1999 2000 2023 2024: no epoch comes out", shards=8),
        H("c07_write", "observation V2 V3 and meteo V2 V3 files parsed, written and parsed again: first and last day of six months (thorough: of every month of 1980..=2079), any time of day to 0.1 us (meteo: four times of day)", shards=8),
    ],
    assumes=["60 spelled in the seconds field (leap second) is not explored", "the writers of navigation, ionosphere, clock and DORIS records do not exist or are incomplete upstream"],
)

CHECKS["C08"] = dict(
    harnesses=[
        H("c08_epoch_flag", "every text of 0..=3 printable characters"),
        H("c08_lli", "every byte"),
        H("c08_snr_code", "every text of 0..=2 printable characters"),
        H("c08_snr_class", "every byte; every class"),
        H("c08_snr_db", "every ordered pair of strengths in [-20, 120] dB, by 0.001 dB"),
        H("c08_marker", "14 documented texts, each letter in either case, any one column replaced by any other printable character, or one appended", shards=4),
        H("c08_clock_profile", "every text of 0..=3 printable characters"),
        H("c08_file_type", "7 documented texts, each letter in either case, any one column replaced", shards=4),
    ],
    assumes=["code words of SNR (bad, weak, strong, excellent) are longer than the texts explored"],
)

CHECKS["C09"] = dict(
    harnesses=[
        H("c09_parse", "every code: letter CLDSPW (either case), digit, optional letter", shards=2),
        H("c09_reject", "every text of 0..=4 printable non blank characters", shards=4),
        H("c09_physics", "all pairs of 20 representative observables", shards=2),
        H("c09_carrier", "7 constellations; every code of kind C, L, D or S, any band digit, any attribute letter", shards=7),
        H("c09_carrier_v2", "GPS, Glonass, Galileo, SBAS two character codes"),
        H("c09_glonass", "channels -7..=6"),
    ],
    assumes=["RINEX 3/4 band table as in the harness"],
)

CHECKS["C10"] = dict(
    harnesses=[
        H("c10_short", "short names of 5 file types: any station of 4 letters and digits (either case), any day 1..366, any two digit year", shards=4),
        H("c10_ionex", "ionosphere file names: any agency, region, day, year", shards=1),
        H("c10_long", "long names of 6 file types and 3 constellations, 5 periods, 3 sources: any station, batch, country (either case), year 1970..2999, day, hour, minute; any sampling interval of 4 units", shards=8),
        H("c10_epoch", "short and long names generated from the first epoch: any nanosecond of 8 (thorough 15) days of 2 (thorough 4) years, leap or not, GPST and UTC", shards=8),
        H("c10_periods", "sampling intervals: any count of seconds, minutes, hours, days below the next unit", shards=1),
        H("c10_ppu", "production periods, any 3 characters", shards=1),
        H("c10_malformed", "3 valid names cut anywhere, any one character replaced by any ASCII character", shards=8),
    ],
    assumes=["short names of day files (sequence 0): the sequence is not an attribute in this library", "sampling interval codes of high rate files (Z, C) are not supported by the library"],
)

CHECKS["C11"] = dict(
    harnesses=[
        H("c11_histogram", "observation records of 0 to 4 (thorough 5) epochs, GPST or UTC: any first epoch within a day, any successive differences of 1 ns to 10 days", shards=4),
        H("c11_dominant", "same: dominant interval, steadiness, first and last epochs, total duration", shards=4),
        H("c11_gaps", "same, any tolerance of 0 to 1e6 s", shards=4),
        H("c11_default_gaps", "same, no tolerance given; interval in the header absent or any", shards=4),
    ],
    assumes=["epochs of the record differ (observation data)"],
)

CHECKS["C12"] = dict(
    harnesses=[
        H("c12_physics", "2 epochs (thorough 3) of 8 signals of 2 satellites (10 sets of observables of 7 constellations, RINEX 2 and 3 names, names of no carrier), any of 7 flags, any loss of lock indicators or none, receiver clock at one epoch", shards=8),
        H("c12_mutable", "same, iterators that modify", shards=4),
        H("c12_conditions", "same, GPS: filters on the epoch flag", shards=2),
        H("c12_tracking", "same, GPS: filters on the loss of lock indicator (any 3 bits)", shards=4),
        H("c12_masking", "same, any 3 bit mask", shards=4),
        H("c12_lists", "same: unique satellites, constellations, observables, carriers and codes", shards=8),
    ],
    assumes=["an epoch keeps at least one signal once masked (epochs without signals are dropped by the masking operation)"],
)

CHECKS["C13"] = dict(
    harnesses=[
        H("c13_pairs", "4 combinations, 13 pairs of bands of 6 constellations: any subset of code and phase of both, 4 orders, another complete satellite before or after; any values of 3 decimals up to 1e8 m or 5e8 cycles", shards=8),
        H("c13_epochs", "2 (thorough 3) epochs, any interval of 1 ns to 100 s, any subset of GPS L1/L2 code and phase at each; interval in the header or not", shards=8),
        H("c13_flags", "same time under two flags", shards=4),
        H("c13_many", "two references and two other bands, any subset of 8 signals, 8 orders, other physics and unknown codes in between", shards=8),
        H("c13_mw", "Melbourne-Wubbena: any subset of code and phase of 3 signals, 3 constellations, another satellite before or after or none", shards=8),
        H("c13_mw_epochs", "same, 2 epochs, any interval", shards=4),
    ],
    assumes=["values agree within 1 mm", "when several signals of the reference band are present, any of them can be the reference", "the reference band is L1, E1, G1, B1I", "IRNSS and DORIS signals have no reference band in this library"],
)

CHECKS["C14"] = dict(
    harnesses=[
        H("c14_signals", "1 epoch, any subset of 5 signals of 3 satellites on each side, 2 orders, 2 flags, any values of 3 decimals up to 1e8, any indicators", shards=8),
        H("c14_epochs", "1 to 2 (thorough 3) epochs on each side, any offset within 100 s (1 ns steps), all signals, either order", shards=4),
        H("c14_self", "1 to 2 (thorough 3) epochs minus themselves, any subset of signals", shards=4),
        H("c14_meteo", "meteo records: 2 epochs, any subset of 3 observables, any offset", shards=4),
        H("c14_doris", "DORIS records: 1 epoch, 2 stations, any subset of 3 signals on each side, any offset within 100 ns, 2 flags, stations numbered alike or not", shards=4),
    ],
    assumes=["differences agree within 1e-5"],
)

CHECKS["C15"] = dict(
    harnesses=[
        H("c15_values", "RINEX 2.11 and 3.02, 1, 2, 3, 7, 8, 9 or 10 observables, 2 epochs: any one field with any value of 4 layouts (thorough 6), the others known or blank; last line terminated or not", shards=8),
        H("c15_blanks", "same, any subset of 1-3 fields (thorough: 10), any run present or missing above; lines trimmed or not", shards=8),
        H("c15_write", "write then parse, same observables: any one value (all 7 column magnitudes), others present, half present or missing", shards=8),
        H("c15_write_blanks", "write then parse, any run of fields present or missing", shards=8),
        H("c15_sensors", "3 sensors: two free columns of model or type (or none), accuracy or none, any one coordinate or height", shards=4),
    ],
    assumes=["sensor accuracies are sampled (single precision is not encoded)", "values fit 7 columns"],
)

CHECKS["C16"] = dict(
    harnesses=[
        H("c16_text", "observation and meteo headers: any one text field (program, operator, date, observer, agency, receiver, antenna, marker name) of 1, 2, 7, width-1 or width characters, three of them any printable character, or any marker number; others present or not", shards=8),
        H("c16_comments", "comments of 1-125 characters around the 60 column limits, characters at the limits free", shards=4),
        H("c16_version", "12 constellations x 12 revisions x observation, navigation and meteo files", shards=4),
        H("c16_columns", "standard lines: any one of 10 fields of 1, 2, 7, width-1 or width characters (four of them free), left or right aligned, others full or short", shards=4),
        H("c16_marker", "marker name (1-60 characters), any number, any type, lines in any order", shards=8),
        H("c16_position", "approximate position, antenna eccentricities, antenna reference point: any one coordinate of up to 7 digits and 4 decimals, either sign", shards=8),
        H("c16_leap", "any one of leap seconds, announced leap, week, day with up to 4 digits; short or full form; no timescale, GPS or BDS", shards=4),
        H("c16_leap_read", "standard lines in 6 columns fields: 1, 2 or 4 fields of 1-3 digits, timescale right after", shards=4),
        H("c16_glonass", "1 to 24 channels, any channel number for one of them", shards=8),
        H("c16_interval", "8 sampling intervals from 1 ms to 900 s", shards=1),
        H("c16_times", "8 days, any second of the day, 4 fractions, 5 timescales, single constellation or mixed", shards=8),
        H("c16_observables", "1 to 30 observables, RINEX 2 and 3, one or four constellations", shards=4),
        H("c16_meteo", "1 to 11 observables, two sensors: any model, type, coordinate or height", shards=8),
    ],
    assumes=["fields fit their columns (comments excepted)", "fields without a writer (license, DOI, station URL, ionospheric corrections, DCB and PCV compensations, scaling) and the headers of clock, IONEX, ANTEX and DORIS files (writers unfinished, marked TODO upstream) are not covered"],
)

CHECKS["C17"] = dict(
    harnesses=[
        H("c17_v2_values", "RINEX2 GPS and Glonass frames (and a second satellite): any one clock term or parameter with any mantissa of 13 digits, or any code; exponents written D or E", shards=6),
        H("c17_v3_values", "same, RINEX3, 6 constellations, exponents D, E or e", shards=8),
        H("c17_v4_values", "same, RINEX4, 15 kinds of message", shards=8),
        H("c17_v2_blanks", "same frames, one or two blank fields; trailing blanks kept, trimmed, or lines padded to 82 columns", shards=6),
        H("c17_v3_blanks", "same, RINEX3", shards=8),
        H("c17_v4_blanks", "same, RINEX4", shards=8),
        H("c17_v4_models", "RINEX4 ionosphere messages (Klobuchar, Nequick-G, BDGIM): any one coefficient, any flags", shards=4),
        H("c17_v4_eop", "RINEX4 Earth orientation messages: any one coefficient", shards=4),
    ],
    kf=["c17_kf_sto"],
    assumes=["a field spelling 0.000000000000 with exponent +00 is documented as unresolved (no parameter)", "IRNSS frames and the 4th orbit line of Glonass in RINEX 3.05 have no description in the library: not covered"],
)

CHECKS["C18"] = dict(
    harnesses=[
        H("c18_selection", "2 (thorough 3) ephemerides of one GPS, QZSS, Galileo or BeiDou satellite and one of another: any ToC within 8 h, any ToE within 4000 s of ToC, any time within 11-16 h", shards=4),
        H("c18_sbas", "3 (thorough 4) messages of one geostationary satellite and one of another, any times within 2 days", shards=1),
        H("c18_none", "one ephemeris of another satellite, any times", shards=1),
        H("c18_toe", "ToE of a parsed frame: any second of week, 4 constellations", shards=2),
    ],
    assumes=["exactly at ToE and at the end of the validity period, either outcome is accepted", "Glonass and IRNSS have no ToE in this library: not covered"],
)

CHECKS["C19"] = dict(
    harnesses=[
        H("c19_cells", "12 grids (north, south, either direction, fraction in the origin or in the spacing only, fields without separation, one or two heights): any value of 1, 4 (thorough: 3) digits in the first, middle or last cell, 9999 included; two maps", shards=8),
        H("c19_exponents", "exponents -3..=1 or omitted, in the header and in a map; any 3 digit value", shards=4),
        H("c19_wide", "rows of 4, 17, 18 cells: any 5 digit value next to a 3 digit, another 5 digit or a missing one", shards=8),
        H("c19_rms", "RMS maps of both epochs, of one, with their own exponent, followed by HEIGHT maps; any 3, 4 digit RMS; TEC or RMS missing; 3 grids", shards=8),
        H("c19_origin", "any latitude of 3 digits (tenths of degrees), either sign", shards=4),
    ],
    kf=["c19_kf_last_map"],
    assumes=["maps are given as TEC, then RMS, then HEIGHT maps; the last TEC map is not judged (KNOWN-FINDING c19_kf_last_map)", "exponent lines precede the values of their map", "coordinates compared within 1e-6"],
)

CHECKS["C21"] = dict(
    harnesses=[
        H("c21_values", "lines of 1 to 6 terms, two layouts, labels in columns 61 or 66, 5 profile types: any one term (12 digits, either sign, exponents E, D, e, d)", shards=8),
        H("c21_key", "any satellite number of 7 constellations, any station name of 4 (revision 3.04: 4 or 9) characters, receivers named like satellites", shards=8),
        H("c21_epoch", "any hour 00-19, minute, second and microsecond, on 4 days; 7 time systems or none with 5 kinds of constellation", shards=8),
        H("c21_records", "5 clocks (the same satellite analysed and monitored, a receiver named like it) at 2 epochs, four orders, 1 to 6 terms each, one of them any", shards=8),
        H("c21_header", "0 to 5 types of data, any station name and number, analysis center, reference, clock constraint", shards=4),
    ],
    assumes=["terms present in their order (the announced number of terms is not used: pinned by the existing tests clk_v3_usno and parse_clk_v3_epoch)", "no clock record writer upstream"],
)

CHECKS["C22"] = dict(
    harnesses=[
        H("c22_short", "1, 2, 4, 5 observables; four headers of 1 to 4 stations whose numbers are not their positions, eight orders of stations in the epoch; 2 epochs; the first, middle or last field of any station (thorough: any field, either epoch) free (10.3 digits and each flag any digit or blank; -9.3; 1.3 either sign) or blank; trailing blanks kept or not", shards=8),
        H("c22_long", "same with 6, 9, 10 observables (two lines per station)", shards=8),
        H("c22_epoch", "epoch flags 0..=6; clock offset absent or any digits (three widths); extrapolation flag", shards=4),
        H("c22_station", "station descriptions: number of two digits, labels of 1 3 4 and sites of 1 2 11 28 29 free printable characters, any DOMES digits, generation and shift factor of any digits: text to description to text", shards=4),
    ],
    assumes=["the DORIS record writer is not implemented upstream"],
)

CHECKS["C20"] = dict(
    harnesses=[
        H("c20_values", "3 antennas (satellite, two receivers; 2, 3, 2 frequencies); any one eccentricity (any digits: 5.2, -2.2, 1.2) or pattern value (first, middle, last; -2.2, -4.2, 1.2; 3, 19, 5 values) of any frequency free, or its pattern absent; four combinations (thorough: all 16) of: azimuth dependent lines, RMS sections, comments, trailing blanks dropped", shards=8),
        H("c20_codes", "each of 24 frequency codes in three positions among others", shards=4),
        H("c20_unknown", "any digit that is no frequency of the system, six systems", shards=2),
        H("c20_description", "one field of any of 3 antennas free: type, serial number, agency, SINEX code (printable texts of 1 to 20), satellite (6 systems, any number), COSPAR digits, number of antennas (1 to 4 digits), method (six), azimuth increment and each of the three zenith grid numbers (1.1 and 3.1 digits); two layouts", shards=8),
        H("c20_bounds", "validity bounds: none, either, both; 8 dates, any minute, second and 7 decimals; instants at, one nanosecond before and after each bound, and far away", shards=8),
        H("c20_lookup", "5 antennas (a satellite and a receiver antenna calibrated twice) in ten orders; any nanosecond of 2 hours around 5 instants; 4 carriers; lookups by satellite, by type in any case, by serial number", shards=8),
    ],
    kf=["c20_kf_shared", "c20_kf_date"],
    assumes=["the ANTEX record writer is not implemented upstream", "azimuth dependent patterns are documented as not supported"],
)

CHECKS["C24"] = dict(
    harnesses=[
        H("c24_end", "header grids: 8 starts, 24 spacings, any end of 3 digits (thorough: 4), either sign, three axes", shards=8),
        H("c24_start", "8 ends, 24 spacings, any start of 3 digits (thorough: 4), either sign", shards=8),
        H("c24_spacing", "12 pairs of bounds, any spacing of 2 or 3 digits, either sign", shards=8),
        H("c24_lookup", "14 grids (either direction, single points): any hundredth of 600 to 5000 around both ends, near the start, and in the middle", shards=8),
        H("c24_length", "168 grids that start one step from zero", shards=2),
    ],
    kf=["c24_kf_length"],
    assumes=["grids given in tenths (F6.1)", "conditions on doubles over at most 2^17 assignments are decided by complete evaluation of the path's formula"],
)

CHECKS["C25"] = dict(
    harnesses=[
        H("c25_print_parse", "every (major, minor)"),
        H("c25_spelling", "every spelling of 1-3 digits, optionally a dot and 1-3 digits, any one column replaced by any other ASCII character", shards=3),
        H("c25_order", "every pair of revisions"),
        H("c25_arithmetic", "every revision, every amount (sums up to 255)"),
        H("c25_header", "header first line, every d.dd, d, d.d number"),
    ],
    assumes=["sums of majors fit 8 bits"],
)

# reasons for properties without a check
NA = {}
HOOK_COMMITS = []
