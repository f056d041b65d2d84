#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the committed text of every property)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "CRINEX numeric differencing is lossless",
  "For every supported differencing order, feeding any sequence of integer samples through the numeric compressor and then through the numeric decompressor of the same order gives back exactly the original sequence. "
  "A re-initialisation of both kernels at any point of the sequence restarts the scheme without changing what is recovered.",
  ["inputs", "histories"],
  "all sample sequences and all re-initialisation points; bounded in sequence length and sample magnitude (no difference leaves 64 bits)",
  "The tests run three fixed sequences of order 3; the recovered value depends on the whole history and on the order.",
  ["src/hatanaka/numdiff.rs"], [("NumDiff", "src/hatanaka/numdiff.rs"), ("binomial kernels", "src/hatanaka/numdiff.rs decompress/compress")],
  ["NumDiff::compress", "NumDiff::decompress"])
p("C02", "CRINEX text differencing is lossless",
  "Feeding any sequence of ASCII text lines (without the scheme's reserved '&') through the text compressor and then the text decompressor gives back every line, up to trailing blanks. "
  "Blanks in a differential mean 'unchanged', '&' means 'became blank', and any other character replaces the one in its column.",
  ["inputs", "histories"],
  "all line contents over a bounded number of columns and lines, growing and shrinking lengths, any re-initialisation point",
  "The tests use a handful of fixed lines; the kernel's answer depends on every previous line and on relative lengths.",
  ["src/hatanaka/textdiff.rs"], [("TextDiff", "src/hatanaka/textdiff.rs")], ["TextDiff::compress", "TextDiff::decompress"])
p("C03", "CRINEX decompression rebuilds the RINEX observations",
  "Decompressing a CRINEX body yields, for every epoch, the described epoch line, one line per satellite in the described order, and for every observable the value recovered from its differentials with its own flags; "
  "a blank differential yields a blank observation that breaks only that observable's arc. Parsing CRINEX text therefore gives the same observations as parsing the equivalent RINEX text (the rebuilt text itself is compared up to trailing blanks and blank lines).",
  ["inputs", "histories"],
  "all digits, signs, flags and blank patterns of a bounded number of epochs, satellites and observables",
  "The tests compare a few sample files; state carried across epochs, satellites and observables is not exercised systematically.",
  ["src/hatanaka/decompressor/mod.rs", "src/hatanaka/decompressor/io.rs", "src/hatanaka/obs.rs"],
  [("decompressor state machine", "src/hatanaka/decompressor/mod.rs"), ("kernel maps", "src/hatanaka/decompressor/mod.rs")],
  ["Decompressor", "Rinex::parse"])
p("C04", "RINEX3 observations survive write then parse",
  "Formatting an observation record in RINEX3 and parsing the produced text gives back the same epochs, epoch flags, satellites, observables, values (to the millesimal), LLI and SNR flags. "
  "No observation is gained, lost, or attributed to another satellite, observable or epoch.",
  ["inputs"],
  "all values in the F14.3 range, every LLI/SNR/flag combination and every presence pattern for a bounded number of satellites and observables",
  "Tests re-parse a few files; presence patterns, sign/width boundaries and flags are sampled, not covered.",
  ["src/observation/formatting.rs", "src/observation/parsing.rs", "src/epoch.rs"],
  [("V3 writer", "src/observation/formatting.rs"), ("V3 parser", "src/observation/parsing.rs")],
  ["Rinex::format", "Rinex::parse"])
p("C05", "RINEX2 observations survive write then parse",
  "Formatting an observation record in RINEX2 and parsing the produced text gives back the same epochs, flags, satellites, observables, values, LLI and SNR flags, including when the satellite list or the observables wrap over several lines. "
  "No observation is gained, lost, or attributed to another satellite, observable or epoch.",
  ["inputs"],
  "all values in the F14.3 range and every presence pattern, for satellite counts around the 12-per-line wrap and observable counts around the 5-per-line wrap",
  "Tests re-parse few files; wrapping boundaries crossed with presence patterns are not enumerated.",
  ["src/observation/formatting.rs", "src/observation/parsing.rs"],
  [("V2 writer", "src/observation/formatting.rs"), ("V2 parser", "src/observation/parsing.rs")],
  ["Rinex::format", "Rinex::parse"])
p("C06", "Each observation is read from its own columns",
  "When parsing an observation epoch (RINEX2 or RINEX3), the value, LLI and SNR of an observable are determined only by the 14+1+1 columns assigned to that observable on that satellite's line(s) and equal what these columns spell; a blank value field yields no signal and disturbs no neighbour. "
  "Observables are numbered in the header's order for that satellite's constellation (with augmentation satellites sharing theirs).",
  ["inputs"],
  "all digit/blank/flag contents of the fixed columns, with trailing fields truncated or not, for bounded numbers of satellites and observables",
  "Tests compare a few well-formed files and mostly full-length lines; truncated tails and flag columns next to values are barely sampled.",
  ["src/observation/parsing.rs"], [("column slicing", "src/observation/parsing.rs parse_signals_v2/v3")], ["Rinex::parse"])
p("C07", "Epoch text means the instant it spells",
  "Every valid epoch printed in one of the RINEX layouts (observation, navigation, clock, ionosphere, DORIS) parses to exactly the calendar instant it spells in the given timescale, including sub-second digits, and 2-digit years follow the 80..99/00..79 convention. "
  "Writing an observation or meteo file and parsing it back gives the same instants at the printed resolution, and a line with an invalid calendar field gives no epoch.",
  ["inputs"],
  "all values of the year, month, day, hour, minute, second and fraction digits of the layout, in UTC, GPST, GST, BDT",
  "Tests parse about thirty fixed epochs; calendar and fraction corner cases (pivot year, leap days, last nanosecond) are sampled.",
  ["src/epoch.rs"], [("parse_in_timescale/parse_utc", "src/epoch.rs"), ("format", "src/epoch.rs"), ("parse_formatted_month", "src/epoch.rs")],
  ["epoch::parse_in_timescale", "epoch::format"], "re-export of the crate-private epoch functions under cfg(rinex_verif)")
p("C08", "Flag and strength codes map one to one",
  "Epoch flags, LLI bits, SNR classes, marker types, clock profile types and file types each parse from exactly their documented code (the letter case of words does not matter), print back to that same code (a file type to its standard header descriptor), and reject everything else. "
  "The SNR class built from a dB value is the class whose documented range contains that value, and is monotonic.",
  ["inputs"],
  "all short ASCII strings and all numeric codes, and all finite dB values",
  "Tests check some codes; rejection and boundary behaviour needs every string/value.",
  ["src/observation/flag.rs", "src/observation/snr.rs", "src/observation/lli.rs", "src/types.rs", "src/marker.rs", "src/clock/record.rs"],
  [("EpochFlag/SNR/LliFlags", "src/observation"), ("Type", "src/types.rs"), ("MarkerType", "src/marker.rs")])
p("C09", "Observable codes round trip and classify correctly",
  "Every well-formed observable code parses to the kind its first letter announces, prints back to the same code, is in exactly one physical class, and its carrier is the one RINEX assigns to that band for that constellation. "
  "Two observables measure the same physics exactly when they are of the same kind.",
  ["inputs"],
  "all 2 and 3 letter codes, all constellations",
  "Tests sample some codes; the tables have hundreds of entries.",
  ["src/observable.rs", "src/carrier.rs"], [("Observable", "src/observable.rs"), ("Carrier", "src/carrier.rs")],
  ["Observable::from_str", "Carrier::from_observable"])
p("C10", "Standard file names round trip",
  "Parsing a standard RINEX file name (short V2 or long V3) yields the station, year, day, time, batch, periodicity and sampling it spells, and re-generating the name from these attributes gives the same name. "
  "A file production period and a sampling period print as the two-digit code of their own unit and parse back to the same duration.",
  ["inputs"],
  "all valid names of the standard grammar (letters and digits symbolic), all period and unit codes",
  "Tests parse a few dozen names.",
  ["src/production/mod.rs", "src/production/ppu.rs", "src/production/ffu.rs", "src/production/sequence.rs"],
  [("ProductionAttributes", "src/production/mod.rs"), ("PPU", "src/production/ppu.rs"), ("FFU", "src/production/ffu.rs")],
  ["ProductionAttributes::from_str", "PPU", "FFU"])
p("C11", "Sampling analysis reflects the epochs of the record",
  "For any strictly increasing epochs, the sampling histogram counts every successive difference exactly once, the dominant interval is one with the highest count, and steadiness holds exactly when there is a single difference. "
  "Every reported data gap starts at the epoch that precedes it, lasts the true difference, and all and only the differences larger than the tolerance are reported.",
  ["inputs"],
  "all epoch spacings of a bounded number of epochs, with and without an explicit tolerance",
  "Tests use a few files with steady sampling.",
  ["src/sampling.rs", "src/iterators.rs", "src/lib.rs"], [("sampling_histogram / data_gaps", "src/lib.rs, src/sampling.rs")], ["Rinex::sampling_histogram", "Rinex::data_gaps"])
p("C12", "Observation iterators partition the record",
  "Each filtering iterator over observations (by physics, by satellite, by constellation, by carrier, by epoch flag, by LLI) yields exactly the record's entries that satisfy the filter, each with its own key and value, and nothing else. "
  "The union of complementary filters is the whole record.",
  ["inputs"],
  "all flags, observable kinds, satellites and LLI masks for a bounded number of epochs and signals",
  "Tests check totals on a few files.",
  ["src/observation/rinex/mod.rs", "src/observation/rinex/feature.rs", "src/iterators.rs", "src/lib.rs"],
  [("iterators", "src/observation/rinex/mod.rs")])
p("C13", "Signal combinations pair the right signals",
  "Every reported signal combination for a satellite at an epoch is computed from signals of that very satellite and epoch, using the two signals its identifiers name and their carrier frequencies, according to the combination's formula. "
  "A signal outside the reference band of its constellation (L1, E1, G1, B1I) is combined exactly once when a reference of the same physics is present at that epoch, and never otherwise; Melbourne-Wubbena needs both physics of both bands.",
  ["inputs"],
  "all presence patterns of dual frequency code/phase signals for a bounded number of satellites and epochs, all values",
  "Tests compare one file's results for a few epochs.",
  ["src/observation/rinex/feature.rs"], [("signal combinations", "src/observation/rinex/feature.rs")])
p("C14", "Observation differencing subtracts matching observations",
  "Subtracting one observation record from another (observation, meteo or DORIS data) replaces each value by its difference with the other record's value for the same epoch, flag, satellite or station, and observable. "
  "Observations without a counterpart keep their value, nothing is added or removed, and indicators are preserved. Subtracting a record from itself gives only zeros.",
  ["inputs"],
  "all values and presence patterns for a bounded number of epochs, satellites and observables",
  "Tests subtract one file from itself.",
  ["src/lib.rs"], [("observation_substract_mut", "src/lib.rs")], ["Rinex::observation_substract"])
p("C15", "Meteo records survive write then parse, field by field",
  "Parsing a meteo record attributes to each header observable the value spelled in its own column, blank fields yield nothing, and formatting the record then parsing it again gives the same epochs, observables and values at the printed resolution.",
  ["inputs"],
  "all digit contents and presence patterns for bounded epochs and observable counts around the line wrap",
  "Tests re-parse few files with constant presence.",
  ["src/meteo/formatting.rs", "src/meteo/parsing.rs", "src/meteo/header.rs", "src/meteo/sensor.rs"],
  [("meteo writer", "src/meteo/formatting.rs"), ("meteo parser", "src/meteo/parsing.rs")])
p("C16", "Header fields survive write then parse",
  "Formatting an observation, meteo or navigation header and parsing it back preserves each described field that fits its columns: version, type and constellation, program, operator, agency, marker, receiver, antenna, approximate position, sampling interval, time of first and last observation, observable lists, GLONASS channels, leap seconds, meteo sensors and comments. "
  "Every produced header line has its label in columns 61-80, and comments longer than a line are wrapped, not dropped.",
  ["inputs"],
  "all printable contents of the text fields and all values of the numeric fields within their column width",
  "Tests check a handful of headers.",
  ["src/header/formatting.rs", "src/header/parsing.rs", "src/observation/header.rs", "src/marker.rs", "src/hardware.rs", "src/leap.rs"],
  [("header writer", "src/header/formatting.rs"), ("header parser", "src/header/parsing.rs")])
p("C17", "Broadcast ephemeris fields are read from their own columns",
  "Parsing a navigation frame (RINEX 2, 3 or 4) yields the satellite, clock epoch, three clock terms and every orbital parameter the standard assigns to that constellation and revision, each equal to what its own 19 columns spell (D or E exponents alike); a blank or null field yields no parameter and shifts no other.",
  ["inputs"],
  "all digit contents, signs, exponents and blank patterns of the fields, for each constellation, bounded to one frame",
  "Tests compare a few frames; blanks, zeroes and exponent letters are sampled.",
  ["src/navigation/ephemeris/parsing.rs", "src/navigation/parsing/mod.rs", "src/navigation/orbits.rs", "db/NAV/orbits.json"],
  [("parse_orbits", "src/navigation/ephemeris/parsing.rs"), ("navigation standards table", "src/navigation/orbits.rs")])
p("C18", "Ephemeris selection returns a valid, closest ephemeris",
  "Selecting an ephemeris for a satellite at a time returns one of that satellite's own ephemerides, already published at that time (time of clock) and only when it is valid (its age since the time of ephemeris is positive and below the validity period of its constellation); of the valid ones it is the latest published. "
  "When a valid ephemeris exists one is returned. For geostationary (SBAS) vehicles, which have no time of ephemeris, the publication closest to the requested time is returned.",
  ["inputs"],
  "all ephemeris times and request times for a bounded number of ephemerides and satellites",
  "Tests select on one file at a few instants.",
  ["src/navigation/rinex/mod.rs", "src/navigation/rinex/feature.rs", "src/navigation/ephemeris/mod.rs"],
  [("nav_ephemeris_selection", "src/navigation/rinex/mod.rs"), ("Ephemeris::is_valid", "src/navigation/ephemeris/mod.rs")])
p("C19", "Ionosphere map cells are read at their own coordinates",
  "Parsing IONEX maps (TEC maps, then RMS maps, then height maps) attributes each printed TEC value, scaled by ten to the current exponent, to the latitude, longitude, height and epoch it is printed under; missing cells (9999) yield nothing; and RMS maps complement only the TEC cell of the same coordinates and epoch. "
  "The header gives the grid, map dimension, mapping function and number of satellites it spells.",
  ["inputs"],
  "all cell contents, exponents and grid starts/steps for a bounded grid",
  "Tests compare some cells of two files.",
  ["src/ionex/parsing.rs", "src/ionex/quantized.rs", "src/ionex/coordinates.rs", "src/ionex/tec.rs"],
  [("map parser", "src/ionex/parsing.rs"), ("Quantized", "src/ionex/quantized.rs")])
p("C20", "Antenna calibrations are attributed and selected correctly",
  "Parsing an ANTEX file yields, for each antenna block, that antenna's identity (type, and satellite with its launch designator or serial number), calibration method, agency and number of antennas, azimuth increment, zenith grid, SINEX code, validity bounds, "
  "and for each frequency its own eccentricities and azimuth-independent phase pattern, each equal to what its columns spell; RMS sections, comments and azimuth-dependent patterns change none of it, and a frequency code that does not exist is not mistaken for another. "
  "A calibration is valid exactly from its first to its last instant (bounds included, a missing bound is unlimited); looking up a satellite, an antenna type (in any letter case) or a serial number at a given time returns the offset of the calibration of that antenna in force then for that carrier, and nothing when there is none.",
  ["inputs"],
  "all numeric contents, all texts and all validity bounds of a bounded number of antennas and frequencies",
  "Tests read three files.",
  ["src/antex/record.rs", "src/antex/antenna/mod.rs", "src/carrier.rs", "src/lib.rs"], [("ANTEX parser", "src/antex/record.rs"), ("Antenna::is_valid", "src/antex/antenna/mod.rs"), ("frequency codes", "src/carrier.rs"), ("lookups", "src/lib.rs")])
p("C21", "Clock records are read field by field",
  "Parsing a clock record yields, for each entry, the profile type, the station or satellite it names, the epoch in the header's timescale, the bias, and those of the deviation, drift and acceleration terms that are present, each equal to what its columns spell (D or E exponents alike), across the continuation line and for both column layouts (before and from revision 3.04). "
  "No entry is gained, lost, or attributed to another clock or epoch.",
  ["inputs"],
  "all digits, signs, exponents, number of terms 1..6 and profile types, bounded to few entries",
  "Tests compare a few lines.",
  ["src/clock/record.rs", "src/clock/mod.rs", "src/header/parsing.rs"], [("clock parser", "src/clock/record.rs"), ("clock header", "src/clock/mod.rs, src/header/parsing.rs")])
p("C22", "DORIS measurements are attributed to their station and observable",
  "Parsing a DORIS epoch attributes every measurement to the ground station declared under its number in the header, to the observable of its column, with the value and the flags spelled in that column, and station descriptions survive write then parse.",
  ["inputs"],
  "all digits and presence patterns, bounded stations and observables",
  "Tests compare one file.",
  ["src/doris/parsing.rs", "src/doris/station.rs", "src/doris/header.rs"], [("DORIS parser", "src/doris/parsing.rs"), ("Station", "src/doris/station.rs")])
p("C23", "Untrusted text never crashes the parsers",
  "Parsing arbitrary text - entity codes, header field contents, file names, record lines of any length - returns a value or an error; it never panics, overflows, reads out of bounds or fails to terminate.",
  ["inputs"],
  "all byte contents of bounded length for each parsing entry point (and all byte contents of each field inside an otherwise well-formed line or file)",
  "Tests use well-formed files; truncated lines, non-ASCII bytes and out-of-range numbers are not exercised.",
  ["src/header/parsing.rs", "src/observation/parsing.rs", "src/navigation/parsing/mod.rs", "src/clock/record.rs", "src/meteo/parsing.rs", "src/hatanaka/crinex.rs", "src/production/mod.rs"],
  [("slicing by column", "all parsers")], ["Rinex::parse", "FromStr implementations"])
p("C24", "Map grids are accepted and searched by their grid points",
  "A header grid of start, end and spacing is accepted exactly when the spacing leads from start to end in a whole number of steps (or describes a single point), and then holds these very numbers; any other is an error. "
  "The nearest-lower and nearest-above lookups return the grid points that bracket the requested value, and nothing outside the grid; the length of a space is its number of points.",
  ["inputs"],
  "all integer-tenths starts, ends and spacings within geographic ranges, bounded count",
  "Tests check a few grids.",
  ["src/linspace.rs", "src/ionex/grid.rs"], [("Linspace", "src/linspace.rs")])
p("C25", "Revision numbers parse, print and order consistently",
  "A revision number parses from its printed form to the same major and minor, prints back identically, and versions are totally ordered by (major, minor), consistently with equality and arithmetic; a revision is supported exactly when it does not exceed the highest supported one.",
  ["inputs"], "all byte-sized majors and minors and all short strings",
  "Tests check few versions.",
  ["src/version.rs"], [("Version", "src/version.rs")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
