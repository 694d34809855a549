"""Per property: how it is decided and against which oracle (used by gen_design.py)."""
HOW = {
"P01": "Groups (all four blocks symbolic, each loss pattern), pairs of groups, announced applications followed by their groups, TMC user groups, type C groups and whole input files with arbitrary bytes are executed. No value is compared: the assertions are that the executor meets no memory error, uncaught exception, abort or failed assert, that each call returns, and that each line written parses as one JSON object without trailing text.",
"P02": "The bits of a synchronised stream are fed to `Channel`; one block is a 26-bit symbolic word. The oracle is the code's definition: the word is a code word of (data, offset) by polynomial division, or (with correction) differs from one by a burst of at most two adjacent bits. The existence of a code word within two bits is expressed with explicit syndromes computed in the harness.",
"P03": "Bit streams with damaged, lost and inserted bits are given both to `Channel` and to an independent receiver in the harness (a list of candidate positions with the three-in-rhythm rule and the loss threshold), and the groups obtained are compared one by one.",
"P04": "Sequences of groups whose PI is one of three symbolic distinct codes or missing. Oracle: a small automaton (confirmation after repeated reception, error runs). Station data: every kind of state is filled for one station and probed for the next one; the output must equal that of a decoder created for the new station.",
"P05": "Relational: the same group is fed to two decoders in the same state, intact to one and with lost blocks (their contents replaced by other symbolic words) to the other. Everything shown for the damaged one must be shown for the intact one, equal; and texts shown later must be the transmitted text.",
"P06": "Symbolic block 2 (group type by choice) with oracle tables of names taken from the standard. All fields of the line are compared, so additional fields are violations too.",
"P07": "Histories of segments with symbolic letters against the reference text assembler `txt.h` (a contiguous run of characters from the start). The whole JSON line is compared on every group.",
"P08": "As P07, with A/B flag, terminators, lengths and the rule for unterminated messages. The 8-bit character table is compared by a table of UTF-8 strings taken from the standard.",
"P09": "Lists are built by the reference in `af.h` (count code, method A/B recognition, LF/MF escape, fillers), for symbolic codes.",
"P10": "The date is an independent conversion of day counts into the proleptic Gregorian calendar. The MJD is symbolic over the whole range; the solver decides the equality of the floating-point formula in redsea with the integer oracle over each slice. The host's time zone is a model (fixed, with summer time).",
"P11": "Symbolic blocks; ECC/country, language, linkage, PIN are compared with tables from the standard.",
"P12": "Symbolic PI codes of other networks, variants and contents; PS and AF assemblers per network.",
"P13": "A RadioText is received with characters of different UTF-8 lengths; start and length of a tag are symbolic. Oracle: cut by character positions.",
"P14": "Reference assemblers for 32-byte UTF-8 long PS, 8-character PTYN and 128-byte eRT.",
"P15": "Bytes of uninterpreted groups are compared with the fields showing them.",
"P16": "Messages are encoded by a reference encoder in `tmc.h` from symbolic event codes, quantifiers, labels and values, sent in groups and the JSON is compared with what the encoder was told. Event texts come from an independent copy of the tables (`events.inc`, `suppl.inc`, extracted once from the pinned tree and committed).",
"P17": "A reference pipe (segments seen, announced size, toggle) and a reference base64 encoder with symbolic bytes.",
"P18": "Whole program (`main`) on a hex file in memory. The oracle reads the same line by its own rules. Hex output is fed to a second run.",
"P19": "Whole program on TEF lines with symbolic digits and error byte.",
"P20": "Whole program on a bit file with a symbolic byte inserted, replaced or cut off; compared with feeding the wanted bits to `Channel`.",
"P21": "PI symbolic; base-26 arithmetic in the harness and a table of three-letter call signs.",
"P22": "`main`/`getOptions` with argument vectors made of choices and symbolic characters; the resulting options (observed by behaviour and by `Options`) or refusal (exit code, message) compared with a reference parser.",
"P23": "Runs of groups with a chosen number of lost blocks; exact integer average over the last 12 groups.",
"P24": "The clock is a function of the harness. Times shown are compared with the clock readings, with a calendar of the harness; order is checked across sequences in which the clock jumps back and forth, with group, bit-chunk and whole-program input.",
"P25": "As P16 for system groups, tuning variants, service keys (file in memory) and decryption (rotate and xor as in ISO 14819-6).",
"P26": "Application groups announced with symbolic group codes; the group that follows is interpreted by the application last announced for it, and by the built-in meaning otherwise.",
"P27": "Relational: two channels in one process, interleaved, versus each alone; bits in one chunk versus cut anywhere.",
"P28": "Location table files in memory with a symbolic location code, extent and direction; the reference holds the same points as a list. One character of a name is arbitrary.",
"P29": "`MPXReader` over a sound file stand-in with symbolic samples: each channel must receive its own samples up to the end. `main` on noise-free synthesized signals through the real `SubcarrierSet` code on ideal DSP parts.",
}
