NOT_APPLICABLE = {}
PROPS = []
def P(id, title, statement, over, quant, why, files, mech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note))
BASE = "Exhaustive within the stated bounds over symbolic inputs; every assertion decided by exact value sets or Z3. Trusted: clang's bitcode, the executor and its libc/iostream models (cross-checked by native replays of sampled paths). Outside the bounds nothing is claimed. "

P("P02", "A block is used only if it is a codeword or within a two-bit burst of one",
  "In a synchronised bit stream, a 26-bit block is accepted exactly when it is a valid codeword for its position or (unless error correction is disabled) differs from one by a single error burst of at most two adjacent bits, and then the data reported is that codeword's. Every other block is reported as not received. Each block of a group is judged on its own.",
  ["inputs", "configurations"], "all 2^26 received words in each of the four block positions, with and without error correction",
  "There are 2^26 possible words per position; tests feed a few clean captures and a handful of flipped bits.",
  ["src/block_sync.cc", "src/groups.cc"],
  [("syndrome calculation and offset lookup", "src/block_sync.cc:calculateSyndrome,getOffsetForSyndrome"), ("burst error correction", "src/block_sync.cc:makeErrorLookupTable,correctBurstErrors"), ("block acceptance", "src/block_sync.cc:BlockStream::findBlockInInputRegister")],
  BASE + "One group after synchronisation; damage in one block symbolic, in several blocks from a list of patterns.")
P("P06", "Common fields of every group are exactly those transmitted",
  "Every reported group shows the station's PI as 0x plus four upper-case hex digits, its group type, and the TP flag and programme type name it carries; groups 0 and 15B also show exactly the TA, music/speech and decoder-identification flags in them. Optional fields (raw data, channel, data stream) appear exactly when enabled, and nothing from an earlier group leaks into a later line.",
  ["inputs", "configurations"], "all 32 group types, every flag and PTY value, every PI, RDS and RBDS tables, hex and bit-stream groups",
  "Tests look at a few recorded groups; wrong table entries, swapped bits or leftovers show only for particular values.",
  ["src/groups.cc", "src/tables.cc", "src/util.hh"],
  [("basic fields", "src/groups.cc:Station::decodeBasics,Station::updateAndPrint"), ("flags", "src/groups.cc:Station::decodeType0,Station::decodeType15B"), ("programme type names", "src/tables.cc:getPTYNameString,getPTYNameStringRBDS")],
  BASE + "Single groups and two-group histories; programme type names compared to a reference table taken from the standard.")
P("P07", "A PS name is shown only when complete, with the latest characters",
  "The eight-character programme service name is reported exactly in those 0A/0B groups where all four segments have been received in order since the last first segment, and each character shown is the most recently received one for its position, converted from the RDS character set (unprintable zero shown as blank). Groups with a lost block 3 or 4 change nothing, groups of other types do not disturb it, and it is never continued from another station; before completion only the partial name is shown, and only on request.",
  ["inputs", "histories"], "histories of 0A/0B groups with any segment order, losses and characters",
  "The outcome depends on the order and loss of segments over a history; tests have a few fixed sequences.",
  ["src/groups.cc", "src/text/rdsstring.cc", "src/text/radiotext.hh"],
  [("segment assembly", "src/text/rdsstring.cc:RDSString::set,RDSString::isComplete"), ("PS decoding", "src/groups.cc:Station::decodeType0"), ("character set", "src/text/rdsstring.cc:getRDSCharString")],
  BASE + "Histories: an in-order prefix of 0..4 segments followed by 6 (thorough 8) arbitrary groups; with losses 2 (4). Names containing 0x0D are excluded.")
P("P08", "RadioText is shown exactly when a whole message was received, as sent",
  "RadioText is reported exactly in those group 2 receptions where the message is complete: every character in order up to the terminator or the full 64 (2A) or 32 (2B) characters, or an unterminated shorter message that was repeated unchanged. The text is what was sent, in the RDS character set, without the terminator and trailing blanks; an A/B flag change discards the old message, and groups with a lost block 3 or 4 change nothing. Incomplete text is shown only when partial output is requested.",
  ["inputs", "histories"], "histories of 2A or 2B groups with any addresses, A/B flags, terminators, characters and losses",
  "Completion depends on the whole history of segments, flags and terminators; tests replay a few recordings.",
  ["src/groups.cc", "src/text/rdsstring.cc", "src/text/radiotext.hh"],
  [("RadioText decoding", "src/groups.cc:Station::decodeType2"), ("segment assembly", "src/text/rdsstring.cc:RDSString::set,RDSString::getExpectedLength"), ("A/B flag", "src/text/radiotext.hh:RadioText::isABChanged")],
  BASE + "Histories: in-order prefix of 0..3 groups and 2 (thorough 3) arbitrary ones; whole messages with one arbitrary character; unterminated messages up to 6 groups. Stations mixing 2A and 2B excluded.")
P("P04", "A new PI counts only after three receptions, and stations start from scratch",
  "The programme identification shown changes only when three successively received PI codes are the same new one; until then the confirmed PI stays, and before the first confirmation nothing is reported. Groups whose PI was lost belong to the current station (one at most in succession), and the PI repeated in block 3 of type B groups serves when block 1 is lost. After a change of station nothing collected for the previous one (texts, lists, tags, application assignments) appears in the new one's output.",
  ["inputs", "histories"], "every sequence of PI codes and losses up to the bound, and every kind of collected data at a change of station",
  "The result depends on the order of PI codes and losses and on what was collected before; tests cover one or two sequences.",
  ["src/channel.cc", "src/groups.cc", "src/util.hh"],
  [("PI confirmation", "src/channel.cc:Channel::processGroup,CachedPI::update"), ("station change", "src/channel.cc:Channel::processGroup"), ("PI of a group", "src/groups.cc:Group::getPI")],
  BASE + "Histories of 8 (thorough 10) groups over three arbitrary PI codes; with lost PI 6 (8); 14 kinds of collected data at a change of station. PI 0x0000 excluded.")
P("P05", "A lost block contributes nothing to the output",
  "Whatever is shown for a group with lost blocks is also shown for the same group received intact, and does not depend on the contents of the lost blocks; a damaged group does not prevent a later intact transmission from being shown, and the raw hex form marks lost blocks with ---- and shows the others unchanged.",
  ["inputs", "faults"], "all 16 loss patterns of groups of every type, from decoder states with every open data application and message under way",
  "There are too many combinations of group type, block contents, loss pattern and decoder state for tests, which mostly use intact groups.",
  ["src/groups.cc", "src/text/radiotext.hh", "src/tmc/tmc.cc", "src/rft.cc"],
  [("group decoding by type", "src/groups.cc:Station::updateAndPrint"), ("presence checks", "src/groups.cc:Group::has"), ("hex output", "src/groups.cc:Group::printHex,Station::updateAndPrint")],
  BASE + "One damaged group from each of 8 decoder states; then one intact repetition.")
P("P09", "Alternative frequency lists are shown exactly as announced",
  "An AF list is shown exactly once, when as many codes as announced have followed its count code: each VHF code as 87.5 + 0.1n MHz, LF/MF codes after code 250 as their kHz frequencies, fillers left out. Lists following method B are recognised by their pairs with the tuned frequency and shown with it and each alternative under same-programme or regional variants. A new count starts over, invalid codes never become frequencies, and lost groups never produce a wrong list.",
  ["inputs", "histories"], "all 65536 code pairs, every announced length, method A and B orders, and arbitrary continuations up to the bound",
  "Lists depend on a history of code pairs with special codes; tests have a few sample lists.",
  ["src/groups.cc", "src/util.cc", "src/util.hh", "src/freq.hh"],
  [("AF list assembly", "src/util.cc:AltFreqList::insert,AltFreqList::isMethodB"), ("code to frequency", "src/util.cc:CarrierFrequency"), ("AF decoding", "src/groups.cc:Station::decodeType0")],
  BASE + "Any code pair; lists of every length 1..25; method B lists up to 3 (thorough 4) pairs; 2 (3) arbitrary groups after a start.")
P("P10", "Clock-time shows the transmitted instant, or nothing",
  "A fully received 4A group shows the transmitted date and time converted to the transmitted local offset, as ISO 8601 with that offset (Z when zero), for every valid Julian date, hour, minute and half-hour offset; groups with values outside the allowed ranges or with any of the needed blocks lost show no time. The time zone of the computer has no influence.",
  ["inputs", "configurations"], "every MJD from March 1900 to February 2100, every hour, minute and offset value, host time zones with and without summer time",
  "Calendar arithmetic goes wrong only at particular dates (leap days, year ends, offsets across midnight) and in particular time zones; tests have three dates.",
  ["src/groups.cc"],
  [("clock-time", "src/groups.cc:Station::decodeType4A")],
  BASE + "Every date at 8 times of day; every hour, minute and offset at 12 dates; six host time zones as modelled by mktime/localtime.")
P("P11", "Slow labelling codes and programme item numbers are decoded per variant",
  "A received 1A group shows, according to its variant, the extended country code with the country (for the country digit of the confirmed PI), the TMC identification, the language by name, the emergency warning identification, in-house data or paging data, together with the linkage actuator; values not defined are shown as unknown or not at all, never as another entry. In 1A and 1B, block 4 shows the programme item's day, hour and minute exactly when it is a valid day of the month and time (nothing for day 0), and lost blocks show nothing.",
  ["inputs", "histories"], "every value of blocks 3 and 4 and every country digit, after any other group 1, every loss pattern",
  "Tables of 256 codes times 15 countries and value ranges with few valid combinations; tests check two or three codes.",
  ["src/groups.cc", "src/tables.cc"],
  [("group 1", "src/groups.cc:Station::decodeType1"), ("programme item number", "src/groups.cc:Station::decodePIN"), ("country and language tables", "src/tables.cc:getCountryString,getLanguageString")],
  BASE + "Single groups and two-group histories; country and language names compared to reference tables from the standard.")
P("P12", "Other networks' data is kept per network and shown as sent",
  "Group 14A shows, per variant, the other network's PI with its PS name (exactly when all four segments of that network were received in order), alternative frequencies (as for the tuned network), mapped frequencies, linkage information, programme type and traffic announcement flag, and programme item; group 14B shows the traffic announcement switch. Data of one network never mixes with another's; the other network's PI is shown whenever block 4 was received, and lost blocks contribute nothing.",
  ["inputs", "histories"], "every variant with arbitrary contents, interleaved segments of two networks, AF lists, every loss pattern",
  "Depends on histories of interleaved segments from several networks and many variants; tests have a few recorded groups.",
  ["src/groups.cc", "src/util.cc", "src/text/rdsstring.cc"],
  [("group 14", "src/groups.cc:Station::decodeType14"), ("per-network state", "src/groups.cc:Station::decodeType14"), ("frequencies", "src/util.cc:CarrierFrequency,AltFreqList")],
  BASE + "PS of two interleaved networks: in-order prefixes and 3 (thorough 5) arbitrary segments; AF lists up to 2 (3) code pairs.")
P("P13", "RadioText Plus tags cut exactly the announced characters out of the text",
  "For a complete RadioText (or enhanced RadioText) with RT+ (eRT+) announced, each tag in a received tag group shows its content type and exactly the announced characters of the text (start and length counted in characters, whatever their encoded length, trailing blanks left out), with the item toggle and running flags as sent. Tags reaching beyond the text, tags before the text is complete, dummy tags, and tags in groups with lost blocks are not shown; no character is ever cut in the middle.",
  ["inputs", "histories"], "every start, length and content type of either tag over texts of 1-, 2- and 3-byte characters, every order of texts and flags up to the bound",
  "64x64 positions and lengths times texts with multi-byte characters; tests have a few ASCII examples.",
  ["src/groups.cc", "src/text/radiotext.hh", "src/text/rdsstring.cc", "src/tables.cc"],
  [("tags", "src/groups.cc:parseRadioTextPlus"), ("characters of a text", "src/text/radiotext.hh:RadioText::Plus,src/text/rdsstring.cc:RDSString"), ("content types", "src/tables.cc:getRTPlusContentTypeString")],
  BASE + "Tags reaching exactly one character beyond a terminated message are not judged (some encoders count one too many).")
P("P14", "Long PS, programme type names and enhanced RadioText are shown whole, as sent",
  "The long PS name (15A, up to 32 bytes of UTF-8), the programme type name (10A, 8 characters) and enhanced RadioText (its open data groups, up to 128 bytes of UTF-8) are shown exactly when every character up to the terminator (or the full length) was received in order, with the latest content, trailing blanks and terminator left out; a change of the PTYN A/B flag discards the old name; lost blocks change nothing.",
  ["inputs", "histories"], "any in-order prefix with arbitrary continuations, whole texts of every length, every character, multi-byte characters at every position",
  "Completion depends on the history of segments, terminators and losses; tests replay one or two complete examples.",
  ["src/groups.cc", "src/text/rdsstring.cc", "src/text/radiotext.hh"],
  [("long PS", "src/groups.cc:Station::decodeType15A"), ("programme type name", "src/groups.cc:Station::decodeType10A"), ("enhanced RadioText", "src/groups.cc:Station::parseEnhancedRT")],
  BASE + "Prefix plus 2 arbitrary groups (PTYN 3, thorough 5). Enhanced RadioText in UCS-2 mode is outside the property.")
P("P15", "Data redsea does not interpret is passed on unchanged",
  "Transparent data (5A/5B) is shown with its channel address, bytes in hex and their text in the RDS character set, and a complete 32-segment message as a whole; in-house data (6A/6B) shows exactly the transmitted 5-bit and 16-bit words; groups of open data without a known application show the unprocessed data of each received block in hex. Nothing is shown from lost blocks.",
  ["inputs", "faults"], "arbitrary contents of all blocks of 5A, 5B, 6A, 6B and the open data groups, every loss pattern, every prefix of a transparent data message",
  "Values are passed through masks and hex formatting that fail only for particular bits; tests check single groups.",
  ["src/groups.cc", "src/util.hh"],
  [("transparent data", "src/groups.cc:Station::decodeType5"), ("in-house data", "src/groups.cc:Station::decodeType6"), ("open data groups", "src/groups.cc:Station::decodeODAGroup")],
  BASE + "Complete transparent data messages contain text (no zero bytes or carriage returns).")
P("P18", "Hex input and output carry exactly the groups they describe",
  "Run on hex input (RDS Spy format), redsea decodes exactly the groups the lines describe: four blocks of four hex digits in either case separated by spaces, ---- or any malformed or cut-short block as not received, #S prefixes selecting RDS2 streams, empty or malformed lines and metadata ignored, and the last line with or without newline. Hex output of any group, read back as hex input, gives the same groups with the same lost blocks.",
  ["inputs", "configurations"], "any character at any place of a line, any block values, lines cut anywhere, sequences of lines, all loss patterns for the round trip",
  "The space of malformed lines is unbounded and the round trip must hold for every group; tests have a handful of lines.",
  ["src/io/input.cc", "src/groups.cc", "src/redsea.cc", "src/channel.cc"],
  [("hex parsing", "src/io/input.cc:readHexGroup"), ("hex output", "src/groups.cc:Group::printHex"), ("main loop", "src/redsea.cc:processHexInput")],
  BASE + "Whole program runs (main with argv and standard input); line sequences of 2 (thorough 3) lines of 10 kinds.")
P("P19", "TEF tuner input: only error-free blocks are used",
  "Run on TEF6686 input, redsea decodes from each R line with a preceding P line exactly the blocks whose two error bits are zero, with the values given; blocks with any error bit set count as not received, other lines are ignored, and output is that of the same groups given as hex input.",
  ["inputs", "faults"], "every value of every block, all 256 error bytes, sequences of lines",
  "256 error bytes times block roles and sequences of P and R lines; tests have two recordings without errors.",
  ["src/io/input.cc", "src/groups.cc", "src/redsea.cc"],
  [("TEF parsing", "src/io/input.cc:readTEFGroup"), ("main loop", "src/redsea.cc:processTEFInput")],
  BASE + "Whole program runs; sequences of 3 (thorough 4) lines of 9 kinds; well-formed hex digits assumed.")
P("P20", "ASCII bit input: only the 0 and 1 characters count, up to the end of input",
  "Run on ASCII bit input, redsea decodes exactly the sequence of 0 and 1 characters, whatever other bytes lie between them and wherever the input ends; the output is the groups completed by those bits, no more and no fewer. With feed-through, the input bytes appear unchanged on standard output, and output goes to standard error.",
  ["inputs", "faults"], "any byte inserted or substituted, the input cut at any length, any bit flipped",
  "Ends of input and stray bytes can fall at any bit of a group; tests use whole recordings.",
  ["src/io/input.cc", "src/io/bitbuffer.hh", "src/redsea.cc", "src/block_sync.cc"],
  [("ASCII bits", "src/io/input.cc:AsciiBitReader::readBit,AsciiBitReader::eof"), ("main loop", "src/redsea.cc:processASCIIBitsInput")],
  BASE + "Whole program runs on a five-group bit stream; one arbitrary byte or bit at a time.")
P("P26", "Open data applications: groups go to the application last announced for them",
  "A received 3A group shows the announced group type, the application identifier in hex with its name (unknown ones without), and its message; later groups of that type are interpreted by the application last announced for it and groups of other types are not affected; RadioText Plus, enhanced RadioText, DAB cross-referencing and unknown applications show what they carry (for DAB: ensemble identifier, frequency in kHz, mode), and nothing is shown from lost blocks.",
  ["inputs", "histories"], "arbitrary announcements for every group type and application identifier, pairs of announcements, followed by a group of any type; arbitrary DAB groups",
  "Every group type times application times order of announcements; tests announce two or three applications.",
  ["src/groups.cc", "src/tables.cc"],
  [("announcement", "src/groups.cc:Station::decodeType3A"), ("routing", "src/groups.cc:Station::decodeODAGroup,Station::updateAndPrint"), ("DAB", "src/groups.cc:Station::parseDAB"), ("names", "src/tables.cc:getAppNameString")],
  BASE + "TMC applications are covered by P16.")
P("P22", "Command line options do what the help says; unusable ones are refused",
  "Every option, in short or long spelling, has exactly its documented effect and no other, whatever the order; later input and output formats override earlier ones. Unknown formats, channel counts outside 1 to 32, sample rates outside 128 kHz to 40 MHz (k and M suffixes allowed) or not numbers, feed-through of sound files, several channels or RDS2 streams with input that has none, and stray arguments are refused with a failure exit code and nothing is decoded; help and version exit successfully without decoding.",
  ["inputs", "configurations"], "every sequence of up to three options out of 38 spellings; every channel count and sample rate text within the bound",
  "Option combinations and number texts are too many to list; tests run a few fixed command lines.",
  ["src/options.cc", "src/options.hh", "src/redsea.cc", "src/constants.hh"],
  [("option parsing and validation", "src/options.cc:getOptions"), ("exit codes", "src/redsea.cc:main")],
  BASE + "Channel counts: up to 3 (thorough 4) arbitrary characters after five prefixes. Unknown option letters print the help; their exit code is not judged. getopt_long is modelled.")
P("P23", "The block error rate is the share of erroneous blocks in the last 12 groups",
  "With -E, every line shows the percentage (rounded) of erroneous blocks among the 48 blocks of the last 12 groups, this one included (groups before the first count as error-free): blocks not received and blocks that needed correction count once each, correct ones do not, and older groups no longer count. Without -E it is not shown.",
  ["inputs", "histories"], "sequences of groups with any number of lost blocks, bit streams with correctable and uncorrectable damage",
  "The value depends on the last 12 groups of an unbounded history; tests look at one or two values.",
  ["src/channel.cc", "src/groups.cc", "src/util.hh", "src/block_sync.cc"],
  [("averaging", "src/channel.cc:Channel::processGroup,src/util.hh:RunningAverage"), ("error count", "src/groups.cc:Group::getNumErrors,src/block_sync.cc:had_errors")],
  BASE + "Histories of three runs of up to 13 groups with the same number of errors; bit streams: up to 15 damaged groups after 12 clean ones.")
P("P24", "Reception times are those of the groups and never run backwards",
  "With -t, every line shows the local time at which its group was received, in the requested format (%f giving hundredths of seconds): the clock reading for groups and single bits, and for chunks of bits the chunk's time less the duration, at 1187.5 bits per second, of the bits following the group. Within a channel the time never runs backwards, whatever the clock does. Without -t no time is shown.",
  ["inputs", "histories", "faults"], "clock readings in any order, groups ending anywhere in a chunk, every hour, minute, second and millisecond, several time zones and formats",
  "Clock steps and chunk boundaries cannot be reproduced by tests, which accept any time.",
  ["src/channel.cc", "src/util.cc", "src/groups.cc", "src/io/bitbuffer.hh"],
  [("reception time", "src/channel.cc:Channel::processBits,Channel::processGroup"), ("formatting", "src/util.cc:getTimePointString")],
  BASE + "The clock is a stand-in; up to 4 (thorough 5) groups or 3 (4) chunks with readings from a few instants; up to 600 bits after the group.")
P("P29", "MPX input: channels and data streams stay apart, and every sample counts",
  "Given an MPX signal of any number of channels (raw 16-bit input or sound file), every channel's decoder receives exactly its own samples, all of them, in order, up to the end of the signal, and each channel's groups are shown under its channel number; RDS2 data streams are shown, when requested, under the number of the subcarrier they were sent on. A noise-free signal is decoded without loss once the receiver is in step. Feed-through echoes the samples unchanged. Sound files with unusable sample rates are refused; every accepted rate works.",
  ["inputs", "configurations"], "1 to 32 channels, any length of signal around chunk boundaries, arbitrary sample values, any sample rate; whole-program runs on up to 3 channels and 4 data streams",
  "Errors appear only at chunk ends and for particular channel counts; tests use single-channel recordings.",
  ["src/io/input.cc", "src/io/input.hh", "src/redsea.cc", "src/dsp/subcarrier.cc", "src/dsp/liquid_wrappers.cc", "src/channel.cc"],
  [("reading and de-interleaving", "src/io/input.cc:MPXReader::init,MPXReader::fillBuffer,MPXReader::readChunk"), ("main loop", "src/redsea.cc:processMPXInput"), ("demodulation chain", "src/dsp/subcarrier.cc:SubcarrierSet::processChunk,BiphaseDecoder::push,DeltaDecoder::decode")],
  BASE + "libsndfile and liquid-dsp are replaced by stand-ins (a file in memory; ideal filter, symbol clock and resampler), so reception of noisy signals is not judged.")
P("P03", "Bit streams are decoded from three blocks in rhythm until reception fails",
  "Whatever bits precede and wherever in a group reception begins, decoding starts with the third correct block of three in the cyclic order of offsets, each at most six blocks after the one before, and from then on every group is reported with exactly its correct blocks (or corrected ones). Synchronisation is kept while no more than 42 of the last 50 blocks are erroneous; beyond that, or after bits were lost or repeated, it is dropped and found again in the same way, at any bit offset.",
  ["inputs", "histories", "faults"], "every start position and damage pattern up to the bound, damaged stretches of 1..60 blocks, slips of up to 26 bits either way, arbitrary preceding bits and data",
  "Acquisition and loss depend on the order of damaged blocks over 50 blocks and on bit positions; tests use clean recordings and a few noisy ones.",
  ["src/block_sync.cc", "src/block_sync.hh", "src/util.hh"],
  [("acquisition", "src/block_sync.cc:BlockStream::acquireSync,SyncPulse::couldFollow,SyncPulseBuffer::isSequenceFound"), ("loss", "src/block_sync.cc:BlockStream::findBlockInInputRegister"), ("error history", "src/util.hh:RunningSum")],
  BASE + "Oracle: an independent bit-level block receiver following EN 50067 annex C.")
P("P27", "A channel's output depends on nothing but its own input",
  "Decoding is deterministic and channels are independent: what a decoder outputs for a sequence of groups or bits is the same whatever other decoders in the process receive before, after or in between, however often decoding was started before, however the bits are cut into chunks, and whatever arrives on other data streams.",
  ["inputs", "histories"], "pairs of 16 kinds of group sequences in several interleavings, two arbitrary cuts of a bit stream, any other data stream",
  "Shared state shows only for particular pairs of contents and orders; tests decode one channel at a time.",
  ["src/channel.cc", "src/groups.cc", "src/block_sync.cc", "src/text/rdsstring.cc"],
  [("per-channel state", "src/channel.hh:Channel,src/groups.hh:Station"), ("chunks", "src/channel.cc:Channel::processBits,Channel::processBit")],
  BASE + "Sequences of up to 9 groups per channel, one arbitrary letter each; bit streams of six groups.")
P("P21", "RBDS call signs follow from the PI code, and appear only with RBDS",
  "In RBDS mode every group shows the call sign its PI code stands for: four letters for the K and W ranges, including codes rewritten because of zero digits, and the listed three-letter, linked and foreign station names; codes beginning with digit 1 are marked uncertain. Codes that stand for no call sign, and all codes without RBDS mode, show none.",
  ["inputs", "configurations"], "every PI code from 0x0000 to 0xCFFF and 0xF000 to 0xFFFF, with and without RBDS",
  "There are 65536 codes in overlapping ranges with rewriting rules; tests check a handful.",
  ["src/tables.cc", "src/groups.cc"],
  [("call sign", "src/tables.cc:getCallsignFromPI"), ("presentation", "src/groups.cc:Station::updateAndPrint")],
  BASE + "Single groups. Codes beginning with D or E are not judged.")
P("P17", "RDS2 file transfer yields exactly the file sent, once all of it has arrived",
  "Type C groups on data streams 1 to 3 show their application channel and bytes, assignments of applications to channels, and file transfer data with pipe, toggle, address and bytes. A file's contents appear, in base64 and with exactly the announced size, in the group that supplies the last missing segment, in whatever order segments arrive or repeat; a changed toggle bit starts the file afresh, pipes do not disturb each other, and incomplete groups contribute nothing.",
  ["inputs", "histories", "faults"], "any contents of type C groups, any order of segments, toggles and announcements within the bound, any loss of blocks",
  "Completion depends on the order of segments, toggles and announcements; tests transfer one file in order.",
  ["src/groups.cc", "src/rft.hh", "src/base64.hh", "src/channel.cc"],
  [("type C groups", "src/groups.cc:Station::decodeC"), ("file assembly", "src/rft.hh:RFTFile::receive,RFTFile::hasNewCompleteFile,RFTFile::clear"), ("base64", "src/base64.hh:asBase64")],
  BASE + "Files of up to 4 segments in any order, longer ones (thorough 500 bytes) with one segment late. Checksums are shown, not verified, as in the code.")
P("P16", "TMC messages show exactly the events, qualifications and location sent",
  "Once the service is announced, every single-group TMC message and every multi-group message of two to five groups is shown, with its last group, with exactly its event codes and their descriptions (quantifiers filled in), supplementary phrases, update class, urgency, direction and directionality, extent, location, speed limit, diversion route and start and stop times as modified by its control codes. A message without its first group is not shown; after a lost group the information following it is not used; repeated groups show nothing twice; incomplete groups contribute nothing.",
  ["inputs", "histories", "faults"], "every event, supplementary and control code, quantifier value and time; lists of fields over two to five groups; any loss of groups or blocks",
  "Thousands of codes and variable-length fields over up to five groups; tests decode a few recorded messages.",
  ["src/tmc/tmc.cc", "src/tmc/tmc.hh", "src/tmc/events_data.cc", "src/tmc/csv.hh", "src/groups.cc"],
  [("group assembly", "src/tmc/tmc.cc:Message::pushMulti,Message::decodeMulti,TMCService::receiveUserGroup"), ("free-form fields", "src/tmc/tmc.cc:getFreeformFields"), ("text", "src/tmc/tmc.cc:Message::json,getDescriptionWithQuantifier,getTimeString"), ("event list", "src/tmc/events_data.cc:tmc_data_events")],
  BASE + "Event and phrase texts are compared with a copy of the standard's lists. Quantifier values outside the tables are not judged.")
P("P25", "TMC service, tuning and encryption information is shown and used as sent",
  "TMC system groups show encryption, location table, scope, alternative-frequency flag, service identifier, gap and country codes as transmitted; user groups show the encryption identifiers, the provider's name once both parts were received in order, and other networks' PI codes, frequencies, services and tables. Locations of encrypted services are shown decrypted with the service key of the announced encryption identifier, without it only in encrypted form; before the service and its encryption are announced, nothing is decoded.",
  ["inputs", "histories"], "every system message and every tuning and administration group; arbitrary encrypted locations with several keys; histories of announcements",
  "The fields are packed bits with many values, and keys and announcements act across groups; tests have one service without encryption.",
  ["src/tmc/tmc.cc", "src/tmc/tmc.hh", "src/groups.cc", "src/util.cc"],
  [("system information", "src/tmc/tmc.cc:TMCService::receiveSystemGroup"), ("tuning and administration", "src/tmc/tmc.cc:TMCService::receiveUserGroup"), ("decryption", "src/tmc/tmc.cc:Message::decrypt,rotl16,loadServiceKeyTable")],
  BASE + "Six service keys; frequencies given as FM codes, LF/MF codes or fillers.")
P("P28", "TMC locations are resolved with the location table of the service",
  "With location tables loaded, a message whose location is a point of the service's table shows the coordinates of that point and of the following points in the message's direction, one per unit of extent as far as the table goes, the names at both ends, and the number and name of the road, whatever the column order, line ends and encoding of the files; unusable rows are skipped. Locations not in the table, other tables' numbers and missing tables change nothing. Each table is announced in one line with its numbers of points, roads and names.",
  ["inputs", "histories", "configurations"], "arbitrary locations, extents 0..31, both directions, all table numbers, encodings and layouts listed",
  "The result depends on chains of points over the extent and direction and on file details; tests use no location table.",
  ["src/tmc/tmc.cc", "src/tmc/locationdb.cc", "src/tmc/csv.cc", "src/tmc/csv.hh"],
  [("resolution", "src/tmc/tmc.cc:decodeLocation"), ("loading", "src/tmc/locationdb.cc:loadLocationDatabase,readLTN"), ("tables", "src/tmc/csv.hh:CSVRow,readCSVContainerWithTitles")],
  BASE + "Two small consistent tables; iconv is a stand-in for UTF-8, ISO 8859-1 and ISO 8859-15.")
P("P01", "Whatever arrives, decoding goes on and every line is one complete JSON object",
  "No input makes the program crash, access memory it does not own, fail an internal assertion or end with an uncaught exception: arbitrary group contents of every type and loss pattern on every data stream, text that is not valid in its encoding, damaged location tables and arbitrary bytes in hex, TEF or bit input. It always ends normally at the end of the input, and each group gives at most one output line, which is one complete, valid JSON object.",
  ["inputs", "histories", "faults"], "arbitrary contents of one or two groups of each type with any lost blocks, after announcements of each application; up to 2 (thorough 3) arbitrary bytes anywhere in a line of input",
  "Crashes need particular contents in particular histories, often in blocks that real stations never send; tests feed real recordings.",
  ["src/groups.cc", "src/channel.cc", "src/util.hh", "src/text/rdsstring.cc", "src/tmc/tmc.cc", "src/tmc/locationdb.cc", "src/rft.hh", "src/io/input.cc", "src/redsea.cc"],
  [("output line", "src/groups.cc:Station::updateAndPrint"), ("group decoding", "src/groups.cc:Station::decodeType0,Station::decodeType14,Station::decodeC,Station::parseEnhancedRT"), ("input", "src/io/input.cc:readHexGroup,readTEFGroup")],
  BASE + "Group 4A contents are covered by P10. Every other check also reports memory errors and uncaught exceptions on its paths.")
