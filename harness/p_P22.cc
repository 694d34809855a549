// P22: command line options: each does what the help says, invalid ones are refused.
// @bound every sequence of up to 3 options out of 38 spellings, channel counts of up to 4 (thorough 5) arbitrary characters after an arbitrary digit, sample rates of 3 leading digits with every suffix at and around the limits
// @scenario s_options quick=200 Q.n=3 T.n=3
// @scenario s_channels quick=60 Q.n=3 T.n=4
// @scenario s_rate quick=60
// @scenario s_main quick=60
#include "cli.h"
using namespace oracle;
using redsea::InputType; using redsea::OutputType;
namespace {
struct Res { bool thrown = false; Options o; };
void parse(Res& r, const std::vector<std::string>& args) {
  symx_getopt_reset();
  static std::string err;
  err.clear();
  symx_capture_(2, &err);
  auto* a = new std::vector<std::string>(args);
  auto* argv = new std::vector<char*>();
  static char prog[] = "redsea";
  argv->push_back(prog);
  for (auto& s : *a) argv->push_back(&s[0]);
  const int n = static_cast<int>(argv->size());
  argv->push_back(nullptr);
  try { r.o = redsea::getOptions(n, argv->data()); } catch (const std::exception&) { r.thrown = true; }
}
struct Tok { const char* a; const char* b; int what; };
const Tok kTok[] = {
  {"-b", nullptr, 'b'}, {"--input-bits", nullptr, 'b'}, {"-h", nullptr, 'h'}, {"--input-hex", nullptr, 'h'}, {"-x", nullptr, 'x'}, {"--output-hex", nullptr, 'x'},
  {"-i", "hex", 'h'}, {"--input", "bits", 'b'}, {"-itef", nullptr, 'T'}, {"--input=mpx", nullptr, 'm'}, {"-i", "wav", '!'}, {"-i", "", '!'}, {"-ohex", nullptr, 'x'}, {"--output", "json", 'j'}, {"--output=xml", nullptr, '!'},
  {"-f", "a.wav", 'f'}, {"--file=a.wav", nullptr, 'f'}, {"-e", nullptr, 'e'}, {"--feed-through", nullptr, 'e'}, {"-E", nullptr, 'E'}, {"--bler", nullptr, 'E'}, {"-p", nullptr, 'p'}, {"--show-partial", nullptr, 'p'},
  {"-R", nullptr, 'R'}, {"--show-raw", nullptr, 'R'}, {"-s", nullptr, 's'}, {"--streams", nullptr, 's'}, {"-t", "%c", 't'}, {"--timestamp=%c", nullptr, 't'}, {"-u", nullptr, 'u'}, {"--rbds", nullptr, 'u'},
  {"-l", "dir", 'l'}, {"--loctable=dir", nullptr, 'l'}, {"--no-fec", nullptr, 'n'}, {"-c", "2", 'c'}, {"-r", "228k", 'r'}, {"--samplerate=228000", nullptr, 'r'}, {"extra", nullptr, '+'},
};
const unsigned kN = sizeof kTok / sizeof kTok[0];
}
SCENARIO(s_options) {
  const unsigned n = static_cast<unsigned>(symx_param("n", 2));
  std::vector<std::string> args;
  bool bad = false, extra = false;
  Options e;
  unsigned dirs = 0;
  const unsigned len = pick("len", n + 1);
  for (unsigned i = 0; i < len; i++) {
    const Tok& t = kTok[pick("option", kN)];
    args.push_back(t.a);
    if (t.b) args.push_back(t.b);
    switch (t.what) {
      case 'b': e.input_type = InputType::ASCIIbits; break;
      case 'h': e.input_type = InputType::Hex; break;
      case 'T': e.input_type = InputType::TEF6686; break;
      case 'm': e.input_type = InputType::MPX_stdin; break;
      case 'f': e.input_type = InputType::MPX_sndfile; e.sndfilename = "a.wav"; break;
      case 'x': e.output_type = OutputType::Hex; break;
      case 'j': e.output_type = OutputType::JSON; break;
      case 'e': e.feed_thru = true; break;
      case 'E': e.bler = true; break;
      case 'p': e.show_partial = true; break;
      case 'R': e.show_raw = true; break;
      case 's': e.streams = true; break;
      case 't': e.timestamp = true; e.time_format = "%c"; break;
      case 'u': e.rbds = true; break;
      case 'l': dirs++; break;
      case 'n': e.use_fec = false; break;
      case 'c': e.num_channels = 2; break;
      case 'r': e.samplerate = 228000.f; e.is_rate_defined = true; break;
      case '+': extra = true; break;
      default: bad = true;
    }
  }
  const bool mpx = e.input_type == InputType::MPX_stdin || e.input_type == InputType::MPX_sndfile;
  const bool refused = bad || (e.feed_thru && e.input_type == InputType::MPX_sndfile) || (e.num_channels > 1 && !mpx) || (e.streams && !mpx && e.input_type != InputType::Hex);
  Res r;
  parse(r, args);
  if (refused) { check(r.thrown || (extra && r.o.init_error && r.o.early_exit), "unusable options are refused"); symx_reached("refused"); return; }
  check(!r.thrown, "usable options are accepted");
  if (r.thrown) return;
  check(r.o.init_error == extra && r.o.early_exit == extra, "stray arguments, and nothing else, are an error");
  if (extra) { symx_reached("stray"); return; }
  check(!r.o.print_usage && !r.o.print_version, "no help unless asked for");
  check(r.o.input_type == e.input_type, "the last input format counts");
  check(r.o.output_type == e.output_type, "the last output format counts");
  if (e.input_type == InputType::MPX_sndfile) check(r.o.sndfilename == "a.wav", "the given file is read");
  check(r.o.feed_thru == e.feed_thru, "feed-through exactly on request");
  check(r.o.bler == e.bler, "block error rate exactly on request");
  check(r.o.show_partial == e.show_partial, "partial texts exactly on request");
  check(r.o.show_raw == e.show_raw, "raw data exactly on request");
  check(r.o.streams == e.streams, "RDS2 streams exactly on request");
  check(r.o.timestamp == e.timestamp && (!e.timestamp || r.o.time_format == e.time_format), "time stamps exactly on request, in the given format");
  check(r.o.rbds == e.rbds, "RBDS exactly on request");
  check(r.o.use_fec == e.use_fec, "error correction unless disabled");
  check(r.o.num_channels == e.num_channels, "the number of channels is as given, 1 by default");
  check(r.o.loctable_dirs.size() == dirs, "every location table is loaded");
  for (const auto& d : r.o.loctable_dirs) check(d == "dir", "the given location table is loaded");
  if (e.is_rate_defined) check(r.o.samplerate == 228000.f, "the sample rate is as given");
  else if (e.input_type == InputType::MPX_stdin) check(r.o.samplerate == 171000.f, "the sample rate of raw input defaults to 171 kHz");
  symx_reached("accepted");
}
SCENARIO(s_channels) {
  const unsigned n = static_cast<unsigned>(symx_param("n", 3));
  std::string s;
  bool more = true;
  static const char* const pre[] = {"", "+", " ", "42949672", "1844674407370955161"};
  const unsigned p = pick("prefix", 5);
  const u64 base[] = {0, 0, 0, 42949672, 1844674407370955161ull};
  s = pre[p];
  bool big = false;
  u64 w = base[p];
  const unsigned len = 1 + pick("len", n);
  for (unsigned i = 0; i < len; i++) {
    u8 c = v8("c");
    symx_assume(c != 0);
    if (i == 0) symx_assume((c >= '0') & (c <= '9'));
    else symx_assume((c >= '0') & (c <= '9') | (c == 'k') | (c == '-') | (c == '.') | (c == ' '));
    if (p == 4) c = static_cast<u8>(symx_concretize(c));      // beyond 64 bits
    s += static_cast<char>(c);
    if (c < '0' || c > '9') more = false;
    if (more) { if (w > 100000000000000000ull) { big = true; } else w = w * 10 + (c - '0'); }
  }
  Res r;
  parse(r, pick("long", 2) ? std::vector<std::string>{"--channels", s} : std::vector<std::string>{"-c" + s});
  const bool ok = !big && w >= 1 && w <= 32;
  check(r.thrown != ok, "a number of channels from 1 to 32 is accepted, anything else refused");
  if (!r.thrown) check(r.o.num_channels == w, "the number of channels is as given");
  symx_reached("end");
}
SCENARIO(s_rate) {
  static const struct { const char* t; double v; } rates[] = {
    {"128000", 128000}, {"127999", 0}, {"127.9k", 0}, {"128k", 128000}, {"128K", 128000}, {"40M", 40e6}, {"40m", 40e6}, {"41M", 0}, {"40000000", 40e6}, {"40000100", 0}, {"171k", 171000}, {"0.228M", 228000}, {"2.5e5", 250000},
    {"192000", 192000}, {"-192000", 0}, {"0", 0}, {"", 0}, {"k", 0}, {"abc", 0}, {"nan", 0}, {"NAN", 0}, {"inf", 0}, {"-inf", 0}, {"1e39", 0}, {"1e-46", 0}, {"4294967296", 0}, {"4295138k", 0}, {"171", 0}, {"0x29bf8", 0x29bf8}};
  std::string s;
  double v;
  if (pick("how", 2)) { const auto& r = rates[pick("rate", sizeof rates / sizeof rates[0])]; s = r.t; v = r.v; }
  else {
    unsigned m = 0;
    for (int i = 0; i < 3; i++) { const unsigned d = pick("digit", 10); s += static_cast<char>('0' + d); m = m * 10 + d; }
    static const struct { const char* t; double f; } suf[] = {{"", 1}, {"k", 1e3}, {"K", 1e3}, {"M", 1e6}, {"m", 1e6}, {"000", 1e3}, {"e3", 1e3}, {"00k", 1e5}};
    const auto& f = suf[pick("suffix", 8)];
    s += f.t; v = m * f.f;
    if (v < 128e3 || v > 40e6) v = 0;
  }
  Res r;
  parse(r, pick("long", 2) ? std::vector<std::string>{"--samplerate=" + s} : std::vector<std::string>{"-r", s});
  check(r.thrown == (v == 0), "sample rates from 128 kHz to 40 MHz are accepted, anything else refused");
  if (!r.thrown) check(r.o.is_rate_defined && r.o.samplerate > v * 0.999999 && r.o.samplerate < v * 1.000001, "the sample rate is as given");
  symx_reached("end");
}
SCENARIO(s_main) {
  static const char* const hex = "6201 0408 0000 0000\n6201 0408 0000 0000\n6201 0408 0000 0000\n6201 0408 0000 0000\n";
  struct C { std::vector<std::string> a; int rc; };
  static const C cs[] = {{{"--help"}, 0}, {{"-h", "--help"}, 0}, {{"-v"}, 0}, {{"--version", "-h"}, 0}, {{"-h", "junk"}, 1}, {{"junk"}, 1}, {{"-h", "-i", "foo"}, 1}, {{"-h", "-o", "foo"}, 1}, {{"-h", "-c", "2"}, 1}, {{"-h", "-c", "0"}, 1}, {{"-h", "-r", "1"}, 1}, {{"-e", "-f", "x"}, 1}, {{"-b", "-s"}, 1}, {{"-i", "tef", "-s"}, 1}};
  const C& k = cs[pick("case", 14)];
  Cli c;
  runCli(c, k.a, hex);
  check((c.rc != 0) == (k.rc != 0), "the exit code tells whether the options were usable");
  check(c.out.find('{') == std::string::npos && c.out.find('\x01') == std::string::npos && c.out.find("6201") == std::string::npos, "nothing is decoded");
  if (k.rc && c.out.empty()) check(c.err.find("error") != std::string::npos, "the reason is given");
  if (!k.rc) check(c.out.find("redsea") != std::string::npos, "help or version is shown");
  symx_reached("end");
}
