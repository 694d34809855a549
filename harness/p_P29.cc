// P29: MPX input: channels and data streams are kept apart, and every sample up to the end counts.
// @bound reader: 1..32 channels, signals of 0 to 2 chunks plus any remainder from a list, one frame of arbitrary sample values anywhere; sound files with any sample rate and 1..40 channels; whole program: noise-free signals of up to 3 channels and 4 data streams with ideal signal processing
// @assume libsndfile and liquid-dsp are replaced by stand-ins: a sound file in memory, ideal filters and symbol clock
// @scenario s_reader quick=120
// @scenario s_file quick=60
// @scenario s_limits quick=60
// @scenario s_main quick=200 thorough=600 T.all=1
// @scenario s_rates quick=60
// @scenario s_rds2 quick=200 thorough=600 T.all=1
#define IDEAL_LIQUID
#include "mpx.h"
#include "bits.h"
#include "src/io/input.hh"
using namespace oracle;
namespace {
long g_clock = 0;
long nowFn() { return g_clock += 1000000000L; }
unsigned bitsOf(float f) { unsigned u; std::memcpy(&u, &f, 4); return u; }
float ofBits(unsigned u) { float f; std::memcpy(&f, &u, 4); return f; }
// reads everything and compares each channel with what it was sent
void readAll(redsea::MPXReader& r, unsigned C, const std::vector<float>& in) {
  std::vector<std::size_t> got(C, 0);
  unsigned ok = 1, okTime = 1;
  unsigned guard = 0;
  while (!r.eof() && guard++ < 100) {
    r.fillBuffer();
    const long t = g_clock;
    for (unsigned c = 0; c < C; c++) {
      const redsea::MPXBuffer& b = r.readChunk(c);
      okTime &= b.time_received.time_since_epoch().count() == t;
      check(b.used_size <= b.data.size(), "a chunk fits its buffer");
      for (std::size_t i = 0; i < b.used_size; i++) {
        const std::size_t k = (got[c] + i) * C + c;
        if (k >= in.size()) { check(0, "no samples beyond the end of the signal"); return; }
        ok &= bitsOf(b.data[i]) == bitsOf(in[k]);
      }
      got[c] += b.used_size;
    }
  }
  check(guard < 100, "reading ends");
  check(ok, "every channel gets its own samples in order");
  check(okTime, "every channel's chunk carries the time it was read");
  for (unsigned c = 0; c < C; c++) check(got[c] == in.size() / C, "every channel gets all its samples");
}
// a sound of n samples, each different; one frame arbitrary
std::vector<float> samples(std::size_t n, std::size_t frame, unsigned C) {
  std::vector<float> v(n);
  for (std::size_t i = 0; i < n; i++) v[i] = ofBits(0x3F000000u + static_cast<unsigned>(i));
  for (unsigned c = 0; c < C && c < 4; c++) if (frame * C + c < n) v[frame * C + c] = ofBits(static_cast<unsigned>(symx_var("sample", 32)));
  return v;
}
std::size_t someSize(unsigned C) {
  const std::size_t chunk = 8192 / C * C;
  const std::size_t sz[] = {0, 1, C, 2 * C, C + 1, chunk - C, chunk, chunk + C, chunk + C / 2, 2 * chunk, 2 * chunk + 3 * C + 1};
  return sz[pick("size", 11)];
}
}
SCENARIO(s_reader) {
  symx_set_clock(nowFn);
  static const unsigned cs[] = {1, 2, 3, 4, 5, 7, 16, 31, 32};
  Options o = baseOptions();
  o.input_type = redsea::InputType::MPX_stdin;
  o.samplerate = 171000.f;
  const unsigned C = cs[pick("channels", 9)];
  o.num_channels = C;
  o.feed_thru = pick("feed", 2) != 0;
  const std::size_t n = someSize(C);
  const std::size_t frames[] = {0, n / C / 2, n / C ? n / C - 1 : 0};
  sound().in = samples(n, frames[pick("frame", 3)], C);
  {
    redsea::MPXReader r;
    try { r.init(o); } catch (...) { check(0, "raw input is accepted"); return; }
    check(r.getNumChannels() == C, "as many channels as requested");
    readAll(r, C, sound().in);
  }
  if (o.feed_thru) {
    unsigned ok = sound().out.size() == n;
    if (ok) for (std::size_t i = 0; i < n; i++) ok &= bitsOf(sound().out[i]) == bitsOf(sound().in[i]);
    check(ok, "feed-through echoes the whole signal unchanged");
  } else check(sound().out.empty(), "nothing is echoed unless requested");
  check(sound().open_files == 0, "files are closed");
  check((sound().mode_format & 0xFFFF) == SF_FORMAT_PCM_16, "raw input is 16-bit PCM");
  symx_reached("end");
}
SCENARIO(s_file) {
  symx_set_clock(nowFn);
  Options o = baseOptions();
  o.input_type = redsea::InputType::MPX_sndfile;
  o.sndfilename = "a.wav";
  o.num_channels = 1 + pick("option", 2);              // ignored: the file knows
  const unsigned C = 1 + pick("channels", 6);
  sound().channels = static_cast<int>(C);
  sound().rate = 192000;
  const std::size_t n = someSize(C) / C * C;
  sound().in = samples(n, 0, C);
  redsea::MPXReader r;
  try { r.init(o); } catch (...) { check(0, "the file is accepted"); return; }
  check(r.getNumChannels() == C, "as many channels as the file has");
  check(r.getSamplerate() == 192000.f, "the file's sample rate");
  readAll(r, C, sound().in);
  symx_reached("end");
}
SCENARIO(s_limits) {
  Options o = baseOptions();
  o.input_type = redsea::InputType::MPX_sndfile;
  o.sndfilename = "a.wav";
  o.streams = pick("streams", 2) != 0;
  sound().opens = pick("opens", 2) != 0;
  const int rate = sound().opens ? static_cast<int>(symx_var("rate", 32)) : 192000;
  sound().rate = rate;
  bool thrown = false;
  {
    redsea::MPXReader r;
    try { r.init(o); } catch (...) { thrown = true; }
  }
  const bool ok = sound().opens & (rate >= (o.streams ? 171000 : 128000)) & (rate <= 40000000);
  check(thrown != ok, "sound files with a sample rate from 128 kHz (with RDS2 171 kHz) to 40 MHz are accepted, anything else refused");
  symx_reached("end");
}
namespace {
const float kFreq[4] = {57000.f, 66500.f, 71250.f, 76000.f};
struct Station_ { std::vector<int> bits; };
void addBits(std::vector<int>& r, const u16* b) { for (unsigned k = 0; k < 4; k++) { const u32 w = encode(b[k], k); for (int i = 25; i >= 0; i--) r.push_back(static_cast<int>(w >> i & 1)); } }
// adds one modulated subcarrier to every C-th sample
void modulate(std::vector<float>& v, const std::vector<int>& bits, unsigned stream, unsigned c, unsigned C, unsigned delay) {
  float tab[36];
  for (unsigned i = 0; i < 36; i++) tab[i] = static_cast<float>(std::cos(2.0 * 3.14159265358979 * static_cast<double>(kFreq[stream]) / 171000.0 * i));
  int e = 0;
  std::size_t at = delay * 72;
  for (int b : bits) {
    e ^= b;
    for (int half = 0; half < 2; half++)
      for (int i = 0; i < 72; i++, at++) { if (at * C + c >= v.size()) return; v[at * C + c] += (e == half ? 0.1f : -0.1f) * tab[at % 36]; }
  }
}
J parseOr(const std::string& l) { J j; check(parseLine(l, j), "every output line is one complete valid JSON object"); return j; }
}
// the whole program on C interleaved channels, each with a station of its own
SCENARIO(s_main) {
  symx_set_clock(nowFn);
  const bool all = symx_param("all", 0) != 0;
  const unsigned C = 1 + pick("channels", 3), delay = pick("delay", all ? 4 : 2), what = pick("what", all ? 4 : 2);
  static const u16 word[] = {0x0001, 0xFFFE, 0x8000, 0xA5C3};
  const std::size_t ng = 7, len = (ng * 104 * 2 + delay + 1) * 72 + 24;
  std::vector<float> v(len * C);
  for (unsigned c = 0; c < C; c++) {
    std::vector<int> bits;
    for (unsigned g = 0; g < ng; g++) { const u16 b[4] = {static_cast<u16>(0x6201 + c), blk2(6, 0, c & 1, 3 + c, c + 1), static_cast<u16>(0x1000 * c + g), g + 1 == ng ? word[what] : static_cast<u16>(7)}; addBits(bits, b); }
    modulate(v, bits, 0, c, C, delay);
  }
  const unsigned times = C == 1 ? 1 + pick("rate", 2) : 1;          // 342 kHz: every sample twice
  if (times == 2) for (float x : v) { sound().in.push_back(x); sound().in.push_back(x); }
  else sound().in = v;
  Cli k;
  std::vector<std::string> a = {"-i", "mpx", "-r", times == 2 ? "342k" : "171k"};
  if (C > 1) { a.push_back("-c"); a.push_back(std::string(1, static_cast<char>('0' + C))); }
  runCli(k, a, "");
  check(k.rc == 0, "success");
  std::vector<unsigned> n(C, 0), last(C, 0);
  std::vector<bool> end(C, false);
  for (const auto& l : splitLines(k.out)) {
    const J j = parseOr(l);
    const J* ch = jfind(j, "channel");
    check((ch != nullptr) == (C > 1), "lines tell their channel exactly when there are several");
    const unsigned c = ch && ch->is_number_integer() ? static_cast<unsigned>(ch->get<int64_t>()) : 0;
    check(c < C, "channel numbers are those of the signal");
    if (c >= C) return;
    J e;
    e["pi"] = hex0x(static_cast<u16>(0x6201 + c));
    e["group"] = "6A";
    e["tp"] = (c & 1) != 0;
    expectHas(j, e, "each channel shows its own station");
    const J* d = jfind(j, "in_house_data");
    check(d && d->is_array() && d->size() == 3, "the group's data");
    if (!d || d->size() != 3) return;
    const unsigned g = static_cast<unsigned>((*d)[1].get<int64_t>()) - 0x1000 * c;
    check((*d)[0].get<int64_t>() == static_cast<int64_t>(c + 1), "each channel shows its own data");
    check(g < ng && (n[c] == 0 || g == last[c] + 1), "every group of the channel once, in order");
    last[c] = g; n[c]++;
    if (g + 1 == ng) { end[c] = true; check((*d)[2].get<int64_t>() == word[what], "up to the last one"); }
  }
  for (unsigned c = 0; c < C; c++) { check(n[c] >= 3, "every channel is decoded"); check(end[c], "up to the end of the signal"); }
  symx_reached("end");
}
// RDS2: data streams on their subcarriers
SCENARIO(s_rds2) {
  symx_set_clock(nowFn);
  const bool all = symx_param("all", 0) != 0, on = pick("on", 2) != 0;
  const unsigned first = pick("first", all ? 4 : 2);
  const std::size_t ng = 7, len = (ng * 104 * 2 + 1) * 72 + 24;
  std::vector<float> v(len);
  for (unsigned s = 0; s < 4; s++) {
    if (s != 0 && (s + first) % 4 == 0) continue;        // one may be absent
    std::vector<int> bits;
    for (unsigned g = 0; g < ng; g++) { const u16 b[4] = {static_cast<u16>(s ? 0x4000 + s : 0x6201), static_cast<u16>(s ? 0x1110 * s : blk2(6, 0, 0, 3, 1)), static_cast<u16>(0x1000 * s + g), 7}; addBits(bits, b); }
    modulate(v, bits, s, 0, 1, 0);
  }
  sound().in = v;
  Cli k;
  std::vector<std::string> a = {"-i", "mpx", "-r", "171k", "-R"};
  if (on) a.push_back("-s");
  runCli(k, a, "");
  check(k.rc == 0, "success");
  unsigned n[4] = {0, 0, 0, 0};
  for (const auto& l : splitLines(k.out)) {
    const J j = parseOr(l);
    const J* st = jfind(j, "stream");
    const unsigned s = st && st->is_number_integer() ? static_cast<unsigned>(st->get<int64_t>()) : 0;
    check(s < 4 && (on || s == 0), "only requested data streams");
    if (s >= 4) return;
    const J* raw = jfind(j, "raw_data");
    check(raw && raw->is_string() && raw->get_ref<const std::string&>().size() >= 19, "raw data on request");
    if (!raw) return;
    const std::string& r = raw->get_ref<const std::string&>();
    check(r.compare(0, 9, hex<4>(s ? 0x4000u + s : 0x6201u) + " " + hex<4>(s ? 0x1110 * s : blk2(6, 0, 0, 3, 1))) == 0 && r[10] == static_cast<char>('0' + s), "each data stream carries its own groups");
    n[s]++;
  }
  for (unsigned s = 0; s < 4; s++) { const bool sent = s == 0 || (s + first) % 4 != 0; check(sent && (on || s == 0) ? n[s] >= 3 : n[s] == 0, "exactly the data streams sent are shown"); }
  symx_reached("end");
}
// any accepted rate: all of the signal is processed, within the buffers
SCENARIO(s_rates) {
  symx_set_clock(nowFn);
  static const char* const rate[] = {"128k", "129k", "171001", "170999", "192k", "250k", "1M", "40M"};
  sound().in.assign(8192 * 2 + 5, 0.5f);
  Cli k;
  runCli(k, {"-i", "mpx", "-r", rate[pick("rate", 8)]}, "");
  check(k.rc == 0 && k.out.empty(), "silence is accepted at any rate and decodes to nothing");
  check(sound().pos == sound().in.size(), "the whole signal is read");
  symx_reached("end");
}
