// P17: RDS2 type C groups: application channels, file transfer (RFT) and its base64 output.
// @bound any contents of one type C group on data streams 1 to 3 with any loss pattern (segment addresses of file data: each power of two, its neighbours, and 32767); files of 1..15 bytes with 4 (thorough 5) segments in any order with toggles, sizes announced anywhere; pairs of pipes; files of 500 bytes in order, any announced size up to 163840 (after an earlier one or not); a file of 2000 (thorough 60000) bytes complete
// @assume all type C groups follow on a station already known
// @scenario s_channel quick=60
// @scenario s_other quick=60
// @scenario s_assign quick=120
// @scenario s_assigned quick=150
// @scenario s_crc quick=60
// @scenario s_data quick=120
// @scenario s_loss quick=60
// @scenario s_file quick=120 thorough=400 Q.n=4 T.n=5
// @scenario s_order quick=120 thorough=400
// @scenario s_pipes quick=60
// @scenario s_base64 quick=100
// @scenario s_sizes quick=100
// @scenario s_max quick=100 thorough=900 steps=3000000000 Q.n=2000 T.n=60000
// @scenario s_long quick=100 Q.n=40 T.n=100
#include "oracle.h"
using namespace oracle;
namespace {
const u16 kPi = 0x6201;
J arr(std::initializer_list<int> v) { J a = J::array(); for (int x : v) a.push_back(x & 255); return a; }
G cgroup(unsigned fid, unsigned fn, unsigned low, u16 b2, u16 b3, u16 b4) { return G(static_cast<u16>(fid << 14 | fn << 8 | (low & 255)), b2, b3, b4); }
G fileInfo(unsigned pipe, u16 aid, unsigned size, unsigned crc = 0, unsigned ver = 0, unsigned id = 0) {
  return cgroup(2, 0, pipe, aid, static_cast<u16>(crc << 11 | ver << 8 | id << 2 | size >> 16), static_cast<u16>(size));
}
G fileData(unsigned pipe, unsigned toggle, unsigned seg, const u8* d) {
  return cgroup(0, 0x20 | pipe, toggle << 7 | seg >> 8, static_cast<u16>((seg & 255) << 8 | d[0]), static_cast<u16>(d[1] << 8 | d[2]), static_cast<u16>(d[3] << 8 | d[4]));
}
J dataJson(unsigned pipe, unsigned toggle, unsigned seg, const u8* d) {
  J e; e["group"] = "C";
  J& r = e["rft"]["data"];
  r["pipe"] = pipe; r["toggle"] = toggle; r["byte_address"] = seg * 5u; r["segment_data"] = arr({d[0], d[1], d[2], d[3], d[4]});
  return e;
}
const char kAlphabet[65] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
char b64(unsigned v) { return kAlphabet[v & 63]; }
std::string base64(const std::vector<u8>& d) {
  std::string s;
  for (std::size_t i = 0; i < d.size(); i += 3) {
    const unsigned x = d[i], y = i + 1 < d.size() ? d[i + 1] : 0, z = i + 2 < d.size() ? d[i + 2] : 0;
    s += b64(x >> 2); s += b64(x << 4 | y >> 4);
    s += i + 1 < d.size() ? b64(y << 2 | z >> 6) : '=';
    s += i + 2 < d.size() ? b64(z) : '=';
  }
  return s;
}
// what a pipe holds
struct Pipe {
  unsigned size = 0, toggle = 0; bool got[8] = {}; u8 data[40] = {};
  void setSize(unsigned n) { size = n; }
  // returns true when the file is complete with this segment
  bool segment(unsigned t, unsigned seg, const u8* d) {
    if (t != toggle) for (bool& g : got) g = false;
    toggle = t;
    got[seg] = true;
    for (int i = 0; i < 5; i++) data[seg * 5 + i] = d[i];
    if (!size) return false;
    for (unsigned i = 0; i * 5 < size; i++) if (!got[i]) return false;
    for (bool& g : got) g = false;
    return true;
  }
  std::string text() const { return base64(std::vector<u8>(data, data + size)); }
};
J feed1(Dec& d, const G& g, unsigned stream = 1) { return d.one(g, "one line per type C group", stream); }
}
// application channels 0..63
SCENARIO(s_channel) {
  Options o = baseOptions();
  o.streams = pick("streams", 2); o.show_raw = pick("raw", 2);
  const unsigned stream = 1 + pick("stream", 3);
  Dec d(o, kPi);
  const G g = cgroup(1, vb("fn", 6), v8("low"), v16("b2"), v16("b3"), v16("b4"));
  J e;
  e["group"] = "C";
  if (o.streams) e["stream"] = stream;
  if (o.show_raw) e["raw_data"] = hex<4>(g.b[0]) + " " + hex<4>(g.b[1]) + " " + hex<4>(g.b[2]) + " " + hex<4>(g.b[3]);
  e["open_data_app"]["channel"] = static_cast<unsigned>(g.b[0] >> 8 & 63);
  e["open_data_app"]["app_data"] = arr({g.b[0], g.b[1] >> 8u, g.b[1], g.b[2] >> 8u, g.b[2], g.b[3] >> 8u, g.b[3]});
  expectJson(feed1(d, g, stream), e, "a type C application group shows its channel and seven bytes");
  symx_reached("end");
}
// function codes without a defined use
SCENARIO(s_other) {
  Dec d(baseOptions(), kPi);
  const unsigned k = pick("kind", 4), fid = k < 2 ? 0 : k, fn = vb("fn", 6);
  if (k == 0) { symx_assume(fn < 0x20); symx_assume(fn != 0); }
  else if (k == 1) symx_assume(fn >= 0x30);
  else if (k == 2) symx_assume(fn != 0);
  const G g = cgroup(fid, fn, v8("low"), v16("b2"), v16("b3"), v16("b4"));
  J e;
  e["group"] = "C";
  e["open_data_app"]["data"] = arr({g.b[1] >> 8u, g.b[1], g.b[2] >> 8u, g.b[2], g.b[3] >> 8u, g.b[3]});
  expectJson(feed1(d, g), e, "groups of other functions show their six bytes only");
  symx_reached("end");
}
// assignment of applications to channels
SCENARIO(s_assign) {
  Dec d(baseOptions(), kPi);
  const unsigned rft = pick("rft", 2), method = vb("method", 2), ch = rft ? vb("pipe", 4) : 16 + vb("ch", 5) % 48;
  const unsigned m = static_cast<unsigned>(symx_concretize(method)), c = static_cast<unsigned>(symx_concretize(ch));
  static const u16 aids[] = {0xFF7F, 0xFF80, 0x1234, 0x0093};
  const u16 aid = aids[pick("aid", 4)];
  const G g = cgroup(2, 0, m << 6 | c, aid, v16("b3"), v16("b4"));
  if (m == 0 && c < 16) symx_assume(g.b[2] >> 12 != 1);
  const J got = feed1(d, g);
  J e;
  e["group"] = "C";
  if (m == 0) {
    J& o = e["open_data_app"];
    o["channel"] = c; o["oda_aid"] = static_cast<unsigned>(aid); o["app_name"] = appName(aid);
    const unsigned b3 = g.b[2], b4 = g.b[3];
    if (c >= 16) o["app_data"] = arr({g.b[2] >> 8, g.b[2], g.b[3] >> 8, g.b[3]});
    else {
      const unsigned var = static_cast<unsigned>(symx_concretize(b3 >> 12));
      if (var == 0) {
        J& f = e["rft"]["file_info"];
        f["version"] = b3 >> 8 & 7; f["id"] = b3 >> 2 & 63; f["size"] = (b3 & 3) << 16 | b4; f["has_crc"] = (b3 >> 11 & 1) != 0;
      } else {
        o[var < 8 ? "file_oda_data" : "non_file_oda_data"] = hex<7>((b3 & 0xFFFu) << 16 | b4);
      }
    }
  }
  expectJson(got, e, "an assignment group shows channel, application and what it says about the file");
  symx_reached("end");
}
// an assignment concerns its own channel only
SCENARIO(s_assigned) {
  Dec d(baseOptions(), kPi);
  const unsigned pipe = pick("pipe", 3) * 7, ch = pick("ch", 64), m = pick("method", 2);
  const u8 b[5] = {1, 2, 3, 4, 5};
  const unsigned before = pick("before", 2);
  if (before) feed1(d, cgroup(2, 0, pipe, 0xFF80, 2, 0));
  feed1(d, cgroup(2, 0, m << 6 | ch, 0xFF7F, 2, 0));
  J e = dataJson(pipe, 0, 0, b);
  if (m == 0 && ch == pipe) e["open_data_app"]["app_name"] = appName(0xFF7F);
  else if (before) e["open_data_app"]["app_name"] = appName(0xFF80);
  expectJson(feed1(d, fileData(pipe, 0, 0, b)), e, "file data is shown under the application its pipe was assigned to");
  symx_reached("end");
}
// checksums of files and parts of files
SCENARIO(s_crc) {
  Dec d(baseOptions(), kPi);
  const unsigned pipe = pick("pipe", 16), mode = pick("mode", 8), p = pick("bit", 10), addr = ((1u << p) - 1 + pick("near", 2)) & 511;
  const G g = cgroup(2, 0, pipe, 0xFF7F, static_cast<u16>(1 << 12 | mode << 9 | addr), v16("crc"));
  J e;
  e["group"] = "C";
  J& o = e["open_data_app"];
  o["channel"] = pipe; o["oda_aid"] = 0xFF7F; o["app_name"] = appName(0xFF7F);
  if (mode == 0) e["rft"]["crc_info"]["file_crc16"] = static_cast<unsigned>(g.b[3]);
  else if (mode != 6) { J& f = e["rft"]["crc_info"]; f["chunk_crc16"] = static_cast<unsigned>(g.b[3]); f["chunk_address"] = addr; f["crc_mode"] = mode; }
  expectJson(feed1(d, g), e, "a checksum group shows the checksum and what it covers");
  symx_reached("end");
}
// one group of file data
SCENARIO(s_data) {
  Dec d(baseOptions(), kPi);
  const u8 zero[5] = {};
  const unsigned pipe = pick("pipe", 16);
  feed1(d, fileData(pipe, 0, 1, zero));
  const unsigned toggle = pick("toggle", 2);
  const unsigned p = pick("bit", 16), seg = (1u << p) - 1 + (p < 15 ? pick("near", 2) : 0);
  const bool assigned = pick("assigned", 2);
  if (assigned) feed1(d, fileInfo(pipe, 0xFF7F, 0));
  u8 b[5];
  for (int i = 0; i < 5; i++) b[i] = v8("byte");
  J e = dataJson(pipe, toggle, seg, b);
  if (assigned) e["open_data_app"]["app_name"] = appName(0xFF7F);
  expectJson(feed1(d, fileData(pipe, toggle, seg, b)), e, "file data shows pipe, toggle, address and bytes");
  symx_reached("end");
}
// nothing is taken from incomplete groups
SCENARIO(s_loss) {
  Dec d(baseOptions(), kPi);
  const unsigned mask = pick("mask", 15), kind = pick("kind", 3);
  const u8 b[5] = {1, 2, 3, 4, 5};
  feed1(d, fileInfo(3, 0xFF7F, 10));
  G g = kind == 0 ? fileData(3, 0, 1, b) : kind == 1 ? fileInfo(3, 0xFF7F, 5) : fileData(3, 1, 1, b);
  g.b[0] = static_cast<u16>(g.b[0] ^ 0);
  g.mask = mask;
  J e; e["group"] = "C";
  expectJson(feed1(d, g), e, "an incomplete type C group shows nothing");
  G h = fileData(3, 0, 0, b);
  e = dataJson(3, 0, 0, b);
  e["open_data_app"]["app_name"] = appName(0xFF7F);
  expectJson(feed1(d, h), e, "an incomplete type C group changes nothing");
  J f = dataJson(3, 0, 1, b);
  f["open_data_app"]["app_name"] = appName(0xFF7F);
  f["rft"]["data"]["file_contents"] = base64({1, 2, 3, 4, 5, 1, 2, 3, 4, 5});
  expectJson(feed1(d, fileData(3, 0, 1, b)), f, "the file is shown when complete");
  symx_reached("end");
}
// histories on one pipe
SCENARIO(s_file) {
  Dec d(baseOptions(), kPi);
  const unsigned n = static_cast<unsigned>(symx_param("n", 4));
  const unsigned sizes[] = {5, 6, 11};
  const unsigned size = sizes[pick("size", 3)], when = pick("when", 3);
  Pipe p;
  for (unsigned i = 0; i < n; i++) {
    if (i == when) { feed1(d, fileInfo(5, 0xFF80, size)); p.setSize(size); }
    const unsigned seg = pick("seg", 3), toggle = pick("toggle", 2);
    u8 b[5];
    for (unsigned k = 0; k < 5; k++) b[k] = k == (i & 3) ? v8("byte") : static_cast<u8>(16 * i + k);
    const bool done = p.segment(toggle, seg, b);
    const J got = feed1(d, fileData(5, toggle, seg, b));
    J e = dataJson(5, toggle, seg, b);
    if (when <= i) e["open_data_app"]["app_name"] = appName(0xFF80);
    if (done) e["rft"]["data"]["file_contents"] = p.text();
    expectJson(got, e, "the file is shown exactly when its last missing segment arrives");
  }
  symx_reached("end");
}
// any order of arrival with repetitions
SCENARIO(s_order) {
  Dec d(baseOptions(), kPi);
  const unsigned size = 16 + pick("extra", 5);      // four segments
  feed1(d, fileInfo(0, 0xFF7F, size));
  Pipe p;
  p.setSize(size);
  for (unsigned i = 0; i < 5; i++) {
    const unsigned seg = pick("seg", 4);
    u8 b[5];
    for (unsigned k = 0; k < 5; k++) b[k] = static_cast<u8>(seg * 37 + k * 51 + i);
    const bool done = p.segment(0, seg, b);
    J e = dataJson(0, 0, seg, b);
    e["open_data_app"]["app_name"] = appName(0xFF7F);
    if (done) e["rft"]["data"]["file_contents"] = p.text();
    expectJson(feed1(d, fileData(0, 0, seg, b)), e, "segments may come in any order");
  }
  symx_reached("end");
}
// pipes and streams do not disturb each other
SCENARIO(s_pipes) {
  Dec d(baseOptions(), kPi);
  const u8 zero[5] = {};
  for (unsigned i = 0; i < 16; i++) feed1(d, fileData(i, 0, 7, zero));
  const unsigned a = pick("a", 16), delta = 1 + pick("delta", 15), b = (a + delta) & 15, sa = 1 + pick("sa", 3), sb = 1 + (sa + 1) % 3;
  const u8 x[5] = {10, 20, 30, 40, 50}, y[5] = {60, 70, 80, 90, 100};
  feed1(d, fileInfo(a, 0xFF7F, 10), sa);
  feed1(d, fileInfo(b, 0xFF80, 5), sb);
  J e = dataJson(a, 0, 0, x);
  e["open_data_app"]["app_name"] = appName(0xFF7F);
  expectJson(feed1(d, fileData(a, 0, 0, x), sa), e, "first half on pipe a");
  J f = dataJson(b, 0, 0, y);
  f["open_data_app"]["app_name"] = appName(0xFF80);
  f["rft"]["data"]["file_contents"] = base64({60, 70, 80, 90, 100});
  expectJson(feed1(d, fileData(b, 0, 0, y), sb), f, "the other pipe's file");
  J h = dataJson(a, 0, 1, y);
  h["open_data_app"]["app_name"] = appName(0xFF7F);
  h["rft"]["data"]["file_contents"] = base64({10, 20, 30, 40, 50, 60, 70, 80, 90, 100});
  expectJson(feed1(d, fileData(a, 0, 1, y), sb), h, "second half completes the file of pipe a");
  symx_reached("end");
}
// arbitrary contents
SCENARIO(s_base64) {
  Dec d(baseOptions(), kPi);
  const unsigned size = 1 + pick("size", 10);
  feed1(d, fileInfo(1, 0xFF7F, size));
  u8 b[10];
  for (int i = 0; i < 10; i++) b[i] = v8("byte");
  J got = feed1(d, fileData(1, 0, 0, b)), e = dataJson(1, 0, 0, b);
  if (size > 5) { expectLacks(got["rft"]["data"], {"file_contents"}, "not before it is complete"); got = feed1(d, fileData(1, 0, 1, b + 5)); e = dataJson(1, 0, 1, b + 5); }
  e["open_data_app"]["app_name"] = appName(0xFF7F);
  e["rft"]["data"]["file_contents"] = base64(std::vector<u8>(b, b + size));
  expectJson(got, e, "the contents in base64");
  symx_reached("end");
}
// sizes: zero and large ones are never complete after one segment
SCENARIO(s_sizes) {
  Dec d(baseOptions(), kPi);
  const unsigned size = vb("size", 18);
  symx_assume((size > 5) | (size == 0));
  if (pick("replaces", 2)) { symx_assume((size > 5) & (size <= 163840)); feed1(d, fileInfo(2, 0xFF7F, 1 + pick("old", 5))); }
  const J i = feed1(d, fileInfo(2, 0xFF7F, size));
  J s; s["rft"]["file_info"]["size"] = size;
  check(jeq(i["rft"]["file_info"]["size"], s["rft"]["file_info"]["size"]) != 0, "the announced size");
  const u8 b[5] = {1, 2, 3, 4, 5};
  expectLacks(feed1(d, fileData(2, 0, 0, b))["rft"]["data"], {"file_contents"}, "an incomplete file is not shown");
  symx_reached("end");
}
// a file that uses the addresses to their end: shown with its last segment, and whole
SCENARIO(s_max) {
  Dec d(baseOptions(), kPi);
  const unsigned size = static_cast<unsigned>(symx_param("n", 163840)) - pick("less", 2) * 4, n = (size + 4) / 5;
  feed1(d, fileInfo(2, 0xFF7F, size));
  std::vector<u8> all(5 * n);
  for (unsigned i = 0; i < 5 * n; i++) all[i] = static_cast<u8>(i * 7 + (i >> 8));
  all[2] = v8("c");
  for (unsigned i = 0; i < n; i++) {
    const J j = feed1(d, fileData(2, 0, i, &all[5 * i]))["rft"]["data"];
    if (i + 1 < n) check(j.find("file_contents") == j.end(), "an incomplete file is not shown");
    else { all.resize(size); check(j.find("file_contents") != j.end() && j["file_contents"].is_string(), "the complete file is shown"); const J w = base64(all); check(jeq(j["file_contents"], w) != 0, "contents"); }
  }
  symx_reached("end");
}
// a longer file, one segment missing and sent later, then a new version of it
SCENARIO(s_long) {
  Dec d(baseOptions(), kPi);
  const unsigned n = static_cast<unsigned>(symx_param("n", 40)), miss = pick("miss", n), cut = pick("cut", 5);
  const unsigned size = n * 5 - cut;
  feed1(d, fileInfo(9, 0xFF7F, size));
  std::vector<u8> file;
  u8 b[5], missed[5];
  unsigned early = 0;
  for (unsigned i = 0; i < n; i++) {
    for (unsigned k = 0; k < 5; k++) { b[k] = static_cast<u8>(i * 29 + k * 83 + 7); file.push_back(b[k]); if (i == miss) missed[k] = b[k]; }
    if (i != miss) { const J j = feed1(d, fileData(9, 1, i, b)); early += j["rft"]["data"].contains("file_contents"); }
  }
  check(early == 0, "not shown while a segment is missing");
  file.resize(size);
  J e = dataJson(9, 1, miss, missed);
  e["open_data_app"]["app_name"] = appName(0xFF7F);
  e["rft"]["data"]["file_contents"] = base64(file);
  expectJson(feed1(d, fileData(9, 1, miss, missed)), e, "shown with the missing segment");
  symx_reached("end");
}
