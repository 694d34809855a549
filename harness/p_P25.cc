// P25: TMC service information, tuning information and encrypted locations
// @bound every system message, every user group of the tuning and encryption kinds, in the histories listed; six service keys; provider names in sequences of 4 (thorough 5) parts with one arbitrary character each
// @assume provider names contain printable characters; frequencies of other networks are given as FM codes, LF/MF codes after 250, or fillers
// @scenario s_system quick=60
// @scenario s_country quick=60
// @scenario s_before quick=60
// @scenario s_admin quick=60
// @scenario s_encrypted quick=120
// @scenario s_nokey quick=60
// @scenario s_provider quick=120 Q.n=4 T.n=5
// @scenario s_afs quick=120
// @scenario s_pis quick=60
// @scenario s_other quick=60
// @scenario s_unused quick=60
// @scenario s_switch quick=100
#include "tmc.h"
#include "txt.h"
using namespace tmc_ref;
namespace {
std::string country(u16 pi, unsigned ecc) {
  const unsigned cc = static_cast<unsigned>(symx_concretize(pi >> 12));
  for (unsigned i = 0; i < 20; i++) if (kEcc[i] == ecc && cc > 0) return kCountry[i][cc - 1];
  return "--";
}
G sys(u16 msg, unsigned aid = 0xCD46) { return G(kPi, blk2(3, 0, 0, 1, 16), msg, static_cast<u16>(aid)); }
J sysBasics(const G& g) { J e = basics(kPi, g, false, 3, 0); e["open_data_app"]["oda_group"] = "8A"; e["open_data_app"]["app_name"] = appName(g.b[3]); return e; }
J feed(Dec& d, const G& g) { return d.one(g, "one line per group"); }
void scope(J& e, unsigned m) {
  static const char* const n[4] = {"inter-road", "national", "regional", "urban"};
  for (unsigned i = 0; i < 4; i++) if (m >> (3 - i) & 1) e["scope"].push_back(n[i]);
}
struct Key { unsigned id, xorval, start, rot; };
const Key kKeys[] = {{0, 0, 0, 0}, {1, 0x5A, 3, 4}, {7, 255, 8, 15}, {31, 0x81, 0, 1}, {12, 1, 7, 8}, {20, 0xC3, 5, 0}};
void keys() {
  static const char file[] = "Encid,XorVal,XorStart,NRot\n0,0,0,0\n1,90,3,4\n7,255,8,15\nbad,line\n31,129,0,1\n12,1,7,8\n20,195,5,0\n";
  symx_add_file("service_key_table.csv", file, sizeof file - 1);
}
G admin(unsigned sid, unsigned encid, unsigned ltn, unsigned test = 0) { return user(0, static_cast<u16>(test << 14 | sid << 5 | encid), static_cast<u16>(ltn << 10)); }
}
SCENARIO(s_system) {
  Dec d(baseOptions(), kPi);
  const unsigned variant = pick("variant", 4), aid = 0xCD46 + pick("aid", 2);
  const u16 low = static_cast<u16>(vb("msg", 14));
  const G g = sys(static_cast<u16>(variant << 14 | low), aid);
  const J got = feed(d, g);
  J e = sysBasics(g);
  if (variant == 0) {
    const unsigned enc = static_cast<unsigned>(symx_concretize((low >> 6 & 63) == 0));
    J& s = e["tmc"]["system_info"];
    s["is_encrypted"] = enc != 0;
    if (!enc) s["location_table"] = static_cast<unsigned>(low >> 6 & 63);
    s["is_on_alt_freqs"] = (low >> 5 & 1) != 0;
    scope(s, static_cast<unsigned>(symx_concretize(low & 15)));
  } else if (variant == 1) {
    J& s = e["tmc"]["system_info"];
    static const int gaps[4] = {3, 5, 8, 11};
    s["service_id"] = static_cast<unsigned>(low >> 6 & 63);
    s["gap"] = gaps[low >> 12 & 3];
    if (symx_concretize((low & 15) != 0)) s["ltcc"] = static_cast<unsigned>(low & 15);
  } else if (variant == 2) {
    if (symx_concretize((low & 255) != 0)) e["tmc"]["system_info"]["ltecc"] = static_cast<unsigned>(low & 255);
  }
  expectJson(got, e, "what a TMC system group shows");
  symx_reached("end");
}
// the country of the location table needs both codes
SCENARIO(s_country) {
  Dec d(baseOptions(), kPi);
  const unsigned cc = pick("cc", 16), ecc = v8("ecc");
  symx_assume(ecc != 0);
  feed(d, sys(static_cast<u16>(1 << 14 | cc)));
  const G g = sys(static_cast<u16>(2 << 14 | ecc));
  const J got = feed(d, g);
  J e = sysBasics(g);
  e["tmc"]["system_info"]["ltecc"] = ecc;
  if (cc) e["tmc"]["system_info"]["country"] = country(static_cast<u16>(cc << 12), static_cast<unsigned>(symx_concretize(ecc)));
  expectJson(got, e, "the country of the location table");
  symx_reached("end");
}
// nothing is decoded before the service was announced
SCENARIO(s_before) {
  Dec d(baseOptions(), kPi);
  const unsigned k = pick("kind", 5);
  static const unsigned xs[5] = {0, 0x14, 0x19, 8, 1};
  const G g = user(xs[k], v16("y"), v16("z"));
  if (pick("variant1", 2)) feed(d, sys(0x4000));
  expectLacks(feed(d, g), {"tmc"}, "user groups before the system group");
  symx_reached("end");
}
SCENARIO(s_admin) {
  Tmc t(pick("ltn", 2) * 5);
  const unsigned sid = vb("sid", 6), encid = vb("encid", 5), ltn = vb("ltn2", 6), rest = vb("rest", 5), rest2 = vb("rest2", 10);
  const G g = user(0, static_cast<u16>(rest << 11 | sid << 5 | encid), static_cast<u16>(ltn << 10 | rest2));
  J e = basics(kPi, g, false, 8, 0);
  J& s = e["tmc"]["system_info"];
  s["service_id"] = sid; s["encryption_id"] = encid; s["location_table"] = ltn;
  expectJson(t.feed(g), e, "the encryption administration group");
  symx_reached("end");
}
// locations are decrypted with the key of the announced encryption identifier
SCENARIO(s_encrypted) {
  keys();
  Tmc t(0);
  Msg m;
  m.code = 701; m.loc = v16("loc"); m.encrypted = true;
  const unsigned k = pick("key", 6), multiGroup = pick("multi", 2), again = pick("again", 3);
  if (again == 1) t.feed(admin(3, kKeys[(k + 1) % 6].id, 9));
  t.feed(admin(3, kKeys[k].id, 9));
  if (again == 2) t.feed(admin(4, kKeys[k].id, 17));
  const unsigned x = (m.loc ^ (kKeys[k].xorval << kKeys[k].start)) & 0xFFFFu;
  m.plain = static_cast<u16>(x << kKeys[k].rot | x >> (16 - kKeys[k].rot));
  if (multiGroup) {
    m.fields.push_back({6, 4});
    const auto v = multi(m, 3);
    t.expectNothing(v[0], "first group");
    t.expectMessage(v[1], m, "an encrypted multi-group message");
  } else t.expectMessage(single(0, 0, 0, 0, m.code, m.loc), m, "an encrypted message");
  symx_reached("end");
}
// the service becomes encrypted, plain again or changes its key, possibly in the middle of a message
SCENARIO(s_switch) {
  keys();
  const unsigned from = pick("from", 3), to = pick("to", 3), begun = pick("begun", 3), ci = 1 + pick("ci", 2), multiGroup = pick("multi", 3);
  Tmc t(from == 0 ? 9 : 0);
  if (from) t.feed(admin(3, kKeys[from].id, 9));
  if (begun) {
    const auto old = multi(Msg{501, 1, 3, 44, {{6, 9}, {1, 6}, {2, 1}, {6, 8}}}, 1);
    for (unsigned i = 0; i < begun; i++) t.expectNothing(old[i], "unfinished message");
  }
  t.feed(sys(to == 0 ? 9 << 6 : 0));
  if (to) t.feed(admin(3, kKeys[to].id, 9));
  Msg m;
  m.code = 701; m.loc = v16("loc"); m.encrypted = to != 0;
  const unsigned x = (m.loc ^ (kKeys[to].xorval << kKeys[to].start)) & 0xFFFFu;
  m.plain = static_cast<u16>(x << kKeys[to].rot | x >> (16 - kKeys[to].rot));
  if (multiGroup) {
    m.fields.push_back({6, 4});
    const auto v = multi(m, ci, 1 + multiGroup);
    for (std::size_t i = 0; i + 1 < v.size(); i++) t.expectNothing(v[i], "not the last group");
    t.expectMessage(v.back(), m, "a message after the change");
  } else t.expectMessage(single(0, 0, 0, 0, m.code, m.loc), m, "a message after the change");
  symx_reached("end");
}
// without key there is no location, and before the administration group no message
SCENARIO(s_nokey) {
  const bool file = pick("file", 2);
  if (file) keys();
  Tmc t(0);
  Msg m;
  m.code = 701; m.loc = v16("loc"); m.encrypted = true; m.known = false; m.extent = 2;
  const G s = single(0, 0, 0, 2, m.code, m.loc);
  const unsigned stage = pick("stage", 3);
  if (stage == 0) {
    t.expectNothing(s, "no message before the encryption identifier is known");
    t.feed(admin(3, 30, 9));
  } else if (stage == 1) {
    t.feed(admin(3, file ? 30 : 1, 9));
  } else {
    t.feed(admin(3, 30, 9));
    t.feed(sys(9 << 6));                      // no longer encrypted
    m.encrypted = false;
  }
  t.expectMessage(s, m, "a message whose location cannot be decrypted");
  symx_reached("end");
}
SCENARIO(s_provider) {
  Tmc t;
  const unsigned n = static_cast<unsigned>(symx_param("n", 4));
  u8 name[8] = {};
  bool first = false;
  for (unsigned i = 0; i < n; i++) {
    const unsigned part = pick("part", 2);
    u8 c[4];
    for (unsigned k = 0; k < 4; k++) c[k] = static_cast<u8>('a' + 4 * i + k);
    c[i & 3] = v8("char");
    symx_assume((c[i & 3] >= 0x20));
    for (unsigned k = 0; k < 4; k++) name[4 * part + k] = c[k];
    const bool done = part == 1 && first;
    if (part == 0) first = true;
    const G g = user(0x14 + part, static_cast<u16>(c[0] << 8 | c[1]), static_cast<u16>(c[2] << 8 | c[3]));
    const J got = t.feed(g);
    J e = basics(kPi, g, false, 8, 0);
    if (done) { std::string s; for (u8 x : name) s += g0(x); e["tmc"]["service_provider"] = s; }
    if (part == 1 && i > 0 && !done) symx_end();
    expectJson(got, e, "the provider's name, when both parts were received in order");
  }
  symx_reached("end");
}
SCENARIO(s_afs) {
  Tmc t;
  const u16 pi = v16("pi");
  const unsigned kind = pick("kind", 5), a = v8("a"), b = v8("b");
  J fr = J::array();
  unsigned y;
  if (kind == 0 || kind == 1) { symx_assume(a >= 1); symx_assume(a <= 204); }
  if (kind == 0 || kind == 2) { symx_assume(b >= 1); symx_assume(b <= 204); }
  if (kind == 0) { y = a << 8 | b; fr.push_back(87500 + 100 * a); fr.push_back(87500 + 100 * b); }
  else if (kind == 1) { y = a << 8 | 205; fr.push_back(87500 + 100 * a); }
  else if (kind == 2) { y = 205 << 8 | b; fr.push_back(87500 + 100 * b); }
  else if (kind == 3) { symx_assume(b >= 1); symx_assume(b <= 15); y = 250 << 8 | b; fr.push_back(144 + 9 * b); }
  else { symx_assume(b >= 16); symx_assume(b <= 135); y = 250 << 8 | b; fr.push_back(531 + 9 * (b - 16)); }
  const G g = user(0x16, static_cast<u16>(y), pi);
  for (unsigned i = 0; i < 2; i++) {
    const J got = t.feed(g);
    J e = basics(kPi, g, false, 8, 0);
    e["tmc"]["other_network"]["pi"] = hex0x(pi);
    e["tmc"]["other_network"]["frequencies_khz"] = fr;
    expectJson(got, e, "frequencies of another network carrying the service");
  }
  symx_reached("end");
}
SCENARIO(s_pis) {
  Tmc t;
  const u16 y = v16("y"), z = v16("z");
  const G g = user(0x18, y, z);
  const J got = t.feed(g);
  J e = basics(kPi, g, false, 8, 0);
  if (symx_concretize((y == 0) | (z == 0) | (y == z))) {
    symx_assume((z == 0) | (y == z));
    e["tmc"]["other_network"]["pi"] = hex0x(y);
  } else { e["tmc"]["other_network"]["pi_codes"].push_back(hex0x(y)); e["tmc"]["other_network"]["pi_codes"].push_back(hex0x(z)); }
  expectJson(got, e, "other networks carrying the service");
  symx_reached("end");
}
SCENARIO(s_other) {
  Tmc t;
  const u16 y = v16("y"), z = v16("z");
  const G g = user(0x19, y, z);
  const J got = t.feed(g);
  J e = basics(kPi, g, false, 8, 0);
  J& o = e["tmc"]["other_network"];
  o["pi"] = hex0x(z); o["service_id"] = static_cast<unsigned>(y & 63); o["location_table"] = static_cast<unsigned>(y >> 10);
  scope(o, static_cast<unsigned>(symx_concretize(y >> 6 & 15)));
  expectJson(got, e, "another network with a different service");
  symx_reached("end");
}
SCENARIO(s_unused) {
  Tmc t;
  const unsigned x = 0x10 | vb("variant", 4);
  symx_assume((x != 0x14) & (x != 0x15) & (x != 0x16) & (x != 0x18) & (x != 0x19));
  const G g = user(static_cast<unsigned>(symx_concretize(x)), v16("y"), v16("z"));
  expectJson(t.feed(g), basics(kPi, g, false, 8, 0), "unused variants show nothing");
  symx_reached("end");
}
