// P10: clock-time and date (group 4A).
// @bound every Modified Julian Date from 1900-03-01 to 2100-02-28 (the range of the standard's formula) at 8 times of day and offset; every hour, minute and offset value at 12 dates including month, year, century and leap-day boundaries; lost blocks; host time zones with and without summer time
// @scenario s_date quick=200
// @scenario s_time quick=200
// @scenario s_zone quick=120
// @scenario s_loss quick=30
#include "oracle.h"
using namespace oracle;
namespace {
const u16 kPi = 0x6201;
G ct(u32 mjd, u32 h, u32 m, u32 off6) { return G(kPi, static_cast<u16>(4 << 12 | 1 << 5 | (mjd >> 15 & 3)), static_cast<u16>((mjd & 0x7FFF) << 1 | (h >> 4 & 1)), static_cast<u16>((h & 15) << 12 | (m & 63) << 6 | (off6 & 63))); }
// proleptic Gregorian calendar from a day count (independent of the code's formula); days since 1900-03-01
struct Ymd { u32 y, m, d; };
Ymd civil(u32 days) {
  // within 1900-03-01 .. 2100-02-28 the calendar is strictly periodic in 1461 days
  const u32 c = days / 1461, r = days % 1461;
  u32 yy = r / 365; yy -= yy >> 2;                // 29 February belongs to the 4th year of a cycle
  const u32 doy = r - yy * 365;                   // 0 = 1 March
  const u32 mp = (5 * doy + 2) / 153;
  Ymd x; x.d = doy - (153 * mp + 2) / 5 + 1; x.m = mp < 10 ? mp + 3 : mp - 9; x.y = 1900 + 4 * c + yy + (mp >= 10);
  return x;
}
std::string d4(u32 v) { return d2(v / 100) + d2(v % 100); }
// utc + offset as local time string
std::string expected(u32 mjd, u32 h, u32 m, u32 off6) {
  const int half = static_cast<int>(symx_concretize(off6 & 31)), sign = symx_concretize(off6 >> 5 & 1) ? -1 : 1;
  int t = static_cast<int>(h * 60 + m) + sign * half * 30 + 1440;     // 0..3 days
  const u32 dayc = static_cast<u32>(symx_concretize(static_cast<u32>(t) / 1440));
  const u32 tod = static_cast<u32>(t) - dayc * 1440;
  const Ymd x = civil(mjd - 15079 + dayc - 1);
  std::string s = d4(x.y) + "-" + d2(x.m) + "-" + d2(x.d) + "T" + d2(tod / 60) + ":" + d2(tod % 60) + ":00";
  if (half == 0) return s + "Z";
  return s + (sign > 0 ? "+" : "-") + d2(static_cast<u32>(half / 2)) + ":" + (half % 2 ? "30" : "00");
}
void run(const G& g, bool valid, const std::string& t) {
  Options o = baseOptions();
  Dec d(o, kPi);
  auto v = d.feed(g);
  check(v.size() == 1, "one line per group");
  if (v.size() != 1) return;
  J e = basics(kPi, g, false, 4, 0);
  if (valid) e["clock_time"] = t;
  expectJson(v[0], e, "the clock-time is the transmitted instant in the transmitted local offset, or absent when invalid");
}
}
SCENARIO(s_date) {
  const u32 mjd = vb("mjd", 17);
  static const u32 hh[8] = {0, 12, 23, 23, 0, 0, 11, 22}, mm[8] = {0, 34, 59, 30, 0, 29, 30, 0}, off[8] = {0, 4, 0, 1, 33, 32 + 28, 25, 2};
  const unsigned k = pick("k", 8);
  symx_assume((mjd <= 88126) & (mjd != 15079));   // one day's room for the offset on either side
  if (mjd < 15079) run(ct(mjd, hh[k], mm[k], off[k]), false, "");
  else run(ct(mjd, hh[k], mm[k], off[k]), true, expected(mjd, hh[k], mm[k], off[k]));
  symx_reached("end");
}
SCENARIO(s_time) {
  static const u32 days[] = {15080, 40587, 60368, 60369, 60370, 58848, 58849, 60676, 88068, 88126, 51544, 51603};
  const u32 mjd = days[pick("day", 12)];
  const u32 h = static_cast<u32>(symx_concretize(vb("hour", 5))), off = static_cast<u32>(symx_concretize(vb("offset", 6)));
  const u32 m = vb("minute", 6);
  const bool valid = (h <= 23) & (m <= 59) & ((off & 31) < 30);
  if (valid) run(ct(mjd, h, m, off), true, expected(mjd, h, m, off));
  else run(ct(mjd, h, m, off), false, "");
  symx_reached("end");
}
// the time zone of the receiving computer plays no role
SCENARIO(s_zone) {
  static const long zone[] = {0, 7200, -18000};
  const unsigned z = pick("zone", 3), dst = pick("dst", 2);
  symx_set_tz(zone[z], static_cast<int>(dst));
  static const u32 days[] = {60397, 60398, 60399, 60609, 60610, 60500};   // around the modelled changes, and summer
  const u32 mjd = days[pick("day", 6)];
  const u32 h = vb("hour", 5);
  static const u32 off[] = {0, 4, 42};
  const unsigned k = pick("off", 3);
  symx_assume(h <= 23);
  const u32 hc = static_cast<u32>(symx_concretize(h));
  run(ct(mjd, hc, 30, off[k]), true, expected(mjd, hc, 30, off[k]));
  symx_reached("end");
}
SCENARIO(s_loss) {
  G g = ct(60000, 12, 0, 0);
  g.mask = pick("mask", 16);
  g.b[0] = kPi;
  if (g.mask == 15 || g.mask == 0) symx_end();
  Options o = baseOptions();
  Dec d(o, kPi);
  auto v = d.feed(g);
  check(v.size() <= 1, "at most one line");
  if (v.size() == 1) expectLacks(v[0], {"clock_time"}, "no clock-time from a damaged group");
  symx_reached("end");
}
