// P28: TMC location tables
// @bound two tables of 10 and 2 points in files of fixed layout (columns in two different orders, CR LF or LF, UTF-8, ISO 8859-1 and ISO 8859-15, one arbitrary character in a name); messages with arbitrary location, extent 0..31, both directions
// @assume the encoding in README.DAT is not empty (which would mean that of the computer)
// @scenario s_point quick=120
// @scenario s_extent quick=120
// @scenario s_table quick=120
// @scenario s_encoding quick=120 thorough=400 Q.full=0 T.full=1
// @scenario s_rows quick=120
// @scenario s_info quick=60
// @scenario s_missing quick=60
#include "cli.h"
#include "tmc.h"
using namespace tmc_ref;
namespace {
struct P { unsigned lcd; const char* name; int lon, lat; unsigned road; unsigned neg, pos; };
// points on road 500 (A 1, Ring Road), 501 (no name: own road name), 502 through segment 600
const P kP[] = {
  {1000, "North", 2490000, 6017000, 500, 0, 1001}, {1001, "Middle", 2491234, 6016555, 500, 1000, 1002}, {1002, "", -2492000, 6015000, 500, 1001, 1003},
  {1003, "South", 2493999, -6014000, 500, 1002, 0}, {2000, "Harbour", 0, 1, 501, 2000, 2000}, {2001, "", 123, 456, 0, 7777, 2000}, {3000, "Mill", 18000000, -9000000, 502, 2000, 1000},
  {4000, "North", 1, 2, 0, 0, 1000}, {4001, "South", 3, 4, 0, 0, 0}, {4002, "", 5, 6, 500, 0, 0}};
const unsigned kNum = 10;
struct Files { std::string datasets, readme, names, roads, segments, points, offsets; };
void put(const char* dir, const char* name, const std::string& s) {
  auto* n = new std::string(std::string(dir) + "/" + name);
  auto* c = new std::string(s);
  symx_add_file(n->c_str(), c->data(), c->size());
}
void install(const char* dir, const Files& f) {
  put(dir, "LOCATIONDATASETS.DAT", f.datasets); put(dir, "README.DAT", f.readme); put(dir, "NAMES.DAT", f.names); put(dir, "ROADS.DAT", f.roads);
  put(dir, "SEGMENTS.DAT", f.segments); put(dir, "POINTS.DAT", f.points); put(dir, "POFFSETS.DAT", f.offsets);
}
Files table(bool swapped = false, const std::string& nl = "\r\n", const std::string& harbour = "Harbour", const std::string& encoding = "UTF-8", const char* extraPoint = "") {
  Files f;
  f.datasets = "CID;TABCD;DCOMMENT;VERSION" + nl + "6;17;Test;1.0" + nl;
  f.readme = "6;17;1.0;20200101;" + encoding + ";x" + nl;
  f.names = swapped ? "NAME;CID;NID" + nl : "CID;LID;NID;NAME;NCOMMENT" + nl;
  auto nm = [&](int id, const std::string& t) { f.names += swapped ? t + ";6;" + num(id) + nl : "6;1;" + num(id) + ";" + t + ";" + nl; };
  nm(1, "North"); nm(2, "Middle"); nm(3, "South"); nm(4, harbour); nm(5, "Mill"); nm(10, "Ring Road"); nm(11, "Harbour Street"); nm(12, "Mill Lane");
  f.roads = "CID;TABCD;LCD;CLASS;TCD;STCD;ROADNUMBER;RNID;N1ID" + nl + "6;17;500;L;1;1;A 1;10;" + nl + "6;17;501;L;1;1;;;" + nl + "6;17;502;L;1;1;B 22;12;1" + nl;
  f.segments = "CID;TABCD;LCD;CLASS;ROA_LCD" + nl + "6;17;600;L;502" + nl + "6;17;601;L;599" + nl;
  f.points = swapped ? "LCD;YCOORD;XCOORD;N1ID;RNID;ROA_LCD;SEG_LCD;TABCD" + nl : "CID;TABCD;LCD;CLASS;N1ID;RNID;ROA_LCD;SEG_LCD;XCOORD;YCOORD" + nl;
  auto pt = [&](const std::string& lcd, const char* n1, const char* rn, const char* road, const char* seg, const char* x, const char* y) {
    f.points += swapped ? lcd + ";" + y + ";" + x + ";" + n1 + ";" + rn + ";" + road + ";" + seg + ";17" + nl : "6;17;" + lcd + ";P;" + n1 + ";" + rn + ";" + road + ";" + seg + ";" + x + ";" + y + nl;
  };
  pt("1000", "1", "", "500", "", "+02490000", "+06017000"); pt("1001", "2", "", "500", "", "2491234", "6016555"); pt("1002", "", "10", "500", "", "-02492000", "+6015000");
  f.points += extraPoint;
  pt("1003", "3", "", "500", "", "+2493999", "-6014000"); pt("2000", "4", "11", "501", "", "0", "1"); pt("2001", "", "", "", "", "123", "456"); pt("3000", "5", "12", "", "600", "18000000", "-9000000");
  // a segment of an unlisted road, an unlisted segment, an unlisted name
  pt("4000", "1", "", "", "601", "1", "2"); pt("4001", "3", "", "", "699", "3", "4"); pt("4002", "77", "78", "500", "", "5", "6");
  f.offsets = "CID;TABCD;LCD;NEG_OFF_LCD;POS_OFF_LCD" + nl;
  auto off = [&](int a, int n, int p) { f.offsets += "6;17;" + num(a) + ";" + num(n) + ";" + num(p) + nl; };
  off(1000, 0, 1001); off(1001, 1000, 1002); off(1002, 1001, 1003); off(1003, 1002, 0); off(2000, 2000, 2000); off(2001, 7777, 2000); off(3000, 2000, 1000); off(4000, 0, 1000); off(4321, 1, 2);
  return f;
}
Files small() {
  Files f;
  f.datasets = "CID;TABCD;DCOMMENT;VERSION\n5;9;Test;1.0\n";
  f.readme = "5;9;1.0;20200101;UTF-8;x\n";
  f.names = "CID;LID;NID;NAME;NCOMMENT\n5;1;1;Elsewhere;\n";
  f.roads = "CID;TABCD;LCD;CLASS;TCD;STCD;ROADNUMBER;RNID;N1ID\n";
  f.segments = "CID;TABCD;LCD;CLASS;ROA_LCD\n";
  f.points = "CID;TABCD;LCD;CLASS;N1ID;RNID;ROA_LCD;SEG_LCD;XCOORD;YCOORD\n5;9;1001;P;1;;;;700000;800000\n5;9;9;P;1;;;;100000;200000\n";
  f.offsets = "CID;TABCD;LCD;NEG_OFF_LCD;POS_OFF_LCD\n5;9;1001;9;9\n";
  return f;
}
Options withTables(std::initializer_list<const char*> dirs) { Options o = baseOptions(); for (const char* d : dirs) o.loctable_dirs.emplace_back(d); return o; }
const P* point(unsigned lcd) { for (const P& p : kP) if (p.lcd == lcd) return &p; return nullptr; }
bool close(const J& v, int hundredThousandths) {
  if (!v.is_number()) return false;
  const double d = v.get<double>() - hundredThousandths / 100000.0;
  return d < 2e-5 && d > -2e-5;
}
// checks the location part of a message against the reference table and removes it
void expectLocation(J msg, Msg m, unsigned extent, const std::string& harbour = "Harbour") {
  const P* p = m.loc == 0 ? nullptr : point(m.loc);
  J e = message(m);
  if (p) {
    std::vector<const P*> way;
    const P* q = p;
    for (unsigned i = 0; q && i <= extent; i++) { way.push_back(q); q = point(m.dir && extent ? q->neg : q->pos); }
    auto name = [&](const P* x) { return x->lcd == 2000 ? harbour : std::string(x->name); };
    check(msg.contains("coordinates") && msg["coordinates"].is_array() && msg["coordinates"].size() == way.size(), "as many coordinates as points on the way");
    for (std::size_t i = 0; i < way.size(); i++) check(close(msg["coordinates"][i]["lat"], way[i]->lat) && close(msg["coordinates"][i]["lon"], way[i]->lon), "the coordinates of the points on the way");
    e["coordinates"] = msg["coordinates"];
    if (way.size() > 1 && !name(way[0]).empty() && !name(way.back()).empty()) { e["span_from"] = name(way[0]); e["span_to"] = name(way.back()); }
    if (p->road == 500) { e["road_number"] = "A 1"; e["road_name"] = "Ring Road"; }
    else if (p->road == 501) e["road_name"] = "Harbour Street";
    else if (p->road == 502) { e["road_number"] = "B 22"; e["road_name"] = "Mill Lane"; }
  }
  expectJson(msg, e, "the message with its location");
}
J ask(Tmc& t, const Msg& m) { return t.feed(single(0, 0, m.dir, m.extent, m.code, m.loc))["tmc"]["message"]; }
}
SCENARIO(s_point) {
  install("loc", table());
  Tmc t(17, withTables({"loc"}));
  Msg m;
  m.code = 701; m.dir = pick("dir", 2);
  const u16 loc = v16("loc");
  symx_assume(loc != 0);
  const J msg = ask(t, [&] { Msg x = m; x.loc = loc; return x; }());
  for (const P& p : kP) if (symx_concretize(loc == p.lcd)) { m.loc = static_cast<u16>(p.lcd); expectLocation(msg, m, 0); symx_reached("known"); return; }
  m.loc = loc;
  expectJson(msg, message(m), "an unknown location changes nothing");
  symx_reached("unknown");
}
SCENARIO(s_extent) {
  install("loc", table());
  Tmc t(17, withTables({"loc"}));
  Msg m;
  m.code = 701; m.dir = pick("dir", 2); m.extent = pick("extent", 8); m.loc = static_cast<u16>(kP[pick("point", kNum)].lcd);
  const unsigned more = pick("more", 3);
  if (!more) expectLocation(ask(t, m), m, m.extent);
  else {
    m.fields.push_back({1, 5 + more});
    const auto v = multi(m, 1);
    t.feed(v[0]);
    expectLocation(t.feed(v[1])["tmc"]["message"], m, m.extent + (more == 1 ? 8 : 16));
  }
  symx_reached("end");
}
// only the table that the service uses; several tables loaded
SCENARIO(s_table) {
  install("loc", table());
  install("two", small());
  const unsigned order = pick("order", 3);
  Options o = withTables({});
  if (order != 1) o.loctable_dirs.emplace_back("loc");
  if (order != 0) o.loctable_dirs.emplace_back("two");
  if (order == 2) { o.loctable_dirs[0] = "two"; o.loctable_dirs[1] = "loc"; }
  const unsigned ltn = 1 + pick("ltn", 63);
  Tmc t(ltn, o);
  Msg m;
  m.code = 701; m.loc = 1001;
  const J msg = ask(t, m);
  if (ltn == 17 && order != 1) expectLocation(msg, m, 0);
  else if (ltn == 9 && order != 0) {
    check(msg["coordinates"].size() == 1 && close(msg["coordinates"][0]["lat"], 800000) && close(msg["coordinates"][0]["lon"], 700000), "the point of the other table");
    expectLacks(msg, {"road_name", "road_number", "span_from"}, "no road in the other table");
  } else expectJson(msg, message(m), "locations of tables that are not loaded");
  symx_reached("end");
}
// names in the table's encoding
SCENARIO(s_encoding) {
  static const char* const enc[] = {"UTF-8", "ISO-8859-1", "ISO-8859-15", "ISO 8859-1 (Latin 1)", "ISO/8859-15", "KOI8-XX"};
  const unsigned k = pick("encoding", 6);   // unknown encodings are taken for UTF-8
  const unsigned c = static_cast<unsigned>(symx_concretize(v8("char")));
  symx_assume(c >= 0x20); symx_assume(c != ';'); symx_assume(c != 0x7F);
  if (!symx_param("full", 0) && !((c >= 0xA0 && c < 0xC0) || c % 31 == 3)) symx_end();
  std::string raw = "H", text = "H";
  if (k == 0 || k >= 5) { raw += utf8(0x100 + c); text += utf8(0x100 + c); }
  else {
    raw += static_cast<char>(c);
    u32 u = c;
    if (k == 2 || k == 4) u = c == 0xA4 ? 0x20AC : c == 0xA6 ? 0x160 : c == 0xA8 ? 0x161 : c == 0xB4 ? 0x17D : c == 0xB8 ? 0x17E : c == 0xBC ? 0x152 : c == 0xBD ? 0x153 : c == 0xBE ? 0x178 : c;
    text += utf8(u);
  }
  raw += "r"; text += "r";
  install("loc", table(false, "\r\n", raw, enc[k]));
  Tmc t(17, withTables({"loc"}));
  Msg m;
  m.code = 701; m.loc = 2000; m.extent = 1;
  expectLocation(ask(t, m), m, 1, text);
  symx_reached("end");
}
// column order, line ends, and unusable rows do not matter
SCENARIO(s_rows) {
  static const char* const extra[] = {"", "6;17;oops;P;1;;500;;1;2\n", "6;17\n", "\n", "6;17;1004;P;1;;500;;x;2\n"};
  static const char* const nls[] = {"\n", "\r\n"};
  const unsigned swapped = pick("swapped", 2), x = swapped ? 0 : pick("extra", 5);
  install("loc", table(swapped, nls[pick("nl", 2)], "Harbour", "UTF-8", extra[x]));
  Tmc t(17, withTables({"loc"}));
  Msg m;
  m.code = 701; m.dir = pick("dir", 2); m.extent = 2; m.loc = static_cast<u16>(kP[pick("point", kNum)].lcd);
  expectLocation(ask(t, m), m, 2);
  symx_reached("end");
}
// what the program says about the tables at the start
SCENARIO(s_info) {
  install("loc", table());
  install("two", small());
  const unsigned two = pick("two", 3), echo = pick("echo", 2);
  std::vector<std::string> args{"-i", "bits"};
  if (echo) args.push_back("-e");
  if (two != 1) { args.push_back("-l"); args.push_back("loc"); }
  if (two != 0) { args.push_back("--loctable"); args.push_back("two"); }
  Cli c;
  runCli(c, args, "");
  check(c.rc == 0, "success");
  std::string e;
  if (two != 1) e += "{\"location_table_info\":{\"ltn\":17,\"num_points\":10,\"num_roads\":3,\"num_names\":8}}\n";
  if (two != 0) e += "{\"location_table_info\":{\"ltn\":9,\"num_points\":2,\"num_roads\":0,\"num_names\":1}}\n";
  expectStr(echo ? c.err : c.out, e, "a line about each location table");
  symx_reached("end");
}
// no such directory: messages are shown without location details
SCENARIO(s_missing) {
  Tmc t(pick("ltn", 2) ? 17 : 1, withTables({"nowhere"}));
  Msg m;
  m.code = 701; m.loc = 1001;
  expectJson(ask(t, m), message(m), "no table, no location details");
  symx_reached("end");
}
