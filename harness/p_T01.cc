// T01 (self-test, not a property): library features that redsea does not use today but a rewritten redsea might.
// Every scenario must pass in the executor and natively.
// @scenario s_str quick=60
// @scenario s_stream quick=60
// @scenario s_algo quick=60
// @scenario s_cont quick=60
// @scenario s_num quick=60
// @scenario s_rx quick=60
// @scenario s_misc quick=60
// @scenario s_file quick=60
#include "hx.h"
#include <algorithm>
#include <bitset>
#include <cctype>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <complex>
#include <deque>
#include <forward_list>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <random>
#include <ratio>
#include <regex>
#include <set>
#include <stack>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <cassert>
#include <cstdarg>
#include <ctime>
#define EQ(a, b) do { auto A_ = (a); decltype(A_) B_ = (b); if (!(A_ == B_)) { std::cerr << "line " << __LINE__ << ": " << A_ << "\n"; check(false, "EQ " #a); } } while (0)
using std::string;
SCENARIO(s_str) {
  const u8 c = v8("c"); const unsigned n = vb("n", 12);
  string s = std::to_string(n);
  EQ(std::stoul(s), (unsigned long)n);
  EQ(std::stoi("-12x"), -12); EQ(std::stol("0x1F", nullptr, 16), 31L); EQ(std::stoull("77", nullptr, 8), 63ULL); EQ(std::stod("2.5"), 2.5); EQ(std::stof("1e2"), 100.f);
  size_t pos = 0; EQ(std::stoi("42abc", &pos), 42); EQ(pos, (size_t)2);
  bool th = false; try { std::stoi("q"); } catch (const std::invalid_argument&) { th = true; } check(th, "invalid_argument");
  th = false; try { std::stoi("99999999999"); } catch (const std::out_of_range&) { th = true; } check(th, "out_of_range");
  char b[80];
  std::snprintf(b, sizeof b, "%04X|%02d|%5u|%-5d|%s|%c|%%|%.2f|%x|%08x|%3s|%-3s|%+d|%lu|%zu", 0xABC, 7, 42u, 13, "str", 'z', 1.5, 255, 0xbeef, "a", "b", 5, 99ul, (size_t)3);
  EQ(string(b), string("0ABC|07|   42|13   |str|z|%|1.50|ff|0000beef|  a|b  |+5|99|3"));
  std::snprintf(b, sizeof b, "%*d|%.*s|%" PRIu16 "|%#x|%hhu|%lld|%i|%o", 4, 7, 2, "xyz", (uint16_t)9, 16, 200, -5ll, 3, 8);
  EQ(string(b), string("   7|xy|9|0x10|200|-5|3|10"));
  EQ(std::snprintf(nullptr, 0, "%d", 12345), 5);
  std::sprintf(b, "%c%c", 'a' + 1, 'c'); EQ(string(b), string("bc"));
  string t = "Hello"; t.insert(0, "x").append(3, 'y').push_back((char)c); t.pop_back(); EQ(t, string("xHelloyyy"));
  EQ(t.find("lo"), (size_t)4); EQ(t.rfind('y'), (size_t)8); EQ(t.find_first_not_of("xH"), (size_t)2); EQ(t.find_last_not_of('y'), (size_t)5); EQ(t.find_first_of("ol"), (size_t)3);
  EQ(t.substr(1, 5), string("Hello")); EQ(t.compare(0, 1, "x"), 0); t.erase(0, 1); t.replace(0, 1, "J"); EQ(t, string("Jelloyyy")); t.resize(5); t.resize(7, '!'); EQ(t, string("Jello!!"));
  t.erase(std::remove(t.begin(), t.end(), '!'), t.end()); EQ(t, string("Jello"));
  std::transform(t.begin(), t.end(), t.begin(), [](unsigned char x) { return (char)std::toupper(x); }); EQ(t, string("JELLO"));
  std::transform(t.begin(), t.end(), t.begin(), ::tolower); EQ(t, string("jello"));
  std::reverse(t.begin(), t.end()); EQ(t, string("ollej")); EQ(string(t.rbegin(), t.rend()), string("jello"));
  EQ(std::string(3, 'a') + 'b' + "c", string("aaabc")); check(string("a") < string("b"), "lt"); check(t.front() == 'o' && t.back() == 'j', "fb");
  check(std::isxdigit('F') && !std::isxdigit('G') && std::isalpha('q') && std::isalnum('5') && std::isprint(' ') && std::ispunct('.') && std::isupper('A') && std::islower('a') && std::iscntrl(3), "ctype");
  if (std::isdigit(c)) check(c >= '0' && c <= '9', "digit"); else check(c < '0' || c > '9', "nodigit");
  if (std::isspace(c)) check(c == ' ' || (c >= 9 && c <= 13), "space");
  EQ(std::strtol("12abc", nullptr, 10), 12L); EQ(std::strtoul("ff", nullptr, 16), 255ul); EQ(std::atoi("77"), 77); EQ(std::strtoull("10", nullptr, 0), 10ull); EQ(std::strtod("1.25", nullptr), 1.25); EQ(std::atof("3.5"), 3.5);
  EQ(std::strcmp("a", "b") < 0, true); EQ(std::strncmp("abc", "abd", 2), 0); check(std::strchr("abc", 'c') && !std::strchr("abc", 'd') && std::strstr("hello", "ll"), "str"); EQ(std::strlen(b), (size_t)2);
  char q[16] = ""; std::strcpy(q, "ab"); std::strcat(q, "cd"); std::strncpy(q + 4, "efgh", 3); q[7] = 0; EQ(string(q), string("abcdefg")); std::memmove(q + 1, q, 3); EQ(string(q), string("aabcefg")); check(std::memchr(q, 'c', 8) != nullptr && std::memcmp(q, "aab", 3) == 0, "mem");
  check(std::strrchr(q, 'a') == q + 1 && std::strspn("aab", "a") == 2 && std::strcspn("abc", "c") == 2, "spn"); check(std::strpbrk("xyz", "zy") != nullptr, "pbrk");
  char tk[] = "a,b;c"; string toks; for (char* p = std::strtok(tk, ",;"); p; p = std::strtok(nullptr, ",;")) { toks += p; toks += '|'; } EQ(toks, string("a|b|c|"));
  EQ(std::to_string(-5) + std::to_string(7ul) + std::to_string(8ll), string("-578")); EQ(std::to_string(1.5), string("1.500000"));
  int sa = 0, sb = 0; EQ(std::sscanf("12 0x1f", "%d %x", &sa, &sb), 2); EQ(sa, 12); EQ(sb, 31); unsigned short h1 = 0, h2 = 0; char wd[8] = ""; int used = 0; EQ(std::sscanf("ABCD 12ef word", "%4hx%4hx %7s%n", &h1, &h2, wd, &used), 3); EQ(h1, (unsigned short)0xABCD); EQ(h2, (unsigned short)0x12ef); EQ(string(wd), string("word")); EQ(used, 14);
  const char16_t* u = u"ab"; std::u16string us(u); EQ(us.size(), (size_t)2); 
  using namespace std::string_literals; EQ("lit"s + "x", string("litx"));
  symx_reached("end");
}
SCENARIO(s_stream) {
  const u16 n = v16("n");
  std::ostringstream o; o << std::hex << std::uppercase << std::setw(4) << std::setfill('0') << n; EQ(o.str().size(), (size_t)4);
  unsigned back = 0; std::istringstream(o.str()) >> std::hex >> back; EQ(back, (unsigned)n);
  std::stringstream ss; ss << 12 << ' ' << 3.5 << ' ' << "abc" << ' ' << true << '\n'; int i; double d; string w; bool bo; ss >> i >> d >> w >> bo; check(i == 12 && d == 3.5 && w == "abc" && bo, "ss");
  std::ostringstream p; p << std::fixed << std::setprecision(2) << 3.14159 << '|' << std::scientific << 1e5 << '|' << std::defaultfloat << 0.5 << '|' << std::setw(6) << std::left << 42 << '|' << std::right << std::setw(5) << -3 << '|' << std::oct << 8 << std::dec << '|' << std::showbase << std::hex << 255 << std::noshowbase << '|' << std::showpos << std::dec << 4 << std::noshowpos << '|' << std::internal << std::setw(5) << -7;
  EQ(p.str(), string("3.14|1.00e+05|0.5|42    |   -3|10|0xff|+4|-   7"));
  std::istringstream l("one\ntwo,three\n\nlast"); string ln; int k = 0; while (std::getline(l, ln)) k++; EQ(k, 4); check(l.eof(), "eof"); l.clear(); l.seekg(0); std::getline(l, ln, ','); EQ(ln, string("one\ntwo"));
  std::vector<int> v; std::istringstream nums("1 2 3"); std::copy(std::istream_iterator<int>(nums), std::istream_iterator<int>(), std::back_inserter(v)); EQ(v.size(), (size_t)3);
  std::ostringstream q; std::copy(v.begin(), v.end(), std::ostream_iterator<int>(q, ",")); EQ(q.str(), string("1,2,3,"));
  string all((std::istreambuf_iterator<char>(l)), std::istreambuf_iterator<char>()); EQ(all, string("three\n\nlast"));
  std::istringstream c("x1"); EQ(c.get(), (int)'x'); EQ(c.peek(), (int)'1'); char ch; c.get(ch); EQ(ch, '1'); check(!c.get(ch) && !c.good(), "get");
  std::istringstream r("abcdef"); char buf[4] = ""; r.read(buf, 3); EQ(r.gcount(), (std::streamsize)3); r.unget(); r.ignore(2); EQ((char)r.get(), 'e'); r.putback('e'); EQ((char)r.peek(), 'e');
  std::ostringstream m; m.write("abc", 2); m.put('z'); m.str(m.str() + "!"); EQ(m.str(), string("abz!")); m.str(""); m.clear(); m << "n" << std::ends; EQ(m.str().size(), (size_t)2);
  std::ostringstream e; e << std::put_time(std::gmtime([] { static std::time_t t = 0; return &t; }()), "%Y-%m-%d") << std::quoted("a\"b"); EQ(e.str(), string("1970-01-01\"a\\\"b\""));
  std::ostringstream f; f << (unsigned char)65 << (signed char)66 << (short)-1 << (unsigned short)2 << 3L << 4UL << 5LL << 6ULL << 1.5f << static_cast<const void*>(nullptr); EQ(f.str(), string("AB-1234561.50"));
  std::ios_base::fmtflags fl = f.flags(); f << std::hex; f.flags(fl); f << 10; f.width(3); f.fill('*'); f << 1; EQ(f.precision(), (std::streamsize)6); EQ(f.tellp() > 0, true);
  std::istringstream us("250 9"); unsigned u1; us >> u1; unsigned short u2; us >> u2; EQ(u1 + u2, 259u); uint8_t u8v; std::istringstream("7") >> u8v; EQ(u8v, (uint8_t)'7'); std::istringstream bad("zz"); int z = 5; bad >> z; check(bad.fail() && z == 0, "bad");
  float fl2; std::istringstream("2.25") >> fl2; EQ(fl2, 2.25f); long long ll; std::istringstream("-9") >> ll; EQ(ll, -9ll); std::istringstream ws("  \t x"); ws >> std::ws; EQ((char)ws.peek(), 'x');
  std::ostream& os = std::cerr; std::streambuf* sb = os.rdbuf(); (void)sb; std::clog << ""; std::cout.flush();
  std::ostringstream mv; mv << "keep"; std::ostringstream mw(std::move(mv)); EQ(mw.str(), string("keep")); std::ostringstream at("start", std::ios::ate); at << "+"; EQ(at.str(), string("start+")); std::ostringstream in0("zz"); in0 << "a"; EQ(in0.str(), string("az"));
  symx_reached("end");
}
SCENARIO(s_algo) {
  const u8 c = v8("c");
  std::vector<int> v{5, 3, 9, 1, 7};
  std::sort(v.begin(), v.end()); check(std::is_sorted(v.begin(), v.end()), "sorted"); std::sort(v.begin(), v.end(), std::greater<int>()); EQ(v[0], 9); std::stable_sort(v.begin(), v.end());
  EQ(std::accumulate(v.begin(), v.end(), 0), 25); EQ(std::count_if(v.begin(), v.end(), [](int x) { return x > 4; }), (std::ptrdiff_t)3); EQ(std::count(v.begin(), v.end(), 3), (std::ptrdiff_t)1); EQ(*std::max_element(v.begin(), v.end()), 9); EQ(*std::min_element(v.begin(), v.end()), 1);
  auto mm = std::minmax_element(v.begin(), v.end()); EQ(*mm.first + *mm.second, 10);
  check(std::any_of(v.begin(), v.end(), [](int x) { return x == 7; }) && std::all_of(v.begin(), v.end(), [](int x) { return x > 0; }) && std::none_of(v.begin(), v.end(), [](int x) { return x > 10; }), "of");
  check(std::find(v.begin(), v.end(), 7) != v.end() && std::find_if(v.begin(), v.end(), [](int x) { return x > 100; }) == v.end() && std::find_if_not(v.begin(), v.end(), [](int x) { return x < 5; }) != v.end(), "find");
  std::vector<int> w; std::copy_if(v.begin(), v.end(), std::back_inserter(w), [](int x) { return x & 2; }); std::copy_n(v.begin(), 2, std::back_inserter(w)); std::fill(w.begin(), w.end(), 4); std::fill_n(w.begin(), 1, 6); EQ(w[0] + w[1], 10);
  w.resize(6); std::iota(w.begin(), w.end(), 1); std::rotate(w.begin(), w.begin() + 2, w.end()); EQ(w[0], 3); std::reverse(w.begin(), w.end()); std::partition(w.begin(), w.end(), [](int x) { return x % 2 == 0; }); std::swap_ranges(w.begin(), w.begin() + 2, w.begin() + 2); std::generate(w.begin(), w.end(), [n = 0]() mutable { return n++; }); EQ(w[5], 5);
  check(std::equal(w.begin(), w.end(), w.begin()) && std::lexicographical_compare(v.begin(), v.end(), w.begin(), w.end()) == false, "cmp"); EQ(std::inner_product(w.begin(), w.end(), w.begin(), 0), 55); std::vector<int> ps(6); std::partial_sum(w.begin(), w.end(), ps.begin()); EQ(ps[5], 15); std::adjacent_difference(ps.begin(), ps.end(), w.begin()); EQ(w[5], 5);
  EQ(std::lower_bound(v.begin(), v.end(), 5) - v.begin(), (std::ptrdiff_t)2); EQ(std::upper_bound(v.begin(), v.end(), 5) - v.begin(), (std::ptrdiff_t)3); check(std::binary_search(v.begin(), v.end(), 9), "bs"); v.erase(std::unique(v.begin(), v.end()), v.end()); v.erase(std::remove_if(v.begin(), v.end(), [](int x) { return x == 9; }), v.end()); EQ(v.size(), (size_t)4);
  EQ(std::min({3, 1, 2}), 1); EQ(std::max({3, 1, 2}), 3); EQ(std::distance(v.begin(), v.end()), (std::ptrdiff_t)4); auto it = v.begin(); std::advance(it, 2); EQ(*std::next(it), 7); EQ(*std::prev(it), 3); std::for_each(v.begin(), v.end(), [](int& x) { x *= 2; }); std::replace(v.begin(), v.end(), 2, 0); EQ(v[0], 0); std::nth_element(v.begin(), v.begin() + 1, v.end()); std::transform(v.begin(), v.end(), v.begin(), v.begin(), std::plus<int>());
  check(std::mismatch(v.begin(), v.end(), w.begin()).first != v.end() || true, "mm"); EQ(std::search(v.begin(), v.end(), w.begin() + 3, w.begin() + 3) == v.begin(), true); std::set<int> s1{1, 2}, s2{2, 3}; std::vector<int> is; std::set_intersection(s1.begin(), s1.end(), s2.begin(), s2.end(), std::back_inserter(is)); EQ(is.size(), (size_t)1); std::set_union(s1.begin(), s1.end(), s2.begin(), s2.end(), std::inserter(s1, s1.end()));
  std::array<u8, 8> a{}; a.fill(c); check(std::all_of(a.cbegin(), a.cend(), [c](u8 x) { return x == c; }), "fill"); EQ(std::get<2>(a), c); a[3] = (u8)(c + 1); auto f = std::find(a.begin(), a.end(), (u8)(c + 1)); EQ(f - a.begin(), (std::ptrdiff_t)3); std::array<int, 3> aa{{1, 2, 3}}; EQ(aa.size(), (size_t)3); EQ(aa.back(), 3); check(aa == (std::array<int, 3>{{1, 2, 3}}), "aeq"); std::swap(aa[0], aa[2]); EQ(aa.at(0), 3);
  bool th = false; try { aa.at(5); } catch (const std::out_of_range&) { th = true; } check(th, "at"); th = false; try { std::vector<int>{}.at(0); } catch (const std::exception& e) { th = true; } check(th, "vat");
  std::vector<bool> vb_(9, true); vb_[3] = false; EQ(std::count(vb_.begin(), vb_.end(), true), (std::ptrdiff_t)8); vb_.flip(); vb_.push_back(true); std::vector<bool> v2(vb_); check(v2 == vb_, "vb");
  std::priority_queue<int> pq; pq.push(3); pq.push(8); EQ(pq.top(), 8); std::make_heap(v.begin(), v.end()); std::merge(s1.begin(), s1.end(), s2.begin(), s2.end(), std::back_inserter(is));
  EQ(std::exchange(it, v.begin()) == v.end(), false); EQ(__builtin_popcount(c) + 0 * __builtin_clz(c | 1) + 0 * __builtin_ctz(c | 256) + 0 * __builtin_parity(c), (int)std::bitset<8>(c).count());
  string st = "hello world"; std::vector<string> sv{"b", "a"}; std::sort(sv.begin(), sv.end()); EQ(std::accumulate(sv.begin(), sv.end(), string()), string("ab")); EQ(std::accumulate(std::next(sv.begin()), sv.end(), sv[0], [](string x, const string& y) { return std::move(x) + "," + y; }), string("a,b"));
  symx_reached("end");
}
SCENARIO(s_cont) {
  const u16 k = v16("k");
  std::unordered_map<int, string> um; um[1] = "a"; um.emplace(2, "b"); um.insert({3, "c"}); EQ(um.size(), (size_t)3); EQ(um.count(2), (size_t)1); check(um.find(9) == um.end(), "find"); EQ(um.at(3), string("c")); um.erase(1); for (int i = 0; i < 40; i++) um[i] = std::to_string(i); EQ(um[39], string("39"));
  std::unordered_map<u16, int> uk; uk[k] = 7; uk[static_cast<u16>(k + 1)] = 8; EQ(uk[k], 7); EQ(uk.size(), (size_t)2); std::unordered_map<string, int> us; us["x"] = 1; us["yy"] = 2; EQ(us["x"] + us["yy"], 3); std::unordered_set<int> uset{1, 2, 2}; EQ(uset.size(), (size_t)2);
  std::map<u16, int> m; m[5] = 1; m[k] = 2; EQ(m[k], 2); m.emplace_hint(m.end(), 9, 9); auto lb = m.lower_bound(6); check(lb != m.end(), "lb"); m.erase(m.begin()); for (const auto& kv : m) check(kv.second > 0, "kv"); auto ins = m.insert(std::make_pair((u16)9, 3)); check(!ins.second || k == 9, "ins"); std::map<string, string, std::less<>> ms{{"a", "1"}, {"b", "2"}}; EQ(ms.find("b")->second, string("2"));
  std::set<string> s{"z", "y"}; EQ(*s.begin(), string("y")); std::multimap<int, int> mm{{1, 2}, {1, 3}}; EQ(mm.count(1), (size_t)2); auto er = mm.equal_range(1); EQ(std::distance(er.first, er.second), (std::ptrdiff_t)2); std::multiset<int> mset{1, 1}; EQ(mset.size(), (size_t)2);
  std::deque<int> d; for (int i = 0; i < 200; i++) { d.push_back(i); if (i % 3 == 0) d.pop_front(); d.push_front(-1); } EQ(d.back(), 199); EQ(d[0], -1); std::list<int> l{1, 2, 3}; l.splice(l.begin(), l, std::prev(l.end())); EQ(l.front(), 3); l.remove(2); l.sort(); l.reverse(); std::forward_list<int> fl{1, 2}; fl.push_front(0); EQ(fl.front(), 0);
  std::queue<int> q; q.push(1); q.push(2); q.pop(); EQ(q.front(), 2); std::stack<int> st; st.push(4); EQ(st.top(), 4); std::bitset<26> b(k); EQ(b.to_ulong(), (unsigned long)k); b.set(20).flip(0); check(b.test(20) && b[20] && b.any(), "bits"); EQ((b << 1).test(21), true); EQ(std::bitset<4>("1010").to_string(), string("1010"));
  std::tuple<int, string, double> t{1, "x", 2.0}; EQ(std::get<1>(t), string("x")); int ti; std::tie(ti, std::ignore, std::ignore) = t; EQ(ti, 1); auto pr = std::make_pair(1, 'c'); EQ(pr.second, 'c'); check(std::make_tuple(1, 2) < std::make_tuple(1, 3), "tlt");
  auto up = std::make_unique<std::vector<int>>(3, 7); EQ((*up)[2], 7); auto sp = std::make_shared<string>("sh"); std::shared_ptr<string> sp2 = sp; EQ(sp.use_count(), 2L); std::weak_ptr<string> wp = sp; sp.reset(); sp2.reset(); check(wp.expired(), "weak"); std::unique_ptr<int[]> ua(new int[4]()); EQ(ua[3], 0); struct Base { virtual ~Base() = default; virtual int f() const { return 1; } }; struct D : Base { int f() const override { return 2; } }; std::unique_ptr<Base> bp = std::make_unique<D>(); EQ(bp->f(), 2); check(dynamic_cast<D*>(bp.get()) != nullptr, "dyn"); std::shared_ptr<Base> sbp = std::make_shared<D>(); check(std::dynamic_pointer_cast<D>(sbp) != nullptr, "dpc");
  std::function<int(int)> fn = [k](int x) { return x + k; }; EQ(fn(1), 1 + k); auto bnd = std::bind(fn, std::placeholders::_1); EQ(bnd(2), 2 + k); std::reference_wrapper<int> rw = ti; rw.get() = 5; EQ(ti, 5); auto mf = std::mem_fn(&string::size); EQ(mf(string("abc")), (size_t)3);
  std::vector<std::vector<int>> vv(3, std::vector<int>(2, 1)); vv.emplace_back(4, 2); EQ(vv.back().size(), (size_t)4); vv.insert(vv.begin() + 1, {1, 2, 3}); vv.erase(vv.begin()); vv.shrink_to_fit(); vv.reserve(20); EQ(vv.capacity() >= 20, true); std::vector<string> vs{"a", "b"}; vs.insert(vs.end(), vs.begin(), vs.begin() + 1); EQ(vs.size(), (size_t)3); vs.assign(2, "q"); std::swap(vs[0], vs[1]); std::vector<string> vm = std::move(vs); check(vs.empty(), "moved");
  std::initializer_list<int> il{1, 2}; EQ(il.size(), (size_t)2); static const std::map<int, const char*> tab = {{1, "one"}, {2, "two"}}; EQ(string(tab.at(2)), string("two")); std::valarray<int> va{1, 2, 3}; EQ(va.sum(), 6);
  symx_reached("end");
}
SCENARIO(s_num) {
  const u16 x = v16("x");
  const int i = static_cast<int>(x) - 30000; EQ(std::abs(i) >= 0, true);
  EQ(std::floor(2.7), 2.0); EQ(std::ceil(2.1), 3.0); EQ(std::round(2.5), 3.0); EQ(std::lround(2.5), 3L); EQ(std::trunc(-2.5), -2.0); EQ(std::fmod(7.5, 2.0), 1.5); EQ(std::pow(2.0, 10), 1024.0); EQ(std::sqrt(16.0), 4.0); EQ(std::abs(-2.5), 2.5); EQ(std::fabs(-1.0f), 1.0f); EQ(std::lrint(3.4), 3L); EQ(std::isnan(0.0), false); EQ(std::isfinite(1.0), true); EQ(std::hypot(3.0, 4.0), 5.0); EQ(std::nearbyint(2.4), 2.0); EQ(std::copysign(1.0, -2.0), -1.0); EQ(std::div(7, 2).rem, 1); double ip; EQ(std::modf(2.25, &ip), 0.25); EQ(std::fmin(1.0, 2.0), 1.0); EQ(std::log2(8.0), 3.0); EQ(std::log10(1000.0), 3.0); EQ(std::exp(0.0), 1.0); EQ(std::sin(0.0), 0.0); EQ(std::atan2(0.0, 1.0), 0.0); EQ(std::signbit(-1.0), true);
  EQ((unsigned)std::numeric_limits<u16>::max(), 65535u); EQ(std::numeric_limits<int>::min(), INT_MIN);
  std::complex<float> c(3, 4); EQ(std::abs(c), 5.f); EQ(std::norm(c), 25.f); EQ((c * std::conj(c)).real(), 25.f); c += std::complex<float>(1, 0); c *= 2.f; EQ(c.imag(), 8.f); 
  EQ(static_cast<u16>(x << 3 | x >> 13) != 0 || x == 0, true); const float f = 0.001f * x; check(f >= 0, "f"); EQ(static_cast<int>(0.5 * x) * 2 <= x, true);
  std::tm tm{}; tm.tm_year = 124; tm.tm_mon = 1; tm.tm_mday = 29; tm.tm_hour = 12; char b[64]; std::strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%S %j %a %b", &tm); EQ(string(b).substr(0, 19), string("2024-02-29T12:00:00")); std::time_t tt = 86400; std::tm* g = std::gmtime(&tt); EQ(g->tm_mday, 2); std::tm g2; gmtime_r(&tt, &g2); EQ(g2.tm_year, 70); EQ(timegm(&g2), (std::time_t)86400);
  auto dur = std::chrono::milliseconds(1500); EQ(std::chrono::duration_cast<std::chrono::seconds>(dur).count(), (long)1); auto tp = std::chrono::system_clock::from_time_t(100) + dur; EQ(std::chrono::system_clock::to_time_t(tp), (std::time_t)101); EQ((tp.time_since_epoch() % std::chrono::seconds(1)) == std::chrono::milliseconds(500), true); std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds> tps = std::chrono::time_point_cast<std::chrono::seconds>(tp); EQ(tps.time_since_epoch().count(), (long)101); auto h = std::chrono::hours(1) + std::chrono::minutes(30); EQ(std::chrono::duration<double>(h).count(), 5400.0);
  symx_reached("end");
}
SCENARIO(s_rx) {
  const u8 c = v8("c");
  std::smatch m; string s = string("ab=") + (char)c + "7;"; std::regex r("([a-z]+)=([0-9]+);");
  if (std::regex_search(s, m, r)) { check(c >= '0' && c <= '9', "match"); EQ(m[1].str(), string("ab")); EQ(m.str(2).size(), (size_t)2); EQ(m.size(), (size_t)3); EQ(m.position(0), (std::ptrdiff_t)0); } else check(c < '0' || c > '9', "no match");
  check(std::regex_match("2024-01-02", std::regex("\\d{4}-\\d\\d-\\d\\d")) && !std::regex_match("x", std::regex("y|z")) && std::regex_match("z", std::regex("y|z")) && std::regex_match("AbC", std::regex("abc", std::regex::icase)), "rm");
  EQ(std::regex_replace("a  b", std::regex(" +"), "_"), string("a_b")); EQ(std::regex_replace(string("x1y22"), std::regex("[0-9]+"), "<$&>"), string("x<1>y<22>"));
  string t = "k1 k2 k3"; std::regex w("k(\\d)"); int n = 0; for (std::sregex_iterator i(t.begin(), t.end(), w), e; i != e; ++i) n += std::stoi((*i)[1]); EQ(n, 6); std::vector<string> parts; std::regex sp("\\s+"); std::copy(std::sregex_token_iterator(t.begin(), t.end(), sp, -1), std::sregex_token_iterator(), std::back_inserter(parts)); EQ(parts.size(), (size_t)3);
  std::cmatch cm; check(std::regex_search("zz99", cm, std::regex("[^z]+$")), "cm"); EQ(cm.str(), string("99")); EQ(cm.prefix().str(), string("zz")); check(std::regex_search("foo.bar", std::regex("^foo\\.b[a-c]r$")) && std::regex_match("aXb", std::regex("a.b")) && std::regex_match("ac", std::regex("ab?c")) && std::regex_match("", std::regex("a*")) && std::regex_match("a1_", std::regex("\\w+")) && std::regex_match("abab", std::regex("(?:ab)+")), "more");
  symx_reached("end");
}
namespace { template <typename... A> int suma(A... a) { int r = 0; int dummy[] = {0, (r += a, 0)...}; (void)dummy; return r; } int va(int n, ...) { va_list l; va_start(l, n); int r = 0; while (n--) r += va_arg(l, int); va_end(l); return r; } string fmt(const char* f, ...) { char b[64]; va_list l; va_start(l, f); std::vsnprintf(b, sizeof b, f, l); va_end(l); return b; } enum class E : u8 { A, B }; struct Bits { unsigned a : 4; unsigned b : 12; }; union U { u16 w; u8 b[2]; }; constexpr int fact(int n) { return n < 2 ? 1 : n * fact(n - 1); } struct Guard { int& r; ~Guard() { r++; } }; thread_local int tls = 3; }
SCENARIO(s_misc) {
  const u16 x = v16("x");
  EQ(suma(1, 2, 3), 6); EQ(va(3, 1, 2, 3), 6); EQ(fmt("%s-%d", "a", 5), string("a-5")); Bits b{}; b.a = x & 15; b.b = x >> 4; EQ((unsigned)(b.a | b.b << 4), (unsigned)x); U u; u.w = x; EQ((u16)(u.b[0] | u.b[1] << 8), x); static_assert(fact(5) == 120, ""); int r = 0; try { Guard g{r}; throw std::runtime_error("e"); } catch (const std::exception& e) { EQ(string(e.what()), string("e")); } EQ(r, 1); tls++; EQ(tls, 4);
  switch (static_cast<E>(x & 1)) { case E::A: EQ(x & 1, 0); break; case E::B: EQ(x & 1, 1); break; default: check(false, "enum"); }
  try { try { throw 5; } catch (int i) { throw std::logic_error("again"); } } catch (...) { r++; } EQ(r, 2); std::uint_least16_t ul = x; EQ((u16)ul, x); long double ld = 2.5L; EQ((double)ld, 2.5); u64 wide = (u64)x << 40; EQ((u16)(wide >> 40), x); goto end;
end:
  static int once = [] { return 9; }(); EQ(once, 9); u16 sw = __builtin_bswap16(x); EQ((u16)(sw >> 8 | sw << 8), x); int arr[2][3] = {{1, 2, 3}, {4, 5, 6}}; int sum = 0; for (auto& row : arr) for (int v : row) sum += v; EQ(sum, 21); auto gl = [](auto a, auto c) { return a + c; }; EQ(gl(1, 2), 3); std::swap(arr[0], arr[1]); EQ(arr[0][0], 4); J j = {{"a", 1}, {"b", {1, 2}}}; j["b"].push_back(3);  j["c"]["d"] = nullptr; EQ(j.value("a", 0), 1); check(j.contains("c") && j.find("zz") == j.end() && j.count("a") == 1, "json"); j.erase("a"); EQ(j.size(), (size_t)2); J k = J::array(); k.emplace_back("s"); k.push_back(J::object()); EQ(k.dump(1).empty(), false); j.update(J{{"e", 1.5}}); EQ(j["e"].get<double>(), 1.5); j.at("e") = "x"; EQ(j["e"].get<string>(), string("x")); for (auto it = j.begin(); it != j.end(); ++it) check(!it.key().empty(), "key"); for (auto& el : j.items()) check(!el.key().empty(), "items"); std::ostringstream o; o << j; check(!o.str().empty(), "oj"); check(j.dump() == string(j.dump()) || true, "d"); EQ(J(x).get<int>(), (int)x); std::vector<int> vi{1, 2}; J jv = vi;  std::map<string, int> jm{{"q", 1}}; J jmm = jm;  J mg; mg["x"].emplace("y", 1); mg.merge_patch(J{{"w", 2}});  check(J(1) == J(1) && J("a") != J("b"), "jeq"); nlohmann::json sorted = {{"b", 1}, {"a", 2}}; 
  symx_reached("end");
}
SCENARIO(s_file) {
  std::ifstream f("/nonexistent/file"); check(!f.is_open() && !f, "no file"); std::printf("%s", ""); std::fputs("", stdout); std::fflush(stdout); std::puts("line"); std::fprintf(stdout, "%d\n", 5); std::putchar('c'); std::fwrite("ab", 1, 2, stdout); std::fputc('\n', stdout); std::cout << "x" << std::endl; const char* e = std::getenv("NOPE_X"); check(e == nullptr, "env");
  symx_reached("end");
}
