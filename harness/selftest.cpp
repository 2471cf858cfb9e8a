// Self-test of the engine: library features that a rewrite of the repository could start to use.
#include "hx.h"
#include <list>
#include <map>
#include <set>
#include <deque>
#include <stack>
#include <queue>
#include <memory>
#include <functional>
#include <optional>
#include <bitset>
#include <numeric>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <unordered_set>
#include <forward_list>
#include <variant>
#include <array>
#include <cstring>
#include <limits>
#include <iterator>
#include <cmath>
#include <string>
using namespace hx;
static unsigned s(const char* n) { return sx_pick(sx_sym(n, 2)); }
extern "C" void lib_list() { std::list<unsigned> l; l.push_back(s("a")); l.push_front(2); l.push_back(s("b")); l.sort(); l.splice(l.begin(), std::list<unsigned>{0}); CHECK(l.front() == 0 && l.size() == 4, "list"); l.remove(2); l.reverse(); l.unique(); sx_reach("end"); }
extern "C" void lib_map() { std::map<unsigned, unsigned> m; for (int i = 0; i < 5; ++i) m[s("a") + i]++; m.erase(m.begin()); std::multimap<int,int> q; q.insert({1,2}); q.insert({1,3}); std::set<std::pair<int,int>> t; for (int i = 0; i < 40; ++i) t.insert({i * 7 % 11, i}); CHECK(t.size() == 40, "set"); for (int i = 0; i < 20; ++i) CHECK(t.erase({i * 7 % 11, i}) == 1, "erase"); auto e = m.extract(m.begin()); CHECK(!e.empty(), "extract"); sx_reach("end"); }
extern "C" void lib_deque() { bdd_mgr m; std::deque<node_ref> d; for (int i = 0; i < 100; ++i) { d.push_back(m.projection(i % 5)); if (i % 3 == 0) d.pop_front(); } std::stack<int> st; std::queue<int> q; std::priority_queue<unsigned> pq; for (int i = 0; i < 5; ++i) { st.push(i); q.push(i); pq.push(s("p")); } unsigned l = 99; while (!pq.empty()) { CHECK(pq.top() <= l, "pq"); l = pq.top(); pq.pop(); } std::stack<std::pair<int, bool>, std::vector<std::pair<int, bool>>> sv; sv.emplace(1, true); sx_reach("end"); }
extern "C" void lib_algo() { std::vector<unsigned> v; for (int i = 0; i < 4; ++i) v.push_back(s("v")); for (int i = 0; i < 30; ++i) v.push_back(i * 7 % 31); auto w = v; std::stable_sort(v.begin(), v.end()); std::sort(w.begin(), w.end(), std::greater<unsigned>()); std::reverse(w.begin(), w.end()); CHECK(v == w, "sorts"); std::partial_sort(w.begin(), w.begin() + 3, w.end()); std::nth_element(w.begin(), w.begin() + 5, w.end()); std::rotate(v.begin(), v.begin() + 3, v.end()); std::vector<unsigned> u; std::copy_if(v.begin(), v.end(), std::back_inserter(u), [](unsigned x) { return x & 1; }); std::transform(u.begin(), u.end(), u.begin(), [](unsigned x) { return x + 1; }); (void)std::accumulate(u.begin(), u.end(), 0u); std::iota(u.begin(), u.end(), 0); CHECK(std::is_sorted(u.begin(), u.end()), "iota"); CHECK(std::binary_search(u.begin(), u.end(), 1u), "bs"); auto it = std::lower_bound(u.begin(), u.end(), 2u); u.insert(it, 5); u.erase(std::remove(u.begin(), u.end(), 5), u.end()); std::vector<bool> vb(100); vb[s("i")] = true; CHECK(std::count(vb.begin(), vb.end(), true) == 1, "vb"); std::make_heap(v.begin(), v.end()); std::sort_heap(v.begin(), v.end()); std::inplace_merge(v.begin(), v.begin() + 5, v.end()); (void)std::minmax_element(v.begin(), v.end()); std::partition(v.begin(), v.end(), [](unsigned x) { return x > 3; }); sx_reach("end"); }
struct B { virtual ~B() {} virtual int f() = 0; }; struct D : B { int x; D(int y) : x(y) {} int f() override { return x; } };
extern "C" void lib_obj() { std::unique_ptr<B> b(new D(s("x"))); std::shared_ptr<B> c = std::make_shared<D>(3); auto c2 = c; CHECK(c.use_count() == 2 && c2->f() == 3, "shared"); std::function<int(int)> f = [&](int x) { return x ? f(x - 1) + 1 : b->f(); }; CHECK(f(4) >= 4, "function"); std::optional<int> o; CHECK(!o, "opt"); o = 4; std::bitset<70> bs; bs.set(65); CHECK(bs.count() == 1, "bitset"); std::variant<int, std::string> v = std::string("abc"); CHECK(std::get<1>(v).size() == 3, "variant"); std::unordered_set<unsigned> us; for (int i = 0; i < 50; ++i) us.insert(i * 3); us.erase(3); us.reserve(200); CHECK(us.size() == 49, "us"); std::unordered_multimap<int,int> um; um.emplace(1, 1); um.emplace(1, 2); CHECK(um.count(1) == 2, "umm"); std::forward_list<int> fl; fl.push_front(1); std::array<std::vector<int>, 3> a; a[s("j") % 3].push_back(1); std::tuple<int, double> t{1, 2.5}; CHECK(std::get<1>(t) > 2, "tuple"); std::weak_ptr<B> wp = c; CHECK(!wp.expired(), "weak"); sx_reach("end"); }
extern "C" void lib_str() { std::string a = "x"; for (int i = 0; i < 30; ++i) a += std::to_string(i); a.insert(3, "yy"); a.append(5, 'c'); CHECK(a.find("yy") == 3, "find"); a.erase(0, 2); std::string b = a.substr(2, 5) + "q"; CHECK(b.size() == 6 && a != b && (a < b || b < a), "str"); b.reserve(300); b.replace(0, 1, "zz"); b.push_back('a'); b.resize(3); std::string c(b.begin(), b.end()); std::swap(b, c); CHECK(c.compare(b) == 0, "cmp"); sx_reach("end"); }
static void no_lib_ss() { std::stringstream s; s << "a" << 12 << ' ' << std::string("q") << 1.5 << std::endl; CHECK(s.str().size() > 2, "ss"); sx_reach("end"); }
static void no_lib_ostr() { std::ostringstream s; s << 12; CHECK(s.str() == "12", "ss"); sx_reach("end"); }
extern "C" void lib_cout() { std::cout << "hello " << 3 << "\n" << std::flush; std::cerr << 'x' << std::endl; sx_reach("end"); }
extern "C" void lib_exc() { try { std::vector<int> v(3); v.at(s("k") + 2) = 1; } catch (std::out_of_range& e) { sx_reach("thrown"); } try { throw std::logic_error("abc" + std::to_string(4)); } catch (const std::exception& e) {  } try { try { throw 3; } catch (...) { throw; } } catch (int i) { CHECK(i == 3, "int"); } sx_reach("end"); }
extern "C" void lib_num() { double d = s("n"); (void)std::ceil(d / 2); CHECK(std::floor(d) == d, "floor"); unsigned long x = s("m") + 1; CHECK(__builtin_popcountl(x) >= 1 && __builtin_clzl(x) < 64 && __builtin_ctzl(x) < 3, "bits"); CHECK(std::log2(8.0) == 3, "log2"); CHECK(std::sqrt(16.0) == 4, "sqrt"); std::hash<size_t> h; (void)h(x); std::hash<std::string> hs; (void)hs("abc"); CHECK(std::numeric_limits<size_t>::max() > x, "lim"); char buf[40]; std::memset(buf, 1, 40); std::memmove(buf + 3, buf, 20); CHECK(std::memcmp(buf, buf + 3, 5) == 0, "cmp"); static int cnt = 0; static std::vector<int> sv{1, 2}; ++cnt; CHECK(std::abs(-3) == 3, "abs"); CHECK(std::round(2.5) == 3.0 && std::lround(1.2) == 1 && std::fmod(5.0, 3.0) == 2.0 && std::exp2(3.0) == 8.0, "rnd"); sx_reach("end"); }
static thread_local int tl = 3;
struct S { int a; S() { a = tl++; } };
extern "C" void lib_tls() { static thread_local std::vector<S> v; v.emplace_back(); CHECK(v[0].a == 3, "tls"); std::vector<std::unique_ptr<S>> w; w.emplace_back(new S); w.resize(10); int* p = new int[5](); CHECK(p[3] == 0, "zero"); delete[] p; void* q = ::operator new(64, std::align_val_t(64)); CHECK(((size_t)q & 63) == 0, "align"); ::operator delete(q, std::align_val_t(64)); p = (int*)std::malloc(4); p = (int*)std::realloc(p, 400); std::free(p); p = (int*)std::calloc(3, 4); CHECK(p[2] == 0, "calloc"); std::free(p); sx_reach("end"); }
