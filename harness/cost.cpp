// Complexity: every operation at every position of containers built in many ways, at two sizes; steps are pointer
// dereferences (fancy pointers), calls of user functions and allocations.
#include "rt.hpp"
#include "mini.hpp"
#include <map>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/member.hpp>
using namespace boost::multi_index;
static long calls = 0, allocs = 0;
struct V { int a; V(int x = 0) : a(x) {} friend bool operator==(const V& x, const V& y) { ++calls; return x.a == y.a; } };
struct Key { typedef int result_type; int operator()(const V& v) const { return v.a; } };
struct Cmp { bool operator()(int x, int y) const { ++calls; return x < y; } };
struct Eq { bool operator()(int x, int y) const { ++calls; return x == y; } };
struct Hs { std::size_t operator()(int x) const { ++calls; return (std::size_t)(x + 1000); } };
struct HsBad { std::size_t operator()(int x) const { ++calls; return 7; } };
typedef rt::FancyA<V> A;
enum { CONST, LOG, LIN, NLOGN, QUAD, SAME, NC };
static const char* CN[] = {"constant", "logarithmic", "linear", "n log n", "quadratic", "a fixed number"};
static int sizes[2] = {64, 1024}; static int phase_; static std::map<std::string, std::pair<int, double>> cost[2]; static std::string cname; static int pattern;
static long steps() { return rt::derefs + calls; }
static void rec(const char* op, int cls, double c) { ++mini::checks; auto& r = cost[phase_][op]; r.first = cls; if (c > r.second) r.second = c; }
template <class F> static long measure(F f) { long s = steps(); f(); return steps() - s; }
template <class F> static void one(const char* op, int cls, F f) { rec(op, cls, (double)measure(f)); }
static void judge() {
  double r = (double)sizes[1] / sizes[0];
  for (auto& x : cost[1]) { auto it = cost[0].find(x.first); if (it == cost[0].end()) continue; double c0 = it->second.second, c1 = x.second.second, lim = 0;
    switch (x.second.first) { case CONST: lim = 2 * c0 + 30; break; case SAME: lim = c0 + 1; break; case LOG: lim = 2.4 * c0 + 40; break; case LIN: lim = r * (1.5 * c0 + 20); break; case NLOGN: lim = r * (2.4 * c0 + 40); break; case QUAD: lim = r * r * (1.5 * c0 + 20); }
    MCHECK(c1 <= lim, "%s, pattern %d: %s takes %.1f steps with %d elements and %.1f with %d: more than %s", cname.c_str(), pattern, x.first.c_str(), c0, sizes[0], c1, sizes[1], CN[x.second.first]);
    if (getenv("VERIF_COST")) printf("%s p%d %-40s %s %.1f %.1f ratio %.2f\n", cname.c_str(), pattern, x.first.c_str(), CN[x.second.first], c0, c1, c1 / lim); }
  cost[0].clear(); cost[1].clear();
}
// the i-th value inserted, for n values; distinct patterns give the even numbers below 2n, in some order
enum { ASC, DESC, ENDS, INSIDE, BITREV, STRIDE, DISTINCT, EQUAL = DISTINCT, GROUPS, PAIRS, NPAT };
static int value(int p, int i, int n) {
  switch (p) { case ASC: return 2 * i; case DESC: return 2 * (n - 1 - i); case ENDS: return i & 1 ? 2 * (n - 1 - i / 2) : 2 * (i / 2); case INSIDE: return 2 * (i & 1 ? n / 2 - 1 - i / 2 : n / 2 + i / 2);
    case BITREV: { int r = 0; for (int b = 1, c = n >> 1; c; b <<= 1, c >>= 1) if (i & b) r |= c; return 2 * r; } case STRIDE: return 2 * (int)((long)i * 37 % n); case EQUAL: return 2; case GROUPS: return 2 * (i % 4); default: return 2 * (i / 2); } }
template <class C, class I> static void common(C& c, I& x, int n, int modcls = CONST) { // index-independent guarantees
  one("size, empty, begin, end", CONST, [&] { (void)x.size(); (void)x.empty(); (void)x.begin(); (void)x.end(); (void)x.max_size(); });
  for (auto i = x.begin(); i != x.end(); ++i) { one("iterator_to", CONST, [&] { (void)x.iterator_to(*i); }); one("project", CONST, [&] { (void)c.template project<0>(i); }); one("replace by an equal value", modcls, [&] { V v(*i); x.replace(i, v); }); one("modify in place", modcls,  [&] { x.modify(i, [](V&) {}); }); one("modify in place, with rollback", modcls, [&] { x.modify(i, [](V&) {}, [](V&) {}); }); }
  if (modcls == LOG) { double t = 0, u = 0; for (auto i = x.begin(); i != x.end(); ++i) { V v(*i); t += measure([&] { x.replace(i, v); }); u += measure([&] { x.modify(i, [](V&) {}); }); } rec("replace by an equal value, average", CONST, t / n); rec("modify in place, average", CONST, u / n); }
  rec("traversal / n", CONST, (double)measure([&] { for (auto i = x.begin(), e = x.end(); i != e; ++i); }) / n);
  { C d; one("swap", CONST, [&] { c.swap(d); }); c.swap(d); one("move construction", CONST, [&] { C e(std::move(c)); c.swap(e); }); }
  { long k = 0; double t; { C* d = nullptr; t = (double)measure([&] { d = new C(c); }); rec("copy", NLOGN, t); { C e; rec("copy assignment", NLOGN, (double)measure([&] { e = *d; })); } rec("clear", LIN, (double)measure([&] { d->clear(); })); delete d; } (void)k; }
}
template <class X> static void ranked(X& x, int n, std::true_type) {
  for (int r = 0; r <= n; ++r) { one("nth", LOG, [&] { (void)x.nth(r); }); auto i = x.nth(r); one("rank", LOG, [&] { (void)x.rank(i); }); }
  for (int k = -1; k <= 2 * n; ++k) { one("count (ranked)", LOG, [&] { (void)x.count(k); }); one("find_rank", LOG, [&] { (void)x.find_rank(k); }); one("lower_bound_rank", LOG, [&] { (void)x.lower_bound_rank(k); }); one("upper_bound_rank", LOG, [&] { (void)x.upper_bound_rank(k); }); one("equal_range_rank", LOG, [&] { (void)x.equal_range_rank(k); }); one("range_rank", LOG, [&] { (void)x.range_rank([=](int q) { ++calls; return q >= k; }, [=](int q) { ++calls; return q <= k + 7; }); }); }
}
template <class X> static void ranked(X& x, int n, std::false_type) {}
template <class C, bool RANK, bool UNIQ, int AM = RANK ? LOG : CONST> static void ordered(const char* nm) {
  for (int p = 0; p < NPAT; ++p) { if (UNIQ && p >= DISTINCT) continue; if (!mini::next()) continue; ++mini::states; cname = nm; pattern = p;
    for (phase_ = 0; phase_ < 2; ++phase_) { int n = sizes[phase_]; C c; auto& x = c.template get<0>(); typedef typename std::decay<decltype(x)>::type X; bool dist = p < DISTINCT;
      for (int i = 0; i < n; ++i) one("insert while building", LOG, [&] { x.insert(V(value(p, i, n))); });
      common(c, x, n, LOG); ranked(x, n, std::integral_constant<bool, RANK>());
      rec("backward traversal / n", CONST, (double)measure([&] { for (auto i = x.rbegin(), e = x.rend(); i != e; ++i); }) / n);
      for (int k = -1; k <= 2 * n; ++k) {
        one("find", LOG, [&] { (void)x.find(k); }); one("contains", LOG, [&] { (void)x.contains(k); }); one("lower_bound", LOG, [&] { (void)x.lower_bound(k); }); one("upper_bound", LOG, [&] { (void)x.upper_bound(k); }); one("equal_range", LOG, [&] { (void)x.equal_range(k); }); one("range", LOG, [&] { (void)x.range([=](int q) { ++calls; return q >= k; }, [=](int q) { ++calls; return q <= k + 7; }); }); if (dist) one("count", LOG, [&] { (void)x.count(k); }); }
      // insertion at every gap (or into every group), with and without hint; erasure of what was inserted
      double tot = 0, ctot = 0; int m = 0; long cmax = 0;
      for (int k = -1; k <= 2 * n; k += UNIQ ? 2 : 1) { typename X::iterator it; one("insert", LOG, [&] { it = x.insert(V(k)).first; }); one("erase, single", LOG, [&] { x.erase(it); }); auto h = x.upper_bound(k); tot += measure([&] { it = x.insert(h, V(k)); }); ++m; tot += measure([&] { x.erase(it); }); h = x.lower_bound(k); long c0 = calls; x.insert(h, V(k)); if (calls - c0 > cmax) cmax = calls - c0; --c0; x.erase(std::prev(x.upper_bound(k))); h = x.begin(); one("insert, wrong hint", LOG, [&] { it = x.insert(h, V(k)); }); x.erase(it); one("emplace", LOG, [&] { it = x.emplace(k).first; }); auto nh = x.extract(it); one("insert node", LOG, [&] { it = x.insert(std::move(nh)).position; }); one("extract by iterator", LOG, [&] { nh = x.extract(it); }); { auto hh = x.upper_bound(k); one("insert node with hint", LOG, [&] { it = x.insert(hh, std::move(nh)); }); } x.erase(it); }
      rec("hinted insert + erase, average", AM, tot / m); rec("comparisons of a hinted insert", SAME, (double)cmax); (void)ctot;
      // moving elements by replace / modify
      for (int j = 0; j < n; j += 1 + n / 64) for (int k : {-1, n | 1, 2 * n + 1}) { auto it = std::next(x.begin(), j); int old = it->a; one("replace to another position", LOG, [&] { x.replace(it, V(k)); }); one("modify to another position", LOG, [&] { x.modify(it, [=](V& v) { v.a = old; }); }); one("modify with rollback", LOG, [&] { x.modify(it, [=](V& v) { v.a = k; }, [=](V& v) { v.a = old; }); }); x.modify(it, [=](V& v) { v.a = old; }); }
      for (int j = 0; j + 8 <= n && dist; j += 1 + n / 64) { auto f = std::next(x.begin(), j), l = std::next(f, 8); C d; int a0 = f->a; one("erase range of 8", LOG, [&] { x.erase(f, l); }); for (int q = 0; q < 8; ++q) { d.insert(V(a0 + 2 * q)); } one("merge of 8", LOG, [&] { x.merge(d.template get<0>()); }); one("erase by key", LOG, [&] { x.erase(a0); }); C e; e.insert(V(a0)); one("splice of one", LOG, [&] { x.merge(e.template get<0>(), e.template get<0>().begin()); }); }
      { C e(c); rec("erase all from the front / n", AM, (double)measure([&] { while (!e.empty()) e.template get<0>().erase(e.template get<0>().begin()); }) / n); } { C e(c); rec("erase all from the back / n", AM, (double)measure([&] { while (!e.empty()) e.template get<0>().erase(std::prev(e.template get<0>().end())); }) / n); } { C e(c); rec("extract all / n", AM, (double)measure([&] { while (!e.empty()) e.template get<0>().extract(e.template get<0>().begin()); }) / n); }
      { C e; rec("ascending hinted construction / n", AM, (double)measure([&] { for (auto& v : c) e.template get<0>().insert(e.template get<0>().end(), v); }) / n); } { C e; rec("range of n sorted values / n", AM, (double)measure([&] { e.template get<0>().insert(c.begin(), c.end()); }) / n); }
      if (x.size() != (std::size_t)0 && dist) { C a(c), b; for (int i = 0; i < n; ++i) b.insert(V(2 * i + 1)); rec("merge of n / n", LOG, (double)measure([&] { a.template get<0>().merge(b.template get<0>()); }) / n); }
    }
    judge(); }
}
template <class C, bool UNIQ, bool BAD> static void hashed(const char* nm) {
  for (int p = 0; p < NPAT + 1; ++p) { bool sparse = p == NPAT; if ((UNIQ && p >= DISTINCT && !sparse) || (BAD && p != EQUAL && p != GROUPS)) continue; if (!mini::next()) continue; ++mini::states; cname = nm; pattern = p;
    for (phase_ = 0; phase_ < 2; ++phase_) { int n = sizes[phase_]; C c; auto& x = c.template get<0>(); bool dist = p < DISTINCT;
      if (!sparse) rec("insertion while building / n", CONST, (double)measure([&] { for (int i = 0; i < n; ++i) x.insert(V(value(p, i, n))); }) / n);
      if (sparse) { x.rehash(n * 2); for (int i = 0; i < n; ++i) x.insert(V(2 * i)); for (int i = 0; i < n; ++i) if (i != n / 3 && i != n / 2) x.erase(2 * i); one("begin, ++, end of a sparse index", CONST, [&] { for (auto i = x.begin(); i != x.end(); ++i); }); one("erase from a sparse index", CONST, [&] { x.erase(x.begin()); }); one("insert into a sparse index", CONST, [&] { x.insert(V(1)); }); one("copy of few elements, iteration", CONST, [&] { auto e = x.equal_range(1); (void)e; }); continue; }
      common(c, x, n, !UNIQ && (p == EQUAL || p == GROUPS) ? LIN : CONST); // known finding: modify walks the whole group of equivalent elements
      double tf = 0, te = 0, ti = 0, ts = 0, tc = 0, tn = 0, tl = 0, tm = 0; int m = 0;
      for (int k = dist ? -1 : 0; k < (dist ? 2 * n : p == PAIRS ? n : 8); ++k) { ++m; tf += measure([&] { (void)x.find(k); (void)x.contains(k); }); te += measure([&] { (void)x.equal_range(k); }); if (dist || p == PAIRS) tc += measure([&] { (void)x.count(k); }); if (UNIQ && x.contains(k)) continue; auto it = x.end(); ti += measure([&] { it = x.insert(V(k)).first; }); tl += measure([&] { (void)x.local_iterator_to(*it); (void)x.bucket(k); }); int old = it->a; tm += measure([&] { x.modify(it, [](V& v) { v.a = 9000001; }); }); tm += measure([&] { x.replace(it, V(old)); }); typename C::node_type nh; tn += measure([&] { nh = x.extract(it); }); tn += measure([&] { it = x.insert(std::move(nh)).position; }); auto h = x.begin(); (void)h; ts += measure([&] { x.erase(it); }); }
      rec("find", CONST, tf / m); rec("equal_range", CONST, te / m); rec("count", CONST, tc / m); rec("insert", CONST, ti / m); rec("erase", CONST, ts / m); rec("extract and insert a node", CONST, tn / m); rec("local_iterator_to, bucket", CONST, tl / m); rec("modify, replace to another key", CONST, tm / m);
      // erasing from the middle of a group must not depend on its size
      double t = 0; for (int j = 0; j < n; j += 1 + n / 64) { auto it = std::next(x.begin(), j); int a = it->a; t += measure([&] { x.erase(it); }); t += measure([&] { x.insert(V(a)); }); } rec("erase and insert back, anywhere", CONST, t / (n / (1 + n / 64)));
      { C e(c); rec("erase all from the front / n", CONST, (double)measure([&] { while (!e.empty()) e.template get<0>().erase(e.template get<0>().begin()); }) / n); } { C e(c); rec("erase all, every other / n", CONST, (double)measure([&] { auto& y = e.template get<0>(); for (auto i = y.begin(); i != y.end();) { i = y.erase(i); if (i != y.end()) ++i; } }) / n); }
      { C e(c); rec("erase by key of all / n", CONST, (double)measure([&] { for (int k = 0; k < 2 * n; ++k) e.template get<0>().erase(k); }) / n); }
      if (dist || p == GROUPS || p == EQUAL || p == PAIRS) { C e(c); rec("rehash / n", CONST, (double)measure([&] { e.template get<0>().rehash(4 * n); }) / n); rec("reserve / n", CONST, (double)measure([&] { e.template get<0>().reserve(9 * n); }) / n); rec("shrinking rehash / n", CONST, (double)measure([&] { e.template get<0>().rehash(0); }) / n); }
      if (!BAD && (dist || p == PAIRS)) { C e(c); rec("comparison / n", CONST, (double)measure([&] { (void)(e.template get<0>() == x); }) / n); }
      { C e, f(c); rec("merge of n / n", CONST, (double)measure([&] { e.template get<0>().merge(f.template get<0>()); }) / n); }
      { C e; rec("range insertion / n", CONST, (double)measure([&] { e.template get<0>().insert(x.begin(), x.end()); }) / n); }
      if (!BAD) { auto lb = 0.0; for (std::size_t b = 0; b < x.bucket_count(); ++b) lb += measure([&] { for (auto i = x.begin(b), e = x.end(b); i != e; ++i); }); rec("iteration over all buckets / n", CONST, lb / n); }
    }
    judge(); }
}
struct VEq { bool operator()(const V& x, const V& y) const { ++calls; return x.a == y.a; } }; struct VLess { bool operator()(const V& x, const V& y) const { ++calls; return x.a < y.a; } };
template <class C> static void sequenced_(const char* nm) {
  if (!mini::next()) return; ++mini::states; cname = nm; pattern = 0;
  for (phase_ = 0; phase_ < 2; ++phase_) { int n = sizes[phase_]; C c; auto& x = c.template get<0>(); for (int i = 0; i < n; ++i) one("push_back", CONST, [&] { x.push_back(V((int)((long)i * 37 % n))); });
    common(c, x, n); one("front, back", CONST, [&] { (void)x.front(); (void)x.back(); });
    C d; auto& y = d.template get<0>();
    for (int j = 0; j <= n; j += 1 + n / 64) { auto p = std::next(x.begin(), j); auto it = p;
      one("insert", CONST, [&] { it = x.insert(p, V(5)).first; }); one("relocate", CONST, [&] { x.relocate(x.begin(), it); }); one("relocate", CONST, [&] { x.relocate(p, it); }); typename C::node_type nh; one("extract", CONST, [&] { nh = x.extract(it); }); one("insert node", CONST, [&] { it = x.insert(p, std::move(nh)).position; }); one("splice of one", CONST, [&] { y.splice(y.end(), x, it); }); one("splice of one", CONST, [&] { x.splice(p, y, y.begin()); }); it = std::prev(p); one("erase", CONST, [&] { x.erase(it); });
      if (j + 6 <= n) { auto l = std::next(p, 6); one("splice of six", CONST, [&] { y.splice(y.end(), x, p, l); }); one("splice of six back", CONST, [&] { x.splice(l, y); }); auto f = std::next(x.begin(), j); one("relocate six", CONST, [&] { x.relocate(x.end(), f, l); }); } 
      one("push_front, pop_front, pop_back", CONST, [&] { x.push_front(V(1)); x.push_back(V(2)); x.pop_front(); x.pop_back(); }); }
    if (n > 8) one("relocate of n/2 elements", CONST, [&] { auto h = x.begin(); long s = rt::derefs; for (int i = 0; i < 3; ++i) ++h; (void)s; x.relocate(x.begin(), h, x.end()); });
    rec("reverse / n", CONST, (double)measure([&] { x.reverse(); }) / n); rec("sort", NLOGN, (double)measure([&] { x.sort(VLess()); })); { C e(c); e.template get<0>().sort(VLess()); rec("merge / n", CONST, (double)measure([&] { x.merge(e.template get<0>(), VLess()); }) / n); } rec("unique / n", CONST, (double)measure([&] { x.unique(VEq()); }) / n); rec("remove_if / n", CONST, (double)measure([&] { x.remove_if([](const V& v) { ++calls; return v.a & 1; }); }) / n);
    { std::vector<std::reference_wrapper<const V>> o; for (auto& v : x) o.insert(o.begin(), std::cref(v)); rec("rearrange / n", CONST, (double)measure([&] { x.rearrange(o.begin()); }) / n); }
  }
  judge();
}
template <class C> static void random_(const char* nm) {
  if (!mini::next()) return; ++mini::states; cname = nm; pattern = 0;
  for (phase_ = 0; phase_ < 2; ++phase_) { int n = sizes[phase_]; C c; auto& x = c.template get<0>(); rec("push_back / n", CONST, (double)measure([&] { for (int i = 0; i < n; ++i) x.push_back(V((int)((long)i * 37 % n))); }) / n);
    common(c, x, n); C d; auto& y = d.template get<0>(); x.reserve(n + 20); y.reserve(20);
    for (int j = 0; j < n; j += 1 + n / 64) { one("operator[], at, +, -, iterator differences", CONST, [&] { auto i = x.begin() + j; (void)x[j]; (void)x.at(j); (void)(x.end() - i); (void)(i - 0); (void)*(x.end() - (n - j)); (void)(i < x.end()); });
      one("insert, distance linear", LIN, [&] { x.insert(x.begin() + j, V(5)); }); one("erase, distance linear", LIN, [&] { x.erase(x.begin() + j); }); if (j + 4 < n) one("relocate by 3", CONST, [&] { x.relocate(x.begin() + j, x.begin() + j + 3); }); if (j + 6 < n) one("relocate range near", CONST, [&] { x.relocate(x.begin() + j, x.begin() + j + 3, x.begin() + j + 6); }); }
    for (int k = 0; k < 4; ++k) { one("insert near the end", CONST, [&] { x.insert(x.end() - k, V(1)); }); one("erase near the end", CONST, [&] { x.erase(x.end() - 1 - k); }); typename C::node_type nh; one("extract near the end", CONST, [&] { nh = x.extract(x.end() - 1 - k); }); one("insert node near the end", CONST, [&] { x.insert(x.end() - k, std::move(nh)); }); one("push_back, pop_back with capacity", CONST, [&] { x.push_back(V(2)); x.pop_back(); }); one("splice of one near the ends", CONST, [&] { y.splice(y.end(), x, x.end() - 1 - k); x.splice(x.end() - k, y, y.begin()); }); }
    rec("erase range of half", QUAD, (double)measure([&] { x.erase(x.begin() + n / 4, x.begin() + n / 2); })); { C e(c); rec("insert range in front / n", CONST, (double)measure([&] { x.insert(x.begin(), e.begin(), e.end()); }) / n); } { C e(c); rec("splice all in front", QUAD, (double)measure([&] { x.splice(x.begin(), e.template get<0>()); })); }
    rec("reserve, shrink / n", CONST, (double)measure([&] { x.reserve(5 * n); x.shrink_to_fit(); }) / n); one("reserve, shrink without change", CONST, [&] { x.reserve(n / 2); x.shrink_to_fit(); });
    rec("reverse / n", CONST, (double)measure([&] { x.reverse(); }) / n); rec("sort", NLOGN, (double)measure([&] { x.sort(VLess()); })); { C e(c); e.template get<0>().sort(VLess()); rec("merge", QUAD, (double)measure([&] { x.merge(e.template get<0>(), VLess()); })); } rec("unique", QUAD, (double)measure([&] { x.unique(VEq()); })); rec("remove_if", QUAD, (double)measure([&] { x.remove_if([](const V& v) { ++calls; return v.a & 1; }); })); { std::vector<std::reference_wrapper<const V>> o; for (auto& v : x) o.insert(o.begin(), std::cref(v)); rec("rearrange / n", CONST, (double)measure([&] { x.rearrange(o.begin()); }) / n); }
  }
  judge();
}
// amortisation far beyond the two sizes above: the average cost of building, at every power of two
template <class C, class F> static void growth(const char* nm, int cls, F ins) {
  if (!mini::next()) return; ++mini::states; mini::say(nm); C c; long t = 0; double base = 0; int n = mini::bound[1] ? mini::bound[1] : 1 << 16;
  for (int i = 0, m = 64; i < n; ++i) {
    t += measure([&] { ins(c, (int)((long)i * 37 % 65536) + (i >> 16)); });
    if (i + 1 == m) { double a = (double)t / m, lim = cls == CONST ? 2 * base + 30 : 3 * base + 40; ++mini::checks; if (m <= 1024) { if (a > base) base = a; } else MCHECK(a <= lim, "%s: building takes %.1f steps for each of %d elements, and at most %.1f for each of 1024: more than %s", nm, a, m, base, CN[cls]); if (getenv("VERIF_COST")) printf("%s %d %.1f\n", nm, m, a); m *= 2; }
  }
}
template <class... I> using C1 = multi_index_container<V, indexed_by<I...>, A>;
static void body() {
  mini::section = "complexity"; if (mini::bound[0]) { sizes[0] = mini::bound[0]; sizes[1] = 16 * mini::bound[0]; }
  ordered<C1<ordered_unique<Key, Cmp>>, false, true>("ordered_unique"); ordered<C1<ordered_non_unique<Key, Cmp>>, false, false>("ordered_non_unique"); ordered<C1<ranked_unique<Key, Cmp>>, true, true>("ranked_unique"); ordered<C1<ranked_non_unique<Key, Cmp>>, true, false>("ranked_non_unique");
  hashed<C1<hashed_unique<Key, Hs, Eq>>, true, false>("hashed_unique"); hashed<C1<hashed_non_unique<Key, Hs, Eq>>, false, false>("hashed_non_unique"); hashed<C1<hashed_non_unique<Key, HsBad, Eq>>, false, true>("hashed_non_unique, one bucket, few keys");
  sequenced_<C1<sequenced<>>>("sequenced"); random_<C1<random_access<>>>("random_access");
  ordered<C1<ordered_non_unique<Key, Cmp>, ranked_non_unique<Key, Cmp>, sequenced<>>, false, false, LOG>("ordered + ranked + sequenced"); hashed<C1<hashed_non_unique<Key, Hs, Eq>, sequenced<>, hashed_non_unique<Key, Hs, Eq>>, false, false>("hashed + sequenced + hashed"); sequenced_<C1<sequenced<>, sequenced<>>>("sequenced + sequenced");
  auto back = [](auto& c, int v) { c.push_back(V(v)); }; auto insert = [](auto& c, int v) { c.insert(V(v)); }; auto at_end = [](auto& c, int) { c.insert(c.end(), V((int)c.size())); };
  growth<C1<random_access<>>>("growth of random_access", CONST, back); growth<C1<sequenced<>>>("growth of sequenced", CONST, back); growth<C1<random_access<>, sequenced<>, random_access<>>>("growth of random_access + sequenced + random_access", CONST, back);
  growth<C1<hashed_unique<Key, Hs, Eq>>>("growth of hashed_unique", CONST, insert); growth<C1<hashed_non_unique<Key, Hs, Eq>, random_access<>>>("growth of hashed_non_unique + random_access", CONST, insert);
  growth<C1<ordered_unique<Key, Cmp>>>("growth of ordered_unique", LOG, insert); growth<C1<ordered_non_unique<Key, Cmp>, random_access<>>>("growth of ordered_non_unique at the end + random_access", CONST, at_end); growth<C1<ranked_non_unique<Key, Cmp>>>("growth of ranked_non_unique", LOG, insert);
  growth<C1<random_access<>, hashed_unique<Key, Hs, Eq>, ranked_unique<Key, Cmp>>>("growth of random_access + hashed_unique + ranked_unique", LOG, back);
  mini::say("ranked_non_unique, all elements equal: nth, rank, count at every position with 64 and 1024 elements");
}
int main(int c, char** v) { return mini::main_(c, v, body); }
