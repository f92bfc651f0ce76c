// Containers of sizes around 2^16 (and beyond): every position and every key of a container of each index kind, after building in
// several orders, erasing a part, and inserting again, against arithmetic.  Counters and positions of too small a type show here.
#include "mini.hpp"
#include <algorithm>
#include <iterator>
#include <numeric>
#include <vector>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/multi_index/member.hpp>
using namespace boost::multi_index;
typedef std::vector<int> V; static char what[160];
static int value(int p, int i, int n) { return p == 0 ? i : p == 1 ? n - 1 - i : p == 2 ? (int)((long)i * 40503 % n) : p == 3 ? (i & 1 ? n - 1 - i / 2 : i / 2) : 7; }   // all but the last pattern give 0..n-1 in some order if n is prime to 40503
static void name(const char* k, int p, int n) { snprintf(what, sizeof what, "%s, %d elements, pattern %d", k, n, p); mini::say(what); ++mini::states; }
template <class X> static void ranks(const X& x, const V& m) {   // m: the elements in order
  size_t n = m.size(), r = 0; MCHECK(x.size() == n, "%s: size() is %zu, expected %zu", what, x.size(), n);
  for (auto i = x.begin(); i != x.end(); ++i, ++r) { MCHECK(r < n && *i == m[r], "%s: position %zu", what, r); MCHECK(x.rank(i) == r && x.nth(r) == i, "%s: rank %zu, nth at position %zu", what, (size_t)x.rank(i), r); }
  MCHECK(r == n && x.rank(x.end()) == n && x.nth(n) == x.end() && x.nth(n + 65536) == x.end(), "%s: rank and nth of the end", what);
  for (size_t a = 0; a < n;) { size_t b = a; while (b < n && m[b] == m[a]) ++b; int k = m[a]; MCHECK(x.count(k) == b - a && x.lower_bound_rank(k) == a && x.upper_bound_rank(k) == b && x.find_rank(k) >= a && x.find_rank(k) < b, "%s: ranks of key %d", what, k); a = b; }
  MCHECK(x.find_rank(-5) == n && x.count(-5) == 0 && x.lower_bound_rank(1 << 30) == n, "%s: ranks of an absent key", what);
}
template <class C> static void ranked(int n) {
  for (int p = 0; p < 5; ++p) { if (!mini::next()) continue; name("ranked", p, n); C c; V m; for (int i = 0; i < n; ++i) { int v = value(p, i, n); c.insert(v); m.push_back(v); } std::sort(m.begin(), m.end()); ranks(c, m);
    C d(c); ranks(d, m); for (size_t i = 0; i < m.size(); i += 2) { c.erase(c.nth(i)); m.erase(m.begin() + i); i -= 1; if (i > 2 * 3000) break; } ranks(c, m);
    c.erase(c.nth(5), c.nth(m.size() - 5)); m.erase(m.begin() + 5, m.end() - 5); ranks(c, m); c.merge(d); ranks(d, V(d.begin(), d.end())); ranks(c, V(c.begin(), c.end())); MCHECK(std::is_sorted(c.begin(), c.end()), "%s: order after merge", what); }
}
struct Hs { size_t operator()(int x) const { return (size_t)x * 2654435761u; } };
template <class C> static void hashed(int n, bool uniq) {
  for (int p = 0; p < 6; ++p) { if (uniq && p == 4) continue; if (!mini::next()) continue; name("hashed", p, n); C c; std::vector<int> cnt(n + 8); size_t t = 0; auto val = [&](int i) { return p == 5 ? i / 3 : value(p, i, n); };
    auto check = [&] { size_t s = 0; MCHECK(c.size() == t, "%s: size() is %zu, expected %zu", what, c.size(), t); std::vector<int> seen(n + 8); int last = -1; for (int v : c) { MCHECK(v == last || !seen[v], "%s: the group of %d is split", what, v); ++seen[v]; last = v; ++s; } MCHECK(s == t && seen == cnt, "%s: elements", what);
      for (int k = 0; k < n; ++k) if (cnt[k] < 1000 || k == 7) { MCHECK((int)c.count(k) == cnt[k], "%s: count(%d)", what, k); auto r = c.equal_range(k); MCHECK(std::distance(r.first, r.second) == cnt[k] && (cnt[k] == 0) == (c.find(k) == c.end()), "%s: lookup of %d", what, k); MCHECK(c.bucket(k) < c.bucket_count(), "%s: bucket", what); }
      MCHECK(c.load_factor() <= c.max_load_factor(), "%s: load factor", what); };
    for (int i = 0; i < n; ++i) { int v = val(i); if (c.insert(v).second) { ++cnt[v]; ++t; } else MCHECK(uniq && cnt[v] == 1, "%s: insert(%d) fails", what, v); } check();
    C d(c); MCHECK(d == c, "%s: copy", what); c.rehash(3 * n); check(); c.rehash(0); check(); for (int k = 0; k < n; k += 3) { size_t e = c.erase(k); MCHECK((int)e == cnt[k], "%s: erase(%d) gives %zu", what, k, e); t -= e; cnt[k] = 0; } check(); c.clear(); t = 0; std::fill(cnt.begin(), cnt.end(), 0); check(); }
}
template <class X> static void seq(const X& x, const V& m) { MCHECK(x.size() == m.size(), "%s: size() is %zu, expected %zu", what, x.size(), m.size()); MCHECK(std::equal(x.begin(), x.end(), m.begin(), m.end()) && std::equal(x.rbegin(), x.rend(), m.rbegin(), m.rend()), "%s: sequence", what); }
template <class X> static void pos(const X& x, const V& m, std::true_type) { for (size_t i = 0; i < m.size(); ++i) { MCHECK(x[i] == m[i] && x.at(i) == m[i] && x.begin() + i == x.iterator_to(x[i]) && x.iterator_to(x[i]) - x.begin() == (long)i && x.end() - x.iterator_to(x[i]) == (long)(m.size() - i), "%s: position %zu", what, i); } bool thrown = false; try { (void)x.at(m.size()); } catch (const std::out_of_range&) { thrown = true; } MCHECK(thrown && x.capacity() >= x.size(), "%s: at(size())", what); }
template <class X> static void pos(const X&, const V&, std::false_type) {}
template <class C, bool R> static void list(int n) {
  typedef std::integral_constant<bool, R> T;
  for (int p = 0; p < 5; ++p) { if (!mini::next()) continue; name(R ? "random access" : "sequenced", p, n); C c; V m; auto less = [](int a, int b) { return a / 4 < b / 4; };
    auto chk = [&] { seq(c, m); pos(c, m, T()); };
    for (int i = 0; i < n; ++i) { int v = value(p, i, n); c.push_back(v); m.push_back(v); } chk(); C d(c); seq(d, m); V md(m.begin(), m.begin() + std::min((int)m.size(), R ? 2000 : n)); if (R) { d.resize(md.size()); } seq(d, md);
    c.sort(less); std::stable_sort(m.begin(), m.end(), less); chk(); c.reverse(); std::reverse(m.begin(), m.end()); chk();
    c.relocate(c.begin(), std::next(c.begin(), n / 2), c.end()); std::rotate(m.begin(), m.begin() + n / 2, m.end()); chk(); c.remove_if([](int v) { return v % 5 == 1; }); m.erase(std::remove_if(m.begin(), m.end(), [](int v) { return v % 5 == 1; }), m.end()); chk();
    c.unique([](int a, int b) { return a / 3 == b / 3; }); m.erase(std::unique(m.begin(), m.end(), [](int a, int b) { return a / 3 == b / 3; }), m.end()); chk();
    c.sort(); std::sort(m.begin(), m.end()); d.sort(); std::sort(md.begin(), md.end()); c.merge(d); { V o; std::merge(m.begin(), m.end(), md.begin(), md.end(), std::back_inserter(o)); m = o; } chk(); MCHECK(d.empty(), "%s: merge", what);
    c.resize(n + 3, 9); m.resize(n + 3, 9); chk(); { int a = R ? n - 2000 : 3; c.erase(std::next(c.begin(), a), std::prev(c.end(), 3)); m.erase(m.begin() + a, m.end() - 3); chk(); } c.assign((size_t)n, 4); m.assign(n, 4); chk(); }
}
template <class C> static void ordered(int n, bool uniq) {
  for (int p = 0; p < (uniq ? 4 : 5); ++p) { if (!mini::next()) continue; name("ordered", p, n); C c; V m; auto chk = [&] { seq(c, m); for (size_t a = 0; a < m.size();) { size_t b = a; while (b < m.size() && m[b] == m[a]) ++b; auto r = c.equal_range(m[a]); MCHECK(*r.first == m[a] && std::distance(r.first, r.second) == (long)(b - a) && c.count(m[a]) == b - a && c.lower_bound(m[a]) == r.first && c.upper_bound(m[a]) == r.second, "%s: lookup of %d", what, m[a]); a = b; } };
    for (int i = 0; i < n; ++i) { int v = value(p, i, n); c.insert(v); m.push_back(v); } std::sort(m.begin(), m.end()); chk(); C d(c); seq(d, m); c.erase(c.begin(), std::next(c.begin(), n / 3)); m.erase(m.begin(), m.begin() + n / 3); chk(); V m0(m); for (int k = 0; k < n; k += 3) { size_t e = c.erase(k); auto r = std::equal_range(m0.begin(), m0.end(), k); MCHECK((long)e == r.second - r.first, "%s: erase(%d)", what, k); } m.erase(std::remove_if(m.begin(), m.end(), [](int v) { return v % 3 == 0; }), m.end()); chk(); }
}
typedef identity<int> I;
int main(int argc, char** argv) {
  return mini::main_(argc, argv, [] {
    mini::section = "large containers"; std::vector<int> ns = {65534, 65536, 65537}; if (mini::bound[0]) ns = {(int)mini::bound[0]}; if (mini::bound[1]) ns = {65534, 65535, 65536, 65537, 131071, 131072, 131074, (int)mini::bound[1]};
    for (int n : ns) { int w = mini::bound[2];
      if (!w || w == 2) { ordered<multi_index_container<int, indexed_by<ordered_unique<I>>>>(n, true); ordered<multi_index_container<int, indexed_by<ordered_non_unique<I>>>>(n, false); }
      if (!w || w == 3) ranked<multi_index_container<int, indexed_by<ranked_non_unique<I>>>>(n);
      if (!w || w == 4) { hashed<multi_index_container<int, indexed_by<hashed_unique<I, Hs>>>>(n, true); hashed<multi_index_container<int, indexed_by<hashed_non_unique<I, Hs>>>>(n, false); }
      if (!w || w == 5) list<multi_index_container<int, indexed_by<sequenced<>>>, false>(n);
      if (!w || w == 6) list<multi_index_container<int, indexed_by<random_access<>>>, true>(n);
    }
  });
}
