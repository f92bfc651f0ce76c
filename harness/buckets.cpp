// Hashed indices at every bucket count the table of bucket counts reaches below the bound: adjacent counts (the next, the previous,
// by rehash, by reserve, by growth, with failing allocation), and keys placed at and around the ends of the bucket array and at
// multiples of the bucket count, against the arithmetic of the documentation.
#include "mini.hpp"
#include <algorithm>
#include <iterator>
#include <set>
#include <vector>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/identity.hpp>
using namespace boost::multi_index;
typedef size_t K; typedef std::vector<K> V; typedef identity<K> Id;
struct Hs { size_t operator()(K k) const { return k; } };
static size_t limit = ~size_t(0) / 4; static long live, big;   // largest block granted
template <class X> struct Al { typedef X value_type; Al() {} template <class Y> Al(const Al<Y>&) {} X* allocate(size_t n) { if (n > limit / sizeof(X)) throw std::bad_alloc(); if (n > 20) ++big; ++live; return std::allocator<X>().allocate(n); } void deallocate(X* p, size_t n) { --live; std::allocator<X>().deallocate(p, n); } template <class Y> bool operator==(const Al<Y>&) const { return true; } template <class Y> bool operator!=(const Al<Y>&) const { return false; } };
static char what[128];
template <class C> static void check(const C& c, const V& m, bool whole) {
  size_t bc = c.bucket_count(), n = 0; MCHECK(c.size() == m.size(), "%s: %zu elements, expected %zu", what, c.size(), m.size());
  MCHECK(c.load_factor() == (float)c.size() / bc && bc <= c.max_bucket_count(), "%s: load factor", what);
  std::vector<K> e(c.begin(), c.end()), s(m); std::sort(e.begin(), e.end()); std::sort(s.begin(), s.end()); MCHECK(e == s, "%s: the elements are not those inserted", what);
  for (size_t i = 0; i < s.size(); ++i) {
    K k = s[i]; size_t b = c.bucket(k); MCHECK(b < bc, "%s: bucket(%zu) is %zu, there are %zu buckets", what, k, b, bc);
    auto r = c.equal_range(k); size_t q = std::upper_bound(s.begin(), s.end(), k) - std::lower_bound(s.begin(), s.end(), k); MCHECK((size_t)std::distance(r.first, r.second) == q && c.count(k) == q && *c.find(k) == k, "%s: element %zu is not found %zu time(s)", what, k, q);
    size_t in = 0, sz = 0; for (auto l = c.begin(b); l != c.end(b); ++l, ++sz) in += *l == k; MCHECK(in == q && sz == c.bucket_size(b), "%s: bucket %zu of %zu holds %zu %zu time(s), expected %zu", what, b, bc, k, in, q);
    n += q;
  }
  if (whole) { size_t t = 0, ne = 0; for (size_t b = 0; b < bc; ++b) { size_t z = c.bucket_size(b); t += z; ne += z == 0; } MCHECK(t == m.size(), "%s: the buckets hold %zu elements", what, t); }
  for (K k : {K(12345), K(0) - 7, bc * 5 + 3}) MCHECK(c.count(k) == (size_t)std::count(m.begin(), m.end(), k) && c.bucket(k) < bc, "%s: absent key", what);
}
template <class C> static void at(size_t& want, bool uniq) {   // a container with the smallest bucket count not below want
  C c; auto& h = c; V m; h.rehash(want); size_t bc = h.bucket_count(); snprintf(what, sizeof what, "%s, %zu buckets", uniq ? "unique" : "non-unique", bc); mini::say(what);
  MCHECK(bc >= want, "rehash(%zu) gives %zu buckets", want, bc); bool small = bc < 300000;
  V keys; for (K q : {K(0), K(1), K(2), K(7), K(0) / 2 - K(1)}) for (K j : {K(0), K(1), bc / 2, bc - 1}) keys.push_back(q == K(0) - 1 ? q - j : q * bc + j);
  std::sort(keys.begin(), keys.end()); keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
  for (K k : keys) for (int d = 0; d < 2; ++d) { bool has = std::count(m.begin(), m.end(), k); auto r = h.insert(k); MCHECK(r.second == !(uniq && has) && *r.first == k, "%s: insert(%zu)", what, k); if (r.second) m.push_back(k); }
  check(h, m, small); MCHECK(h.bucket_count() == bc || m.size() > bc, "%s: rehashed by %zu elements", what, m.size()); ++mini::states;
  // the same bucket count by other ways
  { C d; d.reserve(bc); MCHECK(d.bucket_count() >= bc, "%s: reserve(%zu) gives %zu buckets", what, bc, d.bucket_count()); C e; e.max_load_factor(0.5f); e.reserve(bc / 2); MCHECK(e.bucket_count() >= bc / 2 * 2, "%s: reserve with a maximum load factor of 0.5", what); C f(c); MCHECK(f.max_load_factor() == 1.0f, "%s: copy", what); check(f, m, small); f.rehash(0); check(f, m, true); swap(d, f); check(d, m, true); d = c; check(d, m, small); }
  // the next one, there and back, and by failing
  { size_t up = bc + 1; c.rehash(up); size_t nb = c.bucket_count(); MCHECK(nb >= up, "%s: rehash(%zu) gives %zu buckets", what, up, nb); check(c, m, small); V o(c.begin(), c.end()); c.rehash(bc); size_t b2 = c.bucket_count(); MCHECK(b2 >= bc && b2 >= m.size() / c.max_load_factor(), "%s: back from %zu buckets", what, nb); check(c, m, small); 
    V bef(c.begin(), c.end()); size_t cnt = c.bucket_count(); limit = cnt * sizeof(void*) + 16; size_t l0 = live; for (size_t t : {nb * 2, nb * 16, ~size_t(0) / 2, ~size_t(0) - 58, ~size_t(0)}) { bool thrown = false; try { c.rehash(t); } catch (const std::bad_alloc&) { thrown = true; } catch (const std::length_error&) { thrown = true; } MCHECK(thrown && c.bucket_count() == cnt && V(c.begin(), c.end()) == bef && (size_t)live == l0, "%s: rehash(%zu) without memory", what, t); } limit = ~size_t(0) / 4; check(c, m, small); }
  while (!m.empty()) { K k = m[m.size() / 2]; size_t q = std::count(m.begin(), m.end(), k); MCHECK(h.erase(k) == q, "%s: erase(%zu)", what, k); m.erase(std::remove(m.begin(), m.end(), k), m.end()); if (m.size() % 5 == 0) check(h, m, false); }
  check(h, m, small); want = bc + 1;
}
template <class C> static void grow(size_t n, size_t step, bool uniq) {   // by insertion alone, with growth checked where it happens
  C c; V m; size_t bc = c.bucket_count(), l0 = live; snprintf(what, sizeof what, "%s, growing to %zu by %zu", uniq ? "unique" : "non-unique", n, step); mini::say(what);
  for (size_t i = 0; i < n; ++i) { K k = i / (uniq ? 1 : 3) * step; c.insert(k); m.push_back(k); MCHECK(c.size() <= c.max_load_factor() * c.bucket_count(), "%s: %zu elements in %zu buckets", what, c.size(), c.bucket_count()); if (c.bucket_count() != bc) { MCHECK(c.bucket_count() > bc, "%s: the bucket count shrinks", what); bc = c.bucket_count(); check(c, m, true); ++mini::states; } }
  check(c, m, true); { C d; d.reserve(n); long b = big; size_t bd = d.bucket_count(); for (K k : m) d.insert(k); MCHECK(big == b && d.bucket_count() == bd, "%s: rehashed below the reserved number of elements", what); check(d, m, true); MCHECK(d == c && !(d != c), "%s: containers of different history are not equal", what); }
  c.clear(); m.clear(); check(c, m, true);
}
template <class C> static void load(size_t n, float f) {   // reserve and insert without rehashing, at maximum load factor f; the factor is kept and never exceeded
  snprintf(what, sizeof what, "%zu elements, maximum load factor %g", n, f); if (n % 50 == 0) mini::say(what); C c; c.max_load_factor(f); MCHECK(c.max_load_factor() == f, "%s: max_load_factor()", what); c.reserve(n); size_t b = c.bucket_count(); MCHECK(b * f * 1.000001 >= n, "%s: reserve gives %zu buckets", what, b);
  for (size_t i = 0; i < n; ++i) { c.insert(i); MCHECK(c.bucket_count() == b, "%s: after reserve the insertion of element %zu rehashes, from %zu to %zu buckets", what, i + 1, b, c.bucket_count()); }
  c.rehash(0); MCHECK(c.load_factor() <= f * 1.000001, "%s: load factor %g after rehash(0)", what, c.load_factor()); size_t b0 = c.bucket_count(); C d; d.max_load_factor(f); for (size_t i = 0; i < n; ++i) { d.insert(i); MCHECK(d.load_factor() <= f * 1.000001, "%s: load factor %g after %zu insertions", what, d.load_factor(), i + 1); } MCHECK(d == c && d.bucket_count() >= b0, "%s: contents", what); C e(c); MCHECK(e.max_load_factor() == f && e.load_factor() <= f * 1.000001 && e == c, "%s: copy", what);
  c.max_load_factor(f / 2); MCHECK(c.max_load_factor() == f / 2 && c.size() == n, "%s: lower maximum load factor", what); c.insert(n); MCHECK(c.load_factor() <= f / 2 * 1.000001 && c.count(n) == 1, "%s: load factor %g, maximum lowered to half", what, c.load_factor()); ++mini::states;
}
typedef multi_index_container<K, indexed_by<hashed_unique<Id, Hs>>, Al<K>> U; typedef multi_index_container<K, indexed_by<hashed_non_unique<Id, Hs>, sequenced<>>, Al<K>> Q;
int main(int argc, char** argv) {
  return mini::main_(argc, argv, [] {
    size_t N = mini::bound[0] ? (size_t)mini::bound[0] * 1000 : 1000000, G = mini::bound[1] ? mini::bound[1] * 1000 : 20000; long base = live;
    for (size_t w = 0; w < N;) { if (!mini::next()) { U c; c.rehash(w); w = c.bucket_count() + 1; continue; } mini::section = "bucket counts"; size_t w2 = w; at<U>(w, true); at<Q>(w2, false); MCHECK(w == w2, "bucket counts of unique and non-unique indices differ: %zu, %zu", w, w2); }
    for (size_t n = 1; n < G; n = n * 3 + 1) for (size_t s : {1, 53, 97, 1024}) { if (!mini::next()) continue; mini::section = "growth"; grow<U>(n, s, true); grow<Q>(n, s, false); }
    for (float f : {0.1f, 0.25f, 0.3f, 0.5f, 0.6f, 0.7f, 0.75f, 0.8f, 0.9f, 0.99f, 1.0f, 1.01f, 1.1f, 1.25f, 1.3f, 1.5f, 1.7f, 2.0f, 2.5f, 3.0f, 7.0f}) { if (!mini::next()) continue; mini::section = "maximum load factors"; size_t M = mini::bound[2] ? mini::bound[2] : 300; for (size_t n = 0; n <= M; ++n) { load<U>(n, f); if (n % 7 == 0) load<Q>(n, f); } }
    MCHECK(live == base, "memory is leaked");
  });
}
