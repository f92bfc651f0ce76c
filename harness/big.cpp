// Copying (--b2=1) and archiving (--b2=2) of containers larger than the state exploration reaches, with the indices in families of
// permutations of each other: every stride modulo every size, rotations, reversals, blocks, and groups of equivalent elements.
#include "mini.hpp"
#include <algorithm>
#include <iterator>
#include <numeric>
#include <sstream>
#include <vector>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/ref.hpp>
using namespace boost::multi_index;
struct E { int id, g; E(int i = 0, int g_ = 0) : id(i), g(g_) {} bool operator==(const E& o) const { return id == o.id && g == o.g; } template <class A> void serialize(A& a, unsigned) { a & BOOST_SERIALIZATION_NVP(id) & BOOST_SERIALIZATION_NVP(g); } };
typedef multi_index_container<E, indexed_by<sequenced<>, random_access<>, ordered_non_unique<member<E, int, &E::g>>, hashed_non_unique<member<E, int, &E::g>>, ranked_non_unique<member<E, int, &E::g>>, sequenced<>>> C;
typedef std::vector<int> P;
static char what[160];
template <class X> static std::vector<E> seq(const X& x) { std::vector<E> v(x.begin(), x.end()), b; for (auto i = x.end(); i != x.begin();) b.push_back(*--i); std::reverse(b.begin(), b.end()); MCHECK(b == v && v.size() == x.size(), "%s: traversal in both directions", what); return v; }
static std::vector<E> bag(const C& c) { auto& h = c.get<3>(); std::vector<E> v(h.begin(), h.end()); for (size_t i = 1; i < v.size(); ++i) MCHECK(v[i].g == v[i - 1].g || h.count(v[i].g) == 1 || [&] { size_t n = 0; for (size_t j = i; j < v.size() && v[j].g == v[i].g; ++j) ++n; return n == h.count(v[i].g); }(), "%s: a group of the hashed index is split", what); std::sort(v.begin(), v.end(), [](const E& a, const E& b) { return a.id < b.id; }); return v; }
static void same(const C& a, const C& b, const char* how) {
  MCHECK(a.size() == b.size(), "%s, %s: size", what, how); MCHECK(seq(a.get<0>()) == seq(b.get<0>()), "%s, %s: order of index 0", what, how); MCHECK(seq(a.get<1>()) == seq(b.get<1>()), "%s, %s: order of index 1", what, how); MCHECK(seq(a.get<2>()) == seq(b.get<2>()), "%s, %s: order of index 2", what, how); MCHECK(bag(a) == bag(b), "%s, %s: index 3", what, how); MCHECK(seq(a.get<4>()) == seq(b.get<4>()), "%s, %s: order of index 4", what, how); MCHECK(seq(a.get<5>()) == seq(b.get<5>()), "%s, %s: order of index 5", what, how);
  auto& r = a.get<1>(); for (size_t i = 0; i < r.size(); i += 1 + r.size() / 7) MCHECK(r.iterator_to(r[i]) - r.begin() == (long)i, "%s, %s: random access position", what, how); auto& k = a.get<4>(); for (size_t i = 0; i < k.size(); i += 1 + k.size() / 7) MCHECK(k.rank(k.nth(i)) == i, "%s, %s: rank", what, how);
  MCHECK(a.get<0>() == b.get<0>() && a.get<1>() == b.get<1>() && a.get<2>() == b.get<2>() && a.get<3>() == b.get<3>() && a.get<4>() == b.get<4>(), "%s, %s: comparison", what, how);
}
static void arrange(C& c, const P& p1, const P& p5) {
  auto to = [&](auto& x, const P& p) { std::vector<const E*> v(c.size()); for (auto& e : c.get<0>()) v[e.id] = &e; std::vector<boost::reference_wrapper<const E>> w; for (int i : p) w.push_back(boost::cref(*v[i])); x.rearrange(w.begin()); };
  to(c.get<1>(), p1); to(c.get<5>(), p5);
}
template <class O, class I> static void archive(const C& c, const char* how) {
  std::stringstream s; std::vector<int> its; { O oa(s); oa << c; for (auto i = c.get<1>().begin(); i != c.get<1>().end(); std::advance(i, std::min<long>(7, c.get<1>().end() - i))) { const auto k = i; oa << k; } }
  for (int full = 0; full < 2; ++full) { s.clear(); s.seekg(0); C d; if (full) for (int i = 0; i < 50; ++i) d.push_back(E(i, i)); I ia(s); ia >> d; same(d, c, how); for (auto i = c.get<1>().begin(); i != c.get<1>().end(); std::advance(i, std::min<long>(7, c.get<1>().end() - i))) { C::nth_index<1>::type::const_iterator k; ia >> k; MCHECK(*k == *i && k - d.get<1>().begin() == i - c.get<1>().begin(), "%s, %s: iterator", what, how); } }
}
static void one(int n, int groups, const P& p1, const P& p5, const char* nm) {
  if (!mini::next()) return; snprintf(what, sizeof what, "%d elements in %d groups, %s", n, groups, nm); mini::say(what); ++mini::states;
  C c; for (int i = 0; i < n; ++i) c.push_back(E(i, (i * 7) % groups)); arrange(c, p1, p5);
  if (mini::bound[2] == 1) {
    C d(c); same(d, c, "copy"); C e; e.push_back(E(1, 1)); e = c; same(e, c, "copy assignment"); C f(std::move(d)); same(f, c, "move"); MCHECK(d.empty(), "%s: source of a move", what); for (int i = 0; i < 9; ++i) d.push_back(E(i, i)); C g(d); swap(d, f); same(d, c, "swap"); same(f, g, "swap"); f = std::move(d); same(f, c, "move assignment"); C h(f.get_allocator()); h = f; h.get<1>().reverse(); h.get<1>().reverse(); same(h, f, "after reversal"); C k(h); h.clear(); same(k, f, "copy of a copy");
  } else { archive<boost::archive::text_oarchive, boost::archive::text_iarchive>(c, "text archive"); archive<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(c, "binary archive"); }
}
int main(int argc, char** argv) {
  return mini::main_(argc, argv, [] {
    int N = mini::bound[0] ? mini::bound[0] : 100;
    for (int n = 0; n <= N; n += n < 34 ? 1 : n < 130 ? 15 : 70) {
      P id(n); std::iota(id.begin(), id.end(), 0); P rev(id.rbegin(), id.rend());
      for (int st = 1; st <= std::min(n, 12); ++st) { P p(n); for (int i = 0; i < n; ++i) p[i] = (int)((long)i * st % n); { std::vector<char> u(n); bool bij = true; for (int x : p) { bij = bij && !u[x]; u[x] = 1; } if (!bij) { p.clear(); for (int o = 0; o < st; ++o) for (int i = o; i < n; i += st) p.push_back(i); } } char nm[40]; snprintf(nm, sizeof nm, "stride %d", st); P q(p.rbegin(), p.rend()); for (int g : {1, 3, n + 1}) { one(n, g, p, rev, nm); one(n, g, q, p, nm); } }
      for (int r : {0, 1, n / 2, n - 1}) if (r >= 0 && r <= n) { P p(id); std::rotate(p.begin(), p.begin() + r, p.end()); char nm[40]; snprintf(nm, sizeof nm, "rotation by %d", r); P q(p.rbegin(), p.rend()); one(n, 4, p, q, nm); one(n, 4, rev, p, nm); }
      for (int b : {2, 5, 16}) { P p(id); for (int i = 0; i < n; i += b) std::reverse(p.begin() + i, p.begin() + std::min(n, i + b)); char nm[40]; snprintf(nm, sizeof nm, "blocks of %d reversed", b); one(n, 5, p, id, nm); one(n, 2, id, p, nm); }
    }
    if (N >= 100) for (int n : {65536, 65537}) { P p(n), q(n); for (int i = 0; i < n; ++i) p[i] = (int)((long)i * 40503 % n), q[n - 1 - i] = p[i]; one(n, n + 1, p, q, "stride 40503"); one(n, n / 3, q, p, "reversed stride 40503"); }
  });
}
