// Sequenced and random access indices with more elements than the state exploration reaches: every rearranging operation on every
// content of a family (all strides modulo all small moduli, every size up to the bound) against the standard algorithms.
#include "mini.hpp"
#include <algorithm>
#include <iterator>
#include <list>
#include <numeric>
#include <vector>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/ref.hpp>
using namespace boost::multi_index;
struct E { int k, id; E(int k_ = 0, int i = 0) : k(k_), id(i) {} bool operator==(const E& o) const { return k == o.k; } bool operator<(const E& o) const { return k < o.k; } };
typedef std::vector<E> V;
struct Gt { bool operator()(const E& a, const E& b) const { return b.k < a.k; } };
struct Div { int d; bool operator()(const E& a, const E& b) const { return a.k / d < b.k / d; } };
static std::string what;
template <class L> struct R {
  typedef multi_index_container<E, indexed_by<L, ordered_unique<member<E, int, &E::id>>, sequenced<>>> C; typedef typename C::iterator It;
  static void same(const C& c, const V& m, const std::vector<const E*>& addr, const char* op) {
    size_t n = 0; for (auto i = c.begin(); i != c.end(); ++i, ++n) { MCHECK(n < m.size(), "%s, %s: too many elements", what.c_str(), op); MCHECK(i->id == m[n].id && i->k == m[n].k, "%s, %s: position %zu holds (%d,#%d), expected (%d,#%d)", what.c_str(), op, n, i->k, i->id, m[n].k, m[n].id); MCHECK(&*i == addr[m[n].id], "%s, %s: an element was copied", what.c_str(), op); }
    MCHECK(n == m.size() && c.size() == n, "%s, %s: %zu elements, expected %zu", what.c_str(), op, n, m.size()); for (auto i = c.end(); i != c.begin();) { --i; --n; MCHECK(i->id == m[n].id, "%s, %s: backward traversal", what.c_str(), op); } MCHECK(n == 0, "%s, %s: backward traversal", what.c_str(), op);
    int p = -1; for (auto& e : c.template get<1>()) { MCHECK(e.id > p, "%s, %s: the other index is disturbed", what.c_str(), op); p = e.id; } MCHECK(c.template get<1>().size() == m.size() && std::distance(c.template get<1>().begin(), c.template get<1>().end()) == (long)m.size(), "%s, %s: the other index has lost elements", what.c_str(), op);
    if constexpr (std::is_same<typename std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>::value) for (size_t i = 0; i < m.size(); ++i) MCHECK(c[i].id == m[i].id && c.iterator_to(c[i]) - c.begin() == (long)i, "%s, %s: position of an element", what.c_str(), op);
  }
  template <class F, class G> static void op(const V& v, const char* name, F f, G g) {
    if (!mini::next()) return; mini::say((what + " " + name).c_str()); C c(v.begin(), v.end()); std::vector<const E*> a(v.size() + 1); for (auto& e : c) a[e.id] = &e; V m(v); f(c); g(m); same(c, m, a, name); ++mini::states;
  }
  static void content(const V& v) {
    int n = (int)v.size();
    op(v, "sort", [](C& c) { c.sort(); }, [](V& m) { std::stable_sort(m.begin(), m.end()); });
    op(v, "sort(greater)", [](C& c) { c.sort(Gt()); }, [](V& m) { std::stable_sort(m.begin(), m.end(), Gt()); });
    op(v, "sort(coarse)", [](C& c) { c.sort(Div{3}); }, [](V& m) { std::stable_sort(m.begin(), m.end(), Div{3}); });
    op(v, "sort twice", [](C& c) { c.sort(Gt()); c.sort(Div{2}); }, [](V& m) { std::stable_sort(m.begin(), m.end(), Gt()); std::stable_sort(m.begin(), m.end(), Div{2}); });
    op(v, "reverse", [](C& c) { c.reverse(); }, [](V& m) { std::reverse(m.begin(), m.end()); });
    op(v, "unique", [](C& c) { c.unique(); }, [](V& m) { m.erase(std::unique(m.begin(), m.end()), m.end()); });
    op(v, "unique(pred)", [](C& c) { c.unique([](const E& cur, const E& prev) { return prev.k + 1 == cur.k; }); }, [](V& m) { V r; for (auto& e : m) if (r.empty() || r.back().k + 1 != e.k) r.push_back(e); m = r; });
    op(v, "remove", [](C& c) { c.remove(E(1)); }, [](V& m) { m.erase(std::remove(m.begin(), m.end(), E(1)), m.end()); });
    op(v, "remove_if", [](C& c) { c.remove_if([](const E& e) { return e.k % 3 == 0; }); }, [](V& m) { m.erase(std::remove_if(m.begin(), m.end(), [](const E& e) { return e.k % 3 == 0; }), m.end()); });
    op(v, "rearrange by id descending", [](C& c) { auto& o = c.template get<1>(); std::vector<boost::reference_wrapper<const E>> w; for (auto i = o.rbegin(); i != o.rend(); ++i) w.push_back(boost::cref(*i)); c.rearrange(w.begin()); }, [](V& m) { std::sort(m.begin(), m.end(), [](const E& a, const E& b) { return b.id < a.id; }); });
    for (int h = 0; h <= n; ++h) op(v, "merge of a prefix and the rest", [h](C& c) { C d; std::vector<const E*> keep; d.splice(d.end(), c, std::next(c.begin(), h), c.end()); c.sort(); d.sort(); c.merge(d); MCHECK(d.empty(), "%s, merge leaves elements", what.c_str()); },
      [h](V& m) { std::stable_sort(m.begin(), m.begin() + h); std::stable_sort(m.begin() + h, m.end()); V r; std::merge(m.begin(), m.begin() + h, m.begin() + h, m.end(), std::back_inserter(r)); m = r; });
    for (int h = 0; h <= n; ++h) op(v, "merge(comp) of a prefix and the rest", [h](C& c) { C d; d.splice(d.end(), c, std::next(c.begin(), h), c.end()); c.sort(Gt()); d.sort(Gt()); c.merge(d, Gt()); }, [h](V& m) { std::stable_sort(m.begin(), m.begin() + h, Gt()); std::stable_sort(m.begin() + h, m.end(), Gt()); V r; std::merge(m.begin(), m.begin() + h, m.begin() + h, m.end(), std::back_inserter(r), Gt()); m = r; });
  }
  static void moves(int n) {   // relocation and splicing by position only
    V v; for (int i = 0; i < n; ++i) v.emplace_back(i, i); what = "0.." + std::to_string(n - 1);
    for (int p = 0; p <= n; ++p) for (int f = 0; f <= n; ++f) for (int l = f; l <= n; ++l) {
      if (p > f && p < l) continue; char nm[64]; snprintf(nm, sizeof nm, "relocate %d..%d to %d", f, l, p);
      auto mv = [=](V& m) { V r(m.begin() + f, m.begin() + l); m.erase(m.begin() + f, m.begin() + l); m.insert(m.begin() + (p <= f ? p : p - (l - f)), r.begin(), r.end()); };
      if (p < f || p >= l || f == l) op(v, nm, [=](C& c) { c.relocate(std::next(c.begin(), p), std::next(c.begin(), f), std::next(c.begin(), l)); }, mv);
      if (l == f + 1) op(v, nm, [=](C& c) { c.relocate(std::next(c.begin(), p), std::next(c.begin(), f)); }, mv);
      snprintf(nm, sizeof nm, "splice %d..%d out and back at %d", f, l, p);
      if (p <= n - (l - f)) op(v, nm, [=](C& c) { C d; d.splice(d.begin(), c, std::next(c.begin(), f), std::next(c.begin(), l)); c.splice(std::next(c.begin(), p), d); }, [=](V& m) { V r(m.begin() + f, m.begin() + l); m.erase(m.begin() + f, m.begin() + l); m.insert(m.begin() + p, r.begin(), r.end()); });
      snprintf(nm, sizeof nm, "erase %d..%d", f, l); if (p == 0) op(v, nm, [=](C& c) { auto r = c.erase(std::next(c.begin(), f), std::next(c.begin(), l)); MCHECK(std::distance(c.begin(), r) == f, "%s, erase returns the wrong position", what.c_str()); }, [=](V& m) { m.erase(m.begin() + f, m.begin() + l); });
      snprintf(nm, sizeof nm, "erase %d..%d through the third index", f, l); if (p == 0) op(v, nm, [=](C& c) { auto& t = c.template get<2>(); t.erase(std::next(t.begin(), f), std::next(t.begin(), l)); }, [=](V& m) { m.erase(m.begin() + f, m.begin() + l); });
    }
  }
  static void all(const char* s, int N, int M) {
    mini::section = s;
    for (int n = 0; n <= N; n += n < 40 ? 1 : n < 140 ? 13 : 60) for (int k = 0; k <= std::min(n, 8); ++k) for (int m : {1, 2, 3, 7, n / 2 + 1, n + 1}) { V v; for (int i = 0; i < n; ++i) v.emplace_back((int)((long)i * (2 * k + 1) * (k + 1) % m), i); what = std::to_string(n) + " keys i*" + std::to_string((2 * k + 1) * (k + 1)) + " mod " + std::to_string(m); content(v); }
    for (int n = 0; n <= (M < 8 ? M : M / 2 + 1); ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= 3; for (int x = 0; x < t; ++x) { V v; int y = x; what = "keys "; for (int i = 0; i < n; ++i, y /= 3) { v.emplace_back(y % 3, i); what += char('0' + y % 3); } content(v); } }
    for (int n = 0; n <= M; ++n) moves(n);
  }
};
int main(int argc, char** argv) {
  return mini::main_(argc, argv, [] { int N = mini::bound[0] ? mini::bound[0] : 100, M = mini::bound[1] ? mini::bound[1] : 12; if (mini::bound[2] != 2) R<sequenced<>>::all("sequenced", N, M); if (mini::bound[2] != 1) R<random_access<>>::all("random access", N, M); });
}
