// Containers of plain integers: the overloads in which a count or a value is taken for an iterator (assign(n,v), insert(pos,n,v),
// resize, initializer lists) and the construction functions, on every content within the bound, against a vector of values.
#include "mini.hpp"
#include <algorithm>
#include <iterator>
#include <list>
#include <vector>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/identity.hpp>
using namespace boost::multi_index;
typedef std::vector<int> V;
static std::string str(const V& v) { std::string s = "{"; for (int x : v) s += " " + std::to_string(x); return s + " }"; }
static std::string what;
// index 0 is a list or vector; U: another index admits each value once; Q: one that does not constrain
typedef identity<int> Id;
static long arm = -1, live;   // allocations left before one fails; blocks outstanding
template <class X> struct Al { typedef X value_type; Al() {} template <class Y> Al(const Al<Y>&) {} X* allocate(size_t n) { if (arm >= 0 && arm-- == 0) throw std::bad_alloc(); ++live; return std::allocator<X>().allocate(n); } void deallocate(X* p, size_t n) { --live; std::allocator<X>().deallocate(p, n); } template <class Y> bool operator==(const Al<Y>&) const { return true; } template <class Y> bool operator!=(const Al<Y>&) const { return false; } };
template <class L, bool U> struct T;
template <class L> struct T<L, true> { typedef multi_index_container<int, indexed_by<L, hashed_unique<Id>, ranked_non_unique<Id>>, Al<int>> C; enum { uniq = 1 }; };
template <class L> struct T<L, false> { typedef multi_index_container<int, indexed_by<L, hashed_non_unique<Id>, ordered_non_unique<Id>>, Al<int>> C; enum { uniq = 0 }; };
template <class Tp> struct Run {
  typedef typename Tp::C C;
  static bool in(const V& m, int v) { return Tp::uniq && std::find(m.begin(), m.end(), v) != m.end(); }
  static void ins(V& m, size_t& p, int v) { if (in(m, v)) return; m.insert(m.begin() + p, v); ++p; }   // before a fixed position
  static void check(const C& c, const V& m, const char* op) {
    V g(c.begin(), c.end()); MCHECK(g == m && c.size() == m.size(), "%s, %s: contents are %s, expected %s", what.c_str(), op, str(g).c_str(), str(m).c_str());
    V s(m); std::sort(s.begin(), s.end()); auto& o = c.template get<2>(); MCHECK(V(o.begin(), o.end()) == s, "%s, %s: the ordered index holds something else", what.c_str(), op);
    auto& h = c.template get<1>(); V t(h.begin(), h.end()); std::sort(t.begin(), t.end()); MCHECK(t == s, "%s, %s: the hashed index holds something else", what.c_str(), op);
    for (int v = -1; v < 4; ++v) { size_t n = std::count(m.begin(), m.end(), v); MCHECK(h.count(v) == n && o.count(v) == n && h.contains((short)v) == (n > 0) && (size_t)std::distance(o.lower_bound((long)v), o.upper_bound((short)v)) == n, "%s, %s: count(%d)", what.c_str(), op, v); }
  }
  template <class F, class G> static void op(const V& v, const char* name, F f, G g) {
    if (!mini::next()) return; what = (Tp::uniq ? "unique, " : "") + str(v); mini::say((what + " " + name).c_str()); V m(v); long base = live;
    { C c(v.begin(), v.end()); f(c, m); g(m); check(c, m, name); } MCHECK(live == base, "%s, %s: memory is leaked", what.c_str(), name); ++mini::states;
    for (long k = 0; k < 200 && (long)v.size() <= (mini::bound[3] ? mini::bound[3] : 2); ++k) {   // the (k+1)-th allocation fails
      bool thrown = false; { C c(v.begin(), v.end()); V n(v); arm = k; try { f(c, n); } catch (const std::bad_alloc&) { thrown = true; } arm = -1; if (!thrown) break; ++mini::nfault; n.assign(c.begin(), c.end()); check(c, n, name); V r; for (auto i = c.end(); i != c.begin();) r.insert(r.begin(), *--i); MCHECK(r == n, "%s, %s with allocation %ld failing: backward traversal", what.c_str(), name, k); c.push_back(77); c.clear(); n.clear(); check(c, n, name); }
      MCHECK(live == base, "%s, %s with allocation %ld failing: memory is leaked", what.c_str(), name, k);
    }
  }
  static void at(const V& v, int B) {
    int n = (int)v.size(); char nm[64]; auto none = [](V&) {};
    for (int k = 0; k <= 3; ++k) for (int x = 0; x < B; ++x) {
      snprintf(nm, sizeof nm, "assign(%d,%d)", k, x); auto as = [&](V& m) { m.clear(); size_t p = 0; for (int i = 0; i < k; ++i) ins(m, p, x); };
      op(v, nm, [&](C& c, V&) { c.assign(k, x); }, as); op(v, nm, [&](C& c, V&) { c.assign((size_t)k, x); }, as); op(v, nm, [&](C& c, V&) { c.assign((short)k, (short)x); }, as);
      snprintf(nm, sizeof nm, "resize(%d,%d)", k, x); auto rs = [&](V& m) { if (k < n) m.resize(k); else for (int i = n; i < k; ++i) { size_t p = m.size(); ins(m, p, x); } };
      op(v, nm, [&](C& c, V&) { c.resize(k, x); }, rs);
      if (x == 0) { snprintf(nm, sizeof nm, "resize(%d)", k); op(v, nm, [&](C& c, V&) { c.resize(k); }, rs); }
      for (int p = 0; p <= n; ++p) { snprintf(nm, sizeof nm, "insert(%d,%d,%d)", p, k, x); auto in_ = [&](V& m) { size_t q = p; for (int i = 0; i < k; ++i) ins(m, q, x); };
        op(v, nm, [&](C& c, V&) { c.insert(std::next(c.begin(), p), k, x); }, in_); op(v, nm, [&](C& c, V&) { c.insert(std::next(c.begin(), p), (size_t)k, x); }, in_); op(v, nm, [&](C& c, V&) { c.insert(std::next(c.begin(), p), (char)k, (char)x); }, in_); }
    }
    for (int x = 0; x < B; ++x) {
      snprintf(nm, sizeof nm, "remove(%d)", x); op(v, nm, [&](C& c, V&) { c.remove(x); }, [&](V& m) { m.erase(std::remove(m.begin(), m.end(), x), m.end()); });
      for (int y = 0; y < B; ++y) {
        snprintf(nm, sizeof nm, "{%d,%d}", x, y); auto il = [&](V& m) { m.clear(); size_t p = 0; ins(m, p, x); ins(m, p, y); };
        op(v, nm, [&](C& c, V&) { c = {x, y}; }, il); op(v, nm, [&](C& c, V&) { c.assign({x, y}); }, il); op(v, nm, [&](C& c, V&) { C d{x, y}; c.swap(d); }, il); op(v, nm, [&](C& c, V&) { C d({x, y}); using std::swap; swap(c, d); }, il);
        for (int p = 0; p <= n; ++p) { snprintf(nm, sizeof nm, "insert(%d,{%d,%d})", p, x, y); op(v, nm, [&](C& c, V&) { c.insert(std::next(c.begin(), p), {x, y}); }, [&](V& m) { size_t q = p; ins(m, q, x); ins(m, q, y); }); }
        for (int p = 0; p <= n; ++p) { std::list<int> l{x, y}; snprintf(nm, sizeof nm, "insert(%d,list %d %d)", p, x, y); op(v, nm, [&](C& c, V&) { c.insert(std::next(c.begin(), p), l.begin(), l.end()); }, [&](V& m) { size_t q = p; ins(m, q, x); ins(m, q, y); }); }
      }
      for (int p = 0; p <= n; ++p) {
        snprintf(nm, sizeof nm, "insert or emplace(%d,%d)", p, x); auto one = [&](V& m) { size_t q = p; ins(m, q, x); };
        auto ret = [&](C& c, const V& m, auto r) { MCHECK(r.second == !in(m, x) && r.first != c.end() && *r.first == x, "%s, %s: wrong result", what.c_str(), nm); if (r.second) MCHECK(std::distance(c.begin(), r.first) == p, "%s, %s: wrong place", what.c_str(), nm); };
        op(v, nm, [&](C& c, V& m) { ret(c, m, c.insert(std::next(c.begin(), p), x)); }, one); op(v, nm, [&](C& c, V& m) { const int z = x; ret(c, m, c.insert(std::next(c.begin(), p), z)); }, one); op(v, nm, [&](C& c, V& m) { ret(c, m, c.emplace(std::next(c.begin(), p), (short)x)); }, one);
        if (p == n) { op(v, "push_back", [&](C& c, V& m) { ret(c, m, c.push_back(x)); }, one); op(v, "emplace_back", [&](C& c, V& m) { ret(c, m, c.emplace_back(x)); }, one); }
        if (p == 0) { op(v, "push_front", [&](C& c, V& m) { ret(c, m, c.push_front(x)); }, one); op(v, "emplace_front", [&](C& c, V& m) { ret(c, m, c.emplace_front(x)); }, one); }
      }
    }
    op(v, "emplace of a default value", [&](C& c, V&) { c.emplace_back(); }, [&](V& m) { size_t q = m.size(); ins(m, q, 0); });
    for (int i = 0; i < 3; ++i) op(v, "erase, end by key", [&](C& c, V&) { c.template get<2>().erase(i); c.template get<1>().erase(i); }, [&](V& m) { m.erase(std::remove(m.begin(), m.end(), i), m.end()); });
    // adaptors and algorithms over the interface
    op(v, "inserters", [&](C& c, V&) { V w(v); c.clear(); std::copy(w.begin(), w.end(), std::back_inserter(c)); }, none);
    op(v, "inserters", [&](C& c, V&) { V w(v); c.clear(); auto& o = c.template get<2>(); std::copy(w.begin(), w.end(), std::inserter(o, o.begin())); }, none);
    op(v, "inserters", [&](C& c, V&) { V w(v.rbegin(), v.rend()); c.clear(); std::copy(w.begin(), w.end(), std::front_inserter(c)); }, none);
  }
  static void all(V& v, int left, int B) {
    bool dup = false; if (Tp::uniq) { V s(v); std::sort(s.begin(), s.end()); dup = std::adjacent_find(s.begin(), s.end()) != s.end(); } if (dup) return;
    at(v, B); if (left) for (int x = 0; x < B; ++x) { v.push_back(x); all(v, left - 1, B); v.pop_back(); }
  }
};
template <class L> static void both(const char* s) { mini::section = s; V v; Run<T<L, true>>::all(v, mini::bound[0], mini::bound[1]); Run<T<L, false>>::all(v, mini::bound[0], mini::bound[1]); }
int main(int argc, char** argv) {
  return mini::main_(argc, argv, [] { if (!mini::bound[0]) { mini::bound[0] = 3; mini::bound[1] = 3; } if (mini::bound[2] != 2) both<sequenced<>>("sequenced"); if (mini::bound[2] != 1) both<random_access<>>("random access"); });
}
