// Transfer between containers of different but node-compatible types: merge, splice and node handles between every pair of
// indices, for all small contents, with every position, source range and hint; also with a fault at every user operation.
#include "rt.hpp"
#include "mini.hpp"
#include <algorithm>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
using namespace boost::multi_index;
using rt::Elem;
typedef std::vector<const Elem*> L;
struct D { char k; int f; bool u; int dir; };   // kind, key field, unique, direction
static bool eqk(const D& d, const Elem* x, const Elem* y) { return x->k[d.f] == y->k[d.f]; }
static bool lt(const D& d, const Elem* x, const Elem* y) { return d.dir > 0 ? x->k[d.f] < y->k[d.f] : y->k[d.f] < x->k[d.f]; }
enum { NI = 5 };
struct Mod { const D* d; L l[NI], fr[NI];   // fr: elements inserted at a position of some index: free among equivalent elements of the others
  int banned(const Elem* e) const { for (int i = 0; i < NI; ++i) if (d[i].u) for (auto x : l[i]) if (eqk(d[i], x, e)) return i; return -1; }
  bool bans(const Elem* x, const Elem* e) const { for (int i = 0; i < NI; ++i) if (d[i].u && eqk(d[i], x, e)) return true; return false; }
  void add(const Elem* e, int at_index = -1, int pos = 0) { if (at_index >= 0) for (int i = 0; i < NI; ++i) if (i != at_index) fr[i].push_back(e);  // at_index: that index gets e at pos (sequence) or hinted by pos (ordered)
    for (int i = 0; i < NI; ++i) { auto& v = l[i];
      if (d[i].k == 'S' || d[i].k == 'A') v.insert(i == at_index ? v.begin() + pos : v.end(), e);
      else if (d[i].k == 'H') v.push_back(e);
      else { int lo = 0, up; while (lo < (int)v.size() && lt(d[i], v[lo], e)) ++lo; up = lo; while (up < (int)v.size() && !lt(d[i], e, v[up])) ++up; int p = i != at_index ? up : pos < lo ? lo : pos > up ? up : pos; v.insert(v.begin() + p, e); } }
  }
  void del(const Elem* e) { for (auto& v : l) v.erase(std::find(v.begin(), v.end(), e)); }
};
template <int... U> struct T;
typedef rt::Key<0> K0; typedef rt::Key<1> K1; typedef rt::Less Ls; typedef rt::Hash Hs; typedef rt::Eq Eq; typedef rt::BasicAlloc Al;
struct X { typedef multi_index_container<Elem, indexed_by<ordered_unique<K0, Ls>, hashed_non_unique<K1, Hs, Eq>, ranked_non_unique<K1, Ls>, sequenced<>, random_access<>>, Al> C; static constexpr D d[NI] = {{'O', 0, true, 1}, {'H', 1, false, 1}, {'K', 1, false, -1}, {'S', 0, false, 1}, {'A', 0, false, 1}}; };
struct Y { typedef multi_index_container<Elem, indexed_by<ordered_non_unique<K1, Ls>, hashed_unique<K1, Hs, Eq>, ranked_non_unique<K0, Ls>, sequenced<>, random_access<>>, Al> C; static constexpr D d[NI] = {{'O', 1, false, -1}, {'H', 1, true, 1}, {'K', 0, false, 1}, {'S', 0, false, 1}, {'A', 0, false, 1}}; };
struct Z { typedef multi_index_container<Elem, indexed_by<ordered_non_unique<K0, Ls>, hashed_unique<K0, Hs, Eq>, ranked_unique<K1, Ls>, sequenced<>, random_access<>>, Al> C; static constexpr D d[NI] = {{'O', 0, false, 1}, {'H', 0, true, 1}, {'K', 1, true, 1}, {'S', 0, false, 1}, {'A', 0, false, 1}}; };
struct W { typedef multi_index_container<Elem, indexed_by<ordered_non_unique<K1, Ls>, hashed_non_unique<K0, Hs, Eq>, ranked_non_unique<K0, Ls>, sequenced<>, random_access<>>, Al> C; static constexpr D d[NI] = {{'O', 1, false, 1}, {'H', 0, false, 1}, {'K', 0, false, -1}, {'S', 0, false, 1}, {'A', 0, false, 1}}; };
constexpr D X::d[], Y::d[], Z::d[], W::d[];
// the same shape with the containers' indices in another order (the last index first)
struct P { typedef multi_index_container<Elem, indexed_by<random_access<>, sequenced<>, hashed_unique<K1, Hs, Eq>, ordered_non_unique<K0, Ls>, ordered_unique<K1, Ls>>, Al> C; static constexpr D d[NI] = {{'A', 0, false, 1}, {'S', 0, false, 1}, {'H', 1, true, 1}, {'O', 0, false, -1}, {'O', 1, true, 1}}; };
struct Q { typedef multi_index_container<Elem, indexed_by<random_access<>, sequenced<>, hashed_non_unique<K0, Hs, Eq>, ordered_unique<K0, Ls>, ordered_non_unique<K0, Ls>>, Al> C; static constexpr D d[NI] = {{'A', 0, false, 1}, {'S', 0, false, 1}, {'H', 0, false, 1}, {'O', 0, true, 1}, {'O', 0, false, -1}}; };
constexpr D P::d[], Q::d[];
template <class A> static auto setdir(A& a, int d, int) -> decltype((void)a.template get<1>().dir) { a.template get<1>().dir = d; }
template <class A> static void setdir(A&, int, long) {}
template <class Tp> struct Arg { static typename Tp::C make() { typename Tp::C::ctor_args_list l; put<0>(l); put<1>(l); put<2>(l); put<3>(l); put<4>(l); return typename Tp::C(l, Al(1)); }
  template <int I, class A> static void put(A& l) { setdir(l.template get<I>(), Tp::d[I].dir, 0); } };

template <int N> struct Int { static constexpr int v = N; };
template <class F> static void for5(F f) { f(Int<0>()); f(Int<1>()); f(Int<2>()); f(Int<3>()); f(Int<4>()); }
static const std::vector<Elem>* src = nullptr;   // when set, elements are identified with the element of *src they were copied from
template <class X> static L order(X& x) { L r; for (auto i = x.begin(); i != x.end(); ++i) r.push_back(src ? &(*src)[i->id] : &*i); return r; }
static std::string show(const L& l) { std::string s; for (auto e : l) s += std::to_string(e->id) + "(" + std::to_string(e->k[0]) + "," + std::to_string(e->k[1]) + ") "; return s; }
static std::string what;
template <class X> static auto probe2(X& x, const L& o, const char* who, int I, int) -> decltype((void)x.rank(x.begin())) { for (size_t i = 0; i < o.size(); ++i) MCHECK((src ? &(*src)[x.nth(i)->id] : &*x.nth(i)) == o[i] && x.rank(x.nth(i)) == i, "%s: rank of index %d of %s", what.c_str(), I, who); }
template <class X> static void probe2(X&, const L&, const char*, int, long) {}
template <class X> static auto probe(X& x, const D& d, const L& o, const char* who, int I) -> decltype((void)x.equal_range(0)) {
  for (int k = -1; k < 4; ++k) { size_t n = 0; for (auto e : o) n += e->k[d.f] == k; auto r = x.equal_range(k); MCHECK((size_t)std::distance(r.first, r.second) == n && x.count(k) == n && (x.find(k) != x.end()) == (n > 0), "%s: wrong lookup of %d in index %d of %s", what.c_str(), k, I, who);
    for (; r.first != r.second; ++r.first) MCHECK(r.first->k[d.f] == k, "%s: wrong lookup of %d in index %d of %s", what.c_str(), k, I, who); }
  probe2(x, o, who, I, 0);
}
template <class X> static auto probe(X& x, const D&, const L& o, const char* who, int I) -> decltype((void)x.push_back(Elem(0, 0, 0, 0))) { L b; for (auto i = x.rbegin(); i != x.rend(); ++i) b.push_back(src ? &(*src)[i->id] : &*i); std::reverse(b.begin(), b.end()); MCHECK(b == o, "%s: backward traversal of index %d of %s", what.c_str(), I, who); }
template <class Tp> static void verify(typename Tp::C& c, const Mod& m, const char* who, bool exact) {
  rt::Disarm da;
  MCHECK(c.size() == m.l[0].size(), "%s: %s has %zu elements, expected %zu", what.c_str(), who, c.size(), m.l[0].size());
  for5([&](auto n) { constexpr int I = decltype(n)::v; auto& x = c.template get<I>(); L o = order(x); D d = Tp::d[I]; const L& e = m.l[I];
    if (d.k == 'H') { L a(o), b(e); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); MCHECK(a == b, "%s: index %d of %s holds %s, expected the elements %s", what.c_str(), I, who, show(o).c_str(), show(e).c_str());
      for (size_t i = 0; i < o.size(); ++i) for (size_t j = i + 2; j < o.size(); ++j) if (eqk(d, o[i], o[j])) MCHECK(eqk(d, o[i], o[j - 1]), "%s: group torn apart in index %d of %s", what.c_str(), I, who); }
    else { if ((d.k == 'O' || d.k == 'K') && !d.u && !m.fr[I].empty()) { L a, b, c1(o), c2(e); for (auto z : o) if (std::find(m.fr[I].begin(), m.fr[I].end(), z) == m.fr[I].end()) a.push_back(z); for (auto z : e) if (std::find(m.fr[I].begin(), m.fr[I].end(), z) == m.fr[I].end()) b.push_back(z); std::sort(c1.begin(), c1.end()); std::sort(c2.begin(), c2.end()); bool srt = true; for (size_t i = 1; i < o.size(); ++i) srt = srt && !lt(d, o[i], o[i - 1]); MCHECK(a == b && c1 == c2 && srt, "%s: index %d of %s is %s, expected %s but for ties", what.c_str(), I, who, show(o).c_str(), show(e).c_str()); }
      else MCHECK(o == e, "%s: index %d of %s is %s, expected %s", what.c_str(), I, who, show(o).c_str(), show(e).c_str()); }
    probe(x, d, o, who, I); });
  (void)exact;
}
// when a range operation failed midway: whatever remains must be consistent
template <class Tp> static void consistent(typename Tp::C& c, const char* who, L& all) {
  rt::Disarm da; Mod m; m.d = Tp::d; L s = order(c.template get<0>()), base = s; std::sort(s.begin(), s.end());
  for5([&](auto n) { constexpr int I = decltype(n)::v; L o = order(c.template get<I>()), t(o); std::sort(t.begin(), t.end()); MCHECK(t == s, "%s: after an exception the indices of %s hold different elements", what.c_str(), who); m.l[I] = o; D d = Tp::d[I];
    if (d.k == 'O' || d.k == 'K') for (size_t i = 1; i < o.size(); ++i) MCHECK(!lt(d, o[i], o[i - 1]), "%s: after an exception index %d of %s is not sorted", what.c_str(), I, who);
    if (d.u) for (size_t i = 0; i < o.size(); ++i) for (size_t j = 0; j < i; ++j) MCHECK(!eqk(d, o[i], o[j]), "%s: after an exception index %d of %s has duplicates", what.c_str(), I, who); });
  verify<Tp>(c, m, who, true); all.insert(all.end(), base.begin(), base.end());
}
typedef std::vector<int> Seq;
static const int VAL[6][2] = {{0, 0}, {0, 2}, {2, 0}, {2, 2}, {1, 0}, {0, 1}};
template <class Tp> struct Box { typename Tp::C c; Mod m; Box(const Seq& s, int& id) : c(Arg<Tp>::make()) { rt::Disarm da; m.d = Tp::d; for (int v : s) { auto r = c.template get<3>().size(), n = c.size(); (void)r; insert(Elem(id++, VAL[v][0], VAL[v][1], 0), n); } }
  void insert(Elem e, size_t n) { typedef typename Tp::C C; C t(Arg<Tp>::make()); ins(t, c, e, 0); if (c.size() > n) { L o = order(c.template get<Tp::d[0].k == 'A' ? 0 : 4>()); m.add(o.back()); } }
  template <class C> static void ins(C&, C& c, Elem& e, int) { c.template get<Tp::d[0].k == 'A' ? 0 : 4>().push_back(std::move(e)); } };
static bool faults = false; static int kinds = 3;   // 1: merge and splice, 2: node handles
template <class A, class B> struct Cell {
  // one execution: op(dst box, src box) -> performs the call and updates the models unless an exception leaves it
  template <class F> static void run(const Seq& s, const Seq& t, bool single, const char* name, F op) {
    long n = 0;
    for (long k = 0; k <= n; ++k) { bool go = mini::next(); if (!go && !(k == 0 && faults && mini::replay >= 0)) continue;
      { int id = 0; Box<A> a(s, id); Box<B> b(t, id); Mod ma = a.m, mb = b.m; what = std::string(name); if (k) what += " with an exception at user operation " + std::to_string(k); rt::fault_at = k ? rt::ticks + k : 0; long c0 = rt::ctor_copy + rt::ctor_move, l0 = rt::live, t0 = rt::ticks; bool thrown = false, done = false; rt::armed = true; ++mini::states;
        try { op(a, b); } catch (rt::Fault&) { thrown = true; } catch (Done&) { done = true; } catch (rt::Violation& v) { mini::fail("%s: %s", what.c_str(), v.msg.c_str()); }
        rt::fault_at = 0; if (!k && faults) n = rt::ticks - t0;
        MCHECK(rt::ctor_copy + rt::ctor_move == c0, "%s: elements were copied or moved", what.c_str()); 
        mini::nfault += thrown || done; if (done); else if (!thrown) { MCHECK(rt::live == l0, "%s: elements created or destroyed", what.c_str()); verify<A>(a.c, a.m, "the destination", true); verify<B>(b.c, b.m, "the source", true); }
        else if (single) { verify<A>(a.c, ma, "the destination (after the exception)", true); verify<B>(b.c, mb, "the source (after the exception)", true); }
        else { L all; consistent<A>(a.c, "the destination", all); consistent<B>(b.c, "the source", all); std::sort(all.begin(), all.end()); MCHECK(std::unique(all.begin(), all.end()) == all.end(), "%s: an element belongs to both containers", what.c_str()); MCHECK((long)all.size() == rt::live, "%s: elements lost", what.c_str()); }
      }
      try { rt::check_balance("after destruction"); } catch (rt::Violation& v) { mini::fail("%s: %s", what.c_str(), v.msg.c_str()); }
    }
  }
  static bool move1(Box<A>& a, Box<B>& b, const Elem* e, int I = -1, int pos = 0) { if (a.m.banned(e) >= 0) return false; a.m.add(e, I, pos); b.m.del(e); return true; }
  template <int I, int J> static void mergers(const Seq& s, const Seq& t, int na, int nb, std::true_type) {   // key-based destination
    char w[160];
    for (int rv = 0; rv < 2; ++rv) { snprintf(w, sizeof w, "merge(%sindex %d) into index %d", rv ? "rvalue of " : "", J, I); run(s, t, false, w, [&](Box<A>& a, Box<B>& b) { auto& x = a.c.template get<I>(); auto& y = b.c.template get<J>(); L o = order(y); if (rv) x.merge(std::move(y)); else x.merge(y); for (auto e : o) move1(a, b, e); }); }
    for (int i = 0; i < nb; ++i) { snprintf(w, sizeof w, "merge(index %d, element %d) into index %d", J, i, I); run(s, t, true, w, [&](Box<A>& a, Box<B>& b) { auto& x = a.c.template get<I>(); auto& y = b.c.template get<J>(); auto it = std::next(y.begin(), i); const Elem* e = &*it; auto r = i & 1 ? x.merge(std::move(y), it) : x.merge(y, it); bool exp = a.m.banned(e) < 0; MCHECK(r.second == exp, "%s: reports %d", what.c_str(), (int)r.second); MCHECK(exp ? &*r.first == e : r.first != x.end() && a.m.bans(&*r.first, e), "%s: returned iterator", what.c_str()); move1(a, b, e); }); }
    for (int f = 0; f <= nb; ++f) for (int l = f; l <= nb; ++l) { snprintf(w, sizeof w, "merge(index %d, range %d..%d) into index %d", J, f, l, I); run(s, t, false, w, [&](Box<A>& a, Box<B>& b) { auto& x = a.c.template get<I>(); auto& y = b.c.template get<J>(); L o = order(y); x.merge(y, std::next(y.begin(), f), std::next(y.begin(), l)); for (int q = f; q < l; ++q) move1(a, b, o[q]); }); }
  }
  template <int I, int J> static void mergers(const Seq& s, const Seq& t, int na, int nb, std::false_type) {   // sequence destination
    char w[160];
    for (int p = 0; p <= na; ++p) {
      for (int rv = 0; rv < 2; ++rv) { snprintf(w, sizeof w, "splice(%d, %sindex %d) into index %d", p, rv ? "rvalue of " : "", J, I); run(s, t, false, w, [&](Box<A>& a, Box<B>& b) { auto& x = a.c.template get<I>(); auto& y = b.c.template get<J>(); L o = order(y); auto pos = std::next(x.begin(), p); if (rv) x.splice(pos, std::move(y)); else x.splice(pos, y); int q = p; for (auto e : o) q += move1(a, b, e, I, q); }); }
      for (int i = 0; i < nb; ++i) { snprintf(w, sizeof w, "splice(%d, index %d, element %d) into index %d", p, J, i, I); run(s, t, true, w, [&](Box<A>& a, Box<B>& b) { auto& x = a.c.template get<I>(); auto& y = b.c.template get<J>(); auto it = std::next(y.begin(), i); const Elem* e = &*it; auto pos = std::next(x.begin(), p); auto r = i & 1 ? x.splice(pos, std::move(y), it) : x.splice(pos, y, it); bool exp = a.m.banned(e) < 0; MCHECK(r.second == exp, "%s: reports %d", what.c_str(), (int)r.second); MCHECK(exp ? &*r.first == e : r.first != x.end() && a.m.bans(&*r.first, e), "%s: returned iterator", what.c_str()); move1(a, b, e, I, p); }); }
      for (int f = 0; f <= nb; ++f) for (int l = f; l <= nb; ++l) { snprintf(w, sizeof w, "splice(%d, index %d, range %d..%d) into index %d", p, J, f, l, I); run(s, t, false, w, [&](Box<A>& a, Box<B>& b) { auto& x = a.c.template get<I>(); auto& y = b.c.template get<J>(); L o = order(y); x.splice(std::next(x.begin(), p), y, std::next(y.begin(), f), std::next(y.begin(), l)); int r = p; for (int q = f; q < l; ++q) r += move1(a, b, o[q], I, r); }); }
    }
  }
  template <int I, int J> static void handles(const Seq& s, const Seq& t, int na, int nb) {
    constexpr bool list = A::d[I].k == 'S' || A::d[I].k == 'A'; char w[160];
    for (int i = 0; i < nb; ++i) for (int h = list ? 0 : -1; h <= na; ++h) { snprintf(w, sizeof w, "extract element %d by index %d, insert into index %d at %d", i, J, I, h); run(s, t, true, w, [&](Box<A>& a, Box<B>& b) {
        auto& x = a.c.template get<I>(); auto& y = b.c.template get<J>(); auto it = std::next(y.begin(), i); const Elem* e = &*it; typename B::C::node_type nh = y.extract(it); MCHECK(!nh.empty() && &nh.value() == e, "%s: handle", what.c_str());
        bool exp = a.m.banned(e) < 0; typename A::C::node_type back;
        try { insert_nh(x, h, nh, back, e, exp, a.m, std::integral_constant<bool, list>()); }
        catch (rt::Fault&) { MCHECK(!nh.empty() && &nh.value() == e, "%s: the handle lost its element", what.c_str()); rt::fault_at = 0; { rt::Disarm da; Mod mm = b.m; mm.del(e); verify<B>(b.c, mm, "the source", true); } // put it back where it was by way of the node
          b.m.del(e); nh = typename B::C::node_type(); rt::fault_at = 0; // drop the element; the models of run() are compared for the destination only
          a_only(a, b); throw Done(); }
        MCHECK(nh.empty(), "%s: handle not emptied", what.c_str()); b.m.del(e); if (exp) { MCHECK(back.empty(), "%s: returned node", what.c_str()); a.m.add(e, I, list ? h : h < 0 ? (int)a.m.l[I].size() : h); }
        else { MCHECK(!back.empty() && &back.value() == e, "%s: rejected handle", what.c_str()); { rt::Disarm da; b.c.template get<J>(); reinsert(b, back, e); } } }); }
  }
  struct Done {};
  static void a_only(Box<A>& a, Box<B>& b) { verify<A>(a.c, a.m, "the destination", true); verify<B>(b.c, b.m, "the source", true); }
  static void reinsert(Box<B>& b, typename B::C::node_type& nh, const Elem* e) { auto& x = b.c.template get<B::d[0].k == 'A' ? 0 : 4>(); auto r = x.insert(x.end(), std::move(nh)); MCHECK(r.inserted && r.node.empty() && &*r.position == e, "%s: reinsertion into the source", what.c_str()); b.m.add(e); }
  template <class X, class N> static void insert_nh(X& x, int h, N& nh, N& back, const Elem* e, bool exp, Mod& m, std::true_type) { auto r = x.insert(std::next(x.begin(), h), std::move(nh)); ret(x, r, back, e, exp, m); }
  template <class X, class N> static void insert_nh(X& x, int h, N& nh, N& back, const Elem* e, bool exp, Mod& m, std::false_type) {
    if (h < 0) { auto r = x.insert(std::move(nh)); ret(x, r, back, e, exp, m); return; }
    auto it = x.insert(std::next(x.begin(), h), std::move(nh)); if (exp) MCHECK(&*it == e, "%s: returned iterator", what.c_str()); else { MCHECK(it != x.end() && m.bans(&*it, e), "%s: returned iterator", what.c_str()); back = std::move(nh); } }
  template <class X, class R, class N> static void ret(X& x, R& r, N& back, const Elem* e, bool exp, Mod& m) { MCHECK(r.inserted == exp, "%s: reports %d", what.c_str(), (int)r.inserted); MCHECK(exp ? &*r.position == e : r.position != x.end() && m.bans(&*r.position, e), "%s: returned position", what.c_str()); back = std::move(r.node); }
};
static std::vector<Seq> seqs(int n, int vals) { std::vector<Seq> r{{}}; for (size_t i = 0; i < r.size(); ++i) if ((int)r[i].size() < n) for (int v = 0; v < vals; ++v) { Seq s = r[i]; s.push_back(v); r.push_back(s); } return r; }
template <class A, class B> static void pair_(int da, int db, int vals) {
  for (auto& s : seqs(da, vals)) for (auto& t : seqs(db, vals)) {
    int id = 0, na, nb; { Box<A> a(s, id); Box<B> b(t, id); na = (int)a.c.size(); nb = (int)b.c.size(); } if (na < (int)s.size() || nb < (int)t.size()) continue;
    for5([&](auto i) { for5([&](auto j) { constexpr int I = decltype(i)::v, J = decltype(j)::v; constexpr bool key = A::d[I].k != 'S' && A::d[I].k != 'A';
      if (kinds & 1) Cell<A, B>::template mergers<I, J>(s, t, na, nb, std::integral_constant<bool, key>()); if (kinds & 2) Cell<A, B>::template handles<I, J>(s, t, na, nb); }); }); }
}
// ---- ranges: construction, insertion and assignment of ranges, against one insertion after the other
struct InIt { typedef std::input_iterator_tag iterator_category; typedef Elem value_type; typedef std::ptrdiff_t difference_type; typedef const Elem* pointer; typedef const Elem& reference; const Elem* p; const Elem** cur;   // single pass
  const Elem& operator*() const { if (*cur != p) mini::fail("%s: an input iterator was used after a copy of it had advanced", what.c_str()); return *p; } const Elem* operator->() const { return p; } InIt& operator++() { if (*cur != p) mini::fail("%s: an input iterator was advanced twice", what.c_str()); ++p; ++*cur; return *this; } InIt operator++(int) { InIt t(*this); ++*this; return t; }
  friend bool operator==(const InIt& x, const InIt& y) { return x.p == y.p; } friend bool operator!=(const InIt& x, const InIt& y) { return x.p != y.p; } };
template <class F> static void with_il(const std::vector<Elem>& v, F f) { switch (v.size()) { case 0: f(std::initializer_list<Elem>{}); break; case 1: f({v[0]}); break; case 2: f({v[0], v[1]}); break; case 3: f({v[0], v[1], v[2]}); break; case 4: f({v[0], v[1], v[2], v[3]}); break; case 5: f({v[0], v[1], v[2], v[3], v[4]}); } }
template <class Tp> struct Rng { typedef typename Tp::C C;
  static constexpr int SEQ = Tp::d[0].k == 'A' ? 0 : 4;
  // f(container, model) performs the call and updates the model
  template <class F> static void run(const std::vector<Elem>& v, int pre, const std::string& name, F f) {
    long n = 0; for (long k = 0; k <= n; ++k) { bool go = mini::next(); if (!go && !(k == 0 && faults && mini::replay >= 0)) continue; ++mini::states;
      what = name; if (k) what += " with an exception at user operation " + std::to_string(k); long l0 = rt::live, b0 = rt::blocks;
      { C c(Arg<Tp>::make()); Mod m; m.d = Tp::d; { rt::Disarm da; for (int i = 0; i < pre; ++i) { size_t z = c.size(); c.template get<SEQ>().push_back(v[i]); if (c.size() > z) m.add(&v[i]); } }
        long t0 = rt::ticks; bool thrown = false; rt::fault_at = k ? t0 + k : 0; try { f(c, m); } catch (rt::Fault&) { thrown = true; } rt::fault_at = 0; if (!k && faults) n = rt::ticks - t0; mini::nfault += thrown;
        if (!thrown) verify<Tp>(c, m, "the container", true); else { L all; consistent<Tp>(c, "the container", all); } }
      MCHECK(rt::live == l0 && rt::blocks == b0, "%s: %ld elements and %ld blocks leaked", what.c_str(), rt::live - l0, rt::blocks - b0); } }
  static bool add(Mod& m, const Elem* e, int I = -1, int pos = 0) { if (m.banned(e) >= 0) return false; m.add(e, I, pos); return true; }
  static void loose(Mod& m, const Elem* e) { if (add(m, e)) for (auto& f : m.fr) f.push_back(e); }   // position among equivalent elements not documented
  static void all(const Seq& q) {
    std::vector<Elem> v; v.reserve(q.size() + 1); { rt::Disarm da; for (int x : q) v.push_back(Elem((int)v.size(), VAL[x][0], VAL[x][1], 0)); } src = &v; const Elem* b = v.data(); int n = (int)v.size(); const Elem* cur;
    std::string w = "values"; for (int x : q) { char t[20]; snprintf(t, sizeof t, " (%d,%d)", VAL[x][0], VAL[x][1]); w += t; }
    run(v, 0, "construction from a range, " + w, [&](C& c, Mod& m) { auto al = args(); C d(b, b + n, al, Al(1)); c.swap(d); for (auto& e : v) loose(m, &e); });
    run(v, 0, "construction from an input range, " + w, [&](C& c, Mod& m) { auto al = args(); cur = b; C d(InIt{b, &cur}, InIt{b + n, &cur}, al, Al(1)); c.swap(d); for (auto& e : v) loose(m, &e); });
    if (n <= 5) { run(v, 0, "construction from an initializer list, " + w, [&](C& c, Mod& m) { auto al = args(); with_il(v, [&](std::initializer_list<Elem> l) { C d(l, al, Al(1)); c.swap(d); }); for (auto& e : v) loose(m, &e); });
      run(v, n / 2, "assignment of an initializer list, " + w, [&](C& c, Mod& m) { with_il(v, [&](std::initializer_list<Elem> l) { c = l; }); for (auto& x : m.l) x.clear(); for (auto& e : v) loose(m, &e); }); }
    for (int pre = 0; pre < n || pre == 0; pre += n > 10 ? 26 : 1) for5([&](auto i) { constexpr int I = decltype(i)::v; ranges<I>(v, pre, ", index " + std::to_string(I) + ", first " + std::to_string(pre) + " present, " + w, std::integral_constant<bool, Tp::d[I].k == 'S' || Tp::d[I].k == 'A'>()); });
    src = nullptr;
  }
  static auto args() -> typename C::ctor_args_list { typename C::ctor_args_list l; Arg<Tp>::template put<0>(l); Arg<Tp>::template put<1>(l); Arg<Tp>::template put<2>(l); Arg<Tp>::template put<3>(l); Arg<Tp>::template put<4>(l); return l; }
  template <int I> static void ranges(const std::vector<Elem>& v, int pre, const std::string& w, std::false_type) { const Elem* b = v.data(); int n = (int)v.size(); const Elem* cur;
    run(v, pre, "insert(range)" + w, [&](C& c, Mod& m) { c.template get<I>().insert(b + pre, b + n); for (int i = pre; i < n; ++i) loose(m, &v[i]); });
    run(v, pre, "insert(input range)" + w, [&](C& c, Mod& m) { cur = b + pre; c.template get<I>().insert(InIt{b + pre, &cur}, InIt{b + n, &cur}); for (int i = pre; i < n; ++i) loose(m, &v[i]); }); }
  template <int I> static void ranges(const std::vector<Elem>& v, int pre, const std::string& w, std::true_type) { const Elem* b = v.data(); int n = (int)v.size(); const Elem* cur;
    for (int p = 0; p <= pre; p += n > 10 ? 13 : 1) { std::string u = " at " + std::to_string(p) + w;
      run(v, pre, "insert(position, range)" + u, [&](C& c, Mod& m) { auto& x = c.template get<I>(); int z = p <= (int)x.size() ? p : (int)x.size(); x.insert(std::next(x.begin(), z), b + pre, b + n); for (int i = pre; i < n; ++i) z += add(m, &v[i], I, z); });
      run(v, pre, "insert(position, input range)" + u, [&](C& c, Mod& m) { auto& x = c.template get<I>(); int z = p <= (int)x.size() ? p : (int)x.size(); cur = b + pre; x.insert(std::next(x.begin(), z), InIt{b + pre, &cur}, InIt{b + n, &cur}); for (int i = pre; i < n; ++i) z += add(m, &v[i], I, z); }); }
    run(v, pre, "assign(range)" + w, [&](C& c, Mod& m) { c.template get<I>().assign(b + pre, b + n); for (auto& x : m.l) x.clear(); for (int i = pre; i < n; ++i) if (add(m, &v[i])) for (auto& f : m.fr) f.push_back(&v[i]); });
    run(v, pre, "assign(input range)" + w, [&](C& c, Mod& m) { cur = b + pre; c.template get<I>().assign(InIt{b + pre, &cur}, InIt{b + n, &cur}); for (auto& x : m.l) x.clear(); for (int i = pre; i < n; ++i) if (add(m, &v[i])) for (auto& f : m.fr) f.push_back(&v[i]); }); }
};
template <class Tp> static void ranges_(int len, int vals) { for (auto& s : seqs(len, vals)) Rng<Tp>::all(s); for (int n : {54, 110}) { if (faults && n > 54) continue; Seq s; for (int i = 0; i < n; ++i) s.push_back(i % 3 ? i % 2 : i % 6); Rng<Tp>::all(s); } }
#ifndef XF
#define XF 0
#endif
static void body() {
  mini::section = XF < 8 ? "transfer" : "ranges"; int da = mini::bound[0] ? mini::bound[0] - 1 : 1, db = mini::bound[1] ? mini::bound[1] - 1 : 2, vals = mini::bound[2] ? mini::bound[2] : 4; faults = mini::bound[3] & 1; kinds = mini::bound[3] >> 1 ? mini::bound[3] >> 1 : 3;
#if XF == 0
  pair_<X, Y>(da, db, vals);
#elif XF == 1
  pair_<Y, X>(da, db, vals);
#elif XF == 2
  pair_<Z, W>(da, db, vals);
#elif XF == 3
  pair_<W, Z>(da, db, vals);
#elif XF == 4
  pair_<P, Q>(da, db, vals);
#elif XF == 5
  pair_<Q, P>(da, db, vals);
#elif XF == 6
  pair_<Y, Z>(da, db, vals);
#elif XF == 7
  pair_<X, W>(da, db, vals);
#elif XF == 8
  ranges_<X>(db, vals); ranges_<W>(db, vals);
#elif XF == 9
  ranges_<Y>(db, vals); ranges_<Q>(db, vals);
#elif XF == 10
  ranges_<Z>(db, vals); ranges_<P>(db, vals);
#endif
  mini::say("source (0,0)(0,2) by its ranked index, range 0..2, spliced at 1 into the random access index of a container whose hashed index is unique");
}
int main(int c, char** v) { return mini::main_(c, v, body); }
