// Composite keys: every operator and functor over all key values, tuple kinds, lengths and predicate states (CKN keys).
#include "mini.hpp"
#include <tuple>
#include <memory>
#include <functional>
#include <boost/tuple/tuple.hpp>
#include <boost/ref.hpp>
#include <boost/functional/hash.hpp>
#include <boost/multi_index/composite_key.hpp>
using namespace boost::multi_index;
#ifndef CKN
#define CKN 3
#endif
enum { MAXK = 10 };
struct V { int k[MAXK]; };
struct W { char pad[8]; int k[MAXK]; };         // another value type with keys in other places
static int ext[2][MAXK];                         // extractions per value type and key
static int keyof(const V& v, int i) { ++ext[0][i]; return v.k[i]; }
static int keyof(const W& v, int i) { ++ext[1][i]; return v.k[MAXK - 1 - i]; }
template <class T, int I> struct K { typedef int result_type; int add; K(int a = 0) : add(a) {} int operator()(const T& v) const { return keyof(v, I) + add; } };
struct H { int x; };                             // compatible with int, not the same type
inline bool operator==(int a, H b) { return a == b.x; } inline bool operator==(H a, int b) { return a.x == b; } inline bool operator<(int a, H b) { return a < b.x; } inline bool operator<(H a, int b) { return a.x < b; }
static int val(int a) { return a; } static int val(H a) { return a.x; }
struct Cmp { int dir; Cmp(int d = 1) : dir(d) {} template <class A, class B> bool operator()(const A& a, const B& b) const { return dir > 0 ? val(a) < val(b) : val(b) < val(a); } };
struct Eq { int mod; Eq(int m = 100) : mod(m) {} template <class A, class B> bool operator()(const A& a, const B& b) const { return val(a) % mod == val(b) % mod; } };
struct Hs { int mul; Hs(int m = 7) : mul(m) {} std::size_t operator()(int a) const { return (std::size_t)a * mul + 3; } std::size_t operator()(H a) const { return (*this)(a.x); } };
template <class T, class S> struct mk; template <class T, std::size_t... I> struct mk<T, std::index_sequence<I...>> { typedef composite_key<T, K<T, (int)I>...> type; };
template <class T, int N> using CK = typename mk<T, std::make_index_sequence<N>>::type;
template <class F, class S> struct rep; template <class F, std::size_t... I> struct rep<F, std::index_sequence<I...>> { template <std::size_t> using T = F; typedef composite_key_compare<T<I>...> cmp; typedef composite_key_equal_to<T<I>...> eq; typedef composite_key_hash<T<I>...> hash; };
template <std::size_t I, class H_> auto mkv(const int* k) { return H_{k[I]}; }
template <class X, std::size_t... I> auto stdt(const int* k, std::index_sequence<I...>) { return std::make_tuple(X{k[I]}...); }
template <class X, std::size_t... I> auto bst(const int* k, std::index_sequence<I...>) { return boost::make_tuple(X{k[I]}...); }
static int lex(const int* a, int n, const int* b, int m, const int* dir = nullptr) { for (int i = 0; i < n && i < m; ++i) if (a[i] != b[i]) return ((a[i] < b[i]) == (!dir || dir[i] > 0)) ? -1 : 1; return 0; }
static int diff(const int* a, int n, const int* b, int m) { for (int i = 0; i < n && i < m; ++i) if (a[i] != b[i]) return i; return MAXK; }
static void clr() { memset(ext, 0, sizeof ext); }
static bool late(int p) { for (int i = p + 1; i < MAXK; ++i) if (ext[0][i] || ext[1][i]) return true; return false; }
static std::string show(const int* a, int n) { std::string s = "("; for (int i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(a[i]); return s + ")"; }
#define FCHECK(c, msg) MCHECK(c, "%s: " msg ": %s against %s", what, show(a, n).c_str(), show(b, m).c_str())
static bool digits(long z, int base, int n, int* k) { for (int i = 0; i < n; ++i, z /= base) k[i] = z % base; return z == 0; }
static long ipow(int b, int e) { long r = 1; while (e--) r *= b; return r; }
static int base() { return mini::bound[0] ? mini::bound[0] : 2; }
static V mkV(const int* k, int n) { V v; for (int i = 0; i < MAXK; ++i) v.k[i] = i < n ? k[i] : 77 + i; return v; }
static W mkW(const int* k, int n) { W v; for (int i = 0; i < MAXK; ++i) v.k[MAXK - 1 - i] = i < n ? k[i] : 55 - i; return v; }


// the six operators between a composite key result and a compatible operand; SAME: lengths are equal
template <bool SAME, class A, class B> static void ops(const A& x, const B& y, const int* a, int n, const int* b, int m, const char* what) {
  int r = lex(a, n, b, m); int d = diff(a, n, b, m);
  clr(); bool lt = x < y; if (!lt && r > 0) FCHECK(!late(d), "x<y extracts keys beyond the first difference");
  FCHECK(lt == (r < 0) && (x > y) == (r > 0) && (x <= y) == (r <= 0) && (x >= y) == (r >= 0), "x<y, x>y, x<=y or x>=y is wrong");
  FCHECK((y < x) == (r > 0) && (y > x) == (r < 0) && (y <= x) == (r >= 0) && (y >= x) == (r <= 0), "y<x, y>x, y<=x or y>=x is wrong");
  if constexpr (SAME) {
    clr(); bool e = x == y; if (!e) FCHECK(!late(d), "x==y extracts keys beyond the first difference");
    FCHECK(e == (r == 0) && (x != y) == (r != 0) && (y == x) == (r == 0) && (y != x) == (r != 0), "== or != is wrong");
  }
}
template <class P, class A, class B> static void pcmp(const P& c, const A& x, const B& y, const int* a, int n, const int* b, int m, const int* dir, const char* what) {
  int r = lex(a, n, b, m, dir), d = diff(a, n, b, m);
  clr(); bool lt = c(x, y); if (!lt && r > 0) FCHECK(!late(d), "comparison extracts keys beyond the first difference");
  FCHECK(lt == (r < 0), "composite_key_compare(x,y) is wrong"); FCHECK(c(y, x) == (r > 0), "composite_key_compare(y,x) is wrong");
}
template <class T, std::size_t... I> static auto adds(const int* add, std::index_sequence<I...>) { return CK<T, (int)sizeof...(I)>(K<T, (int)I>(add[I])...); }
template <class P, class F, std::size_t... I> static P pred(const int* st, std::index_sequence<I...>) { return P(F(st[I])...); }
template <class P, class F, std::size_t... I> static P pred_tuple(const int* st, std::index_sequence<I...>) { return P(boost::make_tuple(F(st[I])...)); }
static const int DIRS[5][MAXK] = {{1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {-1, -1, -1, -1, -1, -1, -1, -1, -1, -1}, {1, -1, 1, -1, 1, -1, 1, -1, 1, -1}, {-1, 1, 1, -1, -1, 1, 1, 1, -1, -1}, {1, 1, -1, 1, 1, 1, 1, 1, 1, -1}};

template <int M> static void against(const int* a) {
  constexpr int N = CKN; constexpr bool S = M == N; constexpr int L = M > N ? M : N; auto sn = std::make_index_sequence<N>(); auto sm = std::make_index_sequence<M>(); auto sl = std::make_index_sequence<L>();
  int add0[MAXK], add1[MAXK], raw[MAXK], braw[MAXK], b[MAXK]; for (int i = 0; i < MAXK; ++i) { add0[i] = i + 1; add1[i] = 40 - 3 * i; }
  for (int i = 0; i < N; ++i) raw[i] = a[i] - add0[i];
  V v = mkV(raw, N); auto kx = adds<V>(add0, sn); auto x = kx(v); const int n = N, m = M; CK<W, M> ky = adds<W>(add1, sm); CK<V, M> kz;
  for (long z = 0; digits(z, base(), M, b); ++z) {
    if (!mini::next()) continue;
    const char* what;
    for (int i = 0; i < M; ++i) braw[i] = b[i] - add1[i];
    W w = mkW(braw, M); auto y = ky(w); V v2 = mkV(b, M); auto y2 = kz(v2);
    ops<S>(x, y, a, n, b, m, "results of different composite keys"); ops<S>(x, y2, a, n, b, m, "results over one value type");
    auto ti = stdt<int>(b, sm); auto th = stdt<H>(b, sm); ops<S>(x, ti, a, n, b, m, "std::tuple"); ops<S>(x, th, a, n, b, m, "std::tuple of a compatible type");
    auto bi = bst<int>(b, sm); auto bh = bst<H>(b, sm); ops<S>(x, bi, a, n, b, m, "boost::tuple"); ops<S>(x, bh, a, n, b, m, "boost::tuple of a compatible type");
    typedef typename rep<Cmp, std::make_index_sequence<L>>::cmp P;
    for (int d = 0; d < 5; ++d) {
      const int* dir = DIRS[d]; P c1 = pred<P, Cmp>(dir, sl), c2 = pred_tuple<P, Cmp>(dir, sl), c(c1); c = c2; if (d == 1) c = c1;
      pcmp(c, x, y, a, n, b, m, dir, "composite_key_compare, two results"); pcmp(c, x, y2, a, n, b, m, dir, "composite_key_compare, two results over one value type");
      pcmp(c, x, ti, a, n, b, m, dir, "composite_key_compare, std::tuple"); pcmp(c, x, th, a, n, b, m, dir, "composite_key_compare, std::tuple of a compatible type");
      pcmp(c, x, bi, a, n, b, m, dir, "composite_key_compare, boost::tuple"); pcmp(c, x, bh, a, n, b, m, dir, "composite_key_compare, boost::tuple of a compatible type");
      if constexpr (M == 1) { pcmp(c, x, b[0], a, n, b, m, dir, "composite_key_compare, single key"); pcmp(c, x, H{b[0]}, a, n, b, m, dir, "composite_key_compare, single key of a compatible type"); }
    }
    if constexpr (S) {
      bool lt = lex(a, n, b, m) < 0, gt = lex(a, n, b, m) > 0, e = !lt && !gt; typedef decltype(x) R;
      V v3 = mkV(braw, N); for (int i = 0; i < N; ++i) v3.k[i] = b[i] - add0[i]; R y3 = kx(v3); what = "results of one composite key";
      FCHECK(std::less<R>()(x, y3) == lt && std::less<R>()(y3, x) == gt, "std::less is wrong"); FCHECK(std::greater<R>()(x, y3) == gt && std::greater<R>()(y3, x) == lt, "std::greater is wrong"); FCHECK(std::equal_to<R>()(x, y3) == e && std::equal_to<R>()(y3, x) == e, "std::equal_to is wrong");
      FCHECK(composite_key_result_less<R>()(x, ti) == lt && composite_key_result_less<R>()(ti, x) == gt && composite_key_result_greater<R>()(x, bi) == gt && composite_key_result_greater<R>()(bi, x) == lt && composite_key_result_equal_to<R>()(x, ti) == e && composite_key_result_equal_to<R>()(bi, x) == e, "composite_key_result_less/greater/equal_to is wrong");
      FCHECK(composite_key_result_less<R>()(x, y3) == lt && composite_key_result_greater<R>()(x, y3) == gt && composite_key_result_equal_to<R>()(x, y3) == e, "composite_key_result_less/greater/equal_to of two results is wrong");
      FCHECK(std::less<R>()(x, ti) == lt && std::less<R>()(bi, x) == gt && std::equal_to<R>()(x, bi) == e && std::equal_to<R>()(ti, x) == e, "std::less/equal_to against a tuple is wrong");
      boost::hash<R> h; std::size_t hx = h(x), hy = h(y3); if (e) FCHECK(hx == hy, "equal keys hash differently");
      FCHECK(h(ti) == hy && h(bi) == hy, "boost::hash of a result and of an equal tuple differ"); FCHECK(composite_key_result_hash<R>()(x) == hx && composite_key_result_hash<R>()(ti) == hy, "composite_key_result_hash differs from boost::hash");
      static const int MODS[4][MAXK] = {{100, 100, 100, 100, 100, 100, 100, 100, 100, 100}, {1, 100, 1, 100, 1, 100, 1, 100, 1, 100}, {100, 1, 100, 100, 1, 1, 100, 1, 100, 1}, {2, 100, 100, 2, 1, 2, 100, 100, 100, 1}};
      typedef typename rep<Eq, std::make_index_sequence<N>>::eq Q; typedef typename rep<Hs, std::make_index_sequence<N>>::hash G;
      for (int q = 0; q < 4; ++q) { const int* md = MODS[q]; Q e1 = pred<Q, Eq>(md, sn), e2 = pred_tuple<Q, Eq>(md, sn), ee(e1); ee = e2; int d = MAXK; for (int i = 0; i < N; ++i) if (a[i] % md[i] != b[i] % md[i]) { d = i; break; } bool r = d == MAXK; what = "composite_key_equal_to";
        clr(); bool g = ee(x, y3); FCHECK(g == r && (g || !late(d)), "two results"); FCHECK(ee(x, y) == r && ee(y, x) == r && e1(y3, x) == r, "two results of different composite keys"); clr(); g = ee(x, ti); FCHECK(g == r && (g || !late(d)), "std::tuple"); FCHECK(ee(ti, x) == r && ee(x, th) == r && ee(th, x) == r, "std::tuple"); FCHECK(ee(x, bi) == r && ee(bi, x) == r && ee(x, bh) == r && ee(bh, x) == r, "boost::tuple");
        int mul[MAXK]; for (int i = 0; i < MAXK; ++i) mul[i] = 1000 + q * 17 + i * 131; G g1 = pred<G, Hs>(mul, sn), g2 = pred_tuple<G, Hs>(mul, sn), gg(g1); gg = g2; std::size_t want = g1(y3); what = "composite_key_hash";
        FCHECK(gg(y3) == want && gg(ti) == want && gg(bi) == want && gg(th) == want && gg(bh) == want && (!e || gg(x) == want) && gg(y) == want, "result and equal tuples (or results of other composite keys) hash differently");
        if (z > 0 && !e && base() <= 3) { ++mini::checks; } }
    }
    ++mini::states;
  }
}
template <int M> static void upto(const int* a) { if constexpr (M > 0) { upto<M - 1>(a); if (mini::bound[1] == 0 || M <= mini::bound[1]) against<M>(a); } }
// Results are the same however the value is reached, and predicates keep the state they were given.
template <std::size_t... I> static bool keeps(const CK<V, CKN>& k, const int* add, std::index_sequence<I...>) { bool r = true; auto& t = k.key_extractors(); (void)std::initializer_list<int>{(r = r && boost::tuples::get<I>(t).add == add[I], 0)...}; return r; }
template <class P, std::size_t... I> static bool dirs(const P& c, const int* d, std::index_sequence<I...>) { bool r = true; (void)std::initializer_list<int>{(r = r && boost::tuples::get<I>(c.key_comps()).dir == d[I], 0)...}; return r; }
static void ways(const int* a) {
  if (!mini::next()) return;
  auto sn = std::make_index_sequence<CKN>(); int add[MAXK], raw[MAXK]; for (int i = 0; i < MAXK; ++i) { add[i] = 5 * i + 2; raw[i] = a[i] - add[i]; }
  auto k = adds<V>(add, sn); CK<V, CKN> k2(k.key_extractors()), k3; k3 = k; MCHECK(keeps(k, add, sn) && keeps(k2, add, sn) && keeps(k3, add, sn), "composite_key loses the state of its extractors");
  typedef typename rep<Cmp, std::make_index_sequence<CKN>>::cmp P; for (auto& d : DIRS) MCHECK(dirs(pred<P, Cmp>(d, sn), d, sn) && dirs(pred_tuple<P, Cmp>(d, sn), d, sn), "composite_key_compare loses the state of its comparisons");
  V v = mkV(raw, CKN); const V cv = v; V* p = &v; V** pp = &p; const V* cp = &cv; std::shared_ptr<V> sp(new V(v)); std::unique_ptr<V*> up(new V*(&v)); auto rw = boost::ref(v); auto crw = boost::cref(v); const boost::reference_wrapper<V>* prw = &rw; auto want = stdt<int>(a, sn);
  for (auto* kk : {&k, &k2, &k3}) { auto& K_ = *kk;
    MCHECK(K_(v) == want && K_(cv) == want && K_(p) == want && K_(cp) == want && K_(pp) == want && K_(sp) == want && K_(up) == want && K_(rw) == want && K_(crw) == want && K_(prw) == want && K_(&sp) == want, "key extracted from a pointer, wrapper or chained pointer is wrong for %s", show(a, CKN).c_str());
    auto r = K_(pp); v.k[0] += 3; MCHECK(!(r == want), "the result does not refer to the element"); v.k[0] -= 3; MCHECK(r == want, "the result does not refer to the element"); auto r2 = r; MCHECK(r2 == want && r2 == r, "a copied result differs"); }
}
static void body() {
  mini::section = "composite key operations"; int a[MAXK];
  for (long z = 0; digits(z, base(), CKN, a); ++z) { ways(a); upto<(CKN < 10 ? (CKN < 8 ? CKN + 2 : 10) : 10)>(a); }
  char b[200]; snprintf(b, sizeof b, "composite keys of %d keys over digits 0..%d against results and tuples of every length", CKN, base() - 1); mini::say(b);
}
int main(int c, char** v) { return mini::main_(c, v, body); }
