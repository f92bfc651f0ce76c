// Key extractors: every predefined extractor over every documented way of reaching an object, and as keys of containers.
#include "mini.hpp"
#include <list>
#include <memory>
#include <tuple>
#include <vector>
#include <boost/ref.hpp>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/key_extractors.hpp>
#include <boost/multi_index/key.hpp>
using namespace boost::multi_index;
static long copies = 0;
struct S {
  mutable int a; int b; const int c; mutable long calls;
  S(int a_ = 0, int b_ = 0, int c_ = 0) : a(a_), b(b_), c(c_), calls(0) {} S(const S& s) : a(s.a), b(s.b), c(s.c), calls(0) { ++copies; } S& operator=(const S& s) { a = s.a; b = s.b; return *this; }
  int cm() const { ++calls; return a; } int cvm() const volatile { return b; } int crm() const& { ++calls; return c; } int cvrm() const volatile& { return b + 100; }
  int m() { ++calls; return a + 1; } int vm() volatile { return b + 1; } int rm() & { ++calls; return c + 1; } int vrm() volatile& { return b + 2; }
  int& ra() const { return a; } const int& kb() const { return b; } int& rb() { return b; } int& rrb() & { return b; } volatile int& vb() volatile { return b; }
  int ncm() const noexcept { return a + 7; } static int sta(const S& s) { return s.a + 9; }
};
struct D : S { int pad[3]; D(int x, int y, int z) : S(x, y, z) {} };
struct Conv { S* p; operator const S&() const { return *p; } };
static int gv(S s) { return s.a * 10 + s.b; } static int gc(const S& s) { return s.a * 10 + s.c; } static int gm(S& s) { return s.b * 10 + s.c; } static const int& gcr(const S& s) { return s.b; } static int& gmr(S& s) { return s.b; } static int& gcmr(const S& s) { return s.a; } static int gvn(S s) noexcept { return s.b + 31; }
enum { VALUE, CREF, MREF };
template <class R> constexpr int kind() { return !std::is_lvalue_reference<R>::value ? VALUE : std::is_const<typename std::remove_reference<R>::type>::value ? CREF : MREF; }
static const char* KN[] = {"a value", "a reference to const", "a reference"};
static int way; static const char* xname;
// x(o) must yield `want`; for references, the very object at `at`; RW: writable
template <int KIND, class X, class O, class At> void one(const X& x, O&& o, int want, At* at) {
  typedef decltype(x(o)) R; X x2(x); X x3; x3 = x;
  for (const X* p : {&x, (const X*)&x2, (const X*)&x3}) { // extractors are copyable and copies are the same function
    MCHECK(kind<R>() == KIND, "%s, way %d: yields %s, not %s", xname, way, KN[kind<R>()], KN[KIND]); long c0 = copies; decltype(auto) r = (*p)(o);
    MCHECK((int)r == want, "%s, way %d: extracts %d instead of %d", xname, way, (int)r, want);
    if constexpr (kind<R>() != VALUE && !std::is_same<At, void>::value) MCHECK((const volatile void*)&r == (const volatile void*)at && copies == c0, "%s, way %d: the reference is not to the element's key", xname, way);
    if constexpr (kind<R>() == MREF) { r = want + 50; MCHECK((int)*at == want + 50, "%s, way %d: writing through the key does not change the element", xname, way); r = want; }
  }
}
// all ways of reaching a mutable / a const object.  MK, CK: kind of result expected from mutable and from const objects
template <int MK, class X, class At> void mutable_ways(const char* n, X x, S& s, D& d, int want, At* at, int dwant, At* dat, bool direct = true) {
  xname = n; S* p = &s; S* const cp = &s; S** pp = &p; S*** ppp = &pp; auto w = boost::ref(s); auto* pw = &w; std::shared_ptr<S> sp(&s, [](S*) {}); std::unique_ptr<S*> up(new S*(&s)); std::shared_ptr<boost::reference_wrapper<S>> spw(new boost::reference_wrapper<S>(s)); S* arr[1] = {&s}; std::list<S*> l(1, &s); D* dp = &d;
  auto go = [&](auto&& o) { ++way; if (!mini::next()) return; ++mini::states; one<MK>(x, o, want, at); };
  way = 0; if (direct) { if constexpr (std::is_invocable<X, S&>::value) go(s); } go(w); go(p); go(cp); go(pp); go(ppp); go(pw); go(sp); go(up); go(spw); go(l.begin()); go(&sp); auto* psp = &sp; go(&psp); const auto cw = w; go(cw); go(arr);
  way = 100; auto god = [&](auto&& o) { ++way; if (!mini::next()) return; ++mini::states; one<MK>(x, o, dwant, dat); }; god(dp); god(&dp); if (direct) { if constexpr (std::is_invocable<X, D&>::value) god(d); }
}
template <int CKIND, bool CP, class X, class At> void const_ways(const char* n, X x, const S& s, const D& d, int want, const At* at, int dwant, const At* dat) {
  xname = n; const S* p = &s; const S** pp = &p; auto w = boost::cref(s); auto* pw = &w; std::shared_ptr<const S> sp(&s, [](const S*) {}); std::unique_ptr<const S*> up(new const S*(&s)); std::list<const S*> l(1, &s); const D* dp = &d; const std::list<const S*>& cl = l; Conv cv{const_cast<S*>(&s)};
  auto go = [&](auto&& o) { ++way; if (!mini::next()) return; ++mini::states; one<CKIND>(x, o, want, const_cast<At*>(at)); };
  way = 200; go(s); go(w); const auto cw = w; go(cw); go(cv); if constexpr (CP) { go(p); go(pp); go(pw); go(sp); go(up); go(l.begin()); go(cl.begin()); go(&sp); }
  way = 300; auto god = [&](auto&& o) { ++way; if (!mini::next()) return; ++mini::states; one<CKIND>(x, o, dwant, const_cast<At*>(dat)); }; god(d); if constexpr (CP) { god(dp); god(&dp); }
}
#define BOTH(MK, CK_, X, want, at) do { auto f = [](S& s) -> int { (void)s; return want; }; auto g = [](S& s) { (void)s; return at; }; mutable_ways<MK>(#X, X(), s, d, f(s), g(s), f(d), g(d)); const_ways<CK_, !(MK == MREF && CK_ == CREF)>(#X, X(), s, d, f(s), g(s), f(d), g(d)); } while (0)
#define MUT(MK, X, want, at) do { auto f = [](S& s) -> int { return want; }; auto g = [](S& s) { (void)s; return at; }; mutable_ways<MK>(#X, X(), s, d, f(s), g(s), f(d), g(d)); } while (0)
template <class A, class B> void same(const char* n) { if (!mini::next()) return; MCHECK((std::is_same<A, B>::value), "%s resolves to another extractor", n); }
#define T_(...) __VA_ARGS__
static void extractors() {
  mini::section = "key extractors";
  typedef member<S, int, &S::b> XM; typedef member<S, const int, &S::c> XMC; typedef const_mem_fun<S, int, &S::cm> XCM; typedef cv_mem_fun<S, int, &S::cvm> XCV; typedef cref_mem_fun<S, int, &S::crm> XCR; typedef cvref_mem_fun<S, int, &S::cvrm> XCVR;
  typedef mem_fun<S, int, &S::m> XMF; typedef volatile_mem_fun<S, int, &S::vm> XV; typedef ref_mem_fun<S, int, &S::rm> XR; typedef vref_mem_fun<S, int, &S::vrm> XVR; typedef const_mem_fun<S, int&, &S::ra> XRA; typedef const_mem_fun<S, const int&, &S::kb> XKB; typedef mem_fun<S, int&, &S::rb> XRB; typedef ref_mem_fun<S, int&, &S::rrb> XRRB;
  typedef global_fun<S, int, &gv> XGV; typedef global_fun<const S&, int, &gc> XGC; typedef global_fun<S&, int, &gm> XGM; typedef global_fun<const S&, const int&, &gcr> XGCR; typedef global_fun<S&, int&, &gmr> XGMR; typedef global_fun<const S&, int&, &gcmr> XGCMR; typedef global_fun<const S&, int, &S::sta> XSTA; typedef BOOST_MULTI_INDEX_MEMBER(S, int, b) XMAC; typedef BOOST_MULTI_INDEX_CONST_MEM_FUN(S, int, cm) XMCM; typedef BOOST_MULTI_INDEX_MEM_FUN(S, int, m) XMMF;
  for (int v = 0; v < 8; ++v) {
    S s(v & 1, 2 + (v >> 1 & 1), 5 + (v >> 2)); D d((v & 1) + 20, 30 + (v >> 1 & 1), 40 + (v >> 2));
    BOTH(MREF, CREF, XM, s.b, &s.b); BOTH(CREF, CREF, XMC, s.c, &s.c); BOTH(MREF, CREF, XMAC, s.b, &s.b);
    BOTH(VALUE, VALUE, XCM, s.a, &s.a); BOTH(VALUE, VALUE, XCV, s.b, &s.a); BOTH(VALUE, VALUE, XCR, s.c, &s.a); BOTH(VALUE, VALUE, XCVR, s.b + 100, &s.a); BOTH(VALUE, VALUE, XMCM, s.a, &s.a);
    MUT(VALUE, XMF, s.a + 1, &s.a); MUT(VALUE, XV, s.b + 1, &s.a); MUT(VALUE, XR, s.c + 1, &s.a); MUT(VALUE, XVR, s.b + 2, &s.a); MUT(VALUE, XMMF, s.a + 1, &s.a);
    BOTH(MREF, MREF, XRA, s.a, &s.a); BOTH(CREF, CREF, XKB, s.b, &s.b); MUT(MREF, XRB, s.b, &s.b); MUT(MREF, XRRB, s.b, &s.b);
    BOTH(VALUE, VALUE, XGV, s.a * 10 + s.b, &s.a); BOTH(VALUE, VALUE, XGC, s.a * 10 + s.c, &s.a); MUT(VALUE, XGM, s.b * 10 + s.c, &s.a); BOTH(CREF, CREF, XGCR, s.b, &s.b); MUT(MREF, XGMR, s.b, &s.b); BOTH(MREF, MREF, XGCMR, s.a, &s.a); BOTH(VALUE, VALUE, XSTA, s.a + 9, &s.a);
    // identity
    if (mini::next()) { identity<S> x; identity<const S> y; S* p = &s; const S* cp = &s; S** pp = &p; auto w = boost::ref(s); auto cw = boost::cref(s); const S& cs = s; std::shared_ptr<S> sp(p, [](S*) {}); std::shared_ptr<const S> csp(p, [](const S*) {}); auto* pw = &w; auto* pcw = &cw; long c0 = copies; D* dp = &d;
      MCHECK(&x(s) == &s && &x(cs) == &s && &x(p) == &s && &x(pp) == &s && &x(w) == &s && &x(cw) == &s && &x(sp) == &s && &x(pw) == &s && &x(d) == &d && &x(dp) == &d, "identity<S> is not the identity"); MCHECK(&y(s) == &s && &y(cs) == &s && &y(p) == &s && &y(cp) == &s && &y(pp) == &s && &y(w) == &s && &y(cw) == &s && &y(sp) == &s && &y(csp) == &s && &y(pw) == &s && &y(pcw) == &s && &y(d) == &d && &y(dp) == &d, "identity<const S> is not the identity"); MCHECK(copies == c0, "identity copies");
      MCHECK(kind<decltype(x(s))>() == MREF && kind<decltype(x(cs))>() == CREF && kind<decltype(x(p))>() == MREF && kind<decltype(x(w))>() == MREF && kind<decltype(x(cw))>() == CREF && kind<decltype(y(s))>() == CREF && kind<decltype(y(p))>() == CREF && kind<decltype(y(w))>() == CREF, "identity yields a reference of the wrong constness"); identity<int> xi; int i = 3; int* ip = &i; xi(ip) = 4; xi(i)++; xi(&ip)++; MCHECK(i == 6, "writing through identity does not change the element"); }
  }
#if __cplusplus >= 201703L
  same<key<&S::b>, XM>("key<member>"); same<key<&S::c>, XMC>("key<const member>"); same<key<&S::cm>, XCM>("key<const member function>"); same<key<&S::cvm>, XCV>("key<const volatile member function>"); same<key<&S::crm>, XCR>("key<const& member function>"); same<key<&S::cvrm>, XCVR>("key<const volatile& member function>");
  same<key<&S::m>, XMF>("key<member function>"); same<key<&S::vm>, XV>("key<volatile member function>"); same<key<&S::rm>, XR>("key<& member function>"); same<key<&S::vrm>, XVR>("key<volatile& member function>"); same<key<&gv>, XGV>("key<function>"); same<key<&gc>, XGC>("key<function of const&>"); same<key<&gm>, XGM>("key<function of &>"); same<key<&S::sta>, XSTA>("key<static member function>");
  { S s(1, 2, 3); D d(20, 30, 40); typedef key<&S::ncm> XN; typedef key<&gvn> XGN; BOTH(VALUE, VALUE, XN, s.a + 7, &s.a); BOTH(VALUE, VALUE, XGN, s.b + 31, &s.a); }
  same<key<&S::b, &S::c>, composite_key<S, XM, XMC>>("key<two members>"); same<key<&S::b, &S::cm, &gc, &gv>, composite_key<S, XM, XCM, XGC, XGV>>("key<four extractors>");
  if (mini::next()) { S s(1, 2, 3); typedef key<&S::a, &S::b, &S::c, &S::a, &S::b, &S::c, &S::a, &S::b, &S::c, &S::a> K10; typedef key<&S::a, &S::b, &S::c, &S::a, &S::b> K5; MCHECK(K10()(s) == std::make_tuple(1, 2, 3, 1, 2, 3, 1, 2, 3, 1) && K10()(&s) == std::make_tuple(1, 2, 3, 1, 2, 3, 1, 2, 3, 1) && !(K10()(s) == std::make_tuple(1, 2, 3, 1, 2, 3, 1, 2, 3, 2)) && K5()(s) < std::make_tuple(1, 2, 3, 1, 3), "key<> of ten members is wrong"); }
  if (mini::next()) { D d(1, 2, 3); key<&S::b, &D::pad> kk; (void)kk; MCHECK((std::is_same<typename key<&S::b, &D::pad>::value_type, D>::value), "key<> of a base and a derived class is not over the derived class"); key<&S::a, &S::b, &S::c> k3; auto* p = &d; MCHECK(k3(d) == std::make_tuple(1, 2, 3) && k3(p) == std::make_tuple(1, 2, 3) && !(k3(&p) == std::make_tuple(1, 2, 4)), "key<> of three members is wrong"); }
#endif
}

// Containers keyed through extractors: all operation sequences to a depth.
struct M { int a, b, id; };
static std::vector<std::unique_ptr<S>> pool;
template <class E> struct mk; 
template <> struct mk<S> { static S f(int a, int b, int id) { return S(a, b, id); } static const S& g(const S& s) { return s; } };
template <> struct mk<S*> { static S* f(int a, int b, int id) { pool.emplace_back(new S(a, b, id)); return pool.back().get(); } static const S& g(S* s) { return *s; } };
template <> struct mk<std::shared_ptr<S>> { static std::shared_ptr<S> f(int a, int b, int id) { return std::make_shared<S>(a, b, id); } static const S& g(const std::shared_ptr<S>& s) { return *s; } };
template <> struct mk<boost::reference_wrapper<S>> { static boost::reference_wrapper<S> f(int a, int b, int id) { pool.emplace_back(new S(a, b, id)); return boost::ref(*pool.back()); } static const S& g(const boost::reference_wrapper<S>& s) { return s.get(); } };
template <> struct mk<D> { static D f(int a, int b, int id) { return D(a, b, id); } static const S& g(const D& s) { return s; } };
template <class E, class XA, class XB> struct Box {
  typedef multi_index_container<E, indexed_by<ordered_unique<XA>, ordered_non_unique<XB>, hashed_non_unique<XB>>> C;
  static void check(const C& c, const std::vector<M>& m, const std::string& h, const char* nm) {
    auto has = [&](const S& s) { for (auto& x : m) if (x.id == s.c && x.a == s.a && x.b == s.b) return true; return false; };
    int n = 0, p = -1; for (auto& e : c) { const S& s = mk<E>::g(e); MCHECK(has(s) && s.a > p, "%s: ordered_unique index is wrong after%s", nm, h.c_str()); p = s.a; ++n; } MCHECK(n == (int)m.size() && c.size() == m.size(), "%s: %d elements instead of %d after%s", nm, n, (int)m.size(), h.c_str());
    n = 0; p = -1; for (auto& e : c.template get<1>()) { const S& s = mk<E>::g(e); MCHECK(has(s) && s.b >= p, "%s: ordered_non_unique index is wrong after%s", nm, h.c_str()); p = s.b; ++n; } MCHECK(n == (int)m.size(), "%s: ordered_non_unique index is wrong after%s", nm, h.c_str());
    for (int k = 0; k < 3; ++k) { int wa = 0, wb = 0; for (auto& x : m) { wa += x.a == k; wb += x.b == k; } MCHECK((int)c.count(k) == wa && (int)c.template get<1>().count(k) == wb && (int)c.template get<2>().count(k) == wb, "%s: count(%d) is wrong after%s", nm, k, h.c_str()); }
  }
  static void run(const char* nm, int depth) { for (int l = 1; l <= depth; ++l) { std::vector<int> ops; rec(nm, ops, l); } }
  static void rec(const char* nm, std::vector<int>& ops, int left) {
    if (left == 0) { if (mini::next()) exec(nm, ops); return; }
    for (int o = 0; o < 9 + 18 + 3; ++o) { ops.push_back(o); bool useless = o >= 9 && ops.size() == 1; if (!useless) rec(nm, ops, left - 1); ops.pop_back(); }
  }
  static void exec(const char* nm, const std::vector<int>& ops) {
    pool.clear(); C c; std::vector<M> m; std::string h; int id = 0; bool last = false;
    for (std::size_t q = 0; q < ops.size(); ++q) { int o = ops[q]; last = q + 1 == ops.size();
      if (o < 9) { int a = o % 3, b = o / 3; h += " insert(" + std::to_string(a) + "," + std::to_string(b) + ")"; bool ok = true; for (auto& x : m) ok = ok && x.a != a; bool r = c.insert(mk<E>::f(a, b, ++id)).second; MCHECK(r == ok, "%s: insert returns %d after%s", nm, r, h.c_str()); if (ok) m.push_back({a, b, id}); }
      else { int p = o < 27 ? (o - 9) % 3 : o - 27, z = (o - 9) / 3; if (p >= (int)m.size()) return; auto it = c.begin(); std::advance(it, p); int wid = mk<E>::g(*it).c; int j = 0; while (m[j].id != wid) ++j;
        if (o >= 27) { h += " erase#" + std::to_string(p); c.erase(it); m.erase(m.begin() + j); }
        else if (z < 3) { h += " modify_key<0>#" + std::to_string(p) + "=" + std::to_string(z); bool ok = true; for (auto& x : m) ok = ok && (x.id == wid || x.a != z); bool r = c.modify_key(it, [=](int& k) { k = z; }); MCHECK(r == ok, "%s: modify_key returns %d after%s", nm, r, h.c_str()); if (ok) m[j].a = z; else m.erase(m.begin() + j); }
        else { z -= 3; h += " modify_key<1>#" + std::to_string(p) + "=" + std::to_string(z); auto i1 = c.template project<1>(it); bool r = c.template get<1>().modify_key(i1, [=](int& k) { k = z; }, [](int&) {}); MCHECK(r, "%s: modify_key returns false after%s", nm, h.c_str()); m[j].b = z; } }
      if (last) { ++mini::states; check(c, m, h, nm); } }
  }
};
static void containers() {
  mini::section = "containers keyed by extractors"; int n = mini::bound[0] ? mini::bound[0] : 3; typedef std::shared_ptr<S> P; typedef boost::reference_wrapper<S> R;
  Box<S, const_mem_fun<S, int&, &S::ra>, member<S, int, &S::b>>::run("S: const_mem_fun, member", n); Box<D, global_fun<const S&, int&, &gcmr>, member<S, int, &S::b>>::run("derived: global_fun, member", n);
  Box<S*, mem_fun<S, int&, &S::rb>, const_mem_fun<S, int&, &S::ra>>* unused = nullptr; (void)unused;
  Box<S*, member<S, int, &S::a>, mem_fun<S, int&, &S::rb>>::run("S*: member, mem_fun", n); Box<P, const_mem_fun<S, int&, &S::ra>, global_fun<S&, int&, &gmr>>::run("shared_ptr: const_mem_fun, global_fun", n); Box<R, global_fun<const S&, int&, &gcmr>, ref_mem_fun<S, int&, &S::rrb>>::run("reference_wrapper: global_fun, ref_mem_fun", n); Box<P, member<S, int, &S::a>, mem_fun<S, int&, &S::rb>>::run("shared_ptr: member, mem_fun", n); Box<R, const_mem_fun<S, int&, &S::ra>, member<S, int, &S::b>>::run("reference_wrapper: const_mem_fun, member", n);
  mini::say("elements S*: insert(1,0) modify_key<0>#0=2 modify_key<1>#0=1");
}
static void body() { if (mini::bound[0]) containers(); else { extractors(); mini::say("const_mem_fun applied to shared_ptr<reference_wrapper<S>>"); } }
int main(int c, char** v) { return mini::main_(c, v, body); }
