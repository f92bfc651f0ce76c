// Explicit-state explorer over the real multi_index_container.
//   state      = contents and internal shape of up to two real containers (+ one node handle)
//   transition = one library call (optionally with an injected exception at its k-th user operation)
//   oracle     = plain-array model (model.hpp); every transition is checked completely.
// A configuration (struct Cfg) supplies the container type, index descriptions and the value alphabet.
#ifndef VERIF_ENGINE_HPP
#define VERIF_ENGINE_HPP
#include "model.hpp"
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <iterator>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/identity.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/ref.hpp>
#include <boost/tuple/tuple.hpp>
#ifdef VERIF_PRE
#include VERIF_PRE
#endif
namespace bmi = boost::multi_index;
using namespace rt;

#define VERIF_OPS(X) \
 X(INS) X(INSM) X(EMP) X(INSA) X(INSH) X(INSHM) X(EMPH) X(INSR) \
 X(ERA) X(ERR) X(ERK) X(ERKA) X(REP) X(REPM) X(REPA) \
 X(MOD) X(MODR) X(MODB) X(MODT) X(MODK) X(MODKR) \
 X(EXT) X(EXK) X(NHI) X(NHH) X(NHS) X(NHE) X(NHD) X(CLR) \
 X(PB) X(PF) X(PBM) X(PFM) X(EB) X(EF) X(SIN) X(SINM) X(SEM) X(SINN) X(SR) X(RSZ) X(RSZV) X(POPF) X(POPB) X(ASN) \
 X(RMV) X(RMA) X(RMIF) X(UNQ) X(UNQP) X(SRT) X(SRTC) X(REV) X(RLO) X(RLR) X(RARR) X(RARW) X(SPLS) X(SPLR) X(SPLA) X(SPLO) X(MERS) \
 X(RSV) X(SHR) X(RHS) X(HRS) X(MLF) \
 X(MRG) X(MRG1) X(MRGR) X(SPX) X(SPX1) X(SPXR) X(SMG) X(SMGC) \
 X(SWP) X(SWPI) X(CPA) X(CPAI) X(MVA) X(CPC) X(CPCA) X(MVC) X(MVCA) X(ILA) X(ILAI) X(RNGC) X(RNGL) X(SELFA)
enum OpCode {
#define X(n) O_##n,
  VERIF_OPS(X)
#undef X
  O_NUM };
inline const char* const op_names[] = {
#define X(n) #n,
  VERIF_OPS(X)
#undef X
};
struct Op { uint8_t code = 0, c = 0, i = 0, p = 0, q = 0, r = 0, v = 0, w = 0; uint8_t fault = 0; };
inline std::string op_text(const Op& o) { char b[96]; snprintf(b, sizeof b, "%s %d %d %d %d %d %d %d %d", op_names[o.code], o.c, o.i, o.p, o.q, o.r, o.v, o.w, o.fault); return b; }
inline bool op_parse(const char* s, Op& o) {
  char n[16]; int a[8]; if (sscanf(s, "%15s %d %d %d %d %d %d %d %d", n, a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7) != 9) return false;
  for (int i = 0; i < O_NUM; ++i) if (!strcmp(n, op_names[i])) { o.code = i; o.c = a[0]; o.i = a[1]; o.p = a[2]; o.q = a[3]; o.r = a[4]; o.v = a[5]; o.w = a[6]; o.fault = a[7]; return true; }
  return false;
}

// operation families (compile-time gate: VERIF_FAM)
enum : unsigned { F_INS = 1, F_INS2 = 2, F_HINT = 4, F_ERASE = 8, F_REPL = 16, F_MOD = 32, F_MODK = 64, F_NODE = 128, F_SEQINS = 256, F_SEQREM = 512, F_SEQARR = 1024,
                  F_SPLI = 2048, F_RNDCAP = 4096, F_HPOL = 8192, F_CLR = 16384, F_MERGE = 32768, F_SPLX = 65536, F_WHOLE = 1 << 17, F_RANGE = 1 << 18, F_MLF = 1 << 19 };
#ifndef VERIF_FAM
#define VERIF_FAM 0xffffffffu
#endif
#define HASF(f) ((unsigned)(VERIF_FAM) & (unsigned)(f))

struct BackEx {};
struct Mod { Val v; void operator()(Elem& e) const { phase = 1; tick(K_FN); e.assert_ok(); memcpy(e.k, v.k, sizeof e.k); tick(K_FN); phase = 2; } };
struct Back { Val v; bool thr = false; void operator()(Elem& e) const { phase = 3; tick(K_FN); e.assert_ok(); if (thr) throw BackEx(); memcpy(e.k, v.k, sizeof e.k); phase = 4; } };
struct ModK { int k; void operator()(int& x) const { phase = 1; tick(K_FN); x = k; phase = 2; } };
struct BackK { int k; void operator()(int& x) const { phase = 3; tick(K_FN); x = k; phase = 4; } };

struct Res { int id = -2; int flag = -1; long num = -1; int nhempty = -1; int exc = 0; int copies = 0, moves = 0; int allocs = 0; bool slack = false; };  // exc: 1 Fault, 2 BackEx, 3 out_of_range, 4 other
struct Opts { int nmax = 3; int nmax2 = 2; int depth = 99; int faults = 0; long max_states = 0; double max_s = 1e9; unsigned fam = 0xffffffffu; bool deep = true; bool two = false; int cap_states_report = 0; int faultchain = 0; int xfaults = 0; int xops = 0; };

// ---- accessors for internal shape (only to tell states apart; absent -> coarser black-box fingerprint)
template <class T, class = void> struct has_color : std::false_type {};
template <class T> struct has_color<T, std::void_t<decltype((int)std::declval<T>().get_node()->color()), decltype(std::declval<T>().get_node()->impl()->parent()->parent())>> : std::true_type {};

template <class Cfg> struct Engine {
  typedef typename Cfg::container C;
  static constexpr int N = Cfg::N;
  static constexpr const IDesc* D = Cfg::d;
  typedef typename C::node_type NH;
  typedef typename C::allocator_type A;
  template <int I> using Idx = typename bmi::nth_index<C, I>::type;
  template <int I> using It = typename Idx<I>::iterator;
  ModelOps mo{N, Cfg::d};
  Opts opt;
  static constexpr bool UNEQ = Cfg::unequal;   // the two containers use unequal allocators
  static constexpr bool PCA = std::allocator_traits<A>::propagate_on_container_copy_assignment::value;
  static constexpr bool PMA = std::allocator_traits<A>::propagate_on_container_move_assignment::value;
  static constexpr bool PS = std::allocator_traits<A>::propagate_on_container_swap::value;

  struct World { std::unique_ptr<C> c[2]; NH nh; };

  template <int I> static auto mk1(int dir, int st) {
    typedef typename Idx<I>::ctor_args CA;
    if constexpr (ordered(D[I].kind)) return CA(typename Idx<I>::key_from_value{st}, Less{dir});
    else if constexpr (D[I].kind == HSH) return CA(0, typename Idx<I>::key_from_value{st}, Hash{st}, Eq{st});
    else return CA();
  }
  template <int... I> static typename C::ctor_args_list mkargs(const int* dir, int st, std::integer_sequence<int, I...>) {
    typename C::ctor_args_list l; (void)std::initializer_list<int>{(l.template get<I>() = mk1<I>(dir[I], st), 0)...}; return l;
  }
  static typename C::ctor_args_list mkargs(const MC& m) { return mkargs(m.dir, m.st, std::make_integer_sequence<int, N>()); }
  static A mkalloc(int aid) { if constexpr (std::is_constructible<A, int>::value) return A(aid); else return A(); }
  static int aid_of(const A& a) { return get_aid(a, 0); }
  template <class AA> static auto get_aid(const AA& a, int) -> decltype(a.aid) { return a.aid; }
  template <class AA> static int get_aid(const AA&, long) { return 0; }

  MW initial() const {
    MW m; for (int c = 0; c < 2; ++c) { m.c[c].st = c + 1; m.c[c].aid = UNEQ ? c + 1 : 1; for (int i = 0; i < N; ++i) m.c[c].dir[i] = (c == 1 && Cfg::mixdir) ? -1 : 1; }
    if (std::allocator_traits<A>::is_always_equal::value) m.c[0].aid = m.c[1].aid = 0;
    return m;
  }
  void reset(World& w, const MW& ini) {
    next_id = 0; fault_at = 0; fresh_ids = false; phase = 0; ticks = 0;
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) { w.c[c].reset(); w.c[c].reset(new C(mkargs(ini.c[c]), mkalloc(ini.c[c].aid))); }
  }

  // ---------------------------------------------------------------- helpers on real containers
  template <int I> static It<I> at(C& c, int p) { auto& x = c.template get<I>(); auto it = x.begin(); while (p-- > 0) ++it; return it; }
  template <class T> static int idof(C& c, T it, T end) { (void)c; if (it == end) return -1; it->assert_ok(); return it->id; }
  Elem mk(int vi, int id) const { const Val& v = Cfg::vals[vi]; return Elem(id, v.k[0], v.k[1], v.k[2]); }
  static Val vcopy(const int* k) { Val v; memcpy(v.k, k, sizeof v.k); return v; }
  // modify_key on a key index of the element at hand: the resulting full value
  static Val with_key(const int* old, int i, int key) { Val v = vcopy(old); v.k[D[i].key] = key; return v; }

  template <class F, int... I> static void disp_(int i, F&& f, std::integer_sequence<int, I...>) { (void)std::initializer_list<int>{(i == I ? (f(std::integral_constant<int, I>()), 0) : 0)...}; }
  template <class F> static void disp(int i, F&& f) { disp_(i, std::forward<F>(f), std::make_integer_sequence<int, N>()); }

  // ================================================================ the real call
  template <int I> void real(World& w, const Op& o, Res& R) {
    C& c = *w.c[o.c]; auto& x = c.template get<I>(); typedef Idx<I> X; typedef It<I> T;
    constexpr IKind K = D[I].kind; constexpr bool KEYED = keyed(K), LIST = listlike(K);
    int nid = next_id; (void)nid;
    auto ret = [&](T it) { R.id = idof(c, it, x.end()); };
    auto retp = [&](std::pair<T, bool> p) { ret(p.first); R.flag = p.second; };
    auto setnh = [&](NH&& n) { R.nhempty = n.empty(); w.nh = std::move(n); };
    (void)ret; (void)retp; (void)setnh;
    auto V = [&](int vi) { return Cfg::vals[vi]; }; (void)V;
    switch (o.code) {
      case O_ERA: if constexpr (HASF(F_ERASE)) { ret(x.erase(at<I>(c, o.p))); } return;
      case O_ERR: if constexpr (HASF(F_ERASE)) { ret(x.erase(at<I>(c, o.p), at<I>(c, o.q))); } return;
      case O_REP: if constexpr (HASF(F_REPL)) { Elem e(mk(o.v, next_id++)); R.flag = x.replace(at<I>(c, o.p), (const Elem&)e); } return;
      case O_REPM: if constexpr (HASF(F_REPL)) { Elem e(mk(o.v, next_id++)); R.flag = x.replace(at<I>(c, o.p), std::move(e)); } return;
      case O_REPA: if constexpr (HASF(F_REPL)) { R.flag = x.replace(at<I>(c, o.p), *at<I>(c, o.q)); } return;
      case O_MOD: if constexpr (HASF(F_MOD)) { R.flag = x.modify(at<I>(c, o.p), Mod{V(o.v)}); } return;
      case O_MODR: if constexpr (HASF(F_MOD)) { auto it = at<I>(c, o.p); Val old = vcopy(it->k); R.flag = x.modify(it, Mod{V(o.v)}, Back{old}); } return;
      case O_MODB: if constexpr (HASF(F_MOD)) { R.flag = x.modify(at<I>(c, o.p), Mod{V(o.v)}, Back{V(o.w)}); } return;
      case O_MODT: if constexpr (HASF(F_MOD)) { R.flag = x.modify(at<I>(c, o.p), Mod{V(o.v)}, Back{V(o.v), true}); } return;
      case O_EXT: if constexpr (HASF(F_NODE)) { setnh(x.extract(at<I>(c, o.p))); } return;
      case O_CLR: if constexpr (HASF(F_CLR)) { x.clear(); } return;
      case O_NHD: if constexpr (HASF(F_NODE)) { if (o.p == 0) w.nh = NH(); else { NH t(std::move(w.nh)); NH u; u.swap(t); using std::swap; swap(u, t); u = std::move(t); w.nh = std::move(u); } } return;
      case O_SWPI: if constexpr (HASF(F_WHOLE)) { auto& y = w.c[1 - o.c]->template get<I>(); if (o.p) { using std::swap; swap(x, y); } else x.swap(y); } return;
      case O_CPAI: if constexpr (HASF(F_WHOLE)) { fresh_ids = true; x = (const X&)w.c[1 - o.c]->template get<I>(); fresh_ids = false; } return;
      case O_ILAI: if constexpr (HASF(F_WHOLE)) { std::initializer_list<Elem> l = {mk(o.v, nid), mk(o.w, nid + 1)}; next_id += 2; x = l; } return;
      default: break;
    }
    if constexpr (KEYED) {
      switch (o.code) {
        case O_INS: if constexpr (HASF(F_INS)) { Elem e(mk(o.v, next_id++)); retp(x.insert((const Elem&)e)); } return;
        case O_INSM: if constexpr (HASF(F_INS2)) { Elem e(mk(o.v, next_id++)); retp(x.insert(std::move(e))); } return;
        case O_EMP: if constexpr (HASF(F_INS2)) { int id = next_id++; Val v = V(o.v); retp(x.emplace(id, v.k[0], v.k[1], v.k[2])); } return;
        case O_INSA: if constexpr (HASF(F_INS2)) { fresh_ids = true; retp(x.insert((const Elem&)*at<I>(c, o.p))); fresh_ids = false; } return;
        case O_INSH: if constexpr (HASF(F_HINT)) { Elem e(mk(o.v, next_id++)); ret(x.insert(at<I>(c, o.p), (const Elem&)e)); } return;
        case O_INSHM: if constexpr (HASF(F_HINT)) { Elem e(mk(o.v, next_id++)); ret(x.insert(at<I>(c, o.p), std::move(e))); } return;
        case O_EMPH: if constexpr (HASF(F_HINT)) { int id = next_id++; Val v = V(o.v); ret(x.emplace_hint(at<I>(c, o.p), id, v.k[0], v.k[1], v.k[2])); } return;
        case O_INSR: if constexpr (HASF(F_RANGE)) {
          Elem e[2] = {mk(o.v, nid), mk(o.w, nid + 1)}; next_id += 2;
          if (o.r == 0) x.insert(e, e + 2);
          else if (o.r == 1) x.insert(std::make_move_iterator(e), std::make_move_iterator(e + 2));
          else if (o.r == 2) { Conv q[2] = {{nid, V(o.v).k[0], V(o.v).k[1], V(o.v).k[2]}, {nid + 1, V(o.w).k[0], V(o.w).k[1], V(o.w).k[2]}}; x.insert(q, q + 2); }
          else { std::initializer_list<Elem> l = {mk(o.v, nid), mk(o.w, nid + 1)}; x.insert(l); }
        } return;
        case O_ERK: if constexpr (HASF(F_ERASE)) { R.num = (long)x.erase((int)o.v); } return;
        case O_ERKA: if constexpr (HASF(F_ERASE)) { R.num = (long)x.erase(at<I>(c, o.p)->k[D[I].key]); } return;
        case O_MODK: if constexpr (HASF(F_MODK)) { R.flag = x.modify_key(at<I>(c, o.p), ModK{o.v}); } return;
        case O_MODKR: if constexpr (HASF(F_MODK)) { auto it = at<I>(c, o.p); int old = it->k[D[I].key]; R.flag = x.modify_key(it, ModK{o.v}, BackK{old}); } return;
        case O_EXK: if constexpr (HASF(F_NODE)) { setnh(x.extract((int)o.v)); } return;
        case O_NHI: if constexpr (HASF(F_NODE)) { auto r = x.insert(std::move(w.nh)); CHECK(w.nh.empty(), "insert(node_type&&): the handle passed is not empty afterwards"); ret(r.position); R.flag = r.inserted; setnh(std::move(r.node)); } return;
        case O_NHH: if constexpr (HASF(F_NODE)) { ret(x.insert(at<I>(c, o.p), std::move(w.nh))); R.nhempty = w.nh.empty(); } return;
        case O_NHE: if constexpr (HASF(F_NODE)) {
          if (o.p == 0) { NH e; auto r = x.insert(std::move(e)); ret(r.position); R.flag = r.inserted; R.nhempty = r.node.empty(); }
          else { NH e; ret(x.insert(x.begin(), std::move(e))); R.nhempty = e.empty(); R.flag = 0; }
        } return;
        case O_MRG: if constexpr (HASF(F_MERGE)) { mrg<I>(w, o, R); } return;
        case O_MRG1: if constexpr (HASF(F_MERGE)) { mrg<I>(w, o, R); } return;
        case O_MRGR: if constexpr (HASF(F_MERGE)) { mrg<I>(w, o, R); } return;
        default: break;
      }
    }
    if constexpr (LIST) {
      switch (o.code) {
        case O_PB: if constexpr (HASF(F_SEQINS)) { Elem e(mk(o.v, next_id++)); retp(x.push_back((const Elem&)e)); } return;
        case O_PF: if constexpr (HASF(F_SEQINS)) { Elem e(mk(o.v, next_id++)); retp(x.push_front((const Elem&)e)); } return;
        case O_PBM: if constexpr (HASF(F_SEQINS)) { Elem e(mk(o.v, next_id++)); retp(x.push_back(std::move(e))); } return;
        case O_PFM: if constexpr (HASF(F_SEQINS)) { Elem e(mk(o.v, next_id++)); retp(x.push_front(std::move(e))); } return;
        case O_EB: if constexpr (HASF(F_SEQINS)) { int id = next_id++; Val v = V(o.v); retp(x.emplace_back(id, v.k[0], v.k[1], v.k[2])); } return;
        case O_EF: if constexpr (HASF(F_SEQINS)) { int id = next_id++; Val v = V(o.v); retp(x.emplace_front(id, v.k[0], v.k[1], v.k[2])); } return;
        case O_SIN: if constexpr (HASF(F_SEQINS)) { Elem e(mk(o.v, next_id++)); retp(x.insert(at<I>(c, o.p), (const Elem&)e)); } return;
        case O_SINM: if constexpr (HASF(F_SEQINS)) { Elem e(mk(o.v, next_id++)); retp(x.insert(at<I>(c, o.p), std::move(e))); } return;
        case O_SEM: if constexpr (HASF(F_SEQINS)) { int id = next_id++; Val v = V(o.v); retp(x.emplace(at<I>(c, o.p), id, v.k[0], v.k[1], v.k[2])); } return;
        case O_SINN: if constexpr (HASF(F_RANGE)) { Elem e(mk(o.v, 9999)); fresh_ids = true; x.insert(at<I>(c, o.p), (typename X::size_type)o.q, e); fresh_ids = false; } return;
        case O_SR: if constexpr (HASF(F_RANGE)) {
          Elem e[2] = {mk(o.v, nid), mk(o.w, nid + 1)}; next_id += 2; auto pos = at<I>(c, o.p);
          if (o.r == 0) x.insert(pos, e, e + 2);
          else if (o.r == 1) x.insert(pos, std::make_move_iterator(e), std::make_move_iterator(e + 2));
          else if (o.r == 2) { Conv q[2] = {{nid, V(o.v).k[0], V(o.v).k[1], V(o.v).k[2]}, {nid + 1, V(o.w).k[0], V(o.w).k[1], V(o.w).k[2]}}; x.insert(pos, q, q + 2); }
          else { std::initializer_list<Elem> l = {mk(o.v, nid), mk(o.w, nid + 1)}; x.insert(pos, l); }
        } return;
        case O_RSZ: if constexpr (HASF(F_RANGE)) { x.resize(o.q); } return;
        case O_RSZV: if constexpr (HASF(F_RANGE)) { Elem e(mk(o.v, 9999)); fresh_ids = true; x.resize(o.q, e); fresh_ids = false; } return;
        case O_POPF: if constexpr (HASF(F_SEQREM)) { x.pop_front(); } return;
        case O_POPB: if constexpr (HASF(F_SEQREM)) { x.pop_back(); } return;
        case O_ASN: if constexpr (HASF(F_RANGE)) {
          if (o.r == 0) { Elem e[2] = {mk(o.v, nid), mk(o.w, nid + 1)}; next_id += 2; x.assign(e, e + 2); }
          else if (o.r == 1) { Elem e(mk(o.v, 9999)); fresh_ids = true; x.assign((typename X::size_type)2, e); fresh_ids = false; }
          else { std::initializer_list<Elem> l = {mk(o.v, nid), mk(o.w, nid + 1)}; next_id += 2; x.assign(l); }
        } return;
        case O_RMV: if constexpr (HASF(F_SEQREM)) { Elem e(mk(o.v, 9999)); x.remove(e); } return;
        case O_RMA: if constexpr (HASF(F_SEQREM)) { x.remove(*at<I>(c, o.p)); } return;
        case O_RMIF: if constexpr (HASF(F_SEQREM)) { int k = o.v; x.remove_if([k](const Elem& e) { tick(K_FN); return e.k[0] == k; }); } return;
        case O_UNQ: if constexpr (HASF(F_SEQREM)) { x.unique(); } return;
        case O_UNQP: if constexpr (HASF(F_SEQREM)) { x.unique([](const Elem& a, const Elem& b) { tick(K_FN); return a.k[0] == b.k[0] + 1 || a.k[0] == b.k[0]; }); } return;
        case O_SRT: if constexpr (HASF(F_SEQARR)) { x.sort(); } return;
        case O_SRTC: if constexpr (HASF(F_SEQARR)) { x.sort([](const Elem& a, const Elem& b) { tick(K_FN); return a.k[0] > b.k[0]; }); } return;
        case O_REV: if constexpr (HASF(F_SEQARR)) { x.reverse(); } return;
        case O_RLO: if constexpr (HASF(F_SEQARR)) { x.relocate(at<I>(c, o.p), at<I>(c, o.q)); } return;
        case O_RLR: if constexpr (HASF(F_SEQARR)) { x.relocate(at<I>(c, o.p), at<I>(c, o.q), at<I>(c, o.r)); } return;
        case O_RARR: if constexpr (HASF(F_SEQARR)) { disp(o.r, [&](auto J) { if constexpr (decltype(J)::value != I) { auto& y = c.template get<decltype(J)::value>(); x.rearrange(y.begin()); } }); } return;
        case O_RARW: if constexpr (HASF(F_SEQARR)) { // a view made of reference wrappers: o.p selects the permutation (by index in lexicographic order)
          std::vector<boost::reference_wrapper<const Elem>> v; for (auto& e : x) v.push_back(boost::cref(e));
          std::vector<int> perm; for (size_t j = 0; j < v.size(); ++j) perm.push_back(j);
          for (int k = 0; k < o.p; ++k) std::next_permutation(perm.begin(), perm.end());
          std::vector<boost::reference_wrapper<const Elem>> u; for (int j : perm) u.push_back(v[j]);
          x.rearrange(u.begin());
        } return;
        case O_SPLS: if constexpr (HASF(F_SPLI)) { auto r = x.splice(at<I>(c, o.p), x, at<I>(c, o.q)); retp(r); } return;
        case O_SPLR: if constexpr (HASF(F_SPLI)) { x.splice(at<I>(c, o.p), x, at<I>(c, o.q), at<I>(c, o.r)); } return;
        case O_SPLA: if constexpr (HASF(F_SPLI)) { x.splice(x.end(), x); } return;
        case O_SPLO: if constexpr (HASF(F_SPLI)) { // source iterators from another index of the same container; o.v = index, [q,r) range, w: 0 range, 1 single
          disp(o.v, [&](auto J) { constexpr int JJ = decltype(J)::value; if constexpr (JJ != I) {
            auto& y = c.template get<JJ>(); auto pos = at<I>(c, o.p);
            if (o.w) { auto r = x.splice(pos, y, at<JJ>(c, o.q)); retp(r); } else x.splice(pos, y, at<JJ>(c, o.q), at<JJ>(c, o.r)); } });
        } return;
        case O_MERS: if constexpr (HASF(F_SPLI)) { x.merge(x); } return;
        case O_NHS: if constexpr (HASF(F_NODE)) { auto r = x.insert(at<I>(c, o.p), std::move(w.nh)); CHECK(w.nh.empty(), "insert(pos,node_type&&): the handle passed is not empty afterwards"); ret(r.position); R.flag = r.inserted; setnh(std::move(r.node)); } return;
        case O_NHE: if constexpr (HASF(F_NODE)) { NH e; auto r = x.insert(x.begin(), std::move(e)); ret(r.position); R.flag = r.inserted; R.nhempty = r.node.empty(); } return;
        case O_SPX: case O_SPX1: case O_SPXR: if constexpr (HASF(F_SPLX)) { spx<I>(w, o, R); } return;
        case O_SMG: if constexpr (HASF(F_SPLX)) { x.merge(w.c[1 - o.c]->template get<I>()); } return;
        case O_SMGC: if constexpr (HASF(F_SPLX)) { x.merge(w.c[1 - o.c]->template get<I>(), [](const Elem& a, const Elem& b) { tick(K_FN); return a.k[0] > b.k[0]; }); } return;
        default: break;
      }
    }
    if constexpr (K == RND) {
      switch (o.code) {
        case O_RSV: if constexpr (HASF(F_RNDCAP)) { x.reserve(o.q); CHECK(x.capacity() >= o.q, "reserve(%d): capacity() is %zu", o.q, (size_t)x.capacity()); } return;
        case O_SHR: if constexpr (HASF(F_RNDCAP)) { x.shrink_to_fit(); CHECK(x.capacity() == x.size(), "shrink_to_fit: capacity() %zu, size() %zu", (size_t)x.capacity(), (size_t)x.size()); } return;
        default: break;
      }
    }
    if constexpr (K == HSH) {
      switch (o.code) {
        case O_RHS: if constexpr (HASF(F_HPOL)) { size_t n = hsize(o.q); x.rehash(n); CHECK(x.bucket_count() >= n, "rehash(%zu): bucket_count() is %zu", n, (size_t)x.bucket_count()); } return;
        case O_HRS: if constexpr (HASF(F_HPOL)) { size_t n = hsize(o.q); x.reserve(n); CHECK(x.bucket_count() * x.max_load_factor() >= n, "reserve(%zu) leaves room for fewer elements", n); } return;
        case O_MLF: if constexpr (HASF(F_HPOL) || HASF(F_MLF)) { float f = hmlf(o.q); x.max_load_factor(f); CHECK(x.max_load_factor() == f, "max_load_factor not set"); } return;
        default: break;
      }
    }
    fail("internal: operation %s not available on index %d", op_names[o.code], I);
  }
  static size_t hsize(int q) { static const size_t s[] = {0, 60, 200}; return s[q]; }
  static float hmlf(int q) { static const float f[] = {1.0f, 0.05f, 0.02f}; return f[q]; }

  template <int I> void mrg(World& w, const Op& o, Res& R) {
    C& c = *w.c[o.c]; auto& x = c.template get<I>(); C& s = o.w ? c : *w.c[1 - o.c];
    disp(o.r, [&](auto J) { constexpr int JJ = decltype(J)::value; auto& y = s.template get<JJ>();
      if (o.code == O_MRG) { if (o.v) x.merge(std::move(y)); else x.merge(y); }
      else if (o.code == O_MRG1) { auto p = o.v ? x.merge(std::move(y), at<JJ>(s, o.p)) : x.merge(y, at<JJ>(s, o.p)); R.id = idof(c, p.first, x.end()); R.flag = p.second; }
      else { if (o.v) x.merge(std::move(y), at<JJ>(s, o.p), at<JJ>(s, o.q)); else x.merge(y, at<JJ>(s, o.p), at<JJ>(s, o.q)); } });
  }
  template <int I> void spx(World& w, const Op& o, Res& R) {   // p: destination position; [q,r): source; v: source index; w: rvalue form
    C& c = *w.c[o.c]; auto& x = c.template get<I>(); C& s = *w.c[1 - o.c]; auto pos = at<I>(c, o.p);
    disp(o.v, [&](auto J) { constexpr int JJ = decltype(J)::value; auto& y = s.template get<JJ>();
      if constexpr (UNEQ) fresh_ids = false;
      if (o.code == O_SPX) { if (o.w) x.splice(pos, std::move(y)); else x.splice(pos, y); }
      else if (o.code == O_SPX1) { auto p = o.w ? x.splice(pos, std::move(y), at<JJ>(s, o.q)) : x.splice(pos, y, at<JJ>(s, o.q)); R.id = idof(c, p.first, x.end()); R.flag = p.second; }
      else { if (o.w) x.splice(pos, std::move(y), at<JJ>(s, o.q), at<JJ>(s, o.r)); else x.splice(pos, y, at<JJ>(s, o.q), at<JJ>(s, o.r)); } });
  }

  void real_whole(World& w, const Op& o, const MW& pre, Res& R) {
    (void)R;
    if constexpr (HASF(F_WHOLE)) {
      int d = o.c, s = 1 - o.c; int nid = next_id;
      switch (o.code) {
        case O_SWP: if (o.p) { using std::swap; swap(*w.c[d], *w.c[s]); } else w.c[d]->swap(*w.c[s]); break;
        case O_CPA: fresh_ids = true; { C& r = (*w.c[d] = (const C&)*w.c[s]); CHECK(&r == w.c[d].get(), "operator= does not return *this"); } fresh_ids = false; break;
        case O_SELFA: fresh_ids = true; if (o.p == 0) *w.c[d] = (const C&)*w.c[d]; else if (o.p == 1) w.c[d]->swap(*w.c[d]); else { C& r = *w.c[d]; *w.c[d] = std::move(r); } fresh_ids = false; break;
        case O_MVA: *w.c[d] = std::move(*w.c[s]); break;
        case O_CPC: { fresh_ids = true; std::unique_ptr<C> t(new C((const C&)*w.c[s])); fresh_ids = false; w.c[d] = std::move(t); break; }
        case O_CPCA: { fresh_ids = true; std::unique_ptr<C> t(new C((const C&)*w.c[s], mkalloc(pre.c[d].aid))); fresh_ids = false; w.c[d] = std::move(t); break; }
        case O_MVC: { std::unique_ptr<C> t(new C(std::move(*w.c[s]))); w.c[d] = std::move(t); break; }
        case O_MVCA: { std::unique_ptr<C> t(new C(std::move(*w.c[s]), mkalloc(pre.c[d].aid))); w.c[d] = std::move(t); break; }
        case O_ILA: { std::initializer_list<Elem> l = {mk(o.v, nid), mk(o.w, nid + 1)}; next_id += 2; *w.c[d] = l; break; }
        case O_RNGC: { Elem e[3] = {mk(o.v, nid), mk(o.w, nid + 1), mk(o.p, nid + 2)}; next_id += 3; std::unique_ptr<C> t(new C(e, e + 3, mkargs(pre.c[d]), mkalloc(pre.c[d].aid))); w.c[d] = std::move(t); break; }
        case O_RNGL: { std::initializer_list<Elem> l = {mk(o.v, nid), mk(o.w, nid + 1)}; next_id += 2; std::unique_ptr<C> t(new C(l, mkargs(pre.c[d]), mkalloc(pre.c[d].aid))); w.c[d] = std::move(t); break; }
      }
    }
  }
  static bool whole(int code) { return code >= O_SWP && code != O_SWPI && code != O_CPAI && code != O_ILAI; }
  bool pocca_noop() const { return false; }

  // container c has random access indices, no hashed one, and room for a further element in all of them
  template <int... I> static bool slack(const C& c, std::integer_sequence<int, I...>) {
    bool any = false, all = true; (void)std::initializer_list<int>{([&] { if constexpr (D[I].kind == RND) { any = true; auto& x = c.template get<I>(); if (x.capacity() <= x.size()) all = false; } else if constexpr (D[I].kind == HSH) all = false; }(), 0)...}; return any && all;
  }
  Res call(World& w, const Op& o, const MW& pre) {
    Res R; phase = 0; ++hang_mark; long c0 = ctor_copy, m0 = ctor_move, a0 = allocs; fault_phase = -1; R.slack = slack(*w.c[o.c], std::make_integer_sequence<int, N>());
    if (o.fault) fault_at = ticks + o.fault;
    try {
      if (whole(o.code)) real_whole(w, o, pre, R);
      else disp(o.i, [&](auto I) { this->template real<decltype(I)::value>(w, o, R); });
    } catch (Fault&) { R.exc = 1; }
    catch (BackEx&) { R.exc = 2; }
    catch (Violation&) { fault_at = 0; fresh_ids = false; throw; }
    catch (std::exception& e) { R.exc = 4; }
    fault_at = 0; fresh_ids = false; phase = 0;
    R.copies = int(ctor_copy - c0); R.moves = int(ctor_move - m0); R.allocs = int(allocs - a0);
    return R;
  }
#include "engine_expect.inc"
#include "engine_check.inc"
#include "engine_run.inc"
#ifdef VERIF_EXTRA
#include VERIF_EXTRA
#else
  void deep_extra(World&, const MW&) {}
#endif
};
#endif
