// Concurrent read-only access to one container and concurrent access to different containers, under every
// interleaving of lock operations (conc_rt.cpp).  Compiled with -DVERIF_CSAFE for safe mode.
#ifdef VERIF_CSAFE
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
struct SafeErr { int code; };
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr, code_) do { if (!(expr)) throw SafeErr{(int)(code_)}; } while (0)
#endif
#ifdef VERIF_CINV
#define BOOST_MULTI_INDEX_ENABLE_INVARIANT_CHECKING
#define BOOST_MULTI_INDEX_INVARIANT_ASSERT(x) do { if (!(x)) conc_fail("an internal invariant does not hold"); } while (0)
#endif
#include "conc_rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <utility>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/sequenced_index.hpp>
#include <boost/multi_index/random_access_index.hpp>
#include <boost/multi_index/member.hpp>
using namespace boost::multi_index;

struct E { int a, b; E(int a_ = 0, int b_ = 0) : a(a_), b(b_) {} bool operator==(const E& x) const { return a == x.a && b == x.b; } bool operator<(const E& x) const { return a < x.a || (a == x.a && b < x.b); } };
typedef multi_index_container<E, indexed_by<
  ordered_unique<member<E, int, &E::a>>, ranked_non_unique<member<E, int, &E::b>>, hashed_non_unique<member<E, int, &E::a>>, sequenced<>, random_access<>>> C;
enum { N = 5, NA = 12 };
enum { K_ORD, K_RNK, K_HSH, K_SEQ, K_RND };
template <int I> using It = typename C::nth_index<I>::type::iterator;
template <int I> using Ix = typename C::nth_index<I>::type;

struct Shared { C* s; const void* it[N]; C* p[3]; C* q[3]; void* keep[3]; int keepi[3]; int keepv[3]; long res[3]; bool thrown[3]; } G;
int nelem = 2;
long expect_[3];
struct Prog { int i, a; };
Prog prog[3][2]; int plen[3], nthr = 2;

template <int I> static It<I> shared_it() { return *static_cast<const It<I>*>(G.it[I]); }
template <int I> static const It<I>& shared_ref() { return *static_cast<const It<I>*>(G.it[I]); }
template <int I> static void mkit() { auto& x = G.s->get<I>(); auto i = x.begin(); if (nelem > 1 && I != K_HSH) ++i; G.it[I] = new It<I>(i); }
template <int I> static void delit() { delete static_cast<const It<I>*>(G.it[I]); }

template <int I> static long act(int t, int a) {
  const C& s = *G.s; const Ix<I>& x = s.get<I>(); long r = 0;
  switch (a) {
    case 0: { auto e = x.end(); for (auto i = x.begin(); i != e; ++i) r = r * 7 + i->a + 1; return r; }
    case 1:
      if constexpr (I == K_HSH) { for (size_t b = 0; b < x.bucket_count(); ++b) if (x.bucket_size(b)) for (auto i = x.begin(b), e = x.end(b); i != e; ++i) r = r * 7 + i->b + 1; return r; }
      else { for (auto i = x.rbegin(); i != x.rend(); ++i) r = r * 7 + i->b + 1; return r; }
    case 2:
      if constexpr (I == K_ORD || I == K_RNK) { auto i = x.find(1); r = (i != x.end()) + 2 * (long)x.count(1); auto p = x.equal_range(1); r += p.first != p.second; auto l = x.lower_bound(0), u = x.upper_bound(5); return r * 10 + (l != u); }
      else if constexpr (I == K_HSH) { auto i = x.find(1); r = (i != x.end()) + 2 * (long)x.count(1); auto p = x.equal_range(7); return r * 10 + (p.first == p.second); }
      else if constexpr (I == K_SEQ) return x.front().a * 10 + x.back().a;
      else return x.front().a * 10 + x.back().a + x[0].b + x.at(0).b + x.iterator_to(x[x.size() - 1])->b;
    case 3: { It<I> i = shared_it<I>(); r = i->a; It<I> j = i; ++j; return r * 3 + (j == x.end()); }
    case 4: { It<I> i; i = shared_ref<I>(); It<I> k(i); i = x.end(); i = x.begin(); return i->a + 5 * k->b; }
    case 5: { constexpr int J = (I + 1) % N, L = (I + 2) % N; auto j = s.project<J>(shared_ref<I>()); auto l = s.project<L>(j); return j->a + 3 * l->b + (x.iterator_to(*l) == shared_ref<I>()); }
    case 6: { C c(s); r = (long)c.size(); c.get<I>().erase(c.get<I>().begin()); return r * 3 + (long)c.size(); }
    case 7: { r = (long)x.size() + x.empty() + (long)(x.max_size() > 0); if constexpr (I == K_SEQ || I == K_RND || I == K_ORD) r = r * 2 + (x == x) + 3 * (x < x); else r = r * 2 + (x == x); (void)s.get_allocator(); return r; }
    case 8: { Ix<I>& y = G.p[t]->get<I>(); G.p[t]->get<0>().insert(E(9, t)); auto i = y.begin(); r = y.modify(i, [](E& e) { e.b += 3; }); r += y.replace(i, E(11, 4)); y.erase(i); return r * 10 + (long)y.size(); }
    case 9: { Ix<I>& y = G.p[t]->get<I>(); Ix<I>& z = G.q[t]->get<I>(); if (y.empty()) G.p[t]->insert(E(20, 1)); auto h = y.extract(y.begin()); r = h.value().a;
      if constexpr (I == K_SEQ || I == K_RND) { z.insert(z.begin(), std::move(h)); y.splice(y.end(), z); } else { z.insert(std::move(h)); y.merge(z); }
      G.p[t]->swap(*G.q[t]); return r * 10 + (long)G.p[t]->size() + 3 * (long)G.q[t]->size(); }
    case 10:
      if constexpr (I == K_RNK) { auto i = x.nth(0); r = (long)x.rank(i) + 3 * (long)x.find_rank(1) + 5 * (long)x.lower_bound_rank(1); auto p = x.equal_range_rank(1); return r * 7 + (long)(p.second - p.first); }
      else if constexpr (I == K_ORD) { auto p = x.range([](int k) { return k >= 1; }, unbounded); return p.first->a + 3 * (p.second == x.end()); }
      else if constexpr (I == K_HSH) return (long)x.bucket(1) % 2 + (x.load_factor() < 1) + (x.max_load_factor() > 0) + (long)x.bucket_size(x.bucket(1));
      else if constexpr (I == K_RND) { auto i = x.begin() + ((long)x.size() - 1); return i->a + 3 * (x.end() - i) + (x.capacity() > 0); }
      else { auto i = x.cbegin(); auto e = x.cend(); return (i == e) + i->a; }
    case 11: { It<I>* k = new It<I>(shared_ref<I>()); if (G.keep[t]) { delete static_cast<It<I>*>(G.keep[t]); } G.keep[t] = k; G.keepi[t] = I; G.keepv[t] = (*k)->a; return (*k)->a; }
  }
  return -1;
}
typedef long (*act_t)(int, int);
static const act_t acts[N] = {act<0>, act<1>, act<2>, act<3>, act<4>};
static void drop_keep(int t) { switch (G.keepi[t]) {
#define D(I) case I: delete static_cast<It<I>*>(G.keep[t]); break;
  D(0) D(1) D(2) D(3) D(4) } G.keep[t] = nullptr; }

static void fill(C& c, int n, int base) { for (int i = 0; i < n; ++i) c.insert(E(base + i, 1 + i % 2)); }
static void setup() {
  memset(&G, 0, sizeof G); G.s = new C; fill(*G.s, nelem, 1); mkit<0>(); mkit<1>(); mkit<2>(); mkit<3>(); mkit<4>();
  for (int t = 0; t < nthr; ++t) { G.p[t] = new C; G.q[t] = new C; fill(*G.p[t], 2, 1); fill(*G.q[t], 1, 5); }
}
static void body(int t) {
  long r = 0;
#ifdef VERIF_CSAFE
  try { for (int k = 0; k < plen[t]; ++k) { if (prog[t][k].a == 11 && G.keep[t]) drop_keep(t); r = r * 1009 + acts[prog[t][k].i](t, prog[t][k].a); } } catch (SafeErr& e) { static char b[96]; snprintf(b, sizeof b, "safe mode reports error %d for a correct program", e.code); conc_fail(b); }
#else
  for (int k = 0; k < plen[t]; ++k) { if (prog[t][k].a == 11 && G.keep[t]) drop_keep(t); r = r * 1009 + acts[prog[t][k].i](t, prog[t][k].a); }
#endif
  G.res[t] = r;
}
template <int I> static bool kvalid(int t) {
#ifdef VERIF_CSAFE
  return static_cast<It<I>*>(G.keep[t])->valid();
#else
  (void)t; return true;
#endif
}
static bool keep_valid(int t) { switch (G.keepi[t]) { case 0: return kvalid<0>(t); case 1: return kvalid<1>(t); case 2: return kvalid<2>(t); case 3: return kvalid<3>(t); default: return kvalid<4>(t); } }
template <int I> static long kval(int t) { return (*static_cast<It<I>*>(G.keep[t]))->a; }
static long keep_val(int t) { switch (G.keepi[t]) { case 0: return kval<0>(t); case 1: return kval<1>(t); case 2: return kval<2>(t); case 3: return kval<3>(t); default: return kval<4>(t); } }
static void finish_() {
  static char b[200];
  for (int t = 0; t < nthr; ++t) if (G.res[t] != expect_[t]) { snprintf(b, sizeof b, "thread %d computes %ld, %ld when it runs alone", t + 1, G.res[t], expect_[t]); conc_fail(b); return; }
  for (int t = 0; t < nthr; ++t) if (G.keep[t] && (!keep_valid(t) || keep_val(t) != G.keepv[t])) { snprintf(b, sizeof b, "the iterator kept by thread %d is not valid after the threads ended", t + 1); conc_fail(b); return; }
  // erase the elements one by one: exactly the iterators to them become invalid
  while (!G.s->empty()) { int v = G.s->get<0>().begin()->a; G.s->get<0>().erase(G.s->get<0>().begin());
#ifdef VERIF_CSAFE
    for (int t = 0; t < nthr; ++t) if (G.keep[t]) { bool want = G.keepv[t] > v; if (keep_valid(t) != want) { snprintf(b, sizeof b, "after erasing an element the iterator kept by thread %d is %s", t + 1, want ? "invalid, though it points elsewhere" : "still valid"); conc_fail(b); return; } }
#else
    (void)v;
#endif
  }
  for (int t = 0; t < nthr; ++t) if (G.keep[t]) drop_keep(t);
  delit<0>(); delit<1>(); delit<2>(); delit<3>(); delit<4>(); delete G.s; for (int t = 0; t < nthr; ++t) { delete G.p[t]; delete G.q[t]; }
}
static void finish() {
#ifdef VERIF_CSAFE
  try { finish_(); } catch (SafeErr& e) { conc_fail("safe mode reports an error for correct uses after the threads ended"); }
#else
  finish_();
#endif
}
static int only = -1;
static void one_alone() { int t = only; setup(); body(t); expect_[t] = G.res[t]; }

static std::string text() { std::string s; static const char* ks[] = {"ordered", "ranked", "hashed", "sequenced", "random_access"}; static const char* as[] = {"iterate", "iterate backwards or by bucket", "look up", "copy and increment an iterator", "assign iterators", "project", "copy the container", "observe and compare", "update an own container", "transfer between own containers", "rank/range/bucket/arithmetic", "keep an iterator"};
  for (int t = 0; t < nthr; ++t) { s += t ? " || " : ""; for (int k = 0; k < plen[t]; ++k) s += std::string(k ? "; " : "") + ks[prog[t][k].i] + ": " + as[prog[t][k].a]; } return s; }
static char art[512]; static long curcase = 0; static std::string curtext;
static void crash(int sig) {
  char b[256]; int n = snprintf(b, sizeof b, "CASE %ld\n# crash: signal %d\n", curcase, sig); if (*art) { int f = open(art, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (f >= 0) { (void)!write(f, b, n); close(f); } }
  n = snprintf(b, sizeof b, "FOUND crash (signal %d%s) in case %ld\n", sig, sig == SIGPROF ? ": no progress" : "", curcase); (void)!write(1, b, n); (void)!write(1, curtext.data(), curtext.size()); (void)!write(1, "\n", 1); _exit(1);
}
static double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec / 1e6; }

#ifdef VERIF_BILOCK   // the two-mutex lock that transfers of iterators rely on, taken in both orders and twice on one mutex
#include <boost/multi_index/detail/scoped_bilock.hpp>
static boost::detail::lightweight_mutex* BM[3]; static int BV[3]; static int bpair[3][2];
static void bsetup() { for (auto& m : BM) m = new boost::detail::lightweight_mutex; memset(BV, 0, sizeof BV); }
static void bbody(int t) { int a = bpair[t][0], b = bpair[t][1]; { boost::multi_index::detail::scoped_bilock<boost::detail::lightweight_mutex> l(*BM[a], *BM[b]); ++BV[a]; ++BV[b]; } { boost::multi_index::detail::scoped_bilock<boost::detail::lightweight_mutex> l(*BM[b], *BM[a]); ++BV[a]; ++BV[b]; } }
static void bfinish() { int w[3] = {0, 0, 0}; for (int t = 0; t < nthr; ++t) { w[bpair[t][0]] += 2; w[bpair[t][1]] += 2; } for (int i = 0; i < 3; ++i) if (w[i] != BV[i]) conc_fail("an update under scoped_bilock was lost"); for (auto& m : BM) delete m; }
#endif
int main(int argc, char** argv) {
  int only_i = -1, maxlen = 1, bound = 2; long replay = -1, cap = 20000; double maxs = 1e9; setvbuf(stdout, nullptr, _IOLBF, 0);
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto eq = a.find('='); std::string k = a.substr(0, eq), v = eq == std::string::npos ? "" : a.substr(eq + 1);
    if (k == "--index") only_i = atoi(v.c_str()); else if (k == "--threads") nthr = atoi(v.c_str()); else if (k == "--len") maxlen = atoi(v.c_str()); else if (k == "--elems") nelem = atoi(v.c_str()); else if (k == "--cap") cap = atol(v.c_str()); else if (k == "--bound") bound = atoi(v.c_str()); else if (k == "--max-s") maxs = atof(v.c_str());
    else if (k == "--art") snprintf(art, sizeof art, "%s", v.c_str()); else if (k == "--replay") { FILE* f = fopen(v.c_str(), "r"); char l[4096]; while (f && fgets(l, sizeof l, f)) sscanf(l, "CASE %ld", &replay); if (f) fclose(f); } else return 2; }
  stack_t ss; ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK; for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
  double t0 = now(); long cases = 0, full = 0, bounded = 0, capped = 0, id = 0; std::string sample; const char* v = nullptr; std::string vm; bool out_of_time = false;
  // expected results of every action alone
  auto run = [&]() {
    ++id; if (replay >= 0 && id != replay) return; curcase = id; if (vm.size() || out_of_time) return; if (now() - t0 > maxs) { out_of_time = true; return; }
    curtext = text(); struct itimerval tv = {{0, 0}, {120, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);
    for (int t = 0; t < nthr; ++t) { only = t; conc_plain(one_alone); if ((v = conc_violation())) { vm = v; return; } }
    ++cases; conc_bound = -1; conc_explore(setup, nthr, body, finish, cap);
    if (!conc_violation() && conc_stats.truncated) { conc_bound = bound; conc_explore(setup, nthr, body, finish, cap * 10); if (conc_stats.truncated) ++capped; else ++bounded; } else ++full;
    if ((v = conc_violation())) { vm = v; } else if (cases == 7) sample = curtext;
  };
#ifdef VERIF_BILOCK
  for (nthr = 2; nthr <= 3; ++nthr) for (int k = 0; k < (nthr == 2 ? 81 : 729); ++k) { ++id; if (vm.size() || (replay >= 0 && id != replay)) continue; curcase = id; int z = k; curtext = "scoped_bilock"; for (int t = 0; t < nthr; ++t, z /= 9) { bpair[t][0] = z % 9 / 3; bpair[t][1] = z % 3; curtext += " (" + std::to_string(bpair[t][0]) + "," + std::to_string(bpair[t][1]) + ")"; }
    ++cases; conc_bound = -1; conc_explore(bsetup, nthr, bbody, bfinish, 10000000); ++full; if ((v = conc_violation())) vm = v; }
  goto done;
#endif
  int nact; nact = N * NA; { int lo = only_i < 0 ? 0 : only_i * NA, hi = only_i < 0 ? nact : (only_i + 1) * NA;
  auto P = [](int x) { return Prog{x / NA, x % NA}; };
  if (maxlen == 1 && nthr == 2) { plen[0] = plen[1] = 1; for (int x = lo; x < hi; ++x) for (int y = x; y < nact; ++y) { prog[0][0] = P(x); prog[1][0] = P(y); run(); } }
  else if (maxlen == 1) { for (int t = 0; t < 3; ++t) plen[t] = 1; for (int x = lo; x < hi; ++x) for (int y = x; y < hi; ++y) for (int z = y; z < hi; ++z) { prog[0][0] = P(x); prog[1][0] = P(y); prog[2][0] = P(z); run(); } }
  else { plen[0] = 2; plen[1] = 1; for (int x = lo; x < hi; ++x) for (int x2 = lo; x2 < hi; ++x2) for (int y = lo; y < hi; ++y) { prog[0][0] = P(x); prog[0][1] = P(x2); prog[1][0] = P(y); run(); } } }
  done:
  if (vm.size() && *art) { FILE* f = fopen(art, "w"); if (f) { fprintf(f, "CASE %ld\n# %s\n# %s\n", curcase, curtext.c_str(), vm.c_str()); fclose(f); } }
  if (replay >= 0) { if (vm.size()) { printf("REPRODUCED %s: %s\n", curtext.c_str(), vm.c_str()); return 1; } printf("NOT REPRODUCED\n"); return 0; }
  printf("STATS {\"programs\":%ld,\"programs_all_interleavings\":%ld,\"programs_preemption_bounded\":%ld,\"states\":%ld,\"transitions\":%ld,\"executions\":%ld,\"schedules_pruned_as_equivalent\":%ld,\"max_depth\":%d,\"fixpoint\":%s,\"wall_s\":%.2f,\"sample\":\"%s\"}\n",
         cases, full, bounded, conc_stats.executions, conc_stats.transitions, conc_stats.executions, conc_stats.pruned, conc_stats.max_depth, out_of_time || capped || vm.size() ? "false" : "true", now() - t0, sample.c_str());
  if (vm.size()) { printf("FOUND %s: %s\n", curtext.c_str(), vm.c_str()); return 1; }
  return 0;
}
