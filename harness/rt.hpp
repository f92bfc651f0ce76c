// Runtime shared by all harnesses: instrumented element / functors / allocator, fault injection,
// bookkeeping of element and memory lifetimes, and failure reporting with a replayable history.
#ifndef VERIF_RT_HPP
#define VERIF_RT_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <memory>
#include <new>
#include <utility>
#include <functional>
#include <iterator>
#include <type_traits>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <time.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

#ifdef VERIF_INV      // invariant-checking mode: a failed internal check ends the process (and is reported)
#define BOOST_MULTI_INDEX_ENABLE_INVARIANT_CHECKING
#define BOOST_MULTI_INDEX_INVARIANT_ASSERT(e) (([&] { ::rt::Disarm da_; return (e); }()) ? (void)0 : (printf("INVARIANT-CHECK failed: %s\n", #e), fflush(stdout), abort()))
#endif
#ifdef VERIF_SAFE     // build the library in safe mode, diagnoses reported by exception
#define BOOST_MULTI_INDEX_ENABLE_SAFE_MODE
#include <boost/multi_index/safe_mode_errors.hpp>
#include <exception>
struct SafeErr : std::exception { int code; explicit SafeErr(int c) : code(c) {} };
[[noreturn]] inline void safe_fail(int c) { throw SafeErr(c); }
#define BOOST_MULTI_INDEX_SAFE_MODE_ASSERT(expr, code) ((expr) ? (void)0 : ::safe_fail((int)(code)))
inline const char* safe_name(int c) {
  static const char* n[] = {"invalid_iterator", "not_dereferenceable_iterator", "not_incrementable_iterator", "not_decrementable_iterator", "not_owner", "not_same_owner",
                            "invalid_range", "inside_range", "out_of_bounds", "same_container", "unequal_allocators"};
  return c >= 0 && c < 11 ? n[c] : "no error";
}
#endif

namespace rt {

// ---------------------------------------------------------------- user-operation ticks and faults
enum Kind { K_COPY, K_MOVE, K_ASSIGN, K_MASSIGN, K_DEFAULT, K_CMP, K_HASH, K_EQ, K_KEY, K_ALLOC, K_FN, K_ECMP, K_EEQ, K_NUM };
inline const char* kind_name(int k) {
  static const char* n[] = {"copy", "move", "assign", "move-assign", "default-construct", "compare", "hash", "equal",
                            "key-extract", "allocate", "functor", "element-less", "element-equal"};
  return k >= 0 && k < K_NUM ? n[k] : "?";
}
struct Fault { int kind; };

inline long ticks = 0;          // user-provided operations executed so far
inline long cnt[K_NUM] = {0};   // by kind
inline long fault_at = 0;       // throw when ticks reaches this value (0: never)
inline int phase = 0;           // set by modifiers, recorded when a fault fires
inline int fault_phase = -1, fault_kind = -1;
inline bool armed = true;       // user operations of the oracle itself are not counted

inline void tick(int k) {
  if (!armed) return;
  ++ticks; ++cnt[k];
  if (fault_at && ticks == fault_at) { fault_at = 0; fault_phase = phase; fault_kind = k; throw Fault{k}; }
}
struct Disarm { bool o; Disarm() : o(armed) { armed = false; } ~Disarm() { armed = o; } };

// ---------------------------------------------------------------- reporting
struct Violation { std::string msg; };
[[noreturn]] inline void fail(const char* f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char* f, ...) {
  char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  throw Violation{b};
}
#define CHECK(c, ...) do { if (!(c)) ::rt::fail(__VA_ARGS__); } while (0)

// Current history, dumped when the process dies (sanitizer report, signal, hang).
inline std::function<std::string()> describe_current;
inline std::string out_path;   // replay artefact
inline void write_artifact(const std::string& msg) {
  std::string s = describe_current ? describe_current() : std::string();
  if (!out_path.empty()) {
    FILE* f = fopen(out_path.c_str(), "w");
    if (f) { fprintf(f, "%s# %s\n", s.c_str(), msg.c_str()); fclose(f); }
  }
}
inline void die_cb() { static bool done; if (!done) { done = true; write_artifact("process died (sanitizer report, abort or signal)"); } }
inline void on_sig(int s) { die_cb(); signal(s, SIG_DFL); raise(s); }
inline long hang_mark = 0, hang_seen = -1; inline int hang_n = 0; inline int hang_limit = 20;
inline void on_alarm(int) {
  if (hang_mark == hang_seen) {
    if (++hang_n >= hang_limit) { write_artifact("hang: one operation did not finish"); fprintf(stdout, "HANG\n"); fflush(stdout); _exit(3); }
  } else { hang_seen = hang_mark; hang_n = 0; }
}
inline void install_handlers() {
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback(die_cb);
#endif
  static char altst[1 << 16];
  stack_t ss; ss.ss_sp = altst; ss.ss_size = sizeof altst; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  struct sigaction al; memset(&al, 0, sizeof al); al.sa_handler = on_alarm; sigaction(SIGVTALRM, &al, nullptr);
  struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);   // virtual (CPU) time: load on the machine cannot fake a hang
}
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- element
inline long live = 0;           // constructed and not destroyed elements
inline long ctor_copy = 0, ctor_move = 0;
inline int next_id = 0;
inline bool fresh_ids = false;  // copy construction assigns a new identity

struct Elem {
  int id; int k[3]; bool moved; const Elem* self;
  static constexpr uintptr_t MASK = 0x5a5a5a5a;
  void enter() { ++live; self = (const Elem*)((uintptr_t)this ^ MASK); moved = false; }
  bool ok() const { return self == (const Elem*)((uintptr_t)this ^ MASK); }
  Elem() { tick(K_DEFAULT); enter(); id = next_id++; k[0] = k[1] = k[2] = 0; }
  Elem(int i, int a, int b, int c) { enter(); id = i; k[0] = a; k[1] = b; k[2] = c; }
  Elem(const Elem& x) {
    tick(K_COPY); x.assert_ok(); ++ctor_copy; enter();
    id = fresh_ids ? next_id++ : x.id; memcpy(k, x.k, sizeof k); moved = x.moved;
  }
  Elem(Elem&& x) { tick(K_MOVE); x.assert_ok(); ++ctor_move; enter(); id = x.id; memcpy(k, x.k, sizeof k); moved = x.moved; x.moved = true; }
  Elem& operator=(const Elem& x) { tick(K_ASSIGN); assert_ok(); x.assert_ok(); memcpy(k, x.k, sizeof k); moved = x.moved; return *this; } // keeps identity
  Elem& operator=(Elem&& x) { tick(K_MASSIGN); assert_ok(); x.assert_ok(); memcpy(k, x.k, sizeof k); moved = x.moved; if (this != &x) x.moved = true; return *this; }
  ~Elem() { if (!ok()) { fprintf(stdout, "DOUBLE-DESTROY or destruction of a non-object\n"); fflush(stdout); abort(); } --live; self = nullptr; }
  void assert_ok() const { if (!ok()) { fprintf(stdout, "use of a destroyed element\n"); fflush(stdout); abort(); } }
};
inline int cmp3(const Elem& x, const Elem& y) { for (int i = 0; i < 3; ++i) if (x.k[i] != y.k[i]) return x.k[i] < y.k[i] ? -1 : 1; return 0; }
inline bool operator<(const Elem& x, const Elem& y) { tick(K_ECMP); x.assert_ok(); y.assert_ok(); return cmp3(x, y) < 0; }
inline bool operator==(const Elem& x, const Elem& y) { tick(K_EEQ); x.assert_ok(); y.assert_ok(); return cmp3(x, y) == 0; }

struct Conv { int id, a, b, c; operator Elem() const { return Elem(id, a, b, c); } };   // converts to Elem: exercises emplace paths

// ---------------------------------------------------------------- functors
template <int F> struct Key {   // read/write key extractor
  typedef int result_type;
  int state = 0;
  int& operator()(Elem& e) const { tick(K_KEY); e.assert_ok(); return e.k[F]; }
  const int& operator()(const Elem& e) const { tick(K_KEY); e.assert_ok(); return e.k[F]; }
};
// Heterogeneous key: half-integers, 2*k is "equal to k", odd values fall between keys.
struct Half { int h; };
struct Prom { int k; operator int() const { return k; } };   // converts to the key type: takes the library's key promotion path
struct Less {
  int dir = 1;     // state: 1 ascending, -1 descending
  bool operator()(int x, int y) const { tick(K_CMP); return dir > 0 ? x < y : y < x; }
  bool operator()(Half x, int y) const { tick(K_CMP); return dir > 0 ? x.h < 2 * y : 2 * y < x.h; }
  bool operator()(int x, Half y) const { tick(K_CMP); return dir > 0 ? 2 * x < y.h : y.h < 2 * x; }
};
struct HalfLess {  // external compatible comparison (ascending)
  int dir = 1;
  bool operator()(Half x, int y) const { tick(K_CMP); return dir > 0 ? x.h < 2 * y : 2 * y < x.h; }
  bool operator()(int x, Half y) const { tick(K_CMP); return dir > 0 ? 2 * x < y.h : y.h < 2 * x; }
};
struct Grp { int g; };       // compatible key coarser than the key: the keys 2g and 2g+1
struct GrpLess {
  int dir = 1;
  bool operator()(Grp x, int y) const { tick(K_CMP); return dir > 0 ? x.g < y / 2 : y / 2 < x.g; }
  bool operator()(int x, Grp y) const { tick(K_CMP); return dir > 0 ? x / 2 < y.g : y.g < x / 2; }
};
// Hash with engineered collisions: 0 and 2 have equal hashes; 1 shares their bucket only for 53 buckets; 3 is separate.
inline std::size_t hraw(int k) { switch (k & 3) { case 0: return 0; case 1: return 53; case 2: return 0; default: return 1; } }
struct Hash {
  int state = 0;
  std::size_t operator()(int k) const { tick(K_HASH); return hraw(k); }
  std::size_t operator()(Half k) const { tick(K_HASH); return (k.h & 1) ? 1000 + (std::size_t)k.h : hraw(k.h / 2); }
};
struct Eq {
  int state = 0;
  bool operator()(int x, int y) const { tick(K_EQ); return x == y; }
  bool operator()(Half x, int y) const { tick(K_EQ); return x.h == 2 * y; }
  bool operator()(int x, Half y) const { tick(K_EQ); return y.h == 2 * x; }
};

// ---------------------------------------------------------------- allocator
inline bool g_soccc = false;   // select_on_container_copy_construction yields a different allocator
struct Blk { uint64_t magic; std::size_t n, sz; int aid; int pad; };
inline long blocks = 0, bytes = 0; constexpr std::size_t RZ = 64;   // red zone after every block
inline std::vector<std::string> alloc_errors;
inline long allocs = 0;
inline int ok_aid[4], n_ok_aid = -1;   // while an operation runs: ids of the allocators of the containers it concerns (-1: anything goes)
struct OkAids { OkAids() { n_ok_aid = 0; } void add(int a) { ok_aid[n_ok_aid++] = a; } ~OkAids() { n_ok_aid = -1; } };
template <class T> inline T* raw_alloc(std::size_t n, int aid) {
  tick(K_ALLOC);
  if (n_ok_aid >= 0) { bool ok = false; for (int i = 0; i < n_ok_aid; ++i) ok |= ok_aid[i] == aid; if (!ok) alloc_errors.push_back("allocate: through an allocator not equal to that of a container concerned"); }
  constexpr std::size_t off = (sizeof(Blk) + 31) / 32 * 32;
  char* p = (char*)::operator new(off + n * sizeof(T) + RZ);
  Blk* b = (Blk*)p; b->magic = 0xB10CB10CB10CB10Cull; b->n = n; b->sz = sizeof(T); b->aid = aid;
  ++blocks; ++allocs; bytes += n * sizeof(T);
  memset(p + off, 0xCD, n * sizeof(T)); memset(p + off + n * sizeof(T), 0xFB, RZ);
  return (T*)(p + off);
}
template <class T> inline void raw_dealloc(T* q, std::size_t n, int aid) {
  constexpr std::size_t off = (sizeof(Blk) + 31) / 32 * 32;
  char* p = (char*)q - off; Blk* b = (Blk*)p;
  if (b->magic != 0xB10CB10CB10CB10Cull) { alloc_errors.push_back("deallocate: not an allocated block (or freed twice)"); return; }
  if (b->n != n || b->sz != sizeof(T)) { alloc_errors.push_back("deallocate: size differs from the allocation's"); }
  if (b->aid != aid) { alloc_errors.push_back("deallocate: through an allocator not equal to the allocating one"); }
  for (std::size_t i = 0; i < RZ; ++i) if ((unsigned char)((char*)q + b->n * b->sz)[i] != 0xFB) { alloc_errors.push_back("a write past the end of an allocated block"); break; }
  b->magic = 0; --blocks; bytes -= b->n * b->sz;
  memset(q, 0xDD, b->n * b->sz);
  ::operator delete(p);
}
// PCA/PMA/PS: propagate on copy assignment / move assignment / swap.  AE: is_always_equal.
template <class T, bool PCA, bool PMA, bool PS, bool AE> struct Alloc {
  typedef T value_type;
  typedef std::integral_constant<bool, PCA> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool, PMA> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool, PS> propagate_on_container_swap;
  typedef std::integral_constant<bool, AE> is_always_equal;
  template <class U> struct rebind { typedef Alloc<U, PCA, PMA, PS, AE> other; };
  int aid;
  Alloc(int i = 0) : aid(AE ? 0 : i) {}
  template <class U> Alloc(const Alloc<U, PCA, PMA, PS, AE>& x) : aid(x.aid) {}
  Alloc(const Alloc&) = default;
  Alloc& operator=(const Alloc&) = default;
  T* allocate(std::size_t n) { return raw_alloc<T>(n, aid); }
  void deallocate(T* p, std::size_t n) { raw_dealloc<T>(p, n, aid); }
  Alloc select_on_container_copy_construction() const { Alloc r(*this); r.aid = AE ? 0 : aid + (soccc && aid < 100 ? 100 : 0); return r; }
  static inline bool& soccc = ::rt::g_soccc;
  friend bool operator==(const Alloc& x, const Alloc& y) { return x.aid == y.aid; }
  friend bool operator!=(const Alloc& x, const Alloc& y) { return x.aid != y.aid; }
};
typedef Alloc<Elem, false, false, false, false> BasicAlloc;
typedef Alloc<Elem, true, true, true, false> PropAlloc;
typedef Alloc<Elem, true, false, false, false> PcaAlloc;
typedef Alloc<Elem, false, true, false, false> PmaAlloc;
typedef Alloc<Elem, false, false, true, false> PsAlloc;
typedef Alloc<Elem, false, false, false, true> AeAlloc;

// Fancy pointer: knows its own address (a bitwise copy of the object is not a copy of the pointer), never null when dereferenced, counts dereferences.
inline long derefs = 0;
template <class T> class FP {
  T* p; const void* self;
  void set(const volatile void* q) { p = (T*)q; self = this; }
  template <class U> friend class FP;
public:
  typedef T element_type; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef typename std::add_lvalue_reference<T>::type reference; typedef T* pointer; typedef std::random_access_iterator_tag iterator_category;
  template <class U> struct rebind { typedef FP<U> other; };
  T* get() const { if (self != (const void*)this) { printf("use of a pointer object that was never constructed or was copied bitwise\n"); fflush(stdout); abort(); } return p; }
  FP() { set(nullptr); } FP(T* q) { set(q); }
  FP(const FP& x) { set(x.get()); } FP& operator=(const FP& x) { set(x.get()); return *this; }
  template <class U, class = typename std::enable_if<std::is_convertible<U*, T*>::value>::type> FP(const FP<U>& x) { set((T*)x.get()); }
  template <class U, class = typename std::enable_if<!std::is_convertible<U*, T*>::value>::type, class = decltype(static_cast<T*>((U*)0))> explicit FP(const FP<U>& x) { set(static_cast<T*>(x.get())); }
  T* operator->() const { ++derefs; T* q = get(); if (!q) { printf("dereference of a null pointer\n"); fflush(stdout); abort(); } return q; }
  reference operator*() const { ++derefs; return *get(); }   // the library forms &*p of null and past-the-end pointers; an access through them would trap
  reference operator[](std::ptrdiff_t n) const { return *(*this + n); }
  explicit operator bool() const { return get() != nullptr; } bool operator!() const { return get() == nullptr; }
  template <class U> static FP pointer_to(U& r) { return FP(std::addressof(r)); }
  FP& operator++() { set(get() + 1); return *this; } FP operator++(int) { FP t(*this); ++*this; return t; } FP& operator--() { set(get() - 1); return *this; } FP operator--(int) { FP t(*this); --*this; return t; }
  FP& operator+=(std::ptrdiff_t n) { set(get() + n); return *this; } FP& operator-=(std::ptrdiff_t n) { set(get() - n); return *this; }
  friend FP operator+(const FP& x, std::ptrdiff_t n) { return FP(x.get() + n); } friend FP operator+(std::ptrdiff_t n, const FP& x) { return FP(x.get() + n); } friend FP operator-(const FP& x, std::ptrdiff_t n) { return FP(x.get() - n); }
  friend std::ptrdiff_t operator-(const FP& x, const FP& y) { return x.get() - y.get(); }
  friend bool operator==(const FP& x, const FP& y) { return x.get() == y.get(); } friend bool operator!=(const FP& x, const FP& y) { return x.get() != y.get(); }
  friend bool operator<(const FP& x, const FP& y) { return x.get() < y.get(); } friend bool operator>(const FP& x, const FP& y) { return y.get() < x.get(); } friend bool operator<=(const FP& x, const FP& y) { return x.get() <= y.get(); } friend bool operator>=(const FP& x, const FP& y) { return x.get() >= y.get(); }
};
template <class T> struct FancyA {
  typedef T value_type; typedef FP<T> pointer; typedef FP<const T> const_pointer; typedef FP<void> void_pointer; typedef FP<const void> const_void_pointer; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  typedef std::true_type propagate_on_container_swap; typedef std::false_type propagate_on_container_copy_assignment, propagate_on_container_move_assignment, is_always_equal;
  template <class U> struct rebind { typedef FancyA<U> other; };
  int aid; FancyA(int i = 0) : aid(i) {} template <class U> FancyA(const FancyA<U>& x) : aid(x.aid) {}
  pointer allocate(std::size_t n) { return pointer(raw_alloc<T>(n, aid)); }
  void deallocate(pointer p, std::size_t n) { raw_dealloc<T>(p.get(), n, aid); }
  friend bool operator==(const FancyA& x, const FancyA& y) { return x.aid == y.aid; } friend bool operator!=(const FancyA& x, const FancyA& y) { return x.aid != y.aid; }
};
typedef FancyA<Elem> FancyAlloc;

inline void check_balance(const char* where) {
  if (!alloc_errors.empty()) { std::string s = alloc_errors[0]; alloc_errors.clear(); fail("%s: %s", where, s.c_str()); }
  if (live != 0) { long l = live; live = 0; fail("%s: %ld element(s) leaked (never destroyed)", where, l); }
  if (blocks != 0) { long l = blocks; blocks = 0; fail("%s: %ld memory block(s) leaked", where, l); }
}

// FNV-1a style hash for state keys
inline uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

} // namespace rt
#endif
