// Containers indexed by composite keys: every content up to a size, every full and partial key, every way to state it.
#include "mini.hpp"
#include <tuple>
#include <memory>
#include <vector>
#include <algorithm>
#include <boost/tuple/tuple.hpp>
#include <boost/multi_index_container.hpp>
#include <boost/multi_index/ordered_index.hpp>
#include <boost/multi_index/ranked_index.hpp>
#include <boost/multi_index/hashed_index.hpp>
#include <boost/multi_index/composite_key.hpp>
#include <boost/multi_index/member.hpp>
#include <boost/multi_index/mem_fun.hpp>
#include <boost/multi_index/global_fun.hpp>
using namespace boost::multi_index;
struct S { int a, b_, c_; int id; int b() const { return b_; } int& c() { return c_; } };
static int getc(const S& s) { return s.c_; }
template <class E> struct X { typedef composite_key<E, member<S, int, &S::a>, const_mem_fun<S, int, &S::b>, global_fun<const S&, int, &getc>> type; };
typedef X<S>::type CK;
struct Cmp { int d; Cmp(int d_ = 1) : d(d_) {} bool operator()(int x, int y) const { return d > 0 ? x < y : y < x; } };
struct Eq { int m; Eq(int m_ = 100) : m(m_) {} bool operator()(int x, int y) const { return x % m == y % m; } };
struct Hs { int m; Hs(int m_ = 100) : m(m_) {} std::size_t operator()(int x) const { return x % m * 5; } };
typedef composite_key_compare<Cmp, Cmp, Cmp> PC; typedef composite_key_equal_to<Eq, Eq, Eq> PE; typedef composite_key_hash<Hs, Hs, Hs> PH;
template <class E> using Cont = multi_index_container<E, indexed_by<
  ordered_non_unique<typename X<S>::type>, ordered_non_unique<typename X<S>::type, PC>, ranked_non_unique<typename X<S>::type, std::greater<typename X<S>::type::result_type>>, hashed_non_unique<typename X<S>::type>, hashed_non_unique<typename X<S>::type, PH, PE>>>;
template <class E> using Uni = multi_index_container<E, indexed_by<ordered_unique<typename X<S>::type>, ranked_unique<typename X<S>::type, PC>, hashed_unique<typename X<S>::type, PH, PE>>>;
static const S& el(const S& s) { return s; } static const S& el(const std::shared_ptr<S>& s) { return *s; }
template <class E> E make(int z, int id); static int B = 2;
static S mkS(int z, int id) { return S{z % B, z / B % B, z / B / B, id}; }
template <> S make<S>(int z, int id) { return mkS(z, id); } template <> std::shared_ptr<S> make<std::shared_ptr<S>>(int z, int id) { return std::make_shared<S>(mkS(z, id)); }
static int key(const S& s, int i) { return i == 0 ? s.a : i == 1 ? s.b_ : s.c_; }
static int cmp(const S& s, const int* k, int n, const int* d) { for (int i = 0; i < n; ++i) { int x = key(s, i); if (x != k[i]) return (x < k[i]) == (d[i] > 0) ? -1 : 1; } return 0; }
static const int UP[3] = {1, 1, 1}, DN[3] = {-1, -1, -1}, MX[3] = {1, -1, -1};
static const int MD[3] = {100, 1, 2};
static std::string text;
#define CK_(c, msg) MCHECK(c, "%s: " msg " (contents %s, key of length %d: %d,%d,%d)", what, text.c_str(), n, k[0], k[1], k[2])
template <class I, class K> void ordl(const I& x, const K& q, const int* k, int n, const int* d, const char* what) {
  std::size_t lo = 0, hi = 0, p = 0; for (auto& e : x) { int r = cmp(el(e), k, n, d); if (r < 0) lo = p + 1; if (r <= 0) hi = p + 1; ++p; }
  auto at = [&](std::size_t i) { return std::next(x.begin(), i); };
  auto f = x.find(q); CK_(lo == hi ? f == x.end() : f != x.end() && cmp(el(*f), k, n, d) == 0, "find is wrong"); CK_(x.count(q) == hi - lo, "count is wrong"); CK_(x.contains(q) == (hi != lo), "contains is wrong");
  CK_(x.lower_bound(q) == at(lo) && x.upper_bound(q) == at(hi), "lower_bound or upper_bound is wrong"); auto r = x.equal_range(q); CK_(r.first == at(lo) && r.second == at(hi), "equal_range is wrong");
}
template <class I, class K> void rnkl(const I& x, const K& q, const int* k, int n, const int* d, const char* what) {
  ordl(x, q, k, n, d, what); std::size_t lo = 0, hi = 0, p = 0; for (auto& e : x) { int r = cmp(el(e), k, n, d); if (r < 0) lo = p + 1; if (r <= 0) hi = p + 1; ++p; }
  std::size_t fr = x.find_rank(q); CK_(lo == hi ? fr == x.size() : fr >= lo && fr < hi, "find_rank is wrong"); CK_(x.lower_bound_rank(q) == lo && x.upper_bound_rank(q) == hi, "lower_bound_rank or upper_bound_rank is wrong"); auto r = x.equal_range_rank(q); CK_(r.first == lo && r.second == hi, "equal_range_rank is wrong");
}
template <class I, class K> void hshl(const I& x, const K& q, const int* k, const int* m, const char* what) {
  const int n = 3; std::size_t cnt = 0; auto is = [&](const S& s) { for (int i = 0; i < 3; ++i) if (key(s, i) % m[i] != k[i] % m[i]) return false; return true; }; for (auto& e : x) cnt += is(el(e));
  auto f = x.find(q); CK_(cnt ? f != x.end() && is(el(*f)) : f == x.end(), "find is wrong"); CK_(x.count(q) == cnt && x.contains(q) == (cnt > 0), "count or contains is wrong"); auto r = x.equal_range(q); std::size_t g = 0; bool ok = true; for (auto i = r.first; i != r.second; ++i) { ++g; ok = ok && is(el(*i)); } CK_(ok && g == cnt, "equal_range is wrong");
}
template <class I> void sorted(const I& x, const int* d, std::size_t n, const char* what) { std::size_t c = 0; const S* p = nullptr; for (auto& e : x) { if (p) { int k[3] = {el(e).a, el(e).b_, el(e).c_}; MCHECK(cmp(*p, k, 3, d) <= 0, "%s: not in order (contents %s)", what, text.c_str()); } p = &el(e); ++c; } MCHECK(c == n, "%s: %d elements instead of %d (contents %s)", what, (int)c, (int)n, text.c_str()); }
static const int ONES[3] = {100, 100, 100};
template <class C> void lookups(const C& c) {
  auto &x0 = c.template get<0>(); auto& x1 = c.template get<1>(); auto& x2 = c.template get<2>(); auto& x3 = c.template get<3>(); auto& x4 = c.template get<4>(); std::size_t n = c.size();
  sorted(x0, UP, n, "ordered index"); sorted(x1, MX, n, "ordered index, mixed directions"); sorted(x2, DN, n, "ranked index, greater"); MCHECK((std::size_t)std::distance(x3.begin(), x3.end()) == n && (std::size_t)std::distance(x4.begin(), x4.end()) == n, "hashed indices do not hold all elements");
  auto ck = x0.key_extractor(); int k[3];
  for (k[0] = -1; k[0] <= B; ++k[0]) {
    auto all = [&](auto q, int n_) { ordl(x0, q, k, n_, UP, "ordered index"); ordl(x1, q, k, n_, MX, "ordered index, mixed directions"); rnkl(x2, q, k, n_, DN, "ranked index, greater"); };
    k[1] = k[2] = 0; all(std::make_tuple(k[0]), 1); all(boost::make_tuple(k[0]), 1); ordl(x1, k[0], k, 1, MX, "ordered index, mixed directions, single key");
    for (k[1] = -1; k[1] <= B; ++k[1]) { k[2] = 0; all(std::make_tuple(k[0], k[1]), 2); all(boost::make_tuple(k[0], k[1]), 2); ordl(x1, std::make_pair(0, 0).first == 0 ? std::make_tuple((long)k[0], (short)k[1]) : std::make_tuple(0L, (short)0), k, 2, MX, "other integer types");
      for (k[2] = -1; k[2] <= B; ++k[2]) { auto st = std::make_tuple(k[0], k[1], k[2]); auto bt = boost::make_tuple(k[0], k[1], k[2]); S probe{k[0], k[1], k[2], 0}; all(st, 3); all(bt, 3); typename std::decay<decltype(*x0.begin())>::type* np = nullptr; (void)np;
        ordl(x0, ck(probe), k, 3, UP, "composite_key_result"); ordl(x1, ck(probe), k, 3, MX, "composite_key_result"); rnkl(x2, ck(probe), k, 3, DN, "composite_key_result");
        hshl(x3, st, k, ONES, "hashed index, std::tuple"); hshl(x3, bt, k, ONES, "hashed index, boost::tuple"); hshl(x3, ck(probe), k, ONES, "hashed index, composite_key_result");
        if (k[0] >= 0 && k[1] >= 0 && k[2] >= 0) { hshl(x4, st, k, MD, "hashed index with state, std::tuple"); hshl(x4, bt, k, MD, "hashed index with state, boost::tuple"); hshl(x4, ck(probe), k, MD, "hashed index with state, composite_key_result"); }
        // ranges between this key and another
        const char* what = "range"; const int n = 3; typedef typename std::decay<decltype(x0)>::type::key_type R;
        auto r = x0.range([&](const R& q) { return q >= st; }, [&](const R& q) { return q <= std::make_tuple(1); }); std::size_t g = 0, w = 0; int one[1] = {1}; for (auto i = r.first; i != r.second; ++i) ++g; for (auto& e : x0) w += cmp(el(e), k, 3, UP) >= 0 && cmp(el(e), one, 1, UP) <= 0; CK_(g == w, "range is wrong"); } } }
}
template <class E> Cont<E> fresh() { typedef Cont<E> C; typedef typename X<S>::type K; typedef typename C::ctor_args_list AL; return C(AL(boost::make_tuple(
  typename C::template nth_index<0>::type::ctor_args(), typename C::template nth_index<1>::type::ctor_args(K(), PC(Cmp(1), Cmp(-1), Cmp(-1))), typename C::template nth_index<2>::type::ctor_args(), typename C::template nth_index<3>::type::ctor_args(), typename C::template nth_index<4>::type::ctor_args(0, K(), PH(Hs(100), Hs(1), Hs(2)), PE(Eq(100), Eq(1), Eq(2)))))); }
template <class E> Uni<E> ufresh() { typedef Uni<E> C; typedef typename X<S>::type K; typedef typename C::ctor_args_list AL; return C(AL(boost::make_tuple(
  typename C::template nth_index<0>::type::ctor_args(), typename C::template nth_index<1>::type::ctor_args(K(), PC(Cmp(1), Cmp(-1), Cmp(-1))), typename C::template nth_index<2>::type::ctor_args(0, K(), PH(Hs(100), Hs(100), Hs(2)), PE(Eq(100), Eq(100), Eq(2)))))); }
static void descr(const std::vector<int>& v) { text = "{"; for (int z : v) { S s = mkS(z, 0); text += " " + std::to_string(s.a) + std::to_string(s.b_) + std::to_string(s.c_); } text += " }"; }
template <class E> void contents(std::vector<int>& v, int left, bool sorted_) {
  if (mini::next()) {
    ++mini::states; descr(v); auto c = fresh<E>(); int id = 0; for (int z : v) c.insert(make<E>(z, id++)); lookups(c);
    auto d = c; auto m = std::move(d); lookups(m);
    int nz = B * B * B;
    for (int p = 0; p < (int)v.size(); ++p) for (int z = 0; z < nz; ++z) { // update one element; erase by key
      auto e = c; auto i = e.begin(); while (el(*i).id != p) ++i; MCHECK(e.replace(i, make<E>(z, p)), "replace failed in %s", text.c_str()); sorted(e.template get<0>(), UP, v.size(), "after replace"); sorted(e.template get<1>(), MX, v.size(), "after replace"); sorted(e.template get<2>(), DN, v.size(), "after replace");
      if (v.size() <= 2) { std::string t = text; text += " after replacing element " + std::to_string(p) + " by " + std::to_string(z); lookups(e); text = t; } }
    for (int z = 0; z < nz; ++z) { S s = mkS(z, 0); int k[3] = {s.a, s.b_, s.c_}; std::size_t w = 0; for (int q : v) w += q == z; typename X<S>::type ck;
      auto e = c; MCHECK(e.erase(ck(s)) == w && e.size() == v.size() - w, "erase(key) removes the wrong number of elements (%s, key %d)", text.c_str(), z); sorted(e.template get<1>(), MX, v.size() - w, "after erase(key)"); auto f = c; MCHECK(f.template get<3>().erase(ck(s)) == w && f.size() == v.size() - w && f.template get<2>().count(ck(s)) == 0, "erase(key) in a hashed index removes the wrong elements (%s, key %d)", text.c_str(), z); (void)k; }
    // unique indices: an element is rejected exactly when one of them bans it
    auto u = ufresh<E>(); std::vector<S> in; id = 0;
    for (int z : v) { S s = mkS(z, id); bool ban = false; for (S& o : in) ban = ban || (o.a == s.a && o.b_ == s.b_ && o.c_ % 2 == s.c_ % 2); auto r = u.insert(make<E>(z, id++)); MCHECK(r.second == !ban, "insert into unique composite indices %s an element it should not (%s)", r.second ? "accepts" : "rejects", text.c_str()); if (!ban) in.push_back(s); MCHECK(u.size() == in.size(), "wrong size"); }
    sorted(u.template get<0>(), UP, in.size(), "unique"); sorted(u.template get<1>(), MX, in.size(), "unique, mixed directions");
  }
  if (left) for (int z = sorted_ && v.size() ? v.back() : 0; z < B * B * B; ++z) { v.push_back(z); contents<E>(v, left - 1, sorted_); v.pop_back(); }
}
static void body() {
  B = mini::bound[0] ? mini::bound[0] : 2; mini::section = "containers with composite keys"; std::vector<int> v;
  if (mini::bound[1]) contents<S>(v, mini::bound[1], false); if (mini::bound[2]) contents<S>(v, mini::bound[2], true); if (mini::bound[3]) contents<std::shared_ptr<S>>(v, mini::bound[3], false);
  mini::say("five indices with 3-key composite keys: {000 101 011}; every prefix lookup with digits -1..2");
}
int main(int c, char** v) { return mini::main_(c, v, body); }
