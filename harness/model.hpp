// Reference model: a multi-index container as plain arrays.  One set of elements, one order per index.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP
#include "rt.hpp"
#include <algorithm>
#include <initializer_list>

enum IKind { ORD, RNK, HSH, SEQ, RND };
struct IDesc { IKind kind; bool uniq; int key; };
constexpr bool keyed(IKind k) { return k == ORD || k == RNK || k == HSH; }
constexpr bool ordered(IKind k) { return k == ORD || k == RNK; }
constexpr bool listlike(IKind k) { return k == SEQ || k == RND; }

#ifndef VERIF_MAXN
#define VERIF_MAXN 14
#endif
constexpr int MAXN = VERIF_MAXN, MAXI = 5;   // capacity of the model arrays (bounds are set well below)
struct ME { int id; int k[3]; };
struct Val { int k[3]; };

struct MC {                       // model container
  int n = 0; ME e[MAXN]; int ord[MAXI][MAXN]; int dir[MAXI] = {1, 1, 1, 1, 1}; int st = 0; int aid = 0; float mlf[MAXI] = {1, 1, 1, 1, 1};   // mlf: maximum load factor of hashed indices (negative: not predicted)
 
  int slot(int id) const { for (int i = 0; i < n; ++i) if (e[i].id == id) return i; return -1; }
  bool has(int id) const { return slot(id) >= 0; }
  const int* k(int id) const { return e[slot(id)].k; }
  int pos(int i, int id) const { for (int j = 0; j < n; ++j) if (ord[i][j] == id) return j; return -1; }
};
struct MW { MC c[2]; bool nh = false; ME nhe; int nhaid = 0; };

enum Con { EXACT, FREE, HASHG, HASHX, SETONLY };
enum Guar { G_STRONG, G_BASIC, G_NOTHROW, G_MOD, G_MODR };

struct IdSet { int n = 0; int v[2 * MAXN + 2]; bool has(int x) const { for (int i = 0; i < n; ++i) if (v[i] == x) return true; return false; } void add(int x) { if (!has(x)) v[n++] = x; } };

struct Exp {
  MW post; Con con[2][MAXI]; IdSet mv; IdSet ret; bool chkret = false; int flag = -1; long num = -1; int nhempty = -1;
  int copies = -1, moves = -1; bool endswap = false; Guar g = G_STRONG; int modid = -1, modc = 0; bool restores = false, rbthrows = false;
  bool has_alt = false; int alt_id = -1, alt_c = 0;   // alternative outcome: alt_id absent from container alt_c, everything else as post minus it
  int cpdst = -1, cpsrc = -1;                         // container cpdst is a copy of cpsrc (new identities)
  int anyc = -1;                                      // contents of this container are unspecified (but it must be consistent)
  int wantexc = 0;                                    // 1: BackEx expected, 2: out_of_range expected
  bool addr_any = false;                              // element addresses may change (moves between unequal allocators)
};

struct ModelOps {
  int N; const IDesc* d;
  bool lt(const MC& m, int i, const int* x, const int* y) const { int a = x[d[i].key], b = y[d[i].key]; return m.dir[i] > 0 ? a < b : b < a; }
  bool eqv(int i, const int* x, const int* y) const { return x[d[i].key] == y[d[i].key]; }
  // ids of the elements that ban value v (other than except)
  IdSet blockers(const MC& m, const int* v, int except = -1) const {
    IdSet s; for (int i = 0; i < N; ++i) if (keyed(d[i].kind) && d[i].uniq) for (int j = 0; j < m.n; ++j) if (m.e[j].id != except && eqv(i, m.e[j].k, v)) s.add(m.e[j].id);
    return s;
  }
  static void oins(MC& m, int i, int at, int id, int cnt) { for (int j = cnt; j > at; --j) m.ord[i][j] = m.ord[i][j - 1]; m.ord[i][at] = id; }
  static void odel(MC& m, int i, int id, int cnt) { int p = 0; while (p < cnt && m.ord[i][p] != id) ++p; for (int j = p; j + 1 < cnt; ++j) m.ord[i][j] = m.ord[i][j + 1]; }
  // positions among the first cnt entries of ord[i]
  int lower(const MC& m, int i, const int* v, int cnt) const { int p = 0; while (p < cnt && lt(m, i, m.k(m.ord[i][p]), v)) ++p; return p; }
  int upper(const MC& m, int i, const int* v, int cnt) const { int p = 0; while (p < cnt && !lt(m, i, v, m.k(m.ord[i][p]))) ++p; return p; }
  int group_end(const MC& m, int i, const int* v, int cnt) const { for (int p = cnt; p > 0; --p) if (eqv(i, m.k(m.ord[i][p - 1]), v)) return p; return cnt; }
  // insert without checking; ci: index the call came through (-1: none); pos: position there (-1: plain insertion)
  void insert(Exp& x, int c, const ME& e, int ci, int pos) const {
    MC& m = x.post.c[c]; int at[MAXI];
    for (int i = 0; i < N; ++i) switch (d[i].kind) {
      case ORD: case RNK: {
        int lo = lower(m, i, e.k, m.n), up = upper(m, i, e.k, m.n);
        at[i] = up;
        if (pos >= 0 && !d[i].uniq) { if (ci == i) at[i] = pos < lo ? lo : pos > up ? up : pos; else { x.con[c][i] = FREE; x.mv.add(e.id); } }
        break; }
      case HSH: at[i] = group_end(m, i, e.k, m.n); x.con[c][i] = HASHG; x.mv.add(e.id); break;
      default: at[i] = (ci == i && pos >= 0) ? pos : m.n;
    }
    for (int i = 0; i < N; ++i) oins(m, i, at[i], e.id, m.n);
    m.e[m.n++] = e;
  }
  void erase(MC& m, int id) const { for (int i = 0; i < N; ++i) odel(m, i, id, m.n); int s = m.slot(id); for (int j = s; j + 1 < m.n; ++j) m.e[j] = m.e[j + 1]; --m.n; }
  // give element id the value v (already known to be acceptable)
  void revalue(Exp& x, int c, int id, const int* v) const {
    MC& m = x.post.c[c]; int s = m.slot(id); int old[3]; memcpy(old, m.e[s].k, sizeof old); memcpy(m.e[s].k, v, sizeof old);
    for (int i = 0; i < N; ++i) {
      if (!keyed(d[i].kind) || eqv(i, old, v)) continue;
      x.mv.add(id); odel(m, i, id, m.n); int at;
      if (d[i].kind == HSH) { x.con[c][i] = HASHG; at = group_end(m, i, v, m.n - 1); }
      else { if (!d[i].uniq) x.con[c][i] = FREE; at = upper(m, i, v, m.n - 1); }
      oins(m, i, at, id, m.n - 1);
    }
  }
};
#endif
