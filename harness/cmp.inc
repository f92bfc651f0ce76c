  // Comparison of indices and containers: every pair of states of the two containers, against the model.
  static int cmp_val(const int* x, const int* y) { for (int i = 0; i < 3; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
  int lex(const MC& a, int i, const MC& b, int j) const { for (int p = 0; p < a.n && p < b.n; ++p) { int r = cmp_val(a.k(a.ord[i][p]), b.k(b.ord[j][p])); if (r) return r; } return a.n < b.n ? -1 : a.n > b.n; }
  bool bag(const MC& a, const MC& b) const { // equal as multisets of values
    if (a.n != b.n) return false; bool used[MAXN] = {}; for (int p = 0; p < a.n; ++p) { bool f = false; for (int q = 0; q < b.n && !f; ++q) if (!used[q] && !cmp_val(a.e[p].k, b.e[q].k)) used[q] = f = true; if (!f) return false; } return true; }
  template <class X, class Y> void ops6(const X& x, const Y& y, int r, const char* what, int i, int j) {
    ++n_extra;
    CHECK((x == y) == (r == 0) && (x != y) == (r != 0), "%s: == / != of index %d and index %d is wrong (the sequences compare %d)", what, i, j, r);
    CHECK((x < y) == (r < 0) && (x > y) == (r > 0) && (x <= y) == (r <= 0) && (x >= y) == (r >= 0), "%s: < > <= >= of index %d and index %d are wrong (the sequences compare %d)", what, i, j, r);
  }
  template <int I, int J> void cmp_pair(const C& a, const MC& ma, const C& b, const MC& mb) {
    if constexpr (D[I].kind == D[J].kind) {
      const auto& x = a.template get<I>(); const auto& y = b.template get<J>();
      if constexpr (D[I].kind == HSH) {
        if constexpr (I == J) { // elements that are equal have equal keys, so group-wise permutation is equality as multisets
          bool e = bag(ma, mb); ++n_extra; long h0 = cnt[K_EEQ]; CHECK((x == y) == e, "index %d: == of two hashed indices is %s, their elements are %s up to order", I, e ? "false" : "true", e ? "the same" : "different"); CHECK((x != y) == !e, "index %d: != of two hashed indices is not the negation of ==", I); (void)h0; }
      } else if constexpr (std::is_same<Idx<I>, Idx<J>>::value || D[I].kind == ORD || D[I].kind == RNK || D[I].kind == SEQ || D[I].kind == RND) ops6(x, y, lex(ma, I, mb, J), "indices", I, J);
    }
  }
  template <int I, int... J> void cmp_row(const C& a, const MC& ma, const C& b, const MC& mb, std::integer_sequence<int, J...>) { (void)std::initializer_list<int>{(cmp_pair<I, J>(a, ma, b, mb), 0)...}; }
  template <int... I> void cmp_all(const C& a, const MC& ma, const C& b, const MC& mb, std::integer_sequence<int, I...> s) { (void)std::initializer_list<int>{(cmp_row<I>(a, ma, b, mb, s), 0)...}; }
  void deep_extra(World& w, const MW& m) {
    Disarm da; int id = next_id; auto s = std::make_integer_sequence<int, N>();
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) for (int d = 0; d < (opt.two ? 2 : 1); ++d) {
      const C& a = *w.c[c]; const C& b = *w.c[d]; cmp_all(a, m.c[c], b, m.c[d], s);
      if constexpr (D[0].kind == HSH) { bool e = bag(m.c[c], m.c[d]); CHECK((a == b) == e && (a != b) == !e, "== of the containers is wrong"); }
      else ops6(a, b, lex(m.c[c], 0, m.c[d], 0), "containers", 0, 0);
    }
    next_id = id;
  }
