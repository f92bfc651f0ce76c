  // Misuse matrix: in every reachable state, every function taking iterators is called with every kind of wrong
  // iterator.  Safe mode must report the documented error code and the containers must not change.
  long n_misuse = 0;
  struct Codes { int v[3]; bool has(int c) const { return c >= 0 && (v[0] == c || v[1] == c || v[2] == c); } };
  enum { INV = 0, NDER, NINC, NDEC, NOWN, NSAME, RANGE_, INSIDE, OOB, SAMEC, UNEQA };
  static Codes cs(int a, int b = -1, int c = -1) { return Codes{{a, b, c}}; }
  const char* mis_what = "";
  template <class F> void bad(int c, int i, const char* fn, const char* kind, Codes want, F&& f) {
    ++n_misuse; ++hang_mark; int code = -1; bool other = false;
    try { f(); } catch (SafeErr& e) { code = e.code; } catch (Violation&) { throw; } catch (...) { other = true; }
    CHECK(!other, "container %d index %d: %s with %s: an unrelated exception", c, i, fn, kind);
    CHECK(code >= 0, "container %d index %d: %s with %s is not diagnosed in safe mode", c, i, fn, kind);
    CHECK(want.has(code), "container %d index %d: %s with %s: safe mode reports %s instead of %s", c, i, fn, kind, safe_name(code), safe_name(want.v[0]));
  }
  template <int I> struct Bads { It<I> dflt, erased, gone, foreign, fend; };
  // T: container with at least one element that does not go away during the matrix
  template <int I> void misuse(World& w, C& T, int c, const MC& m, std::vector<NH>& hs) {
    C& C0 = *w.c[c]; auto& x = C0.template get<I>(); typedef It<I> T_; typedef Idx<I> X; constexpr IKind K = D[I].kind; int n = m.n; (void)n;
    auto& tx = T.template get<I>();
    T_ dflt, gone, goneend; std::unique_ptr<T_> erased, extracted;
    { C t(mkargs(m), mkalloc(m.aid)); tx_fill(t, 1); erased.reset(new T_(t.template get<I>().begin())); t.template get<I>().erase(*erased); }
    { T_ k = tx.begin(); ++k; extracted.reset(new T_(k)); NH h = tx.extract(k); tx_back<I>(T, std::move(h)); }
    { std::unique_ptr<C> G(new C(mkargs(m), mkalloc(m.aid))); tx_fill(*G, 1); gone = G->template get<I>().begin(); goneend = G->template get<I>().end(); }
    Elem ea(mk(0, 9000)); const Elem& el = ea;
    struct P { const char* name; T_ it; Codes der, pos; };
    P ps[] = {{"a default-constructed iterator", dflt, cs(INV), cs(INV)}, {"an iterator to an erased element", *erased, cs(INV), cs(INV)}, {"an iterator to an extracted element", *extracted, cs(INV), cs(INV)},
              {"an iterator to an element of a destroyed container", gone, cs(INV), cs(INV)}, {"the end of a destroyed container", goneend, cs(INV), cs(INV)},
              {"another container's iterator", tx.begin(), cs(NOWN), cs(NOWN)}, {"another container's end()", tx.end(), cs(NDER, NOWN), cs(NOWN)}};
    auto D_ = [&](const char* fn, auto f) { for (auto& p : ps) bad(c, I, fn, p.name, p.der, [&] { f(p.it); }); bad(c, I, fn, "end()", cs(NDER), [&] { f(x.end()); }); same(c, I, fn, x, n); };
    auto P_ = [&](const char* fn, auto f) { for (auto& p : ps) bad(c, I, fn, p.name, p.pos, [&] { f(p.it); }); same(c, I, fn, x, n); };
    auto R_ = [&](const char* fn, auto f) {
      for (auto& p : ps) { Codes k = p.pos.has(NOWN) ? cs(NOWN, NSAME) : p.pos; bad(c, I, fn, p.name, k, [&] { f(p.it, x.end()); }); bad(c, I, fn, p.name, k, [&] { f(x.begin(), p.it); }); bad(c, I, fn, p.name, k, [&] { f(p.it, p.it); }); }
      for (int a = 0; a <= n; ++a) for (int b = 0; b < a; ++b) bad(c, I, fn, "a reversed range", cs(RANGE_), [&] { f(at<I>(C0, a), at<I>(C0, b)); });
      same(c, I, fn, x, n);
    };
    // the iterators themselves
    for (auto& p : ps) if (p.der.has(INV)) bad(c, I, "operator*", p.name, cs(INV), [&] { (void)*p.it; });
    bad(c, I, "operator*", "end()", cs(NDER), [&] { (void)*x.end(); }); bad(c, I, "operator->", "end()", cs(NDER), [&] { (void)x.end()->id; });
    for (auto& p : ps) if (p.der.has(INV)) {
      bad(c, I, "operator++", p.name, cs(INV), [&] { T_ i = p.it; ++i; }); if constexpr (K != HSH) bad(c, I, "operator--", p.name, cs(INV), [&] { T_ i = p.it; --i; });
      bad(c, I, "operator==", p.name, cs(INV), [&] { (void)(x.begin() == p.it); }); bad(c, I, "operator!=", p.name, cs(INV), [&] { (void)(p.it != x.begin()); }); bad(c, I, "assignment", p.name, cs(INV), [&] { T_ i; i = p.it; });
      if constexpr (K == RND) { bad(c, I, "operator+=", p.name, cs(INV), [&] { T_ i = p.it; i += 0; }); bad(c, I, "operator-", p.name, cs(INV), [&] { (void)(x.begin() - p.it); }); bad(c, I, "operator<", p.name, cs(INV), [&] { (void)(p.it < x.begin()); }); }
    } else {
      bad(c, I, "operator==", p.name, cs(NSAME), [&] { (void)(x.begin() == p.it); }); bad(c, I, "operator!=", p.name, cs(NSAME), [&] { (void)(p.it != x.end()); });
      if constexpr (K == RND) { bad(c, I, "operator-", p.name, cs(NSAME), [&] { (void)(x.begin() - p.it); }); bad(c, I, "operator<", p.name, cs(NSAME), [&] { (void)(p.it < x.begin()); }); }
    }
    bad(c, I, "operator++", "end()", cs(NINC), [&] { T_ i = x.end(); ++i; }); bad(c, I, "operator++(int)", "end()", cs(NINC), [&] { T_ i = x.end(); i++; });
    if constexpr (K != HSH) { bad(c, I, "operator--", "begin()", cs(NDEC), [&] { T_ i = x.begin(); --i; }); bad(c, I, "operator--(int)", "begin()", cs(NDEC), [&] { T_ i = x.begin(); i--; }); }
    if constexpr (K == RND) for (int a = 0; a <= n; ++a) for (int d : {-a - 1, -a - 2, n - a + 1, n - a + 5}) { bad(c, I, "operator+=", "an out-of-range offset", cs(OOB), [&] { T_ i = x.begin() + a; i += d; }); bad(c, I, "operator-=", "an out-of-range offset", cs(OOB), [&] { T_ i = x.begin() + a; i -= -d; }); bad(c, I, "operator[] of an iterator", "an out-of-range offset", cs(OOB), [&] { (void)(x.begin() + a)[d]; }); }
    if constexpr (K == RND) { const X& cx = x; bad(c, I, "operator[]", "size()", cs(OOB), [&] { (void)cx[n]; }); bad(c, I, "operator[]", "size()+1", cs(OOB), [&] { (void)cx[n + 1]; }); bad(c, I, "operator[]", "-1", cs(OOB), [&] { (void)cx[(size_t)-1]; }); }
    // modifiers common to all indices
    D_("erase(it)", [&](T_ i) { x.erase(i); });
    R_("erase(first,last)", [&](T_ a, T_ b) { x.erase(a, b); });
    D_("replace(it,const&)", [&](T_ i) { x.replace(i, el); }); D_("replace(it,&&)", [&](T_ i) { Elem t(mk(0, 9001)); x.replace(i, std::move(t)); CHECK(!t.moved, "the value was moved from"); });
    D_("modify(it,f)", [&](T_ i) { x.modify(i, Mod{Cfg::vals[0]}); }); D_("modify(it,f,rollback)", [&](T_ i) { x.modify(i, Mod{Cfg::vals[0]}, Back{Cfg::vals[0]}); });
    D_("extract(it)", [&](T_ i) { NH h = x.extract(i); });
    misproj<I>(C0, ps, c, std::make_integer_sequence<int, N>());
    if constexpr (keyed(K)) {
      P_("insert(hint,const&)", [&](T_ i) { x.insert(i, el); }); P_("insert(hint,&&)", [&](T_ i) { Elem t(mk(0, 9001)); x.insert(i, std::move(t)); }); P_("emplace_hint", [&](T_ i) { x.emplace_hint(i, 9001, 0, 0, 0); });
      D_("modify_key(it,f)", [&](T_ i) { x.modify_key(i, ModK{0}); }); D_("modify_key(it,f,rollback)", [&](T_ i) { x.modify_key(i, ModK{0}, BackK{0}); });
      P_("insert(hint,node)", [&](T_ i) { x.insert(i, std::move(hs[0])); }); CHECK(!hs[0].empty(), "index %d: a rejected insert(hint,node) consumed the node", I);
      D_i("merge(x,i)", c, n, tx, ps, x, [&](T_ i) { x.merge(tx, i); }); R_i("merge(x,first,last)", c, n, tx, ps, x, [&](T_ a, T_ b) { x.merge(tx, a, b); });
    }
    if constexpr (K == RNK) P_("rank", [&](T_ i) { (void)x.rank(i); });
    if constexpr (listlike(K)) {
      P_("insert(pos,const&)", [&](T_ i) { x.insert(i, el); }); P_("insert(pos,&&)", [&](T_ i) { Elem t(mk(0, 9001)); x.insert(i, std::move(t)); }); P_("emplace(pos)", [&](T_ i) { x.emplace(i, 9001, 0, 0, 0); });
      P_("insert(pos,n,value)", [&](T_ i) { x.insert(i, (typename X::size_type)1, el); });   // insert(pos,first,last) is not diagnosed by the library (and not promised to be)
      P_("insert(pos,node)", [&](T_ i) { x.insert(i, std::move(hs[0])); }); CHECK(!hs[0].empty(), "index %d: a rejected insert(pos,node) consumed the node", I);
      P_("relocate(pos,i): pos", [&](T_ i) { x.relocate(i, x.begin()); }); D_("relocate(pos,i): i", [&](T_ i) { x.relocate(x.end(), i); });
      P_("relocate(pos,first,last): pos", [&](T_ i) { x.relocate(i, x.begin(), x.end()); }); R_("relocate(pos,first,last): range", [&](T_ a, T_ b) { x.relocate(x.end(), a, b); });
      P_("splice(pos,x): pos", [&](T_ i) { x.splice(i, tx); }); P_("splice(pos,x,i): pos", [&](T_ i) { x.splice(i, tx, tx.begin()); }); P_("splice(pos,x,first,last): pos", [&](T_ i) { x.splice(i, tx, tx.begin(), tx.end()); });
      D_i("splice(pos,x,i): i", c, n, tx, ps, x, [&](T_ i) { x.splice(x.end(), tx, i); }); R_i("splice(pos,x,first,last): range", c, n, tx, ps, x, [&](T_ a, T_ b) { x.splice(x.end(), tx, a, b); });
      for (int p = 0; p < n; ++p) bad(c, I, "splice(pos,x)", "the container itself and a position other than end()", cs(INSIDE), [&] { x.splice(at<I>(C0, p), x); });
      for (int p = 0; p < n; ++p) for (int a = 0; a <= p; ++a) for (int b = p + 1; b <= n; ++b) {
        bad(c, I, "relocate(pos,first,last)", "a position inside the range", cs(INSIDE), [&] { x.relocate(at<I>(C0, p), at<I>(C0, a), at<I>(C0, b)); });
        bad(c, I, "splice(pos,x,first,last)", "a position inside the range", cs(INSIDE), [&] { x.splice(at<I>(C0, p), x, at<I>(C0, a), at<I>(C0, b)); });
      }
      misinside<I>(C0, c, m, std::make_integer_sequence<int, N>());
      same(c, I, "splice/relocate", x, n);
    }
    if (UNEQ && opt.two) { // the other container uses an unequal allocator
      auto& y = w.c[1 - c]->template get<I>(); int ny = (int)y.size();
      if constexpr (keyed(K)) {
        bad(c, I, "merge(x)", "unequal allocators", cs(UNEQA), [&] { x.merge(y); });
        if (ny) bad(c, I, "merge(x,i)", "unequal allocators", cs(UNEQA), [&] { x.merge(y, y.begin()); });
        bad(c, I, "merge(x,first,last)", "unequal allocators", cs(UNEQA), [&] { x.merge(y, y.begin(), y.end()); });
        bad(c, I, "insert(hint,node)", "unequal allocators", cs(UNEQA), [&] { x.insert(x.end(), std::move(hs[1])); }); bad(c, I, "insert(node)", "unequal allocators", cs(UNEQA), [&] { x.insert(std::move(hs[1])); });
      } else {
        bad(c, I, "insert(pos,node)", "unequal allocators", cs(UNEQA), [&] { x.insert(x.end(), std::move(hs[1])); });
      }
      CHECK(!hs[1].empty(), "index %d: a rejected insertion consumed the node", I); CHECK((int)y.size() == ny, "index %d: a rejected merge changed the source", I); same(c, I, "merge", x, n);
    }
  }
  template <class X> void same(int c, int i, const char* fn, X& x, int n) { CHECK((int)x.size() == n, "container %d index %d: a diagnosed misuse of %s changed the container", c, i, fn); }
  // functions whose iterator argument must belong to the source tx: x's own iterators are the foreign ones
  template <class X, class PS, class F> void D_i(const char* fn, int c, int n, X& tx, PS& ps, X& x, F f) {
    int tn = (int)tx.size(); for (auto& p : ps) if (p.der.has(INV)) bad(c, -1, fn, p.name, cs(INV), [&] { f(p.it); });
    bad(c, -1, fn, "the source's end()", cs(NDER), [&] { f(tx.end()); }); if (n) bad(c, -1, fn, "an iterator of the destination", cs(NOWN), [&] { f(x.begin()); });
    CHECK((int)x.size() == n && (int)tx.size() == tn, "container %d: a diagnosed misuse of %s changed the containers", c, fn);
  }
  template <class X, class PS, class F> void R_i(const char* fn, int c, int n, X& tx, PS& ps, X& x, F f) {
    int tn = (int)tx.size(); for (auto& p : ps) if (p.der.has(INV)) { bad(c, -1, fn, p.name, cs(INV), [&] { f(p.it, tx.end()); }); bad(c, -1, fn, p.name, cs(INV), [&] { f(tx.begin(), p.it); }); }
    bad(c, -1, fn, "a range of the destination", cs(NOWN), [&] { f(x.begin(), x.end()); }); bad(c, -1, fn, "a range across containers", cs(NOWN, NSAME), [&] { f(tx.begin(), x.end()); });
    bad(c, -1, fn, "a reversed range", cs(RANGE_), [&] { f(tx.end(), tx.begin()); });
    CHECK((int)x.size() == n && (int)tx.size() == tn, "container %d: a diagnosed misuse of %s changed the containers", c, fn);
  }
  template <int I, class PS, int... J> void misproj(C& C0, PS& ps, int c, std::integer_sequence<int, J...>) {
    const C& cc = C0;
    (void)std::initializer_list<int>{([&] { for (auto& p : ps) { bad(c, I, "project", p.name, p.pos, [&] { (void)C0.template project<J>(p.it); }); bad(c, I, "project const", p.name, p.pos, [&] { (void)cc.template project<J>(p.it); }); bad(c, I, "global project", p.name, p.pos, [&] { (void)bmi::project<J>(C0, p.it); }); bad(c, I, "global project const", p.name, p.pos, [&] { (void)bmi::project<J>(cc, p.it); }); } }(), 0)...};
  }
  // splice within the container taking the range from another index: the position must not be in the range
  template <int I, int... J> void misinside(C& C0, int c, const MC& m, std::integer_sequence<int, J...>) {
    auto& x = C0.template get<I>(); int n = m.n;
    (void)std::initializer_list<int>{([&] { if constexpr (J != I) { auto& y = C0.template get<J>(); for (int p = 0; p < n; ++p) for (int a = 0; a < n; ++a) for (int b = a + 1; b <= n; ++b) { bool in = false; for (int t = a; t < b; ++t) if (m.ord[J][t] == m.ord[I][p]) in = true; if (in) bad(c, I, "splice(pos,x,first,last) from another index", "a position inside the range", cs(INSIDE), [&] { x.splice(at<I>(C0, p), y, at<J>(C0, a), at<J>(C0, b)); }); } } }(), 0)...};
  }
  void tx_fill(C& t, int cnt) { for (int v = 0; v < nvals() && (int)t.size() < cnt; ++v) tx_add(t, v, std::integral_constant<bool, keyed(D[0].kind)>()); while ((int)t.size() < cnt) { int b = (int)t.size(); tx_add(t, 0, std::integral_constant<bool, keyed(D[0].kind)>()); if ((int)t.size() == b) fail("internal: cannot fill the auxiliary container"); } }
  void tx_add(C& t, int v, std::true_type) { t.template get<0>().insert(mk(v, 9100 + v)); }
  void tx_add(C& t, int v, std::false_type) { t.template get<0>().push_back(mk(v, 9100 + v)); }
  template <int I> void tx_back(C& t, NH&& h) { t.template get<I>().insert(t.template get<I>().end(), std::move(h)); }
  template <int... I> void misall(World& w, const MW& m, std::integer_sequence<int, I...>) {
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) {
      std::unique_ptr<C> T(new C(mkargs(m.c[c]), mkalloc(m.c[c].aid))); tx_fill(*T, 2);
      std::vector<NH> hs(2); { C g(mkargs(m.c[c]), mkalloc(m.c[c].aid)); tx_fill(g, 1); hs[0] = g.template get<0>().extract(g.template get<0>().begin()); }
      if (UNEQ && opt.two) { C g(mkargs(m.c[1 - c]), mkalloc(m.c[1 - c].aid)); tx_fill(g, 1); hs[1] = g.template get<0>().extract(g.template get<0>().begin()); }
      (void)std::initializer_list<int>{(misuse<I>(w, *T, c, m.c[c], hs), 0)...};
    }
  }
  void deep_extra(World& w, const MW& m) {
    Disarm da; int id = next_id; std::string before = canon(w, m);
    misall(w, m, std::make_integer_sequence<int, N>());
    next_id = id; if (!alloc_errors.empty()) { std::string s = alloc_errors[0]; alloc_errors.clear(); fail("%s", s.c_str()); }
    CHECK(canon(w, m) == before, "diagnosed misuses changed the containers"); n_extra = n_misuse;
  }
