  // ================================================================ capture before / verification after
  struct Caps { // iterators and addresses taken before the call
    const Elem* addr[512]; int maxid;
  };
  template <int I> struct CapI { std::vector<std::pair<int, It<I>>> v; std::vector<It<I>> end; };
  template <int... I> static auto capt(std::integer_sequence<int, I...>) -> std::tuple<CapI<I>...>;
  typedef decltype(capt(std::make_integer_sequence<int, N>())) CapT;
  CapT cap_; Caps caps_;

  void capture(World& w) {
    for (auto& a : caps_.addr) a = nullptr;
    capture_(w, std::make_integer_sequence<int, N>());
  }
  template <int... I> void capture_(World& w, std::integer_sequence<int, I...>) { (void)std::initializer_list<int>{(cap1<I>(w), 0)...}; if (!w.nh.empty()) { Elem& e = w.nh.value(); caps_.addr[e.id] = &e; } }
  template <int I> void cap1(World& w) {
    auto& k = std::get<I>(cap_); k.v.clear(); k.end.clear();
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) {
      auto& x = w.c[c]->template get<I>(); k.end.push_back(x.end());
      for (auto it = x.begin(); it != x.end(); ++it) { CHECK(it->id >= 0 && it->id < 512, "corrupted element"); k.v.emplace_back(it->id, it); if (I == 0) caps_.addr[it->id] = &*it; }
    }
  }

  // real order of index I of container c into out; -1 terminated overflow check
  template <int I> int order(const C& c, const Elem** out) {
    auto& x = c.template get<I>(); int n = 0; int sz = (int)x.size();
    CHECK(sz <= MAXN, "index %d: size() is %d", I, sz);
    for (auto it = x.begin(), e = x.end(); it != e; ++it) { CHECK(n < sz, "index %d: more than size()=%d elements reachable by iteration", I, sz); const Elem& el = *it; el.assert_ok(); out[n++] = &el; }
    CHECK(n == sz, "index %d: %d elements reachable by iteration, size() is %d", I, n, sz);
    CHECK(x.empty() == (sz == 0), "index %d: empty() inconsistent with size()", I);
    if constexpr (D[I].kind != HSH) {
      int j = n; for (auto it = x.end(); it != x.begin();) { CHECK(j > 0, "index %d: backward iteration does not end", I); --it; CHECK(&*it == out[--j], "index %d: backward iteration differs from forward iteration at position %d", I, j); }
      CHECK(j == 0, "index %d: backward iteration ends early", I);
    }
    return n;
  }

  std::string show(const MC& m) const { std::string s; char b[64]; for (int i = 0; i < N; ++i) { s += i ? " |" : ""; for (int j = 0; j < m.n; ++j) { const int* k = m.k(m.ord[i][j]); snprintf(b, sizeof b, " #%d(%d,%d,%d)", m.ord[i][j], k[0], k[1], k[2]); s += b; } } return s; }

  // verify one index of one container against the expected order, and adopt the real order where it is free
  template <int I> void verify_index(const C& c, int ci, Exp& x, const MW& pre, const Elem** addr) {
    const Elem* r[MAXN + 1]; int n = order<I>(c, r); MC& m = x.post.c[ci]; Con con = x.con[ci][I];
    CHECK(n == m.n, "container %d index %d: holds %d element(s), expected %d [%s ]", ci, I, n, m.n, show(m).c_str());
    int rid[MAXN]; for (int j = 0; j < n; ++j) {
      const Elem& e = *r[j]; rid[j] = e.id; int s = m.slot(e.id);
      CHECK(s >= 0, "container %d index %d: contains element #%d that should not be there", ci, I, e.id);
      CHECK(!e.moved, "container %d index %d: element #%d was left moved-from", ci, I, e.id);
      CHECK(!memcmp(e.k, m.e[s].k, sizeof e.k), "container %d index %d: element #%d has value (%d,%d,%d), expected (%d,%d,%d)", ci, I, e.id, e.k[0], e.k[1], e.k[2], m.e[s].k[0], m.e[s].k[1], m.e[s].k[2]);
      for (int q = 0; q < j; ++q) CHECK(rid[q] != rid[j], "container %d index %d: element #%d occurs twice", ci, I, rid[j]);
      if (I == 0) addr[e.id] = &e; else CHECK(addr[e.id] == &e, "container %d: index %d and index 0 refer to different objects for element #%d", ci, I, e.id);
    }
    auto seq = [&](const int* a) { std::string s; for (int j = 0; j < n; ++j) s += " #" + std::to_string(a[j]); return s; };
    bool exact = con == EXACT || con == HASHX;
    if (exact) { for (int j = 0; j < n; ++j) CHECK(rid[j] == m.ord[I][j], "container %d index %d: order is%s, expected%s", ci, I, seq(rid).c_str(), seq(m.ord[I]).c_str()); return; }
    if (con == FREE) {
      int a[MAXN], b[MAXN], na = 0, nb = 0; for (int j = 0; j < n; ++j) { if (!x.mv.has(rid[j])) a[na++] = rid[j]; if (!x.mv.has(m.ord[I][j])) b[nb++] = m.ord[I][j]; }
      for (int j = 0; j < na; ++j) CHECK(a[j] == b[j], "container %d index %d: relative order of untouched elements changed: order is%s, expected like%s", ci, I, seq(rid).c_str(), seq(m.ord[I]).c_str());
      for (int j = 0; j + 1 < n; ++j) CHECK(!mo.lt(m, I, m.k(rid[j + 1]), m.k(rid[j])), "container %d index %d: not sorted: order is%s", ci, I, seq(rid).c_str());
    } else if (con == HASHG) {
      for (int j = 0; j < n; ++j) for (int q = j + 2; q < n; ++q) if (mo.eqv(I, m.k(rid[j]), m.k(rid[q]))) CHECK(mo.eqv(I, m.k(rid[j]), m.k(rid[q - 1])), "container %d index %d: elements with equivalent keys are not adjacent", ci, I);
      const MC& p = pre.c[ci]; // relative order of untouched equivalent elements
      for (int j = 0; j < n; ++j) for (int q = j + 1; q < n; ++q) if (mo.eqv(I, m.k(rid[j]), m.k(rid[q])) && p.has(rid[j]) && p.has(rid[q]) && !x.mv.has(rid[j]) && !x.mv.has(rid[q]))
        CHECK(p.pos(I, rid[j]) < p.pos(I, rid[q]), "container %d index %d: relative order of equivalent elements #%d and #%d changed", ci, I, rid[j], rid[q]);
    } else {  // SETONLY: structural consistency only
      if (ordered(D[I].kind)) for (int j = 0; j + 1 < n; ++j) CHECK(D[I].uniq ? mo.lt(m, I, m.k(rid[j]), m.k(rid[j + 1])) : !mo.lt(m, I, m.k(rid[j + 1]), m.k(rid[j])), "container %d index %d: not sorted (or duplicates in a unique index): order is%s", ci, I, seq(rid).c_str());
      if (D[I].kind == HSH) for (int j = 0; j < n; ++j) for (int q = j + 1; q < n; ++q) if (mo.eqv(I, m.k(rid[j]), m.k(rid[q]))) { CHECK(!D[I].uniq, "container %d index %d: duplicate keys in a unique index", ci, I); CHECK(mo.eqv(I, m.k(rid[j]), m.k(rid[q - 1])), "container %d index %d: elements with equivalent keys are not adjacent", ci, I); }
    }
    memcpy(m.ord[I], rid, sizeof(int) * n);
  }
  template <int I> void verify_objs(const C& c, int ci, MC& m) {
    auto& x = c.template get<I>();
    if constexpr (ordered(D[I].kind)) { CHECK(x.key_comp().dir == m.dir[I], "container %d index %d: comparison object differs", ci, I); CHECK(x.key_extractor().state == m.st, "container %d index %d: key extractor object differs", ci, I); }
    if constexpr (D[I].kind == HSH) { CHECK(x.hash_function().state == m.st && x.key_eq().state == m.st && x.key_extractor().state == m.st, "container %d index %d: hash/equality/key-extractor objects differ", ci, I); if (m.mlf[I] < 0) m.mlf[I] = x.max_load_factor(); CHECK(x.max_load_factor() == m.mlf[I], "container %d index %d: max_load_factor() is %f, expected %f", ci, I, x.max_load_factor(), m.mlf[I]); }
    CHECK(aid_of(x.get_allocator()) == m.aid, "container %d index %d: get_allocator() has id %d, expected %d", ci, I, aid_of(x.get_allocator()), m.aid);
  }
  template <int I> void verify_iters(World& w, const Exp& x, const Elem** addr) {
    auto& k = std::get<I>(cap_);
    for (auto& pr : k.v) {
      int c = x.post.c[0].has(pr.first) ? 0 : opt.two && x.post.c[1].has(pr.first) ? 1 : -1;
#ifdef VERIF_SAFE
      if (c < 0) must_be_invalid(I, pr.second, "an element that is no longer in a container");
#endif
      if (c < 0) continue;
      if (caps_.addr[pr.first] != addr[pr.first]) continue;   // moved/copied between unequal allocators: a new object
      auto& y = w.c[c]->template get<I>();
      CHECK(&*pr.second == addr[pr.first], "index %d: iterator to element #%d no longer refers to it", I, pr.first);
      It<I> f = y.iterator_to(*addr[pr.first]);
      CHECK(pr.second == f, "index %d: iterator to element #%d is no longer an iterator of its container", I, pr.first);
      It<I> a = pr.second, b = f; ++a; ++b; CHECK(a == b, "index %d: increment of an old iterator to #%d goes astray", I, pr.first);
      if constexpr (D[I].kind == RND) CHECK((a - y.begin()) == std::distance(y.begin(), a), "index %d: iterator difference wrong", I);
    }
  }
#ifdef VERIF_SAFE
  template <class T> void must_be_invalid(int i, const T& it, const char* what) {
    int code = -1; try { (void)*it; } catch (SafeErr& e) { code = e.code; }
    CHECK(code == 0, "index %d: dereferencing an iterator to %s: safe mode reports %s instead of invalid_iterator", i, what, safe_name(code));
    code = -1; try { T t; t = it; } catch (SafeErr& e) { code = e.code; }
    CHECK(code == 0, "index %d: assigning from an iterator to %s: safe mode reports %s instead of invalid_iterator", i, what, safe_name(code));
  }
#endif
  template <int I> void verify_ends(World& w, const Op& o, const Exp& x, bool fresh0, bool fresh1, bool done) {
    auto& k = std::get<I>(cap_); bool fr[2] = {fresh0, fresh1}; (void)o; (void)done;
#ifdef VERIF_SAFE
    if (done && (o.code == O_CPC || o.code == O_CPCA || o.code == O_MVC || o.code == O_MVCA || o.code == O_RNGC || o.code == O_RNGL)) must_be_invalid(I, k.end[o.c], "the end of a destroyed container");
#endif
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) { if (fr[c]) continue; int t = x.endswap ? 1 - c : c; CHECK(k.end[c] == w.c[t]->template get<I>().end(), "index %d: end() iterator taken before the operation is no longer end()", I); }
  }
  template <int... I> void verify_c(World& w, int c, Exp& x, const MW& pre, const Elem** addr, std::integer_sequence<int, I...>) {
    (void)std::initializer_list<int>{(verify_index<I>(*w.c[c], c, x, pre, addr), 0)...};
    (void)std::initializer_list<int>{(verify_objs<I>(*w.c[c], c, x.post.c[c]), 0)...};
  }
  template <int I> void adopt_objs(const C& c, MC& m) {
    auto& x = c.template get<I>();
    if constexpr (ordered(D[I].kind)) { m.dir[I] = x.key_comp().dir; m.st = x.key_extractor().state; }
    if constexpr (D[I].kind == HSH) { m.st = x.hash_function().state; m.mlf[I] = x.max_load_factor(); }
    m.aid = aid_of(x.get_allocator());
  }
  template <int... I> void adopt(World& w, int c, Exp& x, std::integer_sequence<int, I...> s) {  // take over whatever container c now is
    MC& m = x.post.c[c]; (void)std::initializer_list<int>{(adopt_objs<I>(*w.c[c], m), 0)...}; (void)s;
    const Elem* r[MAXN + 1]; m.n = order<0>(*w.c[c], r);
    for (int j = 0; j < m.n; ++j) { m.e[j].id = r[j]->id; memcpy(m.e[j].k, r[j]->k, sizeof m.e[j].k); for (int i = 0; i < N; ++i) m.ord[i][j] = r[j]->id; }
    for (int i = 0; i < N; ++i) x.con[c][i] = SETONLY;
  }
  void map_copy(World& w, Exp& x, const MW& pre) {  // container cpdst is a copy: translate identities by the order of index 0
    int d = x.cpdst; const MC& src = pre.c[x.cpsrc]; MC& m = x.post.c[d]; const Elem* r[MAXN + 1]; int n = order<0>(*w.c[d], r);
    CHECK(n == src.n, "the copy has %d element(s), the source %d", n, src.n);
    MC t = src; t.aid = m.aid; auto tr = [&](int id) { for (int j = 0; j < n; ++j) if (src.ord[0][j] == id) return r[j]->id; return -1; };
    for (int j = 0; j < n; ++j) { for (int c = 0; c < 2; ++c) CHECK(!pre.c[c].has(r[j]->id), "copying did not create a new element"); t.e[j].id = tr(src.e[j].id); for (int i = 0; i < N; ++i) t.ord[i][j] = tr(src.ord[i][j]); }
    m = t; for (int i = 0; i < N; ++i) x.con[d][i] = D[i].kind == HSH ? HASHX : EXACT;
  }

  // complete verification of the world against x.post; adopts free orders into x.post
  void verify(World& w, const Op& o, const MW& pre, Exp& x, const Res* R) {
    Disarm da; constexpr auto seq = std::make_integer_sequence<int, N>();
    if (x.has_alt) { const Elem* r[MAXN + 1]; int n = order<0>(*w.c[x.alt_c], r); bool found = false; for (int j = 0; j < n; ++j) if (r[j]->id == x.alt_id) found = true; if (!found) mo.erase(x.post.c[x.alt_c], x.alt_id); }
    if (x.cpdst >= 0) map_copy(w, x, pre);
    if (x.anyc >= 0) adopt(w, x.anyc, x, seq);
    const Elem* addr[512]; for (auto& a : addr) a = nullptr;
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) verify_c(w, c, x, pre, addr, seq);
    CHECK(w.nh.empty() == !x.post.nh, "node handle is %sempty", w.nh.empty() ? "" : "not ");
    if (x.post.nh) { Elem& e = w.nh.value(); e.assert_ok(); CHECK(e.id == x.post.nhe.id && !memcmp(e.k, x.post.nhe.k, sizeof e.k) && !e.moved, "node handle owns the wrong element or value"); addr[e.id] = &e; CHECK(aid_of(w.nh.get_allocator()) == x.post.nhaid, "node handle has the wrong allocator"); }
    // references survive
    if (!x.addr_any) for (int id = 0; id < 512; ++id) if (caps_.addr[id] && addr[id]) CHECK(caps_.addr[id] == addr[id], "element #%d changed its address", id);
    bool f0 = (whole(o.code) || o.code == O_CPAI || o.code == O_ILAI) && o.code != O_SWP && (R || x.anyc >= 0), f1 = f0;
    // elements: every constructed one is accounted for
    long want = x.post.c[0].n + (opt.two ? x.post.c[1].n : 0) + (x.post.nh ? 1 : 0);
    CHECK(live - live_base == want, "%ld live element objects, %ld expected", live - live_base, want);
    if (!alloc_errors.empty()) { std::string s = alloc_errors[0]; alloc_errors.clear(); fail("%s", s.c_str()); }
    verify_it(w, o, x, addr, f0, f1, R != nullptr, seq);
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) if (R && !whole(o.code) && o.code != O_SWPI && o.code != O_CPAI && o.code != O_ILAI && (x.post.c[c].n > pre.c[c].n || (c == o.c && (o.code == O_RHS || o.code == O_HRS)))) load_ok(*w.c[c], o, x.post.c[c].n > pre.c[c].n, seq);
    if (R) {
      if (x.chkret) CHECK(x.ret.has(R->id), "returned iterator refers to %s%d", R->id < 0 ? "end " : "#", R->id);
      if (x.flag >= 0 && R->flag >= 0) CHECK(R->flag == x.flag, "returned %s, expected %s", R->flag ? "true" : "false", x.flag ? "true" : "false");
      if (x.num >= 0) CHECK(R->num == x.num, "returned %ld, expected %ld", R->num, x.num);
      if (x.nhempty >= 0 && R->nhempty >= 0) CHECK(R->nhempty == x.nhempty, "returned node handle is %sempty", R->nhempty ? "" : "not ");
      if (R->slack && x.post.c[o.c].n > pre.c[o.c].n && (o.code <= O_EMPH || (o.code >= O_PB && o.code <= O_SEM))) CHECK(R->allocs <= x.post.c[o.c].n - pre.c[o.c].n, "%d allocations to insert %d element(s) below capacity()", R->allocs, x.post.c[o.c].n - pre.c[o.c].n);
      if (x.copies >= 0) CHECK(R->copies <= x.copies, "%d element copy construction(s), at most %d expected", R->copies, x.copies);
      if (x.moves >= 0) CHECK(R->moves <= x.moves, "%d element move construction(s), at most %d expected", R->moves, x.moves);
    }
  }
  template <int... I> void load_ok(const C& c, const Op& o, bool all, std::integer_sequence<int, I...>) {
    (void)std::initializer_list<int>{([&] { if constexpr (D[I].kind == HSH) { auto& x = c.template get<I>(); if (all || o.i == I) CHECK(x.load_factor() <= x.max_load_factor() + 1e-6f, "index %d: load_factor() %f exceeds max_load_factor() %f after the operation", I, x.load_factor(), x.max_load_factor()); } }(), 0)...};
  }
  template <int... I> void verify_it(World& w, const Op& o, const Exp& x, const Elem** addr, bool f0, bool f1, bool done, std::integer_sequence<int, I...>) {
    (void)std::initializer_list<int>{(verify_iters<I>(w, x, addr), verify_ends<I>(w, o, x, f0, f1, done), 0)...};
  }

  // what must hold when the call ended with an exception
  Exp expect_exc(const MW& pre, const Op& o, const Exp& ok, int exc) const {
    Exp x; x.post = pre; const bool hx = o.code == O_RHS || o.code == O_HRS; setcon(x, 0, hx); setcon(x, 1, hx);  // a failed rehash changes nothing, the order included x.cpdst = -1;
    switch (ok.g) {
      case G_NOTHROW: fail("%s propagated an exception although it is documented not to throw", op_names[o.code]);
      case G_STRONG: if (ok.anyc >= 0 && (o.code == O_MVA || o.code == O_MVCA) && ok.addr_any) { x.anyc = ok.anyc; x.addr_any = true; } break;
      case G_MOD: mo.erase(x.post.c[ok.modc], ok.modid); break;
      case G_MODR: {
        int ph = fault_phase; bool thrown_by_back = exc == 2;
        // key extraction on behalf of modify_key's functors may count as part of the functor: the element may go or stay
        if (o.code == O_MODKR && fault_kind == K_KEY && (ph == 0 || ph == 2)) { x.has_alt = true; x.alt_id = ok.modid; x.alt_c = ok.modc; }
        if (ph == 1 || ph == 3 || ph == 4 || thrown_by_back) mo.erase(x.post.c[ok.modc], ok.modid);
        else if (ph == 2) { if (!ok.restores) rollback_to(x, pre, ok.modc, ok.modid, Cfg::vals[o.w]); }
        break; }
      case G_BASIC: break;
    }
    return x;
  }
  // basic guarantee: some consistent state, nothing lost that the operation would have kept, nothing foreign
  void verify_basic(World& w, const Op& o, const MW& pre, const Exp& ok, Exp& x) {
    Disarm da; constexpr auto seq = std::make_integer_sequence<int, N>();
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) adopt(w, c, x, seq);
    IdSet before, after, keep; for (int c = 0; c < (opt.two ? 2 : 1); ++c) { for (int j = 0; j < pre.c[c].n; ++j) before.add(pre.c[c].e[j].id); for (int j = 0; j < x.post.c[c].n; ++j) { CHECK(!after.has(x.post.c[c].e[j].id), "element #%d is in both containers after the exception", x.post.c[c].e[j].id); after.add(x.post.c[c].e[j].id); } }
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) for (int j = 0; j < ok.post.c[c].n; ++j) if (before.has(ok.post.c[c].e[j].id)) keep.add(ok.post.c[c].e[j].id);
    for (int j = 0; j < keep.n; ++j) CHECK(after.has(keep.v[j]), "element #%d was lost when the operation threw", keep.v[j]);
    for (int j = 0; j < after.n; ++j) if (!before.has(after.v[j])) { bool k = false; for (int c = 0; c < 2; ++c) k |= ok.post.c[c].has(after.v[j]); CHECK(k, "element #%d appeared out of nowhere", after.v[j]); }
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) for (int j = 0; j < x.post.c[c].n; ++j) { int id = x.post.c[c].e[j].id; for (int b = 0; b < 2; ++b) if (pre.c[b].has(id)) CHECK(!memcmp(pre.c[b].k(id), x.post.c[c].e[j].k, 3 * sizeof(int)), "element #%d changed its value", id); }
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) { // untouched elements keep their relative order in list-like indices unless the operation reorders
      if (o.code == O_SRT || o.code == O_SRTC || o.code == O_RARR || o.code == O_RARW) continue; (void)c; }
    if (UNEQ) x.addr_any = true;
  }

  // ================================================================ deep, read-only checks of a state
  template <int I> void deep_ordered(const C& cc, C& c, int ci, const MC& m) {
    auto& x = c.template get<I>(); auto& cx = cc.template get<I>(); int n = m.n; int bound = 2; for (int s = n + 1; s > 1; s = (s + 1) / 2) bound += 2;  // ~2*log2(n+1)+2
    auto rk = [&](It<I> it) { int p = 0; for (auto j = x.begin(); j != it && p <= n; ++j) ++p; return p; };
    int dmax = Cfg::kmax; auto kd = [&](int p) { return 2 * m.k(m.ord[I][p])[D[I].key]; }; bool asc = m.dir[I] > 0;
    for (int h = -1; h <= 2 * dmax + 1; ++h) {
      int lo = 0, up = 0; for (int p = 0; p < n; ++p) { if (asc ? kd(p) < h : kd(p) > h) lo = p + 1; if (asc ? kd(p) <= h : kd(p) >= h) up = p + 1; } if (up < lo) up = lo;
      auto chk = [&](auto f, auto cnt_, auto cont, auto lb, auto ub, auto er, const char* how) {
        long t0; auto tm = [&](const char* what) { CHECK(cnt[K_CMP] - t0 <= bound, "index %d: %s(%d/2)%s used %ld key comparisons with %d elements", I, what, h, how, cnt[K_CMP] - t0, n); };
        t0 = cnt[K_CMP]; auto it = f(); tm("find");
        if (lo == up) CHECK(it == x.end(), "container %d index %d: find(%d/2)%s found an element, none has this key", ci, I, h, how); else { int r = rk(it); CHECK(r >= lo && r < up, "container %d index %d: find(%d/2)%s returned position %d, expected in [%d,%d)", ci, I, h, how, r, lo, up); }
        t0 = cnt[K_CMP]; CHECK((int)cnt_() == up - lo, "container %d index %d: count(%d/2)%s is %d, expected %d", ci, I, h, how, (int)cnt_(), up - lo);
        CHECK(cont() == (up > lo), "container %d index %d: contains(%d/2)%s is wrong", ci, I, h, how);
        t0 = cnt[K_CMP]; it = lb(); tm("lower_bound"); CHECK(rk(it) == lo, "container %d index %d: lower_bound(%d/2)%s at %d, expected %d", ci, I, h, how, rk(it), lo);
        t0 = cnt[K_CMP]; it = ub(); tm("upper_bound"); CHECK(rk(it) == up, "container %d index %d: upper_bound(%d/2)%s at %d, expected %d", ci, I, h, how, rk(it), up);
        t0 = cnt[K_CMP]; auto pr = er(); CHECK(cnt[K_CMP] - t0 <= 2 * bound, "index %d: equal_range comparisons", I); CHECK(rk(pr.first) == lo && rk(pr.second) == up, "container %d index %d: equal_range(%d/2)%s is [%d,%d), expected [%d,%d)", ci, I, h, how, rk(pr.first), rk(pr.second), lo, up);
      };
      Half hk{h}; HalfLess hl{m.dir[I]};
      chk([&] { return cx.find(hk); }, [&] { return cx.count(hk); }, [&] { return cx.contains(hk); }, [&] { return cx.lower_bound(hk); }, [&] { return cx.upper_bound(hk); }, [&] { return cx.equal_range(hk); }, " [compatible key]");
      chk([&] { return cx.find(hk, hl); }, [&] { return cx.count(hk, hl); }, [&] { return cx.contains(hk, hl); }, [&] { return cx.lower_bound(hk, hl); }, [&] { return cx.upper_bound(hk, hl); }, [&] { return cx.equal_range(hk, hl); }, " [compatible comparison]");
      if (h >= 0 && h % 2 == 0) { int k = h / 2; chk([&] { return cx.find(k); }, [&] { return cx.count(k); }, [&] { return cx.contains(k); }, [&] { return cx.lower_bound(k); }, [&] { return cx.upper_bound(k); }, [&] { return cx.equal_range(k); }, ""); Prom pk{k}; Less pl; pl.dir = m.dir[I]; chk([&] { return cx.find(pk); }, [&] { return cx.count(pk); }, [&] { return cx.contains(pk); }, [&] { return cx.lower_bound(pk); }, [&] { return cx.upper_bound(pk); }, [&] { return cx.equal_range(pk); }, " [converted key]"); chk([&] { return cx.find(pk, pl); }, [&] { return cx.count(pk, pl); }, [&] { return cx.contains(pk, pl); }, [&] { return cx.lower_bound(pk, pl); }, [&] { return cx.upper_bound(pk, pl); }, [&] { return cx.equal_range(pk, pl); }, " [converted key, comparison]"); }
      if constexpr (D[I].kind == RNK) {
        int fr = lo == up ? n : lo; (void)fr;
        auto rkc = [&](auto f, auto l, auto u, auto e, auto fnd, const char* how) {
          CHECK((int)l() == lo, "index %d: lower_bound_rank(%d/2)%s is %d, expected %d", I, h, how, (int)l(), lo); CHECK((int)u() == up, "index %d: upper_bound_rank(%d/2)%s is %d, expected %d", I, h, how, (int)u(), up);
          auto pr = e(); CHECK((int)pr.first == lo && (int)pr.second == up, "index %d: equal_range_rank(%d/2)%s is [%d,%d), expected [%d,%d)", I, h, how, (int)pr.first, (int)pr.second, lo, up);
          CHECK((int)f() == rk(fnd()), "index %d: find_rank(%d/2)%s is %d, find() is at %d", I, h, how, (int)f(), rk(fnd()));
        };
        rkc([&] { return cx.find_rank(hk); }, [&] { return cx.lower_bound_rank(hk); }, [&] { return cx.upper_bound_rank(hk); }, [&] { return cx.equal_range_rank(hk); }, [&] { return cx.find(hk); }, " [compatible key]");
        rkc([&] { return cx.find_rank(hk, hl); }, [&] { return cx.lower_bound_rank(hk, hl); }, [&] { return cx.upper_bound_rank(hk, hl); }, [&] { return cx.equal_range_rank(hk, hl); }, [&] { return cx.find(hk, hl); }, " [compatible comparison]");
        if (h >= 0 && h % 2 == 0) { int k = h / 2; rkc([&] { return cx.find_rank(k); }, [&] { return cx.lower_bound_rank(k); }, [&] { return cx.upper_bound_rank(k); }, [&] { return cx.equal_range_rank(k); }, [&] { return cx.find(k); }, ""); Prom pk{k}; rkc([&] { return cx.find_rank(pk); }, [&] { return cx.lower_bound_rank(pk); }, [&] { return cx.upper_bound_rank(pk); }, [&] { return cx.equal_range_rank(pk); }, [&] { return cx.find(pk); }, " [converted key]"); }
      }
    }
    for (int g = -1; g <= dmax / 2 + 1; ++g) {  // coarser comparison
      int lo = 0, up = 0; for (int p = 0; p < n; ++p) { int q = kd(p) / 4; if (asc ? q < g : q > g) lo = p + 1; if (asc ? q <= g : q >= g) up = p + 1; } if (up < lo) up = lo;
      Grp gk{g}; GrpLess gl{m.dir[I]}; auto pos = [&](It<I> it, int w, const char* how) { CHECK(rk(it) == w, "container %d index %d: %s with a coarser comparison is at %d, expected %d", ci, I, how, rk(it), w); };
      { int r = rk(cx.find(gk, gl)); CHECK(lo == up ? r == n : r >= lo && r < up, "container %d index %d: find with a coarser comparison is at %d, expected in [%d,%d)", ci, I, r, lo, up); } pos(cx.lower_bound(gk, gl), lo, "lower_bound"); pos(cx.upper_bound(gk, gl), up, "upper_bound"); auto er = cx.equal_range(gk, gl); pos(er.first, lo, "equal_range"); pos(er.second, up, "equal_range");
      CHECK((int)cx.count(gk, gl) == up - lo && cx.contains(gk, gl) == (up > lo), "container %d index %d: count or contains with a coarser comparison", ci, I);
      if constexpr (D[I].kind == RNK) { auto r = cx.equal_range_rank(gk, gl); CHECK((int)cx.find_rank(gk, gl) == rk(cx.find(gk, gl)) && (int)cx.lower_bound_rank(gk, gl) == lo && (int)cx.upper_bound_rank(gk, gl) == up && (int)r.first == lo && (int)r.second == up, "container %d index %d: rank operations with a coarser comparison", ci, I); }
    }
    // range(): all pairs of bounds, each inclusive or exclusive or unbounded
    auto key2 = [&](int k) { return asc ? 2 * k : -2 * k; };
    for (int a = -1; a <= 2 * dmax + 1; ++a) for (int b = -1; b <= 2 * dmax + 1; ++b) {
      // bounds on the transformed axis t(k)=+-2k: lower: t>=A, upper: t<=B
      int Ab = asc ? a : -2 * dmax + a, Bb = asc ? b : -2 * dmax + b;
      auto L = [&](int k) { tick(K_FN); return key2(k) >= Ab; }; auto U = [&](int k) { tick(K_FN); return key2(k) <= Bb; };
      auto want = [&](bool ul, bool uu, int& f, int& l) { f = 0; while (!ul && f < n && !(key2(kd(f) / 2) >= Ab)) ++f; l = f; while (l < n && (uu || key2(kd(l) / 2) <= Bb)) ++l; };
      auto cmpr = [&](auto pr, bool ul, bool uu, const char* how) { int f, l; want(ul, uu, f, l); CHECK(rk(pr.first) == f && rk(pr.second) == l, "container %d index %d: range(%s) with bounds %d/2..%d/2 is [%d,%d), expected [%d,%d)", ci, I, how, Ab, Bb, rk(pr.first), rk(pr.second), f, l); };
      long t0 = cnt[K_FN];
      cmpr(cx.range(L, U), false, false, "lower,upper"); CHECK(cnt[K_FN] - t0 <= 4 * bound, "index %d: range(lower,upper) evaluated the bounds %ld times with %d elements", I, cnt[K_FN] - t0, n);
      if (b == -1) cmpr(cx.range(L, bmi::unbounded), false, true, "lower,unbounded");
      if (a == -1) cmpr(cx.range(bmi::unbounded, U), true, false, "unbounded,upper");
      if constexpr (D[I].kind == RNK) {
        auto cr = [&](auto pr, bool ul, bool uu, const char* how) { int f, l; want(ul, uu, f, l); CHECK((int)pr.first == f && (int)pr.second == l, "index %d: range_rank(%s) with bounds %d/2..%d/2 is [%d,%d), expected [%d,%d)", I, how, Ab, Bb, (int)pr.first, (int)pr.second, f, l); };
        cr(cx.range_rank(L, U), false, false, "lower,upper"); if (b == -1) cr(cx.range_rank(L, bmi::unbounded), false, true, "lower,unbounded"); if (a == -1) cr(cx.range_rank(bmi::unbounded, U), true, false, "unbounded,upper");
      }
    }
    { auto pr = cx.range(bmi::unbounded, bmi::unbounded); CHECK(pr.first == x.begin() && pr.second == x.end(), "index %d: range(unbounded,unbounded) is not everything", I); }
    if constexpr (D[I].kind == RNK) {
      auto pr = cx.range_rank(bmi::unbounded, bmi::unbounded); CHECK(pr.first == 0 && (int)pr.second == n, "index %d: range_rank(unbounded,unbounded)", I);
      auto it = cx.begin(); for (int p = 0; p < n; ++p, ++it) { CHECK(cx.nth(p) == it, "index %d: nth(%d) is not the element at position %d", I, p, p); CHECK((int)cx.rank(it) == p, "index %d: rank of the element at position %d is %d", I, p, (int)cx.rank(it)); }
      CHECK(cx.nth(n) == cx.end() && cx.nth(n + 1) == cx.end() && cx.nth((size_t)-1) == cx.end(), "index %d: nth(n>=size()) is not end()", I); CHECK((int)cx.rank(cx.end()) == n, "index %d: rank(end()) is %d", I, (int)cx.rank(cx.end()));
    }
    auto vc = cx.value_comp(); for (int p = 0; p + 1 < n; ++p) CHECK(!vc(*std::next(cx.begin(), p + 1), *std::next(cx.begin(), p)), "value_comp disagrees with the order");
  }
  template <int I> void deep_hashed(const C& cc, C& c, int ci, const MC& m) {
    auto& x = c.template get<I>(); auto& cx = cc.template get<I>(); int n = m.n;
    auto rk = [&](It<I> it) { int p = 0; for (auto j = x.begin(); j != it && p <= n; ++j) ++p; return p; };
    for (int h = -1; h <= 2 * Cfg::kmax + 1; ++h) {
      int f = n, e = n, k = 0; for (int p = n; p-- > 0;) if (2 * m.k(m.ord[I][p])[D[I].key] == h) { f = p; if (!k++) e = p + 1; } if (!k) f = e = n;
      auto chk = [&](auto fi, auto co, auto cn, auto er, const char* how) {
        auto it = fi(); if (!k) CHECK(it == x.end(), "container %d index %d: find(%d/2)%s found an element, none has this key", ci, I, h, how); else { int r = rk(it); CHECK(r >= f && r < e, "container %d index %d: find(%d/2)%s did not find the key", ci, I, h, how); }
        CHECK((int)co() == k, "container %d index %d: count(%d/2)%s is %d, expected %d", ci, I, h, how, (int)co(), k); CHECK(cn() == (k > 0), "container %d index %d: contains(%d/2)%s", ci, I, h, how);
        auto pr = er(); if (!k) CHECK(pr.first == x.end() && pr.second == x.end(), "container %d index %d: equal_range(%d/2)%s of an absent key", ci, I, h, how); else CHECK(rk(pr.first) == f && rk(pr.second) == e, "container %d index %d: equal_range(%d/2)%s is [%d,%d), expected [%d,%d)", ci, I, h, how, rk(pr.first), rk(pr.second), f, e);
      };
      Half hk{h}; Hash ch{0}; Eq ce{0};
      chk([&] { return cx.find(hk); }, [&] { return cx.count(hk); }, [&] { return cx.contains(hk); }, [&] { return cx.equal_range(hk); }, " [compatible key]");
      chk([&] { return cx.find(hk, ch, ce); }, [&] { return cx.count(hk, ch, ce); }, [&] { return cx.contains(hk, ch, ce); }, [&] { return cx.equal_range(hk, ch, ce); }, " [compatible hash]");
      if (h >= 0 && h % 2 == 0) { int kk = h / 2; long t0 = cnt[K_HASH]; (void)cx.find(kk); CHECK(cnt[K_HASH] - t0 <= 1, "index %d: find hashed the key %ld times", I, cnt[K_HASH] - t0); chk([&] { return cx.find(kk); }, [&] { return cx.count(kk); }, [&] { return cx.contains(kk); }, [&] { return cx.equal_range(kk); }, ""); Prom pk{kk}; chk([&] { return cx.find(pk); }, [&] { return cx.count(pk); }, [&] { return cx.contains(pk); }, [&] { return cx.equal_range(pk); }, " [converted key]"); chk([&] { return cx.find(pk, ch, ce); }, [&] { return cx.count(pk, ch, ce); }, [&] { return cx.contains(pk, ch, ce); }, [&] { return cx.equal_range(pk, ch, ce); }, " [converted key, hash]"); }
    }
    size_t B = cx.bucket_count(); CHECK(B >= 1 && B <= cx.max_bucket_count(), "index %d: bucket_count()", I); size_t tot = 0;
    for (int k = 0; k <= Cfg::kmax; ++k) CHECK(cx.bucket(k) < B, "index %d: bucket(%d) out of range", I, k);
    for (size_t b = 0; b < B; ++b) {
      size_t s = 0; auto it = cx.begin(b), e = cx.end(b), ce2 = cx.cend(b); for (; it != e; ++it, ++s) { CHECK(s <= (size_t)n, "index %d: iteration of bucket %zu does not end", I, b); CHECK(cx.bucket(it->k[D[I].key]) == b, "index %d: bucket %zu contains a key of another bucket", I, b); CHECK(cx.local_iterator_to(*it) == it, "index %d: local_iterator_to", I); CHECK(cc.template project<I>(cx.iterator_to(*it)) == cx.iterator_to(*it), "index %d: iterator_to", I); }
      CHECK(it == ce2, "index %d: cend(bucket)", I); CHECK(cx.cbegin(b) == cx.begin(b) && x.begin(b) == cx.begin(b) && x.end(b) == e, "index %d: begin/end variants of bucket %zu differ", I, b);
      CHECK(cx.bucket_size(b) == s, "index %d: bucket_size(%zu) is %zu, %zu elements iterated", I, b, (size_t)cx.bucket_size(b), s); tot += s;
    }
    CHECK(tot == (size_t)n, "index %d: the buckets hold %zu elements, the container %d", I, tot, n);
    CHECK(cx.load_factor() <= (float)n / B + 1e-6f && cx.load_factor() >= (float)n / B - 1e-6f, "index %d: load_factor() is not size()/bucket_count()", I);
  }
  template <int I> void deep_list(const C& cc, C& c, int ci, const MC& m) {
    auto& x = c.template get<I>(); auto& cx = cc.template get<I>(); int n = m.n; (void)ci;
    if (n) { CHECK(cx.front().id == m.ord[I][0], "index %d: front()", I); CHECK(cx.back().id == m.ord[I][n - 1], "index %d: back()", I); }
    if constexpr (D[I].kind == RND) {
      for (int p = 0; p < n; ++p) { CHECK(cx[p].id == m.ord[I][p], "index %d: operator[](%d)", I, p); CHECK(cx.at(p).id == m.ord[I][p], "index %d: at(%d)", I, p); }
      bool thrown = false; try { (void)cx.at(n); } catch (std::out_of_range&) { thrown = true; } CHECK(thrown, "index %d: at(size()) does not throw out_of_range", I);
      thrown = false; try { (void)cx.at((size_t)-1); } catch (std::out_of_range&) { thrown = true; } CHECK(thrown, "index %d: at(-1) does not throw out_of_range", I);
      for (int p = 0; p <= n; ++p) for (int q = 0; q <= n; ++q) {
        It<I> a = x.begin() + p, b = x.begin() + q; CHECK(b - a == q - p, "index %d: iterator difference %d..%d is %d", I, p, q, (int)(b - a)); CHECK((a + (q - p)) == b && (b - (q - p)) == a, "index %d: iterator arithmetic", I);
        It<I> t = a; t += (q - p); CHECK(t == b, "index %d: iterator +=", I); t -= (q - p); CHECK(t == a, "index %d: iterator -=", I);
        CHECK((a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q) && (a == b) == (p == q) && (a != b) == (p != q), "index %d: iterator comparison %d,%d", I, p, q);
        if (p < n) CHECK(x.begin()[p].id == m.ord[I][p] && (*a).id == m.ord[I][p], "index %d: iterator subscript", I);
        It<I> pa = a; if (p < n) { CHECK(pa++ == a && pa == a + 1, "postincrement"); CHECK(pa-- == a + 1 && pa == a, "postdecrement"); }
      }
      CHECK(cx.capacity() >= cx.size(), "index %d: capacity() < size()", I);
    }
  }
  template <int I> void deep_all(const C& cc, C& c, int ci, const MC& m) {
    auto& x = c.template get<I>(); auto& cx = cc.template get<I>();
    CHECK(x.begin() == cx.begin() && cx.begin() == cx.cbegin() && cx.end() == cx.cend() && x.end() == cx.end(), "index %d: begin/end variants differ", I);
    CHECK((int)cx.size() <= (long long)cx.max_size() || cx.max_size() > 1000000, "max_size");
    if constexpr (D[I].kind != HSH) { int j = m.n; for (auto it = cx.rbegin(); it != cx.rend(); ++it) CHECK(it->id == m.ord[I][--j], "index %d: reverse iteration", I); CHECK(j == 0, "index %d: reverse iteration", I); j = 0; for (auto it = cx.crend(); it != cx.crbegin();) { --it; CHECK(it->id == m.ord[I][j++], "index %d: crbegin/crend", I); } CHECK(j == m.n, "index %d: crbegin/crend", I); j = m.n; for (auto it = x.rbegin(); it != x.rend(); ++it) CHECK(it->id == m.ord[I][--j], "index %d: reverse iteration", I); CHECK(j == 0, "index %d: reverse iteration", I); }
    for (auto it = x.begin(); it != x.end(); ++it) { CHECK(x.iterator_to(*it) == it && cx.iterator_to(*it) == it, "index %d: iterator_to", I); proj<I>(c, cc, it, std::make_integer_sequence<int, N>()); typename Idx<I>::const_iterator ci2 = it; CHECK(ci2 == it && &*ci2 == &*it && ci2->id == it->id, "index %d: const_iterator conversion", I); It<I> pi = it; CHECK(pi++ == it && pi == std::next(it), "index %d: postincrement", I); }
    projend<I>(c, cc, std::make_integer_sequence<int, N>());
    CHECK(&bmi::get<I>(c) == &x && &bmi::get<I>(cc) == &cx, "get<%d>", I);
    if constexpr (ordered(D[I].kind)) deep_ordered<I>(cc, c, ci, m);
    if constexpr (D[I].kind == HSH) deep_hashed<I>(cc, c, ci, m);
    if constexpr (listlike(D[I].kind)) deep_list<I>(cc, c, ci, m);
  }
  template <int I, int... J> void proj(C& c, const C& cc, It<I> it, std::integer_sequence<int, J...>) {
    (void)std::initializer_list<int>{([&] { auto p = c.template project<J>(it); CHECK(&*p == &*it && p == c.template get<J>().iterator_to(*it), "project from index %d to index %d", I, J); auto q = cc.template project<J>(it); CHECK(&*q == &*it, "const project from index %d to index %d", I, J); auto r = bmi::project<J>(c, it); CHECK(r == p, "global project"); auto b = c.template project<I>(p); CHECK(b == it, "project back"); }(), 0)...};
  }
  template <int I, int... J> void projend(C& c, const C& cc, std::integer_sequence<int, J...>) {
    (void)std::initializer_list<int>{([&] { CHECK(c.template project<J>(c.template get<I>().end()) == c.template get<J>().end(), "project of end() from index %d to index %d", I, J); CHECK(cc.template project<J>(cc.template get<I>().end()) == cc.template get<J>().end(), "const project of end()"); }(), 0)...};
  }
  template <int... I> void deep_c(World& w, int c, const MW& m, std::integer_sequence<int, I...>) { (void)std::initializer_list<int>{(deep_all<I>(*w.c[c], *w.c[c], c, m.c[c]), 0)...}; }
  void deep(World& w, const MW& m) { fault_at = 0; for (int c = 0; c < (opt.two ? 2 : 1); ++c) deep_c(w, c, m, std::make_integer_sequence<int, N>()); long want = m.c[0].n + (opt.two ? m.c[1].n : 0) + (m.nh ? 1 : 0); CHECK(live - live_base == want, "a const operation changed the number of elements"); deep_extra(w, m); }
