  // ================================================================ state fingerprints
  template <int I> void shape(std::string& s, const C& c) const {
    auto& x = c.template get<I>();
    if constexpr (ordered(D[I].kind)) {
      if constexpr (has_color<It<I>>::value) {
        for (auto it = x.begin(); it != x.end(); ++it) {
          int depth = 0; auto cur = it.get_node()->impl(); for (; depth < 25 && cur->parent()->parent() != cur; ++depth) cur = cur->parent();
          s += char('A' + depth * 2 + ((int)it.get_node()->color() & 1));
        }
      } else for (int h = -1; h <= 2 * Cfg::kmax + 1; ++h) { long t = cnt[K_CMP]; (void)x.find(Half{h}); s += char('a' + (cnt[K_CMP] - t)); }
      s += x.key_comp().dir > 0 ? '+' : '-';
      for (auto it = x.begin(), e = x.end(); it != e; ++it) { s += x.find(it->k[D[I].key]) == e ? '!' : '.'; if constexpr (D[I].kind == RNK) s += char('0' + x.rank(it)); }
    } else if constexpr (D[I].kind == HSH) { s += std::to_string(x.bucket_count()); s += '/'; s += std::to_string(x.max_load_factor());
      int n = (int)x.size(); // how the buckets see the elements: a damaged bucket list must not look like a known state
      for (auto it = x.begin(), e = x.end(); it != e; ++it) {
        int key = it->k[D[I].key]; size_t b = x.bucket(key); int at_ = 0, k = 0; auto l = x.begin(b), le = x.end(b);
        for (; l != le && k <= n; ++l, ++k) if (&*l == &*it) at_ = k + 1; s += char('0' + at_); s += char('0' + k); auto f = x.find(key); s += f == e ? '!' : f == it ? '=' : '.'; } }
    else if constexpr (D[I].kind == RND) { s += 'c'; s += std::to_string(x.capacity()); int p = 0; for (auto it = x.begin(), e = x.end(); it != e; ++it, ++p) if (&x[p] != &*it || it - x.begin() != p) s += '!'; }
    s += ';';
  }
  template <int... I> void shapes(std::string& s, const C& c, std::integer_sequence<int, I...>) const { (void)std::initializer_list<int>{(shape<I>(s, c), 0)...}; }
  static void keyval(std::string& s, const int* k) { for (int j = 0; j < 3; ++j) s += char('0' + k[j] + 1); }
  std::string canon(const World& w, const MW& m) const {
    bool oa = armed; long sv[K_NUM]; memcpy(sv, cnt, sizeof sv); long tk = ticks; fault_at = 0;
    std::string s;
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) {
      const MC& a = m.c[c]; s += char('0' + a.n);
      for (int j = 0; j < a.n; ++j) keyval(s, a.k(a.ord[0][j]));
      for (int i = 1; i < N; ++i) { for (int j = 0; j < a.n; ++j) s += char('0' + a.pos(0, a.ord[i][j])); s += ','; }
      shapes(s, *w.c[c], std::make_integer_sequence<int, N>());
      s += std::to_string(a.st) + "@" + std::to_string(a.aid) + "|";
    }
    if (m.nh) { s += 'N'; keyval(s, m.nhe.k); s += std::to_string(m.nhaid); }
    armed = oa; memcpy(cnt, sv, sizeof sv); ticks = tk;
    return s;
  }

  // ================================================================ enabled operations
  bool fam(unsigned f) const { return (unsigned(VERIF_FAM) & opt.fam & f) != 0; }
  static int nvals() { return (int)(sizeof(Cfg::vals) / sizeof(Cfg::vals[0])); }
  static bool sortedby(const MC& m, int i, bool desc) {
    for (int j = 0; j + 1 < m.n; ++j) { const int *a = m.k(m.ord[i][j]), *b = m.k(m.ord[i][j + 1]); if (desc) { if (a[0] < b[0]) return false; } else { int t = 0; for (int q = 0; q < 3 && !t; ++q) t = a[q] < b[q] ? -1 : a[q] > b[q] ? 1 : 0; if (t > 0) return false; } }
    return true;
  }
  void gen(const MW& m, std::vector<Op>& out) const {
    out.clear();
    int C2 = opt.two ? 2 : 1, nv = nvals();
    auto add = [&](int code, int c, int i, int p = 0, int q = 0, int r = 0, int v = 0, int w = 0) { Op o; o.code = code; o.c = c; o.i = i; o.p = p; o.q = q; o.r = r; o.v = v; o.w = w; out.push_back(o); };
    bool un = m.c[0].aid != m.c[1].aid;
    for (int c = 0; c < C2; ++c) {
      const MC& a = m.c[c]; int n = a.n; int lim = c ? opt.nmax2 : opt.nmax; bool room = n < lim;
      for (int i = 0; i < N; ++i) {
        IKind K = D[i].kind; bool ky = keyed(K), ls = listlike(K);
        if (ky) {
          if (fam(F_INS)) for (int v = 0; v < nv; ++v) add(O_INS, c, i, 0, 0, 0, v);
          if (fam(F_INS2)) { for (int v = 0; v < nv; ++v) { add(O_INSM, c, i, 0, 0, 0, v); add(O_EMP, c, i, 0, 0, 0, v); } for (int p = 0; p < n; ++p) add(O_INSA, c, i, p); }
          if (fam(F_HINT)) for (int p = 0; p <= n; ++p) for (int v = 0; v < nv; ++v) { add(O_INSH, c, i, p, 0, 0, v); add(O_INSHM, c, i, p, 0, 0, v); add(O_EMPH, c, i, p, 0, 0, v); }
          if (fam(F_RANGE)) for (int r = 0; r < 4; ++r) for (int v = 0; v < (r ? 2 : nv); ++v) for (int w = 0; w < (r ? 3 : nv) && w < nv; ++w) add(O_INSR, c, i, 0, 0, r, v, w);
          if (fam(F_ERASE)) { for (int k = 0; k <= Cfg::kmax; ++k) add(O_ERK, c, i, 0, 0, 0, k); for (int p = 0; p < n; ++p) add(O_ERKA, c, i, p); }
          if (fam(F_MODK)) for (int p = 0; p < n; ++p) for (int k = 0; k <= Cfg::kmax; ++k) { add(O_MODK, c, i, p, 0, 0, k); add(O_MODKR, c, i, p, 0, 0, k); }
          if (fam(F_NODE) && !m.nh) for (int k = 0; k <= Cfg::kmax; ++k) add(O_EXK, c, i, 0, 0, 0, k);
          if (fam(F_NODE) && m.nh && m.nhaid == a.aid) { add(O_NHI, c, i); for (int p = 0; p <= n; ++p) add(O_NHH, c, i, p); }
          if (fam(F_NODE)) { add(O_NHE, c, i, 0); add(O_NHE, c, i, 1); }
          if (fam(F_MERGE)) for (int rv = 0; rv < 2; ++rv) for (int j = 0; j < N; ++j) {
            if (C2 == 2 && !un) { const MC& s = m.c[1 - c]; add(O_MRG, c, i, 0, 0, j, rv, 0); for (int p = 0; p < s.n; ++p) add(O_MRG1, c, i, p, 0, j, rv, 0); for (int p = 0; p <= s.n; ++p) for (int q = p; q <= s.n; ++q) add(O_MRGR, c, i, p, q, j, rv, 0); }
            if (j != i || true) { add(O_MRG, c, i, 0, 0, j, rv, 1); for (int p = 0; p < n; ++p) add(O_MRG1, c, i, p, 0, j, rv, 1); if (n) add(O_MRGR, c, i, 0, n, j, rv, 1); }
          }
        }
        if (fam(F_ERASE)) for (int p = 0; p < n; ++p) { add(O_ERA, c, i, p); }
        if (fam(F_ERASE)) for (int p = 0; p <= n; ++p) for (int q = p; q <= n; ++q) add(O_ERR, c, i, p, q);
        if (fam(F_REPL)) for (int p = 0; p < n; ++p) { for (int v = 0; v < nv; ++v) { add(O_REP, c, i, p, 0, 0, v); add(O_REPM, c, i, p, 0, 0, v); } for (int q = 0; q < n; ++q) add(O_REPA, c, i, p, q); }
        if (fam(F_MOD)) for (int p = 0; p < n; ++p) for (int v = 0; v < nv; ++v) { add(O_MOD, c, i, p, 0, 0, v); add(O_MODR, c, i, p, 0, 0, v); add(O_MODT, c, i, p, 0, 0, v); for (int w = 0; w < nv; ++w) add(O_MODB, c, i, p, 0, 0, v, w); }
        if (fam(F_NODE) && !m.nh) for (int p = 0; p < n; ++p) add(O_EXT, c, i, p);
        if (fam(F_CLR) && (i == 0 || n)) add(O_CLR, c, i);
        if (ls) {
          if (fam(F_SEQINS)) for (int v = 0; v < nv; ++v) { for (int code : {O_PB, O_PF, O_PBM, O_PFM, O_EB, O_EF}) add(code, c, i, 0, 0, 0, v); for (int p = 0; p <= n; ++p) for (int code : {O_SIN, O_SINM, O_SEM}) add(code, c, i, p, 0, 0, v); }
          if (fam(F_RANGE)) {
            for (int p = 0; p <= n; ++p) for (int v = 0; v < nv; ++v) for (int q = 0; q <= 2; ++q) add(O_SINN, c, i, p, q, 0, v);
            for (int p = 0; p <= n; ++p) for (int r = 0; r < 4; ++r) for (int v = 0; v < (r ? 2 : nv); ++v) for (int w = 0; w < (r ? 3 : nv) && w < nv; ++w) add(O_SR, c, i, p, 0, r, v, w);
            for (int q = 0; q <= lim; ++q) { add(O_RSZ, c, i, 0, q); for (int v = 0; v < nv; ++v) add(O_RSZV, c, i, 0, q, 0, v); }
            for (int r = 0; r < 3; ++r) for (int v = 0; v < nv; ++v) for (int w = 0; w < (r == 1 ? 1 : nv); ++w) add(O_ASN, c, i, 0, 0, r, v, w);
          }
          if (fam(F_SEQREM)) {
            if (n) { add(O_POPF, c, i); add(O_POPB, c, i); }
            for (int v = 0; v < nv; ++v) add(O_RMV, c, i, 0, 0, 0, v); for (int p = 0; p < n; ++p) add(O_RMA, c, i, p); for (int k = 0; k <= Cfg::kmax; ++k) add(O_RMIF, c, i, 0, 0, 0, k);
            add(O_UNQ, c, i); add(O_UNQP, c, i);
          }
          if (fam(F_SEQARR)) {
            add(O_SRT, c, i); add(O_SRTC, c, i); add(O_REV, c, i);
            for (int p = 0; p <= n; ++p) for (int q = 0; q < n; ++q) add(O_RLO, c, i, p, q);
            for (int p = 0; p <= n; ++p) for (int q = 0; q <= n; ++q) for (int r = q; r <= n; ++r) if (!(p >= q && p < r)) add(O_RLR, c, i, p, q, r);
            for (int j = 0; j < N; ++j) if (j != i) add(O_RARR, c, i, 0, 0, j);
            int f = 1; for (int k = 2; k <= n; ++k) f *= k; if (f > 120) f = 120; for (int p = 0; p < f; ++p) add(O_RARW, c, i, p);
          }
          if (fam(F_SPLI)) {
            for (int p = 0; p <= n; ++p) for (int q = 0; q < n; ++q) add(O_SPLS, c, i, p, q);
            for (int p = 0; p <= n; ++p) for (int q = 0; q <= n; ++q) for (int r = q; r <= n; ++r) if (!(p >= q && p < r)) add(O_SPLR, c, i, p, q, r);
            add(O_SPLA, c, i); add(O_MERS, c, i);
            for (int j = 0; j < N; ++j) if (j != i) for (int p = 0; p <= n; ++p) for (int q = 0; q <= n; ++q) { if (q < n) add(O_SPLO, c, i, p, q, 0, j, 1); for (int r = q; r <= n; ++r) { bool in = false; for (int t = q; t < r; ++t) if (a.ord[j][t] == idat(a, i, p)) in = true; if (!in) add(O_SPLO, c, i, p, q, r, j, 0); } }
          }
          if (fam(F_NODE) && m.nh && m.nhaid == a.aid) for (int p = 0; p <= n; ++p) add(O_NHS, c, i, p);
          if (fam(F_NODE)) add(O_NHE, c, i, 0);
          if (C2 == 2 && fam(F_SPLX)) {
            const MC& s = m.c[1 - c];
            for (int rv = 0; rv < 2; ++rv) for (int j = 0; j < N; ++j) for (int p = 0; p <= n; ++p) { add(O_SPX, c, i, p, 0, 0, j, rv); for (int q = 0; q <= s.n; ++q) { if (q < s.n) add(O_SPX1, c, i, p, q, 0, j, rv); for (int r = q; r <= s.n; ++r) if (!rv || (q == 0 && r == s.n)) add(O_SPXR, c, i, p, q, r, j, rv); } }
            if (sortedby(a, i, false) && sortedby(s, i, false)) add(O_SMG, c, i);
            if (sortedby(a, i, true) && sortedby(s, i, true)) add(O_SMGC, c, i);
          }
        }
        if (K == RND && fam(F_RNDCAP)) { for (int q : {0, n, n + 1, lim, lim + 3, 17, 40}) add(O_RSV, c, i, 0, q); add(O_SHR, c, i); }
        if (K == HSH && fam(F_MLF) && !fam(F_HPOL)) for (int q = 0; q < 3; ++q) add(O_MLF, c, i, 0, q);
        if (K == HSH && fam(F_HPOL)) { for (int q = 0; q < 3; ++q) { add(O_RHS, c, i, 0, q); add(O_HRS, c, i, 0, q); add(O_MLF, c, i, 0, q); } }
        if (fam(F_WHOLE)) {
          if (C2 == 2 && c == 0 && (!un || PS)) { add(O_SWPI, c, i); add(O_SWPI, c, i, 1); }
          if (C2 == 2) add(O_CPAI, c, i);
          for (int v = 0; v < nv; ++v) for (int w = 0; w < nv; ++w) add(O_ILAI, c, i, 0, 0, 0, v, w);
        }
      }
      if (fam(F_NODE) && m.nh && c == 0) { add(O_NHD, c, 0, 0); add(O_NHD, c, 0, 1); }
      if (fam(F_WHOLE)) {
        if (C2 == 2) {
          if (c == 0 && (!un || PS)) { add(O_SWP, c, 0, 0); add(O_SWP, c, 0, 1); }
          add(O_CPA, c, 0); add(O_MVA, c, 0); add(O_CPC, c, 0); add(O_CPCA, c, 0); add(O_MVC, c, 0); add(O_MVCA, c, 0);
        }
        add(O_SELFA, c, 0, 0); add(O_SELFA, c, 0, 1);
        for (int v = 0; v < nv; ++v) for (int w = 0; w < nv; ++w) { add(O_ILA, c, 0, 0, 0, 0, v, w); add(O_RNGL, c, 0, 0, 0, 0, v, w); for (int p = 0; p < nv; ++p) add(O_RNGC, c, 0, p, 0, 0, v, w); }
      }
      (void)room;
    }
  }

  // ================================================================ one verified step
  MW step(World& w, const MW& pre, const Op& o, long* used = nullptr) {
    { Disarm d; capture(w); }
    Exp ok = expect(pre, o); long t0 = ticks;
    Res R; { OkAids k; k.add(pre.c[o.c].aid); k.add(ok.post.c[o.c].aid); if (o.code >= O_MRG) { k.add(pre.c[1 - o.c].aid); k.add(ok.post.c[1 - o.c].aid); } R = call(w, o, pre); } if (used) *used = ticks - t0;
    if (o.fault) {
      CHECK(R.exc != 0, "an exception thrown by a user-provided operation was swallowed");
      CHECK(R.exc == 1 || R.exc == 2, "a different exception came out than the one thrown by the user-provided operation");
    } else CHECK(R.exc == ok.wantexc, R.exc ? "unexpected exception" : "the exception thrown by the rollback functor did not propagate");
    if (R.exc == 0 || (!o.fault && R.exc == ok.wantexc)) { verify(w, o, pre, ok, R.exc ? nullptr : &R); return ok.post; }
    Exp x = expect_exc(pre, o, ok, R.exc);
    if (ok.g == G_BASIC) verify_basic(w, o, pre, ok, x);
    verify(w, o, pre, x, nullptr);
    return x.post;
  }

  long live_base = 0;   // elements alive outside the world under test
  // ================================================================ breadth-first exploration
  struct St { int parent; Op op; int depth; };
  std::vector<St> st; std::deque<MW> sm; std::unordered_map<std::string, int> seen;
  std::vector<Op> cur; MW ini;
  long n_trans = 0, n_fault = 0, n_deep = 0, n_exec = 0, ops_used = 0; long by_op[O_NUM] = {0}, by_kind[K_NUM] = {0}; int max_depth = 0; bool complete = true; int max_n = 0; long n_extra = 0, n_xfault = 0;
  double t_start = 0;

  std::string history() const { std::string s; for (auto& o : cur) s += op_text(o) + "\n"; return s; }
  int note(World& w, const MW& post, int parent, const Op& o) {
    std::string k = canon(w, post);
    auto f = seen.find(k); if (f != seen.end()) return f->second;
    int id = (int)st.size(); seen.emplace(std::move(k), id); st.push_back(St{parent, o, parent < 0 ? 0 : st[parent].depth + 1}); sm.push_back(post);
    if (post.c[0].n > max_n) max_n = post.c[0].n;
    if (opt.deep) { deep(w, post); ++n_deep; }
    return id;
  }
  void tear(World& w) { { Disarm d; w.nh = NH(); w.c[0].reset(); w.c[1].reset(); } check_balance("after destroying everything"); }
  void replay_full(World& w, int s) {  // like replay_to, but passing each operation its true pre-state
    cur.clear(); std::vector<int> path; for (int t = s; t > 0; t = st[t].parent) path.push_back(t); std::reverse(path.begin(), path.end());
    reset(w, ini); n_exec++;
    int prev = 0; for (int t : path) { cur.push_back(st[t].op); (void)call(w, st[t].op, sm[prev]); prev = t; }
  }
  // capacities and bucket counts; where a failed operation changed one of them, the space must really be there: insert until it is used up
  template <int... I> static void capac_(const C& c, size_t* r, std::integer_sequence<int, I...>) { (void)std::initializer_list<int>{([&] { auto& x = c.template get<I>(); if constexpr (D[I].kind == RND) r[I] = x.capacity(); else if constexpr (D[I].kind == HSH) r[I] = x.bucket_count(); else r[I] = 0; (void)x; }(), 0)...}; }
  void capac(const World& w, size_t* r) const { for (int i = 0; i < 2 * N; ++i) r[i] = 0; for (int c = 0; c < (opt.two ? 2 : 1); ++c) capac_(*w.c[c], r + c * N, std::make_integer_sequence<int, N>()); }
  long n_exercise = 0;
  void exercise(World& w) {
    Disarm d; ++n_exercise;
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) {
      C& k = *w.c[c]; size_t n0 = k.size(), in = 0; int nv = (int)(sizeof Cfg::vals / sizeof Cfg::vals[0]);
      for (int t = 0; t < 12; ++t) { auto& v = Cfg::vals[t % nv]; Elem e(700 + t, v.k[0], v.k[1], v.k[2]); if constexpr (keyed(D[0].kind)) in += k.template get<0>().insert(e).second; else in += k.template get<0>().push_back(e).second; }
      size_t n = 0; for (auto& e : k.template get<N - 1>()) { e.assert_ok(); if (++n > n0 + in) break; } CHECK(n == n0 + in && k.size() == n, "after a failed operation and further insertions %zu elements are met, expected %zu", n, n0 + in);
    }
  }
  bool within(const MW& p) const { return p.c[0].n <= opt.nmax && (!opt.two || p.c[1].n <= opt.nmax2); }

  void explore() {
    t_start = now(); ini = initial(); World w;
    describe_current = [this] { return header() + history(); };
    reset(w, ini); cur.clear(); Op none; note(w, ini, -1, none); tear(w);
    std::vector<Op> ops;
    for (size_t s = 0; s < st.size(); ++s) {
      if (st[s].depth > max_depth) max_depth = st[s].depth;
      if (st[s].depth >= opt.depth) { complete = false; continue; }
      if ((opt.max_states && (long)s >= opt.max_states) || now() - t_start > opt.max_s) { complete = false; break; }
      MW pre = sm[s];
      { replay_full(w, (int)s); std::string k = canon(w, pre); auto f = seen.find(k); CHECK(f != seen.end() && f->second == (int)s, "the same operations from the same start lead to a different state (fingerprint %s)", k.c_str()); tear(w); }
      gen(pre, ops);
      for (auto& o : ops) {
        // an operation that would exceed the size bound is not taken
        next_id = 100000;
        { Exp e = expect(pre, o); if (!within(e.post)) continue; }
        replay_full(w, (int)s); if (next_id > 480) { complete = false; tear(w); continue; }
        cur.push_back(o); long used = 0;
        MW post = step(w, pre, o, &used); ++n_trans; ++by_op[o.code];
        int t = note(w, post, (int)s, o); (void)t; tear(w); cur.pop_back();
        if (!opt.faults) continue;
                for (long k = 1; k <= used && k < 255; ++k) {
          Op f = o; f.fault = (uint8_t)k; replay_full(w, (int)s); cur.push_back(f);
          size_t cap0[2 * N], cap1[2 * N]; capac(w, cap0);
          MW q = step(w, pre, f); ++n_fault; ++by_kind[fault_kind < 0 ? 0 : fault_kind];
          std::string key = canon(w, q);
          if (!seen.count(key)) { deep(w, q); ++n_deep; if (opt.faultchain) note(w, q, (int)s, f); else seen_fault.insert(std::move(key)); }
          capac(w, cap1); if (memcmp(cap0, cap1, sizeof cap0)) exercise(w);
          tear(w); cur.pop_back();
        }
      }
    }
    describe_current = nullptr;
  }
  std::unordered_set<std::string> seen_fault;

  std::string optline() const { char b[200]; snprintf(b, sizeof b, "OPT nmax=%d nmax2=%d two=%d soccc=%d xfaults=%d xops=%d", opt.nmax, opt.nmax2, (int)opt.two, soccc(), opt.xfaults, opt.xops); return b; }
  static int soccc() { return soccc_(mkalloc(0), 0); }
  template <class AA> static auto soccc_(const AA&, int) -> decltype((int)AA::soccc) { return AA::soccc; }
  template <class AA> static int soccc_(const AA&, long) { return 0; }
  std::string header() const { return std::string("CFG ") + Cfg::name() + "\n" + optline() + "\n"; }

  // verified replay of a history; throws Violation
  void replay(const std::vector<Op>& h) {
    ini = initial(); World w; describe_current = [this] { return header() + history(); }; cur.clear(); reset(w, ini); MW m = ini; deep(w, m);
    for (auto& o : h) { cur.push_back(o); long used; m = step(w, m, o, &used); deep(w, m); }
    if (!h.empty() && h.back().fault) exercise(w);
    tear(w); describe_current = nullptr;
  }
