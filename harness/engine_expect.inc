  // ================================================================ what the call should do (model)
  static ME me(int id, const Val& v) { ME e; e.id = id; memcpy(e.k, v.k, sizeof e.k); return e; }
  void setcon(Exp& x, int c, bool hash_exact) const { for (int i = 0; i < N; ++i) x.con[c][i] = D[i].kind == HSH ? (hash_exact ? HASHX : HASHG) : EXACT; }
  // try to insert e into container c; returns true on success, else fills the set of possible culprits
  bool tryins(Exp& x, int c, const ME& e, int ci, int pos) const {
    IdSet b = mo.blockers(x.post.c[c], e.k);
    if (b.n) { x.ret = b; for (int i = 0; i < N; ++i) if (D[i].kind == HSH) x.con[c][i] = HASHG; return false; }
    mo.insert(x, c, e, ci, pos); x.ret = IdSet(); x.ret.add(e.id); return true;
  }
  // place element id before the element anchored at `anchor` (-1: end) in index i
  void reposition(Exp& x, int c, int i, int id, int anchor) const {
    MC& m = x.post.c[c]; if (id == anchor) return; mo.odel(m, i, id, m.n); int p = anchor < 0 ? m.n - 1 : 0; if (anchor >= 0) while (m.ord[i][p] != anchor) ++p; mo.oins(m, i, p, id, m.n - 1);
  }
  int idat(const MC& m, int i, int p) const { return p < m.n ? m.ord[i][p] : -1; }
  void eraseids(Exp& x, int c, const IdSet& s) const { for (int j = 0; j < s.n; ++j) mo.erase(x.post.c[c], s.v[j]); }
  bool consistent_in_place(const MC& m, int id, const int* w, bool& maybe) const {   // may element id take value w without moving?
    bool ok = true; maybe = false; const int* old = m.k(id);
    for (int i = 0; i < N; ++i) {
      if (!keyed(D[i].kind)) continue;
      if (ordered(D[i].kind)) {
        int p = m.pos(i, id);
        if (p > 0) { const int* l = m.k(m.ord[i][p - 1]); if (D[i].uniq ? !mo.lt(m, i, l, w) : mo.lt(m, i, w, l)) ok = false; }
        if (p + 1 < m.n) { const int* r = m.k(m.ord[i][p + 1]); if (D[i].uniq ? !mo.lt(m, i, w, r) : mo.lt(m, i, r, w)) ok = false; }
      } else {
        if (mo.eqv(i, old, w)) continue;
        bool clash = false; for (int j = 0; j < m.n; ++j) if (m.e[j].id != id && mo.eqv(i, m.e[j].k, w)) clash = true;
        if (clash && D[i].uniq) ok = false; else maybe = true;
      }
    }
    return ok;
  }
  Exp expect(const MW& pre, const Op& o) const {
    Exp x; x.post = pre; int c = o.c, i = o.i, s = 1 - c; const MC& m = pre.c[c]; int nid = next_id;
    setcon(x, 0, true); setcon(x, 1, true); auto V = [&](int vi) { return Cfg::vals[vi]; };
    bool K = o.i < N && keyed(D[i].kind); (void)K;
    auto ins1 = [&](int pos, int copies, int moves) {
      bool ok = tryins(x, c, me(nid, V(o.v)), i, pos); x.chkret = true; x.flag = ok; if (ok) { x.copies = copies; x.moves = moves; } else x.copies = 0;
    };
    auto rangeins = [&](int i, int pos, int copies, int moves) {
      int anchor = pos >= 0 ? idat(m, i, pos) : -1; int done = 0;
      for (int j = 0; j < 2; ++j) { MC& mm = x.post.c[c]; int pp = pos < 0 ? -1 : anchor < 0 ? mm.n : mm.pos(i, anchor); if (tryins(x, c, me(nid + j, V(j ? o.w : o.v)), i, pp)) { ++done; x.mv.add(nid + j); } }
      if (copies >= 0) x.copies = copies * done; if (moves >= 0) x.moves = moves * done;
      for (int q = 0; q < N; ++q) if (ordered(D[q].kind) && !D[q].uniq) x.con[c][q] = FREE; else if (D[q].kind == HSH) x.con[c][q] = HASHG;
      x.g = G_BASIC;
    };
    auto ncopies = [&](int i, int pos, int n, const Val& v) {
      int anchor = pos >= 0 ? idat(m, i, pos) : -1; int id = nid;
      for (int j = 0; j < n; ++j) { MC& mm = x.post.c[c]; if (tryins(x, c, me(id, v), i, anchor < 0 ? mm.n : mm.pos(i, anchor))) { x.mv.add(id); ++id; } }
      for (int q = 0; q < N; ++q) if (ordered(D[q].kind) && !D[q].uniq) x.con[c][q] = FREE; else if (D[q].kind == HSH) x.con[c][q] = HASHG;
      x.g = G_BASIC;
    };
    auto retnext = [&](int id) { x.chkret = true; x.ret = IdSet(); x.ret.add(id); };
    auto splice_one = [&](int si, int q, int di, int pos_anchor) -> bool {   // transfer element at (s, si, q id) to c before anchor in di
      int id = q; const MC& sm = x.post.c[s]; ME e = sm.e[sm.slot(id)]; ME ne = e;
      bool un = pre.c[0].aid != pre.c[1].aid;
      MC& mm = x.post.c[c]; (void)un; (void)si;
      bool ok = tryins(x, c, ne, listlike(D[di].kind) ? di : -1, listlike(D[di].kind) ? (pos_anchor < 0 ? mm.n : mm.pos(di, pos_anchor)) : -1);
      if (ok) mo.erase(x.post.c[s], id);
      return ok;
    };
    // ids of a range in an index
    auto ids = [&](const MC& mm, int ix, int a, int b) { IdSet r; for (int p = a; p < b; ++p) r.add(mm.ord[ix][p]); return r; };
    bool un = pre.c[0].aid != pre.c[1].aid;
    switch (o.code) {
      case O_INS: case O_EMP: case O_INSM: ins1(-1, o.code == O_INS ? 1 : 0, o.code == O_INSM ? 1 : 0); break;
      case O_INSH: case O_EMPH: case O_INSHM: ins1(o.p, o.code == O_INSH ? 1 : 0, o.code == O_INSHM ? 1 : 0); x.flag = -1; break;
      case O_INSA: { ME e = m.e[m.slot(m.ord[i][o.p])]; e.id = nid; bool ok = tryins(x, c, e, i, -1); x.chkret = true; x.flag = ok; break; }
      case O_INSR: rangeins(i, -1, o.r == 0 || o.r == 3 ? 1 : -1, -1); break;
      case O_ERA: { int id = m.ord[i][o.p]; retnext(idat(m, i, o.p + 1)); mo.erase(x.post.c[c], id); x.g = G_NOTHROW; break; }
      case O_ERR: { retnext(idat(m, i, o.q)); eraseids(x, c, ids(m, i, o.p, o.q)); x.g = G_NOTHROW; break; }
      case O_ERK: case O_ERKA: case O_EXK: {
        int k = o.code == O_ERKA ? m.k(m.ord[i][o.p])[D[i].key] : o.v; IdSet r; for (int p = 0; p < m.n; ++p) { int id = m.ord[i][p]; if (m.k(id)[D[i].key] == k) r.add(id); }
        if (o.code == O_EXK) { if (r.n) { x.post.nh = true; x.post.nhe = m.e[m.slot(r.v[0])]; x.post.nhaid = m.aid; mo.erase(x.post.c[c], r.v[0]); } x.nhempty = r.n == 0; x.copies = x.moves = 0; }
        else { x.num = r.n; eraseids(x, c, r); x.g = G_BASIC; }
        break; }
      case O_REP: case O_REPM: case O_REPA: {
        int id = m.ord[i][o.p]; Val v = o.code == O_REPA ? vcopy(m.k(m.ord[i][o.q])) : V(o.v);
        if (mo.blockers(m, v.k, id).n) { x.flag = 0; for (int q = 0; q < N; ++q) if (D[q].kind == HSH) x.con[c][q] = HASHX; }
        else { x.flag = 1; mo.revalue(x, c, id, v.k); }
        x.copies = x.moves = 0; break; }
      case O_MOD: case O_MODK: {
        int id = m.ord[i][o.p]; Val v = o.code == O_MODK ? with_key(m.k(id), i, o.v) : V(o.v); x.g = G_MOD; x.modid = id; x.modc = c; x.copies = x.moves = 0;
        if (mo.blockers(m, v.k, id).n) { x.flag = 0; mo.erase(x.post.c[c], id); } else { x.flag = 1; mo.revalue(x, c, id, v.k); }
        break; }
      case O_MODR: case O_MODKR: case O_MODB: case O_MODT: {
        int id = m.ord[i][o.p]; Val v = o.code == O_MODKR ? with_key(m.k(id), i, o.v) : V(o.v); x.g = G_MODR; x.modid = id; x.modc = c; x.restores = o.code == O_MODR || o.code == O_MODKR; x.rbthrows = o.code == O_MODT; x.copies = x.moves = 0;
        if (!mo.blockers(m, v.k, id).n) { x.flag = 1; mo.revalue(x, c, id, v.k); break; }
        x.flag = 0;
        if (o.code == O_MODT) { mo.erase(x.post.c[c], id); x.flag = -1; x.wantexc = 2; }
        else if (o.code == O_MODB) rollback_to(x, pre, c, id, V(o.w));
        break; }
      case O_EXT: { int id = m.ord[i][o.p]; x.post.nh = true; x.post.nhe = m.e[m.slot(id)]; x.post.nhaid = m.aid; mo.erase(x.post.c[c], id); x.nhempty = 0; x.copies = x.moves = 0; x.g = G_NOTHROW; break; }
      case O_NHI: case O_NHH: case O_NHS: {
        bool ok = tryins(x, c, pre.nhe, i, o.code == O_NHI ? -1 : o.p); x.chkret = true; if (o.code != O_NHH) x.flag = ok; x.nhempty = ok; if (ok) x.post.nh = false; x.copies = x.moves = 0; break; }
      case O_NHE: retnext(-1); x.flag = 0; x.nhempty = 1; break;
      case O_NHD: if (o.p == 0) x.post.nh = false; x.copies = x.moves = 0; x.g = G_NOTHROW; break;
      case O_CLR: { IdSet r; for (int j = 0; j < m.n; ++j) r.add(m.e[j].id); eraseids(x, c, r); x.g = G_NOTHROW; break; }
      case O_PB: case O_EB: case O_PBM: ins1(m.n, o.code == O_PB ? 1 : 0, o.code == O_PBM ? 1 : 0); break;
      case O_PF: case O_EF: case O_PFM: ins1(0, o.code == O_PF ? 1 : 0, o.code == O_PFM ? 1 : 0); break;
      case O_SIN: case O_SEM: case O_SINM: ins1(o.p, o.code == O_SIN ? 1 : 0, o.code == O_SINM ? 1 : 0); break;
      case O_SINN: ncopies(i, o.p, o.q, V(o.v)); break;
      case O_SR: rangeins(i, o.p, o.r == 0 || o.r == 3 ? 1 : -1, -1); break;
      case O_RSZ: case O_RSZV: {
        x.g = G_BASIC;
        if (o.q <= m.n) { eraseids(x, c, ids(m, i, o.q, m.n)); x.copies = x.moves = 0; }
        else { Val z = {{0, 0, 0}}; if (o.code == O_RSZV) ncopies(i, m.n, o.q - m.n, V(o.v)); else {
            // default-inserted elements: each attempt consumes an identity only if it is constructed
            for (int j = m.n; j < o.q; ++j) { int id = nid_default(x, c, z, nid, j - m.n); (void)id; }
            for (int q = 0; q < N; ++q) if (ordered(D[q].kind) && !D[q].uniq) x.con[c][q] = FREE; else if (D[q].kind == HSH) x.con[c][q] = HASHG; } }
        break; }
      case O_POPF: case O_POPB: mo.erase(x.post.c[c], m.ord[i][o.code == O_POPF ? 0 : m.n - 1]); x.g = G_NOTHROW; break;
      case O_ASN: { IdSet r; for (int j = 0; j < m.n; ++j) r.add(m.e[j].id); eraseids(x, c, r); if (o.r == 1) { ncopies2(x, c, i, nid, V(o.v)); } else { for (int j = 0; j < 2; ++j) if (tryins(x, c, me(nid + j, V(j ? o.w : o.v)), i, x.post.c[c].n)) x.mv.add(nid + j); } relax(x, c); x.g = G_BASIC; break; }
      case O_RMV: case O_RMA: case O_RMIF: {
        IdSet r; Val tv = o.code == O_RMA ? vcopy(m.k(m.ord[i][o.p])) : o.code == O_RMIF ? Val() : V(o.v);
        for (int p = 0; p < m.n; ++p) { int id = m.ord[i][p]; const int* k = m.k(id); if (o.code == O_RMIF ? k[0] == o.v : !memcmp(k, tv.k, sizeof tv.k)) r.add(id); }
        eraseids(x, c, r); x.g = G_BASIC; break; }
      case O_UNQ: case O_UNQP: {
        IdSet r; int last = -1; for (int p = 0; p < m.n; ++p) { int id = m.ord[i][p]; if (last >= 0) { const int *a = m.k(id), *b = m.k(last); if (o.code == O_UNQ ? !memcmp(a, b, 3 * sizeof(int)) : (a[0] == b[0] + 1 || a[0] == b[0])) { r.add(id); continue; } } last = id; }
        eraseids(x, c, r); x.g = G_BASIC; break; }
      case O_SRT: case O_SRTC: {
        MC& pm = x.post.c[c]; bool desc = o.code == O_SRTC;
        std::stable_sort(pm.ord[i], pm.ord[i] + m.n, [&](int a, int b) { const int *ka = m.k(a), *kb = m.k(b); if (desc) return ka[0] > kb[0]; for (int q = 0; q < 3; ++q) if (ka[q] != kb[q]) return ka[q] < kb[q]; return false; });
        x.g = G_BASIC; x.copies = x.moves = 0; break; }
      case O_REV: std::reverse(x.post.c[c].ord[i], x.post.c[c].ord[i] + m.n); x.g = G_NOTHROW; x.copies = x.moves = 0; break;
      case O_RLO: case O_SPLS: reposition(x, c, i, m.ord[i][o.q], idat(m, i, o.p)); x.g = G_NOTHROW; x.copies = x.moves = 0; if (o.code == O_SPLS) { retnext(m.ord[i][o.q]); x.flag = 1; } break;
      case O_RLR: case O_SPLR: { int an = idat(m, i, o.p); IdSet r = ids(m, i, o.q, o.r); for (int j = 0; j < r.n; ++j) reposition(x, c, i, r.v[j], an); x.g = G_NOTHROW; x.copies = x.moves = 0; break; }
      case O_SPLO: { int an = idat(m, i, o.p); if (o.w) { reposition(x, c, i, m.ord[o.v][o.q], an); retnext(m.ord[o.v][o.q]); x.flag = 1; } else { IdSet r = ids(m, o.v, o.q, o.r); for (int j = 0; j < r.n; ++j) reposition(x, c, i, r.v[j], an); } x.g = G_NOTHROW; x.copies = x.moves = 0; break; }
      case O_RARR: memcpy(x.post.c[c].ord[i], m.ord[o.r], sizeof m.ord[i]); x.g = G_BASIC; x.copies = x.moves = 0; break;
      case O_RARW: { std::vector<int> perm; for (int j = 0; j < m.n; ++j) perm.push_back(j); for (int k = 0; k < o.p; ++k) std::next_permutation(perm.begin(), perm.end()); for (int j = 0; j < m.n; ++j) x.post.c[c].ord[i][j] = m.ord[i][perm[j]]; x.g = G_BASIC; x.copies = x.moves = 0; break; }
      case O_SPLA: case O_MERS: x.g = G_NOTHROW; x.copies = x.moves = 0; break;
      case O_RSV: case O_SHR: x.g = G_STRONG; x.copies = x.moves = 0; break;
      case O_RHS: case O_HRS: case O_MLF: if (o.code == O_MLF) x.post.c[c].mlf[i] = hmlf(o.q); for (int q = 0; q < N; ++q) if (D[q].kind == HSH) x.con[c][q] = HASHG; x.g = G_STRONG; x.copies = x.moves = 0; break;
      // ---- transfers between containers
      case O_MRG: case O_MRG1: case O_MRGR: {
        x.copies = x.moves = 0;
        if (o.w) { x.g = G_NOTHROW; if (o.code == O_MRG1) { retnext(m.ord[o.r][o.p]); x.flag = 1; } break; }
        const MC& sm = pre.c[s]; IdSet r = o.code == O_MRG ? ids(sm, o.r, 0, sm.n) : o.code == O_MRG1 ? ids(sm, o.r, o.p, o.p + 1) : ids(sm, o.r, o.p, o.q);
        bool ok = false; for (int j = 0; j < r.n; ++j) ok = splice_one(o.r, r.v[j], i, -1);
        if (o.code == O_MRG1) { x.chkret = true; x.flag = ok; } else x.ret = IdSet();
        x.g = o.code == O_MRG1 ? G_STRONG : G_BASIC; for (int q = 0; q < N; ++q) if (D[q].kind == HSH) x.con[c][q] = HASHG;
        break; }
      case O_SPX: case O_SPX1: case O_SPXR: {
        const MC& sm = pre.c[s]; IdSet r = o.code == O_SPX ? ids(sm, o.v, 0, sm.n) : o.code == O_SPX1 ? ids(sm, o.v, o.q, o.q + 1) : ids(sm, o.v, o.q, o.r);
        int an = idat(m, i, o.p); bool ok = false; for (int j = 0; j < r.n; ++j) ok = splice_one(o.v, r.v[j], i, an);
        if (o.code == O_SPX1) { x.chkret = true; x.flag = ok; } else x.ret = IdSet();
        if (un) x.addr_any = true; else x.copies = x.moves = 0;
        x.g = o.code == O_SPX1 ? G_STRONG : G_BASIC; relax_h(x, c);
        break; }
      case O_SMG: case O_SMGC: {
        bool desc = o.code == O_SMGC; auto less = [&](int a, int b) { const int *ka = k_any(pre, a), *kb = k_any(pre, b); if (desc) return ka[0] > kb[0]; for (int q = 0; q < 3; ++q) if (ka[q] != kb[q]) return ka[q] < kb[q]; return false; };
        const MC& sm = pre.c[s]; int p0 = 0;
        for (int j = 0; j < sm.n; ++j) { int id = sm.ord[i][j]; while (p0 < x.post.c[c].n && !less(id, x.post.c[c].ord[i][p0])) ++p0; int an = p0 < x.post.c[c].n ? x.post.c[c].ord[i][p0] : -1; if (splice_one(i, id, i, an)) ++p0; }
        x.ret = IdSet(); x.g = G_BASIC; if (un) x.addr_any = true; else x.copies = x.moves = 0; relax_h(x, c);
        break; }
      // ---- whole-container operations
      case O_SWP: case O_SWPI: { MC a = pre.c[0], b = pre.c[1]; x.post.c[0] = b; x.post.c[1] = a; if (!PS) { x.post.c[0].aid = a.aid; x.post.c[1].aid = b.aid; } x.endswap = true; x.copies = x.moves = 0; x.g = G_NOTHROW; break; }
      case O_CPA: case O_CPAI: { int aid = pre.c[c].aid; x.post.c[c] = pre.c[s]; if (!PCA) x.post.c[c].aid = aid; x.cpdst = c; x.cpsrc = s; x.copies = pre.c[s].n; x.moves = 0; break; }
      case O_CPC: { x.post.c[c] = pre.c[s]; x.cpdst = c; x.cpsrc = s; x.copies = pre.c[s].n; x.moves = 0; if (soccc() && x.post.c[c].aid < 100 && !std::allocator_traits<A>::is_always_equal::value) x.post.c[c].aid += 100; break; }
      case O_CPCA: { int aid = pre.c[c].aid; x.post.c[c] = pre.c[s]; x.post.c[c].aid = aid; x.cpdst = c; x.cpsrc = s; x.copies = pre.c[s].n; x.moves = 0; break; }
      case O_SELFA: if (o.p == 0) { x.cpdst = c; x.cpsrc = c; x.copies = m.n; } else { x.copies = x.moves = 0; x.g = G_NOTHROW; } break;
      case O_MVC: case O_MVCA: case O_MVA: {
        int aid = pre.c[c].aid; bool keep = o.code == O_MVC ? true : o.code == O_MVCA ? !un : (PMA || !un);
        x.post.c[c] = pre.c[s]; if (o.code == O_MVCA || (o.code == O_MVA && !PMA)) x.post.c[c].aid = aid;
        if (o.code == O_MVA) x.anyc = s; else { MC e = pre.c[s]; e.n = 0; for (auto& f : e.mlf) f = -1; x.post.c[s] = e; }
        if (!keep) for (auto& f : x.post.c[c].mlf) f = -1;
        x.copies = 0; if (keep) x.moves = 0; else { x.addr_any = true; x.anyc = s; x.moves = pre.c[s].n; }
        break; }
      case O_ILA: case O_ILAI: case O_RNGC: case O_RNGL: { for (auto& f : x.post.c[c].mlf) f = -1;
        IdSet r; for (int j = 0; j < m.n; ++j) r.add(m.e[j].id); eraseids(x, c, r); int n = o.code == O_RNGC ? 3 : 2; int done = 0;
        for (int j = 0; j < n; ++j) if (tryins(x, c, me(nid + j, V(j == 0 ? o.v : j == 1 ? o.w : o.p)), -1, -1)) { x.mv.add(nid + j); ++done; }
        relax(x, c); x.copies = done; x.moves = 0; break; }
      default: fail("internal: no model for %s", op_names[o.code]);
    }
    if (x.ret.n == 0 && x.chkret) x.chkret = false;
    return x;
  }
  static const int* k_any(const MW& w, int id) { for (int c = 0; c < 2; ++c) if (w.c[c].has(id)) return w.c[c].k(id); fail("internal: id"); }
  void relax(Exp& x, int c) const { for (int q = 0; q < N; ++q) if (ordered(D[q].kind) && !D[q].uniq) x.con[c][q] = FREE; else if (D[q].kind == HSH) x.con[c][q] = HASHG; }
  void relax_h(Exp& x, int c) const { for (int q = 0; q < N; ++q) if (D[q].kind == HSH) x.con[c][q] = HASHG; }
  int nid_default(Exp& x, int c, const Val& z, int nid, int j) const { (void)j; int id = nid + x_defaults(x, c, nid); if (tryins(x, c, me(id, z), -1, -1)) x.mv.add(id); else x.post.c[c] = x.post.c[c]; return id; }
  int x_defaults(const Exp& x, int c, int nid) const { int k = 0; while (x.post.c[c].has(nid + k)) ++k; return k; }
  void ncopies2(Exp& x, int c, int i, int nid, const Val& v) const { int id = nid; for (int j = 0; j < 2; ++j) if (tryins(x, c, me(id, v), i, x.post.c[c].n)) { x.mv.add(id); ++id; } }
  // outcome of a rollback that leaves value w: the element stays if that is consistent with its original position
  void rollback_to(Exp& x, const MW& pre, int c, int id, const Val& w) const {
    bool maybe; bool ok = consistent_in_place(pre.c[c], id, w.k, maybe); MC& m = x.post.c[c];
    if (!ok) { mo.erase(m, id); return; }
    memcpy(m.e[m.slot(id)].k, w.k, sizeof w.k); if (maybe) { x.has_alt = true; x.alt_id = id; x.alt_c = c; }
  }
