  // ================================================================ serialization round trips of the state at hand
  struct SerOut { std::string data; };
  static constexpr bool hsh(int i) { return D[i].kind == HSH; }
  template <int I> static void save_its(OAr& oa, const C& c) {
    auto& x = c.template get<I>(); typedef typename Idx<I>::iterator It_; typedef typename Idx<I>::const_iterator Ct_;
    int j = 0; for (It_ it = x.begin();; ++it, ++j) { if (j & 1) { const Ct_ k = it; oa << boost::serialization::make_nvp("it", k); } else { const It_ k = it; oa << boost::serialization::make_nvp("it", k); } if (it == x.end()) break; }
    if constexpr (D[I].kind == HSH) {
      for (size_t b = 0; b < x.bucket_count(); ++b) if (x.bucket_size(b) || b == 0) for (auto l = x.begin(b);; ++l) { const typename Idx<I>::const_local_iterator k = l; oa << boost::serialization::make_nvp("lit", k); if (l == x.end(b)) break; }
    }
  }
  template <int I> void load_its(IAr& ia, C& t, const C& c) {
    auto& x = c.template get<I>(); auto& y = t.template get<I>(); typedef typename Idx<I>::iterator It_; typedef typename Idx<I>::const_iterator Ct_;
    auto chk = [&](auto k, bool end, const Elem* e) {
      if (end) CHECK(k == y.end(), "serialization: end() iterator of index %d is not restored as end()", I);
      else { CHECK(!(k == y.end()), "serialization: a dereferenceable iterator of index %d is restored as end()", I); CHECK(k->id == e->id && &*k != e, "serialization: iterator of index %d to #%d is restored as iterator to #%d", I, e->id, k->id); CHECK(k == y.iterator_to(*k), "serialization: restored iterator of index %d is not an iterator of the restored container", I); }
    };
    int j = 0; for (auto it = x.begin();; ++it, ++j) { bool end = it == x.end(); const Elem* e = end ? nullptr : &*it; if (j & 1) { It_ k; ia >> boost::serialization::make_nvp("it", k); chk(k, end, e); } else { Ct_ k; ia >> boost::serialization::make_nvp("it", k); chk(k, end, e); } if (end) break; }
    if constexpr (D[I].kind == HSH) {
      for (size_t b = 0; b < x.bucket_count(); ++b) if (x.bucket_size(b) || b == 0) for (auto l = x.begin(b);; ++l) {
        typename Idx<I>::local_iterator k; ia >> boost::serialization::make_nvp("lit", k);
        if (l == x.end(b)) { CHECK(k == y.end(b % y.bucket_count()), "serialization: local end iterator not restored as such"); break; }
        CHECK(k->id == l->id && &*k == &*y.iterator_to(*k), "serialization: local iterator of index %d to #%d is restored as one to #%d", I, l->id, k->id);
      }
    }
  }
  template <int... I> static void save_all_its(OAr& oa, const C& c, std::integer_sequence<int, I...>) {
    (void)std::initializer_list<int>{(save_its<I>(oa, c), 0)...};
    for (auto& e : c.template get<0>()) { const Elem* p = &e; oa << boost::serialization::make_nvp("ptr", p); }
  }
  template <int... I> void load_all_its(IAr& ia, C& t, const C& c, std::integer_sequence<int, I...>) {
    (void)std::initializer_list<int>{(load_its<I>(ia, t, c), 0)...};
    for (auto& e : c.template get<0>()) { Elem* p = nullptr; ia >> boost::serialization::make_nvp("ptr", p); bool in = false; for (auto& f : t.template get<0>()) if (&f == p) in = true; CHECK(in && p->id == e.id, "serialization: a pointer to element #%d saved after the container is not restored as pointer to the restored element", e.id); }
  }
  std::string save_world(const World& w, bool its) {
    std::ostringstream os; { OAr oa(os);
      for (int c = 0; c < (opt.two ? 2 : 1); ++c) { const C& k = *w.c[c]; oa << boost::serialization::make_nvp("c", k); }
      if (its) for (int c = 0; c < (opt.two ? 2 : 1); ++c) save_all_its(oa, *w.c[c], std::make_integer_sequence<int, N>()); }
    return os.str();
  }
  template <int I> static void fill_idx(C& c, int kind, int id) {
    auto& x = c.template get<I>();
    if constexpr (keyed(D[I].kind)) x.insert(Elem(id, Cfg::vals[0].k[0], Cfg::vals[0].k[1], Cfg::vals[0].k[2]));
    else x.push_front(Elem(id, Cfg::vals[0].k[0], Cfg::vals[0].k[1], Cfg::vals[0].k[2]));
    if constexpr (D[I].kind == HSH) { if (kind == 2) { x.rehash(200); } }
    if constexpr (D[I].kind == RND) { if (kind == 2) { x.reserve(20); } }
  }
  template <int... I> static void fill(C& c, int kind, std::integer_sequence<int, I...>) {
    for (auto& v : Cfg::vals) { int id = 500 + (int)(&v - Cfg::vals); if constexpr (keyed(D[0].kind)) c.template get<0>().insert(Elem(id, v.k[0], v.k[1], v.k[2])); else c.template get<0>().push_back(Elem(id, v.k[0], v.k[1], v.k[2])); }
    (void)std::initializer_list<int>{(fill_idx<I>(c, kind, 506 + I), 0)...};
  }
  void mkdest(World& t, const MW& m, int kind) {
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) { t.c[c].reset(new C(mkargs(m.c[c]), mkalloc(m.c[c].aid))); if (kind) fill(*t.c[c], kind, std::make_integer_sequence<int, N>()); }
  }
  void ser_verify(World& t, const MW& m, MW& post) {   // restored containers against the model
    Exp x; x.post = m; x.post.nh = false; MW none; for (auto& a : x.post.c) for (auto& f : a.mlf) f = -1; constexpr auto seq = std::make_integer_sequence<int, N>();
    for (int c = 0; c < 2; ++c) for (int i = 0; i < N; ++i) x.con[c][i] = D[i].kind == HSH ? HASHG : EXACT;
    const Elem* addr[512]; for (int c = 0; c < (opt.two ? 2 : 1); ++c) { for (auto& a : addr) a = nullptr; verify_c(t, c, x, none, addr, seq); deep_c(t, c, x.post, seq); }
    post = x.post;
  }
  void ser_valid(World& t, const MW& m) {   // after a failed load: any consistent containers
    Exp x; x.post = m; MW none; constexpr auto seq = std::make_integer_sequence<int, N>();
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) adopt(t, c, x, seq);
    const Elem* addr[512]; for (int c = 0; c < (opt.two ? 2 : 1); ++c) { for (auto& a : addr) a = nullptr; verify_c(t, c, x, none, addr, seq); deep_c(t, c, x.post, seq); }
    for (int c = 0; c < (opt.two ? 2 : 1); ++c) { fill(*t.c[c], 1, seq); t.c[c]->clear(); }
  }
  bool ser_load(World& t, const std::string& d, const World& w, bool its) {   // true unless an exception came out
    try {
      std::istringstream is(d); IAr ia(is);
      for (int c = 0; c < (opt.two ? 2 : 1); ++c) { C& k = *t.c[c]; OkAids ok; ok.add(aid_of(k.get_allocator())); ia >> boost::serialization::make_nvp("c", k); }
      if (its) for (int c = 0; c < (opt.two ? 2 : 1); ++c) load_all_its(ia, *t.c[c], *w.c[c], std::make_integer_sequence<int, N>());
      return true;
    } catch (Fault&) { return false; } catch (Violation&) { throw; } catch (boost::archive::archive_exception&) { return false; } catch (std::runtime_error&) { return false; }
  }
  bool in_extra = false;
  void deep_extra(World& w, const MW& m) {
    if (in_extra) return; in_extra = true; struct G { Engine& e; long lb; ~G() { e.in_extra = false; e.live_base = lb; fault_at = 0; } } g{*this, live_base};
    long l0 = live, b0 = blocks; std::string before = canon(w, m);
    auto bal = [&](const char* what) { CHECK(live == l0, "%s: %ld element(s) leaked", what, live - l0); CHECK(blocks == b0, "%s: %ld block(s) leaked", what, blocks - b0); if (!alloc_errors.empty()) { std::string s = alloc_errors[0]; alloc_errors.clear(); fail("%s: %s", what, s.c_str()); } };
    long t0 = ticks; std::string d = save_world(w, true); long used = ticks - t0; bal("save");
    CHECK(canon(w, m) == before, "saving changed the container");
    for (int kind = 0; kind < 3; ++kind) {
      { World t; mkdest(t, m, kind); live_base = l0; CHECK(ser_load(t, d, w, true), "loading of what was saved failed"); ++n_extra; MW post; ser_verify(t, m, post);
        std::string d2 = save_world(t, false); World u; mkdest(u, m, 0); CHECK(ser_load(u, d2, t, false), "loading of what was saved from a restored container failed"); MW p2; ser_verify(u, post, p2); }
      bal("save and load");
    }
    std::string ds = save_world(w, false);
#if VSER == 0 && !defined(VSER_CD)
    if (!opt.two) {   // archives of earlier class versions: the element count was of other types, up to version 1 the version of the value was not there
      std::istringstream is(ds); std::string a, b, rest; unsigned lib, trk, ver, n, st, sv; is >> a >> b >> lib >> trk >> ver >> n >> st >> sv; std::getline(is, rest, '\0');
      if (is && ver == 4 && n == (unsigned)m.c[0].n && st == 0 && sv == 3) for (unsigned old = 0; old < 4; ++old) {
        std::string r = rest; if (old < 2) {   // with one class less, the ids of the others are lower by one: positions are null (-1) or a class id and an object
          bool hashed = false; for (int q = 0; q < N; ++q) hashed |= D[q].kind == HSH; size_t nl = r.rfind('\n', r.size() - 2); if (hashed || nl == std::string::npos) continue;
          std::istringstream ti(r.substr(nl + 1)); std::ostringstream to; long k, o; ti >> k; to << k; while (ti >> k) if (k == -1) to << " -1"; else { ti >> o; to << ' ' << k - 1 << ' ' << o; } r = r.substr(0, nl + 1) + to.str() + '\n';
        }
        std::ostringstream os; os << a << ' ' << b << ' ' << lib << ' ' << trk << ' ' << old << ' ' << n; if (old >= 2) os << " 0 3"; os << r;
        { World t; mkdest(t, m, old & 1); live_base = l0; ser_cdver = old < 2 ? 0 : 3; bool ok = ser_load(t, os.str(), w, false); ser_cdver = 3; CHECK(ok, "loading of an archive of class version %u failed", old); ++n_extra; MW post; ser_verify(t, m, post); } bal("load of an old archive");
      }
    }
#endif
    if (opt.xops && m.c[0].n <= opt.xops) {  // the restored container behaves like any other: every operation on it
      std::vector<Op> ops; MW pm; { World t; mkdest(t, m, 0); ser_load(t, ds, w, false); ser_verify(t, m, pm); } gen(pm, ops);
      for (auto& o : ops) { if (m.nh) break; int sid = next_id; Exp e = expect(pm, o); if (!within(e.post)) continue; World t; mkdest(t, m, 0); CHECK(ser_load(t, ds, w, false), "loading failed"); MW post; ser_verify(t, m, post); live_base = l0; try { step(t, post, o); } catch (Violation& v) { v.msg = "on a restored container, " + op_text(o) + ": " + v.msg; throw; } ++n_extra; next_id = sid; }
      bal("operations on a restored container");
    }
    if (opt.xfaults) {
      for (long k = 1; k <= used; ++k) { fault_at = ticks + k; bool thrown = false; try { save_world(w, false); } catch (Fault&) { thrown = true; } fault_at = 0; ++n_xfault; bal("save that threw"); CHECK(canon(w, m) == before, "a save that threw changed the container"); if (!thrown) break; }
      for (int kind = 0; kind < 2; ++kind) for (long k = 1;; ++k) {
        bool thrown; { World t; mkdest(t, m, kind); fault_at = ticks + k; bool ok = ser_load(t, ds, w, false); thrown = fault_at == 0; fault_at = 0; CHECK(ok == !thrown, ok ? "an exception thrown while loading was swallowed" : "loading failed"); ++n_xfault; live_base = l0; ser_valid(t, m); }
        bal("load that threw"); if (!thrown) break;
      }
#if VSER == 0
      for (size_t p = 0; p < ds.size(); ++p) if (ds[p] == ' ' || ds[p] == '\n') for (int kind = 0; kind < 2; ++kind) { { World t; mkdest(t, m, kind); ser_load(t, ds.substr(0, p), w, false); ++n_xfault; live_base = l0; ser_valid(t, m); } bal("load of a truncated archive"); }
#endif
    }
  }
