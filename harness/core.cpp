// Driver of the container explorer for one configuration (VCFG).
#include "engine.hpp"
#include <fstream>
#include <sstream>
#ifndef VALLOC
#define VALLOC BasicAlloc
#endif
#ifndef VUNEQ
#define VUNEQ 0
#endif
#ifndef VMIX
#define VMIX 0
#endif
#ifndef VERIF_EXTRA_NAME
#define VERIF_EXTRA_NAME "round_trips"
#endif
#define STR_(x) #x
#define STR(x) STR_(x)
namespace cfg {
using namespace bmi;
#define OU(k) ordered_unique<Key<k>, Less>
#define ON(k) ordered_non_unique<Key<k>, Less>
#define RU(k) ranked_unique<Key<k>, Less>
#define RN(k) ranked_non_unique<Key<k>, Less>
#define HU(k) hashed_unique<Key<k>, Hash, Eq>
#define HN(k) hashed_non_unique<Key<k>, Hash, Eq>
#define SQ sequenced<>
#define RA random_access<>
struct Base { static constexpr bool unequal = VUNEQ, mixdir = VMIX; };
#define CFG(NAME, NI, SPECS, DESCS, KMAX, ...) \
  struct NAME : Base { typedef multi_index_container<Elem, indexed_by<BOOST_PP_REMOVE_PARENS(SPECS)>, VALLOC> container; \
    static constexpr int N = NI; static constexpr IDesc d[] = {BOOST_PP_REMOVE_PARENS(DESCS)}; static constexpr int kmax = KMAX; static constexpr Val vals[] = {__VA_ARGS__}; \
    static const char* name() { return #NAME; } };
#define V6 {{0, 0, 0}}, {{1, 0, 0}}, {{2, 1, 0}}, {{0, 1, 0}}, {{1, 1, 0}}, {{2, 0, 0}}
#define V4 {{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{1, 1, 0}}
#define V5 {{0, 0, 0}}, {{1, 0, 0}}, {{2, 1, 0}}, {{0, 1, 0}}, {{3, 1, 0}}
#define V3 {{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}
#define V2 {{0, 0, 0}}, {{1, 0, 0}}
}
#include <boost/preprocessor/punctuation/remove_parens.hpp>
namespace cfg {
CFG(OO, 2, (OU(0), ON(1)), ({ORD, true, 0}, {ORD, false, 1}), 2, V6)
CFG(HH, 2, (HU(0), HN(1)), ({HSH, true, 0}, {HSH, false, 1}), 3, V5)
CFG(HS, 2, (HN(0), SQ), ({HSH, false, 0}, {SEQ, false, 0}), 2, V3)
CFG(SRO, 3, (SQ, RA, ON(0)), ({SEQ, false, 0}, {RND, false, 0}, {ORD, false, 0}), 1, V2)
CFG(SU, 2, (SQ, OU(0)), ({SEQ, false, 0}, {ORD, true, 0}), 2, V3)
CFG(RUH, 2, (RA, HU(0)), ({RND, false, 0}, {HSH, true, 0}), 2, V3)
CFG(RR, 2, (RU(0), RN(1)), ({RNK, true, 0}, {RNK, false, 1}), 2, V6)
CFG(RKS, 3, (RN(0), SQ, OU(1)), ({RNK, false, 0}, {SEQ, false, 0}, {ORD, true, 1}), 2, V4)
CFG(AHO, 3, (RA, HN(0), OU(1)), ({RND, false, 0}, {HSH, false, 0}, {ORD, true, 1}), 2, V4)
CFG(MIX, 4, (OU(0), HN(1), SQ, RN(1)), ({ORD, true, 0}, {HSH, false, 1}, {SEQ, false, 0}, {RNK, false, 1}), 2, V4)
CFG(UUU, 3, (OU(0), HU(1), RU(2)), ({ORD, true, 0}, {HSH, true, 1}, {RNK, true, 2}), 2, {{0, 0, 0}}, {{1, 0, 1}}, {{0, 1, 1}}, {{1, 1, 0}}, {{2, 2, 0}}, {{2, 1, 2}})
#define V18 {{0, 0, 1}}, {{0, 1, 0}}, {{1, 0, 0}}, {{0, 0, 2}}, {{0, 2, 0}}, {{2, 0, 0}}, {{0, 1, 2}}, {{0, 2, 1}}, {{1, 0, 2}}, {{1, 2, 0}}, {{2, 0, 1}}, {{2, 1, 0}}, {{1, 1, 2}}, {{1, 2, 1}}, {{2, 1, 1}}, {{3, 3, 3}}, {{3, 0, 1}}, {{1, 3, 0}}
CFG(UX, 3, (OU(0), HU(1), RU(2)), ({ORD, true, 0}, {HSH, true, 1}, {RNK, true, 2}), 3, V18)
CFG(HOK, 3, (HU(0), ON(1), RN(2)), ({HSH, true, 0}, {ORD, false, 1}, {RNK, false, 2}), 3, {{0, 0, 0}}, {{1, 0, 0}}, {{2, 1, 0}}, {{3, 1, 1}}, {{0, 1, 1}}, {{1, 1, 1}}, {{4, 0, 1}}, {{5, 1, 0}})
CFG(MX5, 5, (RA, OU(0), HN(1), SQ, RN(1)), ({RND, false, 0}, {ORD, true, 0}, {HSH, false, 1}, {SEQ, false, 0}, {RNK, false, 1}), 2, V5)
CFG(O1, 1, (ON(0)), ({ORD, false, 0}), 2, V3)
CFG(OU1, 1, (OU(0)), ({ORD, true, 0}), 3, {{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}, {{3, 0, 0}})
CFG(K1, 1, (RN(0)), ({RNK, false, 0}), 2, V3)
CFG(KU1, 1, (RU(0)), ({RNK, true, 0}), 3, {{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}, {{3, 0, 0}})
CFG(OS, 1, (ON(0)), ({ORD, false, 0}), 0, {{0, 0, 0}})
CFG(KS, 1, (RN(0)), ({RNK, false, 0}), 0, {{0, 0, 0}})
CFG(O8, 1, (OU(0)), ({ORD, true, 0}), 7, {{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}, {{3, 0, 0}}, {{4, 0, 0}}, {{5, 0, 0}}, {{6, 0, 0}}, {{7, 0, 0}})
CFG(K8, 1, (RU(0)), ({RNK, true, 0}), 7, {{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}, {{3, 0, 0}}, {{4, 0, 0}}, {{5, 0, 0}}, {{6, 0, 0}}, {{7, 0, 0}})
CFG(H1, 1, (HN(0)), ({HSH, false, 0}), 3, {{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}, {{3, 0, 0}})
CFG(HU1, 1, (HU(0)), ({HSH, true, 0}), 3, {{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}}, {{3, 0, 0}})
#define VP {{0, 0, 0}}, {{0, 1, 0}}, {{1, 0, 0}}
CFG(HP, 1, (HN(0)), ({HSH, false, 0}), 1, VP)
CFG(HP2, 1, (HN(0)), ({HSH, false, 0}), 0, {{0, 0, 0}}, {{0, 1, 0}}, {{0, 2, 0}})
CFG(HUP, 1, (HU(0)), ({HSH, true, 0}), 2, {{0, 0, 0}}, {{0, 1, 0}}, {{1, 0, 0}}, {{2, 0, 0}})
CFG(OP, 1, (ON(0)), ({ORD, false, 0}), 1, VP)
CFG(KOP, 2, (RN(0), RN(1)), ({RNK, false, 0}, {RNK, false, 1}), 1, V4)
CFG(OOP, 2, (ON(0), OU(1)), ({ORD, false, 0}, {ORD, true, 1}), 2, {{0, 0, 0}}, {{0, 1, 0}}, {{1, 2, 0}}, {{1, 0, 0}})
CFG(SSA, 4, (SQ, SQ, RA, RA), ({SEQ, false, 0}, {SEQ, false, 0}, {RND, false, 0}, {RND, false, 0}), 1, V2)
CFG(SR, 2, (SQ, RA), ({SEQ, false, 0}, {RND, false, 0}), 0, {{0, 0, 0}})
CFG(RS, 2, (RA, SQ), ({RND, false, 0}, {SEQ, false, 0}), 0, {{0, 0, 0}})
CFG(SO, 2, (SQ, ON(0)), ({SEQ, false, 0}, {ORD, false, 0}), 1, V2)
CFG(HSR, 3, (HN(0), SQ, RN(0)), ({HSH, false, 0}, {SEQ, false, 0}, {RNK, false, 0}), 1, V2)
CFG(S1, 1, (SQ), ({SEQ, false, 0}), 2, V3)
CFG(S2, 1, (SQ), ({SEQ, false, 0}), 1, V2)
CFG(A2, 1, (RA), ({RND, false, 0}), 1, V2)
CFG(AS, 1, (RA), ({RND, false, 0}), 0, {{0, 0, 0}})
CFG(A1, 1, (RA), ({RND, false, 0}), 2, V3)
}
typedef cfg::VCFG TheCfg;
template <class AA> auto set_soccc_(int) -> decltype((void)(AA::soccc = true)) { AA::soccc = true; }
template <class AA> void set_soccc_(long) {}
void set_soccc() { set_soccc_<TheCfg::container::allocator_type>(0); }

int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  static Engine<TheCfg> E; Opts& o = E.opt; std::string replay, out;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto eq = a.find('='); std::string k = a.substr(0, eq), v = eq == std::string::npos ? "" : a.substr(eq + 1);
    if (k == "--nmax") o.nmax = atoi(v.c_str()); else if (k == "--nmax2") o.nmax2 = atoi(v.c_str()); else if (k == "--depth") o.depth = atoi(v.c_str());
    else if (k == "--faults") o.faults = 1; else if (k == "--faultchain") o.faultchain = 1; else if (k == "--two") o.two = true; else if (k == "--max-states") o.max_states = atol(v.c_str());
    else if (k == "--max-s") o.max_s = atof(v.c_str()); else if (k == "--fam") o.fam = (unsigned)strtoul(v.c_str(), nullptr, 0); else if (k == "--nodeep") o.deep = false;
    else if (k == "--xfaults") o.xfaults = 1; else if (k == "--xops") o.xops = atoi(v.c_str());
    else if (k == "--soccc") { set_soccc(); }
    else if (k == "--art") rt::out_path = v; else if (k == "--out") out = v; else if (k == "--replay") replay = v;
    else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
  }
  rt::install_handlers();
  std::string msg; double t0 = rt::now();
  if (!replay.empty()) {
    std::ifstream f(replay); std::string l; std::vector<Op> h; 
    while (std::getline(f, l)) {
      if (l.compare(0, 3, "OPT") == 0) { int a, b, t, s; if (sscanf(l.c_str(), "OPT nmax=%d nmax2=%d two=%d soccc=%d xfaults=%d xops=%d", &a, &b, &t, &s, &o.xfaults, &o.xops) >= 4) { o.nmax = a; o.nmax2 = b; o.two = t; if (s) set_soccc(); } continue; }
      Op op; if (op_parse(l.c_str(), op)) h.push_back(op);
    }
    rt::out_path.clear();
    try { E.replay(h); } catch (rt::Violation& v) { printf("REPRODUCED %s\n", v.msg.c_str()); return 1; }
#ifdef VERIF_SAFE
    catch (SafeErr& e) { printf("REPRODUCED safe mode reports %s for a correct use of an iterator\n", safe_name(e.code)); return 1; }
#endif
    printf("NOT REPRODUCED\n"); return 0;
  }
  try { E.explore(); } catch (rt::Violation& v) { msg = v.msg; rt::write_artifact(v.msg); }
#ifdef VERIF_SAFE
  catch (SafeErr& e) { msg = std::string("safe mode reports ") + safe_name(e.code) + " for a correct use of an iterator"; rt::write_artifact(msg); }
#endif
  std::ostringstream s;
  s << "{\"cfg\":\"" << TheCfg::name() << "\",\"states\":" << E.st.size() << ",\"transitions\":" << E.n_trans << ",\"fault_executions\":" << E.n_fault << ",\"executions\":" << E.n_exec
    << ",\"deep_checked\":" << E.n_deep << ",\"" VERIF_EXTRA_NAME "\":" << E.n_extra << ",\"round_trip_faults\":" << E.n_xfault << ",\"max_depth\":" << E.max_depth << ",\"max_n\":" << E.max_n << ",\"fixpoint\":" << (E.complete && msg.empty() ? "true" : "false") << ",\"wall_s\":" << (rt::now() - t0) << ",\"ops\":{";
  bool first = true; for (int i = 0; i < O_NUM; ++i) if (E.by_op[i]) { s << (first ? "" : ",") << "\"" << op_names[i] << "\":" << E.by_op[i]; first = false; }
  s << "},\"faults\":{"; first = true; for (int i = 0; i < rt::K_NUM; ++i) if (E.by_kind[i]) { s << (first ? "" : ",") << "\"" << rt::kind_name(i) << "\":" << E.by_kind[i]; first = false; }
  s << "},\"sample\":\""; // one deep history actually executed
  if (E.st.size() > 1) { std::vector<std::string> p; for (int t = (int)E.st.size() - 1; t > 0; t = E.st[t].parent) p.push_back(op_text(E.st[t].op)); for (size_t i = p.size(); i-- > 0;) s << p[i] << (i ? "; " : ""); }
  s << "\"}";
  printf("STATS %s\n", s.str().c_str());
  if (!out.empty()) { std::ofstream f(out); f << s.str() << "\n"; }
  if (!msg.empty()) { printf("FOUND %s\n", msg.c_str()); return 1; }
  return 0;
}
