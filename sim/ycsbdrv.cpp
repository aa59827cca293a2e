// Driver for the YCSB parts: shared generators, workload and client, databases.
#include "frame.h"
#include "iycsb.h"
#include <algorithm>
#include <cinttypes>
#include <cstdarg>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <set>
#include <unordered_set>

extern "C" void ycsb_prewarm();
namespace sim {
const char *const COMPONENT = "ycsb";
enum K : u32 { NEXT, NEXTN, LAST, SEQKEY, TXNKEY, OPER, SCANLEN, FIELD, BUILD, CINSERT, CTXN, INS, READ, UPD, SCAN, DEL, PAUSE, NK };
static const char *const KN[] = {"Next", "Next(n)", "Last", "NextSequenceKey", "NextTransactionKey", "NextOperation", "NextScanLength", "NextFieldName",
                                 "BuildValues", "DoInsert", "DoTransaction", "Insert", "Read", "Update", "Scan", "Delete", "pause"};
static const char *const GN[] = {"CounterGenerator", "UniformGenerator", "ZipfianGenerator", "ScrambledZipfianGenerator", "SkewedLatestGenerator", "DiscreteGenerator"};
static const char *const DBN[] = {"stl_map", "stl_umap", "robinmap", "btree", "concurrent_btree"};
static bool can_scan(i64 v) { return v == 0 || v == 3 || v == 4; }
static bool conflicts(i64 v) { return v == 4; } // Insert of an existing record fails
enum Prof { P_GEN, P_WORK, P_DB, P_BENCH };
static Prof prof_of(const std::string &s) { return s == "gen" ? P_GEN : s == "work" ? P_WORK : s == "bench" ? P_BENCH : P_DB; }

// ------------------------------------------------------------ random numbers --
static constexpr double EPS53 = 1.0 / 9007199254740992.0;
struct Draws {
  bool special = false, feeding = false;
  std::vector<u64> pts; // interesting 53-bit numbers
  u64 feed = 0;
  u64 log[16][4];
  u32 n[16];
  u64 last[16]; // the latest one of each thread
} D;
static double as_u(u64 k) { return (double)k * EPS53; }
extern "C" uint64_t sim_draw() {
  if (!in_fiber()) return 1ull << 62;
  if (D.feeding) return D.feed << 11;
  u64 r = sut_random();
  u64 k = r >> 11;
  if (D.special && !faults_fair() && !D.pts.empty() && (r & 3) != 0) {
    u64 q = sut_random();
    k = D.pts[q % D.pts.size()];
    i64 d = (i64)((q >> 32) % 7) - 3;
    if (d < 0 && k < (u64)-d) d = 0;
    k += (u64)d;
    if (k > (1ull << 53) - 1) k = (1ull << 53) - 1;
  }

  u32 t = self() % 16;
  D.last[t] = k;
  if (D.n[t] < 4) D.log[t][D.n[t]] = k;
  D.n[t]++;
  return k << 11;
}

// ------------------------------------------------------------------ programs --
static const double THETA[] = {0.99, 0.5, 0.2, 0.9};
static u64 u64par(const Prog &p, const char *n) { return (u64)p.get(n); }
static std::vector<double> weights(const Prog &p) {
  std::vector<double> w;
  for (u64 k : p.keys) w.push_back((double)k / 1000.0);
  return w;
}
static std::string work_props(const Prog &p, bool bench) {
  char b[700];
  static const char *const dist[] = {"uniform", "zipfian", "latest"};
  static const char *const fl[] = {"constant", "uniform", "zipfian"};
  snprintf(b, sizeof b,
           "recordcount=%d;operationcount=%d;fieldcount=%d;fieldlength=%d;field_len_dist=%s;requestdistribution=%s;insertorder=%s;"
           "readallfields=%s;writeallfields=%s;readproportion=%g;updateproportion=%g;insertproportion=%g;scanproportion=%g;"
           "readmodifywriteproportion=%g;maxscanlength=%d;scanlengthdistribution=%s;",
           (int)p.get("records"), (int)p.get("opcount"), (int)p.get("nf"), (int)p.get("flen"), fl[p.get("fld")], dist[p.get("dist")],
           p.get("ordered") ? "ordered" : "hashed", p.get("readall") ? "true" : "false", p.get("writeall") ? "1" : "0", p.get("w0") / 1000.0,
           p.get("w1") / 1000.0, p.get("w2") / 1000.0, p.get("w3") / 1000.0, p.get("w4") / 1000.0, (int)p.get("maxscan"),
           p.get("scandist") ? "zipfian" : "uniform");
  (void)bench;
  return b;
}

static u64 fnv(u64 v) {
  u64 h = 0xCBF29CE484222325ull;
  for (int i = 0; i < 8; i++) { h ^= v & 255; h *= 1099511628211ull; v >>= 8; }
  return h;
}
static double zeta(u64 n, double th) {
  double z = 0;
  for (u64 i = 1; i <= n; i++) z += 1 / std::pow((double)i, th);
  return z;
}
Prog gen_prog(u64 seed, const std::string &prof) {
  Rng r(seed);
  Prog p;
  Prof pr = prof_of(prof);
  u32 nt = 2 + r.below(3), nr = 1;
  u32 lo = 1, hi = 6;
  std::vector<std::pair<u32, double>> mix;
  bool tso = false;
  p.par["umode"] = r.chance(0.5);
  if (pr == P_GEN) {
    u32 g = r.below(G_NUM);
    p.par["gen"] = g;
    hi = r.chance(0.5) ? 6 : 25;
    tso = true;
    u64 a = r.chance(0.5) ? r.below(3) : r.chance(0.5) ? r.below(1000) : (r.next() >> 20);
    u64 b = a + 1 + (r.chance(0.5) ? r.below(5) : r.below(300));
    if (g == G_UNIFORM && r.chance(0.6)) { a = 0; b = r.chance(0.5) ? ~0ull >> 1 : 1ull << 50; }
    if (g == G_COUNTER) a = r.chance(0.7) ? r.below(10) : (1ull << 33);
    if (g == G_LATEST) a = 3 + r.below(r.chance(0.5) ? 4 : 200);
    p.par["a"] = (i64)a;
    p.par["b"] = (i64)b;
    p.par["theta"] = r.chance(0.6) ? 0 : r.below(4);
    if (g == G_DISCRETE) {
      u32 n = 1 + r.below(6);
      for (u32 i = 0; i < n; i++) p.keys.push_back(r.chance(0.3) ? 100 : 1 + r.below(999));
      if (r.chance(0.1)) p.keys.push_back(0);
    }
    mix = {{NEXT, 4}, {LAST, r.chance(0.6) ? 1.0 : 0}, {NEXTN, g == G_ZIPFIAN || g == G_LATEST ? (r.chance(0.7) ? 3.0 : 0) : 0}, {PAUSE, 0.1}};
  } else if (pr == P_WORK || pr == P_BENCH) {
    p.par["records"] = 3 + r.below(r.chance(0.7) ? 8 : 60);
    p.par["opcount"] = 20 + r.below(100);
    p.par["nf"] = 1 + r.below(MAXF);
    p.par["flen"] = 2 + r.below(r.chance(0.5) ? 4 : 60);
    p.par["fld"] = r.below(3);
    p.par["dist"] = r.below(3);
    p.par["ordered"] = r.below(2);
    p.par["readall"] = r.below(2);
    p.par["writeall"] = r.below(2);
    p.par["maxscan"] = 2 + r.below(20);
    p.par["scandist"] = r.below(2);
    if (p.par["fld"] == 2) p.par["flen"]++; // two items: see the known finding
    if (p.par["scandist"] == 1) p.par["maxscan"]++;
    bool any = false;
    for (u32 i = 0; i < 5; i++) {
      bool on = r.chance(0.6) || (i == 4 && !any);
      any = any || on;
      p.par["w" + std::to_string(i)] = on ? (r.chance(0.5) ? 100 * (1 + r.below(5)) : 1 + r.below(1000)) : 0;
    }
    if (pr == P_WORK)
      mix = {{SEQKEY, 2}, {TXNKEY, 2}, {OPER, 1}, {SCANLEN, 1}, {FIELD, 1}, {BUILD, 1}, {CINSERT, r.chance(0.5) ? 1.0 : 0}, {CTXN, r.chance(0.7) ? 3.0 : 0}};
    else {
      p.par["db"] = r.below(5);
      if (!can_scan(p.par["db"])) {
        p.par["w3"] = 0;
        if (!p.par["w0"] && !p.par["w1"] && !p.par["w2"] && !p.par["w4"]) p.par["w0"] = 500;
      }
      nt = 1 + r.below(4);
      p.par["records"] = (p.par["records"] + nt - 1) / nt * nt; // the benchmark loads records / threads each
      mix = {{CTXN, 1}};
      hi = 10;
    }
  } else {
    p.par["db"] = r.chance(0.4) ? 4 : r.below(5);
    p.par["nf"] = 1 + r.below(3);
    u32 nk = 1 + r.below(r.chance(0.7) ? 3 : 6);
    p.par["nk"] = nk;
    p.par["partial"] = r.chance(0.05);
    p.par["reclaim"] = r.chance(0.7) ? 1 : 1000;
    nr = 1 + r.below(2);
    mix = {{INS, r.chance(0.6) ? 2.0 : 0.5}, {READ, 3}, {UPD, r.chance(0.8) ? 2.5 : 0}, {DEL, r.chance(0.7) ? 1.5 : 0.2}, {SCAN, can_scan(p.par["db"]) ? 1.5 : 0}, {PAUSE, 0.1}};
    tso = false;
  }
  if ((pr == P_WORK || pr == P_BENCH) && p.get("dist") == 1 && p.get("w2")) {
    // The scrambled distribution covers items that are inserted later; a draw is
    // repeated until it names a loaded one. With few loaded items it may never.
    u64 recs = u64par(p, "records"), n = recs + (u64)(int)((int)p.get("opcount") * (p.get("w2") / 1000.0) * 2);
    double z = zeta(n, 0.99), mass = 0;
    for (u64 i = 0; i < n; i++) if (fnv(i) % n < recs) mass += 1 / std::pow((double)(i + 1), 0.99) / z;
    if (mass < 0.1) p.par["dist"] = 2;
  }
  u32 uid = 1;
  u32 total = 0;
  double tot = 0;
  for (auto &m : mix) tot += m.second;
  auto mk = [&](u32 kind) {
    Op o;
    o.kind = kind;
    u32 nk = (u32)std::max<i64>(1, p.get("nk")), nf = (u32)std::max<i64>(1, p.get("nf"));
    o.k = r.below(nk);
    o.uid = uid++;
    if (kind == NEXTN) { o.arg = r.chance(0.5) ? r.below(4) : r.below(400); }
    if (kind == BUILD) o.arg = r.below(3);
    if (kind == READ || kind == SCAN) o.arg = r.chance(0.6) ? 0 : 1 + r.below((1u << nf) - 1);
    if (kind == SCAN) o.k2 = 1 + r.below(nk + 1);
    if (kind == UPD) o.arg = r.chance(0.3) ? (1u << nf) - 1 : 1 + r.below((1u << nf) - 1);
    if (kind == PAUSE) o.arg = r.below(8);
    return o;
  };
  if (pr == P_DB) {
    u32 pre = r.below((u32)p.get("nk") + 1);
    for (u32 i = 0; i < pre; i++) { Op o = mk(INS); o.k = i; p.prefill.push_back(o); }
  }
  for (u32 rd = 0; rd < nr; rd++) {
    p.rounds.emplace_back();
    for (u32 t = 0; t < nt; t++) {
      Ops v;
      u32 cnt = r.range(lo, hi);
      for (u32 i = 0; i < cnt && (pr != P_DB || total < 30); i++, total++) {
        size_t k = 0;
        double x = r.next32() / 4294967296.0 * tot;
        while (k + 1 < mix.size() && x >= mix[k].second) { x -= mix[k].second; k++; }
        while (mix[k].second == 0) k--;
        v.push_back(mk(mix[k].first));
      }
      p.rounds.back().push_back(v);
    }
  }
  gen_sched(r, p.cfg, false, false, 600);
  p.cfg.p_allocfail = 0;
  if (!tso) { p.cfg.tso = false; p.cfg.p_buffer = 0; }
  return p;
}

std::string op_text(const Prog &p, const Op &o) {
  char b[160];
  const char *n = KN[o.kind < NK ? o.kind : 0];
  switch (o.kind) {
  case INS: snprintf(b, sizeof b, "%s record %u, values %u", n, o.k, o.uid); break;
  case UPD: snprintf(b, sizeof b, "%s record %u, fields %x, values %u", n, o.k, o.arg, o.uid); break;
  case READ: snprintf(b, sizeof b, "%s record %u, fields %x", n, o.k, o.arg); break;
  case SCAN: snprintf(b, sizeof b, "%s %u records from %u, fields %x", n, o.k2, o.k, o.arg); break;
  case DEL: snprintf(b, sizeof b, "%s record %u", n, o.k); break;
  case NEXTN: snprintf(b, sizeof b, p.get("gen") == G_LATEST ? "Next of the counter" : "Next(%u more)", o.arg); break;
  default: snprintf(b, sizeof b, "%s", n);
  }
  return b;
}
std::string describe_prog(const Prog &p) {
  char b[900];
  Prof pr = prof_of(p.profile);
  if (pr == P_GEN)
    snprintf(b, sizeof b, "ycsb %s seed=%" PRIu64 " from %" PRIu64 " to %" PRIu64 " theta=%g", GN[p.get("gen")], p.seed, u64par(p, "a"), u64par(p, "b"),
             THETA[p.get("theta")]);
  else if (pr == P_DB) snprintf(b, sizeof b, "ycsb database %s seed=%" PRIu64 " fields=%d", DBN[p.get("db")], p.seed, (int)p.get("nf"));
  else snprintf(b, sizeof b, "ycsb %s seed=%" PRIu64 " %s", pr == P_BENCH ? DBN[p.get("db")] : "workload", p.seed, work_props(p, false).c_str());
  std::string s = b;
  for (auto &r : p.rounds) {
    s += " | round:";
    for (size_t t = 0; t < r.size(); t++) {
      s += " T" + std::to_string(t) + "[";
      for (size_t i = 0; i < r[t].size() && i < 8; i++) s += (i ? "; " : "") + op_text(p, r[t][i]);
      s += r[t].size() > 8 ? "; ...]" : "]";
    }
  }
  return s;
}

// ---------------------------------------------------------------- reference --
struct ZipfRef {
  double th, zn, z2;
  u64 nz;
  ZipfRef(u64 n, double t) : th(t), zn(zeta(n, t)), z2(zeta(2, t)), nz(n) {}
  // rank of the item the distribution assigns to u, among num items
  bool matches(double u, u64 num, u64 items, u64 got) const {
    double uz = u * zn, b1 = 1 + std::pow(0.5, th), tol = 1e-9;
    bool ok = false;
    if (uz < 1 + tol) ok |= got == 0;
    if (uz > 1 - tol && uz < b1 + tol) ok |= got == 1;
    if (uz > b1 - tol) {
      double eta = (1 - std::pow(2.0 / (double)items, 1 - th)) / (1 - z2 / zn);
      double v = (double)num * std::pow(eta * u - eta + 1, 1 / (1 - th));
      if (!(v >= 0) || v > (double)num - 1) v = (double)num - 1;
      double d = (double)got - v;
      ok |= d < 1 + 1e-6 * (double)num && d > -1 - 1e-6 * (double)num;
    }
    return ok;
  }
};

struct Ev1 { // one completed operation
  u32 t;
  Op op;
  u64 inv, ret;
  u64 res = 0;
  u64 num = 0;
  u32 nd = 0; // random numbers drawn
  u64 d[4];
  int rc = 0;
  std::vector<Rec> recs;
  u64 lo = 0, hi = 0;
};

struct Exec : CallSink {
  const Prog &p;
  Outcome &o;
  Prof pr;
  IGen *g = nullptr;
  IWork *w = nullptr;
  IDb *db = nullptr;
  std::vector<Ev1> h;
  char msg[300];
  u64 seq_drawn = 0;
  std::vector<u64> seqs;
  u64 issued = 0; // latest: counter values handed out
  bool load = false;
  int answered[16] = {};
  u32 calls[16] = {};
  u64 mapped[16] = {};
  u32 started = 0; // updates of some fields that have not returned

  Exec(const Prog &a, Outcome &b) : p(a), o(b), pr(prof_of(a.profile)) {}
  ~Exec() { delete g; delete w; delete db; }
  u32 T() { return self() % 16; }

  u64 key_num(u64 i) { return p.get("ordered") ? i : fnv(i); }
  bool loaded(u64 name) {
    for (u64 i = 0; i < u64par(p, "records"); i++) if (key_num(i) == name) return true;
    return false;
  }
  // lengths drawn from ZipfianGenerator(1, max)
  bool known_length(bool zipfian, u64 len, u64 max) {
    return zipfian && ((len == 0 && known_finding(o, "zipfian-lower-bound")) || (len == max + 1 && known_finding(o, "zipfian-upper-bound")));
  }
  void check_lengths(DbCall &c) {
    bool z = p.get("fld") == 2;
    if (c.empty_values && !known_length(z, 0, u64par(p, "flen"))) c.bad_values++;
    if (c.long_values && !known_length(z, u64par(p, "flen") + 1, u64par(p, "flen"))) c.bad_values++;
  }
  // ---- the client's calls -----------------------------------------------------
  int called(const DbCall &call) override {
    DbCall c = call;
    Unsut u;
    static const char *const N[] = {"Read", "Scan", "Update", "Insert"};
    int nf = (int)p.get("nf");
    bool upd = c.kind == 2, all = c.fields == (1u << nf) - 1;
    calls[T()]++;
    if (c.kind == 3) seqs.push_back(c.key);
    else if (!loaded(c.key)) {
      snprintf(msg, sizeof msg, "the client calls %s on a record that was never loaded (user%" PRIu64 ")", N[c.kind], c.key);
      fail("workload-key", msg);
    }
    if (c.field_count != nf) fail("workload-fields", std::string(N[c.kind]) + " is given a wrong number of fields");
    if (c.doubled && !(c.kind < 2 && c.doubled == 1 && !c.odd && !c.fields && known_finding(o, "client-field-name"))) c.odd++;
    check_lengths(c);
    if (c.odd) fail("workload-fields", std::string("the client calls ") + N[c.kind] + " with a field that does not exist");
    if (c.bad_values) fail("workload-values", std::string("the client calls ") + N[c.kind] + " with a value of impossible length or contents");
    if (c.kind == 3 && !all) fail("workload-fields", "a record is inserted without all of its fields");
    if (c.kind < 2 && c.all != (p.get("readall") != 0)) fail("workload-fields", "readallfields is not respected");
    if (c.kind < 2 && !c.all && __builtin_popcount(c.fields) + (int)c.doubled != 1) fail("workload-fields", "a read names other than one field");
    if (upd && p.get("writeall") && !all) fail("workload-fields", "writeallfields is not respected");
    if (upd && !p.get("writeall") && __builtin_popcount(c.fields) != 1) fail("workload-fields", "an update writes other than one field");
    if (c.kind == 1 && (c.len < 1 || c.len > p.get("maxscan")) && !known_length(p.get("scandist") == 1, (u64)c.len, u64par(p, "maxscan"))) {
      snprintf(msg, sizeof msg, "a scan of %lld records, the maximum is %d", (long long)c.len, (int)p.get("maxscan"));
      fail("workload-scan", msg);
    }
    return answered[T()] = (int)(sut_random() % 3);
  }

  void one(const Op &op) {
    sync_point(EV_OP);
    Ev1 e;
    e.t = T();
    e.op = op;
    D.n[e.t] = 0;
    e.inv = now_step();
    DbCall c{};
    bool b;
    switch (op.kind) {
    case NEXT: e.num = u64par(p, "b") - u64par(p, "a") + 1; if (p.get("gen") == G_LATEST) e.lo = issued; e.res = g->next(); break;
    case NEXTN:
      e.num = p.get("gen") == G_ZIPFIAN ? std::max<u64>(2, (p.get("b") - p.get("a") + 1) / 2 + op.arg) : 0;
      e.res = g->next_of(e.num);
      break;
    case LAST: e.res = g->last(); break;
    case SEQKEY: e.res = w->seq_key(); seqs.push_back(e.res); break;
    case TXNKEY:
      e.res = w->txn_key();
      if (!loaded(e.res)) {
        snprintf(msg, sizeof msg, "NextTransactionKey() names a record that was never loaded (user%" PRIu64 ")", e.res);
        fail("workload-key", msg);
      }
      break;
    case OPER: {
      e.res = w->operation();
      static const int W[] = {2, 0, 1, 3, 4}; // INSERT READ UPDATE SCAN RMW -> proportion
      if (e.res > 4 || !p.get(("w" + std::to_string(W[e.res])).c_str())) fail("workload-operation", "NextOperation() is one whose proportion is zero");
      break;
    }
    case SCANLEN:
      e.res = w->scan_len();
      if ((e.res < 1 || e.res > u64par(p, "maxscan")) && !known_length(p.get("scandist") == 1, e.res, u64par(p, "maxscan"))) {
        snprintf(msg, sizeof msg, "NextScanLength() is %" PRIu64 ", the maximum is %d", e.res, (int)p.get("maxscan"));
        fail("workload-scan", msg);
      }
      break;
    case FIELD:
      e.res = w->field();
      if (e.res >= u64par(p, "nf")) fail("workload-fields", "NextFieldName() names a field that does not exist");
      break;
    case BUILD:
      w->build(op.arg, c);
      check_lengths(c);
      if (c.odd || c.doubled) fail("workload-fields", "built values name a field that does not exist, or one twice");
      if (c.bad_values) fail("workload-values", "a built value has an impossible length or contents");
      if (op.arg < 2 ? c.fields != (1u << p.get("nf")) - 1 : __builtin_popcount(c.fields) != 1) fail("workload-fields", "built values do not cover the fields they should");
      break;
    case CINSERT:
    case CTXN:
      if (pr == P_BENCH) {
        b = op.kind == CINSERT ? db->bench_load() : db->bench_transaction();
        if (!b) fail("bench-status", op.kind == CINSERT ? "loading a record failed" : "a transaction on loaded records failed");
      } else {
        calls[e.t] = 0;
        b = op.kind == CINSERT ? w->insert(this) : w->transaction(this);
        if (!calls[e.t]) fail("workload-status", "the client did not call the database");
        if (b != (answered[e.t] == 0)) fail("workload-status", "the client does not report what the database answered");
      }
      break;
    case INS: e.rc = db->insert(op.k, (u32)p.get("nf"), op.uid); break;
    case READ: {
      Rec r;
      e.rc = db->read(op.k, (u32)p.get("nf"), op.arg, r);
      if (!e.rc) e.recs.push_back(r);
      break;
    }
    case UPD:
      // an update of some fields of a record that may be missing: see forgiven()
      if (op.k >= p.prefill.size() && !p.get("partial")) e.op.arg = (1u << p.get("nf")) - 1;
      b = e.op.arg != (1u << p.get("nf")) - 1;
      started += b;
      e.rc = db->update(op.k, (u32)p.get("nf"), e.op.arg, op.uid);
      started -= b;
      break;
    case SCAN: e.rc = db->scan(op.k, (u32)p.get("nf"), op.arg, op.k2, e.recs); o.scans++; break;
    case DEL: e.rc = db->del(op.k); break;
    default: for (u32 i = 0; i < op.arg; i++) sync_point(EV_USER);
    }
    flush_buffer();
    e.ret = now_step();
    e.nd = D.n[e.t];
    memcpy(e.d, D.log[e.t], sizeof e.d);
    if (op.kind == NEXTN && p.get("gen") == G_LATEST) issued++;
    if (op.kind != PAUSE) h.push_back(std::move(e));
    progress_mark();
    o.ops++;
  }

  // ---- generators ---------------------------------------------------------------
  void bad(const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(msg, sizeof msg, fmt, ap);
    va_end(ap);
    report(o, cls, msg);
  }
  void check_unique(const std::vector<const Ev1 *> &nx, u64 first, const char *what) {
    std::vector<const Ev1 *> s(nx);
    std::sort(s.begin(), s.end(), [](auto *a, auto *b) { return a->res < b->res; });
    for (size_t i = 0; i < s.size(); i++)
      if (s[i]->res != first + i) return bad("counter", "%s: expected %" PRIu64 " to be handed out exactly once, got %" PRIu64 " in its place", what, first + i, s[i]->res);
    u64 m = 0; // latest invocation among the smaller numbers
    for (auto *e : s) {
      if (e->ret < m) return bad("counter", "%s: %" PRIu64 " was handed out before a smaller number was asked for", what, e->res);
      m = std::max(m, e->inv);
    }
  }
  void check_last(const std::vector<const Ev1 *> &nx, u64 first, const std::vector<std::pair<const Ev1 *, u64>> &lasts) {
    for (auto &l : lasts) {
      u64 lo = first, hi = first + nx.size(); // value of the counter
      for (auto *e : nx) {
        if (e->ret < l.first->inv) lo = std::max(lo, e->res + 1);
        if (e->inv > l.first->ret) hi = std::min(hi, e->res);
      }
      if (l.second + 1 < lo || l.second + 1 > hi)
        return bad("counter", "Last() is %" PRIu64 ", the counter is between %" PRIu64 " and %" PRIu64 " then", l.second, lo - 1, hi - 1);
    }
  }
  void check_gen() {
    u32 k = (u32)p.get("gen");
    u64 a = u64par(p, "a"), b = u64par(p, "b");
    std::vector<const Ev1 *> nx, nn, ls;
    for (auto &e : h) (e.op.kind == NEXT ? nx : e.op.kind == NEXTN ? nn : ls).push_back(&e);
    auto last_is_drawn = [&](const std::vector<const Ev1 *> &v, bool first_ok, u64 first) {
      for (auto *l : ls) {
        bool ok = first_ok && l->res == first;
        for (auto *e : v) ok = ok || (e->res == l->res && e->inv < l->ret);
        if (!ok) return bad("generator-last", "Last() is %" PRIu64 ", which was never drawn", l->res);
      }
    };
    switch (k) {
    case G_COUNTER: {
      check_unique(nx, a, "CounterGenerator");
      std::vector<std::pair<const Ev1 *, u64>> v;
      for (auto *l : ls) v.push_back({l, l->res});
      if (!o.bad) check_last(nx, a, v);
      break;
    }
    case G_UNIFORM: {
      for (auto *e : nx)
        if (e->res < a || e->res > b) return bad("generator-range", "UniformGenerator(%" PRIu64 ", %" PRIu64 ") drew %" PRIu64, a, b, e->res);
      // as if one client had drawn them
      std::vector<u64> ref, got;
      u64 first = ~0ull;
      run_phase({[&] {
        g->drop();
        g->make(k, a, b, 0, nullptr, 0);
        first = g->last();
        for (size_t i = 0; i < nx.size(); i++) ref.push_back(g->next());
        flush_buffer();
      }}, true);
      if (violation().set) return;
      for (auto *e : nx) got.push_back(e->res);
      std::vector<u64> r2(ref);
      std::sort(r2.begin(), r2.end());
      std::sort(got.begin(), got.end());
      if (r2 != got) return bad("generator-sequence", "the values drawn concurrently are not those one client alone draws");
      if (std::adjacent_find(r2.begin(), r2.end()) != r2.end() || std::count(r2.begin(), r2.end(), first)) return last_is_drawn(nx, true, first);
      // positions
      std::vector<const Ev1 *> s;
      for (u64 v : ref) for (auto *e : nx) if (e->res == v) s.push_back(e);
      u64 m = 0;
      for (auto *e : s) {
        if (e->ret < m) return bad("generator-sequence", "a value was drawn before an earlier one was asked for");
        m = std::max(m, e->inv);
      }
      for (auto *l : ls) {
        size_t i = 0;
        bool ok = false;
        if (l->res == first) ok = s.empty() || !(s[0]->ret < l->inv);
        for (i = 0; i < s.size(); i++) if (s[i]->res == l->res) ok = s[i]->inv < l->ret && !(i + 1 < s.size() && s[i + 1]->ret < l->inv);
        if (!ok) return bad("generator-last", "Last() is %" PRIu64 ", which is not the latest value then", l->res);
      }
      break;
    }
    case G_ZIPFIAN: {
      nx.insert(nx.end(), nn.begin(), nn.end());
      u64 n0 = b - a + 1;
      double th = THETA[p.get("theta")];
      for (auto *e : nx)
        if ((e->res < a || e->res >= a + e->num) && !known_zipf(*e, a, n0))
          return bad("generator-range", "ZipfianGenerator(%" PRIu64 ", %" PRIu64 ") drew %" PRIu64 " of %" PRIu64 " items", a, b, e->res, e->num);
      std::map<u64, ZipfRef> refs;
      for (auto *e : nx) {
        if (e->nd != 1) continue;
        std::set<u64> nz; // item counts the generator may know by then
        u64 lo = std::max(n0, e->num);
        for (auto *x : nx) if (x->ret < e->inv) lo = std::max(lo, x->num);
        nz.insert(lo);
        for (auto *x : nx) if (x->inv < e->ret && x->num > lo) nz.insert(x->num);
        bool ok = false;
        for (u64 n : nz) {
          auto it = refs.try_emplace(n, n, th).first;
          ok = ok || it->second.matches(as_u(e->d[0]), e->num, n0, e->res - a) || it->second.matches(as_u(e->d[0]), e->num, n, e->res - a);
        }
        if (!ok && a && e->res < 2)
          for (u64 n : nz) ok = ok || refs.at(n).matches(as_u(e->d[0]), e->num, n0, e->res);
        else if (!ok && e->res == a + e->num) ok = as_u(e->d[0]) > 0.999;
        else if (!ok && n0 == 2) ok = e->res >> 63;
        if (!ok)
          return bad("generator-distribution", "ZipfianGenerator(%" PRIu64 ", %" PRIu64 ") drew %" PRIu64 " of %" PRIu64 " items for the random number %.17g", a, b, e->res,
                     e->num, as_u(e->d[0]));
      }
      last_is_drawn(nx, true, ls.empty() ? 0 : first_last);
      break;
    }
    case G_SCRAMBLED: {
      for (auto *e : nx)
        if (e->res < a || e->res > b) return bad("generator-range", "ScrambledZipfianGenerator(%" PRIu64 ", %" PRIu64 ") drew %" PRIu64, a, b, e->res);
      last_is_drawn(nx, true, first_last);
      // the same random number always gives the same item
      for (auto *x : nx)
        for (auto *y : nx)
          if (x->nd == 1 && y->nd == 1 && x->d[0] == y->d[0] && x->res != y->res)
            return bad("generator-distribution", "ScrambledZipfianGenerator drew %" PRIu64 " and %" PRIu64 " for one random number", x->res, y->res);
      break;
    }
    case G_LATEST: {
      check_unique(nn, a, "CounterGenerator");
      if (o.bad) return;
      for (auto *e : nx) {
        u64 lo = a - 1, hi = a - 1 + nn.size();
        for (auto *c : nn) {
          if (c->ret < e->inv) lo = std::max(lo, c->res);
          if (c->inv > e->ret) hi = std::min(hi, c->res - 1);
        }
        if (e->res > hi && !(a == 3 && e->res > ~0ull >> 1 && known_finding(o, "zipfian-upper-bound"))) return bad("generator-range", "SkewedLatestGenerator drew %" PRIu64 ", the latest item is %" PRIu64, e->res, hi);
        if (e->nd == 1 && as_u(e->d[0]) * zeta(hi, 0.99) < 1 - 1e-9 && e->res < lo)
          return bad("generator-distribution", "SkewedLatestGenerator drew %" PRIu64 ", the latest item was %" PRIu64 " at least", e->res, lo);
      }
      last_is_drawn(nx, true, first_last);
      break;
    }
    default: {
      auto w = weights(p);
      double sum = 0;
      for (double x : w) sum += x;
      for (auto *e : nx) {
        if (e->res >= w.size() || w[e->res] <= 0) return bad("generator-range", "DiscreteGenerator drew a value without weight");
        if (e->nd != 1) continue;
        double lo = 0;
        for (u64 i = 0; i < e->res; i++) lo += w[i] / sum;
        double u = as_u(e->d[0]), tol = 1e-9;
        if (u < lo - tol || u > lo + w[e->res] / sum + tol)
          return bad("generator-distribution", "DiscreteGenerator drew value %" PRIu64 " for the random number %.17g", e->res, u);
      }
      last_is_drawn(nx, true, 0);
    }
    }
  }
  u64 first_last = 0;
  bool known_zipf(const Ev1 &e, u64 a, u64 n0) {
    if (a && e.res < 2) return known_finding(o, "zipfian-lower-bound");
    return (e.res == a + e.num || (n0 == 2 && e.res >> 63)) && known_finding(o, "zipfian-upper-bound");
  }

  void check_seq() {
    std::vector<u64> exp;
    for (u64 i = 0; i < seqs.size(); i++) exp.push_back(key_num(i));
    std::sort(exp.begin(), exp.end());
    std::sort(seqs.begin(), seqs.end());
    if (exp != seqs) bad("workload-sequence", "the %zu keys drawn for inserts are not the first %zu of the sequence, each once", seqs.size(), seqs.size());
  }

  // ---- databases ------------------------------------------------------------------
  // State: per record 0 or 1 + values. A history is checked by trying every order
  // that respects real time.
  struct St { u32 v[6][MAXF + 1]; };
  bool read_ok(const St &s, u32 k, u32 mask, u32 nf, const Rec &r) const {
    u32 want = mask ? mask : (1u << nf) - 1, seen = 0;
    if (r.n != __builtin_popcount(want)) return false;
    for (int i = 0; i < r.n; i++) {
      u32 f = r.names[i];
      if (f >= nf || !(want >> f & 1) || (seen >> f & 1)) return false;
      seen |= 1u << f;
      if (r.vals[i] != s.v[k][f + 1]) return false;
    }
    return true;
  }
  // behaviours of listed findings that are tolerated while an order is searched for
  enum { A_NOOP = 1, A_LOST = 2, A_CONFLICT = 4 };
  u32 allow = 0;
  static constexpr const char *A_ID[] = {"database-delete", "concurrent-database-update", "concurrent-database-update-conflict"};
  // applies e to s; false if the result cannot be. only: one record of a scan, ~0 for all
  bool apply(const Ev1 &e, St &s, u32 only) const {
    u32 nf = (u32)p.get("nf"), k = e.op.k, nk = (u32)p.get("nk");
    switch (e.op.kind) {
    case INS:
      if (conflicts(p.get("db")) && s.v[k][0]) return e.rc == 2;
      if (e.rc) return false;
      s.v[k][0] = 1;
      for (u32 f = 0; f < nf; f++) s.v[k][f + 1] = e.op.uid;
      return true;
    case READ:
      if (!s.v[k][0]) return e.rc == 1;
      return !e.rc && read_ok(s, k, e.op.arg, nf, e.recs[0]);
    case UPD: {
      bool all = e.op.arg == (1u << nf) - 1;
      if (!s.v[k][0]) {
        // an update of all fields may create the record
        if (e.rc) return e.rc == 1;
        if (!all) return false;
        s.v[k][0] = 1;
        for (u32 f = 0; f < nf; f++) s.v[k][f + 1] = e.op.uid;
        return true;
      }
      if (e.rc) return e.rc == 2 && allow & A_CONFLICT;
      if (allow & A_LOST) return true;
      for (u32 f = 0; f < nf; f++) if (e.op.arg >> f & 1) s.v[k][f + 1] = e.op.uid;
      return true;
    }
    case DEL:
      if (!s.v[k][0]) return e.rc == 1;
      if (e.rc) return e.rc == 1 && allow & A_NOOP;
      memset(s.v[k], 0, sizeof s.v[k]);
      return true;
    case SCAN: {
      if (e.rc) return false;
      if (only == ~0u) {
        size_t i = 0;
        for (u32 x = k; x < nk && i < e.op.k2; x++)
          if (s.v[x][0]) {
            if (i >= e.recs.size() || !read_ok(s, x, e.op.arg, nf, e.recs[i])) return false;
            i++;
          }
        return i == e.recs.size();
      }
      return true;
    }
    }
    return true;
  }
  // linearizability of the operations of one key (concurrent map) or of all
  bool lin(const std::vector<const Ev1 *> &v, const St &init, u32 key, bool &inconclusive) {
    size_t n = v.size();
    std::unordered_set<std::string> memo;
    struct F { u64 done; St s; };
    std::vector<F> st{{0, init}};
    u64 full = n == 64 ? ~0ull : (1ull << n) - 1;
    u32 tries = 0;
    while (!st.empty()) {
      F f = st.back();
      st.pop_back();
      if (f.done == full) return true;
      if (++tries > 400000) { inconclusive = true; return true; }
      u64 minret = ~0ull;
      for (size_t i = 0; i < n; i++) if (!(f.done >> i & 1)) minret = std::min(minret, v[i]->ret);
      for (size_t i = 0; i < n; i++) {
        if (f.done >> i & 1 || v[i]->inv > minret) continue;
        F g2{f.done | 1ull << i, f.s};
        if (!step(*v[i], g2.s, key)) continue;
        std::string m((const char *)&g2.done, 8);
        m.append((const char *)&g2.s, sizeof(St));
        if (memo.insert(m).second) st.push_back(g2);
      }
    }
    return false;
  }
  // the scanned records a concurrent scan saw of one key: index into recs, -1 not
  // reported although in range, -2 out of range
  bool step(const Ev1 &e, St &s, u32 key) const {
    if (key == ~0u || e.op.kind != SCAN) return apply(e, s, key);
    int at = -2;
    for (size_t i = 0; i < e.recs.size(); i++) if (e.recs[i].key == key) at = (int)i;
    if (at >= 0) return s.v[key][0] && read_ok(s, key, e.op.arg, (u32)p.get("nf"), e.recs[at]);
    return !s.v[key][0];
  }
  // which keys a scan reports can only be told from the values, which name their operation
  bool place_scan(Ev1 &e) {
    std::map<u32, u32> owner;
    for (auto &x : h) if (x.op.kind == INS || x.op.kind == UPD) owner[x.op.uid] = x.op.k;
    u64 prev = 0;
    bool first = true;
    for (auto &r : e.recs) {
      r.key = ~0ull;
      for (int i = 0; i < r.n && i < (int)MAXF; i++) {
        auto it = owner.find(r.vals[i]);
        if (it == owner.end()) { bad("scan", "a scan returned a value nobody wrote"); return false; }
        if (r.key != ~0ull && r.key != it->second) { bad("scan", "a scan returned one record with values of two"); return false; }
        r.key = it->second;
      }
      if (r.key == ~0ull) { bad("scan", "a scan returned an empty record"); return false; }
      if (r.key < e.op.k || (!first && r.key <= prev)) { bad("scan", "a scan returned records out of order, or before the start key"); return false; }
      prev = r.key;
      first = false;
    }
    if (e.recs.size() > e.op.k2) { bad("scan", "a scan returned more records than asked for"); return false; }
    return true;
  }
  bool explained(const std::vector<const Ev1 *> &v, const St &init, u32 key, bool &inc) {
    bool conc = p.get("db") == 4;
    allow = 0;
    if (lin(v, init, key, inc)) return true;
    Outcome dummy;
    u32 listed = 0;
    for (u32 i = 0; i < 3; i++) if ((i == 0 || conc) && known_finding(dummy, A_ID[i])) listed |= 1u << i;
    for (u32 a = 1; a < 8; a++)
      if (!(a & ~listed)) {
        allow = a;
        bool ok = lin(v, init, key, inc);
        allow = 0;
        if (!ok) continue;
        for (u32 i = 0; i < 3; i++) if (a >> i & 1) known_finding(o, A_ID[i]);
        return true;
      }
    return false;
  }
  void check_db(const St &init) {
    bool conc = p.get("db") == 4, inc = false;
    u32 nk = (u32)p.get("nk");
    for (auto &e : h) if (e.op.kind == SCAN && !place_scan(e)) return;
    if (!conc) {
      std::vector<const Ev1 *> v;
      for (auto &e : h) v.push_back(&e);
      if (v.size() > 64) return;
      o.lin_keys++;
      if (!explained(v, init, ~0u, inc)) return bad("db-linearizability", "no order of the operations explains their results");
    } else
      for (u32 k = 0; k < nk; k++) {
        std::vector<const Ev1 *> v;
        for (auto &e : h) {
          if (e.op.kind == SCAN) {
            // the part of the key space it covers
            u64 end = e.recs.size() == e.op.k2 ? e.recs.back().key : ~0ull;
            if (k < e.op.k || k > end) continue;
          } else if (e.op.k != k) continue;
          v.push_back(&e);
        }
        if (v.empty() || v.size() > 64) continue;
        o.lin_keys++;
        if (!explained(v, init, k, inc)) return bad("db-linearizability", "no order of the operations on record %u explains their results", k);
      }
    if (inc) o.lin_inconclusive++;
  }

  std::string hist() {
    std::string s;
    for (auto &e : h) {
      char b[200];
      snprintf(b, sizeof b, "T%u [%" PRIu64 ",%" PRIu64 "] %s", e.t, e.inv, e.ret, op_text(p, e.op).c_str());
      s += b;
      if (pr == P_DB) {
        s += " -> " + std::to_string(e.rc);
        for (auto &r : e.recs) {
          s += " {";
          for (int i = 0; i < r.n && i < (int)MAXF; i++) s += (i ? " " : "") + std::to_string((int)r.names[i]) + ":" + std::to_string((int)r.vals[i]);
          s += "}";
        }
      } else {
        snprintf(b, sizeof b, " -> %" PRIu64, e.res);
        s += b;
        if (e.nd) { snprintf(b, sizeof b, " (random number %.17g)", as_u(e.d[0])); s += b; }
      }
      s += "\n";
    }
    return s;
  }

  void points() {
    D.pts = {0, (1ull << 53) - 1, 1ull << 52};
    D.special = p.get("umode");
    D.feeding = false;
    auto add = [&](double u) { if (u >= 0 && u < 1) D.pts.push_back((u64)(u * 9007199254740992.0)); };
    double th = THETA[p.get("theta")];
    if (pr == P_GEN && p.get("gen") == G_DISCRETE) {
      auto w = weights(p);
      double s = 0, c = 0;
      for (double x : w) s += x;
      for (double x : w) { c += x; add(c / s); }
    } else if (pr == P_GEN && p.get("gen") != G_UNIFORM && p.get("gen") != G_COUNTER) {
      u64 n = p.get("gen") == G_LATEST ? u64par(p, "a") : u64par(p, "b") - u64par(p, "a") + 1;
      if (n < 1000) { double z = zeta(n, th); add(1 / z); add((1 + std::pow(0.5, th)) / z); }
    } else if (pr != P_GEN) {
      double s = 0, c = 0, w[5];
      for (int i = 0; i < 5; i++) s += w[i] = (double)p.get(("w" + std::to_string(i)).c_str());
      for (double x : w) { c += x; add(c / s); }
    }
  }

  // only records (arrays of pairs of strings) and strings in them
  bool known_leak() {
    bool conc = p.get("db") == 4;
    u64 nf = u64par(p, "nf"), records = 0, arrays = 0, strings = 0, other = 0;
    u64 longest = pr == P_BENCH ? u64par(p, "flen") + 2 : 40;
    for (auto &e : h) {
      if (e.op.kind == INS || e.op.kind == UPD) records++;
      if (e.op.kind == CINSERT || e.op.kind == CTXN) records++;
    }
    (void)conc;
    for_live_allocs([&](u64 sz) {
      if (sz == 64 * nf + 8 && arrays < records) arrays++;
      else if (p.get("partial") && (sz & 63) == 8 && arrays < records) arrays++;
      else if (sz <= 2 * longest) strings++;
      else other++;
    });
    return !other && strings <= arrays * nf && known_finding(o, "database-leak");
  }
  // Updating some fields of a missing record creates a record of only those, and
  // nothing that happens to the database afterwards makes sense.
  bool partial_record() {
    if (started && p.get("partial")) return true;
    for (auto &e : h) {
      if (e.op.kind != UPD || e.rc || e.op.arg == (1u << p.get("nf")) - 1) continue;
      bool sure = e.op.k < p.prefill.size();
      for (auto &x : h) if (x.op.k == e.op.k && x.op.kind == INS && !x.rc && x.ret < e.inv) sure = true;
      for (auto &x : h) if (x.op.k == e.op.k && x.op.kind == DEL && !x.rc && x.inv < e.ret) sure = false;
      if (!sure) return true;
    }
    return false;
  }

  void run() {
    ycsb_prewarm();
    points();
    St init;
    memset(&init, 0, sizeof init);
    bool ok = run_phase({[&] {
      register_thread();
      reclamation_threshold = (int)p.get("reclaim", 1000);
      if (pr == P_GEN) {
        g = make_gen();
        auto w = weights(p);
        g->make((u32)p.get("gen"), u64par(p, "a"), u64par(p, "b"), THETA[p.get("theta")], w.data(), (u32)w.size());
        if (p.get("gen") != G_DISCRETE) first_last = g->last();
      } else if (pr == P_WORK) {
        w = make_work();
        w->make(work_props(p, false).c_str());
      } else {
        db = make_db(DBN[p.get("db")]);
        db->make();
        if (pr == P_BENCH) db->bench_make(work_props(p, true).c_str());
        for (auto &op : p.prefill) one(op);
      }
      flush_buffer();
      unregister_thread();
    }}, true);
    if (pr == P_BENCH && ok) {
      u32 nt = (u32)p.rounds[0].size();
      std::vector<std::function<void()>> bodies;
      for (u32 t = 0; t < nt; t++)
        bodies.push_back([&] {
          db->init();
          Op op;
          op.kind = CINSERT;
          for (i64 i = 0; i < p.get("records") / (i64)nt; i++) one(op);
          db->close();
          flush_buffer();
          unregister_thread();
        });
      ok = run_phase(bodies, false);
    }
    for (auto &r : p.rounds) {
      if (!ok) break;
      std::vector<std::function<void()>> bodies;
      for (u32 t = 0; t < r.size(); t++)
        bodies.push_back([&, t] {
          if (db) db->init();
          else register_thread();
          for (auto &op : r[t]) one(op);
          if (db) db->close();
          flush_buffer();
          unregister_thread();
        });
      ok = run_phase(bodies, false);
    }
    if (ok && pr == P_DB) {
      // what is there now
      ok = run_phase({[&] {
        db->init();
        for (u32 k = 0; k < (u32)p.get("nk"); k++) { Op op; op.kind = READ; op.k = k; one(op); }
        if (can_scan(p.get("db"))) { Op op; op.kind = SCAN; op.k2 = 20; one(op); }
        flush_buffer();
        unregister_thread();
      }}, true);
    }
    if (ok) {
      if (pr == P_GEN) check_gen();
      if (pr == P_WORK) check_seq();
      if (pr == P_DB) check_db(init);
    }
    if (ok && !o.bad && !violation().set)
      run_phase({[&] {
        register_thread();
        if (g) g->drop();
        if (w) w->drop();
        if (db && pr == P_BENCH) db->bench_drop();
        if (db) db->drop();
        flush_buffer();
        unregister_thread();
        end_thread_locals();
        if (live_allocs() && !(db && known_leak())) {
          snprintf(msg, sizeof msg, "%" PRIu64 " objects (%" PRIu64 " bytes) are still allocated at the end:", live_allocs(), live_bytes());
          fail("leak", msg + describe_leaks(4));
        }
      }}, true);
    if (o.bad || violation().set) o.note = hist();
  }
};
static bool partial_seen;
static bool forgiven(const Prog &p, Outcome &o) {
  if (o.cls == "assert" && o.msg.find("discrete_generator.h") != std::string::npos && as_u(D.last[o.tid % 16]) > 1 - 1e-12 && known_finding(o, "discrete-rounding")) return true;
  return prof_of(p.profile) == P_DB && partial_seen && known_finding(o, "database-partial-record");
}
static struct SetForgive { SetForgive() { forgive = forgiven; } } set_forgive;
void exec_prog(const Prog &p, Outcome &o) {
  Exec *x = new Exec(p, o);
  x->run();
  partial_seen = x->pr == P_DB && x->partial_record();
  o.nontrivial = counters().preempts > 0;
  if (!violation().set) delete x;
}
} // namespace sim
