// The YCSB generators, workload, client and databases under the simulator.
#include "iycsb.h"
#include "stdinc.h"
#include "core/client.h"
#include "core/core_workload.h"
#include "db/db_factory.h"
#include "utils/counter_generator.h"
#include "utils/discrete_generator.h"
#include "utils/scrambled_zipfian_generator.h"
#include "utils/skewed_latest_generator.h"
#include "utils/uniform_generator.h"
#include "utils/zipfian_generator.h"

namespace sim {
using namespace ycsbc;
namespace {
// Statics of the libraries are initialised before any simulated thread runs.
struct Prewarm {
  Prewarm() {
    utils::RandomDouble();
    DB::FieldSet s;
    s.insert("x");
    DB::FieldMap m;
    m["x"] = "y";
    for (const char *n : {"stl_map", "stl_umap", "robinmap", "btree"}) {
      utils::Properties p;
      p.SetProperty("dbname", n);
      DB *db = DBFactory::CreateDB(p);
      DB::FieldVec v{{"a", "b"}}, out;
      db->Init();
      db->Insert("t", "k", v);
      db->Read("t", "k", nullptr, 1, out);
      db->Read("t", "k", &s, 1, out);
      delete db;
    }
  }
};

struct Gen : IGen {
  u32 kind = 0;
  CounterGenerator *ctr = nullptr;
  ZipfianGenerator *zipf = nullptr;
  DiscreteGenerator<u32> *disc = nullptr;
  Generator<uint64_t> *g = nullptr;
  void make(u32 k, u64 a, u64 b, double theta, const double *w, u32 nw) override {
    Sut s;
    kind = k;
    switch (k) {
    case G_COUNTER: g = ctr = new CounterGenerator(a); break;
    case G_UNIFORM: g = new UniformGenerator(a, b); break;
    case G_ZIPFIAN: g = zipf = new ZipfianGenerator(a, b, theta); break;
    case G_SCRAMBLED: g = new ScrambledZipfianGenerator(a, b, theta); break;
    case G_LATEST:
      ctr = new CounterGenerator(a);
      g = new SkewedLatestGenerator(*ctr);
      break;
    default:
      disc = new DiscreteGenerator<u32>();
      for (u32 i = 0; i < nw; i++) disc->AddValue(i, w[i]);
    }
  }
  u64 next() override { Sut s; return disc ? disc->Next() : g->Next(); }
  u64 next_of(u64 num) override { Sut s; return zipf ? zipf->Next(num) : ctr->Next(); }
  u64 last() override { Sut s; return disc ? disc->Last() : g->Last(); }
  u64 last_below() override { Sut s; return ctr->Last(); }
  void drop() override {
    Sut s;
    delete g;
    delete disc;
    if (kind == G_LATEST) delete ctr;
    g = nullptr;
    disc = nullptr;
  }
};

u64 number(const std::string &s, size_t at) {
  if (s.size() <= at || s.size() > at + 20) return ~0ull;
  u64 v = 0;
  for (size_t i = at; i < s.size(); i++) {
    if (s[i] < '0' || s[i] > '9') return ~0ull;
    v = v * 10 + (u64)(s[i] - '0');
  }
  return v;
}
u64 key_number(const std::string &s) { return s.compare(0, 4, "user") == 0 ? number(s, 4) : ~0ull; }
u64 field_number(const std::string &s) { return s.compare(0, 5, "field") == 0 ? number(s, 5) : ~0ull; }

void note_field(DbCall &c, const std::string &n, int nf) {
  u64 f = field_number(n);
  u64 f2 = n.compare(0, 5, "field") == 0 ? field_number(n.substr(5)) : ~0ull;
  if (f2 < (u64)nf) c.doubled++;
  else if (f >= (u64)nf || f >= 32) c.odd++;
  else if (c.fields >> f & 1) c.odd++; // twice
  else c.fields |= 1u << f;
}
void note_value(DbCall &c, const std::string &v, int max, bool fixed) {
  bool empty = !fixed && v.empty(), over = !fixed && (int)v.size() == max + 1;
  if (empty) c.empty_values++;
  if (over) c.long_values++;
  bool ok = empty || over ? true : fixed ? (int)v.size() == max : !v.empty() && (int)v.size() <= max;
  for (char ch : v) ok = ok && ch > 32 && ch < 127;
  if (!ok) c.bad_values++;
}

struct Work : IWork {
  CoreWorkload *w = nullptr;
  int nf = 0, flen = 0;
  bool fixed = false;
  struct Recorder : DB {
    Work *w;
    CallSink *s;
    Recorder(Work *w, CallSink *s) : w(w), s(s) {}
    DbCall call(u32 kind, const std::string &table, const std::string &key, int fc) {
      DbCall c{};
      c.kind = kind;
      c.key = table == "usertable" ? key_number(key) : ~0ull;
      c.field_count = fc;
      return c;
    }
    int Read(const std::string &t, const std::string &k, const FieldSet *f, int fc, std::vector<KVPair> &) override {
      DbCall c = call(0, t, k, fc);
      c.all = !f;
      if (f) for (auto &n : *f) note_field(c, n, fc);
      return s->called(c);
    }
    int Scan(const std::string &t, const std::string &k, int n, const FieldSet *f, int fc, std::vector<std::vector<KVPair>> &) override {
      DbCall c = call(1, t, k, fc);
      c.len = n;
      c.all = !f;
      if (f) for (auto &x : *f) note_field(c, x, fc);
      return s->called(c);
    }
    int Update(const std::string &t, const std::string &k, int fc, FieldMap &v) override {
      DbCall c = call(2, t, k, fc);
      for (auto &x : v) { note_field(c, x.first, fc); note_value(c, x.second, w->flen, w->fixed); }
      return s->called(c);
    }
    int Insert(const std::string &t, const std::string &k, std::vector<KVPair> &v) override {
      DbCall c = call(3, t, k, (int)v.size());
      for (auto &x : v) { note_field(c, x.first, w->nf); note_value(c, x.second, w->flen, w->fixed); }
      return s->called(c);
    }
    int Delete(const std::string &, const std::string &) override { return kOK; }
  };
  static void parse(utils::Properties &p, const char *props) {
    for (const char *a = props; *a;) {
      const char *e = strchr(a, '='), *z = strchr(e, ';');
      p.SetProperty(std::string(a, e), std::string(e + 1, z));
      a = z + 1;
    }
  }
  bool make(const char *props) override {
    Sut s;
    utils::Properties p;
    parse(p, props);
    nf = std::stoi(p.GetProperty("fieldcount"));
    flen = std::stoi(p.GetProperty("fieldlength"));
    fixed = p.GetProperty("field_len_dist") == "constant";
    w = new CoreWorkload();
    w->Init(p);
    return true;
  }
  void drop() override { Sut s; delete w; w = nullptr; }
  u64 seq_key() override { Sut s; return key_number(w->NextSequenceKey()); }
  u64 txn_key() override { Sut s; return key_number(w->NextTransactionKey()); }
  u32 operation() override { Sut s; return w->NextOperation(); }
  u64 scan_len() override { Sut s; return w->NextScanLength(); }
  u64 field() override { Sut s; return field_number(w->NextFieldName()); }
  void build(u32 how, DbCall &c) override {
    Sut s;
    if (how == 0) {
      DB::FieldVec v;
      w->BuildValues(v);
      for (auto &x : v) { note_field(c, x.first, nf); note_value(c, x.second, flen, fixed); }
    } else {
      DB::FieldMap v;
      if (how == 1) w->BuildValues(v);
      else w->BuildUpdate(v);
      for (auto &x : v) { note_field(c, x.first, nf); note_value(c, x.second, flen, fixed); }
    }
  }
  bool insert(CallSink *k) override {
    Sut s;
    Recorder db(this, k);
    Client c(db, *w);
    return c.DoInsert();
  }
  bool transaction(CallSink *k) override {
    Sut s;
    Recorder db(this, k);
    Client c(db, *w);
    return c.DoTransaction();
  }
};

struct Db : IDb {
  const char *name;
  DB *db = nullptr;
  CoreWorkload *w = nullptr;
  explicit Db(const char *n) : name(n) {}
  void make() override {
    Sut s;
    utils::Properties p;
    p.SetProperty("dbname", name);
    db = DBFactory::CreateDB(p);
  }
  void drop() override { Sut s; delete db; db = nullptr; }
  void init() override { Sut s; db->Init(); }
  void close() override { Sut s; db->Close(); }
  static std::string key_name(u32 k) { return "user" + std::to_string(1000 + k); }
  // some values own memory, some do not
  static std::string value(u32 uid, u32 f) {
    std::string v = std::to_string(uid) + "." + std::to_string(f);
    if ((uid ^ f) & 1) v += "................";
    return v;
  }
  static u32 value_uid(const std::string &v, u32 f) {
    u64 x = 0;
    size_t i = 0;
    for (; i < v.size() && v[i] >= '0' && v[i] <= '9'; i++) x = x * 10 + (u64)(v[i] - '0');
    return i && v == value((u32)x, f) ? (u32)x : ~0u;
  }
  static void rec(const DB::FieldVec &v, Rec &r) {
    r.n = (int)v.size();
    for (int i = 0; i < r.n && i < (int)MAXF; i++) {
      u64 f = field_number(v[i].first);
      r.names[i] = f < MAXF ? (u32)f : ~0u;
      r.vals[i] = f < MAXF ? value_uid(v[i].second, (u32)f) : ~0u;
    }
  }
  static DB::FieldSet names(u32 mask) {
    DB::FieldSet f;
    for (u32 i = 0; i < MAXF; i++) if (mask >> i & 1) f.insert("field" + std::to_string(i));
    return f;
  }
  int insert(u32 key, u32 nf, u32 uid) override {
    Sut s;
    DB::FieldVec v;
    for (u32 i = 0; i < nf; i++) v.push_back({"field" + std::to_string(i), value(uid, i)});
    return db->Insert("usertable", key_name(key), v);
  }
  int read(u32 key, u32 nf, u32 mask, Rec &out) override {
    Sut s;
    DB::FieldVec v;
    DB::FieldSet f = names(mask);
    int rc = db->Read("usertable", key_name(key), mask ? &f : nullptr, (int)nf, v);
    out.key = key;
    rec(v, out);
    return rc;
  }
  int update(u32 key, u32 nf, u32 mask, u32 uid) override {
    Sut s;
    DB::FieldMap v;
    for (u32 i = 0; i < nf; i++) if (mask >> i & 1) v["field" + std::to_string(i)] = value(uid, i);
    return db->Update("usertable", key_name(key), (int)nf, v);
  }
  int scan(u32 key, u32 nf, u32 mask, u32 n, std::vector<Rec> &out) override {
    Sut s;
    std::vector<DB::FieldVec> v;
    DB::FieldSet f = names(mask);
    int rc = db->Scan("usertable", key_name(key), (int)n, mask ? &f : nullptr, (int)nf, v);
    for (auto &x : v) {
      Rec r;
      rec(x, r);
      Unsut u;
      out.push_back(r);
    }
    return rc;
  }
  int del(u32 key) override { Sut s; return db->Delete("usertable", key_name(key)); }
  bool bench_make(const char *props) override {
    Sut s;
    utils::Properties p;
    Work::parse(p, props);
    w = new CoreWorkload();
    w->Init(p);
    return true;
  }
  void bench_drop() override { Sut s; delete w; w = nullptr; }
  bool bench_load() override {
    Sut s;
    Client c(*db, *w);
    return c.DoInsert();
  }
  bool bench_transaction() override {
    Sut s;
    Client c(*db, *w);
    return c.DoTransaction();
  }
};
} // namespace
IGen *make_gen() { return new Gen(); }
IWork *make_work() { return new Work(); }
IDb *make_db(const char *n) { return new Db(n); }
} // namespace sim
extern "C" void ycsb_prewarm() { static sim::Prewarm p; }
