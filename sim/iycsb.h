// What the YCSB simulation needs from the instrumented side.
#pragma once
#include "engine.h"
namespace sim {
enum GenKind : u32 { G_COUNTER, G_UNIFORM, G_ZIPFIAN, G_SCRAMBLED, G_LATEST, G_DISCRETE, G_NUM };
constexpr u32 MAXF = 6; // fields of a record
// Generators. The object is created with make() and gone after drop().
struct IGen {
  virtual ~IGen() {}
  virtual void make(u32 kind, u64 a, u64 b, double theta, const double *weights, u32 nw) = 0;
  virtual u64 next() = 0;
  virtual u64 next_of(u64 num) = 0; // zipfian: over so many items; latest: advances the counter below it
  virtual u64 last() = 0;
  virtual u64 last_below() = 0; // latest: Last() of the counter below it
  virtual void drop() = 0;
};
// A call of the client to its database, recorded without leaving the simulation.
struct DbCall {
  u32 kind; // 0 read, 1 scan, 2 update, 3 insert
  u64 key;  // decoded key number, ~0 if malformed
  i64 len;  // scan length
  int field_count;
  bool all;       // no field set given
  u32 fields;     // mask of fields named
  u32 odd;        // names that are none of field0 .. fieldN-1
  u32 doubled;    // names that are "field" + one of those
  u32 empty_values, long_values; // values of length 0 and one more than the maximum
  u32 bad_values; // values of impossible length or with unprintable characters
  int status;     // what it was answered
};
struct CallSink {
  virtual ~CallSink() {}
  virtual int called(const DbCall &c) = 0; // returns the status to answer
};
struct IWork {
  virtual ~IWork() {}
  // name=value;name=value...
  virtual bool make(const char *props) = 0;
  virtual void drop() = 0;
  virtual u64 seq_key() = 0; // number in the key's name, ~0 if malformed
  virtual u64 txn_key() = 0;
  virtual u32 operation() = 0;
  virtual u64 scan_len() = 0;
  virtual u64 field() = 0;                      // number in the name of the field, ~0 if malformed
  virtual void build(u32 how, DbCall &c) = 0;   // 0 vector, 1 map, 2 update
  virtual bool insert(CallSink *s) = 0;         // Client::DoInsert
  virtual bool transaction(CallSink *s) = 0;    // Client::DoTransaction
};
struct Rec { // a record, as seen by a caller
  u64 key = ~0ull;
  int n = 0;          // fields found
  u32 names[MAXF] = {}; // which ones, ~0 for an unknown name
  u32 vals[MAXF] = {};  // ~0 for a value nobody wrote
};
struct IDb {
  virtual ~IDb() {}
  virtual void make() = 0;
  virtual void drop() = 0;
  virtual void init() = 0;
  virtual void close() = 0;
  virtual int insert(u32 key, u32 nf, u32 uid) = 0;
  virtual int read(u32 key, u32 nf, u32 mask, Rec &out) = 0; // mask 0: all fields
  virtual int update(u32 key, u32 nf, u32 mask, u32 uid) = 0;
  virtual int scan(u32 key, u32 nf, u32 mask, u32 n, std::vector<Rec> &out) = 0;
  virtual int del(u32 key) = 0;
  // the benchmark itself
  virtual bool bench_make(const char *props) = 0;
  virtual void bench_drop() = 0;
  virtual bool bench_load() = 0;
  virtual bool bench_transaction() = 0;
};
IGen *make_gen();
IWork *make_work();
IDb *make_db(const char *name);
} // namespace sim
