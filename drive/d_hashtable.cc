// HashTable against std::map: random operation histories, small and large capacities, clustered keys, growth, absent keys
#include "drv.h"
#include "ce_stt.h"
#include <stddef.h>
#include "hashtable.h"
namespace pocketkaldi { struct PK { int32_t a, b; bool operator==(const PK &o) const { return a == o.a && b == o.b; } bool operator<(const PK &o) const { return a != o.a ? a < o.a : b < o.b; } }; }
using pocketkaldi::PK;
namespace pocketkaldi { inline int32_t hash(PK s) { int32_t h = 19; h = (int32_t)((uint32_t)h * 31u + (uint32_t)s.a); h = (int32_t)((uint32_t)h * 31u + (uint32_t)s.b); return h; } }
#include <map>
using pocketkaldi::HashTable;
static int mk(Rng &r, int mode, int span, int) { int k = mode == 0 ? r.below(span) : mode == 1 ? r.range(-span, span) : mode == 2 ? r.below(span) * 131101 : mode == 3 ? r.below(20) * 37 + r.below(3) : (int)(uint32_t)r.next() >> 8; return k; }
static PK mk(Rng &r, int mode, int span, PK) { PK p; p.a = mk(r, mode, span, 0); p.b = r.below(4); return p; }
static void lg(int k) { drv_log("%d", k); }
static void lg(PK k) { drv_log("(%d,%d)", k.a, k.b); }
template <class K> static void round(Rng &r, const char *nm, bool big) {
  int caps[] = {1, 2, 3, 4, 5, 6, 11, 12, 16, 17, 37, 60, 130, 257, 1024, 2000};
  int cap = caps[r.below(big ? 16 : 12)];
  drv_begin("HashTable<%s,int>(%d):", nm, cap);
  HashTable<K, int> h(cap); std::map<K, int> m;
  int mode = r.below(5), span = r.chance(30) ? 8 : r.chance(50) ? 100 : 5000, nops = big ? r.range(200, 6000) : r.range(1, 60);
  int pins = r.range(30, 90);
  for (int i = 0; i < nops; ++i) {
    K k = mk(r, mode, span, K());
    int op = r.below(100);
    if (op < pins) { int v = (int)r.next() >> 4; drv_log(" I "); lg(k); drv_log("=%d", v); h.Insert(k, v); m[k] = v; }
    else if (op < 99) {
      drv_log(" F "); lg(k); int d = r.chance(50) ? -1 : r.below(100); int g = h.Find(k, d); auto it = m.find(k); int e = it == m.end() ? d : it->second;
      CHECKF(g == e, "Find returned %d, expected %d (%s)", g, e, it == m.end() ? "absent key" : "present key");
    } else if (r.chance(big ? 10 : 60)) { drv_log(" C"); h.Clear(); m.clear(); }
    if (!big || i % 256 == 255) for (auto &x : m) { int g = h.Find(x.first, x.second + 1); CHECKF(g == x.second, "a stored key has value %d, expected %d after the last operation", g, x.second); }
  }
  for (auto &x : m) { int g = h.Find(x.first, x.second + 1); CHECKF(g == x.second, "a stored key has value %d, expected %d at the end", g, x.second); }
  for (int i = 0; i < 40; ++i) { K k = mk(r, mode, span * 3, K()); if (m.count(k)) continue; drv_log(" F "); lg(k); int g = h.Find(k, -7); CHECKF(g == -7, "an absent key is found with %d", g); }
  drv_end();
}
void drv_main(uint64_t seed) {
  // exhaustive: every small capacity, keys 0..n in order, every absent key looked up after each insertion
  for (int cap = 1; cap <= 40; ++cap) {
    drv_begin("capacity %d, keys 0,1,2,..:", cap); HashTable<int, int> h(cap);
    for (int i = 0; i < 120; ++i) { h.Insert(i, i * 3); for (int q = -130; q < 260; ++q) { int g = h.Find(q, -5); CHECKF(g == (q >= 0 && q <= i ? q * 3 : -5), "after inserting 0..%d Find(%d) = %d", i, q, g); } }
    drv_end();
  }
  // all residues that one key probes are filled, for the sizes reached by growth
  for (int cap : {5, 17, 37, 60, 67, 131, 257, 500, 521, 1031, 2053}) for (int t = 0; t < 3; ++t) {
    drv_begin("capacity %d, quadratic residues of the table size:", cap); HashTable<int, int> h(cap); std::map<int, int> m;
    int p = t == 0 ? cap : t == 1 ? (cap == 60 ? 67 : cap == 500 ? 521 : cap) : 521;
    for (int i = 1; i < p && (int)m.size() < 600; ++i) { int k = (int)((long)i * i % p); h.Insert(k, i); m[k] = i; int g = h.Find(0 + p * 3, -5); CHECKF(g == -5, "absent key found: %d", g); }
    for (auto &x : m) CHECKF(h.Find(x.first, -1) == x.second, "key %d lost", x.first);
    drv_end();
  }
  Rng r(seed);
  while (drv_time()) { for (int i = 0; i < 40; ++i) { round<int>(r, "int", false); round<PK>(r, "pair", false); } round<int>(r, "int", true); round<PK>(r, "pair", true); }
}
