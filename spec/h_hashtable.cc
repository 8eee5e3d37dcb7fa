#include "vf.h"
#include "hashtable.cc"
using namespace pocketkaldi;
typedef HashTable<int, int> HT;
typedef HT::Item Item;

// ---- Lookup: result in range, empty or holding the key; unchanged when another empty slot is filled;
//      filling the result with the key makes it the result
extern "C" void H_lookup() {
  int n = vf_any<int>(), q = vf_any<int>();
  vf_assume(n >= 1);
  Item *b = vf_array<Item>(n);
  bool *e = vf_array<bool>(n);
  vf_touch_(&b[0].key, 'i'); vf_touch_(&b[0].value, 'i'); vf_touch_(e, 'b');
  HT *h = vf_array<HT>(1);
  vf_cover("pre");
  int r = h->Lookup(b, e, n, q);
  vf_cover("post");
  vf_assert(0 <= r && r < n, "slot in range");
  vf_assert(e[r] || b[r].key == q, "slot empty or holds the key");
  int x = vf_any<int>();
  vf_assume(0 <= x && x < n && e[x]);
  int k2 = vf_any<int>();
  vf_assume(x != r || k2 == q);
  e[x] = false;
  b[x].key = k2;
  b[x].value = vf_any<int>();
  int r2 = h->Lookup(b, e, n, q);
  vf_cover("post2");
  vf_assert(r2 == r, "filling another slot, or this slot with the key, does not move the lookup result");
}

// The abstract view used below: slot LK(key) decides presence and value of every key.
static HT *any_table() {
  HT *h = (HT *)vf_array<HT>(1);
  int n = vf_any<int>(), pi = vf_any<int>(), sz = vf_any<int>();
  vf_assume(n >= 1 && n <= 2000000000 && pi >= 0 && pi < 31 && sz >= 0 && sz <= n);
  h->buckets_ = vf_array<Item>(n); h->empty_ = vf_array<bool>(n);
  vf_touch_(&h->buckets_[0].key, 'i'); vf_touch_(&h->buckets_[0].value, 'i'); vf_touch_(h->empty_, 'b');
  h->bucket_size_ = n; h->prime_idx_ = pi; h->size_ = sz;
  return h;
}
static bool RI(HT *h, Item *b, bool *e, int n) {   // every stored entry is found where it is
  return vf_forall(0, n, [=](long s) -> bool { return e[s] | (h->Lookup(b, e, n, b[s].key) == s); });
}
static bool has(HT *h, int q) { return !h->empty_[h->Lookup(h->buckets_, h->empty_, h->bucket_size_, q)]; }
static int valof(HT *h, int q) { return h->buckets_[h->Lookup(h->buckets_, h->empty_, h->bucket_size_, q)].value; }

// ---- growth, as seen by Insert (proved for the real body by H_extend, for an arbitrary key)
static int watch[2];
extern "C" void SC_extend(HT *h) {
  int pi = h->prime_idx_;
  vf_assert(pi < 31, "the size table is not exhausted");
  bool p0 = has(h, watch[0]), p1 = has(h, watch[1]);
  int v0 = valof(h, watch[0]), v1 = valof(h, watch[1]);
  int nn = gPrimeNumbers[pi + 1];
  h->buckets_ = vf_array<Item>(nn); h->empty_ = vf_array<bool>(nn);
  vf_touch_(&h->buckets_[0].key, 'i'); vf_touch_(&h->buckets_[0].value, 'i'); vf_touch_(h->empty_, 'b');
  h->bucket_size_ = nn; h->prime_idx_ = pi + 1;
  vf_assume(RI(h, h->buckets_, h->empty_, nn));
  vf_assume(has(h, watch[0]) == p0 && (!p0 || valof(h, watch[0]) == v0));
  vf_assume(has(h, watch[1]) == p1 && (!p1 || valof(h, watch[1]) == v1));
}

// ---- Insert: exactly the map update
extern "C" void H_insert() {
  HT *h = any_table();
  int n = h->bucket_size_;
  vf_assume(h->prime_idx_ < 29 && n == gPrimeNumbers[h->prime_idx_] && 2L * h->size_ <= n);
  vf_assume(RI(h, h->buckets_, h->empty_, n));
  int k = vf_any<int>(), v = vf_any<int>(), q = vf_any<int>();
  bool pk = has(h, k), pq = has(h, q);
  int oldv = valof(h, q), oldsize = h->size_;
  watch[0] = k; watch[1] = q;
  vf_cover("pre");
  h->Insert(k, v);
  vf_cover("post");
  vf_assert(has(h, k) && valof(h, k) == v, "the inserted key is found with its value");
  vf_assert(q == k || has(h, q) == pq, "no other key appears or disappears");
  vf_assert(q == k || !pq || valof(h, q) == oldv, "no other key changes its value");
  vf_assert(2L * h->size_ <= h->bucket_size_ && h->bucket_size_ == gPrimeNumbers[h->prime_idx_], "at most half of the slots are used");
  vf_assert(h->size_ == oldsize + (pk ? 0 : 1), "the number of entries grows exactly for a new key");
  vf_assert(RI(h, h->buckets_, h->empty_, h->bucket_size_), "every stored entry stays reachable");
}

// ---- growth keeps the map: checked body of ExtendBuckets
extern "C" void H_extend() {
  HT *h = any_table();
  int n = h->bucket_size_;
  Item *ob = h->buckets_; bool *oe = h->empty_;
  vf_assume(RI(h, ob, oe, n));
  int q = vf_any<int>();
  bool pq = has(h, q);
  int oldv = valof(h, q), sq = h->Lookup(ob, oe, n, q), oldsize = h->size_;
  int pi = h->prime_idx_;
  int nn = gPrimeNumbers[pi + 1];
  vf_assume(nn >= 1);
  vf_inv("new entries are found where they are", [=](long k) -> bool {
    Item *nb = vf_newest<Item>(); bool *ne = vf_newest<bool>();
    return vf_forall(0, nn, [=](long s) -> bool { return ne[s] | (h->Lookup(nb, ne, nn, nb[s].key) == s); });
  });
  vf_inv("new entries come from the old slots already visited", [=](long k) -> bool {
    Item *nb = vf_newest<Item>(); bool *ne = vf_newest<bool>();
    return vf_forall(0, nn, [=](long s) -> bool {
      int t = h->Lookup(ob, oe, n, nb[s].key);
      return ne[s] | ((t < k) & !oe[t] & (ob[t].key == nb[s].key) & (ob[t].value == nb[s].value));
    });
  });
  vf_inv("old entries already visited are in the new table", [=](long k) -> bool {
    Item *nb = vf_newest<Item>(); bool *ne = vf_newest<bool>();
    return !(pq & (sq < k)) | !ne[h->Lookup(nb, ne, nn, q)];
  });
  vf_cover("pre");
  h->ExtendBuckets();
  vf_cover("post");
  vf_inv_clear();
  vf_assert(h->bucket_size_ == nn && h->prime_idx_ == pi + 1, "the table has the next size");
  vf_assert(has(h, q) == pq, "growing neither loses nor invents a key");
  vf_assert(!pq || valof(h, q) == oldv, "growing keeps every value");
  vf_assert(h->size_ == oldsize, "growing keeps the number of entries");
  vf_assert(RI(h, h->buckets_, h->empty_, h->bucket_size_), "every stored entry stays reachable");
}

// ---- Find
extern "C" void H_find() {
  HT *h = any_table();
  int k = vf_any<int>(), dv = vf_any<int>();
  bool p = has(h, k); int v = valof(h, k);
  vf_cover("pre");
  int r = h->Find(k, dv);
  vf_assert(r == (p ? v : dv), "the stored value, or the default when the key is absent");
  vf_assert(has(h, k) == p && (!p || valof(h, k) == v), "looking up changes nothing");
}

// ---- Clear and construction: the empty map
extern "C" void H_clear() {
  HT *h = any_table();
  int q = vf_any<int>();
  vf_cover("pre");
  h->Clear();
  vf_assert(!has(h, q), "no key is present after clearing");
  vf_assert(h->size_ == 0, "size is zero after clearing");
  vf_assert(RI(h, h->buckets_, h->empty_, h->bucket_size_), "representation invariant");
}
extern "C" void H_ctor() {
  int cap = vf_any<int>(), q = vf_any<int>();
  vf_assume(cap <= 1000000000);
  vf_cover("pre");
  HT h(cap);
  vf_assert(h.bucket_size_ >= cap && h.bucket_size_ >= 1, "capacity");
  vf_assert(!has(&h, q), "a new table is empty");
  vf_assert(h.size_ == 0, "a new table has size zero");
  vf_assert(RI(&h, h.buckets_, h.empty_, h.bucket_size_), "representation invariant");
}

// ---- the size table is positive and grows (so that growing makes room)
extern "C" void H_sizes() {
  for (int i = 0; i < 32; ++i) {
    vf_assert(gPrimeNumbers[i] >= 2, "sizes are positive");
    if (i >= 2) vf_assert(gPrimeNumbers[i] > gPrimeNumbers[i - 1] && gPrimeNumbers[i] / 3 < gPrimeNumbers[i - 1], "sizes grow");
    for (int d = 2; d < 60; ++d) vf_assert(gPrimeNumbers[i] % d != 0 || gPrimeNumbers[i] == d, "sizes have no small divisor");
  }
}
