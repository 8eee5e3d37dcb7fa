// Specification vocabulary of the verifier (engine/models.py gives the meaning).
#ifndef VF_H_
#define VF_H_
#include <stddef.h>
#include <stdint.h>
#include <assert.h>
#include <new>
extern "C" {
void vf_assume(bool c);
void vf_assert(bool c, const char *name);
void vf_cover(const char *name);
bool vf_forall_(long lo, long hi, void *fn, void *clo);
bool vf_exists_(long lo, long hi, void *fn, void *clo);
void vf_inv_(int kind, void *fn, void *clo, const char *name);
void vf_inv_clear();
void *vf_array_(long n, long size);
void *vf_heap_(long n, long size);
void *vf_snapshot_(const void *p);
void vf_touch_(const void *p, int kind);
void vf_ptrfield_(const void *p, const void *family);
void vf_constfield_(const void *p, const void *v);
void vf_havoc_array_(void *p);
bool vf_same_object(const void *a, const void *b);
bool vf_alive(const void *a);
bool vf_forall2_(long lo, long hi, void *fn, void *clo);
long vf_gget(int id, long key);           // ghost maps
void vf_gset(int id, long key, long v);
void vf_trig(long i);
void *vf_newest_(long size);
long vf_count_(const void *p, long size);
}
template <class T> T vf_any();
template <class F> bool vf_call1(const F *f, long i) { return (*f)(i); }
template <class F> bool vf_forall(long lo, long hi, const F &f) { return vf_forall_(lo, hi, (void *)&vf_call1<F>, (void *)&f); }
template <class F> bool vf_callq(const F *f, long i, long j) { return (*f)(i, j); }
template <class F> bool vf_forall2(long lo, long hi, const F &f) { return vf_forall2_(lo, hi, (void *)&vf_callq<F>, (void *)&f); }
template <class T> T *vf_newest() { return (T *)vf_newest_(sizeof(T)); }
template <class F> bool vf_exists(long lo, long hi, const F &f) { return vf_exists_(lo, hi, (void *)&vf_call1<F>, (void *)&f); }
// candidate loop invariants: tried on every loop that is cut, kept only when proved inductive
template <class F> void vf_inv(const char *n, const F &f) { vf_inv_('k', (void *)&vf_call1<F>, (void *)&f, n); }
template <class F> bool vf_call2i(const F *f, long k, int v) { return (*f)(k, v); }
template <class F> void vf_inv_i(const char *n, const F &f) { vf_inv_('i', (void *)&vf_call2i<F>, (void *)&f, n); }
template <class F> bool vf_call2f(const F *f, long k, float v) { return (*f)(k, v); }
template <class F> void vf_inv_f(const char *n, const F &f) { vf_inv_('f', (void *)&vf_call2f<F>, (void *)&f, n); }
template <class F> bool vf_call2p(const F *f, long k, void *v) { return (*f)(k, v); }
template <class F> void vf_inv_p(const char *n, const F &f) { vf_inv_('p', (void *)&vf_call2p<F>, (void *)&f, n); }
// two loop variables at a time
template <class F> bool vf_call3pi(const F *f, long k, void *v, long w) { return (*f)(k, v, w); }
template <class F> void vf_inv_pi(const char *n, const F &f) { vf_inv_('q', (void *)&vf_call3pi<F>, (void *)&f, n); }
template <class F> bool vf_call3ii(const F *f, long k, long v, long w) { return (*f)(k, v, w); }
template <class F> void vf_inv_ii(const char *n, const F &f) { vf_inv_('j', (void *)&vf_call3ii<F>, (void *)&f, n); }
template <class F> bool vf_call3pp(const F *f, long k, void *v, void *w) { return (*f)(k, v, w); }
template <class F> void vf_inv_pp(const char *n, const F &f) { vf_inv_('r', (void *)&vf_call3pp<F>, (void *)&f, n); }
// with the iteration counts of the enclosing loops that are being cut (inner first)
template <class F> bool vf_call2o(const F *f, long k, long k1) { return (*f)(k, k1); }
template <class F> void vf_inv_o(const char *n, const F &f) { vf_inv_('o', (void *)&vf_call2o<F>, (void *)&f, n); }
template <class F> bool vf_call3o(const F *f, long k, long k1, long k2) { return (*f)(k, k1, k2); }
template <class F> void vf_inv_oo(const char *n, const F &f) { vf_inv_('t', (void *)&vf_call3o<F>, (void *)&f, n); }
template <class T> T *vf_array(long n) { return (T *)vf_array_(n, sizeof(T)); }
template <class T> T *vf_heap(long n) { return (T *)vf_heap_(n, sizeof(T)); }
template <class T> T *vf_snapshot(const T *p) { return (T *)vf_snapshot_((const void *)p); }
template <class T> long vf_count(const T *p) { return vf_count_((const void *)p, sizeof(T)); }
inline bool vf_implies(bool a, bool b) { return (!a) | b; }
#endif
