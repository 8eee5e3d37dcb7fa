// Trim, Split, Tolower, StringToLong and ReadLine for every string and every file.
// A std::string is its characters and their number; its members by contract.
#include "vfio.h"
#include "util.cc"
using namespace pocketkaldi;
struct S { char *p; long n; };
extern "C" char *SC_sbegin(S *s) { return s->p; }
extern "C" char *SC_send(S *s) { return s->p + s->n; }
extern "C" long SC_ssize(S *s) { return s->n; }
extern "C" bool SC_sempty(S *s) { return s->n <= 0; }   // sizes are not negative
extern "C" char *SC_scstr(S *s) { return s->p; }
extern "C" char *SC_sback(S *s) { vf_assert(s->n > 0, "the last character of a string that is not empty"); return s->p + (s->n - 1); }
extern "C" void SC_spop(S *s) { vf_assert(s->n > 0, "the last character of a string that is not empty"); s->n = s->n - 1; }
static char *gStr; static long gN;
static S *any_str() {
  S *s = vf_array<S>(1); gN = vf_any<int>(); vf_assume((0 <= gN) & (gN < 2000000000));
  gStr = vf_array<char>(gN + 1); vf_touch_(gStr, 'b'); vf_assume(gStr[gN] == 0);
  s->p = gStr; s->n = gN; return s;
}
static bool space(int c) { return (c == 32) | ((9 <= c) & (c <= 13)); }
extern "C" int SC_isspace(int c) { return space(c); }
extern "C" int SC_tolower(int c) { return ((c >= 'A') & (c <= 'Z')) ? c + 32 : c; }
// construction from a range of a string that is not modified any more: the same characters
extern "C" void SC_srange(S *s, char *b, char *e) { vf_assert(b <= e, "a range"); vf_assert((gStr <= b) & (e <= gStr + gN), "a range of the string"); s->p = b; s->n = e - b; }
// ... of its own characters
extern "C" void SC_scopy(S *s, char *b, char *e) {
  vf_assert((b == gStr) & (e == gStr + gN), "the whole string");
  long n = e - b; char *d = vf_array<char>(n + 1), *a = gStr; vf_touch_(d, 'b');
  vf_assume(vf_forall(0, n + 1, [=](long i) -> bool { return d[i] == a[i]; }));
  s->p = d; s->n = n;
}
extern "C" void H_trim() {
  S *s = any_str(); char *a = gStr; long n = gN;
  long i = vf_any<int>(); vf_assume((0 <= i) & (i < n));
  bool si = space(a[i]);
  vf_inv("inside the string", [=](long k) -> bool { return k <= n; });
  vf_inv("white space in front", [=](long k) -> bool { return (k <= i) | si; });
  vf_inv("white space behind", [=](long k) -> bool { return (n - 1 - k >= i) | si; });
  vf_cover("pre");
  std::string r = util::Trim(*(std::string *)s);
  vf_inv_clear();
  S *o = (S *)&r; long from = o->p - a, to = from + o->n;
  vf_assert((0 <= from) & (from <= to) & (to <= n), "a part of the string");
  vf_assert(((from <= i) & (i < to)) | si, "only white space is left out");
  if (o->n > 0) vf_assert(!space(a[from]) & !space(a[to - 1]), "no white space at either end");
}
extern "C" void H_lower() {
  S *s = any_str(); char *a = gStr; long n = gN;
  vf_cover("pre");
  std::string r = util::Tolower(*(std::string *)s);
  S *o = (S *)&r;
  vf_assert(o->n == n, "as long as the string");
  long i = vf_any<int>(); vf_assume((0 <= i) & (i < n));
  vf_assert(o->p[i] == (((a[i] >= 'A') & (a[i] <= 'Z')) ? a[i] + 32 : a[i]), "each character in lower case");
  vf_assert(gStr == a, "the string is unchanged");
}
// ---- StringToLong: Trim by the contract above, strtol by contract
static S gTrim; static long gVal, gEnd; static int gErr; static bool gRange;
extern "C" void SC_trim(S *out, S *in) { vf_assert(in->p == gStr && in->n == gN, "the given string"); out->p = gTrim.p; out->n = gTrim.n; }
extern "C" int *SC_errno() { return &gErr; }
extern "C" long SC_strtol(char *p, char **end, int base) {
  vf_assert(p == gTrim.p && base == 0, "the number at the start of the trimmed string");
  *end = p + gEnd; if (gRange) gErr = 34; return gVal;
}
extern "C" void H_number() {
  S *s = any_str();
  gTrim.n = vf_any<int>(); vf_assume((0 <= gTrim.n) & (gTrim.n < 2000000000)); gTrim.p = vf_array<char>(gTrim.n + 1); vf_touch_(gTrim.p, 'b');
  char *t = gTrim.p; long tn = gTrim.n; vf_assume(t[tn] == 0);
  vf_assume(vf_forall(0, tn, [=](long i) -> bool { return t[i] != 0; }));
  gVal = vf_any<long>(); gEnd = vf_any<long>(); gRange = vf_any<bool>(); gErr = vf_any<int>();
  vf_assume((0 <= gEnd) & (gEnd <= tn));
  long v = vf_any<long>();
  vf_cover("pre");
  Status st = util::StringToLong(*(std::string *)s, &v);
  vf_assert((st.code_ == 0) == ((gEnd > 0) & (gEnd == tn) & !gRange), "accepted exactly when the whole trimmed text is one number in range");
  if (st.code_ == 0) { vf_cover("accepted"); vf_assert(v == gVal, "its value"); }
}
// ---- Split. P[0..m) are the places of the delimiter met from left to right: P[k] is the first one at or behind start(k), the end of
// the previous one, and there is none at or behind start(m). find() by contract gives exactly these.
static S *gDel; static long *gP; static long gPn, gFind, gM;
static long *gFrom, *gTo; static long gFields; static void *gVec;
static long start(long k) { return k == 0 ? 0 : gP[k - 1] + gM; }
extern "C" unsigned long SC_find(S *s, S *d, unsigned long pos) {
  vf_assert(s->p == gStr && s->n == gN && d == gDel, "the delimiter in the string");
  vf_assert((long)pos == start(gFind), "searched behind the previous delimiter");
  unsigned long r = gFind < gPn ? (unsigned long)gP[gFind] : -1UL;
  ++gFind;
  return r;
}
extern "C" void SC_vecnew(void *v) { gVec = v; gFields = 0; }
extern "C" void SC_vecdel(void *v) {}
extern "C" void SC_emplace(void *v, char **b, char **e) {
  vf_assert(v == gVec, "the result");
  char *x = *b, *y = *e;
  vf_assert((gStr <= x) & (x <= y) & (y <= gStr + gN), "a range of the string");
  gFrom[gFields] = x - gStr; gTo[gFields] = y - gStr; ++gFields;
}
extern "C" void H_split() {
  S *s = any_str(); long n = gN;
  S *d = gDel = vf_array<S>(1); gM = vf_any<int>(); vf_assume((0 < gM) & (gM < 1000000)); d->n = gM;
  gPn = vf_any<int>(); vf_assume((0 <= gPn) & (gPn < 2000000000)); gFind = 0;
  long *P = gP = vf_array<long>(4000000000L); vf_touch_(P, 'l'); long m = gPn, M = gM;
  gFrom = vf_array<long>(4000000000L); gTo = vf_array<long>(4000000000L); vf_touch_(gFrom, 'l'); vf_touch_(gTo, 'l');
  vf_assume(vf_forall(0, m, [=](long k) -> bool { return (P[k] >= 0) & (P[k] + M <= n); }));
  vf_assume(vf_forall(1, m, [=](long k) -> bool { return P[k] >= P[k - 1] + M; }));
  long i = vf_any<int>(); vf_assume((0 <= i) & (i <= m));
  vf_inv("one field for each delimiter", [=](long k) -> bool { return (gFind == k) & (gFields == k) & (k <= m); });
  vf_inv("behind the delimiters so far", [=](long k) -> bool { return (start(k) >= 0) & (start(k) <= n); });
  vf_inv("field i", [=](long k) -> bool { return (k <= i) | ((gFrom[i] == start(i)) & (gTo[i] == P[i])); });
  vf_cover("pre");
  std::vector<std::string> r = util::Split(*(std::string *)s, *(std::string *)d);
  vf_inv_clear();
  long last = start(m);
  vf_assert(gVec == (void *)&r, "the result");
  vf_assert(gFields == m + (last < n), "one field for each delimiter, and one for a rest that is not empty");
  if (i < gFields) { vf_cover("a field"); vf_assert((gFrom[i] == start(i)) & (gTo[i] == (i < m ? P[i] : n)), "field i lies between delimiter i - 1 and delimiter i"); }
}
// ---- ReadLine: fgets, feof and strlen by contract on a text file (no zero bytes)
static char *gChunk; static long gCap; static long gCf, gCt; static bool gEof;
extern "C" int SC_feof(FILE *f) { vf_assert(f == gFd->fd_, "this file"); return gEof; }
extern "C" char *SC_fgets(char *c, int size, FILE *f) {
  vf_assert(f == gFd->fd_ && size > 1 && (!gChunk || (c == gChunk && size == gCap)), "a line from this file into the buffer");
  if (!gChunk) { gChunk = c; gCap = size; }
  if (gPos >= gLen) { gEof = true; return nullptr; }
  long p = gPos, e = vf_any<long>(); char *B = gByte;
  vf_assume((p < e) & (e <= gLen) & (e <= p + size - 1));
  vf_assume(vf_forall(p, e - 1, [=](long i) -> bool { return B[i] != '\n'; }));
  bool nl = B[e - 1] == '\n', full = e == p + size - 1;
  vf_assume(nl | full | (e == gLen));
  if (!nl & !full) gEof = true;
  vf_havoc_array_(c);
  vf_assume(vf_forall(0, e - p, [=](long i) -> bool { return c[i] == B[p + i]; }));
  c[e - p] = 0;
  gCf = p; gCt = e; gPos = e;
  return c;
}
static bool chunk_ok(char *c) {
  char *B = gByte; long f = gCf, n = gCt - gCf;
  return (c[n] == 0) & vf_forall(0, n, [=](long i) -> bool { return c[i] == B[f + i]; });
}
extern "C" unsigned long SC_strlen(char *c) { vf_assert(c == gChunk && chunk_ok(c), "the text read last"); return gCt - gCf; }
extern "C" S *SC_sassign(S *s, char *c) { vf_assert(c == gChunk && chunk_ok(c), "the text read last"); s->p = gByte + gCf; s->n = gCt - gCf; return s; }
extern "C" S *SC_sappend(S *s, char *c) {
  vf_assert(c == gChunk && chunk_ok(c), "the text read last");
  vf_assert(s->p + s->n == gByte + gCf, "appended behind the text in front of it");
  s->n = s->n + (gCt - gCf); return s;
}
extern "C" void H_line() {
  File *f = any_file(); long p = gPos, len = gLen; char *B = gByte;
  vf_assume(vf_forall(0, len, [=](long i) -> bool { return B[i] != 0; }));
  bool eof = gEof = vf_any<bool>(); vf_assume(!eof | (p == len)); gChunk = nullptr;
  S *l = vf_array<S>(1); l->p = vf_array<char>(1); l->n = 0;
  Status st; st.code_ = 0;
  long j = vf_any<long>(); vf_assume((p <= j) & (j < len)); char cj = B[j];
  long q = vf_any<long>(); vf_assume((p <= q) & (q < len)); bool lq = (B[q] == '\n') | (B[q] == '\r');
  vf_inv("text read so far", [=](long k) -> bool { return (gPos == gCt) & (p <= gCf) & (gCf < gCt) & (gCt - gCf < gCap) & (gCt <= len) & (l->n == gCt - p); });
  vf_inv("the buffer holds the text read last", [=](long k) -> bool { return chunk_ok(gChunk); });
  vf_inv("no line end before", [=](long k) -> bool { return (j >= gCt - 1) | (cj != '\n'); });
  vf_inv("a short text ends the line", [=](long k) -> bool { return (gCt - gCf == gCap - 1) | (B[gCt - 1] == '\n') | (gCt == len); });
  vf_inv("end of file", [=](long k) -> bool { return gEof == ((gCt == len) & (gCt - gCf < gCap - 1) & (B[gCt - 1] != '\n')); });
  vf_cover("pre");
  bool r = f->ReadLine((std::string *)l, &st);
  vf_inv_clear();
  vf_assert(r == (!eof & (p < len)), "a line is returned exactly when there is one");
  vf_assert((st.code_ != 0) == eof, "an error exactly for a call after the end was reported");
  if (r) {
    vf_cover("line");
    long e = gPos, n = l->n;
    vf_assert(p < e && e <= len && (j >= e - 1 || cj != '\n') && (B[e - 1] == '\n' || e == len), "the line ends behind the next line end or at the end of the file");
    vf_assert(gEof == ((e == len) & (B[e - 1] != '\n')), "the end is noticed exactly when the last line has no line end");
    vf_assert(l->p == B + p && 0 <= n && n <= e - p, "the text from the position on");
    vf_assert(q < p + n || q >= e || lq, "only line end characters are left out");
    if (n > 0) vf_assert(B[p + n - 1] != '\n' && B[p + n - 1] != '\r', "no line end is kept");
  }
}
