// wave stream decoding (PROP 8) and wave file headers (PROP 9)
#include "drv.h"
#include "pcm_reader.h"
using namespace pocketkaldi;
typedef std::string S;
static std::vector<double> decode(const S &b, int bits) { std::vector<double> o; int n = bits / 8; for (size_t i = 0; i + n <= b.size(); i += n) { uint32_t v = 0; for (int k = 0; k < n; ++k) v |= (uint32_t)(unsigned char)b[i + k] << (8 * k); int64_t x = v; if (bits == 8) x -= 128; else if (v >> (bits - 1)) x -= (int64_t)1 << bits; o.push_back((double)(float)x); } return o; }
static S rb(Rng &r, int n) { S s; int k = r.below(3); for (int i = 0; i < n; ++i) s.push_back((char)(k == 0 ? r.below(256) : k == 1 ? (r.chance(50) ? 0xff : 0x80) : (i & 1) ? 0x7f : 0xff)); return s; }
static void stream(Rng &r) {
  int bits[] = {8, 16, 32}; int b = bits[r.below(3)]; ce_wave_format_t f = {1, 16000, b}; WaveReader w;
  drv_begin("WaveReader %d bits:", b);
  if (r.chance(20)) { Vector<float> v; Status st = w.Process("abcd", 4, &v); CHECKF(!st.ok(), "data accepted before a format is set"); }
  Status st = w.SetFormat(f); CHECKF(st.ok(), "16 kHz mono %d bits is rejected", b);
  int rounds = r.range(1, 3);
  while (rounds--) {
    S all; std::vector<double> got; int nc = r.range(1, r.chance(10) ? 60 : 8);
    for (int c = 0; c < nc; ++c) {
      int k = r.below(12);
      Vector<float> v; if (r.chance(30)) v.Resize(r.range(1, 9));
      if (k == 0) { drv_log(" bad(size %d)", -c); Status q = w.Process("abcd", -c, &v); CHECKF(!q.ok(), "size %d accepted", -c); continue; }
      if (k == 1) { drv_log(" bad(null)"); Status q = w.Process(nullptr, 4, &v); CHECKF(!q.ok(), "null data accepted"); continue; }
      if (k == 2) { ce_wave_format_t g = {2, 16000, 16}; if (r.chance(50)) { g.num_channels = 1; g.sample_rate = 8000; } else if (r.chance(50)) { g.num_channels = 1; g.bits_per_sample = 24; } drv_log(" badformat"); Status q = w.SetFormat(g); CHECKF(!q.ok(), "unsupported format accepted"); continue; }
      int n = r.range(1, r.chance(15) ? 3000 : 11); S d = rb(r, n); drv_log(" %d", n); size_t before = all.size() / (b / 8); all += d;
      char *heap = (char *)malloc(n); memcpy(heap, d.data(), n); Status q = w.Process(heap, n, &v); free(heap);
      CHECKF(q.ok(), "chunk of %d bytes rejected: %s", n, q.what().c_str()); CHECKF((size_t)v.Dim() == all.size() / (b / 8) - before, "%d samples from this chunk instead of %zu", v.Dim(), all.size() / (b / 8) - before);
      for (int i = 0; i < v.Dim(); ++i) got.push_back(v(i));
      CHECKF(memcmp(d.data(), d.data(), n) == 0, "input changed");
    }
    std::vector<double> e = decode(all, b); CHECKF(e.size() == got.size(), "%zu samples instead of %zu", got.size(), e.size());
    for (size_t i = 0; i < e.size(); ++i) CHECKF(e[i] == got[i], "sample %zu is %g instead of %g", i, got[i], e[i]);
    w.Reset(); drv_log(" reset");
  }
  drv_end();
}
static void formats(Rng &r) {
  int ch = r.chance(60) ? 1 : r.range(-2, 4), sr = r.chance(60) ? 16000 : (r.chance(50) ? 8000 : r.range(-5, 48000)); int bb[] = {8, 16, 32, 24, 0, -8, 64, 1, 17, 15, 33, 7}; int b = bb[r.below(12)]; ce_wave_format_t f = {ch, sr, b};
  bool good = ch == 1 && sr == 16000 && (b == 8 || b == 16 || b == 32); drv_begin("SetFormat(%d channels, %d Hz, %d bits)", ch, sr, b); WaveReader w; Status st = w.SetFormat(f); CHECKF(st.ok() == good, "status %s", st.ok() ? "ok" : "error");
  Vector<float> v; Status q = w.Process("\1\2\3\4\5\6\7\10", 8, &v); CHECKF(q.ok() == good, "processing after %s format gives %s", good ? "a good" : "a rejected", q.ok() ? "ok" : "error"); drv_end();
}
static void p32(S &s, int32_t v) { s.append((char *)&v, 4); }
static void p16(S &s, int v) { int16_t x = v; s.append((char *)&x, 2); }
static void header(Rng &r) {
  int ch = r.chance(70) ? 1 : r.range(1, 8), bits = r.chance(60) ? 16 : r.range(1, 4) * 8, sr = r.chance(60) ? 16000 : r.range(1, 96000), align = ch * bits / 8, rate = sr * align, fmt = 1, sub = 16; S id[4] = {"RIFF", "WAVE", "fmt ", "data"}; bool good = true;
  int kind = r.below(10);
  if (kind == 0) { id[r.below(4)][r.below(4)] ^= 1 << r.below(7); good = false; } else if (kind == 1) { sub = r.chance(50) ? 18 : r.range(-1, 15); good = false; } else if (kind == 2) { fmt = r.chance(50) ? 3 : r.range(-3, 0); good = false; }
  else if (kind == 3) { int d = r.chance(50) ? 1 : (r.chance(50) ? rate : -1); rate += d; good = false; } else if (kind == 4) { align += r.chance(50) ? 1 : align; good = false; } else if (kind == 5) { if (r.chance(50)) { sr = r.chance(50) ? 0x7fffffff : 0x10000001 * 4; bits = 32; ch = 2; align = 8; rate = (int)((long)sr * align); good = rate == (long)sr * align; } }
  S s = id[0]; p32(s, r.range(0, 100000)); s += id[1]; s += id[2]; p32(s, sub); p16(s, fmt); p16(s, ch); p32(s, sr); p32(s, rate); p16(s, align); p16(s, bits); s += id[3]; p32(s, r.range(0, 1000)); S body = rb(r, 20);
  drv_begin("ReadPcmHeader %d channels %d Hz %d bits rate %d align %d format %d sub %d ids %s", ch, sr, bits, rate, align, fmt, sub, drv_esc(id[0] + id[1] + id[2] + id[3]).c_str());
  S all = s + body; size_t cut = all.size(); if (kind == 6) { cut = r.below(44); good = false; drv_log(" truncated at %zu", cut); }
  FILE *f = cut ? fmemopen((void *)all.data(), cut, "rb") : fopen("/dev/null", "rb"); ce_wave_format_t w = {-7, -7, -7}; util::ReadableFile rf(f); Status st = ReadPcmHeader(&rf, &w);
  CHECKF(st.ok() == good, "status %s (%s) for %s header", st.ok() ? "ok" : "error", st.what().c_str(), good ? "a well-formed" : "a damaged");
  if (good) { CHECKF(w.num_channels == ch && w.sample_rate == sr && w.bits_per_sample == bits, "format %d channels %d Hz %d bits", w.num_channels, w.sample_rate, w.bits_per_sample); CHECKF(ftell(f) == 44, "position %ld instead of the first data byte", ftell(f)); }
  fclose(f); drv_end();
  if (r.chance(20)) {   // whole file
    int n = r.range(0, 30); S data = rb(r, n); S t = s + data; S fn = drv_work + "/t.wav"; FILE *o = fopen(fn.c_str(), "wb"); fwrite(t.data(), 1, t.size(), o); fclose(o); drv_begin("Read16kPcm: %d channels %d Hz %d bits, %d data bytes, header %s", ch, sr, bits, n, good || kind == 6 ? "good" : "damaged");
    Vector<float> v; Status q = Read16kPcm(fn.c_str(), &v); bool ok = (good || kind == 6) && ch == 1 && sr == 16000 && (bits == 8 || bits == 16 || bits == 32) && n > 0; CHECKF(q.ok() == ok, "status %s", q.ok() ? "ok" : "error");
    if (ok) { std::vector<double> e = decode(data, bits); CHECKF(v.Dim() == (int)e.size(), "%d samples instead of %zu", v.Dim(), e.size()); for (size_t i = 0; i < e.size(); ++i) CHECKF(v(i) == e[i], "sample %zu", i); }
    drv_end();
  }
}
void drv_main(uint64_t seed) { Rng r(seed); while (drv_time()) { if (PROP == 8) { stream(r); formats(r); } else header(r); } }
