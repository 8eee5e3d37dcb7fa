// the C interface end to end (C17)
#include "decoder.h"
#include "drv.h"
#include "ce_stt.h"
#include "pcm_reader.h"
#include "fbank.h"
#include "am.h"
#include "symbol_table.h"
#include "configuration.h"
#ifdef DRV_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t live() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t live() { return 0; }
#endif
using namespace pocketkaldi;
typedef std::string S;
static void p32(S &s, int32_t v) { s.append((char *)&v, 4); }
static void pf(S &s, float v) { s.append((char *)&v, 4); }
static S vec(const std::vector<float> &v) { S s("VEC0"); p32(s, v.size() * 4 + 4); p32(s, v.size()); for (float f : v) pf(s, f); return s; }
static S ivec(const std::vector<int> &v) { S s("VEC0"); p32(s, v.size() * 4 + 4); p32(s, v.size()); for (int f : v) p32(s, f); return s; }
static void wr(const S &n, const S &c) { FILE *f = fopen((drv_work + "/" + n).c_str(), "wb"); fwrite(c.data(), 1, c.size(), f); fclose(f); }
struct Model { int P, words, L, R; bool lm; S conf; fst::ConstFst<fst::StdArc> *f; std::vector<int> t2p; };
static std::vector<float> rv(Rng &r, int n, float a) { std::vector<float> v; for (int i = 0; i < n; ++i) v.push_back(r.real(a)); return v; }
static Model make(Rng &r) {
  Model m; m.P = r.range(2, 6); m.words = r.range(2, 6); m.L = r.range(0, 3); m.R = r.range(0, 3); int chunk = r.range(1, 9); m.lm = r.chance(40);
  S n("NN02"); p32(n, m.L); p32(n, m.R); p32(n, 4); n += "LAY0"; p32(n, 6); p32(n, 3); p32(n, -m.L); p32(n, 0); p32(n, m.R); n += "LAY0"; p32(n, 9); p32(n, m.L); p32(n, m.R);
  n += "LAY0"; p32(n, 0); n += "MAT0"; p32(n, 8); p32(n, 120); p32(n, m.P); for (int i = 0; i < 120; ++i) n += vec(rv(r, m.P, 0.05f)); n += vec(rv(r, m.P, 1)); n += "LAY0"; p32(n, 8); wr("nnet", n);
  std::vector<float> pr; for (int i = 0; i < m.P; ++i) pr.push_back((float)(0.05 + r.unit())); wr("prior", vec(pr)); m.t2p.assign(1, 0); for (int i = 0; i < m.P * 2; ++i) m.t2p.push_back(r.below(m.P)); wr("t2p", ivec(m.t2p));
  S sy = "<eps> 0\n"; for (int i = 1; i <= m.words; ++i) sy += "w" + S(r.below(3), 'x') + std::to_string(i) + " " + std::to_string(i) + "\n"; sy += "<s> " + std::to_string(m.words + 1) + "\n</s> " + std::to_string(m.words + 2) + "\n"; wr("sym", sy);
  fst::VectorFst<fst::StdArc> f; int ns = r.range(1, 6); for (int i = 0; i < ns; ++i) f.AddState(); f.SetStart(0); for (int i = 0; i < ns; ++i) { int k = r.range(2, 5); for (int j = 0; j < k; ++j) f.AddArc(i, fst::StdArc(r.range(1, m.P * 2), r.chance(50) ? 0 : r.range(1, m.words), (float)r.unit(), r.below(ns))); if (r.chance(60) || i + 1 == ns) f.SetFinal(i, (float)r.unit()); if (i + 1 < ns && r.chance(30)) f.AddArc(i, fst::StdArc(0, r.chance(50) ? 0 : 1, (float)r.unit(), i + 1)); }
  fst::ConstFst<fst::StdArc> c(f); c.Write(drv_work + "/hclg"); m.f = new fst::ConstFst<fst::StdArc>(f);
  m.conf = S("nnet = nnet\nprior=prior\ntid2pdf = t2p\nfst = hclg\nsymbol_table = ") + (r.chance(50) ? "" : drv_work + "/") + "sym\nleft_context = " + std::to_string(m.L) + "\nright_context = " + std::to_string(m.R) + "\nchunk_size = " + std::to_string(chunk) + "\nnum_pdfs = " + std::to_string(m.P) + "\n";
  if (m.lm) { int ls = 2, na = 0; S b("pk::fst_0"); b.resize(32); S arcs; S idx; for (int s = 0; s < ls; ++s) { p32(idx, na); for (int l = 1; l <= m.words + 2; ++l) { p32(arcs, l == m.words + 2 ? 0 : r.below(ls)); p32(arcs, l); p32(arcs, l); pf(arcs, (float)r.unit()); ++na; } } p32(b, 12 + ls * 8 + na * 16); p32(b, ls); p32(b, na); p32(b, 0); for (int s = 0; s < ls; ++s) pf(b, (float)r.unit()); b += idx + arcs; wr("lm", b); wr("olm", vec(rv(r, m.words + 3, 0.5f))); m.conf += "large_lm = lm\noriginal_lm = olm\n"; }
  wr("conf", m.conf); return m;
}
struct Res { S hyp; float ll; int n; };
static S pcm(Rng &r, int n, int bits) { S s; int st = r.below(3); double f = r.unit() * 2; for (int i = 0; i < n; ++i) { int v = st == 0 ? r.range(-20000, 20000) : st == 1 ? (int)(9000 * sin(f * i) + r.range(-30, 30)) : (int)(7000 * sin(f * i * i / 3000.0)) + r.range(-9, 9); if (bits == 8) s += (char)((v >> 8) + 128); else if (bits == 16) { s += (char)v; s += (char)(v >> 8); } else { int32_t w = v * 65536; s.append((char *)&w, 4); } } return s; }
static Res reference(Model &m, const S &data, ce_wave_format_t f, float scale) {
  Configuration c; CHECKF(c.Read(drv_work + "/conf").ok(), "conf"); AcousticModel am; Status st = am.Read(c); CHECKF(st.ok(), "am %s", st.what().c_str()); SymbolTable sy; CHECKF(sy.Read(drv_work + "/sym").ok(), "sym");
  LmFst lm; Vector<float> ol; std::unique_ptr<DeltaLmFst> d; if (m.lm) { util::ReadableFile a, b; a.Open(drv_work + "/lm"); b.Open(drv_work + "/olm"); CHECKF(lm.Read(&a).ok() && ol.Read(&b).ok(), "lm"); lm.InitBucket0(); d.reset(new DeltaLmFst(&ol, &lm, &sy)); }
  Vector<int32_t> t2p(m.t2p.size()); for (size_t i = 0; i < m.t2p.size(); ++i) t2p(i) = m.t2p[i]; Decoder dec(m.f, t2p, scale, d.get()); dec.Initialize(); WaveReader w; w.SetFormat(f); Vector<float> x; CHECKF(w.Process(data.data(), data.size(), &x).ok(), "wave"); Res o; o.n = x.Dim(); Fbank fb; Fbank::Instance fi; Matrix<float> ft; if (x.Dim()) fb.Process(&fi, x, &ft); AcousticModel::Instance ai; Matrix<float> lp; for (int i = 0; i < ft.NumRows(); ++i) { am.Process(&ai, ft.Row(i), &lp); for (int k = 0; k < lp.NumRows(); ++k) dec.Process(lp.Row(k)); } am.EndOfStream(&ai, &lp); for (int k = 0; k < lp.NumRows(); ++k) dec.Process(lp.Row(k)); dec.EndOfStream(); Decoder::Hypothesis h = dec.BestPath();
  S t; for (size_t i = h.words().size(); i-- > 0;) { t += sy.Get(h.words()[i]); if (i) t += ' '; } o.hyp = t; o.ll = h.weight() / dec.NumFramesDecoded(); return o;
}
static void rest(ce_utt_t *u, const S &d, size_t p, Rng &r, int style, int bits, ce_stt_t *s) {
  while (p < d.size()) { size_t c = style == 0 ? r.range(1, 700) : style == 1 ? r.range(1, 9) * 320 : style == 2 ? r.range(1, 20000) : d.size(); if (c > d.size() - p) c = d.size() - p; drv_log(" %zu", c); char *h = (char *)malloc(c ? c : 1); memcpy(h, d.data() + p, c); int want = (int)((p + c) / (bits / 8) - p / (bits / 8)); int n = ce_stt_process(u, h, c); free(h); CHECKF(n == want, "process returns %d for %d samples", n, want); p += c; if (r.chance(3)) { int z = ce_stt_process(u, "", 0); CHECKF(z <= 0, "process of no byte returns %d", z); } }
}
static void good(Rng &r) {
  Model m = make(r); int bits = r.chance(60) ? 16 : r.chance(50) ? 8 : 32, n = r.chance(8) ? r.range(0, 399) : r.range(400, 12000); ce_wave_format_t f = {1, 16000, bits}; S d = pcm(r, n, bits); drv_begin("recognise %d samples of %d bits, %s language model, left %d right %d, config %s chunks:", n, bits, m.lm ? "with" : "no", m.L, m.R, drv_esc(m.conf).c_str());
  Res w = reference(m, d, f, 0.1f); size_t l0 = live(); { char cf[4096]; snprintf(cf, sizeof cf, "%s/conf", drv_work.c_str()); ce_stt_t *s = ce_stt_init(cf); CHECKF(s, "ce_stt_init fails: %s", ce_stt_last_error()); ce_stt_t *s2 = r.chance(15) ? ce_stt_init(cf) : 0; float first = 0; int k = r.range(1, 3); for (int i = 0; i < k; ++i) { ce_utt_t *u = ce_utt_init(s, &f), *o = 0; CHECKF(u && u->hyp && u->hyp[0] == 0, "ce_utt_init"); if (r.chance(40)) { o = ce_utt_init(s2 ? s2 : s, &f); S x = pcm(r, 3000, bits); ce_stt_process(o, x.data(), x.size()); drv_log(" (other utterance)"); } rest(u, d, 0, r, r.below(4), bits, s); if (o) { S x = pcm(r, 2000, bits); ce_stt_process(o, x.data(), x.size()); if (r.chance(50)) ce_stt_end_of_stream(o); } ce_stt_end_of_stream(u); CHECKF(w.hyp == u->hyp, "hypothesis '%s' instead of '%s'", u->hyp, w.hyp.c_str()); if (!w.hyp.empty() && std::isfinite(w.ll)) CHECKF(fabs(u->loglikelihood_per_frame - w.ll) <= 1e-3 * (1 + fabs(w.ll)), "score %g instead of %g", u->loglikelihood_per_frame, w.ll); if (!i) first = u->loglikelihood_per_frame; else CHECKF(!std::isfinite(first) || fabs(u->loglikelihood_per_frame - first) <= 1e-3 * (1 + fabs(first)), "score %g after %g for the same audio", u->loglikelihood_per_frame, first); ce_utt_destroy(u); if (o) ce_utt_destroy(o); drv_log(";"); } if (s2) ce_stt_destroy(s2); ce_stt_destroy(s); }
  static int warm = 0; size_t l1 = live(); if (warm++ > 3) CHECKF(l1 <= l0, "%zu bytes are still held after everything was destroyed", l1 - l0); delete m.f; drv_end();
}
static void noerr() { char *e = const_cast<char *>(ce_stt_last_error()); strcpy(e, ""); }
static void fails(ce_stt_t *s, const char *what) { const char *e = ce_stt_last_error(); CHECKF(!s, "%s accepted", what); CHECKF(e && *e && strlen(e) < 2048, "%s: no error message", what); }
static void bad(Rng &r) {
  Model m = make(r); char cf[4096]; snprintf(cf, sizeof cf, "%s/conf", drv_work.c_str()); delete m.f; noerr(); static int warm[10]; size_t l0 = live(); int t = r.below(9); const char *keys[] = {"nnet", "prior", "tid2pdf", "fst", "symbol_table", "left_context", "right_context", "chunk_size", "num_pdfs", "original_lm"};
  if (t == 0) { drv_begin("missing configuration file"); fails(ce_stt_init((drv_work + "/nothing").c_str()), "missing configuration"); }
  else if (t == 1) { const char *k = keys[r.below(m.lm ? 10 : 9)]; drv_begin("configuration without key %s", k); S c, l; for (size_t p = 0; p < m.conf.size();) { size_t q = m.conf.find('\n', p); l = m.conf.substr(p, q - p); p = q + 1; if (l.compare(0, strlen(k), k) || (l[strlen(k)] != ' ' && l[strlen(k)] != '=')) c += l + "\n"; } wr("conf", c); fails(ce_stt_init(cf), "incomplete configuration"); }
  else if (t == 2) { const char *fs[] = {"nnet", "prior", "t2p", "sym", "hclg", "lm", "olm"}; const char *k = fs[r.below(m.lm ? 7 : 5)]; drv_begin("missing file %s", k); unlink((drv_work + "/" + k).c_str()); fails(ce_stt_init(cf), "missing model file"); }
  else if (t == 3) { const char *fs[] = {"nnet", "prior", "t2p", "lm", "olm"}; const char *k = r.chance(25) ? "hclg" : fs[r.below(m.lm ? 5 : 3)]; S b; FILE *f = fopen((drv_work + "/" + k).c_str(), "rb"); char q[100000]; size_t n = fread(q, 1, sizeof q, f); fclose(f); size_t cut = r.below(n); drv_begin("file %s cut at %zu of %zu", k, cut, n); wr(k, S(q, cut)); fails(ce_stt_init(cf), "damaged model file"); }
  else if (t == 4) { const char *k = keys[5 + r.below(4)]; drv_begin("key %s with a value that is no number", k); S c = m.conf; size_t p = c.find(k), e = c.find('\n', p); c.replace(p, e - p, S(k) + " = abc"); wr("conf", c); fails(ce_stt_init(cf), "configuration with a wrong number"); }
  else {
    drv_begin("utterance errors"); ce_stt_t *s = ce_stt_init(cf); CHECKF(s, "ce_stt_init fails: %s", ce_stt_last_error()); noerr(); ce_wave_format_t f = {1, 16000, 16}; int w = r.below(3); if (w == 0) f.num_channels = r.chance(50) ? 2 : r.range(-1, 0); if (w == 1) f.sample_rate = r.chance(50) ? 8000 : r.range(0, 48000); if (f.sample_rate == 16000 && w == 1) f.sample_rate = 1; if (w == 2) f.bits_per_sample = r.chance(50) ? 24 : r.range(-8, 7); ce_utt_t *u = ce_utt_init(s, &f); drv_log(" channels %d rate %d bits %d", f.num_channels, f.sample_rate, f.bits_per_sample); CHECKF(!u, "format accepted"); CHECKF(*ce_stt_last_error(), "no message"); noerr();
    CHECKF(ce_stt_process(NULL, "ab", 2) == CE_STT_FAILED, "process of a null utterance"); CHECKF(*ce_stt_last_error(), "no message"); drv_log(" end of stream of a null utterance"); ce_stt_end_of_stream(NULL); { ce_wave_format_t g = {1, 16000, 16}; ce_utt_t *v = ce_utt_init(s, &g); CHECKF(v, "ce_utt_init"); noerr(); drv_log(" negative size"); CHECKF(ce_stt_process(v, "ab", -1) == CE_STT_FAILED, "a negative size is accepted"); CHECKF(*ce_stt_last_error(), "no message"); noerr(); drv_log(" null data"); CHECKF(ce_stt_process(v, NULL, 2) == CE_STT_FAILED, "null data accepted"); CHECKF(*ce_stt_last_error(), "no message"); ce_utt_t z = {0, 0, 0}; noerr(); CHECKF(ce_stt_process(&z, "ab", 2) == CE_STT_FAILED, "utterance without content accepted"); CHECKF(*ce_stt_last_error(), "no message"); ce_utt_destroy(v); noerr(); }
    ce_wave_format_t q; FILE *z = fopen((drv_work + "/sym").c_str(), "rb"); CHECKF(ce_read_pcm_header(z, &q) == NULL, "a text file has a wave header"); CHECKF(*ce_stt_last_error(), "no message"); fclose(z);
    S h("RIFF"); p32(h, 36); h += "WAVEfmt "; p32(h, 16); h += S("\1\0\1\0", 4); p32(h, 16000); p32(h, 32000); h += S("\2\0\20\0", 4); h += "data"; p32(h, 0); wr("wav", h + "xxxx"); z = fopen((drv_work + "/wav").c_str(), "rb"); ce_wave_format_t *g = ce_read_pcm_header(z, &q); CHECKF(g == &q && q.num_channels == 1 && q.sample_rate == 16000 && q.bits_per_sample == 16, "wave header: %s", g ? "wrong content" : ce_stt_last_error()); CHECKF(ftell(z) == (long)h.size(), "position %ld after the header", ftell(z)); fclose(z); ce_stt_destroy(s);
  }
  size_t l1 = live(); if (t > 5) t = 5; if (warm[t]++ > 1) CHECKF(l1 <= l0, "%zu bytes are still held after the failure", l1 - l0);
  drv_end();
}
void drv_main(uint64_t seed) { Rng r(seed); std::cerr.setstate(std::ios_base::failbit); std::cout.setstate(std::ios_base::failbit); while (drv_time()) { good(r); bad(r); } }
