// configuration files (PROP=18); string helpers, lines and the symbol table (PROP=19)
#include "drv.h"
#include "configuration.h"
#include "symbol_table.h"
#include "util.h"
using namespace pocketkaldi;
#ifndef PROP
#define PROP 19
#endif
static std::string file(const std::string &content, const char *name) { std::string p = drv_work + "/" + name; FILE *f = fopen(p.c_str(), "wb"); fwrite(content.data(), 1, content.size(), f); fclose(f); return p; }
static std::string word(Rng &r, const char *al, int n) { std::string s; int k = strlen(al); for (int i = 0; i < n; ++i) s += al[r.below(k)]; return s; }
static std::string sp(Rng &r) { return word(r, " \t", r.chance(60) ? 0 : r.range(1, 3)); }
static std::string low(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static void conf(Rng &r) {
  std::map<std::string, std::string> m; std::string txt; int n = r.range(0, 8); bool bad = false; const char *al = "abcXYZ_09";
  for (int i = 0; i < n; ++i) {
    int t = r.below(20);
    if (t == 0) txt += sp(r) + "# " + word(r, "a= #", 5); else if (t == 1) txt += sp(r);
    else if (t == 2 && r.chance(30)) { txt += word(r, al, 3) + (r.chance(30) ? " = = x" : r.chance(50) ? "" : r.chance(50) ? " = " : "=a=b"); bad = true; }
    else { std::string k = word(r, al, r.range(1, 3)), v = r.chance(35) ? std::to_string(r.range(-2000, 2000)) : r.chance(30) ? "/" + word(r, "ab/.", 5) + "x" : word(r, "abc/._ -#$", r.chance(4) ? r.range(4050, 9000) : r.range(0, 9)); v = "v" == v ? v : v; while (!v.empty() && v[0] == ' ') v.erase(0, 1); while (!v.empty() && v.back() == ' ') v.pop_back(); if (v.empty()) v = "q"; txt += sp(r) + k + sp(r) + "=" + sp(r) + v + sp(r); m[low(k)] = v; }
    if (i + 1 < n || r.chance(70)) txt += r.chance(20) ? "\r\n" : "\n";
  }
  drv_begin("configuration: %s", drv_esc(txt.substr(0, 600)).c_str()); std::string p = file(txt, "c.conf"); Configuration c; Status st = c.Read(p); CHECKF(st.ok() == !bad, "status %s: %s", st.ok() ? "ok" : "error", st.what().c_str()); if (bad) { drv_end(); return; }
  for (int i = 0; i < 12; ++i) {
    std::string k = i < 6 && !m.empty() ? std::next(m.begin(), r.below(m.size()))->first : word(r, al, r.range(1, 3)); std::string q = k; if (r.chance(50)) for (auto &ch : q) if (r.chance(50)) ch = toupper(ch); auto it = m.find(low(q)); bool has = it != m.end(); std::string v, x = "unset"; int iv = 77;
    v = c.GetStringOrElse(q, "dflt"); CHECKF(v == (has ? it->second : "dflt"), "key %s: '%s' instead of '%s'", q.c_str(), v.c_str(), has ? it->second.c_str() : "dflt");
    Status s = c.GetString(q, &x); CHECKF(s.ok() == has && x == (has ? it->second : "unset"), "GetString %s", q.c_str());
    std::string path = !has ? "dp" : it->second[0] == '/' ? it->second : drv_work + "/" + it->second; v = c.GetPathOrElse(q, "dp"); CHECKF(v == path, "path %s: '%s' instead of '%s'", q.c_str(), v.c_str(), path.c_str());
    x = "unset"; s = c.GetPath(q, &x); CHECKF(s.ok() == has && x == (has ? path : "unset"), "GetPath %s", q.c_str());
    bool num = false, lead = false; int val = 0; if (has) { char *e; val = strtol(it->second.c_str(), &e, 10); num = *e == 0 && e != it->second.c_str(); lead = e != it->second.c_str(); }
    if (!has || num) { int g = c.GetIntegerOrElse(q, 5); CHECKF(g == (has ? val : 5), "integer %s: %d instead of %d", q.c_str(), g, has ? val : 5); }
    s = c.GetInteger(q, &iv); if (has && lead && !num) continue; CHECKF(s.ok() == num && iv == (num ? val : 77), "GetInteger %s (value %s): %s, %d", q.c_str(), has ? it->second.c_str() : "-", s.ok() ? "ok" : "error", iv);
  }
  drv_end();
}
static std::vector<std::string> split(const std::string &s, const std::string &d) { std::vector<std::string> o; size_t p = 0; for (;;) { size_t q = std::string::npos; for (size_t i = p; i + d.size() <= s.size(); ++i) if (s.compare(i, d.size(), d) == 0) { q = i; break; } if (q == std::string::npos) break; o.push_back(s.substr(p, q - p)); p = q + d.size(); } if (p < s.size()) o.push_back(s.substr(p)); return o; }
static void strs(Rng &r) {
  std::string s = word(r, r.chance(50) ? "a, =b" : " \t\r\nxY\xe9Z", r.range(0, 12)), d = r.chance(60) ? "," : r.chance(50) ? " " : ", "; drv_begin("string '%s' delimiter '%s'", drv_esc(s).c_str(), d.c_str());
  std::vector<std::string> g = util::Split(s, d), w = split(s, d); CHECKF(g == w, "Split gives %zu fields instead of %zu", g.size(), w.size());
  size_t a = 0, b = s.size(); auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13); }; while (a < b && ws(s[a])) ++a; while (b > a && ws(s[b - 1])) --b; if (!s.empty()) CHECKF(util::Trim(s) == s.substr(a, b - a), "Trim gives '%s'", drv_esc(util::Trim(s)).c_str());
  CHECKF(util::Tolower(s) == low(s), "Tolower gives '%s'", drv_esc(util::Tolower(s)).c_str());
  std::string n = r.chance(60) ? sp(r) + std::to_string((long)r.next() >> r.range(0, 60)) + sp(r) : sp(r) + (r.chance(20) ? "" : r.chance(50) ? "1" + word(r, "xyz. ", 3) + "z" : word(r, "xyz. ", 3) + "y"); drv_log(" number '%s'", n.c_str()); bool ok = false; long v = 0; { const char *p = n.c_str(); while (*p == ' ' || *p == '\t') ++p; char *e; v = strtol(p, &e, 10); if (e != p) { while (*e == ' ' || *e == '\t') ++e; ok = *e == 0; } }
  if (r.chance(4)) { n = sp(r) + (r.chance(50) ? "-" : "") + "9223372036854775" + std::to_string(r.range(808, 99999)) + sp(r); ok = false; if (n.find("-9223372036854775808") != std::string::npos && n.size() <= 24) { ok = false; n = "x"; } }
  long x = 0; Status st = util::StringToLong(n, &x); CHECKF(st.ok() == ok, "StringToLong('%s') is %s", n.c_str(), st.ok() ? "accepted" : "rejected"); if (ok) CHECKF(x == v, "StringToLong('%s') is %ld", n.c_str(), x); drv_end();
}
static void lines(Rng &r) {
  int n = r.range(0, 8); std::vector<std::string> w; std::string t; for (int i = 0; i < n; ++i) { std::string l = word(r, "abc \t", r.chance(4) ? r.range(4080, 9000) : r.chance(3) ? r.range(4094, 4097) : r.range(0, 9)); bool last = i + 1 == n && r.chance(40); if (last && l.empty()) l = "e"; w.push_back(l); t += l + (last ? "" : r.chance(30) ? "\r\n" : "\n"); }
  drv_begin("lines of '%s' (%zu bytes)", drv_esc(t.substr(0, 200)).c_str(), t.size()); util::ReadableFile f; CHECKF(f.Open(file(t, "l.txt")).ok(), "open"); Status st; std::string l; size_t k = 0;
  while (!f.Eof() && f.ReadLine(&l, &st)) { CHECKF(k < w.size(), "more lines than the file has"); CHECKF(l == w[k], "line %zu has %zu characters instead of %zu", k, l.size(), w[k].size()); ++k; }
  CHECKF(st.ok() && k == w.size(), "%zu lines instead of %zu, status %s", k, w.size(), st.what().c_str()); drv_end();
}
static void syms(Rng &r) {
  int n = r.range(0, 12); std::map<std::string, int> m; std::map<int, std::string> b; std::string t; bool bad = false; std::set<int> used; const char *ends[] = {"<s>", "</s>"}; std::vector<std::string> ws; for (int i = 0; i < 2; ++i) if (!r.chance(3)) ws.push_back(ends[i]); else bad = true; for (int i = 0; i < n; ++i) { std::string q = word(r, "ab\xe4\xbd<>#0", r.range(1, 4)); bool dup = false; for (auto &e : ws) if (e == q) dup = true; if (!dup && q != "<s>" && q != "</s>") ws.insert(ws.begin() + r.below(ws.size() + 1), q); }
  for (size_t i = 0; i < ws.size(); ++i) { int id = r.chance(80) ? (int)i : r.range(0, 3000); while (used.count(id)) ++id; used.insert(id); m[ws[i]] = id; b[id] = ws[i]; bool last = i + 1 == ws.size() && r.chance(40); t += ws[i] + " " + std::to_string(id);
    if (r.chance(2)) { static const char *ex[] = {" x", "x", " 3", "\nword", "\nw -5", "\n -1", "\nw  ", "\nw 1x"}; t += ex[r.below(8)]; bad = true; } t += last ? "" : r.chance(10) ? "\r\n" : "\n"; }
  drv_begin("symbol table '%s'", drv_esc(t.substr(0, 500)).c_str()); SymbolTable s; Status st = s.Read(file(t, "w.txt")); CHECKF(st.ok() == !bad, "status %s (%s) for a %s file", st.ok() ? "ok" : "error", st.what().c_str(), bad ? "damaged" : "correct"); if (bad) { drv_end(); return; }
  for (auto &e : m) { CHECKF(s.GetId(e.first) == e.second, "id of '%s' is %d instead of %d", drv_esc(e.first).c_str(), s.GetId(e.first), e.second); CHECKF(e.first == s.Get(e.second), "word %d is '%s'", e.second, s.Get(e.second)); }
  CHECKF(s.bos_id() == m["<s>"] && s.eos_id() == m["</s>"], "sentence boundary ids %d %d", s.bos_id(), s.eos_id()); for (int i = 0; i < 5; ++i) { std::string q = word(r, "ab<", r.range(1, 4)); if (!m.count(q)) CHECKF(s.GetId(q) == SymbolTable::kNotExist, "unknown word '%s' has id %d", q.c_str(), s.GetId(q)); }
  drv_end();
}
void drv_main(uint64_t seed) { Rng r(seed); while (drv_time()) for (int i = 0; i < 20; ++i) { if (PROP == 18) conf(r); else { strs(r); lines(r); syms(r); } } }
