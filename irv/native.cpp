#include <signal.h>
#include <ucontext.h>
// Native side of irv.h: replays one counterexample (JSON-ish flat value file) against the real code.
#include "irv.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <cstdarg>
#include <ctime>
#include <exception>
#include <csetjmp>
static jmp_buf g_jb;
extern "C" void IRV_ENTRY();
static std::vector<std::pair<std::string, std::vector<uint64_t>>> g_vals;
static size_t g_pos = 0;
static bool g_random = false;
static uint64_t g_seed = 1;
static uint64_t rnd() {
  g_seed ^= g_seed << 13; g_seed ^= g_seed >> 7; g_seed ^= g_seed << 17;
  return g_seed * 0x2545F4914F6CDD1DULL;
}
// constants of the code under test and values drawn before in this run: equalities and boundaries
static std::vector<uint64_t> g_dict, g_drawn;
static uint64_t g_salt = 0;
static uint64_t biased0(int bits);
static uint64_t biased(int bits) {
  uint64_t m = bits == 64 ? ~0ULL : ((1ULL << bits) - 1);
  if (bits == 1) return biased0(1);
  uint64_t v;
  uint64_t d = rnd() % 8;
  if (d == 0 && !g_dict.empty()) v = g_dict[rnd() % g_dict.size()] + (rnd() % 2 ? rnd() % 3 - 1 : 0);
  else if (d == 1 && !g_drawn.empty()) v = g_drawn[rnd() % g_drawn.size()] + (rnd() % 4 == 0 ? rnd() % 3 - 1 : 0);
  else v = biased0(bits);
  v &= m;
  if (g_drawn.size() < 64) g_drawn.push_back(v);
  return v;
}
static uint64_t biased0(int bits) {
  uint64_t m = bits == 64 ? ~0ULL : ((1ULL << bits) - 1);
  switch (rnd() % 8) {
    case 0: return rnd() % 4;
    case 1: return m - rnd() % 4;
    case 2: return (1ULL << (rnd() % bits)) & m;
    case 3: return ((1ULL << (rnd() % bits)) - 1) & m;
    case 4: return rnd() % 1000;
    case 5: return (rnd() & m) >> (rnd() % bits);
    default: return rnd() & m;
  }
}
static const std::vector<uint64_t>& next(const char* name) {
  if (g_pos >= g_vals.size()) { printf("REPLAY-EXHAUSTED %s\n", name); exit(3); }
  if (g_vals[g_pos].first != name) { printf("REPLAY-MISMATCH want %s have %s\n", name, g_vals[g_pos].first.c_str()); exit(3); }
  return g_vals[g_pos++].second;
}
static uint64_t val(const char* name, int bits) {
  uint64_t v;
  if (g_random) { v = biased(bits); std::vector<uint64_t> x(1, v); g_vals.push_back(std::make_pair(std::string(name), x)); }
  else v = next(name)[0];
  return v;
}
extern "C" {
uint64_t irv_u64(const char* n) { return val(n, 64); }
uint32_t irv_u32(const char* n) { return (uint32_t)val(n, 32); }
uint16_t irv_u16(const char* n) { return (uint16_t)val(n, 16); }
uint8_t irv_u8(const char* n) { return (uint8_t)val(n, 8); }
static uint64_t hash0_(const char*, const uint64_t*, int);
// in a random run every truth value has a bias of its own for the run: never, rarely, half, mostly, always
static bool tilt_(const char* n, uint64_t r) {
  uint64_t k = g_salt;
  static const unsigned P[8] = {0, 32, 128, 128, 224, 240, 256, 256};
  return (r >> 20 & 255) < P[hash0_(n, &k, 1) >> 9 & 7];
}
bool irv_bool(const char* n) {
  if (!g_random) return val(n, 1) & 1;
  uint64_t v = tilt_(n, rnd() << 20);
  g_vals.push_back(std::make_pair(std::string(n), std::vector<uint64_t>(1, v)));
  return v;
}
uint64_t irv_len(const char* n) {
  if (g_random) { uint64_t v = rnd() % 4 == 0 && !g_drawn.empty() && g_drawn[rnd() % g_drawn.size()] < 100 ? g_drawn[rnd() % g_drawn.size()] % 100 : rnd() % (rnd() % 4 ? 5 : 90); g_drawn.push_back(v); std::vector<uint64_t> x(1, v); g_vals.push_back(std::make_pair(std::string(n), x)); return v; }
  return next(n)[0];
}
void irv_bytes(const char* n, void* p, size_t k) {
  if (g_random) { std::vector<uint64_t> x; for (size_t i = 0; i < k; ++i) { x.push_back(rnd() & 255); ((uint8_t*)p)[i] = (uint8_t)x[i]; } g_vals.push_back(std::make_pair(std::string(n), x)); return; }
  const std::vector<uint64_t>& v = next(n);
  for (size_t i = 0; i < k && i < v.size(); ++i) ((uint8_t*)p)[i] = (uint8_t)v[i];
}
void irv_assume(bool c) { if (!c) { if (g_random) longjmp(g_jb, 1); printf("ASSUME-FALSE\n"); exit(4); } }
void irv_assert(bool c, const char* n);
void irv_range(uint64_t x, uint64_t lo, uint64_t hi, const char* n) { irv_assert(x >= lo && x <= hi, n); }
void irv_assert(bool c, const char* name) {
  if (!c) {
    printf("ASSERT-FAILED %s\n", name);
    if (g_random) for (auto& v : g_vals) { printf("VAL %s", v.first.c_str()); for (uint64_t x : v.second) printf(" %llu", (unsigned long long)x); printf("\n"); }
    fflush(stdout); _Exit(1);
  }
}
void irv_cover(const char*) {}
bool irv_and(bool a, bool b) { return a && b; }
bool irv_or(bool a, bool b) { return a || b; }
bool irv_implies(bool a, bool b) { return !a || b; }
bool irv_iff(bool a, bool b) { return a == b; }
void irv_keep(const void*) {}
void irv_bounded(const char*) {}
void irv_debug(const char*, ...) {}
bool irv_same_object(const void* a, const void* b) { return a == b; }
// an uninterpreted function is some function: a hash of its arguments is as good as any
static std::map<std::string, std::vector<uint64_t> > g_uf;
static bool table_(const char* n, const uint64_t* a, unsigned k, uint64_t* out) {
  auto it = g_uf.find(std::string("uf_") + n);
  if (it == g_uf.end()) return false;
  const std::vector<uint64_t>& r = it->second;
  *out = r[1];
  for (size_t i = 2; i + k < r.size(); i += k + 1) {
    bool eq = r[0] == k;
    for (unsigned j = 0; j < k && eq; ++j) eq = r[i + j] == a[j];
    if (eq) { *out = r[i + k]; break; }
  }
  return true;
}
static uint64_t hash_(const char* n, const uint64_t* a, int k) { uint64_t v; return table_(n, a, k, &v) ? v : hash0_(n, a, k); }
static uint64_t hash0_(const char* n, const uint64_t* a, int k) {
  uint64_t h = 1469598103934665603ull ^ g_salt;
  for (; *n; ++n) h = (h ^ (uint8_t)*n) * 1099511628211ull;
  for (int i = 0; i < k; ++i) { h ^= a[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
  h ^= h >> 32; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 32;
  return h;
}
uint64_t irv_uf64_1(const char* n, uint64_t a) { uint64_t x[] = {a}; return hash_(n, x, 1); }
uint64_t irv_uf64_2(const char* n, uint64_t a, uint64_t b) { uint64_t x[] = {a, b}; return hash_(n, x, 2); }
uint64_t irv_uf64_3(const char* n, uint64_t a, uint64_t b, uint64_t c) { uint64_t x[] = {a, b, c}; return hash_(n, x, 3); }
uint64_t irv_uf64_4(const char* n, uint64_t a, uint64_t b, uint64_t c, uint64_t d) { uint64_t x[] = {a, b, c, d}; return hash_(n, x, 4); }
static bool ufb_(const char* n, uint64_t v) { return g_random ? tilt_(n, v) : v & 1; }
bool irv_ufbool_1(const char* n, uint64_t a) { return ufb_(n, irv_uf64_1(n, a)); }
bool irv_ufbool_2(const char* n, uint64_t a, uint64_t b) { return ufb_(n, irv_uf64_2(n, a, b)); }
bool irv_ufbool_3(const char* n, uint64_t a, uint64_t b, uint64_t c) { return ufb_(n, irv_uf64_3(n, a, b, c)); }
uint64_t irv_ufm64(const char* n, const void* p, uint64_t k) {
  uint64_t h = hash_(n, &k, 1);
  for (uint64_t i = 0; i < k; ++i) { uint64_t x[] = {h, ((const uint8_t*)p)[i]}; h = hash_(n, x, 2); }
  return h;
}
bool irv_ufmbool(const char* n, const void* p, uint64_t k) { return ufb_(n, irv_ufm64(n, p, k)); }
static std::map<std::string, uint64_t> g_ghost;
uint64_t irv_ghost_get(const char* n) { return g_ghost[n]; }
void irv_ghost_inc(const char* n) { ++g_ghost[n]; }
void irv_ghost_reset(const char* n) { g_ghost[n] = 0; }
void* irv_lazy_object(const char*, uint64_t size) { return calloc(1, size); }
struct Lay { int off, n; bool vec; int cond; uint64_t lim; int so, sn; uint64_t slim; };
void* irv_array(const char* name, uint64_t count, uint64_t stride, const char* layout) {
  uint8_t* p = (uint8_t*)::operator new(count * stride + 1);
  memset(p, 0, count * stride + 1);
  std::vector<Lay> lay;
  int tag = -1;
  const char* s = layout;
  while (*s) {
    if (*s == 'w') { ++s; tag = strtol(s, (char**)&s, 10); }
    else {
      Lay l; l.vec = false; l.cond = -1; l.lim = 0;
      l.off = strtol(s, (char**)&s, 10); ++s;
      if (*s == 'v') { l.vec = true; ++s; }
      l.n = strtol(s, (char**)&s, 10);
      l.slim = 0;
      if (*s == '/') { ++s; l.so = strtol(s, (char**)&s, 10); ++s; l.sn = strtol(s, (char**)&s, 10); ++s; l.slim = strtol(s, (char**)&s, 10); }
      if (*s == '<') { ++s; l.lim = strtol(s, (char**)&s, 10); }
      if (*s == '@') { ++s; l.cond = strtol(s, (char**)&s, 10); }
      lay.push_back(l);
    }
    if (*s == ',') ++s;
  }
  std::vector<uint64_t> x;
  if (g_random) {
    for (uint64_t i = 0; i < count; ++i) for (auto& l : lay) {
      uint64_t m = 1;
      if (l.vec) { m = rnd() % 4; x.push_back(m); }
      for (uint64_t j = 0; j < m; ++j)
        for (int b = 0; b < l.n; b += 8) x.push_back(l.off == tag && !l.vec ? rnd() % 4 : biased(l.n >= 8 ? 64 : 8 * l.n));
    }
    g_vals.push_back(std::make_pair(std::string(name), x));
  } else x = next(name);
  size_t k = 0;
  auto take = [&]() -> uint64_t { uint64_t v = k < x.size() ? x[k] : 0; ++k; return v; };
  for (uint64_t i = 0; i < count; ++i) {
    uint8_t* e = p + i * stride;
    uint64_t kind = 0;
    // first pass: the tag
    size_t k0 = k;
    if (tag >= 0) {
      for (auto& l : lay) {
        uint64_t m = 1;
        if (l.vec) m = take();
        for (uint64_t j = 0; j < m; ++j) for (int b = 0; b < l.n; b += 8) { uint64_t v = take(); if (!l.vec && l.off == tag && b == 0) kind = l.lim ? v % l.lim : v; }
      }
      k = k0;
    }
    for (auto& l : lay) {
      bool on = l.cond < 0 || (uint64_t)l.cond == kind;
      if (l.vec) {
        uint64_t m = take();
        uint8_t* q = (uint8_t*)::operator new(m * l.n + 1);
        for (uint64_t j = 0; j < m; ++j) for (int b = 0; b < l.n; b += 8) { uint64_t v = take(); memcpy(q + j * l.n + b, &v, l.n - b < 8 ? l.n - b : 8); }
        if (l.slim) for (uint64_t j = 0; j < m; ++j) {
          uint64_t v = 0; memcpy(&v, q + j * l.n + l.so, l.sn); v %= l.slim; memcpy(q + j * l.n + l.so, &v, l.sn);
        }
        if (on) { uint8_t* r[3] = {q, q + m * l.n, q + m * l.n}; memcpy(e + l.off, r, 24); }
      } else {
        for (int b = 0; b < l.n; b += 8) { uint64_t v = take(); if (l.lim) v %= l.lim; if (on) memcpy(e + l.off + b, &v, l.n - b < 8 ? l.n - b : 8); }
      }
    }
  }
  return p;
}
}
static void on_segv(int, siginfo_t*, void* c) {
  if (((ucontext_t*)c)->uc_mcontext.gregs[REG_RIP] == 0) { printf("UNRESOLVED-CALL\n"); fflush(stdout); _Exit(3); }
  signal(SIGSEGV, SIG_DFL);
}
int main(int argc, char** argv) {
  struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sa, 0);
  if (argc < 2) return 2;
  if (std::string(argv[1]) == "--random") {
    // --random SEED COUNT SECONDS
    g_random = true;
    g_seed = strtoull(argv[2], 0, 10) * 0x9E3779B97F4A7C15ULL + 12345; rnd(); rnd();
    unsigned long n = strtoul(argv[3], 0, 10), done = 0, rejected = 0;
    if (argc > 5) {
      FILE* f = fopen(argv[5], "r");
      unsigned long long c;
      while (f && fscanf(f, "%llu", &c) == 1) g_dict.push_back(c);
      if (f) fclose(f);
    }
    time_t end = time(0) + atoi(argv[4]);
    static volatile unsigned long i;
    static volatile unsigned long acc = 0, rej = 0;
    for (i = 0; i < n && time(0) < end; i = i + 1) {
      g_vals.clear(); g_ghost.clear(); g_drawn.clear(); g_salt = rnd();
      if (setjmp(g_jb)) { rej = rej + 1; continue; }
      try { IRV_ENTRY(); }
      catch (...) { irv_assert(false, "no.uncaught-exception"); }
      acc = acc + 1;
    }
    (void)done; (void)rejected;
    printf("RANDOM-OK %lu accepted %lu rejected\n", (unsigned long)acc, (unsigned long)rej);
    return 0;
  }
  else {
    FILE* f = fopen(argv[1], "r");
    if (!f) return 2;
    char* line = 0; size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
      char* s = line; char nm[256]; int n = 0;
      if (sscanf(s, "%255s%n", nm, &n) < 1) continue;
      s += n; std::vector<uint64_t> v; char* e;
      while (true) { uint64_t x = strtoull(s, &e, 10); if (e == s) break; v.push_back(x); s = e; }
      if (!strncmp(nm, "uf_", 3)) { if (v.size() >= 2) g_uf[nm] = v; continue; }
      g_vals.push_back(std::make_pair(std::string(nm), v));
    }
    fclose(f);
  }
  try { IRV_ENTRY(); }
  catch (const std::exception& e) { printf("ASSERT-FAILED no.uncaught-exception (%s)\n", e.what()); return 1; }
  catch (...) { printf("ASSERT-FAILED no.uncaught-exception\n"); return 1; }
  printf("REPLAY-OK\n");
  return 0;
}
