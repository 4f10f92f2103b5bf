// Difficulty adjustment and the proof-of-work threshold.
#include "currency.h"
#include "CryptoNoteConfig.h"
#include "CryptoNoteCore/Difficulty.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "crypto/hash.h"
using namespace cn;
typedef std::vector<uint64_t> V;
static uint64_t min64(uint64_t a, uint64_t b) { return a < b ? a : b; }
static uint64_t max64(uint64_t a, uint64_t b) { return a > b ? a : b; }

// ---- proof of work: hash * difficulty < 2^256 ---------------------------------------------------
extern "C" void mod_check_hash() {
  crypto::Hash h;
  irv_bytes("hash", &h, 32);
  uint64_t d = irv_u64("difficulty");
  const uint64_t* w = (const uint64_t*)&h;
  irv_cover("hash");
  bool ok = check_hash(h, d);
  u128 s = (u128)w[0] * d;
  for (int i = 1; i < 4; i++) s = (u128)w[i] * d + (s >> 64);
  irv_assert(ok == !(s >> 64), "pow.product-below-2^256");
  irv_assert(irv_implies(d <= 1, ok), "pow.trivial-difficulty");
}
// contract of get_block_longhash: an arbitrary hash of the block, or failure
static bool g_lh_ok;
static uint64_t g_lh[4];
extern "C" bool stub_longhash(crypto::cn_context& c, const Block& b, crypto::Hash& r) {
  irv_assert(&b != nullptr, "longhash.requires.block");
  irv_ghost_inc("longhash");
  for (int i = 0; i < 4; i++) ((uint64_t*)&r)[i] = g_lh[i];
  return g_lh_ok;
}
static uint64_t g_d;
static bool g_meets;
extern "C" bool stub_check_hash(const crypto::Hash& h, difficulty_type d) {
  irv_assert(memcmp(&h, g_lh, 32) == 0, "pow.judges-the-block-hash");
  irv_assert(d == g_d, "pow.judges-against-the-difficulty");
  irv_ghost_inc("judged");
  return g_meets;
}
extern "C" void mod_pow() {
  Currency& c = mk_currency(irv_bool("testnet"));
  Block b;
  b.majorVersion = irv_u8("version");
  g_lh_ok = irv_bool("hashed");
  irv_bytes("longhash", g_lh, 32);
  g_d = irv_u64("difficulty");
  g_meets = irv_bool("meets");
  crypto::Hash h;
  irv_cover("pow");
  crypto::cn_context* ctx = nullptr;
  bool ok = c.checkProofOfWork(*ctx, b, g_d, h);
  irv_assert(ok == (g_lh_ok & g_meets), "pow.accepts-iff-hash-meets-difficulty");
  irv_assert(irv_implies(ok, irv_ghost_get("judged") == 1), "pow.hash-is-judged");
}
// the hash function is selected by the block version, over the whole hashing blob
static BinaryArray* g_blob;
static bool g_blob_ok;
extern "C" bool stub_hashing_blob(const Block& b, BinaryArray& r) {
  r.assign(g_blob->begin(), g_blob->end());
  return g_blob_ok;
}
static int g_algo;
static void stub_slow(int k, const void* p, size_t n, crypto::Hash& r) {
  irv_assert(g_algo == 0, "longhash.one-function");
  irv_assert(n == 3, "longhash.covers-blob");
  const uint8_t* q = (const uint8_t*)p;
  irv_assert((q[0] == (*g_blob)[0]) & (q[1] == (*g_blob)[1]) & (q[2] == (*g_blob)[2]), "longhash.covers-blob");
  g_algo = k;
  for (int i = 0; i < 4; i++) ((uint64_t*)&r)[i] = g_lh[i];
}
extern "C" void stub_slow0(crypto::cn_context&, const void* p, size_t n, crypto::Hash& r) { stub_slow(1, p, n, r); }
extern "C" void stub_slow1(crypto::cn_context&, const void* p, size_t n, crypto::Hash& r) { stub_slow(2, p, n, r); }
extern "C" void stub_slow2(crypto::cn_context&, const void* p, size_t n, crypto::Hash& r) { stub_slow(3, p, n, r); }
extern "C" void stub_slow3(crypto::cn_context&, const void* p, size_t n, crypto::Hash& r) { stub_slow(4, p, n, r); }
extern "C" void mod_longhash() {
  Block b;
  b.majorVersion = irv_u8("version");
  uint8_t raw[3];
  irv_bytes("blob", raw, 3);
  BinaryArray blob(raw, raw + 3);
  g_blob = &blob;
  g_blob_ok = irv_bool("blob-ok");
  irv_bytes("longhash", g_lh, 32);
  crypto::Hash h;
  memset(&h, 0, 32);
  g_algo = 0;
  crypto::cn_context* ctx = nullptr;
  irv_cover("longhash");
  bool ok = get_block_longhash(*ctx, b, h);
  irv_assert(ok == g_blob_ok, "longhash.fails-iff-blob-fails");
  int want = b.majorVersion >= 8 ? 4 : b.majorVersion >= 7 ? 3 : b.majorVersion >= 3 ? 2 : 1;
  irv_assert(irv_implies(ok, g_algo == want), "longhash.algorithm-of-version");
  irv_assert(irv_implies(ok, memcmp(&h, g_lh, 32) == 0), "longhash.result");
}

// ---- LWMA-1 ---------------------------------------------------------------------------------------
static uint64_t round_digits(uint64_t d) {
  for (uint64_t i = 1000000000; i > 1; i /= 10)
    if (d > i * 100) return (d + i / 2) / i * i;
  return d;
}
extern "C" void mod_lwma1() {
  bool t = irv_bool("testnet");
  Currency& c = mk_currency(t);
  const uint64_t n = 61;
  V ts, cd;
  uint64_t* a = (uint64_t*)irv_array("timestamps", n, 8, "0:8");
  uint64_t* b = (uint64_t*)irv_array("difficulties", n, 8, "0:8");
  ts.assign(a, a + n);
  cd.assign(b, b + n);
  uint64_t height = irv_u64("height");
  const uint64_t v8 = t ? 72 : 661300;
  irv_cover("lwma1");
  uint64_t r = c.nextDifficultyLWMA1(ts, cd, height);
  if (height >= v8 && height < v8 + 60) {
    irv_assert(r == (t ? 10 : 7200000), "lwma1.start");
    return;
  }
  uint64_t L = 0, prev = a[0] - 120;
  for (uint64_t i = 1; i <= 60; i++) {
    uint64_t cur = a[i] > prev ? a[i] : prev + 1;
    L += i * min64(720, cur - prev);
    prev = cur;
  }
  L = max64(L, 21600);
  uint64_t avg = (b[60] - b[0]) / 60, d;
  if (avg > 2000000ull * 60 * 60 * 120) d = avg / (200 * L) * (60 * 61 * 120 * 99);
  else d = avg * 60 * 61 * 120 * 99 / (200 * L);
  irv_assert(r == round_digits(d), "lwma1.weighted-average");
}

// ---- LWMA-3 ---------------------------------------------------------------------------------------
// a window of n >= 11 blocks with timestamps below 2^62
static void lwma3(uint64_t n) {
  Currency& c = mk_currency(false);
  V ts, cd;
  uint64_t* a = (uint64_t*)irv_array("timestamps", n, 8, "0:8");
  uint64_t* b = (uint64_t*)irv_array("difficulties", n, 8, "0:8");
  ts.assign(a, a + n);
  cd.assign(b, b + n);
  uint64_t N = n < 61 ? n - 1 : 60;
  REQUIRES(a[0] < 1ull << 62);
  uint64_t L = 0, last3 = 0, prev = a[0];
  for (uint64_t i = 1; i <= N; i++) {
    REQUIRES(a[i] < 1ull << 62);
    uint64_t cur = a[i] > prev ? a[i] : prev + 1;
    irv_range(cur, 0, (1ull << 62) + i, "lemma.monotone-bound");
    uint64_t st = min64(720, cur - prev);
    irv_range(st, 1, 720, "lemma.positive-solve-time");
    L += st * i;
    if (i > N - 3) last3 += st;
    prev = cur;
  }
  irv_cover("lwma3");
  uint64_t r = c.nextDifficultyLWMA3(ts, cd);
  uint64_t d = (b[N] - b[0]) * 120 * (N + 1) * 99 / (200 * L);
  uint64_t p = b[N] - b[N - 1];
  d = max64(p * 67 / 100, min64(d, p * 150 / 100));
  if (last3 < 96) d = max64(d, p * 108 / 100);
  irv_assert(r == d, "lwma3.weighted-average");
}
extern "C" void mod_lwma3() { lwma3(61); }
extern "C" void mod_lwma3_longer() { lwma3(70); }
extern "C" void mod_lwma3_partial() {
  uint64_t n = irv_u64("n");
  REQUIRES(n > 10 && n < 61);
  for (uint64_t k = 11; k < 61; k++)
    if (n == k) { lwma3(k); return; }
}
extern "C" void mod_lwma3_start() {
  Currency& c = mk_currency(false);
  uint64_t n = irv_len("count");
  REQUIRES(n <= 10);
  V ts, cd;
  irv::vec_raw(ts, "timestamps", n, "0:8");
  irv::vec_raw(cd, "difficulties", n, "0:8");
  irv_cover("start");
  irv_assert(c.nextDifficultyLWMA3(ts, cd) == 100, "lwma3.start");
}
