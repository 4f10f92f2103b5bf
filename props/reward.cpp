// Emission: base reward schedule, size penalty, supply cap.
#include "currency.h"
#include "CryptoNoteConfig.h"
#include "CryptoNoteCore/CryptoNoteBasicImpl.h"
#include "Common/int-util.h"
using namespace cn;

// ---- contracts of the 128-bit helpers ---------------------------------------------------
extern "C" uint64_t stub_mul128(uint64_t a, uint64_t b, uint64_t* hi) {
  u128 p = (u128)a * b;
  *hi = (uint64_t)(p >> 64);
  return (uint64_t)p;
}
extern "C" uint32_t stub_div128_32(uint64_t hi, uint64_t lo, uint32_t d, uint64_t* qh, uint64_t* ql) {
  irv_assert(d != 0, "div128.requires.nonzero");
  u128 n = ((u128)hi << 64) | lo, q = n / d;
  *qh = (uint64_t)(q >> 64);
  *ql = (uint64_t)q;
  return (uint32_t)(n % d);
}
extern "C" void check_mul128() {
  uint64_t a = irv_u64("a"), b = irv_u64("b"), hi = 0;
  uint64_t lo = mul128(a, b, &hi);
  irv_assert((((u128)hi << 64) | lo) == (u128)a * b, "mul128.exact");
}
extern "C" void check_div128() {
  uint64_t hi = irv_u64("hi"), lo = irv_u64("lo");
  uint32_t d = irv_u32("d");
  irv_assume(d != 0);
  irv_cover("div128");
  uint64_t qh, ql;
  uint32_t r = div128_32(hi, lo, d, &qh, &ql);
  u128 n = ((u128)hi << 64) | lo, q = ((u128)qh << 64) | ql;
  irv_assert(r < d, "div128.remainder");
  irv_assert(q <= n, "div128.nowrap");
  irv_assert(q * d + r == n, "div128.exact");
}

// ---- penalty ------------------------------------------------------------------------------
static u128 penalty_spec(uint64_t amount, uint64_t median, uint64_t size) {
  if (size <= median) return amount;
  return (u128)amount * (size * (2 * median - size)) / (uint32_t)median / (uint32_t)median;
}
// w <= m*m  ==>  a*w/m/m <= a
static inline void lemma_div(uint64_t a, uint64_t w, uint32_t m) {
  u128 x = (u128)a * w, y = (u128)a * m;
  irv_assert(x <= y * m, "lemma.product");
  u128 q1 = x / m;
  irv_assert(q1 <= y, "lemma.first-quotient");
  irv_assert(q1 / m <= a, "lemma.second-quotient");
}
extern "C" void check_lemma_div() {
  uint64_t a = irv_u64("a"), w = irv_u64("w");
  uint32_t m = irv_u32("m");
  irv_assume(m != 0);
  irv_assume(w <= (uint64_t)m * m);
  irv_cover("lemma");
  lemma_div(a, w, m);
}
extern "C" void mod_penalty() {
  uint64_t amount = irv_u64("amount"), median = irv_u64("median"), size = irv_u64("size");
  irv_assume(median <= 0xffffffffull);
  irv_assume(size <= 0xffffffffull);
  irv_assume(size <= 2 * median);
  irv_cover("penalty");
  uint64_t r = getPenalizedAmount(amount, median, size);
  if (amount == 0) { irv_assert(r == 0, "penalty.zero"); return; }
  if (size <= median) { irv_assert(r == amount, "penalty.none-below-median"); return; }
  // floor(floor(amount * size * (2 median - size) / median) / median)
  uint64_t w = size * (2 * median - size);
  uint32_t m = (uint32_t)median;
  u128 x = (u128)amount * w, q1 = x / m, q2 = q1 / m;
  irv_assert(r == (uint64_t)q2, "penalty.exact");
  // lemmas: w + (size - median)^2 = median^2, hence amount * w <= amount * median^2
  irv_assert(w + (size - median) * (size - median) == median * median, "penalty.lemma.square");
  irv_assert(w < median * median, "penalty.lemma.factor");
  lemma_div(amount, w, m);
  irv_assert(q2 <= amount, "penalty.never-increases");
  irv_assert(r <= amount, "penalty.never-increases");
  if (size == 2 * median) irv_assert(r == 0, "penalty.total-at-twice-median");
}
// contract of getPenalizedAmount as used by its caller
extern "C" uint64_t stub_penalty(uint64_t amount, size_t median, size_t size) {
  irv_assert(size <= 2 * median, "penalty.requires.size");
  irv_assert(median <= 0xffffffffull, "penalty.requires.median");
  uint64_t r = irv_uf64_3("penalty", amount, median, size);
  irv_assume(r <= amount);
  irv_assume(irv_implies(size <= median, r == amount));
  irv_assume(irv_implies(size == 2 * median, r == 0));
  return r;
}

// ---- base reward schedule -----------------------------------------------------------------
static uint64_t base_spec(bool testnet, uint64_t generated, uint32_t h) {
  const uint64_t supply = 200000000000000ull;
  const uint32_t v8 = testnet ? 72 : 661300;
  if (h == 1) return 12000000000000ull;
  uint64_t r = h > v8 ? 6000000ull : 5000000ull + 250000ull * (h / 21900);
  if (r > 15000000ull) r = 15000000ull;
  if (r > supply - generated) r = supply - generated;
  return r;
}
extern "C" void mod_base() {
  bool t = irv_bool("testnet");
  Currency& c = mk_currency(t);
  uint64_t gen = irv_u64("generated");
  uint32_t h = irv_u32("height");
  irv_assume(gen <= 200000000000000ull);
  irv_cover("base");
  uint64_t r = c.baseRewardFunction(gen, h);
  irv_assert(r == base_spec(t, gen, h), "base.schedule");
  irv_assert(h == 1 || gen + r <= 200000000000000ull, "base.supply-cap");
}
extern "C" uint64_t stub_base(const Currency* c, uint64_t gen, uint32_t h) {
  irv_assert(gen <= 200000000000000ull, "base.requires.generated");
  return base_spec(c->m_testnet, gen, h);
}

// ---- the reward of a block ------------------------------------------------------------------
extern "C" void mod_reward() {
  bool t = irv_bool("testnet");
  Currency& c = mk_currency(t);
  uint64_t gen = irv_u64("generated"), median = irv_u64("median"), size = irv_u64("size"), fee = irv_u64("fee");
  uint32_t h = irv_u32("height");
  irv_assume(gen <= 200000000000000ull);
  irv_assume(fee <= 200000000000000ull);
  irv_assume(median <= 0xffffffffull);
  irv_cover("reward");
  uint64_t reward = 0;
  int64_t emission = 0;
  bool ok = c.getBlockReward(median, size, gen, fee, h, reward, emission);
  uint64_t m = median < 100000 ? 100000 : median;
  irv_assert(ok == (size <= 2 * m), "reward.size-limit");
  if (!ok) return;
  irv_cover("reward.accepted");
  uint64_t base = base_spec(t, gen, h);
#ifdef IRV_SYMBOLIC
  uint64_t pb = stub_penalty(base, m, size), pf = stub_penalty(fee, m, size);
#else
  uint64_t pb = (uint64_t)penalty_spec(base, m, size), pf = (uint64_t)penalty_spec(fee, m, size);
#endif
  irv_assert(reward == pb + pf, "reward.sum");
  irv_assert(emission == (int64_t)(pb - (fee - pf)), "reward.emission");
  irv_assert(reward <= base + fee, "reward.bounded");
  irv_assert((int64_t)reward == emission + (int64_t)fee, "reward.equals-emission-plus-fees");
  irv_assert(irv_or(h == 1, (int64_t)gen + emission <= 200000000000000ll), "reward.supply-cap");
  irv_assert(irv_implies(size <= m, reward == base + fee), "reward.no-penalty-below-median");
}
