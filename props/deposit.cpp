// Deposit interest and deposit terms.
#include "tx.h"
#include "CryptoNoteConfig.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include <cmath>
using namespace cn;

static uint64_t uf_interest(Currency& c, uint64_t amount, uint32_t term, uint32_t lock) {
#ifdef IRV_SYMBOLIC
  return irv_uf64_3("interest", amount, term, lock);
#else
  return c.calculateInterest(amount, term, lock);
#endif
}
extern "C" uint64_t stub_calculate(const Currency* c, uint64_t amount, uint32_t term, uint32_t lock) {
  return irv_uf64_3("interest", amount, term, lock);
}
extern "C" uint64_t stub_v2(const Currency* c, uint64_t amount, uint32_t term) {
  irv_assert(irv_or(term % 64800 == 0, term % 5040 == 0), "interest.v2-term");
  return irv_uf64_2("v2", amount, term);
}
extern "C" uint64_t stub_v3(const Currency* c, uint64_t amount, uint32_t term) { return irv_uf64_2("v3", amount, term); }
extern "C" uint64_t stub_for_input(const Currency* c, const MultisignatureInput& in, uint32_t height) {
  return irv_uf64_3("input-interest", in.amount, in.term, height);
}
extern "C" uint64_t stub_mul128(uint64_t a, uint64_t b, uint64_t* hi) {
  u128 p = (u128)a * b;
  *hi = (uint64_t)(p >> 64);
  return (uint64_t)p;
}
extern "C" uint32_t stub_div128_32(uint64_t hi, uint64_t lo, uint32_t d, uint64_t* qh, uint64_t* ql) {
  irv_assert(d != 0, "div128.requires.nonzero");
  *qh = irv_uf64_3("quotient-high", hi, lo, d);
  *ql = irv_uf64_3("quotient-low", hi, lo, d);
  return (uint32_t)irv_uf64_3("remainder", hi, lo, d);
}

// ---- which schedule applies -------------------------------------------------------------------
extern "C" void mod_schedule() {
  bool t = irv_bool("testnet");
  Currency& c = mk_currency(t);
  uint64_t amount = irv_u64("amount");
  uint32_t term = irv_u32("term"), lock = irv_u32("lock");
  irv_cover("schedule");
  uint64_t r = c.calculateInterest(amount, term, lock);
  if (term > 1296000) term = 1296000;
  const uint32_t month = t ? 30 : 21900, v3 = t ? 60 : 413400, maxterm = t ? 360 : 262800;
  if (term % month == 0 && lock > v3) {
    irv_cover("schedule.v3");
#ifdef IRV_SYMBOLIC
    irv_assert(r == irv_uf64_2("v3", amount, term), "interest.monthly");
#else
    irv_assert(r == c.calculateInterestV3(amount, term), "interest.monthly");
#endif
    return;
  }
  if (term % 64800 == 0 || term % 5040 == 0) {
    irv_cover("schedule.v2");
#ifdef IRV_SYMBOLIC
    irv_assert(r == irv_uf64_2("v2", amount, term), "interest.weekly-or-investment");
#else
    irv_assert(r == c.calculateInterestV2(amount, term), "interest.weekly-or-investment");
#endif
    return;
  }
  irv_cover("schedule.legacy");
  // legacy: floor(amount * term * 4 / (100 * max term)), a hundredfold for the first 12750 blocks
  u128 p = (u128)amount * ((uint64_t)term * 4);
#ifdef IRV_SYMBOLIC
  uint64_t h, q;
  stub_div128_32((uint64_t)(p >> 64), (uint64_t)p, 100 * maxterm, &h, &q);
#else
  uint64_t q = (uint64_t)(p / (100 * maxterm));
#endif
  u128 e = lock <= 12750 ? (u128)q * 100 : q;
  irv_assert(r == ((e >> 64) ? ~0ull : (uint64_t)e), "interest.legacy");
}

// ---- monthly deposits: every legal term, every amount -------------------------------------------
static float monthly_rate(uint64_t amount, uint32_t months) {
  float base = amount / 1000000 < 10000 ? 0.029f : amount / 1000000 < 20000 ? 0.039f : 0.049f;
  if (months > 12) months = 12;
  float ear = base + ((float)months - 1) * 0.001f;
  return ear / 12 * (float)months;
}
static void monthly(Currency& c, uint64_t amount, uint32_t month) {
  for (uint32_t m = 1; m <= 59; m++) {
    uint64_t r = c.calculateInterestV3(amount, m * month);
    irv_assert(r == (uint64_t)((float)amount * monthly_rate(amount, m)), "interest.monthly-rate");
  }
}
extern "C" void mod_monthly() {
  uint64_t amount = irv_u64("amount");
  irv_cover("monthly");
  if (amount < 10000000000ull) monthly(mk_currency(false), amount, 21900);
  else if (amount < 20000000000ull) monthly(mk_currency(false), amount, 21900);
  else monthly(mk_currency(false), amount, 21900);
}
extern "C" void mod_monthly_testnet() {
  uint64_t amount = irv_u64("amount");
  irv_cover("monthly");
  if (amount < 10000000000ull) monthly(mk_currency(true), amount, 30);
  else if (amount < 20000000000ull) monthly(mk_currency(true), amount, 30);
  else monthly(mk_currency(true), amount, 30);
}
extern "C" void mod_monthly_zero() {
  Currency& c = mk_currency(irv_bool("testnet"));
  uint64_t amount = irv_u64("amount");
  irv_cover("monthly0");
  irv_assert(c.calculateInterestV3(amount, 0) == 0, "interest.none-for-no-term");
}

// ---- weekly deposits ---------------------------------------------------------------------------
extern "C" void mod_weekly() {
  Currency& c = mk_currency(false);
  uint64_t amount = irv_u64("amount");
  irv_cover("weekly");
  for (uint32_t w = 1; w <= 257; w++) {
    if (w * 5040 % 64800 == 0) continue;
    uint64_t r = c.calculateInterestV2(amount, w * 5040);
    float rate = 0.0696f + (float)w * 0.0002f;
    irv_assert(r == (uint64_t)((float)amount * ((float)w * rate / 100)), "interest.weekly-rate");
  }
}

// ---- investments -------------------------------------------------------------------------------
static const uint64_t TIER[] = {180000, 260000, 350000, 450000, 560000, 680000, 810000, 950000, 1100000, 1260000, 1430000, 1610000, 1800000, 2000000};
static const double FACTOR[] = {1.01, 1.02, 1.03, 1.04, 1.05, 1.06, 1.07, 1.08, 1.09, 1.1, 1.11, 1.12, 1.13, 1.14};
static void investment(Currency& c, uint64_t amount, float tier) {
  for (uint32_t q = 1; q <= 20; q++) {
    uint64_t r = c.calculateInterestV2(amount, q * 64800);
    float mq = 1.4473f, quarters = (float)q;
    float compound = (float)(100.0 * pow(1.0 + (double)(mq / 100.0), quarters) - 100.0);
    float rate = compound * (1 + quarters * 0.5f / 100) * tier;
    irv_assert(r == (uint64_t)((float)amount * (rate / 100)), "interest.investment-rate");
  }
}
extern "C" void mod_investment() {
  Currency& c = mk_currency(false);
  uint64_t amount = irv_u64("amount"), h = amount / 1000000;
  irv_cover("investment");
  if (h <= 110000) { investment(c, amount, 1); return; }
  for (int i = 0; i < 14; i++)
    if (h < TIER[i]) { investment(c, amount, (float)FACTOR[i]); return; }
  investment(c, amount, h == 2000000 ? 1 : 1.15f);
}

// ---- interest of an input ------------------------------------------------------------------------
extern "C" void mod_input_interest() {
  bool t = irv_bool("testnet");
  Currency& c = mk_currency(t);
  MultisignatureInput in;
  in.amount = irv_u64("amount");
  in.term = irv_u32("term");
  in.signatureCount = irv_u8("signatures");
  in.outputIndex = irv_u32("index");
  uint32_t height = irv_u32("height");
  irv_cover("input");
  uint64_t r = c.getInterestForInput(in, height);
  if (in.term == 0 || in.term > 1296000) { irv_assert(r == 0, "interest.none-for-illegal-term"); return; }
  uint32_t lock = height == (t ? 0u : 425799u) ? height : height - in.term;
  irv_assert(r == uf_interest(c, in.amount, in.term, lock), "interest.of-lock-height");
}
extern "C" void mod_total_interest() {
  Currency& c = mk_currency(false);
  TxView t = mk_tx();
  uint32_t height = irv_u32("height");
  irv_cover("total");
  uint64_t r = c.calculateTotalTransactionInterest(*t.tx, height), s = 0;
  for (uint64_t i = 0; i < t.ni; i++) {
    InView v = t.in(i);
    if (v.msig() && v.term() != 0)
#ifdef IRV_SYMBOLIC
      s += irv_uf64_3("input-interest", v.amount(), v.term(), height);
#else
      s += c.getInterestForInput(*(const MultisignatureInput*)(v.p + 8), height);
#endif
  }
  irv_assert(r == s, "interest.total");
}
// ---- deposit outputs -------------------------------------------------------------------------------
extern "C" void mod_validate_output() {
  bool t = irv_bool("testnet");
  Currency& c = mk_currency(t);
  MultisignatureOutput o;
  o.term = irv_u32("term");
  o.requiredSignatureCount = irv_u8("required");
  uint64_t amount = irv_u64("amount");
  uint32_t height = irv_u32("height");
  irv_cover("output");
  bool ok = c.validateOutput(amount, o, height);
  const uint32_t month = t ? 30 : 21900, v4 = t ? 300000 : 1162162, minterm = t ? 30 : 5040;
  bool good = true;
  if (o.term != 0) {
    if (height > v4) good = o.term >= month && o.term <= 12 * month && o.term % month == 0;
    else good = o.term >= minterm && o.term <= 1296000;
    good = good && amount >= 1000000;
  }
  irv_assert(ok == good, "deposit.output-valid");
}
