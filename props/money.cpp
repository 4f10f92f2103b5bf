// Value conservation of transactions.
#include "tx.h"
#include "CryptoNoteConfig.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteBasicImpl.h"
using namespace cn;
extern "C" void mod_outs_overflow() {
  TxView t = mk_tx();
  irv_cover("outs");
  bool ok = check_outs_overflow(*t.tx);
  bool over = false;
  u128 s = 0;
  for (uint64_t i = 0; i < t.no; i++) {
    s += t.out(i).amount();
    if (s >> 64) { over = true; break; }
  }
  irv_assert(ok == !over, "outputs.exact-sum-fits");
}
extern "C" void mod_outs_amount() {
  TxView t = mk_tx();
  irv_cover("outs");
  uint64_t r = get_outs_money_amount(*t.tx), s = 0;
  for (uint64_t i = 0; i < t.no; i++) s += t.out(i).amount();
  irv_assert(r == s, "outputs.amount");
}
extern "C" uint64_t stub_mul128(uint64_t a, uint64_t b, uint64_t* hi) {
  u128 p = (u128)a * b;
  *hi = (uint64_t)(p >> 64);
  return (uint64_t)p;
}
// contract of div128_32 (proved in C01): exact quotient; only qh <= hi is needed here
extern "C" uint32_t stub_div128_32(uint64_t hi, uint64_t lo, uint32_t d, uint64_t* qh, uint64_t* ql) {
  irv_assert(d != 0, "div128.requires.nonzero");
  *qh = irv_uf64_3("quotient-high", hi, lo, d);
  *ql = irv_uf64_3("quotient-low", hi, lo, d);
  irv_assume(*qh <= hi);
  return (uint32_t)irv_uf64_3("remainder", hi, lo, d);
}
// amount an input can contribute at most: deposits count with the maximal interest
static u128 max_in(InView i) {
  if (i.key()) return i.amount();
  if (!i.msig()) return 0;
  u128 a = i.amount(), m = a * cn::parameters::DEPOSIT_MAX_TOTAL_RATE;
  if (i.term() == 0) return a;
#ifdef IRV_SYMBOLIC
  uint64_t h, l;
  stub_div128_32((uint64_t)(m >> 64), (uint64_t)m, 100, &h, &l);
  return a + (((u128)h << 64) | l);
#else
  return a + m / 100;
#endif
}
extern "C" void mod_inputs_overflow() {
  TxView t = mk_tx();
  irv_cover("ins");
  bool ok = check_inputs_overflow(*t.tx);
  bool over = false;
  u128 s = 0;
  for (uint64_t i = 0; i < t.ni; i++) {
    s += max_in(t.in(i));
    if (s >> 64) { over = true; break; }
  }
  irv_assert(ok == !over, "inputs.exact-sum-fits");
}
extern "C" void mod_inputs_amount() {
  TxView t = mk_tx();
  irv_cover("ins");
  uint64_t r = 77, s = 0;
  get_inputs_money_amount(*t.tx, r);
  for (uint64_t i = 0; i < t.ni; i++) {
    InView v = t.in(i);
    s += v.which() == 0 ? 0 : v.amount();
  }
  irv_assert(r == s, "inputs.amount");
}
// ---- fee ------------------------------------------------------------------------------------
extern "C" uint64_t stub_interest(const Currency* c, const MultisignatureInput& in, uint32_t height) {
  return irv_uf64_3("interest", in.amount, in.term, height);
}
static uint64_t in_value(Currency& c, InView i, uint32_t height) {
  if (i.which() == 0) return 0;
  if (i.key()) return i.amount();
  uint64_t a = i.amount();
  if (i.term() != 0) {
#ifdef IRV_SYMBOLIC
    a += irv_uf64_3("interest", i.amount(), i.term(), height);
#else
    a += c.getInterestForInput(*(const MultisignatureInput*)(i.p + 8), height);
#endif
  }
  return a;
}
extern "C" void mod_all_inputs() {
  Currency& c = mk_currency(irv_bool("testnet"));
  TxView t = mk_tx();
  uint32_t height = irv_u32("height");
  irv_cover("all");
  uint64_t r = c.getTransactionAllInputsAmount(*t.tx, height), s = 0;
  for (uint64_t i = 0; i < t.ni; i++) s += in_value(c, t.in(i), height);
  irv_assert(r == s, "inputs.amount-with-interest");
}
extern "C" void mod_fee() {
  Currency& c = mk_currency(irv_bool("testnet"));
  TxView t = mk_tx();
  uint32_t height = irv_u32("height");
  irv_cover("fee");
  uint64_t fee = 1234567;
  bool ok = c.getTransactionFee(*t.tx, fee, height);
  uint64_t si = 0, so = 0;
  bool wd = false;
  for (uint64_t i = 0; i < t.ni; i++) si += in_value(c, t.in(i), height);
  for (uint64_t i = 0; i < t.no; i++) so += t.out(i).amount();
  for (uint64_t i = 0; i < t.ni; i++)
    if (t.in(i).msig() && t.in(i).term() != 0) { wd = true; break; }
  if (t.ni == 1 && t.in(0).which() == 0) {
    irv_cover("fee.coinbase");
    irv_assert(ok && fee == 0, "fee.coinbase-none");
    return;
  }
  if (so <= si) {
    irv_cover("fee.balanced");
    irv_assert(ok && fee == si - so, "fee.difference");
  } else if (wd) {
    irv_cover("fee.withdrawal");
    irv_assert(ok && fee == parameters::MINIMUM_FEE, "fee.withdrawal");
  } else {
    irv_cover("fee.overspend");
    irv_assert(!ok, "fee.overspend-rejected");
  }
}
