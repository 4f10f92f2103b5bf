// Which transactions the node accepts: outputs, double use inside one transaction, amounts.
#include "chain.h"
#include "CryptoNoteCore/Core.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
using namespace cn;
extern "C" crypto::Hash stub_tx_hash(const Transaction&) { return crypto::Hash(); }      // log text only
extern "C" bool stub_check_key(const crypto::PublicKey& k) { return irv_ufmbool("point", &k, 32); }
extern "C" bool stub_validate_output(const Currency*, uint64_t amount, const MultisignatureOutput& o, uint32_t height) {
  return irv_ufbool_3("terms", amount, o.term, height);
}
static const std::vector<crypto::PublicKey>& keys_of(OutView v) { return *(const std::vector<crypto::PublicKey>*)(v.p + 16); }
static bool shape(TxView& t, OutView v, uint32_t height) {
  if (v.key()) return (v.amount() != 0) & irv_ufmbool("point", v.p + 16, 32);
  return (t.tx->version >= 2) & irv_ufbool_3("terms", v.amount(), v.term(), height) & (v.required() <= keys_of(v).size());
}
// one output with any number of keys: exact
extern "C" void mod_tx_output() {
  Currency& c = mk_currency(irv_bool("testnet"));
  BC& bc = mk_chain(c);
  TxView t = mk_tx();
  REQUIRES(t.no == 1);
  t.tx->version = irv_u8("version");
  uint32_t height = irv_u32("height");
  irv_cover("output");
  bool ok = bc.check_tx_outputs(*t.tx, height);
  OutView v = t.out(0);
  bool good = shape(t, v, height);
  irv_assert(!ok | good, "outputs.accepted-is-valid");
  if (ok && !v.key()) {
    uint64_t n = keys_of(v).size(), j = irv_len("j");
    if (j < n) irv_assert(irv_ufmbool("point", &keys_of(v)[j], 32), "outputs.accepted-has-valid-keys");
  }
  if (!ok && v.key()) irv_assert(!good, "outputs.valid-is-accepted");
  if (!ok && good && !v.key()) {
    uint64_t n = keys_of(v).size();
    bool points = true;
    for (uint64_t j = 0; j < n; ++j)
      if (!irv_ufmbool("point", &keys_of(v)[j], 32)) { points = false; break; }
    irv_assert(!points, "outputs.valid-is-accepted");
  }
}
// any number of outputs
extern "C" void mod_tx_outputs() {
  Currency& c = mk_currency(irv_bool("testnet"));
  BC& bc = mk_chain(c);
  TxView t;
  t.tx = new (::operator new(sizeof(Transaction))) Transaction();
  t.no = irv_len("outputs");
  irv::vec_raw(t.tx->outputs, "outputs", t.no, "w8,0:8,8:4<1,16:32");
  t.op = (const char*)t.tx->outputs.data();
  t.tx->version = irv_u8("version");
  uint32_t height = irv_u32("height");
  irv_cover("outputs");
  bool ok = bc.check_tx_outputs(*t.tx, height);
  bool good = true;
  for (uint64_t i = 0; i < t.no; ++i)
    if (!((t.out(i).amount() != 0) & irv_ufmbool("point", t.out(i).p + 16, 32))) { good = false; break; }
  irv_assert(ok == good, "outputs.all-valid");
}
// ---- the node's rule for accepting the structure and the amounts of a transaction ----
static core* g_core;
static Currency* g_cur;
static core& mk_core(Currency& c) {
  void* p = ::operator new(sizeof(core));
  memset(p, 0, sizeof(core));
  g_core = (core*)p;
  g_cur = &c;
  ((const void**)(void*)&g_core->logger)[-1] = &c;
#ifndef IRV_SYMBOLIC
  new (&g_core->logger) logging::LoggerRef(nulllog(), "core");
#endif
  return *g_core;
}
extern "C" bool stub_types(const TransactionPrefix&) { return irv_ufbool_1("types", 0); }
extern "C" bool stub_tx_outputs(const Blockchain*, const Transaction&, uint32_t height) { return irv_ufbool_1("outputs", height); }
extern "C" bool stub_overflow(const TransactionPrefix&) { return irv_ufbool_1("money", 0); }
extern "C" uint64_t stub_all_in(const Currency*, const Transaction&, uint32_t height) { return irv_uf64_1("amountin", height); }
extern "C" uint64_t stub_all_out(const Transaction&) { return irv_uf64_1("amountout", 0); }
extern "C" bool stub_images(core*, const Transaction&) { return irv_ufbool_1("images", 0); }
extern "C" bool stub_msigs(const TransactionPrefix&) { return irv_ufbool_1("msigs", 0); }
extern "C" void mod_semantic() {
  bool testnet = irv_bool("testnet");
  Currency& c = mk_currency(testnet);
  core& k = mk_core(c);
  TxView t = mk_tx();
  uint32_t height = irv_u32("height"), h = height;
  irv_cover("semantic");
  bool ok = k.check_tx_semantic(*t.tx, irv_bool("inblock"), h);
  const uint32_t v4 = testnet ? 300000 : 1162162, other = height > 12750 ? 0u : 0xffffffffu;
  uint64_t out = irv_uf64_1("amountout", 0), in = irv_uf64_1("amountin", height), in2 = irv_uf64_1("amountin", other);
  bool structure = (t.ni != 0) & irv_ufbool_1("types", 0) & irv_ufbool_1("outputs", height) & irv_ufbool_1("money", 0) &
                   irv_ufbool_1("images", 0) & irv_ufbool_1("msigs", 0);
  bool plain = in >= out, early = (height <= v4) & (in2 >= out);
  irv_assert(!ok | structure, "accepted.well-formed");
  irv_assert(!ok | plain | early, "accepted.pays-for-its-outputs");
  irv_assert(ok | !structure | !(plain | early), "well-formed.accepted");
  irv_assert(!(ok & plain) | (h == height), "height.kept");
}
extern "C" std::pair<void*, bool> stub_image_insert(void*, const crypto::KeyImage& x) {
  std::pair<void*, bool> r;
  r.first = 0;
  r.second = irv_ufmbool("newimage", &x, 32);
  return r;
}
extern "C" void mod_images() {
  Currency& c = mk_currency(irv_bool("testnet"));
  core& k = mk_core(c);
  TxView t = mk_tx();
  irv_cover("images");
  bool ok = k.check_tx_inputs_keyimages_diff(*t.tx);
  bool all = true;
  for (uint64_t i = 0; i < t.ni; ++i) {
    InView v = t.in(i);
    if (v.key()) {
      if (!irv_ufmbool("newimage", v.p + 40, 32)) { all = false; break; }
    }
  }
  irv_assert(ok == all, "inputs.no-key-image-twice");
}
