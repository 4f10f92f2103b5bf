#include "irv.h"
#include "chain.h"
using namespace cn;
typedef BC::MultisignatureOutputsContainer MOC;

// ---- contracts of the containers -------------------------------------------------------------------
// the one element a lookup can yield
static char g_slot[64];
static bool g_present;
static uint64_t g_key;
static int8_t g_ctrl[32];
typedef std::vector<BC::MultisignatureOutputUsage> Usages;
extern "C" MOC::iterator stub_moc_find(MOC* self, const uint64_t& k) {
  irv_assert((void*)self == (void*)&g_bc->m_multisignatureOutputs, "lookup.in-the-output-index");
  irv_assert(k == g_key, "lookup.by-input-amount");
  MOC::iterator it;
  void** raw = (void**)&it;
  memset((void*)&it, 0, sizeof(it));
  if (g_present) {
    raw[0] = (void*)self;
    it.it_.ctrl_ = (decltype(it.it_.ctrl_))g_ctrl;
    it.it_.slot_ = (decltype(it.it_.slot_))g_slot;
  }
  return it;
}
static uint64_t g_entry_index;
static BC::BlockEntry* g_entry;
extern "C" const BC::BlockEntry& stub_block_at(void* self, uint64_t i) {
  irv_assert(self == (void*)&g_bc->m_blocks, "lookup.in-the-chain");
  irv_assert(i == g_entry_index, "lookup.referenced-block");
  return *g_entry;
}
static uint64_t g_tx_index;
static BC::TransactionEntry* g_tx;
extern "C" const BC::TransactionEntry& stub_tx_at(const void* self, uint64_t i) {
  irv_assert(self == (void*)&g_entry->transactions, "lookup.in-the-block");
  irv_assert(i == g_tx_index, "lookup.referenced-transaction");
  return *g_tx;
}
static bool g_zone;
extern "C" bool stub_zone(const BC* self, uint32_t height) {
  irv_assert(height == (uint32_t)g_blocks, "zone.of-the-next-height");
  return g_zone;
}
static bool g_unlocked;
static uint64_t g_unlock_time;
extern "C" bool stub_unlocked(BC* self, uint64_t t) {
  irv_assert(t == g_unlock_time, "unlock.of-the-spent-transaction");
  return g_unlocked;
}

// ---- multisignature inputs --------------------------------------------------------------------------
static const crypto::Hash* g_prefix;
static const crypto::PublicKey* g_keys;
static const crypto::Signature* g_sigs;
static uint64_t g_nkeys, g_next, g_tries, g_matched, g_count;
extern "C" bool stub_check_signature(const crypto::Hash& h, const crypto::PublicKey& k, const crypto::Signature& s) {
  irv_assert(&h == g_prefix, "msig.signs-the-prefix");
  uint64_t i = (uint64_t)(&k - g_keys), j = (uint64_t)(&s - g_sigs);
  irv_assert(i < g_nkeys, "msig.key-of-the-output");
  irv_assert(i >= g_next, "msig.distinct-keys");
  irv_assert(j == g_matched, "msig.next-signature");
  bool ok = irv_ufbool_2("signed", i, j);
  g_next = i + 1;
  g_tries++;
  g_matched += ok;
  return ok;
}
static BC& msig_setup(MultisignatureInput& in) {
  Currency& c = mk_currency(irv_bool("testnet"));
  BC& bc = mk_chain(c);
  in.amount = irv_u64("amount");
  in.signatureCount = irv_u8("signatureCount");
  in.outputIndex = irv_u32("outputIndex");
  in.term = irv_u32("term");
  g_key = in.amount;
  *(uint64_t*)g_slot = g_key;
  g_zone = irv_bool("zone");
  return bc;
}
// the amount was never paid to a multisignature output, or not that often
extern "C" void mod_msig_absent() {
  MultisignatureInput in;
  BC& bc = msig_setup(in);
  g_present = irv_bool("present");
  uint64_t nu = irv_len("usages");
  irv::vec_raw(*(Usages*)(g_slot + 8), "usages", nu, "0:4,4:2,8:2,10:1<2");
  REQUIRES(!g_present | (in.outputIndex >= nu));
  std::vector<crypto::Signature> sigs;
  crypto::Hash th, ph;
  irv_cover("absent");
  irv_assert(!bc.validateInput(in, th, ph, sigs), "msig.must-exist");
}
extern "C" void mod_msig() {
  MultisignatureInput in;
  BC& bc = msig_setup(in);
  g_present = true;
  uint64_t nu = irv_len("usages");
  Usages& us = *(Usages*)(g_slot + 8);
  irv::vec_raw(us, "usages", nu, "0:4,4:2,8:2,10:1<2");
  REQUIRES(in.outputIndex < nu);
  const BC::MultisignatureOutputUsage& u = us.data()[in.outputIndex];
  // the transaction that the usage refers to
  g_entry = (BC::BlockEntry*)irv_lazy_object("entry", sizeof(BC::BlockEntry));
  g_entry_index = u.transactionIndex.block;
  g_tx_index = u.transactionIndex.transaction;
  g_tx = (BC::TransactionEntry*)irv_lazy_object("txentry", sizeof(BC::TransactionEntry));
  Transaction& tx = g_tx->tx;
  uint64_t no = irv_len("outputs");
  irv::vec_raw(tx.outputs, "outputs", no, OUT_LAYOUT);
  g_unlock_time = irv_u64("unlockTime");
  tx.unlockTime = g_unlock_time;
  g_unlocked = irv_bool("unlocked");
  // representation invariant of the output index
  REQUIRES(u.outputIndex < no);
  OutView o{(const char*)tx.outputs.data() + u.outputIndex * sizeof(TransactionOutput)};
  REQUIRES(!o.key());
  REQUIRES(o.amount() == in.amount);
  const std::vector<crypto::PublicKey>& keys = *(const std::vector<crypto::PublicKey>*)(o.p + 16);
  g_keys = keys.data();
  g_nkeys = keys.size();
  g_next = g_tries = g_matched = 0;
  std::vector<crypto::Signature> sigs;
  uint64_t ns = in.signatureCount;
  irv::vec_raw(sigs, "signatures", ns, "0:64");
  g_sigs = sigs.data();
  crypto::Hash th, ph;
  g_prefix = &ph;
  irv_cover("validateInput");
  bool ok = bc.validateInput(in, th, ph, sigs);
  // terms are limited when the output is created (C03), heights are below 2^31
  REQUIRES(o.term() <= cn::parameters::DEPOSIT_MAX_TERM_V1 && u.transactionIndex.block < 1u << 31);
  bool structural = !u.isUsed & g_unlocked & (in.signatureCount == o.required()) & (in.term == o.term()) &
                    ((o.term() == 0) | ((uint64_t)u.transactionIndex.block + o.term() <= g_blocks));
  irv_assert(irv_implies(ok, structural), "msig.spends-an-unspent-unlocked-matured-output");
  irv_assert(irv_implies(structural & g_zone, ok), "msig.accepted-in-checkpoint-zone");
  irv_assert(irv_implies(ok & !g_zone, g_matched == in.signatureCount), "msig.enough-signatures");
  irv_assert(irv_implies(structural & !g_zone & !ok, irv_and(g_tries == g_nkeys, g_matched < in.signatureCount)), "msig.rejected-only-without-signatures");
}

// ---- inputs that spend a key output -----------------------------------------------------------------
static const KeyInput* g_in;
static bool g_scan_ok;
static uint64_t g_nfound;
static const crypto::PublicKey** g_found;
extern "C" bool stub_scan(BC* self, const KeyInput& in, void* visitor, uint32_t* pmax) {
  irv_assert(&in == g_in, "ring.outputs-of-the-input");
  const void*** v = *(const void****)visitor;
  v[0] = (const void**)g_found;
  v[1] = v[2] = (const void**)g_found + g_nfound;
  return g_scan_ok;
}
static bool g_ring_ok, g_ring_checked;
extern "C" bool stub_ring(const crypto::Hash& h, const crypto::KeyImage& image, const crypto::PublicKey* const* pubs, size_t n, const crypto::Signature* sig) {
  irv_assert(&h == g_prefix, "ring.signs-the-prefix");
  irv_assert(&image == &g_in->keyImage, "ring.image-of-the-input");
  irv_assert(pubs == g_found && n == g_nfound, "ring.keys-of-the-outputs");
  irv_assert(sig == g_sigs, "ring.signatures-of-the-input");
  g_ring_checked = true;
  return g_ring_ok;
}
static bool g_in_subgroup;
extern "C" crypto::KeyImage stub_scalarmult(const crypto::KeyImage& P, const crypto::KeyImage& a) {
  // a must be the order of the prime subgroup
  static const uint8_t L[32] = {0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10};
  irv_assert(&P == &g_in->keyImage, "domain.image-of-the-input");
  irv_assert(memcmp(&a, L, 32) == 0, "domain.times-group-order");
  crypto::KeyImage r;
  memset(&r, 0, 32);
  r.data[0] = g_in_subgroup ? 1 : 2;
  return r;
}
extern "C" void mod_key_input() {
  Currency& c = mk_currency(irv_bool("testnet"));
  BC& bc = mk_chain(c);
  KeyInput& in = *(KeyInput*)::operator new(sizeof(KeyInput));
  memset(&in, 0, sizeof(in));
  g_in = &in;
  in.amount = irv_u64("amount");
  uint64_t ni = irv_len("indexes");
  irv::vec_raw(in.outputIndexes, "indexes", ni, "0:4");
  irv_bytes("image", &in.keyImage, 32);
  g_nfound = irv_len("found");
  g_found = (const crypto::PublicKey**)irv_array("found", g_nfound, 8, "0:8");
  std::vector<crypto::Signature>& sig = *new std::vector<crypto::Signature>();
  uint64_t ns = irv_len("signatures");
  irv::vec_raw(sig, "signatures", ns, "0:64");
  g_sigs = sig.data();
  crypto::Hash ph;
  g_prefix = &ph;
  g_scan_ok = irv_bool("scan");
  g_ring_ok = irv_bool("ring");
  g_zone = irv_bool("zone");
  g_in_subgroup = irv_bool("subgroup");
  uint32_t maxh = 0;
  irv_cover("check_tx_input");
  bool ok = bc.check_tx_input(in, ph, sig, &maxh);
  uint32_t h = (uint32_t)g_blocks;
  bool small = (h > cn::parameters::UPGRADE_HEIGHT_V4) & (h < cn::parameters::UPGRADE_HEIGHT_V5) & (ni < 3);
  bool structural = g_scan_ok & (ni == g_nfound) & !small & (ns == g_nfound);
  irv_assert(irv_iff(ok, structural & (g_zone | (g_in_subgroup & g_ring_ok))), "ring.accepted-iff-valid");
  irv_assert(irv_implies(ok & !g_zone, g_ring_checked), "ring.signature-is-checked");
}

// ---- the outputs an input refers to -----------------------------------------------------------------
typedef std::vector<std::pair<BC::TransactionIndex, uint16_t>> AmountOuts;
extern "C" BC::outputs_container::iterator stub_outs_find(BC::outputs_container* self, const uint64_t& k) {
  irv_assert((void*)self == (void*)&g_bc->m_outputs, "ring.lookup-in-the-output-index");
  irv_assert(k == g_key, "ring.lookup-by-input-amount");
  BC::outputs_container::iterator it;
  void** raw = (void**)&it;
  memset((void*)&it, 0, sizeof(it));
  if (g_present) {
    raw[0] = (void*)self;
    it.it_.ctrl_ = (decltype(it.it_.ctrl_))g_ctrl;
    it.it_.slot_ = (decltype(it.it_.slot_))g_slot;
  }
  return it;
}
static uint64_t g_nabs, g_nouts, g_visited, g_valid;
static const uint32_t* g_abs;
static const char* g_entries;    // the transaction that the i-th referenced output belongs to
static const char* g_outs;       // pairs (transaction index, output index): 12 bytes each
extern "C" std::vector<uint32_t> stub_absolute(const std::vector<uint32_t>& rel) {
  irv_assert(&rel == &g_in->outputIndexes, "ring.indexes-of-the-input");
#ifdef IRV_SYMBOLIC
  std::vector<uint32_t> r;
  ((const uint32_t**)&r)[0] = g_abs;
  ((const uint32_t**)&r)[1] = ((const uint32_t**)&r)[2] = g_abs + g_nabs;
  return r;
#else
  return std::vector<uint32_t>(g_abs, g_abs + g_nabs);
#endif
}
static uint32_t out_block(uint64_t i) { return *(const uint32_t*)(g_outs + 12 * (uint64_t)g_abs[i]); }
static uint16_t out_tx(uint64_t i) { return *(const uint16_t*)(g_outs + 12 * (uint64_t)g_abs[i] + 4); }
static uint16_t out_no(uint64_t i) { return *(const uint16_t*)(g_outs + 12 * (uint64_t)g_abs[i] + 8); }
static const BC::TransactionEntry& entry(uint64_t i) { return *(const BC::TransactionEntry*)(g_entries + i * sizeof(BC::TransactionEntry)); }
extern "C" const BC::TransactionEntry& stub_tx_by_index(BC* self, BC::TransactionIndex ix) {
  irv_assert((ix.block == out_block(g_visited)) & (ix.transaction == out_tx(g_visited)), "ring.transaction-of-the-output");
  return entry(g_visited);
}
extern "C" bool stub_unlocked_at(BC* self, uint64_t t) {
  irv_assert(t == entry(g_visited).tx.unlockTime, "ring.unlock-time-of-the-output");
  return irv_ufbool_1("unlocked", g_visited);
}
// the i-th referenced output exists, is spendable and is a key output
static bool member_ok(uint64_t i) {
  if (!(g_abs[i] < g_nouts)) return false;
  if (!(out_no(i) < entry(i).tx.outputs.size())) return false;
  return irv_ufbool_1("unlocked", i) & OutView{(const char*)entry(i).tx.outputs.data() + out_no(i) * sizeof(TransactionOutput)}.key();
}
extern "C" void stub_collect(std::vector<const crypto::PublicKey*>* v, const crypto::PublicKey* const& key) {
  irv_assert(g_visited < g_nabs, "ring.one-key-per-index");
  irv_assert((const char*)key == (const char*)entry(g_visited).tx.outputs.data() + out_no(g_visited) * sizeof(TransactionOutput) + 16, "ring.key-of-the-output");
  g_valid += (g_valid == g_visited) & member_ok(g_visited);
  g_visited++;
}
extern "C" uint64_t stub_collected(const std::vector<const crypto::PublicKey*>*) { return g_visited; }
extern "C" bool stub_ring_vector(const crypto::Hash&, const crypto::KeyImage&, const std::vector<const crypto::PublicKey*>&, const crypto::Signature*) { return g_ring_ok; }
extern "C" void mod_ring() {
  Currency& c = mk_currency(irv_bool("testnet"));
  BC& bc = mk_chain(c);
  KeyInput& in = *(KeyInput*)::operator new(sizeof(KeyInput));
  memset(&in, 0, sizeof(in));
  g_in = &in;
  in.amount = g_key = irv_u64("amount");
  uint64_t n = irv_len("indexes");
  irv::vec_raw(in.outputIndexes, "indexes", n, "0:4");
  g_abs = (const uint32_t*)irv_array("absolute", n, 4, "0:4");
  g_nabs = n;
  irv_keep(g_abs);
  g_present = irv_bool("present");
  *(uint64_t*)g_slot = g_key;
  g_nouts = irv_len("outputs");
  irv::vec_raw(*(AmountOuts*)(g_slot + 8), "outputs", g_nouts, "0:4,4:2,8:2");
  g_outs = (const char*)((AmountOuts*)(g_slot + 8))->data();
  static_assert(sizeof(BC::TransactionEntry) == 136 && sizeof(TransactionOutput) == 48, "layout");
  g_entries = (const char*)irv_array("entries", n, 136, "8:8,40:v48/8.4.2");
  g_visited = g_valid = 0;
  std::vector<crypto::Signature>& sig = *new std::vector<crypto::Signature>();
  uint64_t ns = irv_len("signatures");
  irv::vec_raw(sig, "signatures", ns, "0:64");
  g_sigs = sig.data();
  crypto::Hash ph;
  g_prefix = &ph;
  g_ring_ok = irv_bool("ring");
  g_zone = irv_bool("zone");
  g_in_subgroup = true;
  uint32_t maxh = 0;
  uint32_t h = (uint32_t)g_blocks;
  irv_cover("ring");
  bool ok = bc.check_tx_input(in, ph, sig, &maxh);
  irv_assert(irv_implies(ok, g_present & (n != 0)), "ring.some-existing-output-of-the-amount");
  irv_assert(irv_implies(ok, g_visited == n), "ring.every-index-is-resolved");
  irv_assert(irv_implies(ok, g_valid == n), "ring.every-member-exists-is-unlocked-and-a-key");
  if (g_present & (n != 0) & (g_visited < n)) {
    irv_assert(!ok & !member_ok(g_visited), "ring.refused-only-for-an-invalid-member");
  }
}

// ---- all inputs of a transaction --------------------------------------------------------------------
static TxView g_t;
static uint64_t g_good;
static crypto::Hash g_prefix_hash;
static uint64_t in_index(const void* p, uint64_t off) { return (uint64_t)((const char*)p - off - g_t.ip) / sizeof(TransactionInput); }
static bool input_ok(uint64_t i) {
  InView v = g_t.in(i);
  const std::vector<uint32_t>& idx = *(const std::vector<uint32_t>*)(v.p + 16);
  bool k = v.key() & (idx.size() != 0) & !irv_ufbool_1("spent", i) & irv_ufbool_1("keyok", i);
  return k | (v.msig() & irv_ufbool_1("msigok", i));
}
extern "C" crypto::Hash stub_hash(const void* o) {
  irv_assert(o == (const void*)g_t.tx, "inputs.hash-of-the-transaction");
  return g_prefix_hash;
}
extern "C" bool stub_spent(BC* self, const crypto::KeyImage& im) { return irv_ufbool_1("spent", in_index(&im, 40)); }
extern "C" bool stub_key(BC* self, const KeyInput& in, const crypto::Hash& ph, const std::vector<crypto::Signature>& sig, uint32_t* pmax) {
  uint64_t i = in_index(&in, 8);
  irv_assert(&sig == g_t.tx->signatures.data() + i, "inputs.own-signatures");
  irv_assert(memcmp(&ph, &g_prefix_hash, 32) == 0, "inputs.prefix-hash");
  g_good += (i == g_good) & input_ok(i);
  return irv_ufbool_1("keyok", i);
}
extern "C" bool stub_msig(BC* self, const MultisignatureInput& in, const crypto::Hash& th, const crypto::Hash& ph, const std::vector<crypto::Signature>& sig) {
  uint64_t i = in_index(&in, 8);
  irv_assert(&sig == g_t.tx->signatures.data() + i, "inputs.own-signatures");
  irv_assert(memcmp(&ph, &g_prefix_hash, 32) == 0, "inputs.prefix-hash");
  g_good += (i == g_good) & input_ok(i);
  return irv_ufbool_1("msigok", i);
}
extern "C" void mod_inputs() {
  Currency& c = mk_currency(irv_bool("testnet"));
  BC& bc = mk_chain(c);
  g_t = mk_tx();
  // one signature vector per input (a property of deserialised transactions)
  irv::vec_raw(g_t.tx->signatures, "signatures", g_t.ni, "0:v64");
  irv_bytes("prefix", &g_prefix_hash, 32);
  g_good = 0;
  uint32_t maxh = 7;
  irv_cover("inputs");
  bool ok = bc.checkTransactionInputs(*g_t.tx, &maxh);
  irv_assert(irv_implies(ok, g_good == g_t.ni), "inputs.every-input-is-valid");
  if (!ok) {
    irv_assert(g_good < g_t.ni, "inputs.refused-only-for-an-invalid-input");
    irv_assert(!input_ok(g_good), "inputs.refused-only-for-an-invalid-input");
  }
}
extern "C" std::string stub_format(const Currency*, uint64_t) { return std::string(); }   // log text only

// ---- unlock times -----------------------------------------------------------------------------------
static uint64_t g_now;
extern "C" time_t stub_time(time_t*) { return (time_t)g_now; }
extern "C" void mod_unlock() {
  Currency& c = mk_currency(irv_bool("testnet"));
  BC& bc = mk_chain(c);
  REQUIRES(g_blocks >= 1);            // the genesis block is always there
  g_now = irv_u64("now");
  REQUIRES(g_now < 1ull << 62);
  uint64_t t = irv_u64("unlock");
  irv_cover("unlock");
  bool ok = bc.is_tx_spendtime_unlocked(t);
  // below 500 million: a block height that the next block must reach; otherwise a time, with one block of tolerance
  bool want = t < 500000000 ? g_blocks >= t : g_now + 120 >= t;
  irv_assert(irv_iff(ok, want), "unlock.height-or-time");
}
