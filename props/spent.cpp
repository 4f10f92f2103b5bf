// Bookkeeping of the chain state: which outputs are spent, which exist, which transactions are known.
#include "chain.h"
using namespace cn;
typedef BC::key_images_container KIC;
typedef BC::outputs_container OC;
typedef BC::MultisignatureOutputsContainer MOC;
typedef BC::TransactionMap TM;
typedef std::vector<std::pair<BC::TransactionIndex, uint16_t>> KeyOuts;
typedef std::vector<BC::MultisignatureOutputUsage> Usages;

// ---- contracts of the containers, seen from one arbitrary element ------------------------------------
static crypto::KeyImage g_x;          // an arbitrary key image
static bool g_spent;                  // whether it is in the set of spent keys
static uint32_t g_spent_height;
static crypto::Hash g_hash;           // the transaction
static bool g_known;                  // whether it is in the transaction map
static BC::TransactionIndex g_index;
static bool same(const void* a, const void* b) { return memcmp(a, b, 32) == 0; }
extern "C" std::pair<KIC::iterator, bool> stub_spend(KIC* self, std::pair<crypto::KeyImage, uint32_t>& v) {
  irv_assert((void*)self == (void*)&g_bc->m_spent_keys, "spent.set");
  std::pair<KIC::iterator, bool> r;
  memset((void*)&r, 0, sizeof r);
  if (same(&v.first, &g_x)) {
    r.second = !g_spent;
    if (!g_spent) { g_spent = true; g_spent_height = v.second; }
  } else r.second = irv_ufmbool("fresh", &v.first, 32);
  return r;
}
extern "C" uint64_t stub_unspend(KIC* self, const crypto::KeyImage& k) {
  irv_assert((void*)self == (void*)&g_bc->m_spent_keys, "spent.set");
  if (same(&k, &g_x)) {
    bool was = g_spent;
    g_spent = false;
    return was;
  }
  return irv_ufmbool("there", &k, 32);
}
extern "C" std::pair<TM::iterator, bool> stub_tx_insert(TM* self, std::pair<crypto::Hash, BC::TransactionIndex>& v) {
  irv_assert(same(&v.first, &g_hash), "transaction.known-under-its-hash");
  std::pair<TM::iterator, bool> r;
  memset((void*)&r, 0, sizeof r);
  r.second = !g_known;
  if (!g_known) { g_known = true; g_index = v.second; }
  return r;
}
extern "C" uint64_t stub_tx_erase(TM* self, const crypto::Hash& h) {
  irv_assert(same(&h, &g_hash), "transaction.known-under-its-hash");
  bool was = g_known;
  g_known = false;
  return was;
}
// multisignature outputs of one arbitrary amount; one arbitrary output among them
static uint64_t g_amount, g_at, g_msig_len, g_key_len;
static bool g_has_amount, g_has_key_amount;
static BC::MultisignatureOutputUsage g_usage, g_other_usage;
static char g_slot[32], g_other_slot[32], g_kslot[32], g_other_kslot[32];
static int8_t g_ctrl[32];
static Usages& vec_a() { return *(Usages*)(g_slot + 8); }
static Usages& vec_b() { return *(Usages*)(g_other_slot + 8); }
static KeyOuts& kvec_a() { return *(KeyOuts*)(g_kslot + 8); }
static KeyOuts& kvec_b() { return *(KeyOuts*)(g_other_kslot + 8); }
extern "C" MOC::iterator stub_moc_find(MOC* self, const uint64_t& k) {
  MOC::iterator it;
  void** raw = (void**)&it;
  memset((void*)&it, 0, sizeof(it));
  bool a = k == g_amount;
  if (a ? g_has_amount : irv_ufbool_1("amountthere", k)) {
    raw[0] = (void*)self;
    it.it_.ctrl_ = (decltype(it.it_.ctrl_))g_ctrl;
    it.it_.slot_ = (decltype(it.it_.slot_))(a ? g_slot : g_other_slot);
  }
  return it;
}
static uint64_t g_other_amount;
extern "C" Usages& stub_moc_at(MOC* self, const uint64_t& k) {
  if (k == g_amount) { g_has_amount = true; return vec_a(); }
  g_other_amount = k;
  return vec_b();
}
extern "C" uint64_t stub_usages_size(const Usages* v) { return v == &vec_a() ? g_msig_len : irv_uf64_1("otherlen", g_other_amount); }
extern "C" BC::MultisignatureOutputUsage& stub_usages_at(Usages* v, uint64_t i) {
  irv_assert((v != &vec_a()) | (i < g_msig_len), "multisignature.existing-output");
  return (v == &vec_a()) & (i == g_at) ? g_usage : g_other_usage;
}
static uint64_t g_out, g_pushed_at;   // an arbitrary output of the transaction, the place it went to
static bool g_pushed;
static BC::MultisignatureOutputUsage g_pushed_usage;
extern "C" void stub_usages_push(Usages* v, const BC::MultisignatureOutputUsage& u) {
  if (v == &vec_a()) {
    if (u.outputIndex == g_out) { g_pushed = true; g_pushed_at = g_msig_len; g_pushed_usage = u; }
    ++g_msig_len;
  }
}
extern "C" KeyOuts& stub_oc_at(OC* self, const uint64_t& k) {
  if (k == g_amount) { g_has_key_amount = true; return kvec_a(); }
  g_other_amount = k;
  return kvec_b();
}
extern "C" uint64_t stub_keyouts_size(const KeyOuts* v) { return v == &kvec_a() ? g_key_len : irv_uf64_1("otherlen", g_other_amount); }
static std::pair<BC::TransactionIndex, uint16_t> g_pushed_key;
extern "C" void stub_keyouts_push(KeyOuts* v, std::pair<BC::TransactionIndex, uint16_t>& u) {
  if (v == &kvec_a()) {
    if (u.second == g_out) { g_pushed = true; g_pushed_at = g_key_len; g_pushed_key = u; }
    ++g_key_len;
  }
}
static BC::BlockEntry* g_entry;
static BC::TransactionEntry* g_tx;
static uint64_t g_tx_index;
extern "C" BC::TransactionEntry& stub_entry(std::vector<BC::TransactionEntry>* v, uint64_t i) {
  irv_assert(((void*)v == (void*)&g_entry->transactions) & (i == g_tx_index), "transaction.of-the-block");
  return *g_tx;
}
static bool g_diff;
extern "C" bool stub_diff(const TransactionPrefix& tx) { return g_diff; }
static unsigned g_payment;
extern "C" bool stub_payment_add(PaymentIdIndex*, const Transaction&) { ++g_payment; return true; }
extern "C" bool stub_payment_remove(PaymentIdIndex*, const Transaction&) { --g_payment; return true; }
static uint32_t g_height;
static BC::TransactionIndex g_ti;
static TxView setup(BC*& bc) {
  Currency& c = mk_currency(irv_bool("testnet"));
  bc = &mk_chain(c);
  irv_bytes("image", &g_x, 32);
  irv_bytes("hash", &g_hash, 32);
  g_spent = irv_bool("spent");
  g_known = irv_bool("known");
  g_amount = irv_u64("amount");
  g_at = irv_u32("at");
  g_out = irv_u16("out");
  g_has_amount = irv_bool("hasamount");
  g_msig_len = g_has_amount ? irv_len("usages") : 0;
  g_key_len = irv_len("keyouts");
  g_usage.isUsed = irv_bool("used");
  g_diff = irv_bool("diff");
  g_payment = 5;
  g_pushed = false;
  g_height = irv_u32("height");
  g_ti.block = irv_u32("block");
  g_ti.transaction = irv_u16("tx");
  g_tx_index = g_ti.transaction;
  g_entry = (BC::BlockEntry*)irv_lazy_object("entry", sizeof(BC::BlockEntry));
  g_entry->height = g_height;
  g_tx = new (::operator new(sizeof(BC::TransactionEntry))) BC::TransactionEntry();
  return fill_tx(&g_tx->tx);
}
extern "C" void mod_push_spent() {
  BC* bc;
  TxView t = setup(bc);
  REQUIRES(t.no == 0);
  bool spent0 = g_spent, known0 = g_known;
  irv_cover("push");
  bool ok = bc->pushTransaction(*g_entry, g_hash, g_ti);
  bool occurs = false;
  for (uint64_t i = 0; i < t.ni; ++i)
    if (t.in(i).key() && same(t.in(i).p + 40, &g_x)) { occurs = true; break; }
  irv_assert(!ok | !known0, "push.no-transaction-twice");
  irv_assert(!ok | !(spent0 & occurs), "push.no-key-image-twice");
  irv_assert(!ok | (g_spent == (spent0 | occurs)), "push.exactly-its-key-images-are-spent");
  irv_assert(!(ok & occurs) | (g_spent_height == g_height), "push.spent-at-the-height");
  irv_assert(ok | (g_spent == spent0), "rejected.key-images-as-before");
  irv_assert(g_known == (known0 | ok), "push.known-iff-accepted");
  irv_assert(!ok | ((g_index.block == g_ti.block) & (g_index.transaction == g_ti.transaction)), "push.known-at-its-place");
}
