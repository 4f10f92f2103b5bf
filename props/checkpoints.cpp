// Checkpoints: an arbitrary set of (height, hash), the container behind it is a contract.
#include "currency.h"
#include <map>
#include "CryptoNoteCore/Checkpoints.h"
using namespace cn;
typedef std::map<uint32_t, crypto::Hash> Map;
typedef std::_Rb_tree_node<std::pair<const uint32_t, crypto::Hash>> Node;
typedef std::_Rb_tree_node_base Base;
static Checkpoints* g_c;
static Base* g_header;
static Node *g_first, *g_found, *g_ub, *g_last, *g_pred;
static uint32_t g_query;               // the height whose neighbours are g_pred and g_ub
static bool has(uint32_t h) { return irv_ufbool_1("checkpoint", h); }
static Node* node(uint32_t h) {
  Node* n = new Node;
  memset((void*)n, 0, sizeof(Node));
  *(uint32_t*)n->_M_storage._M_addr() = h;
  for (int i = 0; i < 4; ++i) ((uint64_t*)((char*)n->_M_storage._M_addr() + 4))[i] = irv_uf64_2("hash", h, i);
  return n;
}
static const unsigned char* hash_of(Node* n) { return (const unsigned char*)n->_M_storage._M_addr() + 4; }
static uint32_t key_of(Node* n) { return *(const uint32_t*)n->_M_storage._M_addr(); }
// contracts of std::map
extern "C" Base* stub_find(const Map*, const uint32_t& h) {
  if (!has(h)) return g_header;
  g_found = node(h);
  return g_found;
}
extern "C" uint64_t stub_count(const Map*, const uint32_t& h) { return has(h); }
extern "C" Base* stub_upper(const Map*, const uint32_t& h) {
  irv_assert(h == g_query, "alternative.checkpoints-up-to-the-chain-height");
  if (g_header->_M_left == g_header) return g_header;
  if (key_of(g_first) > h) return g_first;
  if (key_of(g_last) <= h) return g_header;
  return g_ub;
}
extern "C" Base* stub_decrement(const Base* n) {
  if (n == g_ub) return g_pred;
  irv_assert((n == g_header) & (g_header->_M_left != g_header), "iterator.has-predecessor");
  return g_last;
}
static Checkpoints& mk(uint32_t query, uint32_t any) {
  g_c = (Checkpoints*)::operator new(sizeof(Checkpoints));
  memset((void*)g_c, 0, sizeof(Checkpoints));
#ifndef IRV_SYMBOLIC
  new (&g_c->logger) logging::LoggerRef(nulllog(), "ck");
#endif
  g_header = (Base*)((char*)&g_c->m_points + 8);
  g_query = query;
  bool some = irv_bool("some");
  uint32_t first = irv_u32("first"), last = irv_u32("last"), pred = irv_u32("pred"), next = irv_u32("next");
  uint64_t* count = (uint64_t*)((char*)g_header + sizeof(Base));
  *count = some ? 1 + (uint64_t)irv_u32("more") : 0;
  // first, last: the smallest and largest member; pred, next: the neighbours of query
  REQUIRES(!some | (has(first) & has(last) & (first <= last)));
  REQUIRES(!has(any) | (some & (first <= any) & (any <= last)));
  REQUIRES(!has(query) | (some & (first <= query) & (query <= last)));
  REQUIRES(!(some & (first <= query)) | (has(pred) & (pred <= query) & (pred >= first) & (pred <= last)));
  REQUIRES(!(some & (first <= query) & has(any) & (any <= query)) | (any <= pred));
  REQUIRES(!(some & (last <= query)) | (pred == last));
  REQUIRES(!(some & (last > query)) | (has(next) & (next > query) & (next <= last) & (next >= first)));
  g_first = node(first); g_last = node(last); g_pred = node(pred); g_ub = node(next);
  g_header->_M_left = some ? (Base*)g_first : g_header;
  g_header->_M_right = some ? (Base*)g_last : g_header;
  return *g_c;
}
extern "C" void mod_check() {
  uint32_t h = irv_u32("height");
  Checkpoints& c = mk(h, h);
  crypto::Hash x;
  irv_bytes("id", &x, 32);
  irv_cover("check");
  bool is = irv_bool("is0");
  bool three = irv_bool("three");
  bool ok = three ? c.check_block(h, x, is) : c.check_block(h, x);
  bool same = true;
  for (int i = 0; i < 4; ++i) same = same & (((const uint64_t*)&x)[i] == irv_uf64_2("hash", h, i));
  irv_assert(ok == (!has(h) | same), "checkpoint.only-its-block");
  irv_assert(!three | (is == has(h)), "checkpoint.reported");
}
extern "C" void mod_zone() {
  uint32_t h = irv_u32("height"), any = irv_u32("any");
  Checkpoints& c = mk(h, any);
  irv_cover("zone");
  bool z = c.is_in_checkpoint_zone(h);
  irv_assert(!(has(any) & (any >= h)) | z, "zone.below-a-checkpoint");
  irv_assert(!z | (has(key_of(g_last)) & (key_of(g_last) >= h)), "zone.not-above-the-last");
}
extern "C" void mod_alternative() {
  uint32_t chain = irv_u32("chain"), h = irv_u32("height"), any = irv_u32("any");
  Checkpoints& c = mk(chain, any);
  irv_cover("alternative");
  bool ok = c.is_alternative_block_allowed(chain, h);
  bool some = g_header->_M_left != g_header;
  bool zone = some & (h <= key_of(g_last));
  bool near = (uint64_t)h + 10 >= chain;
  irv_assert(!ok | (h != 0), "alternative.never-replaces-genesis");
  irv_assert(!ok | near | zone, "alternative.not-too-deep");
  irv_assert(!ok | !(has(any) & (any <= chain)) | (any < h), "alternative.above-every-checkpoint-reached");
  irv_assert(ok | (h == 0) | !(near | zone) | (some & (key_of(g_first) <= chain) & (key_of(g_pred) >= h)), "alternative.otherwise-allowed");
}
// adding: a checkpoint is neither replaced nor added without a valid hash
static unsigned g_stores;
static uint32_t g_at;
static crypto::Hash g_slot;
static bool g_hex;
extern "C" crypto::Hash& stub_at(Map*, const uint32_t& h) { ++g_stores; g_at = h; return g_slot; }
extern "C" bool stub_hex(const std::string&, crypto::Hash& h) {
  for (int i = 0; i < 4; ++i) ((uint64_t*)&h)[i] = irv_uf64_1("parsed", i);
  return g_hex;
}
extern "C" void mod_add() {
  uint32_t h = irv_u32("height");
  Checkpoints& c = mk(h, h);
  g_hex = irv_bool("hex");
  g_stores = 0;
  std::string s;
  irv_cover("add");
  bool ok = c.add_checkpoint(h, s);
  irv_assert(ok == (g_hex & !has(h)), "add.new-and-valid");
  irv_assert(g_stores == (ok ? 1u : 0u), "add.never-replaces");
  if (ok) {
    bool same = g_at == h;
    for (int i = 0; i < 4; ++i) same = same & (((uint64_t*)&g_slot)[i] == irv_uf64_1("parsed", i));
    irv_assert(same, "add.the-parsed-hash");
  }
}
