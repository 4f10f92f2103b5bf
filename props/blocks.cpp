#include "irv.h"
#include "chain.h"
#include "Common/Math.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
using namespace cn;
namespace common { extern template uint64_t medianValue<uint64_t>(std::vector<uint64_t>&); }   // the copy of the real source file
static Currency& currency() { return mk_currency(irv_bool("testnet")); }
extern "C" crypto::Hash stub_block_hash(const Block&) { return crypto::Hash(); }      // log text only
extern "C" std::string stub_format(const Currency*, uint64_t) { return std::string(); }  // log text only

// ---- the coinbase transaction -----------------------------------------------------------------------
static Block* g_b;
static uint32_t g_height;
static bool g_outs_valid, g_outs_rules, g_outs_overflow;
extern "C" bool stub_outs_valid(const TransactionPrefix& tx, std::string*) {
  irv_assert(&tx == &g_b->baseTransaction, "coinbase.outputs-of-the-coinbase");
  return g_outs_valid;
}
extern "C" bool stub_outs_rules(const BC*, const Transaction& tx, uint32_t h) {
  irv_assert(&tx == &g_b->baseTransaction, "coinbase.outputs-of-the-coinbase");
  irv_assert(h == g_height, "coinbase.rules-of-the-height");
  return g_outs_rules;
}
extern "C" bool stub_outs_overflow(const TransactionPrefix& tx) {
  irv_assert(&tx == &g_b->baseTransaction, "coinbase.outputs-of-the-coinbase");
  return g_outs_overflow;
}
extern "C" void mod_prevalidate() {
  Currency& c = currency();
  BC& bc = mk_chain(c);
  Block& b = *new Block();
  g_b = &b;
  TxView t = fill_tx(&b.baseTransaction);
  b.baseTransaction.unlockTime = irv_u64("unlock");
  uint64_t ns = irv_len("signatures");
  irv::vec_raw(b.baseTransaction.signatures, "signatures", ns, "0:v64");
  g_height = irv_u32("height");
  REQUIRES(g_height < 1u << 31);
  g_outs_valid = irv_bool("valid");
  g_outs_rules = irv_bool("rules");
  g_outs_overflow = irv_bool("overflow");
  irv_cover("prevalidate");
  bool ok = bc.prevalidate_miner_transaction(b, g_height);
  bool want = (t.ni == 1) & (ns <= 1) & (b.baseTransaction.unlockTime == (uint64_t)g_height + 10) & g_outs_valid & g_outs_rules & g_outs_overflow;
  if (t.ni == 1) want = want & (t.in(0).which() == 0) & (t.in(0).height() == g_height);
  irv_assert(irv_iff(ok, want), "coinbase.one-base-input-of-the-height-and-fixed-unlock-time");
}

static uint64_t g_median, g_count, g_window_ok;
static bool g_reward_ok;
static uint64_t g_reward, g_size, g_generated, g_fee, g_emission;
static std::vector<size_t>* g_sizes;
extern "C" bool stub_last_sizes(BC* self, std::vector<size_t>& sz, size_t count) {
  irv_assert(sz.size() == 0, "coinbase.median-of-the-last-blocks");
  irv_assert(count == 100, "coinbase.reward-window");
  g_sizes = &sz;
  g_window_ok = 1;
  return true;
}
extern "C" uint64_t stub_median_sizes(std::vector<size_t>& v) {
  irv_assert(&v == g_sizes && g_window_ok, "coinbase.median-of-the-last-blocks");
  return g_median;
}
extern "C" bool stub_reward(const Currency* self, size_t median, size_t size, uint64_t generated, uint64_t fee, uint32_t h, uint64_t& reward, int64_t& emission) {
  irv_assert((median == g_median) & (size == g_size) & (generated == g_generated) & (fee == g_fee) & (h == g_height), "coinbase.reward-of-this-block");
  reward = g_reward;
  emission = (int64_t)g_emission;
  return g_reward_ok;
}
extern "C" void mod_validate_miner() {
  Currency& c = currency();
  BC& bc = mk_chain(c);
  Block& b = *new Block();
  g_b = &b;
  TxView t = fill_tx(&b.baseTransaction);
  g_height = irv_u32("height");
  g_size = irv_u64("size");
  g_generated = irv_u64("generated");
  g_fee = irv_u64("fee");
  g_median = irv_u64("median");
  g_reward = irv_u64("reward");
  g_emission = irv_u64("emission");
  g_reward_ok = irv_bool("rewardok");
  uint64_t reward = 0;
  int64_t em = 0;
  irv_cover("validate");
  bool ok = bc.validate_miner_transaction(b, g_height, g_size, g_generated, g_fee, reward, em);
  uint64_t spent = 0;
  for (uint64_t i = 0; i < t.no; ++i) spent += t.out(i).amount();
  // at most 10 atomic units of rounding are tolerated above the reward, none below it
  irv_assert(irv_implies(ok, g_reward_ok & (spent >= g_reward) & (spent - g_reward <= 10)), "coinbase.claims-the-reward");
  irv_assert(irv_implies(g_reward_ok & (spent >= g_reward) & (spent - g_reward <= 10), ok), "coinbase.full-claim-is-accepted");
  irv_assert(irv_implies(ok, (reward == g_reward) & (em == (int64_t)g_emission)), "coinbase.reports-reward-and-emission");
}
// the window of blocks the median is taken of
static uint64_t g_pushed, g_first;
static char* g_pushed_to;
static BC::BlockEntry* g_cur;
extern "C" const BC::BlockEntry& stub_window_block(void* self, uint64_t i) {
  irv_assert(self == (void*)&g_bc->m_blocks, "window.of-the-chain");
  irv_assert(i < g_blocks, "window.existing-block");
  irv_assert(i == g_first + g_pushed, "window.next-block");
  g_cur->block_cumulative_size = irv_uf64_1("size", i);
  g_cur->bl.timestamp = irv_uf64_1("time", i);
  g_cur->cumulative_difficulty = irv_uf64_1("cumulative", i);
  return *g_cur;
}
extern "C" void stub_push_size(std::vector<uint64_t>* v, const uint64_t& x) {
  irv_assert((char*)v == g_pushed_to, "window.own-vector");
  irv_assert(x == irv_uf64_1("size", g_first + g_pushed), "window.size-of-the-block");
  ++g_pushed;
}
extern "C" void mod_backward_sizes() {
  Currency& c = currency();
  BC& bc = mk_chain(c);
  g_cur = (BC::BlockEntry*)::operator new(sizeof(BC::BlockEntry));
  memset((void*)g_cur, 0, sizeof(*g_cur));
  uint64_t count = irv_len("count");
  std::vector<size_t>& v = *new std::vector<size_t>();
  g_pushed_to = (char*)&v;
  g_pushed = 0;
  g_first = g_blocks <= count ? 0 : g_blocks - count;
  irv_cover("sizes");
  bool ok = bc.get_last_n_blocks_sizes(v, count);
  irv_assert(ok, "window.found");
  irv_assert(g_pushed == (g_blocks < count ? g_blocks : count), "window.last-blocks");
}

// ---- header rules -----------------------------------------------------------------------------------
static void detectors(BC& bc, Currency& c) {
  new (&bc.m_upgradeDetectorV2) BC::UpgradeDetector(c, bc.m_blocks, 2, nulllog());
  new (&bc.m_upgradeDetectorV3) BC::UpgradeDetector(c, bc.m_blocks, 3, nulllog());
  new (&bc.m_upgradeDetectorV4) BC::UpgradeDetector(c, bc.m_blocks, 4, nulllog());
  new (&bc.m_upgradeDetectorV7) BC::UpgradeDetector(c, bc.m_blocks, 7, nulllog());
  new (&bc.m_upgradeDetectorV8) BC::UpgradeDetector(c, bc.m_blocks, 8, nulllog());
}
static uint8_t version_at(uint64_t h, bool testnet) {
  if (testnet) return h > 72 ? 8 : h > 60 ? 7 : h > 48 ? 4 : h > 12 ? 3 : h > 1 ? 2 : 1;
  return h > 661300 ? 8 : h > 195765 ? 7 : h > 104200 ? 4 : h > 12750 ? 3 : h > 1 ? 2 : 1;
}
extern "C" void mod_version() {
  bool testnet = irv_bool("testnet");
  Currency& c = mk_currency(testnet);
  BC& bc = mk_chain(c);
  detectors(bc, c);
  uint32_t h = irv_u32("height");
  irv_cover("version");
  irv_assert(bc.get_block_major_version_for_height(h) == version_at(h, testnet), "version.schedule");
  irv_assert(bc.getBlockMajorVersionForHeight(h) == version_at(h, testnet), "version.schedule");
}
extern "C" uint8_t stub_version(const BC*, uint64_t h) { return irv_uf64_1("version", h) & 0xff; }
extern "C" void mod_check_version() {
  Currency& c = currency();
  BC& bc = mk_chain(c);
  Block& b = *new Block();
  TxView t = fill_tx(&b.baseTransaction);
  b.majorVersion = irv_u8("major");
  crypto::Hash id;
  irv_cover("check-version");
  bool ok = bc.checkBlockVersion(b, id);
  uint64_t h = 0;
  if (t.ni == 1) h = t.in(0).which() == 0 ? t.in(0).height() : 0;
  irv_assert(irv_iff(ok, b.majorVersion == (irv_uf64_1("version", h) & 0xff)), "version.of-the-claimed-height");
}
extern "C" void mod_size_limit() {
  bool testnet = irv_bool("testnet");
  Currency& c = mk_currency(testnet);
  BC& bc = mk_chain(c);
  uint64_t h = irv_u32("height"), s = irv_u64("size");
  crypto::Hash id;
  irv_cover("limit");
  bool ok = bc.checkCumulativeBlockSize(id, s, h);
  // one million bytes, growing by 100 KiB a year
  irv_assert(irv_iff(ok, s <= 1000000 + h * 102400 / 262800), "limit.grows-with-height");
}
extern "C" uint64_t stub_median_limit(std::vector<size_t>& v) {
  irv_assert(&v == g_sizes && g_window_ok, "limit.median-of-the-last-blocks");
  return g_median;
}
extern "C" void mod_next_limit() {
  Currency& c = currency();
  BC& bc = mk_chain(c);
  g_window_ok = 0;
  g_median = irv_u64("median");
  REQUIRES(g_median < 1ull << 62);
  irv_cover("next-limit");
  bc.update_next_comulative_size_limit();
  irv_assert(bc.m_current_block_cumul_sz_limit == 2 * (g_median > 100000 ? g_median : 100000), "limit.twice-the-effective-median");
}

// ---- timestamps -------------------------------------------------------------------------------------
static uint64_t g_now;
static bool g_ts_ok;
extern "C" time_t stub_time(time_t*) { return (time_t)g_now; }
extern "C" void stub_push_time(std::vector<uint64_t>* v, const uint64_t& x) {
  irv_assert(x == irv_uf64_1("time", g_first + g_pushed), "time.timestamp-of-the-block");
  ++g_pushed;
}
extern "C" bool stub_check_timestamp(BC*, std::vector<uint64_t>* ts, const Block& b) {
  irv_assert(&b == g_b, "time.of-the-block");
  irv_assert(g_pushed == (g_blocks < 30 ? g_blocks : 30), "time.last-30-blocks");
  return g_ts_ok;
}
extern "C" void mod_timestamp_main() {
  Currency& c = currency();
  BC& bc = mk_chain(c);
  g_cur = (BC::BlockEntry*)::operator new(sizeof(BC::BlockEntry));
  memset((void*)g_cur, 0, sizeof(*g_cur));
  Block& b = *new Block();
  g_b = &b;
  b.timestamp = irv_u64("timestamp");
  g_now = irv_u64("now");
  REQUIRES(g_now < 1ull << 62);
  g_ts_ok = irv_bool("ok");
  g_pushed = 0;
  g_first = g_blocks <= 30 ? 0 : g_blocks - 30;
  irv_cover("time-main");
  bool ok = bc.check_block_timestamp_main(b);
  irv_assert(irv_iff(ok, (b.timestamp <= g_now + 7200) & g_ts_ok), "time.not-too-far-ahead-and-median-rule");
}
static const uint64_t* g_ts;
static uint64_t g_nts;
extern "C" uint64_t stub_median_time(std::vector<uint64_t>& v) {
  irv_assert((v.data() == g_ts) & (v.size() == g_nts), "time.median-of-the-window");
  return g_median;
}
extern "C" void mod_timestamp() {
  Currency& c = currency();
  BC& bc = mk_chain(c);
  Block& b = *new Block();
  b.timestamp = irv_u64("timestamp");
  std::vector<uint64_t>& v = *new std::vector<uint64_t>();
  g_nts = irv_len("n");
  irv::vec_raw(v, "times", g_nts, "0:8");
  g_ts = v.data();
  g_median = irv_u64("median");
  irv_cover("time");
  bool ok = bc.check_block_timestamp(std::move(v), b);
  irv_assert(irv_iff(ok, (g_nts < 30) | (b.timestamp >= g_median)), "time.at-least-the-median");
}
static std::vector<uint64_t>* g_v;
static uint64_t* g_sorted;
static bool g_is_sorted;
extern "C" void stub_sort(uint64_t* b, uint64_t* e) {
  irv_assert((b == g_ts) & (e == g_ts + g_nts), "median.sorts-everything");
  ((uint64_t**)g_v)[0] = g_sorted;
  ((uint64_t**)g_v)[1] = ((uint64_t**)g_v)[2] = g_sorted + g_nts;
}
extern "C" void mod_median() {
  std::vector<uint64_t>& v = *new std::vector<uint64_t>();
  g_v = &v;
  g_nts = irv_len("n");
  irv::vec_raw(v, "values", g_nts, "0:8");
  g_ts = v.data();
  g_sorted = (uint64_t*)irv_array("sorted", g_nts, 8, "0:8");
  if (g_nts == 1) REQUIRES(g_sorted[0] == g_ts[0]);
  irv_cover("median");
  uint64_t m = common::medianValue(v);
  uint64_t want = 0;
  if (g_nts & 1) want = g_sorted[g_nts / 2];
  else if (g_nts) want = (g_sorted[g_nts / 2 - 1] + g_sorted[g_nts / 2]) / 2;
  irv_assert(m == want, "median.middle-of-the-sorted-values");
}

// ---- the window the next difficulty is computed of ----------------------------------------------------
static uint8_t g_v1, g_v2;
static uint64_t g_expect, g_result, g_called, g_reads;
extern "C" uint8_t stub_v1(const BC*, uint32_t h) {
  irv_assert(h == (uint32_t)g_blocks, "next.version-of-the-next-block");
  return g_v1;
}
extern "C" uint8_t stub_v2(const BC*, uint64_t h) {
  irv_assert(h == g_blocks + 1, "next.version-of-the-block-after");
  return g_v2;
}
extern "C" const BC::BlockEntry& stub_next_block(void* self, uint64_t i) {
  irv_assert(self == (void*)&g_bc->m_blocks, "next.of-the-chain");
  irv_assert((i >= g_first) & (i < g_blocks), "next.block-of-the-window");
  uint64_t k = i - g_first, guess = g_reads++ / 2;
  if (k == guess) { irv_debug("usual order"); k = guess; }      // the usual order: spares the solver a case analysis
  g_cur->bl.timestamp = irv_uf64_1("time", k);
  g_cur->cumulative_difficulty = irv_uf64_1("cumulative", k);
  return *g_cur;
}
static uint64_t window_ok(const std::vector<uint64_t>& t, const std::vector<uint64_t>& d) {
  irv_assert((t.size() == g_expect) & (d.size() == g_expect), "next.window-length");
  bool ok = true;
  for (uint64_t k = 0; k < t.size(); ++k) ok = ok & (t[k] == irv_uf64_1("time", k)) & (d[k] == irv_uf64_1("cumulative", k));
  irv_assert(ok, "next.times-and-difficulties-of-the-last-blocks");
  return g_result;
}
extern "C" uint64_t stub_lwma1(const Currency*, std::vector<uint64_t>* t, std::vector<uint64_t>* d, uint64_t h) {
  irv_assert((g_v2 >= 8) & (h == g_blocks), "next.rule-of-the-version");
  g_called++;
  return window_ok(*t, *d);
}
extern "C" uint64_t stub_lwma3(const Currency*, std::vector<uint64_t>* t, std::vector<uint64_t>* d) {
  irv_assert((g_v2 >= 4) & (g_v2 < 8), "next.rule-of-the-version");
  g_called++;
  return window_ok(*t, *d);
}
extern "C" uint64_t stub_old(const Currency*, uint8_t v, uint32_t i, std::vector<uint64_t>* t, std::vector<uint64_t>* d) {
  irv_assert(false, "next.rule-of-the-version");
  return 0;
}
static void next_difficulty(uint64_t lo, uint64_t hi) {
  Currency& c = currency();
  BC& bc = mk_chain(c);
  REQUIRES((g_blocks >= lo) & (g_blocks <= hi));
  g_cur = (BC::BlockEntry*)::operator new(sizeof(BC::BlockEntry));
  memset((void*)g_cur, 0, sizeof(*g_cur));
  g_v1 = irv_u8("v1");
  g_v2 = irv_u8("v2");
  REQUIRES((g_v1 >= 4) & (g_v2 >= 4));
  // the last 61 blocks, never the genesis block
  uint64_t n = 61;
  g_first = g_blocks > n ? g_blocks - n : 1;
  g_expect = g_blocks - g_first;
  g_result = irv_u64("result");
  g_called = g_reads = 0;
  irv_cover("next");
  uint64_t d = bc.getDifficultyForNextBlock();
  irv_assert((d == g_result) & (g_called == 1), "next.difficulty-of-the-window");
}
extern "C" void mod_next_difficulty() { next_difficulty(64, 1u << 31); }
extern "C" void mod_next_difficulty_start() { next_difficulty(1, 63); }
