// Structure of transactions: which inputs and outputs are acceptable.
#include "tx.h"
#include "CryptoNoteConfig.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
using namespace cn;
extern "C" void mod_types() {
  TxView t = mk_tx();
  t.tx->version = irv_u8("version");
  irv_cover("types");
  bool ok = check_inputs_types_supported(*t.tx);
  bool all = true;
  for (uint64_t i = 0; i < t.ni; ++i) {
    InView v = t.in(i);
    if (!(v.key() | (v.msig() & (t.tx->version >= 2)))) { all = false; break; }
  }
  irv_assert(ok == all, "inputs.key-or-multisignature-of-version-2");
}
// a set holds an element or not; whether it is new is the contract of the container
extern "C" std::pair<void*, bool> stub_set_insert(void*, const std::pair<uint64_t, uint32_t>& x) {
  return std::make_pair((void*)0, (bool)irv_ufbool_2("new", x.first, x.second));
}
extern "C" void mod_msig_diff() {
  TxView t = mk_tx();
  irv_cover("diff");
  bool ok = checkMultisignatureInputsDiff(*t.tx);
  bool all = true;
  for (uint64_t i = 0; i < t.ni; ++i) {
    InView v = t.in(i);
    if (v.msig()) {
      if (!irv_ufbool_2("new", v.amount(), v.index())) { all = false; break; }
    }
  }
  irv_assert(ok == all, "inputs.no-output-spent-twice");
}
// points: whether a key is a point of the curve is the contract of check_key
extern "C" bool stub_check_key(const crypto::PublicKey& k) { return irv_ufmbool("point", &k, 32); }
static const std::vector<crypto::PublicKey>& keys_of(OutView v) { return *(const std::vector<crypto::PublicKey>*)(v.p + 16); }
// any number of key outputs
extern "C" void mod_outs_valid() {
  TxView t;
  t.tx = new (::operator new(sizeof(Transaction))) Transaction();
  t.no = irv_len("outputs");
  irv::vec_raw(t.tx->outputs, "outputs", t.no, "w8,0:8,8:4<1,16:32");
  t.op = (const char*)t.tx->outputs.data();
  t.tx->version = irv_u8("version");
  irv_cover("outs");
  std::string e;
  bool ok = check_outs_valid(*t.tx, &e);
  bool good = true;
  for (uint64_t i = 0; i < t.no; ++i) {
    OutView v = t.out(i);
    if (v.key() ? (v.amount() == 0) | !irv_ufmbool("point", v.p + 16, 32) : (t.tx->version < 2) | (v.required() != 0)) { good = false; break; }
  }
  irv_assert(ok == good, "outputs.all-valid");
}
// one output with any number of keys: exact
extern "C" void mod_out_valid() {
  TxView t = mk_tx();
  REQUIRES(t.no == 1);
  t.tx->version = irv_u8("version");
  irv_cover("out");
  std::string e;
  bool quiet = irv_bool("noerror");
  bool ok = check_outs_valid(*t.tx, quiet ? nullptr : &e);
  OutView v = t.out(0);
  bool good = v.key() ? v.amount() != 0 : (t.tx->version >= 2) & (v.required() <= keys_of(v).size());
  if (v.key()) good = good & irv_ufmbool("point", v.p + 16, 32);
  else if (good) {
    uint64_t n = keys_of(v).size();
    for (uint64_t j = 0; j < n; ++j)
      if (!irv_ufmbool("point", &keys_of(v)[j], 32)) { good = false; break; }
  }
  irv_assert(ok == good, "outputs.valid");
}
