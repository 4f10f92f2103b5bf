// Arbitrary transactions: any number of inputs and outputs, any contents.
#pragma once
#include "currency.h"
#include "CryptoNoteCore/CryptoNoteBasic.h"
namespace {
using namespace cn;
// boost::variant<BaseInput, KeyInput, MultisignatureInput>: tag at 0, payload at 8

#define IN_LAYOUT "w0,0:4<3,8:8,16:1@2,20:4@2,24:4@2,16:v4@1,40:32@1"
// TransactionOutput: amount at 0, variant<KeyOutput, MultisignatureOutput> at 8
#define OUT_LAYOUT "w8,0:8,8:4<2,16:32@0,16:v32@1,40:1@1,44:4@1"
struct InView {
  const char* p;
  uint32_t which() const { return *(const uint32_t*)p; }
  bool key() const { return which() == 1; }
  bool msig() const { return which() == 2; }
  uint32_t height() const { return *(const uint32_t*)(p + 8); }
  uint64_t amount() const { return *(const uint64_t*)(p + 8); }
  uint32_t index() const { return *(const uint32_t*)(p + 20); }
  uint32_t term() const { return *(const uint32_t*)(p + 24); }
  uint8_t sigs() const { return *(const uint8_t*)(p + 16); }
};
struct OutView {
  const char* p;
  uint64_t amount() const { return *(const uint64_t*)p; }
  uint32_t which() const { return *(const uint32_t*)(p + 8); }
  bool key() const { return which() == 0; }
  uint8_t required() const { return *(const uint8_t*)(p + 40); }
  uint32_t term() const { return *(const uint32_t*)(p + 44); }
};
struct TxView {
  Transaction* tx;
  const char *ip, *op;
  uint64_t ni, no;
  InView in(uint64_t i) const { return InView{ip + i * sizeof(TransactionInput)}; }
  OutView out(uint64_t i) const { return OutView{op + i * sizeof(TransactionOutput)}; }
};
inline TxView fill_tx(Transaction* tx) {
  TxView v;
  v.tx = tx;
  v.ni = irv_len("inputs");
  v.no = irv_len("outputs");
  irv::vec_raw(v.tx->inputs, "inputs", v.ni, IN_LAYOUT);
  irv::vec_raw(v.tx->outputs, "outputs", v.no, OUT_LAYOUT);
  v.ip = (const char*)v.tx->inputs.data();
  v.op = (const char*)v.tx->outputs.data();
  return v;
}
inline TxView mk_tx() { return fill_tx(new (::operator new(sizeof(Transaction))) Transaction()); }
}
