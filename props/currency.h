// The real configuration object, built by the real CurrencyBuilder (main or test network).
#pragma once
#include "irv.h"
#include "CryptoNoteCore/Currency.h"
#include "Logging/ILogger.h"
#include "Logging/LoggerRef.h"
namespace {
struct NullLog : logging::ILogger {
  void operator()(const std::string&, logging::Level, boost::posix_time::ptime, const std::string&) override {}
};
inline logging::ILogger& nulllog() {
  return *new NullLog();
}
inline cn::CurrencyBuilder& mk_builder(bool testnet) {
  void* p = ::operator new(sizeof(cn::CurrencyBuilder));
  cn::CurrencyBuilder* b = new (p) cn::CurrencyBuilder(nulllog());
  if (testnet) b->testnet(true);
  return *b;
}
inline cn::Currency& mk_currency(bool testnet) { return mk_builder(testnet).m_currency; }
}
