// A Blockchain in an arbitrary state: raw zeroed memory with the few members a contract needs set up.
#pragma once
#include <cstring>
#include "tx.h"
#include "CryptoNoteCore/Blockchain.h"
namespace {
typedef Blockchain BC;
#ifndef IRV_SYMBOLIC
#define NATIVE_ONLY(x) x
#else
#define NATIVE_ONLY(x)
#endif
static BC* g_bc;
static uint64_t g_blocks;       // number of blocks in the main chain
inline void set_chain_length(BC& bc, uint64_t n) {
  char** off = (char**)&bc.m_blocks.m_offsets;
#ifdef IRV_SYMBOLIC
  off[0] = (char*)::operator new(8 * n);     // only its size matters
#else
  off[0] = (char*)::operator new(8);
#endif
  off[1] = off[2] = off[0] + 8 * n;
}
inline BC& mk_chain(Currency& c) {
  void* p = ::operator new(sizeof(BC));
  memset(p, 0, sizeof(BC));
  g_bc = (BC*)p;
  void* lock = (void*)&g_bc->m_blockchain_lock;
  ((const void**)lock)[-2] = &c;
#ifndef IRV_SYMBOLIC
  new (&g_bc->logger) logging::LoggerRef(nulllog(), "bc");
  new (&g_bc->m_blockchain_lock) std::recursive_mutex();
#endif
  // the number of blocks is the length of the index of the block store
  g_blocks = irv_u32("blocks");
  set_chain_length(*g_bc, g_blocks);
  return *g_bc;
}
}
