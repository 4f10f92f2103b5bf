// Contract language of the verifier: the same harness is (a) compiled to LLVM IR and
// proved by irv for all inputs and (b) compiled natively to replay counterexamples.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <new>
#include <vector>
#include <string>
extern "C" {
uint64_t irv_u64(const char* name);
uint32_t irv_u32(const char* name);
uint16_t irv_u16(const char* name);
uint8_t irv_u8(const char* name);
bool irv_bool(const char* name);
uint64_t irv_len(const char* name);                    // unbounded length (< 2^40)
void irv_bytes(const char* name, void* p, size_t n);   // n arbitrary bytes
void irv_assume(bool c);
void irv_assert(bool c, const char* name);
void irv_range(uint64_t x, uint64_t lo, uint64_t hi, const char* name);  // assert lo <= x <= hi
void irv_cover(const char* name);
bool irv_and(bool a, bool b);                          // non-forking connectives
bool irv_or(bool a, bool b);
bool irv_implies(bool a, bool b);
bool irv_iff(bool a, bool b);
void* irv_array(const char* name, uint64_t count, uint64_t stride, const char* layout);
void* irv_lazy_object(const char* name, uint64_t size);
void irv_keep(const void* p);
void irv_bounded(const char* why);
void irv_debug(const char* m, ...);
bool irv_same_object(const void* a, const void* b);
// uninterpreted spec functions (symbolic side only)
uint64_t irv_uf64_1(const char* n, uint64_t a);
uint64_t irv_uf64_2(const char* n, uint64_t a, uint64_t b);
uint64_t irv_uf64_3(const char* n, uint64_t a, uint64_t b, uint64_t c);
uint64_t irv_uf64_4(const char* n, uint64_t a, uint64_t b, uint64_t c, uint64_t d);
bool irv_ufbool_1(const char* n, uint64_t a);
bool irv_ufbool_2(const char* n, uint64_t a, uint64_t b);
bool irv_ufbool_3(const char* n, uint64_t a, uint64_t b, uint64_t c);
uint64_t irv_ufm64(const char* n, const void* p, uint64_t bytes);
bool irv_ufmbool(const char* n, const void* p, uint64_t bytes);
uint64_t irv_ghost_get(const char* n);
void irv_ghost_inc(const char* n);
void irv_ghost_reset(const char* n);
}
typedef unsigned __int128 u128;
namespace irv {
// a std::vector<T> of trivially copyable T with arbitrary length and contents
template <class T> inline void vec_raw(std::vector<T>& v, const char* name, uint64_t n, const char* layout) {
  void* p = irv_array(name, n, sizeof(T), layout);
  T** raw = reinterpret_cast<T**>(&v);
  raw[0] = (T*)p;
  raw[1] = (T*)p + n;
  raw[2] = (T*)p + n;
}
struct Currency_;
}
#define REQUIRES(c) irv_assume(c)
#define ENSURES(c, name) irv_assert((c), name)
