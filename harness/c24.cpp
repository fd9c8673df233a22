// C24: byte order conversion.
#include "vh.h"
#include "fly/types/numeric/endian.hpp"
#include <bit>
template <typename T> static void swap() {
  using U = std::make_unsigned_t<T>;
  T v = (T)fs_u64("v");
  T s = fly::endian_swap(v);
  uint64_t eq = 1;
  for (size_t i = 0; i < sizeof(T); i++) eq &= (uint64_t)((uint8_t)((U)s >> (8 * i)) == (uint8_t)((U)v >> (8 * (sizeof(T) - 1 - i))));
  fs_assert(eq != 0, "swapping reverses the bytes");
  fs_assert(fly::endian_swap(s) == v, "swapping twice restores the value");
  T b = fly::endian_swap_if_non_native<std::endian::big>(v), l = fly::endian_swap_if_non_native<std::endian::little>(v), n = fly::endian_swap_if_non_native<std::endian::native>(v);
  fs_assert(n == v, "converting to the native order changes nothing");
  unsigned char mem[sizeof(T)]; uint64_t big = 1, little = 1;
  memcpy(mem, &b, sizeof b); for (size_t i = 0; i < sizeof(T); i++) big &= (uint64_t)(mem[i] == (uint8_t)((U)v >> (8 * (sizeof(T) - 1 - i))));
  memcpy(mem, &l, sizeof l); for (size_t i = 0; i < sizeof(T); i++) little &= (uint64_t)(mem[i] == (uint8_t)((U)v >> (8 * i)));
  fs_assert(big != 0, "big endian order puts the most significant byte first");
  fs_assert(little != 0, "little endian order puts the least significant byte first");
  fs_observe((uint64_t)(U)s); fs_observe((uint64_t)(U)b); fs_observe((uint64_t)(U)l);
  fs_reach("done");
}
#define A(T, N) FS_ENTRY c24_##N() { swap<T>(); }
A(int8_t, i8) A(uint8_t, u8) A(int16_t, i16) A(uint16_t, u16) A(int32_t, i32) A(uint32_t, u32) A(int64_t, i64) A(uint64_t, u64)
