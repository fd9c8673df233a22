// Harness interface: executed symbolically by flysym, concretely by native.cpp (replay).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint8_t fs_u8(const char *name);
uint16_t fs_u16(const char *name);
uint32_t fs_u32(const char *name);
uint64_t fs_u64(const char *name);
bool fs_bool(const char *name);
void fs_bytes(void *p, size_t n, const char *name);
unsigned fs_choose(unsigned n, const char *name); // 0..n-1, one path each
void fs_assume(bool);
void fs_assert(bool, const char *msg);
void fs_reach(const char *mark);
void fs_observe(uint64_t);
uint64_t fs_concretize(uint64_t);
uint64_t fs_param(const char *name, uint64_t dflt);
void fs_print(const char *name, uint64_t v);
bool fs_symbolic(void);
void fs_end(void);
uint64_t fs_live_heap(void);
uint64_t fs_clock_advance(uint64_t ns);
uint64_t fs_ite(bool c, uint64_t a, uint64_t b); // branch-free select
void fs_incomplete(const char *why);
void fs_yield(void);
uint64_t fs_thread_create(void (*fn)(void *), void *arg);
void fs_thread_join(uint64_t id);
}
#define FS_ENTRY extern "C" __attribute__((noinline, used)) void
