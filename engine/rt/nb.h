// Harness interface: the same source is executed symbolically by nbsym and natively for replay.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
extern "C" {
void nb_make_symbolic(void* p, unsigned long n, const char* name);
unsigned long nb_bits(unsigned w, const char* name);           // symbolic w-bit value
unsigned long nb_choose(unsigned long n, const char* name);    // forks over 0..n-1
void nb_assume(bool c);
void nb_assert(bool c, const char* msg);
[[noreturn]] void nb_fail(const char* msg);
void nb_cover(const char* id);                                 // reachability witness
void nb_observe(const char* name, unsigned long v);            // compared between engine and native run
void nb_observe_mem(const char* name, const void* p, unsigned long n);
unsigned long nb_param(const char* name, unsigned long dflt);
unsigned long nb_live();                                       // live operator-new blocks
unsigned long nb_concretize(unsigned long v);                  // forks over the values of v
unsigned long nb_ite(bool c, unsigned long a, unsigned long b); // branch-free selection
[[noreturn]] void nb_end();
int nb_native(); bool nb_is_eq(unsigned long a, unsigned long b); // same expression
void nb_dbg(const char* n, unsigned long v);
}
#ifdef NB_NATIVE
extern "C" void nb_register(const char* name, void (*fn)());
#define NB_ENTRY(name) extern "C" void name(); static int nb_reg_##name = (nb_register(#name, name), 0); extern "C" void name()
#else
extern "C" void nb_throw_bad_alloc();
__attribute__((used)) static void (*nb_keep_bad_alloc)() = nb_throw_bad_alloc;
#define NB_ENTRY(name) extern "C" __attribute__((used, noinline)) void name()
#endif
template <typename T> inline T nb_any(const char* name) { return static_cast<T>(nb_bits(8 * sizeof(T), name)); }
template <> inline bool nb_any<bool>(const char* name) { return nb_bits(1, name) != 0; }
inline unsigned long nb_range(unsigned long lo, unsigned long hi, const char* name) // symbolic, inclusive
{ unsigned long v = nb_bits(64, name); nb_assume((v >= lo) & (v <= hi)); return v; }
inline std::string nb_string(unsigned long n, const char* name) { std::string s(n, '?'); if (n) nb_make_symbolic(s.data(), n, name); return s; }
inline bool nb_memeq(const void* a, const void* b, unsigned long n) { return n == 0 || memcmp(a, b, n) == 0; }
// the caller's length check forks on symbolic sizes: fine
inline bool nb_streq(std::string const& a, std::string const& b) { return a.size() == b.size() && nb_memeq(a.data(), b.data(), a.size()); }
#define NB_STR2(x) #x
#define NB_STR(x) NB_STR2(x)
