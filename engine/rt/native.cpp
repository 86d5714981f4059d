// Native runtime for replay.  usage: <bin> <casefile>   cases:  case/entry/param/in/end lines
#define NB_NATIVE
#include "nb.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <new>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
static std::map<std::string, void (*)()>& reg() { static auto* m = new std::map<std::string, void (*)()>; return *m; }
extern "C" void nb_register(const char* n, void (*f)()) { reg()[n] = f; }
struct In { std::string name; std::vector<unsigned char> b; };
struct Case { std::string entry; std::map<std::string, unsigned long> par; std::vector<In> in; };
static Case* cur; static size_t pos; static unsigned long live; static unsigned long limit = 1 << 24; static bool counting = false;
static In& nextIn(const char* n) { if (pos >= cur->in.size() || cur->in[pos].name != n) { printf("diverged want %s have %s\n", n, pos < cur->in.size() ? cur->in[pos].name.c_str() : "<end>"); fflush(stdout); _exit(79); } return cur->in[pos++]; }
extern "C" {
void nb_make_symbolic(void* p, unsigned long n, const char* nm) { In& i = nextIn(nm); if (i.b.size() != n) { printf("diverged size\n"); fflush(stdout); _exit(79); } memcpy(p, i.b.data(), n); }
unsigned long nb_bits(unsigned, const char* nm) { In& i = nextIn(nm); unsigned long v = 0; memcpy(&v, i.b.data(), i.b.size() < 8 ? i.b.size() : 8); return v; }
unsigned long nb_choose(unsigned long n, const char* nm) { unsigned long v = nb_bits(64, nm); (void)n; return v; }
void nb_assume(bool c) { if (!c) { printf("assume\n"); fflush(stdout); _exit(78); } }
void nb_assert(bool c, const char* m) { if (!c) { printf("assert %s\n", m); fflush(stdout); _exit(77); } }
void nb_fail(const char* m) { printf("assert %s\n", m); fflush(stdout); _exit(77); }
void nb_cover(const char* id) { printf("cover %s\n", id); }
void nb_observe(const char* n, unsigned long v) { printf("obs %s ", n); for (int i = 0; i < 8; i++) printf("%02x", (unsigned)((v >> (8 * i)) & 255)); printf("\n"); }
void nb_observe_mem(const char* n, const void* p, unsigned long k) { printf("obs %s ", n); for (unsigned long i = 0; i < k; i++) printf("%02x", ((const unsigned char*)p)[i]); printf("\n"); }
unsigned long nb_param(const char* n, unsigned long d) { auto i = cur->par.find(n); return i == cur->par.end() ? d : i->second; }
unsigned long nb_live() { return live; }
unsigned long nb_concretize(unsigned long v) { return v; }
unsigned long nb_ite(bool c, unsigned long a, unsigned long b) { return c ? a : b; }
void nb_end() { printf("done\n"); fflush(stdout); _exit(0); }
int nb_native() { return 1; }
void nb_dbg(const char*, unsigned long) {}
}
static void* get(size_t n) { if (n > (size_t(1) << 36)) throw std::bad_alloc(); if (counting && n > limit) { printf("alloc-limit\n"); fflush(stdout); _exit(78); } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (counting) live++; return p; }
static void put(void* p) { if (p) { if (counting) live--; free(p); } }
#ifndef NB_PLAIN_NEW
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
#endif
int main(int argc, char** argv) {
  std::vector<Case> cs; FILE* f = fopen(argv[1], "r"); if (!f) return 2; char* line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) { while (n && (line[n - 1] == '\n')) line[--n] = 0; std::string s(line); auto sp = s.find(' '); std::string k = s.substr(0, sp), r = sp == std::string::npos ? "" : s.substr(sp + 1);
    if (k == "case") cs.emplace_back(); else if (k == "entry") cs.back().entry = r; else if (k == "param") { auto q = r.find(' '); cs.back().par[r.substr(0, q)] = strtoul(r.c_str() + q + 1, nullptr, 0); }
    else if (k == "in") { auto q = r.rfind(' '); In i; i.name = r.substr(0, q); std::string h = r.substr(q + 1); for (size_t j = 0; j + 1 < h.size(); j += 2) i.b.push_back((unsigned char)strtoul(h.substr(j, 2).c_str(), nullptr, 16)); cs.back().in.push_back(i); } }
  int idx = 0; bool single = argc > 2;
  for (auto& c : cs) { printf("CASE %d\n", idx++); fflush(stdout); auto it = reg().find(c.entry); if (it == reg().end()) { printf("no entry\nEXIT 2\n"); continue; }
    pid_t p = single ? 0 : fork(); if (!p) { alarm(60); if (!single) dup2(1, 2); cur = &c; pos = 0; counting = true; it->second(); printf("done\n"); fflush(stdout); _exit(0); }
    int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st)) printf("EXIT %d\n", WEXITSTATUS(st)); else printf("EXIT %d\n", 128 + WTERMSIG(st)); fflush(stdout); }
}
