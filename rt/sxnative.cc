// Native side of the harness interface: replays a recorded assignment against the natively compiled code.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <ucontext.h>
#include <unistd.h>
static std::vector<std::pair<std::string, std::string>> in; static size_t pos = 0; static std::map<std::string, uint64_t> params;
static bool failed = false;
static std::string next(const char* name, size_t n) {
  if (pos >= in.size()) { pos++; return std::string(n, '\0'); } // inputs after the point of failure are arbitrary
  auto& p = in[pos++];
  if (p.first != name) { printf("SX-MISMATCH expected input %s, the program asks for %s\n", p.first.c_str(), name); fflush(stdout); _exit(7); }
  std::string b; for (size_t i = 0; i + 1 < p.second.size(); i += 2) b += (char)strtoul(p.second.substr(i, 2).c_str(), nullptr, 16);
  b.resize(n); return b;
}
extern "C" {
void sx_sym_(void* p, size_t n, const char* name) { std::string b = next(name, n); memcpy(p, b.data(), n); }
void sx_assume_(int c) { if (!c) { printf("SX-ASSUME-FALSE\n"); fflush(stdout); _exit(failed ? 1 : 6); } }
void sx_assert_(int c, const char* msg) { if (!c) { failed = true; printf("SX-ASSERT-FAILED %s\n", msg); fflush(stdout); _exit(1); } }
void sx_fail(const char* msg) { failed = true; printf("SX-ASSERT-FAILED %s\n", msg); fflush(stdout); _exit(1); }
void sx_stop() { printf("SX-STOP\n"); fflush(stdout); _exit(0); }
uint64_t sx_choose(uint64_t, const char* name) { std::string b = next(name, 8); uint64_t v; memcpy(&v, b.data(), 8); return v; }
uint64_t sx_concretize(uint64_t v) { return v; }
int sx_is_symbolic(uint64_t) { return 0; }
void sx_cover(const char* name) { printf("SX-COVER %s\n", name); }
void sx_cover_if(int c, const char* name) { if (c) sx_cover(name); }
void sx_observe(const char* name, uint64_t v) { printf("SX-OBSERVE %s %llu\n", name, (unsigned long long)v); }
int sx_native() { return 1; }
uint64_t sx_param(const char* name, uint64_t d) { auto it = params.find(name); return it == params.end() ? d : it->second; }
void sx_debug(const char* m, uint64_t v) { printf("SX-DEBUG %s %llu\n", m, (unsigned long long)v); }
int sx_memobj_ok(const void*, size_t) { return 1; }
// coroutines
struct Co { ucontext_t c; bool done = false; void (*fn)(void*); void* arg; };
static std::vector<Co*> cos; static size_t cur = 0;
static void to(size_t j) { if (j == cur) return; size_t o = cur; cur = j; swapcontext(&cos[o]->c, &cos[j]->c); }
static void rr() { size_t n = cos.size(); for (size_t i = 1; i <= n; i++) { size_t j = (cur + i) % n; if (!cos[j]->done) { to(j); return; } } }
static void tramp(int i) { Co* c = cos[i]; c->fn(c->arg); c->done = true; rr(); }
size_t sx_spawn(void (*fn)(void*), void* arg) { Co* c = new Co; getcontext(&c->c); size_t sz = 8 << 20; c->c.uc_stack.ss_sp = malloc(sz); c->c.uc_stack.ss_size = sz; c->c.uc_link = nullptr; c->fn = fn; c->arg = arg; cos.push_back(c); makecontext(&c->c, (void (*)())tramp, 1, (int)cos.size() - 1); return cos.size() - 1; }
size_t sx_self() { return cur; }
size_t sx_nthreads_alive() { size_t n = 0; for (auto* c : cos) n += !c->done; return n; }
void sx_yield() { rr(); }
void sx_switch(size_t t) { if (t < cos.size() && !cos[t]->done) to(t); }
}
static void mainHarness(void*) { harness(); }
int main(int argc, char** argv) { // argv[1]: recorded inputs (lines "name hexbytes"), then name=value parameters
  if (argc > 1) { FILE* f = fopen(argv[1], "r"); if (!f) { printf("no input file\n"); return 9; } char* l = nullptr; size_t cap = 0; ssize_t n; while ((n = getline(&l, &cap, f)) > 0) { std::string s(l, n); if (s.back() == '\n') s.pop_back(); size_t sp = s.rfind(' '); in.push_back({s.substr(0, sp), s.substr(sp + 1)}); } fclose(f); free(l); }
  for (int i = 2; i < argc; i++) { std::string s = argv[i]; size_t e = s.find('='); params[s.substr(0, e)] = strtoull(s.c_str() + e + 1, nullptr, 10); }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  Co* m = new Co; cos.push_back(m);
  mainHarness(nullptr); m->done = true;
  // threads still running belong to the harness: let them finish
  while (sx_nthreads_alive()) { m->done = false; rr(); m->done = true; size_t others = 0; for (size_t i = 1; i < cos.size(); i++) others += !cos[i]->done; if (!others) break; }
  printf("SX-DONE\n"); fflush(stdout); _exit(0);
}
