// Native replay of one recorded input: the same harness, the same library
// sources, compiled by g++; every ksym_symbolic / ksym_choose takes its value
// from the recording. Exit 0: no assertion failed, 1: one did, 3: the
// recording does not fit (assumption not met or inputs exhausted).
#include "ksym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <string>
#include <vector>
#include <sys/resource.h>
#include <unistd.h>

namespace {
struct In { std::string name; bool choose; unsigned long v; std::string bytes; };
std::vector<In> ins;
size_t at;
std::string dir;
bool failed;
In& next(const char* name, bool choose) {
  if (at >= ins.size() || ins[at].name != name || ins[at].choose != choose) {
    printf("MISFIT %s\n", name);
    fflush(stdout);
    _exit(failed ? 1 : 3);
  }
  return ins[at++];
}
}

extern "C" {
__attribute__((weak)) void ksym_setup() {}
void ksym_symbolic(void* p, size_t n, const char* name) {
  In& i = next(name, false);
  if (i.bytes.size() != n) { printf("MISFIT size %s\n", name); fflush(stdout); _exit(failed ? 1 : 3); }
  memcpy(p, i.bytes.data(), n);
}
unsigned ksym_choose(unsigned, const char* name) { return static_cast<unsigned>(next(name, true).v); }
void ksym_assume(bool c) {
  if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(failed ? 1 : 3); }
}
void ksym_assert(bool c, const char* label) {
  if (!c) { printf("FAIL %s\n", label); fflush(stdout); failed = true; }
}
void ksym_reach(const char*) {}
void ksym_observe(const char* name, uint64_t v) { printf("OBS %s %lu\n", name, v); }
void ksym_observe_bytes(const char* name, const void* p, size_t n) {
  printf("OBSB %s ", name);
  for (size_t i = 0; i < n; ++i) printf("%02x", static_cast<const unsigned char*>(p)[i]);
  printf("\n");
}
uint64_t ksym_concretize(uint64_t v) { return v; }
void ksym_write_file(const char* path, const void* p, size_t n) {
  std::ofstream(path, std::ios::binary).write(static_cast<const char*>(p), static_cast<long>(n));
}
const char* ksym_dir() { return dir.c_str(); }
int ksym_is_symbolic() { return 0; }
void ksym_mode(int) {}
}

int main(int argc, char** argv) {
  if (argc < 3) { printf("usage: replay INPUT.txt SCRATCHDIR\n"); return 2; }
  dir = argv[2];
  // one input per line: "c NAME value" or "b NAME hex"
  std::ifstream f(argv[1]);
  for (std::string line; std::getline(f, line);) {
    if (line.size() < 3) continue;
    const auto p = line.rfind(' ');
    In i{line.substr(2, p - 2), line[0] == 'c', 0, {}};
    const std::string v = line.substr(p + 1);
    if (i.choose) i.v = strtoul(v.c_str(), nullptr, 10);
    else
      for (size_t k = 0; k + 1 < v.size(); k += 2)
        i.bytes += static_cast<char>(strtoul(v.substr(k, 2).c_str(), nullptr, 16));
    ins.push_back(i);
  }
  rlimit r{20, 20};
  setrlimit(RLIMIT_CPU, &r);
  rlimit m{8ul << 30, 8ul << 30};
  if (!getenv("KSYM_NOMEM")) setrlimit(RLIMIT_AS, &m);
  std::set_terminate([] {
    printf("FAIL uncaught or terminate\n");
    fflush(stdout);
    _exit(1);
  });
  ksym_setup();
  ksym_main();
  printf("%s\n", failed ? "FAILED" : "OK");
  fflush(stdout);
  return failed;
}
