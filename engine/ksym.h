// Harness interface: the same harness is compiled to LLVM IR (symbolic run)
// and natively by g++ (replay of a witness).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
// make n bytes at p arbitrary
void ksym_symbolic(void* p, size_t n, const char* name);
// arbitrary value 0..n-1, explored as separate concrete cases
unsigned ksym_choose(unsigned n, const char* name);
// only continue for values where c holds
void ksym_assume(bool c);
// the property: must hold for all values on this path
void ksym_assert(bool c, const char* label);
// vacuity witness: this point must be reached on some path
void ksym_reach(const char* label);
// values compared between the symbolic run and native replay
void ksym_observe(const char* name, uint64_t v);
void ksym_observe_bytes(const char* name, const void* p, size_t n);
// split into one case per feasible value
uint64_t ksym_concretize(uint64_t v);
// from now on: bit 0: divisions by constants are split into one case per
// quotient, bit 1: pointers read from a table stay symbolic
void ksym_mode(int bits);
// write a file natively; its bytes may be symbolic when it is read back
void ksym_write_file(const char* path, const void* p, size_t n);
// scratch directory for files (created by the driver)
const char* ksym_dir();
// 1 in the symbolic run
int ksym_is_symbolic();
// harness entry; ksym_setup (optional) runs natively and concretely first
void ksym_main();
void ksym_setup();
}
