// Harness interface. The same harness source is compiled twice: to LLVM bitcode for the symbolic executor (sxe), and
// natively (gcc/clang + sanitizers, real libxml2) for replaying a counterexample on the real code.
#ifndef SX_H
#define SX_H
#include <stddef.h>
#include <stdint.h>
void sx_bytes(void *p, size_t n, const char *name);     // p[0..n) becomes arbitrary
int  sx_choice(int n, const char *name);                // arbitrary value in [0,n), one path each
void sx_assume(int c);
void sx_assert_(int c, const char *msg);
void sx_known(const char *id);                          // later violations on this path belong to known finding id (0 = none)
void sx_reach(const char *label);                       // vacuity witness: must be reached on some path
int  sx_concrete(int v);
uint64_t sx_live_objects(void);                         // live heap objects (0 in native replay)
void sx_budget(uint64_t n);                             // this path may execute at most n more instructions (termination bound)
int  sx_memeq(const void *a, const void *b, size_t n);  // equality without forking
int  sx_native(void);
#define sx_assert(c, msg) sx_assert_((c) ? 1 : 0, msg)
#endif
