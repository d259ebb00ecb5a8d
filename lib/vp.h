/* Harness vocabulary shared by the encoding (CBMC) and the native replay. */
#ifndef VP_H
#define VP_H
#include "vp_env.h"

#ifdef VP_ENC
#define VP_ASSERT(c, msg) __CPROVER_assert((c), "VP: " msg)
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_REACH(msg) __CPROVER_assert(0, "REACH: " msg)
#define VP_MODEL(c, msg) __CPROVER_assert((c), "MODEL: " msg)
#define VP_CBMC 1
#else
#define VP_ASSERT(c, msg) do { if (!(c)) vp_fail(msg, #c, __LINE__); } while (0)
#define VP_ASSUME(c) do { if (!(c)) vp_reject(#c, __LINE__); } while (0)
#define VP_REACH(msg) vp_reached(msg)
#define VP_MODEL(c, msg) do { } while (0)
#define VP_CBMC 0
#endif
void vp_fail(const char *msg, const char *cond, int line);
void vp_reject(const char *cond, int line);
void vp_reached(const char *msg);

/* Symbolic input: every harness defines `struct IN { ... };` (integer members
 * and arrays of them only) and then says VP_INPUT; is the first statement
 * of main. */
#ifdef VP_ENC
#define VP_INPUT do { struct IN t_ = nondet_IN(); IN = t_; } while (0)
#else
#define VP_INPUT vp_load_input()
#endif

/* ghost allocator state */
extern long vp_live;        /* blocks allocated and not yet freed */
extern long vp_nalloc;      /* allocations attempted so far */
extern long vp_fail_at;     /* index of the allocation that fails, -1: none */

typedef unsigned char u8;
typedef unsigned short u16;
typedef unsigned int u32;
typedef unsigned long long u64;

/* expected-text builder: the harness formats what it expects with the same
 * functions, so that numbers are compared by value and layout. */
#endif
