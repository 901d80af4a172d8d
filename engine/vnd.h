/* Input layer shared by the CBMC harnesses and by the native replay.
 * Under goto-cc every nd_*() is an unconstrained symbolic value that is also
 * recorded as a named input of the trace.  Natively the values come from a
 * replay file in the same order. */
#ifndef VND_H
#define VND_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>

#ifdef VCBMC
int nondet_int (void);
unsigned nondet_uint (void);
int8_t nondet_i8 (void);
int16_t nondet_i16 (void);
int32_t nondet_i32 (void);
int64_t nondet_i64 (void);
uint64_t nondet_u64 (void);
size_t nondet_sz (void);
void *nondet_ptr (void);
#define VND_(T,f,n) ({ T vnd_v_ = f (); __CPROVER_input (n, vnd_v_); vnd_v_; })
#define nd_int(n)  VND_ (int, nondet_int, n)
#define nd_uint(n) VND_ (unsigned, nondet_uint, n)
#define nd_i8(n)   VND_ (int8_t, nondet_i8, n)
#define nd_i16(n)  VND_ (int16_t, nondet_i16, n)
#define nd_i32(n)  VND_ (int32_t, nondet_i32, n)
#define nd_i64(n)  VND_ (int64_t, nondet_i64, n)
#define nd_u64(n)  VND_ (uint64_t, nondet_u64, n)
#define nd_sz(n)   VND_ (size_t, nondet_sz, n)
#define ASSUME(c)  __CPROVER_assume (c)
#define LEMMA(id,c) __CPROVER_assert ((c), "lemma " #id)
#define VREACH(id) __CPROVER_assert (0, "VACUITY-PROBE " #id)
#define VREG(o)    ((void) 0)
#define CALL(f)    f
#else
uint64_t vnd_next (const char *name);
void vnd_assume (int c, const char *txt);
void vnd_lemma (int c, const char *id);
void vnd_reg (void *p, size_t n, const char *name);
void vnd_reach (const char *id);
#define nd_int(n)  ((int) vnd_next (n))
#define nd_uint(n) ((unsigned) vnd_next (n))
#define nd_i8(n)   ((int8_t) vnd_next (n))
#define nd_i16(n)  ((int16_t) vnd_next (n))
#define nd_i32(n)  ((int32_t) vnd_next (n))
#define nd_i64(n)  ((int64_t) vnd_next (n))
#define nd_u64(n)  ((uint64_t) vnd_next (n))
#define nd_sz(n)   ((size_t) vnd_next (n))
#define ASSUME(c)  vnd_assume ((c) ? 1 : 0, #c)
#define LEMMA(id,c) vnd_lemma ((c) ? 1 : 0, #id)
#define VREACH(id) vnd_reach (#id)
#define VREG(o)    vnd_reg (&(o), sizeof (o), #o)
#define CALL(f)    chk_##f
/* enumerated checks: name the case, count it, give it 20 s */
#include <stdio.h>
extern char vnd_case[1024];
extern unsigned long vnd_cases;
void vnd_watch (unsigned sec);
#define VCASE(...) do { snprintf (vnd_case, sizeof (vnd_case), __VA_ARGS__); ++vnd_cases; \
  if ((vnd_cases & 255) == 1) vnd_watch (20); } while (0)
#define __CPROVER_assume(c) ASSUME (c)
#endif
/* typed storage for arrays of the verifier's libsc model */
#ifdef VCBMC
#define VST1(T,n) if (es == sizeof (T)) { *pp = (char *) malloc ((n) * sizeof (T)); return (n) * sizeof (T); }
#define VSTORE(body) void *malloc (size_t); size_t vstore (size_t es, char **pp) { body *pp = NULL; __CPROVER_assert (0, "type of array storage"); return 0; }
#else
#define VSTORE(body)
#endif
#ifdef VCBMC
/* the size goes through a variable: CBMC 6.11 misreads a * b * sizeof (T) */
#define VALLOC(T,n) ({ size_t va_n_ = (n); size_t va_b_ = va_n_ * sizeof (T); (T *) __CPROVER_allocate (va_b_, 0); })
#else
#include <stdlib.h>
#define VALLOC(T,n) ((T *) calloc ((n), sizeof (T)))
#endif
#define nd_bool(n) (nd_i8 (n) != 0)

/* contract macros available to native checks: pieces of the frame */
#endif
