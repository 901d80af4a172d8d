/* Models of the libsc functions that the code under contract calls.  libsc is
 * a binary dependency here (no sources), so these are assumed contracts; each
 * is validated natively against libsc by engine/validate_stubs.py. */
#ifdef VDIM3
#include <p4est_to_p8est.h>
#include <p8est.h>
#else
#include <p4est.h>
#endif
#include <stdlib.h>
#include <string.h>

/* reaching an abort is a violation: the library promises not to abort on
 * input that satisfies the precondition */
void
sc_abort_verbose (const char *filename, int lineno, const char *msg)
{
  __CPROVER_assert (0, "abort reached (internal assertion failed)");
  __CPROVER_assume (0);
}

int
sc_int32_compare (const void *v1, const void *v2)
{
  const int32_t a = *(const int32_t *) v1, b = *(const int32_t *) v2;
  return a == b ? 0 : a < b ? -1 : 1;
}

int
sc_int64_compare (const void *v1, const void *v2)
{
  const int64_t a = *(const int64_t *) v1, b = *(const int64_t *) v2;
  return a == b ? 0 : a < b ? -1 : 1;
}

/* ---- sc_uint128: two 64 bit halves, exact 128 bit semantics ---- */
#include <sc_uint128.h>
typedef unsigned __int128 vu128;
#define VU(p) (((vu128) (p)->high_bits << 64) | (p)->low_bits)
#define VUSET(p,v) do { vu128 vu_t_ = (v); (p)->high_bits = (uint64_t) (vu_t_ >> 64); \
                        (p)->low_bits = (uint64_t) vu_t_; } while (0)
int sc_uint128_compare (const void *a, const void *b)
{
  const sc_uint128_t *x = (const sc_uint128_t *) a, *y = (const sc_uint128_t *) b;
  return VU (x) < VU (y) ? -1 : VU (x) > VU (y);
}
int sc_uint128_is_equal (const sc_uint128_t * a, const sc_uint128_t * b)
{ return a->high_bits == b->high_bits && a->low_bits == b->low_bits; }
void sc_uint128_init (sc_uint128_t * a, uint64_t high, uint64_t low)
{ a->high_bits = high; a->low_bits = low; }
int sc_uint128_chk_bit (const sc_uint128_t * a, int e)
{
  __CPROVER_assert (0 <= e && e < 128, "precondition of sc_uint128_chk_bit");
  return e < 64 ? (a->low_bits & ((uint64_t) 1 << e)) != 0
    : (a->high_bits & ((uint64_t) 1 << (e - 64))) != 0;
}
void sc_uint128_set_bit (sc_uint128_t * a, int e)
{
  __CPROVER_assert (0 <= e && e < 128, "precondition of sc_uint128_set_bit");
  if (e < 64) a->low_bits |= (uint64_t) 1 << e;
  else a->high_bits |= (uint64_t) 1 << (e - 64);
}
void sc_uint128_copy (const sc_uint128_t * i, sc_uint128_t * o)
{ o->high_bits = i->high_bits; o->low_bits = i->low_bits; }
void sc_uint128_add (const sc_uint128_t * a, const sc_uint128_t * b, sc_uint128_t * r)
{
  __CPROVER_assert (r != a && r != b, "precondition of sc_uint128_add");
  VUSET (r, VU (a) + VU (b));
}
void sc_uint128_sub (const sc_uint128_t * a, const sc_uint128_t * b, sc_uint128_t * r)
{
  __CPROVER_assert (r != a && r != b, "precondition of sc_uint128_sub");
  VUSET (r, VU (a) - VU (b));
}
void sc_uint128_bitwise_neg (const sc_uint128_t * a, sc_uint128_t * r)
{ r->high_bits = ~a->high_bits; r->low_bits = ~a->low_bits; }
void sc_uint128_bitwise_or (const sc_uint128_t * a, const sc_uint128_t * b, sc_uint128_t * r)
{ r->high_bits = a->high_bits | b->high_bits; r->low_bits = a->low_bits | b->low_bits; }
void sc_uint128_bitwise_and (const sc_uint128_t * a, const sc_uint128_t * b, sc_uint128_t * r)
{ r->high_bits = a->high_bits & b->high_bits; r->low_bits = a->low_bits & b->low_bits; }
void sc_uint128_shift_right (const sc_uint128_t * a, int n, sc_uint128_t * r)
{
  __CPROVER_assert (n >= 0, "precondition of sc_uint128_shift_right");
  VUSET (r, n >= 128 ? 0 : VU (a) >> n);
}
void sc_uint128_shift_left (const sc_uint128_t * a, int n, sc_uint128_t * r)
{
  __CPROVER_assert (n >= 0, "precondition of sc_uint128_shift_left");
  VUSET (r, n >= 128 ? 0 : VU (a) << n);
}
void sc_uint128_add_inplace (sc_uint128_t * a, const sc_uint128_t * b)
{ VUSET (a, VU (a) + VU (b)); }
void sc_uint128_sub_inplace (sc_uint128_t * a, const sc_uint128_t * b)
{ VUSET (a, VU (a) - VU (b)); }
void sc_uint128_bitwise_or_inplace (sc_uint128_t * a, const sc_uint128_t * b)
{ a->high_bits |= b->high_bits; a->low_bits |= b->low_bits; }
void sc_uint128_bitwise_and_inplace (sc_uint128_t * a, const sc_uint128_t * b)
{ a->high_bits &= b->high_bits; a->low_bits &= b->low_bits; }

/* floor (log2 (i)); validated against libsc by engine/validate_stubs.py */
const int sc_log2_lookup_table[256] = {
  -1, 0, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 3,
  4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4,
  5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5,
  5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5,
  6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6,
  6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6,
  6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6,
  6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6,
  7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
  7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
  7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
  7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
  7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
  7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
  7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
  7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7
};
