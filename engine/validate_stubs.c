/* compares the models (prefix m_) with the installed libsc on sampled arguments */
#include <p4est.h>
#include <sc_uint128.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define D2(n) extern int m_##n (const void *, const void *)
D2 (sc_int32_compare); D2 (sc_int64_compare); D2 (sc_uint128_compare);
typedef sc_uint128_t U;
extern int m_sc_uint128_is_equal (const U *, const U *);
extern void m_sc_uint128_init (U *, uint64_t, uint64_t);
extern int m_sc_uint128_chk_bit (const U *, int);
extern void m_sc_uint128_set_bit (U *, int);
extern void m_sc_uint128_copy (const U *, U *);
#define B3(n) extern void m_##n (const U *, const U *, U *)
B3 (sc_uint128_add); B3 (sc_uint128_sub); B3 (sc_uint128_bitwise_or); B3 (sc_uint128_bitwise_and);
#define B2(n) extern void m_##n (U *, const U *)
B2 (sc_uint128_add_inplace); B2 (sc_uint128_sub_inplace);
B2 (sc_uint128_bitwise_or_inplace); B2 (sc_uint128_bitwise_and_inplace);
extern void m_sc_uint128_bitwise_neg (const U *, U *);
extern void m_sc_uint128_shift_right (const U *, int, U *);
extern void m_sc_uint128_shift_left (const U *, int, U *);
extern const int m_sc_log2_lookup_table[256];
static int bad, n;
int validate_arrays (int *cases);
static uint64_t r64 (void)
{ uint64_t v = 0; int i; for (i = 0; i < 5; ++i) v = (v << 15) ^ (uint64_t) rand ();
  switch (rand () % 6) { case 0: return 0; case 1: return ~0ULL; case 2: return v & 3; case 3: return 1ULL << (v % 64); default: return v; } }
#define CK(c,what) do { ++n; if (!(c)) { if (bad++ < 20) fprintf (stderr, "model differs: %s\n", what); } } while (0)
#define SGN(x) (((x) > 0) - ((x) < 0))
#define EQ(a,b) (a.high_bits == b.high_bits && a.low_bits == b.low_bits)
int main (int argc, char **argv)
{
  int i;
  srand (argc > 1 ? atoi (argv[1]) : 1);
  for (i = 0; i < 256; ++i) if (i) CK (sc_log2_lookup_table[i] == m_sc_log2_lookup_table[i], "log2 table");
  CK (sc_log2_lookup_table[0] == m_sc_log2_lookup_table[0], "log2 table[0]");
  for (i = 0; i < 200000; ++i) {
    U a = { r64 (), r64 () }, b = { r64 (), r64 () }, r = { 0, 0 }, s = { 0, 0 };
    if (rand () % 4 == 0) b = a;
    if (rand () % 4 == 0) b.high_bits = a.high_bits;
    int32_t x = (int32_t) a.low_bits, y = (int32_t) b.low_bits;
    int64_t X = (int64_t) a.low_bits, Y = (int64_t) b.low_bits;
    int k = rand () % 131;
    CK (SGN (sc_int32_compare (&x, &y)) == SGN (m_sc_int32_compare (&x, &y)), "int32_compare");
    CK (SGN (sc_int64_compare (&X, &Y)) == SGN (m_sc_int64_compare (&X, &Y)), "int64_compare");
    CK (sc_uint128_compare (&a, &b) == m_sc_uint128_compare (&a, &b), "u128 compare");
    CK (!sc_uint128_is_equal (&a, &b) == !m_sc_uint128_is_equal (&a, &b), "u128 equal");
#define T3(f) f (&a, &b, &r); m_##f (&a, &b, &s); CK (EQ (r, s), #f)
    T3 (sc_uint128_add); T3 (sc_uint128_sub); T3 (sc_uint128_bitwise_or); T3 (sc_uint128_bitwise_and);
#define T2(f) r = s = a; f (&r, &b); m_##f (&s, &b); CK (EQ (r, s), #f)
    T2 (sc_uint128_add_inplace); T2 (sc_uint128_sub_inplace);
    T2 (sc_uint128_bitwise_or_inplace); T2 (sc_uint128_bitwise_and_inplace);
    sc_uint128_bitwise_neg (&a, &r); m_sc_uint128_bitwise_neg (&a, &s); CK (EQ (r, s), "neg");
    sc_uint128_shift_right (&a, k, &r); m_sc_uint128_shift_right (&a, k, &s); CK (EQ (r, s), "shr");
    sc_uint128_shift_left (&a, k, &r); m_sc_uint128_shift_left (&a, k, &s); CK (EQ (r, s), "shl");
    sc_uint128_copy (&a, &r); m_sc_uint128_copy (&a, &s); CK (EQ (r, s), "copy");
    sc_uint128_init (&r, a.low_bits, b.low_bits); m_sc_uint128_init (&s, a.low_bits, b.low_bits); CK (EQ (r, s), "init");
    r = s = a; k %= 128;
    sc_uint128_set_bit (&r, k); m_sc_uint128_set_bit (&s, k); CK (EQ (r, s), "set_bit");
    CK (!sc_uint128_chk_bit (&a, k) == !m_sc_uint128_chk_bit (&a, k), "chk_bit");
  }
  bad += validate_arrays (&n);
  printf ("libsc models: %d comparisons, %d differences\n", n, bad);
  return bad != 0;
}
