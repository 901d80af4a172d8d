/* Specification vocabulary: pure functions over 64/128-bit integers that
 * state what a quadrant, a boundary object or an index MEANS.  Included by
 * every contract file, for the verifier and for the native replay. */
#ifndef VSPEC_H
#define VSPEC_H
#ifdef VDIM3
#include <p4est_to_p8est.h>
#include <p8est.h>
#include <p8est_bits.h>
#include <p8est_extended.h>
#include <p8est_connectivity.h>
#include <p8est_search.h>
#include <p8est_communication.h>
#include <p8est_algorithms.h>
#else
#include <p4est.h>
#include <p4est_bits.h>
#include <p4est_extended.h>
#include <p4est_connectivity.h>
#include <p4est_search.h>
#include <p4est_communication.h>
#include <p4est_algorithms.h>
#endif
#include "vnd.h"

typedef p4est_quadrant_t Q;
typedef p4est_qcoord_t qc;
typedef unsigned __int128 u128;
#define DIM P4EST_DIM
#define ML P4EST_MAXLEVEL
#define QML P4EST_QMAXLEVEL
#define RL ((int64_t) 1 << P4EST_MAXLEVEL)
#define NC P4EST_CHILDREN
#define NF P4EST_FACES
#define NH P4EST_HALF
#ifdef P4_TO_P8
#define X3(a) a
#define XYZ(r) (r)->x, (r)->y, (r)->z
#define XYZL(r) (r)->x, (r)->y, (r)->z, (r)->level
#define CXYZ(c) (c)[0], (c)[1], (c)[2]
#define AND3(a) && (a)
#define OR3(a) || (a)
#else
#define X3(a)
#define XYZ(r) (r)->x, (r)->y
#define XYZL(r) (r)->x, (r)->y, (r)->level
#define CXYZ(c) (c)[0], (c)[1]
#define AND3(a)
#define OR3(a)
#endif
#define IMP(a,b) (!(a) || (b))
#define IFF(a,b) (!(a) == !(b))

static inline int64_t S_len (int l) { return (int64_t) 1 << (ML - l); }
static inline int S_al (int64_t c, int l) { return (c & (S_len (l) - 1)) == 0; }
/* largest multiple of the level-l edge length that is <= c */
static inline int64_t S_fl (int64_t c, int l) { return c - (c & (S_len (l) - 1)); }
static inline int64_t S_c (Q q, int d)
{
#ifdef P4_TO_P8
  return d == 0 ? q.x : d == 1 ? q.y : q.z;
#else
  return d == 0 ? q.x : q.y;
#endif
}
#define ALLD_(e0,e1,e2) ((e0) && (e1) AND3 (e2))

static inline int S_lvl (int l) { return 0 <= l && l <= QML; }
static inline int S_aligned (Q q)
{ return S_lvl (q.level) && S_al (q.x, q.level) && S_al (q.y, q.level) AND3 (S_al (q.z, q.level)); }
static inline int S_in1 (int64_t c) { return 0 <= c && c < RL; }
static inline int S_in3 (int64_t c) { return -RL <= c && c < 2 * RL; }
static inline int S_inroot (Q q) { return S_in1 (q.x) && S_in1 (q.y) AND3 (S_in1 (q.z)); }
static inline int S_in3x3 (Q q) { return S_in3 (q.x) && S_in3 (q.y) AND3 (S_in3 (q.z)); }
static inline int S_ext (Q q) { return S_aligned (q) && S_in3x3 (q); }
static inline int S_valid (Q q) { return S_aligned (q) && S_inroot (q); }
static inline int S_nout (Q q)  /* number of axes on which q leaves the root */
{ return !S_in1 (q.x) + !S_in1 (q.y) X3 (+ !S_in1 (q.z)); }
/* node coordinate: multiple of the smallest quadrant length, or the clamped
 * upper boundary RL - 1 */
static inline int S_node1 (int64_t c, int inside)
{ return 0 <= c && c <= RL - (inside ? 1 : 0) && (c % 2 == 0 || (inside && c == RL - 1)); }
static inline int S_node (Q q, int inside)
{ return q.level == ML && S_node1 (q.x, inside) && S_node1 (q.y, inside) AND3 (S_node1 (q.z, inside)); }
static inline int S_cmpable (Q q) { return S_ext (q) || S_node (q, 1); }

static inline int S_eqc (Q q, int64_t x, int64_t y, int64_t z, int l)
{ return q.x == x && q.y == y AND3 (q.z == z) && q.level == l; }
static inline int S_eq (Q a, Q b)
{ return a.x == b.x && a.y == b.y AND3 (a.z == b.z) && a.level == b.level; }

/* Morton order: interleave the coordinates as 32-bit two's complement
 * numbers, x least significant; coarser quadrants come first on ties. */
static inline u128 S_key (int64_t x, int64_t y, int64_t z)
{
  u128 k = 0;
  int i;
  uint32_t ux = (uint32_t) x, uy = (uint32_t) y, uz = (uint32_t) z;
  (void) uz;
  for (i = 0; i < 32; ++i) {
    k |= (u128) ((ux >> i) & 1) << (DIM * i);
    k |= (u128) ((uy >> i) & 1) << (DIM * i + 1);
    X3 (k |= (u128) ((uz >> i) & 1) << (DIM * i + 2);)
  }
  return k;
}
static inline u128 S_qkey (Q q)
{
#ifdef P4_TO_P8
  return S_key (q.x, q.y, q.z);
#else
  return S_key (q.x, q.y, 0);
#endif
}
static inline u128 S_ckey (const qc *c)
{
#ifdef P4_TO_P8
  return S_key (c[0], c[1], c[2]);
#else
  return S_key (c[0], c[1], 0);
#endif
}
static inline int S_cmpu (u128 a, u128 b) { return a < b ? -1 : a > b ? 1 : 0; }
static inline int S_sgn (int64_t v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
/* the same order of first corners decided at the highest differing bit, z
 * before y before x (lemma order_is_by_key shows that it is the same) */
static inline int S_msbless (uint32_t a, uint32_t b) { return a < b && a < (a ^ b); }
static inline int S_before (Q a, Q b)
{
  uint32_t dx = (uint32_t) a.x ^ (uint32_t) b.x, m = (uint32_t) a.y ^ (uint32_t) b.y;
  int lt = (uint32_t) a.y < (uint32_t) b.y;
#ifdef P4_TO_P8
  uint32_t dz = (uint32_t) a.z ^ (uint32_t) b.z;
  if (!S_msbless (dz, m)) { m = dz; lt = (uint32_t) a.z < (uint32_t) b.z; }
#endif
  return S_msbless (m, dx) ? (uint32_t) a.x < (uint32_t) b.x : lt;
}
/* the same as an expression without calls, for loop invariants */
#define M_U(v) ((uint32_t) (v))
#define M_MSB(a,b) ((a) < (b) && (a) < ((a) ^ (b)))
#define M_D(a,b,c) (M_U ((a).c) ^ M_U ((b).c))
#define M_LT(a,b,c) (M_U ((a).c) < M_U ((b).c))
#ifdef P4_TO_P8
#define M_BEFORE(a,b) (M_MSB (M_D (a, b, z), M_D (a, b, y)) ? \
  (M_MSB (M_D (a, b, y), M_D (a, b, x)) ? M_LT (a, b, x) : M_LT (a, b, y)) : \
  (M_MSB (M_D (a, b, z), M_D (a, b, x)) ? M_LT (a, b, x) : M_LT (a, b, z)))
#else
#define M_BEFORE(a,b) (M_MSB (M_D (a, b, y), M_D (a, b, x)) ? M_LT (a, b, x) : M_LT (a, b, y))
#endif
static inline int S_samepos (Q a, Q b)
{ return a.x == b.x && a.y == b.y AND3 (a.z == b.z); }
/* Morton order of the first corners, coarser first (lemma order_is_by_key) */
static inline int S_cmp (Q a, Q b)
{ return S_before (a, b) ? -1 : S_before (b, a) ? 1 : S_sgn ((int64_t) a.level - b.level); }
/* number of the level-l cell that contains q in the Morton order of the
 * 4^DIM-fold root neighborhood: level+2 bits per axis */
static inline u128 S_lid (Q q, int l)
{
  u128 k = 0;
  int i;
  uint32_t m = (l + 2 >= 32) ? 0xffffffffu : ((uint32_t) 1 << (l + 2)) - 1;
  uint32_t ux = (uint32_t) (S_fl (q.x, l) >> (ML - l)) & m;
  uint32_t uy = (uint32_t) (S_fl (q.y, l) >> (ML - l)) & m;
#ifdef P4_TO_P8
  uint32_t uz = (uint32_t) (S_fl (q.z, l) >> (ML - l)) & m;
#endif
  for (i = 0; i < 32; ++i) {
    k |= (u128) ((ux >> i) & 1) << (DIM * i);
    k |= (u128) ((uy >> i) & 1) << (DIM * i + 1);
    X3 (k |= (u128) ((uz >> i) & 1) << (DIM * i + 2);)
  }
  return k;
}
/* coordinate along axis d that the level-l Morton number k encodes */
static inline int64_t S_undec (u128 k, int l, int d)
{
  uint64_t u = 0;
  int i;
  for (i = 0; i < 32; ++i) {
    if (i < l + 2) u |= (uint64_t) ((k >> (DIM * i + d)) & 1) << i;
  }
  /* l + 2 bit two's complement */
  return ((int64_t) u - (((u >> (l + 1)) & 1) ? (int64_t) 1 << (l + 2) : 0)) * S_len (l);
}
/* k is the number of a quadrant in the 3^DIM root neighborhood */
static inline int S_extnum (u128 k, int l)
{ return k < ((u128) 1 << (DIM * (l + 2))) && S_in3 (S_undec (k, l, 0)) && S_in3 (S_undec (k, l, 1))
    AND3 (S_in3 (S_undec (k, l, 2))); }
/* value of a linear index object */
#ifdef P4_TO_P8
#define LIDW 128
static inline u128 S_lv (p4est_lid_t l) { return ((u128) l.high_bits << 64) | l.low_bits; }
static inline u128 S_lm (u128 v) { return v; }
#define nd_lid(p,n) do { (p)->high_bits = nd_u64 (n ".hi"); (p)->low_bits = nd_u64 (n ".lo"); } while (0)
#else
#define LIDW 64
static inline u128 S_lv (p4est_lid_t l) { return l; }
static inline u128 S_lm (u128 v) { return (uint64_t) v; }
#define nd_lid(p,n) do { *(p) = nd_u64 (n ".lo"); } while (0)
#endif
static inline u128 S_sh (u128 v, uint64_t n, int left)
{ return n >= LIDW ? 0 : S_lm (left ? v << n : v >> n); }
/* a covers q: a == q or a is an ancestor of q (interval containment) */
static inline int S_in (int64_t c, int64_t lo, int64_t len) { return lo <= c && c < lo + len; }
static inline int S_covers (Q a, Q q)
{
  int64_t h = S_len (a.level);
  return a.level <= q.level && S_in (q.x, a.x, h) && S_in (q.y, a.y, h) AND3 (S_in (q.z, a.z, h));
}
static inline int S_isanc (Q a, Q q) { return a.level < q.level && S_covers (a, q); }
static inline int S_overlap (Q a, Q b) { return S_covers (a, b) || S_covers (b, a); }
/* the last smallest cell inside q */
static inline Q S_lastin (Q q)
{
  Q r = q;
  int64_t s = S_len (q.level) - S_len (QML);
  if (q.level == ML) return q;
  r.x += s; r.y += s; X3 (r.z += s;)
  r.level = QML;
  return r;
}
/* which child slot of its level-l parent contains q: bit d is set if q lies
 * in the upper half of the level l-1 cell along axis d */
static inline int S_cid1 (int64_t c, int l) { return l > 0 && S_fl (c, l) - S_fl (c, l - 1) != 0; }
static inline int S_cid (Q q, int l)
{ return S_cid1 (q.x, l) + 2 * S_cid1 (q.y, l) X3 (+ 4 * S_cid1 (q.z, l)); }
/* r is the level-l ancestor (or self) of q */
static inline int S_isfl (Q r, Q q, int l)
{ return r.level == l && r.x == S_fl (q.x, l) && r.y == S_fl (q.y, l) AND3 (r.z == S_fl (q.z, l)); }
/* r is q moved by (dx,dy,dz) and given level l */
static inline int S_moved (Q r, Q q, int64_t dx, int64_t dy, int64_t dz, int l)
{ return r.x == q.x + dx && r.y == q.y + dy AND3 (r.z == q.z + dz) && r.level == l; }
/* r is the child of q (or of p = old q) in slot c: half the edge length,
 * offset by it along every axis whose bit in c is set */
static inline int S_ischild (Q r, Q q, int c)
{ int64_t h = S_len (q.level + 1);
  return S_moved (r, q, (c & 1) ? h : 0, (c & 2) ? h : 0, (c & 4) ? h : 0, q.level + 1); }
/* r is the sibling of q in slot s */
static inline int S_issib (Q r, Q q, int s)
{ int64_t h = S_len (q.level); int p = q.level - 1;
  return r.level == q.level && r.x == S_fl (q.x, p) + ((s & 1) ? h : 0)
    && r.y == S_fl (q.y, p) + ((s & 2) ? h : 0) AND3 (r.z == S_fl (q.z, p) + ((s & 4) ? h : 0)); }
static inline int S_ischildv (const Q * c, Q q)
{ int i; for (i = 0; i < NC; ++i) if (!S_ischild (c[i], q, i)) return 0; return 1; }
static inline int S_ischildpv (Q ** c, Q q)
{ int i; for (i = 0; i < NC; ++i) if (!S_ischild (*c[i], q, i)) return 0; return 1; }
static inline int S_extv (const Q * c)
{ int i; for (i = 0; i < NC; ++i) if (!S_ext (c[i])) return 0; return 1; }
static inline int S_extpv (Q ** c)
{ int i; for (i = 0; i < NC; ++i) if (!S_ext (*c[i])) return 0; return 1; }
/* the NC quadrants are the children of one parent, in order */
static inline int S_fam (const Q * c)
{ int i; if (c[0].level == 0 || S_cid (c[0], c[0].level) != 0) return 0;
  for (i = 1; i < NC; ++i) if (!S_issib (c[i], c[0], i)) return 0; return 1; }
static inline int S_fampv (Q ** c)
{ int i; if (c[0]->level == 0 || S_cid (*c[0], c[0]->level) != 0) return 0;
  for (i = 1; i < NC; ++i) if (!S_issib (*c[i], *c[0], i)) return 0; return 1; }
/* distinct children of the same parent */
static inline int S_sibs (Q a, Q b)
{ return a.level > 0 && a.level == b.level && !S_eq (a, b)
    && S_fl (a.x, a.level - 1) == S_fl (b.x, b.level - 1)
    && S_fl (a.y, a.level - 1) == S_fl (b.y, b.level - 1)
    AND3 (S_fl (a.z, a.level - 1) == S_fl (b.z, b.level - 1)); }
/* both lie in the same cell of the 3^DIM root neighborhood */
static inline int S_sametree (Q a, Q b)
{ return S_fl (a.x, 0) == S_fl (b.x, 0) && S_fl (a.y, 0) == S_fl (b.y, 0)
    AND3 (S_fl (a.z, 0) == S_fl (b.z, 0)); }
/* no finer quadrant covers both a and b */
static inline int S_nearest (Q r, Q a, Q b)
{ int l = r.level + 1;
  return l > a.level || l > b.level || S_fl (a.x, l) != S_fl (b.x, l) || S_fl (a.y, l) != S_fl (b.y, l)
    OR3 (S_fl (a.z, l) != S_fl (b.z, l)); }
/* unit step of face/corner along axis d: -1, 0 or 1 */
static inline int S_fstep (int f, int d) { return f / 2 != d ? 0 : (f % 2 ? 1 : -1); }
static inline int S_cbit (int c, int d) { return (c >> d) & 1; }
/* edge e of the cube: parallel to axis e/4; the other two axes in increasing
 * order get bits 0 and 1 of e.  1 upper, 0 lower, -1 parallel. */
static inline int S_ebit (int e, int d)
{
  int a = e / 4;
  if (d == a) return -1;
  return d == (a == 0 ? 1 : 0) ? (e & 1) : ((e >> 1) & 1);
}
static inline int S_estep (int e, int d) { int b = S_ebit (e, d); return b < 0 ? 0 : 2 * b - 1; }

/* ---- face connections between trees ---- */
typedef struct { int64_t c[3]; } S_P;      /* a point; c[2] == 0 in 2D */
static inline S_P S_pnt (int64_t x, int64_t y, int64_t z)
{ S_P p; p.c[0] = x; p.c[1] = y; p.c[2] = DIM == 3 ? z : 0; return p; }
static inline S_P S_qp (Q q) { return S_pnt (q.x, q.y, DIM == 3 ? S_c (q, DIM - 1) : 0); }
static inline int S_peq (S_P a, S_P b)
{ return a.c[0] == b.c[0] && a.c[1] == b.c[1] && a.c[2] == b.c[2]; }
/* the j-th tangential axis of face f, in ascending order */
static inline int S_tax (int f, int j)
{ int n = f / 2; return j < n ? j : j + 1; }
/* handedness of (tangential axes ascending, outward normal) of face f */
static inline int S_hand (int f) { return (f / 2 == 1 ? -1 : 1) * ((f & 1) ? 1 : -1); }
/* whether the tangential axes are exchanged by the connection f -> nf in
 * orientation o: the trees are glued preserving 3D orientation */
static inline int S_gswap (int f, int nf, int o)
{
  int d = -S_hand (f) * S_hand (nf);
  if (DIM == 2) return 0;
  return ((o & 1) ^ ((o >> 1) & 1)) ? d == 1 : d == -1;
}
/* point p in the coordinates of the tree behind face f, which meets face nf
 * of that tree: the first corner of the lower numbered face meets corner o
 * of the other */
static inline S_P S_glueR (int f, int nf, int o, S_P p, int64_t R)
{
  S_P q = { { 0, 0, 0 } };
  int j, sw = S_gswap (f, nf, o), n = f / 2;
  int64_t s = (f & 1) ? p.c[n] - R : -p.c[n];
  for (j = 0; j < DIM - 1; ++j) {
    int k = j ^ sw, r = (o >> j) & 1;
    if (f <= nf) { int64_t t = p.c[S_tax (f, k)]; q.c[S_tax (nf, j)] = r ? R - t : t; }
    else { int64_t t = p.c[S_tax (f, j)]; q.c[S_tax (nf, k)] = r ? R - t : t; }
  }
  q.c[nf / 2] = (nf & 1) ? R - s : s;
  return q;
}
static inline S_P S_glue (int f, int nf, int o, S_P p) { return S_glueR (f, nf, o, p, RL); }
/* a face transform array: two axis sequences and the reversal flags */
static inline int S_ftok (const int *ft)
{
  int i;
  for (i = 0; i < 6; ++i) if (ft[i] < 0 || ft[i] >= DIM) return 0;
  if (ft[0] == ft[2] || ft[3] == ft[5] || ft[6] < 0 || ft[6] > 1 || ft[8] < 0 || ft[8] > 3) return 0;
#ifdef P4_TO_P8
  return ft[0] != ft[1] && ft[1] != ft[2] && ft[3] != ft[4] && ft[4] != ft[5] && 0 <= ft[7] && ft[7] <= 1;
#else
  return ft[1] == 0 && ft[4] == 0 && ft[7] == 0;
#endif
}
static inline S_P S_ftmap (const int *ft, S_P p)
{
  S_P q = { { 0, 0, 0 } };
  int64_t s = (ft[8] & 2) ? p.c[ft[2]] - RL : -p.c[ft[2]];
  int j;
  for (j = 0; j < DIM - 1; ++j)
    q.c[ft[3 + j]] = ft[6 + j] ? RL - p.c[ft[j]] : p.c[ft[j]];
  q.c[ft[5]] = (ft[8] & 1) ? RL - s : s;
  return q;
}
/* ft is the map S_glue (f, nf, o) */
static inline int S_ftis (const int *ft, int f, int nf, int o)
{
  S_P p = { { 0, 0, 0 } };
  int n = f / 2;
  p.c[n] = 5; p.c[S_tax (f, 0)] = 1;
  X3 (p.c[S_tax (f, 1)] = 2;)
  return S_ftok (ft) && ft[2] == n && ft[5] == nf / 2 && S_peq (S_ftmap (ft, p), S_glue (f, nf, o, p));
}
static inline S_P S_pmin (S_P a, S_P b)
{ int d; for (d = 0; d < 3; ++d) if (b.c[d] < a.c[d]) a.c[d] = b.c[d]; return a; }
static inline S_P S_padd (S_P a, int64_t h)
{ return S_pnt (a.c[0] + h, a.c[1] + h, a.c[2] + h); }

static inline S_P S_cp (const qc * c) { return S_pnt (c[0], c[1], DIM == 3 ? c[DIM - 1] : 0); }
static inline int S_fcorner (int f, int fc)   /* cube corner of face corner */
{
  int c = (f & 1) << (f / 2), j;
  for (j = 0; j < DIM - 1; ++j) c |= ((fc >> j) & 1) << S_tax (f, j);
  return c;
}
static inline S_P S_cornerp (int c) { return S_pnt ((c & 1) * RL, ((c >> 1) & 1) * RL, ((c >> 2) & 1) * RL); }
/* the i-th corner of edge e, ascending; corners of a face edge */
static inline int S_ecorner (int e, int i)
{
  int c = 0, d;
  for (d = 0; d < 3; ++d) { int b = S_ebit (e, d); c |= (b < 0 ? i : b) << d; }
  return c;
}
static inline int S_onface (int c, int f) { return S_cbit (c, f / 2) == (f & 1); }
static inline int S_eonface (int e, int f) { return S_ebit (e, f / 2) == (f & 1); }
static inline int S_onedge (int c, int e) { return S_ecorner (e, 0) == c || S_ecorner (e, 1) == c; }
/* the corner of the neighbor tree that corner c of face f becomes */
static inline int S_gluec (int f, int nf, int o, int c)
{
  int q = (nf & 1) << (nf / 2), j, sw = S_gswap (f, nf, o);
  for (j = 0; j < DIM - 1; ++j) {
    int k = j ^ sw, r = (o >> j) & 1;
    if (f <= nf) q |= (S_cbit (c, S_tax (f, k)) ^ r) << S_tax (nf, j);
    else q |= (S_cbit (c, S_tax (f, j)) ^ r) << S_tax (nf, k);
  }
  return q;
}
/* corner that a corner point of the root is */
static inline int S_pcorner (S_P p) { return (p.c[0] == RL) | (p.c[1] == RL) << 1 | (p.c[2] == RL) << 2; }
/* inside: q touches the corner/side of the root from within;
 * otherwise from outside, diagonally across */
static inline int S_side (Q q, int d, int up, int inside)
{
  int64_t c = S_c (q, d);
  if (q.level == ML) return c == (up ? RL - (inside ? 1 : 0) : 0);
  if (inside) return c == (up ? RL - S_len (q.level) : 0);
  return c == (up ? RL : -S_len (q.level));
}
static inline int S_touchc (Q q, int c, int inside)
{ return S_side (q, 0, c & 1, inside) && S_side (q, 1, (c >> 1) & 1, inside) AND3 (S_side (q, 2, (c >> 2) & 1, inside)); }
static inline int S_touche (Q q, int e, int inside)
{ int d; for (d = 0; d < DIM; ++d) if (S_ebit (e, d) >= 0 && !S_side (q, d, S_ebit (e, d), inside)) return 0; return 1; }
#ifdef P4_TO_P8
#define nd_Q(p,n) do { Q *vnd_q_ = (p); \
  vnd_q_->x = nd_i32 (n ".x"); vnd_q_->y = nd_i32 (n ".y"); \
  vnd_q_->z = nd_i32 (n ".z"); vnd_q_->level = nd_i8 (n ".level"); \
  vnd_q_->pad8 = nd_i8 (n ".pad8"); vnd_q_->pad16 = nd_i16 (n ".pad16"); \
  nd_Qp (vnd_q_, n); } while (0)
#else
#define nd_Q(p,n) do { Q *vnd_q_ = (p); \
  vnd_q_->x = nd_i32 (n ".x"); vnd_q_->y = nd_i32 (n ".y"); \
  vnd_q_->level = nd_i8 (n ".level"); \
  vnd_q_->pad8 = nd_i8 (n ".pad8"); vnd_q_->pad16 = nd_i16 (n ".pad16"); \
  nd_Qp (vnd_q_, n); } while (0)
#endif
#define nd_Qp(q,n) do { (q)->p.user_long = nd_i64 (n ".p"); } while (0)
#endif
