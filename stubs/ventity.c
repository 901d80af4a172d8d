/* Bounded stand-ins only (native): the faces, edges and corners at which the
 * leaves of stubs/vforest.c meet, each named by twice its center. */
#ifndef VENTITY_C
#define VENTITY_C
#include "vforest.c"
static int vi_key (const int *c2)
{
  int n[3] = { 0, 0, 0 }, d;
  for (d = 0; d < DIM; ++d) { n[d] = c2[d]; if (vg_per[d]) n[d] = (n[d] + 4 * vg_d[d]) % (2 * vg_d[d]); }
  return (n[2] * (2 * vg_d[1] + 1) + n[1]) * (2 * vg_d[0] + 1) + n[0];
}
static int vi_at (const int *x) { return vg_cell (x[0], x[1], DIM == 3 ? x[2] : 0); }
/* entity of leaf k in direction o of the brick (components -1, 0, 1), -1 if there is none;
 * *part: the leaf's own face or edge is only part of it */
static int vi_entity (int k, const int *o, int *part)
{
  const vleaf_t *f = &vg_leaf[k];
  int s = 1 << (vg_L - f->l), g[3] = { 0, 0, 0 }, c2[3] = { 0, 0, 0 }, d, i, n = 0, hang = 0;
  for (d = 0; d < DIM; ++d) { g[d] = f->g[d]; n += o[d] != 0; }
  if (n == DIM) {
    /* a corner: every leaf around must have it as a corner */
    for (i = 0; i < NC; ++i) {
      int x[3] = { 0, 0, 0 }, j, y[3], s2;
      for (d = 0; d < DIM; ++d) x[d] = g[d] + (o[d] > 0 ? s : 0) - ((i >> d) & 1);
      j = vi_at (x);
      if (j < 0) continue;
      vg_xyz (j, y);
      s2 = 1 << (vg_L - vg_lv[j]);
      for (d = 0; d < DIM; ++d) { y[d] &= s2 - 1; if (y[d] != (((i >> d) & 1) ? s2 - 1 : 0)) return -1; }
    }
    for (d = 0; d < DIM; ++d) c2[d] = 2 * (g[d] + (o[d] > 0 ? s : 0));
    *part = 0;
    return vi_key (c2);
  }
  for (i = 1; i < 8; ++i) {
    int x[3] = { 0, 0, 0 }, j, w = 0, on = 1;
    for (d = 0; d < DIM; ++d) {
      int u = (i >> d) & 1 ? o[d] : 0;
      if (((i >> d) & 1) && !o[d]) on = 0;
      x[d] = g[d] + (u < 0 ? -1 : u > 0 ? s : 0); w += u != 0;
    }
    if (DIM == 2 && (i & 4)) continue;
    if (!on || !w) continue;
    j = vi_at (x);
    if (j >= 0 && vg_lv[j] < f->l) hang = 1;
  }
  for (d = 0; d < DIM; ++d) {
    int a = hang ? g[d] & ~(2 * s - 1) : g[d], z = hang ? 2 * s : s;
    if (o[d] && hang && (o[d] < 0 ? a != g[d] : a == g[d])) return -1;   /* inside a larger face */
    c2[d] = o[d] < 0 ? 2 * a : o[d] > 0 ? 2 * (a + z) : 2 * a + z;
  }
  *part = hang;
  return vi_key (c2);
}
static void vi_dir (int i, int *o) { o[0] = i % 3 - 1; o[1] = i / 3 % 3 - 1; o[2] = DIM == 3 ? i / 9 - 1 : 0; }
static int vi_n (const int *o) { return (o[0] != 0) + (o[1] != 0) + (o[2] != 0); }
#endif
