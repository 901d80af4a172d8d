/* Bounded stand-ins only (native): small forests over bricks of trees, their
 * leaves as the functions under test should leave them, written down on the
 * grid of the finest cells.  Nothing here uses p4est beyond the data types. */
#ifndef VFOREST_C
#define VFOREST_C
#include "vmpi.c"
#ifdef P4_TO_P8
#include <p8est_ghost.h>
#else
#include <p4est_ghost.h>
#endif
enum { VG_CELLS = 1 << 15, VG_LEAVES = 1 << 15, VG_T = 32 };
static p4est_connectivity_t *vg_conn;
static int vg_n[3], vg_per[3], vg_L;              /* trees, periodic, depth */
static int vg_pos[VG_T][3], vg_tree[VG_T];        /* tree <-> brick position */
static int vg_axis[VG_T][3], vg_flip[VG_T][3];    /* the tree's own axis along each direction of the brick; reversed? */
static int vg_d[3];                               /* cells per direction */
static signed char vg_lv[VG_CELLS], vg_lv0[VG_CELLS];   /* now; as kept */
typedef struct { int t, c[3], l, g[3]; } vleaf_t; /* c: first cell inside tree; g: lowest cell in the brick */
static vleaf_t vg_leaf[VG_LEAVES], vg_old[VG_LEAVES];
static int vg_nleaf, vg_nold;
static int vg_of[VG_CELLS];                       /* cell -> leaf */
static int vg_P, vg_cut[VM_P + 1];                /* leaves before process p */

static void vg_brick (int a, int b, int c, int pa, int pb, int pc, int L)
{
  int t, d;
  if (vg_conn) p4est_connectivity_destroy (vg_conn);
#ifdef P4_TO_P8
  vg_conn = p8est_connectivity_new_brick (a, b, c, pa, pb, pc);
#else
  vg_conn = p4est_connectivity_new_brick (a, b, pa, pb); c = 1; pc = 0;
#endif
  vg_n[0] = a; vg_n[1] = b; vg_n[2] = c; vg_per[0] = pa; vg_per[1] = pb; vg_per[2] = pc; vg_L = L;
  for (d = 0; d < 3; ++d) vg_d[d] = d < DIM ? vg_n[d] << L : 1;
  for (t = 0; t < vg_conn->num_trees; ++t) {
    for (d = 0; d < 3; ++d) { vg_axis[t][d] = d; vg_flip[t][d] = 0; }
    for (d = 0; d < 3; ++d) vg_pos[t][d] = (int) (vg_conn->vertices[3 * vg_conn->tree_to_vertex[NC * t] + d] + .5);
    vg_tree[(vg_pos[t][2] * vg_n[1] + vg_pos[t][1]) * vg_n[0] + vg_pos[t][0]] = t;
  }
  LEMMA (brick_has_all_trees, vg_conn->num_trees == a * b * c);
}
/* index of the cell at global coordinates, after wrapping; -1 outside */
static int vg_cell (int x, int y, int z)
{
  int v[3] = { x, y, z }, d;
  for (d = 0; d < DIM; ++d) {
    if (v[d] < 0 || v[d] >= vg_d[d]) {
      if (!vg_per[d]) return -1;
      v[d] = (v[d] + vg_d[d]) % vg_d[d];
    }
  }
  return (v[2] * vg_d[1] + v[1]) * vg_d[0] + v[0];
}
/* from the tree's own directions and cells to those of the brick and back */
static void vg_odir (int t, const int *o, int *g)
{ int d; for (d = 0; d < 3; ++d) g[d] = vg_flip[t][d] ? -o[vg_axis[t][d]] : o[vg_axis[t][d]]; }
static void vg_idir (int t, const int *g, int *o)
{ int d; for (d = 0; d < 3; ++d) o[vg_axis[t][d]] = vg_flip[t][d] ? -g[d] : g[d]; }
static void vg_glob (int t, const int *x, int s, int *g)      /* lowest cell of a block of s cells */
{
  int d, m = 1 << vg_L;
  for (d = 0; d < 3; ++d) g[d] = d < DIM ? vg_pos[t][d] * m + (vg_flip[t][d] ? m - s - x[vg_axis[t][d]] : x[vg_axis[t][d]]) : 0;
}
static void vg_loc (int t, const int *g, int *x)
{
  int d, m = 1 << vg_L, u;
  for (d = 0; d < 3; ++d) { u = d < DIM ? g[d] - vg_pos[t][d] * m : 0; x[vg_axis[t][d]] = vg_flip[t][d] ? m - 1 - u : u; }
}
static int vg_cellg (const int *g) { return vg_cell (g[0], g[1], DIM == 3 ? g[2] : 0); }
/* turn (2D: or mirror) every tree of a brick that is not periodic */
static void vg_twist (unsigned seed)
{
  int t, c, d, w, p[3];
  p4est_topidx_t old[VG_T * NC];
  memcpy (old, vg_conn->tree_to_vertex, sizeof (p4est_topidx_t) * (size_t) (vg_conn->num_trees * NC));
  LEMMA (twisted_bricks_not_periodic, !vg_per[0] && !vg_per[1] && !vg_per[2]);
  for (t = 0; t < vg_conn->num_trees; ++t) {
    seed = seed * 1103515245u + 12345u;
    w = (int) ((seed >> 10) % (DIM == 3 ? 24 : 8));
    if (DIM == 2) { p[0] = w & 1; p[1] = !p[0]; p[2] = 2; vg_flip[t][0] = (w >> 1) & 1; vg_flip[t][1] = (w >> 2) & 1; }
    else {
      int even;
      p[0] = w % 3; p[1] = (p[0] + 1 + (w / 3) % 2) % 3; p[2] = 3 - p[0] - p[1];
      even = p[1] == (p[0] + 1) % 3;
      vg_flip[t][0] = (w / 6) & 1; vg_flip[t][1] = (w / 12) & 1; vg_flip[t][2] = vg_flip[t][0] ^ vg_flip[t][1] ^ !even;
    }
    for (d = 0; d < 3; ++d) vg_axis[t][d] = p[d];
    for (c = 0; c < NC; ++c) {
      int g = 0;
      for (d = 0; d < DIM; ++d) g |= (((c >> p[d]) & 1) ^ vg_flip[t][d]) << d;
      vg_conn->tree_to_vertex[NC * t + c] = old[NC * t + g];
    }
  }
  for (t = 0; t < vg_conn->num_trees; ++t) for (c = 0; c < NF; ++c) { vg_conn->tree_to_tree[NF * t + c] = t; vg_conn->tree_to_face[NF * t + c] = (int8_t) c; }
  p4est_connectivity_complete (vg_conn);
}
static void vg_twisted (int b, int i, int L)
{
  if (DIM == 2) vg_brick (b == 8 ? 3 : 2, b == 8 ? 1 : 2, 1, 0, 0, 0, L - 1);
  else if (b == 8) vg_brick (2, 1, 1, 0, 0, 0, L);
  else vg_brick (b == 7 ? 1 : 2, 2, b == 5 ? 1 : 2, 0, 0, 0, L - 1);
  vg_twist ((unsigned) (b * 7919 + i));
}
static int vg_ncells (void) { return vg_d[0] * vg_d[1] * vg_d[2]; }
static void vg_xyz (int i, int *v) { v[0] = i % vg_d[0]; v[1] = i / vg_d[0] % vg_d[1]; v[2] = i / vg_d[0] / vg_d[1]; }
static void vg_split (int i)
{
  int v[3], l = vg_lv[i], s = 1 << (vg_L - l), x, y, z;
  vg_xyz (i, v);
  v[0] &= ~(s - 1); v[1] &= ~(s - 1); v[2] = DIM == 3 ? v[2] & ~(s - 1) : 0;
  for (z = 0; z < (DIM == 3 ? s : 1); ++z) for (y = 0; y < s; ++y) for (x = 0; x < s; ++x)
    vg_lv[vg_cell (v[0] + x, v[1] + y, v[2] + z)] = (signed char) (l + 1);
}
static void vg_seed (int i, int l) { while (vg_lv[i] < l) vg_split (i); }
/* does the law look in direction (a,b,c)?  k: 1 faces, 2 and edges, DIM all */
static int vg_law (int k, int a, int b, int c)
{ int n = (a != 0) + (b != 0) + (c != 0); return n >= 1 && n <= k; }
/* the coarsest refinement of vg_lv in which neighbors differ by one level */
static long vg_balance (int k)
{
  int i, a, b, c, ch = 1, v[3]; long splits = 0;
  while (ch) {
    ch = 0;
    for (i = 0; i < vg_ncells (); ++i) {
      vg_xyz (i, v);
      for (c = DIM == 3 ? -1 : 0; c <= (DIM == 3); ++c) for (b = -1; b <= 1; ++b) for (a = -1; a <= 1; ++a) {
        int j;
        if (!vg_law (k, a, b, c)) continue;
        j = vg_cell (v[0] + a, v[1] + b, v[2] + c);
        if (j >= 0 && vg_lv[j] < vg_lv[i] - 1) { vg_split (j); ch = 1; ++splits; }
      }
    }
  }
  return splits;
}
static void vg_rec (int t, int x, int y, int z, int l)
{
  int s = 1 << (vg_L - l), c, a, b, d, v[3] = { x, y, z }, g[3];
  vg_glob (t, v, s, g);
  if (vg_lv[vg_cellg (g)] == l) {
    vleaf_t *f = &vg_leaf[vg_nleaf];
    f->t = t; f->c[0] = x; f->c[1] = y; f->c[2] = z; f->l = l;
    memcpy (f->g, g, sizeof (g));
    for (d = 0; d < (DIM == 3 ? s : 1); ++d) for (b = 0; b < s; ++b) for (a = 0; a < s; ++a)
      vg_of[vg_cell (g[0] + a, g[1] + b, DIM == 3 ? g[2] + d : 0)] = vg_nleaf;
    ++vg_nleaf;
    return;
  }
  for (c = 0; c < NC; ++c) vg_rec (t, x + (c & 1 ? s / 2 : 0), y + (c & 2 ? s / 2 : 0), z + (c & 4 ? s / 2 : 0), l + 1);
}
/* the leaves in the order of the forest */
static void vg_list (void)
{ int t; vg_nleaf = 0; for (t = 0; t < vg_conn->num_trees; ++t) vg_rec (t, 0, 0, 0, 0); }
static int vg_inside (const vleaf_t *a, const vleaf_t *b)   /* a inside or equal b */
{
  int s = 1 << (vg_L - b->l), d;
  if (a->t != b->t || a->l < b->l) return 0;
  for (d = 0; d < DIM; ++d) if (a->c[d] < b->c[d] || a->c[d] >= b->c[d] + s) return 0;
  return 1;
}
static int vg_isq (const Q *q, int t, const vleaf_t *f)
{
  int h = ML - vg_L;
  return t == f->t && q->level == f->l && q->x == (qc) f->c[0] << h && q->y == (qc) f->c[1] << h X3 (&& q->z == (qc) f->c[2] << h);
}
static int vg_ref_fn (p4est_t *p, p4est_topidx_t t, Q *q)
{
  int h = ML - vg_L, x[3] = { q->x >> h, q->y >> h, X3 (q->z +) 0 >> h }, g[3];
  vg_glob (t, x, 1, g);
  return q->level < vg_lv0[vg_cellg (g)];
}
static void vg_zero (p4est_t *p, p4est_topidx_t t, Q *q) { *(long *) q->p.user_data = -1; }
/* the forest of the leaves kept last (vg_keep), cut before leaf vg_cut[p]; the data of
 * every leaf is its number */
static p4est_t *vg_new (void)
{
  p4est_t *p = p4est_new_ext (MPI_COMM_WORLD, vg_conn, 0, 0, 1, sizeof (long), vg_zero, NULL);
  p4est_locidx_t n[VM_P];
  p4est_topidx_t t;
  size_t z;
  long k;
  int i;
  p4est_refine (p, 1, vg_ref_fn, vg_zero);
  for (i = 0; i < vg_P; ++i) n[i] = vg_cut[i + 1] - vg_cut[i];
  (void) p4est_partition_given (p, n);
  k = vg_cut[p->mpirank];
  for (t = p->first_local_tree; t <= p->last_local_tree; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    for (z = 0; z < tr->quadrants.elem_count; ++z)
      *(long *) p4est_quadrant_array_index (&tr->quadrants, z)->p.user_data = k++;
  }
  return p;
}
/* the forest holds the leaves vg_leaf, cut at the given places */
static void vg_check (p4est_t *p, const int *cut)
{
  p4est_topidx_t t;
  size_t z;
  int k = cut[p->mpirank], i, l, lev[ML + 1], m, off = 0;
  LEMMA (local_count, p->local_num_quadrants == cut[p->mpirank + 1] - k);
  LEMMA (global_count, p->global_num_quadrants == vg_nleaf);
  for (i = 0; i <= p->mpisize; ++i) LEMMA (global_first_quadrant, p->global_first_quadrant[i] == cut[i]);
  LEMMA (tree_range, IMP (p->local_num_quadrants > 0, p->first_local_tree == vg_leaf[k].t && p->last_local_tree == vg_leaf[cut[p->mpirank + 1] - 1].t));
  LEMMA (tree_range_empty, IMP (p->local_num_quadrants == 0, p->first_local_tree == -1 && p->last_local_tree == -2));
  for (t = 0; t < vg_conn->num_trees; ++t) {
    p4est_tree_t *tr = p4est_tree_array_index (p->trees, t);
    m = 0; for (l = 0; l <= ML; ++l) lev[l] = 0;
    if (t >= p->first_local_tree && t <= p->last_local_tree) LEMMA (quadrants_offset, tr->quadrants_offset == off);
    else LEMMA (other_trees_empty, tr->quadrants.elem_count == 0);
    for (z = 0; z < tr->quadrants.elem_count; ++z, ++k, ++off) {
      LEMMA (leaf, k < cut[p->mpirank + 1] && vg_isq (p4est_quadrant_array_index (&tr->quadrants, z), t, &vg_leaf[k]));
      ++lev[vg_leaf[k].l]; if (vg_leaf[k].l > m) m = vg_leaf[k].l;
    }
    for (l = 0; l <= ML; ++l) LEMMA (level_counter, tr->quadrants_per_level[l] == (l <= QML ? lev[l] : -1));
    LEMMA (maxlevel, tr->maxlevel == m);
  }
  LEMMA (data_pool, IMP (p->user_data_pool != NULL, p->user_data_pool->elem_count == (size_t) p->local_num_quadrants));
  LEMMA (all_leaves, k == cut[p->mpirank + 1]);
}
static void vg_keep (void) { memcpy (vg_lv0, vg_lv, sizeof (vg_lv)); vg_nold = vg_nleaf; memcpy (vg_old, vg_leaf, sizeof (vleaf_t) * (size_t) vg_nleaf); }
/* one leaf per tree again */
static void vg_clear (void) { memset (vg_lv, 0, sizeof (vg_lv)); }
/* cuts of the new leaves that keep every old leaf's owner */
static void vg_newcuts (int *cut)
{
  int p, g[3];
  for (p = 0; p <= vg_P; ++p) {
    vleaf_t *o = &vg_old[vg_cut[p]];
    vg_glob (o->t, o->c, 1, g);
    cut[p] = vg_cut[p] == vg_nold ? vg_nleaf : vg_of[vg_cellg (g)];
  }
}
/* cut places: kind 0 even, 1 all on the last, 2 all on the first, else by rng */
static void vg_cuts (int P, int kind, int N)
{
  int i, j;
  unsigned r = (unsigned) kind * 2654435761u + (unsigned) N;
  vg_P = P; vg_cut[0] = 0; vg_cut[P] = N;
  for (i = 1; i < P; ++i) {
    r = r * 1103515245u + 12345u;
    vg_cut[i] = kind == 0 ? (int) ((long) N * i / P) : kind == 1 ? 0 : kind == 2 ? N : (int) ((r >> 12) % (unsigned) (N + 1));
  }
  for (i = 1; i < P; ++i) for (j = i; j > 1 && vg_cut[j] < vg_cut[j - 1]; --j) { int x = vg_cut[j]; vg_cut[j] = vg_cut[j - 1]; vg_cut[j - 1] = x; }
}
#endif
