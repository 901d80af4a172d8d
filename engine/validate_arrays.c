/* random sequences of array and list operations on the model (m_) and libsc */
#include <sc_containers.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef sc_array_t A;
typedef int (*cmp_t) (const void *, const void *);
#define V(r, n, ...) extern r m_##n (__VA_ARGS__);
V (void, sc_array_init, A *, size_t) V (void, sc_array_resize, A *, size_t) V (void, sc_array_init_count, A *, size_t, size_t)
V (void, sc_array_init_data, A *, void *, size_t, size_t) V (void, sc_array_init_view, A *, A *, size_t, size_t)
V (void, sc_array_reset, A *) V (void, sc_array_truncate, A *) V (void, sc_array_rewind, A *, size_t)
V (A *, sc_array_new, size_t) V (A *, sc_array_new_count, size_t, size_t) V (A *, sc_array_new_view, A *, size_t, size_t)
V (A *, sc_array_new_data, void *, size_t, size_t) V (void, sc_array_destroy, A *) V (void, sc_array_memset, A *, int)
V (void, sc_array_copy, A *, A *) V (int, sc_array_is_sorted, A *, cmp_t) V (int, sc_array_is_equal, A *, A *)
V (void, sc_array_sort, A *, cmp_t) V (void, sc_array_permute, A *, A *, int) V (void, sc_array_uniq, A *, cmp_t)
V (ssize_t, sc_array_bsearch, A *, const void *, cmp_t) V (void, sc_array_split, A *, A *, size_t, sc_array_type_t, void *)
V (size_t, sc_bsearch_range, const void *, const void *, size_t, size_t, cmp_t)
V (sc_list_t *, sc_list_new, sc_mempool_t *) V (sc_link_t *, sc_list_prepend, sc_list_t *, void *) V (sc_link_t *, sc_list_append, sc_list_t *, void *)
V (void *, sc_list_pop, sc_list_t *) V (void, sc_list_reset, sc_list_t *) V (void, sc_list_destroy, sc_list_t *)
typedef struct { int key, tag; } E;
static int bad, n;
#define CK(c, what) do { ++n; if (!(c)) { if (bad++ < 20) fprintf (stderr, "model differs: %s\n", what); } } while (0)
static int byk (const void *a, const void *b) { int x = ((const E *) a)->key, y = ((const E *) b)->key; return (x > y) - (x < y); }
static int byall (const void *a, const void *b) { int x = ((const E *) a)->tag, y = ((const E *) b)->tag, k = byk (a, b); return k ? k : (x > y) - (x < y); }
static int byint (const void *a, const void *b) { int x = *(const int *) a, y = *(const int *) b; return (x > y) - (x < y); }
static size_t type (A * a, size_t i, void *d) { return (size_t) ((E *) a->array)[i].key; }
static int same (const A * a, const A * b)
{ return a->elem_size == b->elem_size && a->elem_count == b->elem_count && SC_ARRAY_IS_OWNER (a) == SC_ARRAY_IS_OWNER (b)
    && (a->elem_count == 0 || !memcmp (a->array, b->array, a->elem_size * a->elem_count)); }
static void fill (A * a, size_t from, int keys) { for (; from < a->elem_count; ++from) { ((E *) a->array)[from].key = rand () % keys; ((E *) a->array)[from].tag = rand () % 1000; } }
static void twin (A * r, A * m, size_t cnt, int keys)
{ sc_array_init (r, sizeof (E)); m_sc_array_init (m, sizeof (E)); sc_array_resize (r, cnt); m_sc_array_resize (m, cnt); fill (r, 0, keys); if (cnt) memcpy (m->array, r->array, cnt * sizeof (E)); }
int validate_arrays (int *cases)
{
  int i, j, k;
  for (i = 0; i < 4000; ++i) {
    A r, m, r2, m2, *rp, *mp;
    size_t c = (size_t) (rand () % 14), w, o, l;
    E key;
    twin (&r, &m, c, 6); CK (same (&r, &m), "init, resize");
    for (j = 0; j < 4; ++j) {
      size_t old = r.elem_count, nc = (size_t) (rand () % 20);
      sc_array_resize (&r, nc); m_sc_array_resize (&m, nc);
      if (nc > old) { int s = rand (); srand (s); fill (&r, old, 6); srand (s); fill (&m, old, 6); }
      CK (same (&r, &m), "resize keeps");
    }
    if (rand () % 2) { o = (size_t) rand () % (r.elem_count + 1); sc_array_rewind (&r, o); m_sc_array_rewind (&m, o); CK (same (&r, &m), "rewind"); }
    o = (size_t) rand () % (r.elem_count + 1); l = (size_t) rand () % (r.elem_count - o + 1);
    sc_array_init_view (&r2, &r, o, l); m_sc_array_init_view (&m2, &m, o, l); CK (same (&r2, &m2), "init_view");
    if (l) { sc_array_resize (&r2, l - 1); m_sc_array_resize (&m2, l - 1); CK (same (&r2, &m2), "resize of a view"); }
    sc_array_reset (&r2); m_sc_array_reset (&m2); CK (same (&r2, &m2), "reset of a view");
    rp = sc_array_new_view (&r, o, l); mp = m_sc_array_new_view (&m, o, l); CK (same (rp, mp), "new_view"); sc_array_destroy (rp); m_sc_array_destroy (mp);
    sc_array_init_data (&r2, r.array, sizeof (E), o); m_sc_array_init_data (&m2, m.array, sizeof (E), o); CK (same (&r2, &m2), "init_data");
    rp = sc_array_new_data (r.array, sizeof (E), o); mp = m_sc_array_new_data (m.array, sizeof (E), o); CK (same (rp, mp), "new_data"); sc_array_destroy (rp); m_sc_array_destroy (mp);
    CK (!sc_array_is_sorted (&r, byk) == !m_sc_array_is_sorted (&m, byk), "is_sorted");
    sc_array_init (&r2, sizeof (E)); m_sc_array_init (&m2, sizeof (E));
    sc_array_copy (&r2, &r); m_sc_array_copy (&m2, &m); CK (same (&r2, &m2), "copy");
    CK (sc_array_is_equal (&r2, &r) && m_sc_array_is_equal (&m2, &m), "is_equal");
    if (r2.elem_count) { ((E *) r2.array)->tag ^= 1; ((E *) m2.array)->tag ^= 1; CK (!sc_array_is_equal (&r2, &r) == !m_sc_array_is_equal (&m2, &m), "is_equal differs"); }
    /* permutation */
    {
      A rn, mn; size_t z;
      sc_array_init_count (&rn, sizeof (size_t), r.elem_count); m_sc_array_init_count (&mn, sizeof (size_t), r.elem_count);
      for (z = 0; z < r.elem_count; ++z) ((size_t *) rn.array)[z] = z;
      for (z = r.elem_count; z > 1; --z) { size_t y = (size_t) rand () % z, t = ((size_t *) rn.array)[y]; ((size_t *) rn.array)[y] = ((size_t *) rn.array)[z - 1]; ((size_t *) rn.array)[z - 1] = t; }
      if (r.elem_count) memcpy (mn.array, rn.array, r.elem_count * sizeof (size_t));
      k = rand () % 2;
      if (r.elem_count) { sc_array_permute (&r, &rn, k); m_sc_array_permute (&m, &mn, k); }
      CK (same (&r, &m), "permute");
      if (k) CK (same (&rn, &mn), "permute keeps the permutation");
      sc_array_reset (&rn); m_sc_array_reset (&mn);
    }
    /* sort by everything is unique; by key it must be sorted */
    sc_array_sort (&r, byall); m_sc_array_sort (&m, byall); CK (same (&r, &m), "sort");
    sc_array_sort (&r2, byk); CK (sc_array_is_sorted (&r2, byk), "sort by key");
    key.key = rand () % 7; key.tag = 0;
    w = (size_t) sc_array_bsearch (&r, &key, byk);
    CK (((ssize_t) w < 0) == (m_sc_array_bsearch (&m, &key, byk) < 0), "bsearch finds");
    if ((ssize_t) w >= 0) CK (w < r.elem_count && byk (&key, r.array + w * sizeof (E)) == 0, "bsearch finds an equal element");
    {
      A ro, mo;
      sc_array_init (&ro, sizeof (size_t)); m_sc_array_init (&mo, sizeof (size_t));
      sc_array_split (&r, &ro, 7, type, NULL); m_sc_array_split (&m, &mo, 7, type, NULL);
      CK (same (&ro, &mo), "split");
      sc_array_reset (&ro); m_sc_array_reset (&mo);
    }
    sc_array_uniq (&r, byk); m_sc_array_uniq (&m, byk); CK (same (&r, &m), "uniq");
    sc_array_memset (&r, 5); m_sc_array_memset (&m, 5); CK (same (&r, &m), "memset");
    sc_array_truncate (&r); m_sc_array_truncate (&m); CK (same (&r, &m), "truncate");
    sc_array_reset (&r); m_sc_array_reset (&m); CK (same (&r, &m), "reset");
    sc_array_reset (&r2); m_sc_array_reset (&m2);
    {
      int b[12], x = rand () % 24 - 2; size_t q = (size_t) (1 + rand () % 11);
      for (b[0] = rand () % 3, j = 1; j < 12; ++j) b[j] = b[j - 1] + 1 + rand () % 3;
      CK (sc_bsearch_range (&x, b, q, sizeof (int), byint) == m_sc_bsearch_range (&x, b, q, sizeof (int), byint), "bsearch_range");
    }
  }
  for (i = 0; i < 300; ++i) {
    static char d[8];
    sc_list_t *r = sc_list_new (NULL), *m = m_sc_list_new (NULL);
    for (j = 0; j < 60; ++j) {
      char *v = d + rand () % 8;
      switch (rand () % 5) {
      case 0: sc_list_prepend (r, v); m_sc_list_prepend (m, v); break;
      case 1: case 2: sc_list_append (r, v); m_sc_list_append (m, v); break;
      case 3: if (r->elem_count) CK (sc_list_pop (r) == m_sc_list_pop (m), "list pop"); break;
      default: if (rand () % 30 == 0) { sc_list_reset (r); m_sc_list_reset (m); }
      }
      CK (r->elem_count == m->elem_count && (r->first == NULL) == (m->first == NULL), "list count");
      if (r->elem_count) CK (r->first->data == m->first->data && r->last->data == m->last->data && m->last->next == NULL, "list ends");
      {
        sc_link_t *a = r->first, *b = m->first;
        for (; a != NULL && b != NULL; a = a->next, b = b->next) CK (a->data == b->data, "list order");
        CK (a == NULL && b == NULL, "list length");
      }
    }
    sc_list_destroy (r); m_sc_list_destroy (m);
  }
  *cases += n;
  return bad;
}
