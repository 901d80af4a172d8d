/* Models of libsc memory, array, memory pool and logging functions (assumed
 * contracts; engine/validate_stubs.py compares the array functions with the
 * installed libsc).  An owned array gets storage for a fixed number of bytes
 * on its first growth, VCAP, so that the verifier sees constant object sizes;
 * needing more is reported as an obligation, not assumed away. */
#ifdef VDIM3
#include <p4est_to_p8est.h>
#include <p8est.h>
#else
#include <p4est.h>
#endif
#include <stdlib.h>
#include <string.h>
#ifndef VCAP
#define VCAP 512
#endif
#ifdef VNATIVE_STUBS
#undef VCAP
#define VCAP 65536
#endif

#ifdef VSTORE
size_t vstore (size_t elem_size, char **storage);
#endif

void *sc_malloc (int package, size_t size)
{
  void *p = malloc (size);
  __CPROVER_assume (p != NULL);
  return p;
}
void *sc_calloc (int package, size_t nmemb, size_t size)
{
  void *p = calloc (nmemb, size);
  __CPROVER_assume (p != NULL);
  return p;
}
void sc_free (int package, void *ptr) { free (ptr); }
void *sc_realloc (int package, void *ptr, size_t size)
{
  void *p;
  if (size == 0) { free (ptr); return NULL; }
  p = realloc (ptr, size);
  __CPROVER_assume (p != NULL);
  return p;
}

void sc_array_init (sc_array_t * a, size_t es)
{
  __CPROVER_assert (es > 0, "precondition of sc_array_init");
  a->elem_size = es; a->elem_count = 0; a->byte_alloc = 0; a->array = NULL;
}
void sc_array_resize (sc_array_t * a, size_t n)
{
  size_t need = n * a->elem_size;
  if (!SC_ARRAY_IS_OWNER (a)) {
    __CPROVER_assert (need <= (size_t) -(a->byte_alloc + 1), "resize within the bounds of an array view");
    a->elem_count = n;
    return;
  }
  if (need > (size_t) a->byte_alloc) {
    char *old = a->array;
    size_t cap = VCAP;
#ifdef VSTORE
    /* the harness allocates typed storage for this size of elements */
    cap = vstore (a->elem_size, &a->array);
#else
    a->array = (char *) malloc (VCAP);
#endif
    __CPROVER_assume (a->array != NULL);
    __CPROVER_assert (need <= cap, "model capacity of an array");
    __CPROVER_assume (need <= cap);
    if (old != NULL) {
      memcpy (a->array, old, a->elem_count * a->elem_size);
      free (old);
    }
    a->byte_alloc = cap;
  }
  a->elem_count = n;
}
void sc_array_init_count (sc_array_t * a, size_t es, size_t n)
{ sc_array_init (a, es); sc_array_resize (a, n); }
void sc_array_init_size (sc_array_t * a, size_t es, size_t n) { sc_array_init_count (a, es, n); }
void sc_array_init_data (sc_array_t * v, void *base, size_t es, size_t n)
{ v->elem_size = es; v->elem_count = n; v->byte_alloc = -(ssize_t) (n * es + 1); v->array = (char *) base; }
void sc_array_init_view (sc_array_t * v, sc_array_t * a, size_t off, size_t len)
{
  __CPROVER_assert (off + len <= a->elem_count, "precondition of sc_array_init_view");
  v->elem_size = a->elem_size; v->elem_count = len;
  v->byte_alloc = -(ssize_t) (len * a->elem_size + 1);
  v->array = a->array + off * a->elem_size;
}
void sc_array_reset (sc_array_t * a)
{
  if (SC_ARRAY_IS_OWNER (a)) free (a->array);
  a->array = NULL; a->elem_count = 0; a->byte_alloc = 0;
}
void sc_array_truncate (sc_array_t * a) { a->elem_count = 0; }
void sc_array_rewind (sc_array_t * a, size_t n)
{ __CPROVER_assert (n <= a->elem_count, "precondition of sc_array_rewind"); a->elem_count = n; }
static sc_array_t *vnewarr (void)
{ sc_array_t *a = (sc_array_t *) malloc (sizeof (sc_array_t)); __CPROVER_assume (a != NULL); return a; }
sc_array_t *sc_array_new (size_t es) { sc_array_t *a = vnewarr (); sc_array_init (a, es); return a; }
sc_array_t *sc_array_new_count (size_t es, size_t n)
{ sc_array_t *a = vnewarr (); sc_array_init_count (a, es, n); return a; }
sc_array_t *sc_array_new_view (sc_array_t * a, size_t off, size_t len)
{ sc_array_t *v = vnewarr (); sc_array_init_view (v, a, off, len); return v; }
sc_array_t *sc_array_new_data (void *base, size_t es, size_t n)
{ sc_array_t *v = vnewarr (); sc_array_init_data (v, base, es, n); return v; }
void sc_array_destroy (sc_array_t * a)
{ if (SC_ARRAY_IS_OWNER (a)) free (a->array); free (a); }
void sc_array_destroy_null (sc_array_t ** pa) { sc_array_destroy (*pa); *pa = NULL; }
void sc_array_memset (sc_array_t * a, int c) { memset (a->array, c, a->elem_count * a->elem_size); }
void sc_array_copy (sc_array_t * d, sc_array_t * s)
{
  __CPROVER_assert (d->elem_size == s->elem_size, "precondition of sc_array_copy");
  sc_array_resize (d, s->elem_count);
  if (s->elem_count) memcpy (d->array, s->array, s->elem_count * s->elem_size);
}
int sc_array_is_sorted (sc_array_t * a, int (*compar) (const void *, const void *))
{
  size_t i;
  for (i = 1; i < a->elem_count; ++i)
    if (compar (a->array + (i - 1) * a->elem_size, a->array + i * a->elem_size) > 0) return 0;
  return 1;
}
int sc_array_is_equal (sc_array_t * a, sc_array_t * b)
{
  if (a->elem_size != b->elem_size || a->elem_count != b->elem_count) return 0;
  return !memcmp (a->array, b->array, a->elem_count * a->elem_size);
}
/* any sorted permutation is allowed by the library; this model is stable */
void sc_array_sort (sc_array_t * a, int (*compar) (const void *, const void *))
{
  size_t i, j, es = a->elem_size;
  char t[256];
  __CPROVER_assert (es <= 256, "model element size");
  for (i = 1; i < a->elem_count; ++i)
    for (j = i; j > 0 && compar (a->array + (j - 1) * es, a->array + j * es) > 0; --j) {
      memcpy (t, a->array + j * es, es);
      memcpy (a->array + j * es, a->array + (j - 1) * es, es);
      memcpy (a->array + (j - 1) * es, t, es);
    }
}
/* entry i moves to place newindices[i] */
void sc_array_permute (sc_array_t * a, sc_array_t * newindices, int keepperm)
{
  size_t i, n = a->elem_count, es = a->elem_size, *ni = (size_t *) newindices->array;
  char t[256];
  __CPROVER_assert (newindices->elem_size == sizeof (size_t) && newindices->elem_count == n, "precondition of sc_array_permute");
  __CPROVER_assert (n * es <= 256, "model capacity of sc_array_permute");
  for (i = 0; i < n; ++i) {
    __CPROVER_assert (ni[i] < n, "precondition of sc_array_permute");
    memcpy (t + ni[i] * es, a->array + i * es, es);
  }
  memcpy (a->array, t, n * es);
  if (!keepperm) for (i = 0; i < n; ++i) ni[i] = i;
}
/* of each group of equal elements the last one remains, as in libsc */
void sc_array_uniq (sc_array_t * a, int (*compar) (const void *, const void *))
{
  size_t i, j, es = a->elem_size, n = a->elem_count;
  if (n == 0) return;
  for (i = 0, j = 0; i < n; ++i) {
    if (i + 1 < n && compar (a->array + i * es, a->array + (i + 1) * es) == 0) continue;
    if (i > j) memcpy (a->array + j * es, a->array + i * es, es);
    ++j;
  }
  sc_array_resize (a, j);
}
#ifdef VCBMC
size_t vnd_any_index (void);
#endif
ssize_t sc_array_bsearch (sc_array_t * a, const void *key, int (*compar) (const void *, const void *))
{
  size_t i;
  for (i = 0; i < a->elem_count; ++i)
    if (compar (key, a->array + i * a->elem_size) == 0) {
#ifdef VCBMC
      /* any of several equal elements may be found */
      size_t k = vnd_any_index ();
      __CPROVER_assume (k < a->elem_count && compar (key, a->array + k * a->elem_size) == 0);
      return (ssize_t) k;
#else
      return (ssize_t) i;
#endif
    }
  return -1;
}
void sc_array_split (sc_array_t * a, sc_array_t * off, size_t nt, sc_array_type_t fn, void *data)
{
  size_t i, t, n = a->elem_count;
  size_t *o;
  sc_array_resize (off, nt + 1);
  o = (size_t *) off->array;
  for (i = 0; i < n; ++i) {
    __CPROVER_assert (fn (a, i, data) < nt, "precondition of sc_array_split: type in range");
    __CPROVER_assert (i == 0 || fn (a, i - 1, data) <= fn (a, i, data), "precondition of sc_array_split: sorted by type");
  }
  for (t = 0; t <= nt; ++t) {
    /* first index whose type is at least t */
    for (i = 0; i < n && fn (a, i, data) < t; ++i);
    o[t] = i;
  }
  o[nt] = n;
}

size_t sc_bsearch_range (const void *key, const void *base, size_t nmemb, size_t size,
                         int (*compar) (const void *, const void *))
{
  size_t k;
  const char *b = (const char *) base;
  for (k = 0; k < nmemb; ++k)
    if (compar (b + k * size, key) <= 0 && compar (key, b + (k + 1) * size) < 0) return k;
  return nmemb;
}

#ifndef VNATIVE_STUBS
sc_mempool_t *sc_mempool_new (size_t es)
{
  sc_mempool_t *m = (sc_mempool_t *) malloc (sizeof (sc_mempool_t));
  __CPROVER_assume (m != NULL);
  m->elem_size = es; m->elem_count = 0; m->zero_and_persist = 0;
  sc_array_init (&m->freed, sizeof (void *));
  return m;
}
void *sc_mstamp_alloc (sc_mstamp_t * ms)
{
  /* elements of one pool have one size; the pool is found from its member */
  sc_mempool_t *m = (sc_mempool_t *) ((char *) ms - offsetof (sc_mempool_t, mstamp));
  void *p = malloc (m->elem_size);
  __CPROVER_assume (p != NULL);
  return p;
}
void sc_mempool_destroy (sc_mempool_t * m) { sc_array_reset (&m->freed); free (m); }
void sc_mempool_truncate (sc_mempool_t * m) { sc_array_reset (&m->freed); m->elem_count = 0; }
void sc_log (const char *f, int l, int p, int c, int q, const char *m) { }
void sc_logf (const char *f, int l, int p, int c, int q, const char *m, ...) { }
void sc_logv (const char *f, int l, int p, int c, int q, const char *m, va_list a) { }
void sc_log_indent_push_count (int p, int c) { }
void sc_log_indent_pop_count (int p, int c) { }
double sc_MPI_Wtime (void) { return 0.; }
int sc_memory_status (int p) { return 0; }
size_t sc_array_memory_used (sc_array_t * a, int d) { return 0; }
#endif
