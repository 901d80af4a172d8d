/* Model of the libsc linked list (assumed contract, compared with libsc by
 * engine/validate_stubs.py). */
#include <sc_containers.h>
#include <stdlib.h>
static sc_link_t *vlink (void *data, sc_link_t *next)
{
  sc_link_t *l = (sc_link_t *) malloc (sizeof (sc_link_t));
  __CPROVER_assume (l != NULL);
  l->data = data; l->next = next;
  return l;
}
sc_list_t *sc_list_new (sc_mempool_t * allocator)
{
  sc_list_t *s = (sc_list_t *) malloc (sizeof (sc_list_t));
  __CPROVER_assume (s != NULL);
  s->elem_count = 0; s->first = s->last = NULL;
  s->allocator_owned = allocator == NULL; s->allocator = allocator;
  return s;
}
sc_link_t *sc_list_prepend (sc_list_t * s, void *data)
{
  sc_link_t *l = vlink (data, s->first);
  if (s->first == NULL) s->last = l;
  s->first = l;
  ++s->elem_count;
  return l;
}
sc_link_t *sc_list_append (sc_list_t * s, void *data)
{
  sc_link_t *l = vlink (data, NULL);
  if (s->first == NULL) s->first = l;
  else s->last->next = l;
  s->last = l;
  ++s->elem_count;
  return l;
}
void *sc_list_pop (sc_list_t * s)
{
  sc_link_t *l = s->first;
  void *d;
  __CPROVER_assert (l != NULL, "precondition of sc_list_pop");
  d = l->data;
  s->first = l->next;
  if (s->first == NULL) s->last = NULL;
  free (l);
  --s->elem_count;
  return d;
}
void sc_list_reset (sc_list_t * s)
{
  while (s->first != NULL) { sc_link_t *l = s->first; s->first = l->next; free (l); }
  s->last = NULL; s->elem_count = 0;
}
void sc_list_destroy (sc_list_t * s) { sc_list_reset (s); free (s); }
