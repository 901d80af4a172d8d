/* Bounded stand-ins only (native): the MPI functions used by p4est, for P
 * processes that run as coroutines of one program.  A blocking call hands over
 * to the next runnable process; a state where nobody can proceed is reported.
 * Processes are scheduled, and messages for a wildcard receive are chosen, in
 * an order that depends on vm_seed. */
#ifndef VMPI_C
#define VMPI_C
#include <ucontext.h>
#include <mpi.h>
enum { VM_P = 8, VM_STACK = 1 << 20, VM_REQ = 1024, VM_MSG = 1024 };
static int vm_n = 1, vm_me, vm_live;
static unsigned vm_seed = 1, vm_rng;
static ucontext_t vm_ctx[VM_P], vm_main;
static char *vm_stack[VM_P];
static int vm_done[VM_P];
static long vm_idle;
static void (*vm_fn) (int, void *);
static void *vm_arg;
static unsigned vm_rand (void) { vm_rng = vm_rng * 1103515245u + 12345u; return vm_rng >> 16; }
static void vm_yield (void)
{
  int me = vm_me;
  if (++vm_idle > 20000) LEMMA (processes_do_not_wait_forever, 0);
  swapcontext (&vm_ctx[me], &vm_main);
  vm_me = me;
}
static void vm_entry (int r) { vm_fn (r, vm_arg); vm_done[r] = 1; --vm_live; vm_idle = 0; }

typedef struct { int used, src, dst, tag; MPI_Comm c; size_t n; char *b; unsigned long seq; } vm_msg_t;
static vm_msg_t vm_msg[VM_MSG];
static unsigned long vm_seq;
typedef struct { int used, recv, done, src, tag, me; MPI_Comm c; void *buf; size_t cap, got; int gsrc, gtag; } vm_req_t;
static vm_req_t vm_req[VM_REQ];
/* request handles: index + 1, never dereferenced by the code under test */
#define VM_H(i) ((MPI_Request) (size_t) ((i) + 1))
#define VM_I(h) ((int) ((size_t) (h)) - 1)
typedef struct { unsigned long gen; int in; const void *s[VM_P]; void *r[VM_P]; const int *rc[VM_P], *rd[VM_P]; } vm_coll_t;
static vm_coll_t vm_coll;

static void vm_run (int P, void (*fn) (int, void *), void *arg, unsigned seed)
{
  int i, k;
  for (i = 0; i < VM_MSG; ++i) { if (vm_msg[i].used) free (vm_msg[i].b); vm_msg[i].used = 0; }
  for (i = 0; i < VM_REQ; ++i) vm_req[i].used = 0;
  vm_coll.in = 0; vm_idle = 0;
  vm_n = P; vm_fn = fn; vm_arg = arg; vm_live = P; vm_seed = seed; vm_rng = seed * 2654435761u + 7u;
  for (i = 0; i < P; ++i) {
    if (vm_stack[i] == NULL) vm_stack[i] = (char *) malloc (VM_STACK);
    vm_done[i] = 0;
    getcontext (&vm_ctx[i]);
    vm_ctx[i].uc_stack.ss_sp = vm_stack[i]; vm_ctx[i].uc_stack.ss_size = VM_STACK;
    vm_ctx[i].uc_link = &vm_main;
    makecontext (&vm_ctx[i], (void (*) (void)) vm_entry, 1, i);
  }
  while (vm_live) {
    k = (int) (vm_rand () % (unsigned) P);
    for (i = 0; i < P; ++i) {
      int r = (seed & 1) ? (k + i) % P : (k + P - i) % P;
      if (vm_done[r]) continue;
      vm_me = r;
      swapcontext (&vm_main, &vm_ctx[r]);
    }
  }
  for (i = 0; i < VM_MSG; ++i) LEMMA (every_message_received, !vm_msg[i].used);
  for (i = 0; i < VM_REQ; ++i) LEMMA (every_request_completed, !vm_req[i].used);
  vm_n = 1; vm_me = 0;
}

/* derived types and operations of libsc */
static char vm_tt[16], vm_ot[16];
static size_t vm_ts[16];
static MPI_User_function *vm_of[16];
int MPI_Type_contiguous (int n, MPI_Datatype o, MPI_Datatype *t);
int MPI_Type_commit (MPI_Datatype *t) { return 0; }
int MPI_Type_free (MPI_Datatype *t) { vm_ts[(char *) *t - vm_tt] = 0; *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Op_create (MPI_User_function *f, int c, MPI_Op *o)
{
  int i;
  for (i = 0; i < 16 && vm_of[i]; ++i) ;
  if (i == 16) abort ();
  vm_of[i] = f; *o = (MPI_Op) &vm_ot[i];
  return 0;
}
int MPI_Op_free (MPI_Op *o) { vm_of[(char *) *o - vm_ot] = NULL; *o = MPI_OP_NULL; return 0; }
static size_t vm_size (MPI_Datatype t)
{
  if ((char *) t >= vm_tt && (char *) t < vm_tt + 16) return vm_ts[(char *) t - vm_tt];
  if (t == MPI_BYTE || t == MPI_CHAR) return 1;
  if (t == MPI_INT || t == MPI_UNSIGNED || t == MPI_FLOAT) return 4;
  if (t == MPI_SHORT || t == MPI_UNSIGNED_SHORT) return 2;
  if (t == MPI_2INT) return 8;
  if (t == MPI_LONG_DOUBLE) return sizeof (long double);
  if (t == MPI_LONG || t == MPI_UNSIGNED_LONG || t == MPI_LONG_LONG_INT || t == MPI_DOUBLE || t == MPI_UNSIGNED_LONG_LONG) return 8;
  if (t == MPI_INT8_T) return 1;
  fprintf (stderr, "vmpi: unknown datatype\n"); abort ();
}
int MPI_Type_contiguous (int n, MPI_Datatype o, MPI_Datatype *t)
{
  int i;
  for (i = 0; i < 16 && vm_ts[i]; ++i) ;
  if (i == 16) abort ();
  vm_ts[i] = (size_t) n * vm_size (o); *t = (MPI_Datatype) &vm_tt[i];
  return 0;
}
int MPI_Type_size (MPI_Datatype t, int *s) { *s = (int) vm_size (t); return 0; }
int MPI_Initialized (int *f) { *f = 1; return 0; }
int MPI_Comm_size (MPI_Comm c, int *s) { *s = vm_n; return 0; }
int MPI_Comm_rank (MPI_Comm c, int *r) { *r = vm_me; return 0; }
int MPI_Comm_dup (MPI_Comm c, MPI_Comm *d) { *d = c; return 0; }
int MPI_Comm_free (MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_get_attr (MPI_Comm c, int k, void *v, int *f) { *f = 0; return 0; }
int MPI_Abort (MPI_Comm c, int e) { abort (); }
double MPI_Wtime (void) { static double t; return t += 1e-6; }

/* ---- collectives: the last one to arrive finds everybody's buffers ---- */
static unsigned long vm_enter (const void *s, void *r, const int *rc, const int *rd)
{
  vm_coll.s[vm_me] = s; vm_coll.r[vm_me] = r; vm_coll.rc[vm_me] = rc; vm_coll.rd[vm_me] = rd;
  return vm_coll.gen + (unsigned long) (++vm_coll.in == vm_n);
}
static int vm_last (void) { return vm_coll.in == vm_n; }
static void vm_release (void) { vm_coll.in = 0; ++vm_coll.gen; vm_idle = 0; }
#define VM_COLLECTIVE(s,r,rc,rd,...) do { unsigned long g_ = vm_coll.gen; \
  vm_enter (s, r, rc, rd); \
  if (vm_last ()) { __VA_ARGS__; vm_release (); } else while (vm_coll.gen == g_) vm_yield (); } while (0)
int MPI_Barrier (MPI_Comm c) { VM_COLLECTIVE (NULL, NULL, NULL, NULL, ; ); return 0; }
int MPI_Bcast (void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
  size_t z = (size_t) n * vm_size (t);
  VM_COLLECTIVE (b, b, NULL, NULL, { int i_; for (i_ = 0; i_ < vm_n; ++i_) if (i_ != root) memcpy (vm_coll.r[i_], vm_coll.s[root], z); });
  return 0;
}
int MPI_Allgather (const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c)
{
  size_t z = (size_t) rn * vm_size (rt);
  VM_COLLECTIVE (s, r, NULL, NULL, {
    int i_, j_;
    for (i_ = 0; i_ < vm_n; ++i_) for (j_ = 0; j_ < vm_n; ++j_) if (vm_coll.s[j_] != MPI_IN_PLACE) memcpy ((char *) vm_coll.r[i_] + j_ * z, vm_coll.s[j_], z);
  });
  return 0;
}
int MPI_Allgatherv (const void *s, int sn, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c)
{
  size_t z = vm_size (rt);
  VM_COLLECTIVE (s, r, rc, rd, {
    int i_, j_;
    for (i_ = 0; i_ < vm_n; ++i_) for (j_ = 0; j_ < vm_n; ++j_)
      memcpy ((char *) vm_coll.r[i_] + vm_coll.rd[i_][j_] * z, vm_coll.s[j_], vm_coll.rc[i_][j_] * z);
  });
  return 0;
}
int MPI_Gather (const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  size_t z = (size_t) sn * vm_size (st);
  VM_COLLECTIVE (s, r, NULL, NULL, { int j_; for (j_ = 0; j_ < vm_n; ++j_) memcpy ((char *) vm_coll.r[root] + j_ * z, vm_coll.s[j_], z); });
  return 0;
}
int MPI_Alltoall (const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c)
{
  size_t z = (size_t) sn * vm_size (st);
  VM_COLLECTIVE (s, r, NULL, NULL, {
    int i_, j_;
    for (i_ = 0; i_ < vm_n; ++i_) for (j_ = 0; j_ < vm_n; ++j_) memcpy ((char *) vm_coll.r[i_] + j_ * z, (const char *) vm_coll.s[j_] + i_ * z, z);
  });
  return 0;
}
#define VM_OPS(T) { T x = *(T *) a, y = *(const T *) b; *(T *) a = o == MPI_SUM ? x + y : o == MPI_MAX ? (x > y ? x : y) : o == MPI_MIN ? (x < y ? x : y) : o == MPI_LOR ? (T) (x || y) : o == MPI_LAND ? (T) (x && y) : (T) (abort (), 0); }
#define VM_OPI(T) if (o == MPI_BOR) *(T *) a |= *(const T *) b; else if (o == MPI_BAND) *(T *) a &= *(const T *) b; else VM_OPS (T)
static void vm_op (MPI_Op o, MPI_Datatype t, void *a, const void *b, int n)
{
  int i; size_t z = vm_size (t);
  if ((char *) o >= vm_ot && (char *) o < vm_ot + 16) {
    /* the right operand in the order of the processes is the result's */
    char *w = (char *) malloc (z * (size_t) n + 1);
    memcpy (w, b, z * (size_t) n);
    vm_of[(char *) o - vm_ot] (a, w, &n, &t);
    memcpy (a, w, z * (size_t) n);
    free (w);
    return;
  }
  for (i = 0; i < n; ++i, a = (char *) a + z, b = (const char *) b + z) {
    if (t == MPI_INT) { VM_OPI (int) }
    else if (t == MPI_UNSIGNED) { VM_OPI (unsigned) }
    else if (t == MPI_LONG || t == MPI_LONG_LONG_INT) { VM_OPI (long) }
    else if (t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG) { VM_OPI (unsigned long) }
    else if (t == MPI_DOUBLE) { VM_OPS (double) }
    else if (t == MPI_CHAR || t == MPI_BYTE || t == MPI_INT8_T) { VM_OPI (signed char) }
    else abort ();
  }
}
/* how: 0 all, 1 inclusive scan, 2 exclusive scan, 3 to root only */
static int vm_reduce (const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int how, int root)
{
  size_t z = (size_t) n * vm_size (t);
  char *own = (char *) malloc (z + 1);
  memcpy (own, s == MPI_IN_PLACE ? r : s, z);
  VM_COLLECTIVE (own, r, NULL, NULL, {
    int i_; char *acc = (char *) malloc (z + 1);
    memcpy (acc, vm_coll.s[0], z);
    for (i_ = 0; i_ < vm_n; ++i_) {
      if (how == 2 && i_) memcpy (vm_coll.r[i_], acc, z);
      if (i_) vm_op (o, t, acc, vm_coll.s[i_], n);
      if (how == 1) memcpy (vm_coll.r[i_], acc, z);
    }
    if (how == 0) for (i_ = 0; i_ < vm_n; ++i_) memcpy (vm_coll.r[i_], acc, z);
    if (how == 3) memcpy (vm_coll.r[root], acc, z);
    free (acc);
  });
  free (own);
  return 0;
}
int MPI_Allreduce (const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return vm_reduce (s, r, n, t, o, 0, 0); }
int MPI_Reduce (const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { return vm_reduce (s, r, n, t, o, 3, root); }
int MPI_Scan (const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return vm_reduce (s, r, n, t, o, 1, 0); }
int MPI_Exscan (const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return vm_reduce (s, r, n, t, o, 2, 0); }

/* ---- point to point: sends are buffered, order kept per sender and tag ---- */
static int vm_find (int src, int tag, MPI_Comm c)
{
  int i, best = -1;
  for (i = 0; i < VM_MSG; ++i) {
    vm_msg_t *m = &vm_msg[i];
    if (!m->used || m->dst != vm_me || m->c != c || (tag != MPI_ANY_TAG && m->tag != tag)) continue;
    if (src != MPI_ANY_SOURCE && m->src != src) continue;
    if (best < 0 || (m->src == vm_msg[best].src ? m->seq < vm_msg[best].seq : (vm_rand () & 1))) best = i;
  }
  if (best >= 0 && src == MPI_ANY_SOURCE) /* the oldest one of that sender */
    for (i = 0; i < VM_MSG; ++i)
      if (vm_msg[i].used && vm_msg[i].dst == vm_me && vm_msg[i].c == c && vm_msg[i].src == vm_msg[best].src &&
          (tag == MPI_ANY_TAG || vm_msg[i].tag == tag) && vm_msg[i].seq < vm_msg[best].seq) best = i;
  return best;
}
int MPI_Send (const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
  int i; size_t z = (size_t) n * vm_size (t);
  LEMMA (message_to_existing_process, 0 <= dst && dst < vm_n && n >= 0);
  for (i = 0; i < VM_MSG && vm_msg[i].used; ++i) ;
  if (i == VM_MSG) abort ();
  vm_msg[i].used = 1; vm_msg[i].src = vm_me; vm_msg[i].dst = dst; vm_msg[i].tag = tag; vm_msg[i].c = c;
  vm_msg[i].n = z; vm_msg[i].b = (char *) malloc (z + 1); memcpy (vm_msg[i].b, b, z); vm_msg[i].seq = ++vm_seq;
  vm_idle = 0;
  return 0;
}
static int vm_newreq (void)
{
  int i;
  for (i = 0; i < VM_REQ && vm_req[i].used; ++i) ;
  if (i == VM_REQ) abort ();
  memset (&vm_req[i], 0, sizeof (vm_req[i]));
  vm_req[i].used = 1; vm_req[i].me = vm_me;
  return i;
}
int MPI_Isend (const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q)
{
  int i = vm_newreq ();
  MPI_Send (b, n, t, dst, tag, c);
  vm_req[i].done = 1; *q = VM_H (i);
  return 0;
}
int MPI_Issend (const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q) { return MPI_Isend (b, n, t, dst, tag, c, q); }
int MPI_Irecv (void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *q)
{
  int i = vm_newreq ();
  vm_req[i].recv = 1; vm_req[i].src = src; vm_req[i].tag = tag; vm_req[i].c = c; vm_req[i].buf = b; vm_req[i].cap = (size_t) n * vm_size (t);
  *q = VM_H (i);
  return 0;
}
static int vm_try (int i)
{
  vm_req_t *q = &vm_req[i];
  int k, j;
  if (q->done) return 1;
  /* posted receives match in the order they were posted: handled by asking
   * for distinct sources or tags; two equal ones do not occur in p4est */
  k = vm_find (q->src, q->tag, q->c);
  if (k < 0) return 0;
  LEMMA (message_fits_receive, vm_msg[k].n <= q->cap);
  memcpy (q->buf, vm_msg[k].b, vm_msg[k].n);
  q->got = vm_msg[k].n; q->gsrc = vm_msg[k].src; q->gtag = vm_msg[k].tag;
  free (vm_msg[k].b); vm_msg[k].used = 0; q->done = 1; vm_idle = 0;
  (void) j;
  return 1;
}
static void vm_status (MPI_Status *s, int src, int tag, size_t n)
{
  if (s == MPI_STATUS_IGNORE || s == NULL) return;
  s->MPI_SOURCE = src; s->MPI_TAG = tag; s->MPI_ERROR = 0; s->_ucount = n;
}
static void vm_finish (MPI_Request *h, MPI_Status *s)
{
  vm_req_t *q = &vm_req[VM_I (*h)];
  vm_status (s, q->gsrc, q->gtag, q->got);
  q->used = 0; *h = MPI_REQUEST_NULL;
}
int MPI_Get_count (const MPI_Status *s, MPI_Datatype t, int *n) { *n = (int) (s->_ucount / vm_size (t)); return 0; }
int MPI_Wait (MPI_Request *q, MPI_Status *s)
{
  if (*q == MPI_REQUEST_NULL) return 0;
  while (!vm_try (VM_I (*q))) vm_yield ();
  vm_finish (q, s);
  return 0;
}
int MPI_Waitall (int n, MPI_Request *q, MPI_Status *s)
{
  int i;
  for (i = 0; i < n; ++i) MPI_Wait (&q[i], s == MPI_STATUSES_IGNORE || s == NULL ? MPI_STATUS_IGNORE : s + i);
  return 0;
}
int MPI_Test (MPI_Request *q, int *f, MPI_Status *s)
{
  if (*q == MPI_REQUEST_NULL) { *f = 1; return 0; }
  *f = vm_try (VM_I (*q));
  if (*f) vm_finish (q, s); else vm_yield ();
  return 0;
}
int MPI_Testall (int n, MPI_Request *q, int *f, MPI_Status *s)
{
  int i; *f = 1;
  for (i = 0; i < n; ++i) if (q[i] != MPI_REQUEST_NULL && !vm_try (VM_I (q[i]))) *f = 0;
  if (*f) return MPI_Waitall (n, q, s);
  vm_yield ();
  return 0;
}
int MPI_Waitsome (int n, MPI_Request *q, int *on, int *idx, MPI_Status *s)
{
  int i, any = 0, k = 0;
  for (i = 0; i < n; ++i) any |= q[i] != MPI_REQUEST_NULL;
  if (!any) { *on = MPI_UNDEFINED; return 0; }
  while (1) {
    for (i = 0; i < n; ++i) {
      if (q[i] == MPI_REQUEST_NULL || !vm_try (VM_I (q[i]))) continue;
      vm_finish (&q[i], s == MPI_STATUSES_IGNORE || s == NULL ? MPI_STATUS_IGNORE : s + k);
      idx[k++] = i;
      if (vm_rand () & 1) break;
    }
    if (k) { *on = k; return 0; }
    vm_yield ();
  }
}
int MPI_Iprobe (int src, int tag, MPI_Comm c, int *f, MPI_Status *s)
{
  int k = vm_find (src, tag, c);
  *f = k >= 0;
  if (k >= 0) vm_status (s, vm_msg[k].src, vm_msg[k].tag, vm_msg[k].n);
  else vm_yield ();
  return 0;
}
int MPI_Probe (int src, int tag, MPI_Comm c, MPI_Status *s)
{
  int k;
  while ((k = vm_find (src, tag, c)) < 0) vm_yield ();
  vm_status (s, vm_msg[k].src, vm_msg[k].tag, vm_msg[k].n);
  return 0;
}
int MPI_Recv (void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s)
{
  MPI_Request q;
  MPI_Irecv (b, n, t, src, tag, c, &q);
  return MPI_Wait (&q, s);
}
/* not expected in what is run here */
#define VM_NO(f) int f (void) { fprintf (stderr, "vmpi: " #f " not modelled\n"); abort (); }
#endif
