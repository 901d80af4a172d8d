/* Native side of the replay: reads recorded inputs, runs the same harness on
 * the real code compiled by gcc and evaluates the same contract clauses.
 * exit 0: contract held; 3: contract violated; 4: inputs outside the
 * precondition (replay not applicable); other: abort/sanitizer/hang. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <sc.h>
#include "vnd.h"
#include "vchk.h"

#include <signal.h>
#include <unistd.h>

/* enumerated checks: description of the case being run, number of cases */
char vnd_case[1024];
unsigned long vnd_cases;

static FILE *vf;
static int vdone;

uint64_t
vnd_next (const char *name)
{
  char nm[256];
  unsigned long long v;
  if (vf == NULL || fscanf (vf, "%255s %llx", nm, &v) != 2) {
    return 0;
  }
  { /* blanks of a name are recorded as underscores */
    const char *a = nm, *b = name;
    while (*a && *b && (*a == *b || (*a == '_' && *b == ' '))) { ++a; ++b; }
    if (!*a && !*b) return (uint64_t) v;
  }
  if (strcmp (nm, name)) {
    printf ("REPLAY-NOTE input order: wanted %s, have %s\n", name, nm);
  }
  return (uint64_t) v;
}

void
vnd_assume (int c, const char *txt)
{
  if (!c) {
    printf ("REPLAY-NA assumption false: %s\n", txt);
    fflush (stdout);
    _Exit (4);
  }
}

static void
vfail (const char *kind, const char *id)
{
  printf ("REPLAY-FAIL %s %s\n", kind, id);
  if (vnd_case[0])
    printf ("REPLAY-CASE %s\n", vnd_case);
  fflush (stdout);
  _Exit (3);
}

void
vnd_lemma (int c, const char *id)
{
  if (!c)
    vfail ("lemma", id);
}

void
vnd_reach (const char *id)
{
  vdone = 1;
}

typedef struct { unsigned char *p; size_t n; const char *name;
                 unsigned char *save, *mask; } vobj_t;
static vobj_t vo[256];
static int nvo;

void
vnd_reg (void *p, size_t n, const char *name)
{
  int i;
  for (i = 0; i < nvo; ++i) {
    if (vo[i].p == (unsigned char *) p) {
      return;
    }
  }
  if (nvo < 256) {
    vo[nvo].p = (unsigned char *) p;
    vo[nvo].n = n;
    vo[nvo].name = name;
    ++nvo;
  }
}

void
vchk_frame_begin (void)
{
  int i;
  for (i = 0; i < nvo; ++i) {
    vo[i].save = (unsigned char *) malloc (vo[i].n ? vo[i].n : 1);
    vo[i].mask = (unsigned char *) calloc (vo[i].n ? vo[i].n : 1, 1);
    memcpy (vo[i].save, vo[i].p, vo[i].n);
  }
}

void
vchk_frame_allow (const void *p, size_t n)
{
  int i;
  size_t k;
  const unsigned char *u = (const unsigned char *) p;
  for (i = 0; i < nvo; ++i) {
    for (k = 0; k < n; ++k) {
      if (u + k >= vo[i].p && u + k < vo[i].p + vo[i].n) {
        vo[i].mask[u + k - vo[i].p] = 1;
      }
    }
  }
}

void
vchk_frame_whole (const void *p)
{
  int i;
  const unsigned char *u = (const unsigned char *) p;
  for (i = 0; i < nvo; ++i) {
    if (u >= vo[i].p && u < vo[i].p + vo[i].n) {
      memset (vo[i].mask, 1, vo[i].n);
    }
  }
}

void
vchk_frame_end (const char *fn)
{
  int i;
  size_t k;
  for (i = 0; i < nvo; ++i) {
    for (k = 0; k < vo[i].n; ++k) {
      if (!vo[i].mask[k] && vo[i].save[k] != vo[i].p[k]) {
        printf ("REPLAY-NOTE %s wrote object %s outside its frame\n", fn,
                vo[i].name);
        vfail ("frame", fn);
      }
    }
    free (vo[i].save);
    free (vo[i].mask);
    vo[i].save = vo[i].mask = NULL;
  }
}

void
vchk_req (int c, const char *id)
{
  if (!c) {
    printf ("REPLAY-NA precondition false: %s\n", id);
    fflush (stdout);
    _Exit (4);
  }
}

void
vchk_ens (int c, const char *id)
{
  if (!c)
    vfail ("ensures", id);
}

void harness (void);

static void
vsig (int s)
{
  char b[1200];
  int n = snprintf (b, sizeof (b), "\nREPLAY-FAIL signal %d\nREPLAY-CASE %s\n", s, vnd_case);
  if (write (1, b, n) < 0) { }
  _exit (3);
}

/* a case that does not come back within this many seconds is stuck */
void
vnd_watch (unsigned sec)
{
  alarm (sec);
}

int
main (int argc, char **argv)
{
  if (argc > 1) {
    vf = fopen (argv[1], "r");
  }
  if (getenv ("VND_CATCH") != NULL) {
    signal (SIGABRT, vsig);
    signal (SIGSEGV, vsig);
    signal (SIGFPE, vsig);
    signal (SIGALRM, vsig);
  }
  harness ();
  if (vnd_cases)
    printf ("CASES %lu\n", vnd_cases);
  printf ("REPLAY-OK contract held on this input\n");
  return 0;
}
