BUGS = [
dict(ID="q01-compare-top-bit", PROP="Q01", D3=1,
 EDITS=[("src/p4est_bits.c",
"""    p1 = v1[2] + ((v1[2] >= 0) ? 0 : ((int64_t) 1 << (P4EST_MAXLEVEL + 2)));
    p2 = v2[2] + ((v2[2] >= 0) ? 0 : ((int64_t) 1 << (P4EST_MAXLEVEL + 2)));""",
"""    p1 = v1[2] + ((v1[2] >= 0) ? 0 : ((int64_t) 1 << (P4EST_MAXLEVEL + 1)));
    p2 = v2[2] + ((v2[2] >= 0) ? 0 : ((int64_t) 1 << (P4EST_MAXLEVEL + 1)));""")],
 NEEDS="two 3D quadrants on opposite sides of the z=0 plane, the inner one beyond the upper root face",
 BREAKS="the order is no longer that of the interleaved bits: a quadrant below the root sorts before one above it",
 DEMO="""int main (void) {
  p4est_quadrant_t a, b; memset (&a, 0, sizeof a); memset (&b, 0, sizeof b);
  a.level = b.level = 1;
  a.z = -P4EST_ROOT_LEN; b.z = P4EST_ROOT_LEN + P4EST_ROOT_LEN / 2;
  CHECK (p4est_quadrant_compare (&b, &a) < 0);
  CHECK (p4est_quadrant_compare (&a, &b) > 0);
  return 0; }
"""),
dict(ID="q02-morton-sign-bits", PROP="Q02", D3=1,
 EDITS=[("src/p4est_bits.c",
"""  P4EST_ASSERT (id < ((uint64_t) 1 << P4EST_DIM * (level + 2)));

  quadrant->level = (int8_t) level;
  quadrant->x = 0;
  quadrant->y = 0;
#ifdef P4_TO_P8
  quadrant->z = 0;
#endif

  /* this may set the sign bit to create negative numbers */
  for (i = 0; i < level + 2; ++i) {
    quadrant->x |= (p4est_qcoord_t) ((id & (1ULL << (P4EST_DIM * i)))
                                     >> ((P4EST_DIM - 1) * i));
    quadrant->y |= (p4est_qcoord_t) ((id & (1ULL << (P4EST_DIM * i + 1)))
                                     >> ((P4EST_DIM - 1) * i + 1));
""",
"""  P4EST_ASSERT (id < ((uint64_t) 1 << P4EST_DIM * (level + 2)));

  quadrant->level = (int8_t) level;
  quadrant->x = 0;
  quadrant->y = 0;
#ifdef P4_TO_P8
  quadrant->z = 0;
#endif

  /* this may set the sign bit to create negative numbers */
  for (i = 0; i < level + 2; ++i) {
    quadrant->x |= (p4est_qcoord_t) ((id & (1ULL << (P4EST_DIM * i)))
                                     >> ((P4EST_DIM - 1) * i));
    quadrant->y |= (p4est_qcoord_t) ((id & (1UL << ((P4EST_DIM * i + 1) & 0x2f)))
                                     >> ((P4EST_DIM - 1) * i + 1));
""")],
 NEEDS="an index with a y bit at or above position 16 whose masked shift count differs: levels of about 5 and more outside the sampled range",
 BREAKS="set_morton no longer inverts linear_id",
 DEMO="""int main (void) {
  int l; for (l = 0; l <= P4EST_OLD_QMAXLEVEL; ++l) {
    p4est_quadrant_t q, r; memset (&q, 0, sizeof q); q.level = l;
    q.y = P4EST_LAST_OFFSET (l);
    p4est_quadrant_set_morton (&r, l, p4est_quadrant_linear_id (&q, l));
    CHECK (p4est_quadrant_is_equal (&q, &r)); }
  return 0; }
"""),
dict(ID="q06-nca-level", PROP="Q06", D3=0,
 EDITS=[("src/p4est_bits.c",
"""  r->level = (int8_t) SC_MIN (P4EST_MAXLEVEL - maxlevel,
                              (int) SC_MIN (q1->level, q2->level));

  P4EST_ASSERT (p4est_quadrant_is_extended (r));
}

void
p4est_nearest_common_ancestor_D""",
"""  r->level = (int8_t) SC_MIN (P4EST_MAXLEVEL - maxlevel, (int) q1->level);

  P4EST_ASSERT (p4est_quadrant_is_extended (r));
}

void
p4est_nearest_common_ancestor_D""")],
 NEEDS="the second argument is a proper ancestor of the first one and shares its first corner",
 BREAKS="the nearest common ancestor is finer than one of its arguments",
 DEMO="""int main (void) {
  p4est_quadrant_t a, b, r; memset (&a, 0, sizeof a); memset (&b, 0, sizeof b);
  a.level = 7; b.level = 3; a.x = b.x = P4EST_QUADRANT_LEN (3); 
  p4est_nearest_common_ancestor (&a, &b, &r);
  CHECK (p4est_quadrant_is_equal (&b, &r));
  return 0; }
"""),
dict(ID="q07-enlarge-last-stop", PROP="Q07", D3=1,
 EDITS=[("src/p4est_bits.c",
"""  inlevel = (int) q->level;
  w = q->x & q->y
#ifdef P4_TO_P8
    & q->z
#endif
    ;
""",
"""  inlevel = (int) q->level;
  w = q->x & q->y
#ifdef P4_TO_P8
    & (q->z | P4EST_QUADRANT_LEN (P4EST_QMAXLEVEL))
#endif
    ;
""")],
 NEEDS="a 3D quadrant of the deepest level that is an upper child in x and y but a lower child in z",
 BREAKS="enlarging keeps going although the last corner moves",
 DEMO="""int main (void) {
  p4est_quadrant_t a, b, c; memset (&a, 0, sizeof a);
  memset (&b, 0, sizeof b); b.level = P4EST_QMAXLEVEL; b.x = b.y = P4EST_QUADRANT_LEN (P4EST_QMAXLEVEL);
  c = b;
  p4est_quadrant_enlarge_last (&a, &b);
  CHECK (p4est_quadrant_is_equal (&b, &c));
  return 0; }
"""),
dict(ID="q09-double-neighbor-finest", PROP="Q09", D3=0,
 EDITS=[("src/p4est_bits.c",
"""    P4EST_QUADRANT_INIT (r);
  }
  else {
    p4est_quadrant_parent (q, r);
    p4est_quadrant_face_neighbor (r, face, r);
""",
"""    P4EST_QUADRANT_INIT (r);
  }
  else if (q->level == P4EST_QMAXLEVEL) {
    p4est_quadrant_parent (q, r);
    p4est_quadrant_face_neighbor (r, face ^ 1, r);
  }
  else {
    p4est_quadrant_parent (q, r);
    p4est_quadrant_face_neighbor (r, face, r);
""")],
 NEEDS="a quadrant of the deepest level on a face of its parent",
 BREAKS="the double-size neighbor lies across the opposite face",
 DEMO="""int main (void) {
  p4est_quadrant_t q, n[P4EST_HALF + 2], s; memset (&q, 0, sizeof q); 
  q.level = P4EST_QMAXLEVEL; q.x = 2 * P4EST_QUADRANT_LEN (q.level); 
  p4est_quadrant_all_face_neighbors (&q, 0, n);
  memset (&s, 0, sizeof s); s.level = q.level - 1;
  CHECK (p4est_quadrant_is_equal (&n[P4EST_HALF + 1], &s));
  return 0; }
"""),
dict(ID="q10-touches-corner-node", PROP="Q10", D3=1,
 EDITS=[("src/p4est_bits.c",
"""#ifdef P4_TO_P8
  side = (corner >> 2);
  incount += quad_contact[4 + side];
#endif

  return incount == P4EST_DIM;""",
"""#ifdef P4_TO_P8
  side = (corner >> 2);
  incount += quad_contact[4 + side] || quad_contact[5];
#endif

  return incount == P4EST_DIM;""")],
 NEEDS="a quadrant in the root corner diagonally above in z of the one asked for",
 BREAKS="a quadrant touching an upper corner is reported to touch the lower one as well",
 DEMO="""int main (void) {
  p4est_quadrant_t q; memset (&q, 0, sizeof q); q.level = 4; q.z = P4EST_LAST_OFFSET (4);
  CHECK (p4est_quadrant_touches_corner (&q, 4, 1));
  CHECK (!p4est_quadrant_touches_corner (&q, 0, 1));
  return 0; }
"""),
]
