BUGS = [
dict(ID="q01-disjoint-outside", PROP="Q01", D3=0,
 EDITS=[("src/p4est_bits.c",
"""  int8_t              level = SC_MIN (q->level, r->level);
  p4est_qcoord_t      mask = ~((1 << (P4EST_MAXLEVEL - level)) - 1);
""",
"""  int8_t              level = SC_MIN (q->level, r->level);
  p4est_qcoord_t      mask =
    P4EST_ROOT_LEN - ((1 << (P4EST_MAXLEVEL - level)));
""")],
 NEEDS="two congruent quadrants in different cells of the 3^d neighborhood of the root",
 BREAKS="quadrants outside the root are reported to overlap those at the same position of another tree",
 DEMO="""int main (void) {
  p4est_quadrant_t a, b; memset (&a, 0, sizeof a); memset (&b, 0, sizeof b);
  a.level = 3; b.level = 5; b.x = P4EST_ROOT_LEN;
  CHECK (p4est_quadrant_disjoint (&a, &b) < 0);
  CHECK (p4est_quadrant_disjoint (&b, &a) > 0);
  return 0; }
"""),
dict(ID="q02-morton-sign-bits", PROP="Q02", D3=1,
 EDITS=[("src/p4est_bits.c",
"""  P4EST_ASSERT (id < ((uint64_t) 1 << P4EST_DIM * (level + 2)));

  quadrant->level = (int8_t) level;
  quadrant->x = 0;
  quadrant->y = 0;
#ifdef P4_TO_P8
  quadrant->z = 0;
#endif

  /* this may set the sign bit to create negative numbers */
  for (i = 0; i < level + 2; ++i) {
    quadrant->x |= (p4est_qcoord_t) ((id & (1ULL""",
"""  P4EST_ASSERT (id < ((uint64_t) 1 << P4EST_DIM * (level + 2)));

  quadrant->level = (int8_t) level;
  quadrant->x = 0;
  quadrant->y = 0;
#ifdef P4_TO_P8
  quadrant->z = 0;
#endif

  /* this may set the sign bit to create negative numbers */
  for (i = 0; i < SC_MIN (level + 2, P4EST_OLD_QMAXLEVEL + 1); ++i) {
    quadrant->x |= (p4est_qcoord_t) ((id & (1ULL""")],
 NEEDS="a quadrant with a negative coordinate at the deepest level that 64 bits can number",
 BREAKS="set_morton loses the sign and does not invert linear_id there",
 DEMO="""int main (void) {
  p4est_quadrant_t q, r; memset (&q, 0, sizeof q); q.level = P4EST_OLD_QMAXLEVEL;
  q.y = -P4EST_QUADRANT_LEN (q.level);
  p4est_quadrant_set_morton (&r, q.level, p4est_quadrant_linear_id (&q, q.level));
  CHECK (p4est_quadrant_is_equal (&q, &r));
  return 0; }
"""),
dict(ID="q06-nca-log2", PROP="Q06", D3=0,
 EDITS=[("src/p4est_bits.c",
"""  maxlevel = SC_LOG2_32 (maxclor) + 1;

  P4EST_ASSERT (maxlevel <= P4EST_MAXLEVEL);

  r->x = q1->x & ~((1 << maxlevel) - 1);""",
"""  maxlevel = (maxclor >> 16 ? SC_LOG2_16 (maxclor >> 16) + 16 :
              SC_LOG2_8 (maxclor & 0xff)) + 1;

  P4EST_ASSERT (maxlevel <= P4EST_MAXLEVEL);

  r->x = q1->x & ~((1 << maxlevel) - 1);""")],
 NEEDS="two quadrants whose nearest common ancestor has a level of 14 to 21",
 BREAKS="the result is too fine and does not contain the second argument",
 DEMO="""int main (void) {
  p4est_quadrant_t a, b, r; memset (&a, 0, sizeof a); memset (&b, 0, sizeof b);
  a.level = 22; b.level = 23; b.y = P4EST_QUADRANT_LEN (18);
  p4est_nearest_common_ancestor (&a, &b, &r);
  CHECK (r.level == 17 && r.x == 0 && r.y == 0);
  return 0; }
"""),
dict(ID="q05-family-slot", PROP="Q05", D3=1,
 EDITS=[("src/p8est_bits.c",
"""          (q1->x == q5->x && q1->y == q5->y && q4->z == q5->z) &&""",
"""          (q1->x == q5->x && q4->y == q5->y) &&""")],
 NEEDS="eight quadrants of one size of which only number five is displaced in z",
 BREAKS="a set that is no family is accepted",
 DEMO="""int main (void) {
  p4est_quadrant_t q, c[8]; memset (&q, 0, sizeof q); q.level = 2; memset (c, 0, sizeof c);
  p4est_quadrant_childrenv (&q, c);
  CHECK (p4est_quadrant_is_familyv (c));
  c[5].z = 5 * P4EST_QUADRANT_LEN (3);
  CHECK (!p4est_quadrant_is_familyv (c));
  return 0; }
"""),
dict(ID="q09-half-neighbors-deep", PROP="Q09", D3=0,
 EDITS=[("src/p4est_bits.c",
"""  if (q->level == P4EST_QMAXLEVEL) {
    P4EST_QUADRANT_INIT (&n[0]);""",
"""  if (q->level >= P4EST_QMAXLEVEL - 1) {
    P4EST_QUADRANT_INIT (&n[0]);""")],
 NEEDS="a quadrant one level above the deepest",
 BREAKS="its half-size neighbors are reported as absent",
 DEMO="""int main (void) {
  p4est_quadrant_t q, n[P4EST_HALF + 2]; memset (&q, 0, sizeof q); 
  q.level = P4EST_QMAXLEVEL - 1; q.x = 2 * P4EST_QUADRANT_LEN (q.level); 
  p4est_quadrant_all_face_neighbors (&q, 0, n);
  CHECK (n[0].level == P4EST_QMAXLEVEL && n[0].x == q.x - P4EST_QUADRANT_LEN (P4EST_QMAXLEVEL));
  return 0; }
"""),
dict(ID="q10-face-center-finest", PROP="Q10", D3=0,
 EDITS=[("src/p4est_bits.c",
"""  const p4est_qcoord_t qhh = qh >> 1;

  /* store the coordinate axis normal to the face */""",
"""  const p4est_qcoord_t qhh =
    P4EST_QUADRANT_LEN (SC_MIN (q->level + 1, P4EST_QMAXLEVEL));

  /* store the coordinate axis normal to the face */""")],
 NEEDS="a quadrant of the deepest level",
 BREAKS="the face midpoint of the smallest quadrants is one of their corners",
 DEMO="""int main (void) {
  p4est_quadrant_t q; p4est_qcoord_t c[P4EST_DIM]; memset (&q, 0, sizeof q); q.level = P4EST_QMAXLEVEL;
  p4est_quadrant_face_coordinates (&q, 1, c);
  CHECK (c[0] == 2 && c[1] == 1);
  return 0; }
"""),
dict(ID="q11-contains-upper", PROP="Q11", D3=1,
 EDITS=[("src/p4est_bits.c",
"""    && (q->z <= n->z && n->z < q->z + qlen)
#endif
    ;""",
"""    && (q->z <= n->z && n->z - q->z <= qlen)
#endif
    ;""")],
 NEEDS="a 3D node on the upper z face of a quadrant",
 BREAKS="the node is contained in two quadrants",
 DEMO="""int main (void) {
  p4est_quadrant_t q, n; memset (&q, 0, sizeof q); memset (&n, 0, sizeof n); q.level = 2; 
  n.level = P4EST_MAXLEVEL; n.z = P4EST_QUADRANT_LEN (2);
  CHECK (!p4est_quadrant_contains_node (&q, &n));
  return 0; }
"""),
]
