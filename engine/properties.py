TECH = "contract-based deductive verification (CBMC DFCC function contracts and lemmas on the real C code)"
NOTE = ("Every obligation is generated on each run from /repo's current sources, for the 2D and the 3D build, and "
        "decided for all inputs satisfying the stated preconditions; loops bounded by the operand width are fully "
        "unrolled under discharged unwinding assertions. Trusted: CBMC and its solvers, the specification vocabulary, "
        "the models of the few libsc functions that are called (the sandbox has no libsc source; models are compared "
        "with the installed binary library on sampled arguments by the setup command).")
ASSUME = [
    "machine arithmetic is modelled bit-precisely (LP64, two's complement); signed overflow and undefined shifts are obligations except where a contract file turns them off by name",
    "libsc functions are represented by stubs/sc_model.c, validated on samples against the installed library",
    "the compiler that builds the library implements C as CBMC's C front end does",
]
EXPL = "each goal is one function contract enforced on the real function, or one lemma over real functions"
SETUP = "python3 engine/setup.py"
HOOKS = {"guard": "P4EST_VERIF", "enable": "goto-cc -DP4EST_VERIF (engine/check.py passes it); the library build never defines it", "source_commits": []}
NOTES = ""
B = ["src/p4est_bits.c", "src/p8est_bits.c"]
PROPS = []
def P(id, title, statement, quant, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why,
                      files=files, mech=mech, **kw))

BND = ("every goal is a bounded symbolic check: the whole real functions (with the library's array code as modelled in stubs) are run by the verifier for all inputs within the stated bound, "
       "with the contract as assertions; a loop over arrays of forest data, callbacks and allocation puts an unbounded proof out of its reach, so nothing counts as proved. "
       "The contracts of the quadrant functions they call are proved under Q01 to Q19.")
ENUM = ("whole-forest functions are beyond the contract verifier (recursion through hash tables, callbacks and messages), so their contracts are "
        "evaluated on every case of a stated finite set on the real code, run by P simulated processes (stubs/vmpi.c) against an oracle on the grid of finest cells (stubs/vforest.c); "
        "this is a bounded stand-in and counts as nothing proved. The contracts of the functions they call are proved under Q01 to Q24.")
P("Q01", "Quadrant comparison is the Morton order with ancestors first",
  "Comparing two quadrants or grid nodes orders them by the interleaving of their coordinate bits, and a coarser quadrant before a finer one at the same position; the result is a strict total order. Equality, the ordering with tree number or other payload, range membership and disjointness agree with it. Equal quadrants have equal hashes.",
  "all pairs and triples of quadrants in the root cell's 3^d neighborhood and all node points, in 2D and 3D",
  "tests compare a few hundred quadrants of a small forest; the order must hold for every coordinate pattern, including negative ones and the top bits",
  B, [("compare", "src/p4est_bits.c p4est_quadrant_compare"), ("piggy compare", "src/p4est_bits.c p4est_quadrant_compare_piggy"), ("disjoint", "src/p4est_bits.c p4est_quadrant_disjoint"), ("hash", "src/p4est_bits.c p4est_quadrant_hash_fn")])
P("Q02", "64-bit linear index encodes and decodes the position exactly",
  "The 64-bit linear index of a quadrant at a level is the number of the containing cell of that level in Morton order, and creating the quadrant from the index gives back exactly that cell; the two are inverse on all representable indices. Indices are monotone in the order of quadrants.",
  "all quadrants, levels and indices in range, in 2D and 3D",
  "tests round-trip the quadrants of one mesh; bit patterns in high positions are never produced by them",
  B, [("linear id", "src/p4est_bits.c p4est_quadrant_linear_id"), ("inverse", "src/p4est_bits.c p4est_quadrant_set_morton")])
P("Q03", "Wide linear indices and their arithmetic are exact",
  "The extended linear index covers every level of the refinement range, encodes the Morton number of a cell exactly and decodes to the same cell. Arithmetic on wide indices (comparison, addition, subtraction, shifts, bit operations) is exact modulo the width of the index.",
  "all index values, shift counts and quadrants in 2D (64 bit) and 3D (128 bit)",
  "carry propagation between the halves and shift counts at and beyond the width need specific values",
  ["src/p4est_bits.c", "src/p8est_bits.c"], [("extended id", "src/p4est_bits.c p4est_quadrant_linear_id_ext128"), ("inverse", "src/p4est_bits.c p4est_quadrant_set_morton_ext128"), ("2D arithmetic", "src/p4est_bits.c p4est_lid_*"), ("3D arithmetic", "src/p8est_bits.c p8est_lid_*")])
P("Q04", "Parents, ancestors, children and siblings form a consistent tree",
  "The children of a quadrant partition it into equal parts enumerated in Morton order; the parent, ancestor and sibling of a quadrant are the unique quadrants of the respective level and position containing or neighboring it under one parent. Child numbers invert the child construction, and these operations write nothing but the coordinates and level of their output.",
  "all quadrants and child numbers, in 2D and 3D, including quadrants outside the root and aliased arguments where documented",
  "tests walk a few refinement paths; wrong results at the finest level or outside the root stay invisible",
  B, [("parent/ancestor", "src/p4est_bits.c p4est_quadrant_parent, p4est_quadrant_ancestor"), ("children", "src/p4est_bits.c p4est_quadrant_childrenv"), ("child id", "src/p4est_bits.c p4est_quadrant_child_id, p4est_quadrant_ancestor_id")])
P("Q05", "Ancestor, parent, sibling, family and overlap tests are exact",
  "The predicates for ancestor, parent, sibling, family in Morton ordering and overlap hold if and only if the geometric relation of the cells holds. They agree with each other and with the order: an ancestor precedes its descendants, and everything between an ancestor and its descendant in the order is also a descendant.",
  "all pairs, triples and full families of quadrants, in 2D and 3D",
  "the predicates use bit tricks that can be wrong for specific level and alignment combinations only",
  B, [("ancestor", "src/p4est_bits.c p4est_quadrant_is_ancestor"), ("parent/sibling", "src/p4est_bits.c p4est_quadrant_is_parent, p4est_quadrant_is_sibling"), ("family", "src/p4est_bits.c p4est_quadrant_is_family; src/p8est_bits.c p8est_quadrant_is_family")])
P("Q06", "The nearest common ancestor is the deepest common container",
  "For two quadrants of the same tree the nearest common ancestor contains both, and no finer quadrant does. It is symmetric, idempotent, and equals the coarser argument if that contains the other.",
  "all pairs of quadrants in one tree, in 2D and 3D",
  "depends on the position of the highest differing bit, of which tests see only a few",
  B, [("nca", "src/p4est_bits.c p4est_nearest_common_ancestor")])
P("Q07", "First and last descendants, enlargement and succession are exact",
  "First, last and corner descendants are the cells of the given level in the respective corner; enlarging a quadrant within an ancestor keeps its first or last corner and stops only when a further step would move it. Successor and predecessor step by one in the uniform Morton numbering and are inverse; the test for adjacency in the order holds exactly if no gap or overlap lies between the two quadrants, and the tests against the range of a tree are exact.",
  "all quadrants, levels and ranges, in 2D and 3D",
  "errors need carries over several levels or extreme corners; the tests enumerate small meshes",
  B, [("descendants", "src/p4est_bits.c p4est_quadrant_first_descendant, p4est_quadrant_last_descendant, p4est_quadrant_corner_descendant"), ("enlarge", "src/p4est_bits.c p4est_quadrant_enlarge_first, p4est_quadrant_enlarge_last"), ("next", "src/p4est_bits.c p4est_quadrant_is_next, p4est_quadrant_successor, p4est_quadrant_predecessor"), ("tree range", "src/p4est_bits.c p4est_quadrant_overlaps_tree, p4est_quadrant_is_inside_tree")])
P("Q08", "Validity and position tests of quadrants, nodes and points are exact",
  "A quadrant is valid if and only if its level is in range, its coordinates are multiples of its length and it lies inside the root; extended quadrants may lie anywhere in the 3^d neighborhood. The tests for nodes, boundary coordinates, inside/outside the root across a face, edge or corner hold exactly under their documented conditions, and every extended quadrant has exactly one such position.",
  "all coordinate and level values, valid or not, in 2D and 3D",
  "tests only pass well-formed quadrants; misaligned, out-of-range or extreme coordinates never occur in them",
  B, [("valid/extended", "src/p4est_bits.c p4est_quadrant_is_valid, p4est_quadrant_is_extended"), ("node/coordinates", "src/p4est_bits.c p4est_quadrant_is_node, p4est_coordinates_is_valid"), ("outside", "src/p4est_bits.c p4est_quadrant_is_outside_face, p4est_quadrant_is_outside_corner; src/p8est_bits.c p8est_quadrant_is_outside_edge_extra")])
P("Q09", "Face, edge and corner neighbors are the geometrically adjacent cells",
  "The neighbor of a quadrant across a face, edge or corner is the cell of the same size that touches it exactly there; the half-size neighbors are the children of that cell that touch the quadrant, in Morton order, and the double-size neighbor exists exactly if the quadrant touches its parent's face. Neighborship is mutual inside the root, and only the output is written.",
  "all valid quadrants, faces, edges and corners, in 2D and 3D",
  "a wrong sign or axis for one face at one parity shows only for particular meshes",
  B, [("face", "src/p4est_bits.c p4est_quadrant_face_neighbor, p4est_quadrant_half_face_neighbors, p4est_quadrant_all_face_neighbors"), ("corner", "src/p4est_bits.c p4est_quadrant_corner_neighbor, p4est_quadrant_half_corner_neighbor"), ("edge", "src/p8est_bits.c p8est_quadrant_edge_neighbor")])
P("Q10", "Boundary points and contact with faces, edges and corners are exact",
  "The coordinates of the center, face and edge midpoints and corners of a quadrant are the geometric ones. Touching a corner or edge of the root from inside or outside, and touching the face or corner of an ancestor, are decided exactly, and moving a quadrant or point into a root corner places it there.",
  "all quadrants, ancestors, faces, edges and corners, in 2D and 3D",
  "off-by-one-cell errors appear only for some levels and corners",
  B, [("points", "src/p4est_bits.c p4est_quadrant_face_coordinates, p4est_quadrant_corner_coordinates"), ("touch", "src/p4est_bits.c p4est_quadrant_touches_corner; src/p8est_bits.c p8est_quadrant_touches_edge"), ("ancestor contact", "src/p4est_bits.c p4est_quadrant_is_ancestor_face, p4est_quadrant_is_ancestor_corner")])
P("Q11", "Grid nodes are clamped and assigned to quadrants consistently",
  "Clamping a node on the upper root boundary to the inside and unclamping it are inverse. The quadrant of a given level assigned to a clamped node is the one cell that contains it, and containment of a node in a quadrant is half-open.",
  "all nodes and quadrants, in 2D and 3D",
  "only nodes on the upper boundary at particular corners distinguish wrong variants",
  B, [("clamp", "src/p4est_bits.c p4est_node_clamp_inside, p4est_node_unclamp"), ("containment", "src/p4est_bits.c p4est_node_to_quadrant, p4est_quadrant_contains_node")])
C = ["src/p4est_connectivity.c", "src/p8est_connectivity.c"]
P("Q12", "Face connections between trees map cells and points by one rigid gluing",
  "The transform across a face connection glues the two trees at the given faces in the given orientation: points, quadrants and nodes at the face or behind it are mapped exactly by it, a cell behind a face becomes the adjacent cell inside the neighbor tree, and transforming forth and back gives the original. The face-corner and corner correspondence functions describe the same gluing, and a connection of a face to itself is reported as a boundary.",
  "all face pairs and orientations, all quadrants, nodes and points in the documented domain, connectivities of any size, in 2D and 3D",
  "tests use a handful of connectivities with few orientations; each of the 36 face pairs with four orientations has its own table entry",
  ["src/p4est_bits.c"] + C, [("find", "src/p4est_connectivity.c p4est_find_face_transform, p4est_expand_face_transform; src/p8est_connectivity.c p8est_expand_face_transform"), ("apply", "src/p4est_bits.c p4est_quadrant_transform_face, p4est_coordinates_transform_face"), ("corners", "src/p8est_connectivity.c p8est_connectivity_face_neighbor_corner")])
P("Q13", "Lookup tables and neighbor numberings describe the geometry of the cube",
  "The public tables relating faces, edges, corners and lattice points of a tree and of its children state the geometric incidences of the cube, with -1 exactly where there is none. The functions that number face corners, edges and corners across a tree face or edge agree with one another and with the gluing of the two trees for every orientation.",
  "all table entries and all face, edge, corner and orientation arguments",
  "a single wrong entry shows only on a mesh with just that incidence and orientation",
  C, [("tables", "src/p4est_connectivity.c p4est_face_corners and others; src/p8est_connectivity.c p8est_edge_faces and others"), ("numbering", "src/p8est_connectivity.c p8est_connectivity_face_neighbor_edge, p8est_connectivity_face_neighbor_corner_set, p8est_connectivity_edge_neighbor_corner")])
P("Q14", "Edge and corner connections reach exactly the diagonal neighbor trees",
  "The search for trees connected across a tree edge or corner returns every tree listed there that is not the tree itself or reached in the same way through a face (or, for corners, an edge), each once and with the right edge, flip and corner, and nothing else. Transforming a cell or point across an edge places it at the connected edge of the other tree, inside or outside as requested, with its position along the edge kept or reversed, and transforming back restores it.",
  "transforms: all edge pairs, flips, cells and points; searches: all connection lists of up to four trees (bounded)",
  "tests use a few connectivities in which most edges and corners are interior or regular",
  ["src/p4est_bits.c", "src/p8est_bits.c"] + C, [("search", "src/p4est_connectivity.c p4est_find_corner_transform; src/p8est_connectivity.c p8est_find_edge_transform"), ("apply", "src/p8est_bits.c p8est_quadrant_transform_edge, p8est_coordinates_transform_edge")])
P("Q15", "Neighbor transforms and canonical points agree with the connections of a tree",
  "A neighbor transform maps points and cells of a tree and of its surroundings into the neighbor tree exactly as the face, edge or corner connection it stands for, and its reverse undoes it. The transforms listed for a face, edge or corner begin with the tree itself and name each connected tree once, and nothing else at a boundary. The canonical form of a point on the tree boundary names the lowest tree that shares the point and, within it, the lowest coordinates, whichever tree it was computed from.",
  "maps: all connections, points and cells; lists and canonical points: all connection results of up to three further trees (bounded)",
  "only points shared by several trees with nontrivial orientation distinguish wrong variants",
  ["src/p4est_connectivity.c", "src/p4est_bits.c"], [("map", "src/p4est_connectivity.c p4est_neighbor_transform_coordinates, p4est_neighbor_transform_quadrant and their reverses"), ("lists", "src/p4est_connectivity.c p4est_connectivity_get_neighbor_transforms"), ("canonical", "src/p4est_connectivity.c p4est_connectivity_coordinates_canonicalize")])
P("Q16", "Shifting to a corner or edge stops at the first ancestor that touches it",
  "Given a quadrant next to a corner, the shift to the corner repeatedly passes to the parent of the corner-adjacent cell, and stops at the first one in that corner; the shift along an edge does so with the two neighboring cells up and down the edge. The outputs have the level at which contact is reached, lie inside the root, touch the given corner or edge, and the optional outputs are the neighboring cells along the edge. The random seed of a quadrant depends on its position, tree and level only as documented.",
  "all quadrants at any level for the corner; for the edge all positions at selected levels per edge (bounded)",
  "the loop runs for as many levels as the coordinates have trailing carries; tests have shallow meshes",
  B, [("corner", "src/p4est_bits.c p4est_quadrant_shift_corner"), ("edge", "src/p8est_bits.c p8est_quadrant_shift_edge"), ("seed", "src/p4est_bits.c p4est_quadrant_srand")])
P("Q17", "Ownership of cells by processes follows the partition markers exactly",
  "Each process owns the part of the space-filling curve from its first position up to that of the next process. A quadrant or node is owned by a process exactly if its first corner lies in that part, it is contained exactly if all of it does, and the search for the owner finds that process from any initial guess. A process is empty exactly if its part is. Gathering the partition gives every process its own first position, the next one's if it is empty, and the cumulative quadrant counts.",
  "all positions, quadrants, nodes and trees; ownership tests for any number of processes, owner search and gathering for up to four (bounded)",
  "tests run on one or two processes and with few empty ones; ties of position and level at process boundaries are rare",
  ["src/p4est_communication.c", "src/p8est_communication.c"], [("tests", "src/p4est_communication.c p4est_comm_is_owner_gfp, p4est_comm_is_contained, p4est_comm_is_empty_gfp"), ("search", "src/p4est_communication.c p4est_comm_find_owner"), ("gather", "src/p4est_communication.c p4est_comm_global_partition, p4est_comm_count_quadrants")])
P("Q18", "Searches in sorted arrays return the exact position from any guess",
  "The lower bound is the lowest index whose quadrant is not less than the key, the higher bound the highest one not greater, and -1 if there is none, for any valid initial guess. The partition searches return the range that contains the target, and the cumulative search returns the quadrant, its tree and number for a local index. Splitting an array of descendants yields for each child the range of its members.",
  "bounds: sorted arrays of any size up to 2^32 and any guess; cumulative search: three trees of any size, splitting: four quadrants (bounded)",
  "the failing combinations of guess, duplicates and ends of the range are few among all",
  ["src/p4est_search.c", "src/p8est_search.c", "src/p4est_communication.c"], [("bounds", "src/p4est_search.c p4est_find_lower_bound, p4est_find_higher_bound"), ("cumulative", "src/p4est_search.c p4est_find_quadrant_cumulative"), ("split", "src/p4est_search.c p4est_split_array"), ("partition", "src/p4est_communication.c p4est_bsearch_partition; src/p4est_search.c p4est_find_partition")])
P("Q19", "Tree tests and list operations keep exactly the quadrants they should",
  "A tree is reported sorted, linear, complete or almost sorted exactly if every consecutive pair of its quadrants is in that relation, and a quadrant is in a range exactly if all of it lies between the first and last descendant. Removing overlaps keeps exactly the quadrants that contain no other; removing non-owned ones keeps exactly those inside the tree and the own part of the curve. Order, counters and user data stay correct. The correction of a partition for coarsening gives each family to the lowest process with most of it.",
  "tree tests: arrays of any size up to 2^32; ranges and boundary: all quadrants; list operations: three quadrants of any kind, partitions of three processes (bounded)",
  "overlaps, exterior quadrants and ties at the ends of arrays occur only in particular parallel meshes",
  ["src/p4est_algorithms.c", "src/p8est_algorithms.c"], [("tests", "src/p4est_algorithms.c p4est_tree_is_sorted, p4est_tree_is_linear, p4est_tree_is_complete, p4est_tree_is_almost_sorted, p4est_quadrant_in_range, p4est_quadrant_on_face_boundary"), ("lists", "src/p4est_algorithms.c p4est_linearize_tree, p4est_tree_remove_nonowned"), ("data", "src/p4est_algorithms.c p4est_quadrant_init_data, p4est_quadrant_free_data"), ("partition", "src/p4est_algorithms.c p4est_partition_correction, p4est_next_nonempty_process")])
P("Q20", "Refinement and coarsening replace exactly the chosen quadrants",
  "Refinement replaces each local quadrant for which the callback agrees, below the allowed level, by its children in order, repeatedly if recursive, and leaves the others. Coarsening replaces each complete family for which the callback agrees by its parent, repeatedly if recursive, and leaves the others. Every quadrant or family is offered as documented, new user data is initialized once and replaced data freed once, the replacement callback sees both generations, and counts, offsets, levels and the revision are correct afterwards.",
  "two local trees with up to 36 quadrants at any position, fixed levels and enumerated answers of the callback, recursive or not, with and without replacement (bounded)",
  "the in-place rewriting of the arrays depends on the pattern of answers; tests use few patterns",
  ["src/p4est.c", "src/p8est.c"], [("refine", "src/p4est.c p4est_refine_ext"), ("coarsen", "src/p4est.c p4est_coarsen_ext")],
  level="other", explanation=BND)
P("Q21", "Column layer profiles are combined and balanced exactly",
  "The union of two layer profiles has at each height the finer of the two layers, the intersection the coarser. Balancing a profile by itself, or projecting it onto a neighbor column across a face or, with edges and corners in the balance law, across any neighbor, gives the coarsest complete profile that contains the required layers and satisfies the two-to-one condition of that law. Compressing a profile keeps the layers and drops the rest; the node numbers of a column element refer to the right nodes.",
  "all complete profiles of up to a stated depth and number of layers, enumerated as patterns with symbolic remaining contents (bounded)",
  "the streaming merge of two profiles depends on their relative pattern; tests balance a few forests and never look at profiles",
  ["src/p6est_profile.c"], [("combine", "src/p6est_profile.c p6est_profile_union, p6est_profile_intersection"), ("balance", "src/p6est_profile.c p6est_profile_balance_self, p6est_profile_balance_face, p6est_profile_balance_full"), ("nodes", "src/p6est_profile.c p6est_profile_element_to_node_single, p6est_profile_compress")],
  level="other", explanation=BND)
P("Q22", "Balance seeds force exactly the refinement that 2:1 balance needs",
  "For a leaf q and a coarser quadrant p of the same extended tree, the seed computation returns true exactly if the 2:1 condition of the chosen law (face, edge, full), propagated level by level from q through complete families, requires p to be refined. The seeds lie in p, are finer than p and not finer than q, and propagating from the seeds requires exactly the same cells inside p as propagating from q does.",
  "all relative positions of q for level differences two to five (return value) and two to three, thorough to four (seeds), p at the root, middle and finest levels (bounded)",
  "the formulas for the level of the inset cell depend on the distances along all axes and on the law; the tests sample few pairs",
  ["src/p4est_balance.c", "src/p8est_balance.c"], [("return value and seeds", "src/p4est_balance.c p4est_balance_seeds, p4est_balance_seeds_face, p4est_balance_seeds_corner; src/p8est_balance.c p8est_balance_seeds_edge"), ("kernel", "src/p4est_balance.c p4est_balance_kernel_1d, p4est_balance_kernel_2d")],
  level="other", explanation=BND)
P("Q23", "Face codes of local nodes decode to the documented hanging situation",
  "Decoding the face code of an element reports exactly the faces (and edges in 3D) that the code marks as hanging, in which half or corner of the larger face or edge they lie, and which edges lie inside a larger face; a zero code touches nothing. For a column layer, the horizontal and the layerwise hanging of each side face and edge combine as documented. The global number of a local node is its offset number if owned and the listed one otherwise.",
  "all face codes of the documented range in 2D, 3D and for columns; all local node indices",
  "tests build lnodes on a few forests; each combination of child number, hanging faces and edges is its own case, most never occur",
  ["src/p4est_lnodes.h", "src/p8est_lnodes.h", "src/p6est_lnodes.h", "src/p4est_lnodes.c"],
  [("decode", "src/p4est_lnodes.h p4est_lnodes_decode; src/p8est_lnodes.h p8est_lnodes_decode; src/p6est_lnodes.h p6est_lnodes_decode"), ("tables", "src/p4est_lnodes.c p4est_lnodes_corner_hanging"), ("numbers", "src/p4est_lnodes.h p4est_lnodes_global_index")])
P("Q24", "Deflating and inflating a forest restores it; trees are counted exactly",
  "Deflating lists the position and level of every local quadrant, and its data, in order. Inflating from such lists, the global partition and the cumulative counts per tree gives a forest with the same quadrants and data in the same trees, and with correct local tree range, offsets, level counts and descendants on every process, empty ones included. Counting quadrants per tree yields the exact cumulative counts on every process for every partition, and every message sent is received.",
  "three trees of one or two quadrants at any position, fixed levels; every range of local quadrants, every partition among four processes (bounded)",
  "partitions in which processes are empty or begin exactly at a tree boundary are rare in tests",
  ["src/p4est_io.c", "src/p8est_io.c", "src/p4est_communication.c"], [("deflate/inflate", "src/p4est_io.c p4est_deflate_quadrants, p4est_inflate"), ("count", "src/p4est_communication.c p4est_comm_count_pertree")],
  level="other", explanation=BND)
P("Q25", "Completing or balancing gives the coarsest forest that obeys the law",
  "Completing a tree fills its gaps with the coarsest leaves that keep every given leaf and stay within the process's part. Balancing a forest gives, on every process, exactly the coarsest refinement in which neighbors across faces (edges, corners, as asked; across trees and periodic boundaries too) differ by at most one level; the result does not depend on the partition or on message order. Process boundaries stay at the same positions, leaves that were not split keep their data, new ones are initialized or handed to the replace callback family by family, and all counters are right.",
  "one or two deep leaves at every cell of small bricks of trees, some of them with turned trees, every law, 1 to 5 processes with even, uneven and empty parts (bounded enumeration); the family comparison for all quadrants (proved)",
  "ripples across trees and processes for every placement of deep leaves; tests run a handful of forests",
  ["src/p4est_algorithms.c", "src/p8est_algorithms.c", "src/p4est.c", "src/p8est.c"], [("complete/balance", "src/p4est_algorithms.c p4est_complete_or_balance_kernel, p4est_balance_border"), ("parallel balance", "src/p4est.c p4est_balance_ext, p4est_balance_schedule")],
  level="other", explanation=ENUM)
P("Q26", "The ghost layer is exactly the adjacent leaves of other processes",
  "The ghost layer of a process holds exactly the leaves of other processes that share a face (edge, corner, as asked; across trees and periodic boundaries too) with one of its leaves, each once, sorted by owner, tree and position, with the owner's local number. Mirrors are exactly the local leaves in some other process's layer, listed per receiver in the order in which the receiver stores them. Data exchanged (of quadrants, custom, by level range) arrives in the slot of its leaf. Looking up a quadrant finds it exactly if it is there.",
  "one or two deep leaves at every cell of small bricks of trees, some of them with turned trees, every adjacency, 1 to 5 processes with even, uneven and empty parts (bounded enumeration)",
  "every geometric relation of a leaf to a process border, in particular at tree corners and empty processes; tests run a handful of forests",
  ["src/p4est_ghost.c", "src/p8est_ghost.c", "src/p4est_communication.c"], [("build", "src/p4est_ghost.c p4est_ghost_new, p4est_ghost_test_add"), ("exchange", "src/p4est_ghost.c p4est_ghost_exchange_custom_begin, p4est_ghost_exchange_custom_levels_begin")],
  level="other", explanation=ENUM)
P("Q27", "Node numbers are global, unique, and match the hanging structure",
  "In a balanced forest, two element nodes get the same global number exactly if they are the same independent node: nodes on hanging faces and edges count as those of the parent's face or edge. The numbering is contiguous over the processes, each node is owned by the process of the first leaf that touches it, owned nodes come first and the others with increasing global numbers. Face codes state exactly the hanging faces and edges of each element. Sharing lists of two processes name the same nodes in the same order. This holds for every degree and for numbering faces, edges and corners.",
  "one or two deep leaves at every cell of small bricks of trees, some of them with turned trees, degrees 1 to 3 and the face, edge and corner numberings, 1 to 5 processes with even, uneven and empty parts (bounded enumeration)",
  "ownership and sharing depend on how the partition cuts through hanging faces; tests run a handful of forests",
  ["src/p4est_lnodes.c", "src/p8est_lnodes.c"], [("number", "src/p4est_lnodes.c p4est_lnodes_new"), ("share", "src/p4est_lnodes.c p4est_lnodes_init_data, p4est_lnodes_global_and_sharers")],
  level="other", explanation=ENUM)
P("Q28", "Iteration visits every volume, face, edge and corner once with all its sides",
  "On every process the iterator calls back once for each local leaf in order, and once for each face, edge and corner of the local leaves, no others, with exactly the leaves that touch it as a whole: whether each is local or a ghost, its number, whether it hangs (smaller leaves in order), and whether the face is on a tree boundary. A quadrant that is not in the given ghost layer is reported as missing.",
  "one or two deep leaves at every cell of small bricks of trees, some of them with turned trees, full, face-only and no ghost layer, 1 to 5 processes with even, uneven and empty parts (bounded enumeration)",
  "hanging, tree and process borders combine in many ways; tests run a handful of forests",
  ["src/p4est_iterate.c", "src/p8est_iterate.c"], [("iterate", "src/p4est_iterate.c p4est_iterate, p4est_face_iterate, p4est_corner_iterate"), ("edges", "src/p4est_iterate.c p8est_edge_iterate")],
  level="other", explanation=ENUM)
P("Q29", "Repartitioning moves whole leaves with their data to the prescribed cuts",
  "Partitioning leaves the sequence of leaves as it is and cuts it evenly, by weight (within one leaf's weight of even), at the given counts, or for coarsening so that no family of leaves is split and each cut moves only to an end of the family it would split. Leaf data travels along, the number of moved leaves is returned, the revision counter changes exactly if something moved, markers and counters are right, and the checksum is the same for every partition. Data kept outside of the forest, of fixed and of variable size, is transferred to the new owners in order.",
  "one or two deep leaves at every cell of small bricks of trees, four weightings, 1 to 6 processes, from and to even, uneven and empty cuts (bounded enumeration)",
  "every relation of old to new cuts, empty processes included; tests run a handful of cuts",
  ["src/p4est.c", "src/p4est_algorithms.c", "src/p4est_communication.c"], [("cuts", "src/p4est.c p4est_partition_ext, p4est_partition_for_coarsening"), ("move", "src/p4est_algorithms.c p4est_partition_given"), ("transfer", "src/p4est_communication.c p4est_transfer_fixed_begin, p4est_transfer_begin")],
  level="other", explanation=ENUM)
P("Q30", "Top-down searches visit exactly the right branches, leaves and owners",
  "Searching the local leaves, the partition, or both enters every branch that holds a local leaf (every branch with its exact range of owners), parents before children and in order of the forest, asks for each point only in branches entered for it, and descends exactly where the callbacks allow it. Every leaf that is not cut off is reached exactly once, with its number and stored quadrant, and every point is found exactly in its leaf. The reordering variant visits the same in the order the callback prescribes, leaves every branch after what is below it, and can be restricted by the callback to some of the trees and children.",
  "one or two deep leaves at every cell of small bricks of trees, up to 200 points, exact or generous matching, excluded regions, 1 to 5 processes with even, uneven and empty parts (bounded enumeration)",
  "branches, owners and points combine in many ways; tests run a handful of forests and points",
  ["src/p4est_search.c", "src/p8est_search.c"], [("local", "src/p4est_search.c p4est_search_local, p4est_local_recursion"), ("partition", "src/p4est_search.c p4est_search_partition_gfx"), ("all, reorder", "src/p4est_search.c p4est_search_all, p4est_search_reorder")],
  level="other", explanation=ENUM)
P("Q31", "Mesh lists name exactly the face, edge and corner neighbors of each leaf",
  "The mesh of a balanced forest names, for every local leaf, the leaf or leaves (local or ghost) across each of its faces, and across edges and corners where asked for: equal size, twice as large with the half touched, or the list of half-size ones in order, with the neighbor's face (edge) number and orientation. Boundary faces name the leaf itself. Tree and level lists list each local leaf once, the face neighbor iterator yields the same neighbors in order with their data, and cumulative numbers lead to the right leaf.",
  "one or two deep leaves at every cell of small bricks of trees, some of them with turned trees, every kind of mesh, 1 to 5 processes with even, uneven and empty parts (bounded enumeration)",
  "size relations, tree orientations and process borders combine in many ways; tests run a handful of forests",
  ["src/p4est_mesh.c", "src/p8est_mesh.c"], [("lists", "src/p4est_mesh.c p4est_mesh_new_params, mesh_iter_face, mesh_iter_edge, mesh_iter_corner"), ("access", "src/p4est_mesh.c p4est_mesh_face_neighbor_next, p4est_mesh_quadrant_cumulative")],
  level="other", explanation=ENUM)
P("Q32", "Connectivities built, joined, permuted or refined connect what belongs together",
  "Completing a connectivity from the vertices of its trees connects two faces exactly if they have the same vertices, with the right orientation, leaves all other faces on the boundary, and stores exactly those edges and corners at which trees meet that do not already share a face (edge), with all trees around them and consistent orientations. Joining faces one by one leads to the same. Permuting the trees renames everything consistently; reducing and completing, copying, and writing to memory and reading back give an equal connectivity, and any changed entry makes it unequal. Refining cuts every tree into equal parts that fit together like the trees. A brick connects like a regular grid, periodic where asked. The transformations to the neighbors of a face, edge or corner name each tree that holds a point once and give its coordinates there; a point's canonical form is that in the lowest tree that holds it.",
  "all sets of trees of a 2x2(x2) brick turned in all ways, 3 to 6 trees around a vertex or edge, all bricks of up to 3x3(x2) trees and every periodicity (bounded enumeration)",
  "trees meet in all relative orientations; tests use a dozen fixed connectivities",
  ["src/p4est_connectivity.c", "src/p8est_connectivity.c", "src/p4est_connrefine.c", "src/p8est_connrefine.c"], [("complete", "src/p4est_connectivity.c p4est_connectivity_complete"), ("join, permute, compare", "src/p4est_connectivity.c p4est_connectivity_join_faces, p4est_connectivity_permute, p4est_connectivity_is_equivalent"), ("refine", "src/p4est_connrefine.c p4est_connectivity_refine"), ("transforms", "src/p4est_connectivity.c p4est_connectivity_get_neighbor_transforms, p4est_connectivity_coordinates_canonicalize")],
  level="other", explanation=ENUM)
P("Q33", "A forest saved to a file and loaded again is the same forest",
  "Loading a file written by p4est_save (or the parallel p4est_file functions) on any number of processes, with or without data and with or without a new partition, restores the connectivity, the leaves in order and their data; a damaged file is rejected.",
  "all forests, all process counts of writer and reader, all crash points",
  "tests write and read one or two forests",
  ["src/p4est_io.c", "src/p4est_algorithms.c", "src/p4est.c"], [("save/load", "src/p4est.c p4est_save_ext, p4est_source_ext"), ("parallel files", "src/p4est_io.c p4est_file_open_create, p4est_file_read_field")],
  na="The outcome is a file produced by MPI I/O and stdio through the binary libsc; no contract in the verifier's reach states what the file system and MPI_File_* do, and a model of them would be what is verified. The memory half (p4est_deflate, p4est_inflate, connectivity deflate) is covered by Q24 and Q32.")
P("Q34", "Geometries and VTK output place every leaf at its mapped position",
  "Each built-in geometry maps the reference cube of every tree continuously to its documented shape, neighbors agree on shared faces, and VTK files list every leaf once at these positions.",
  "all points of all trees", "tests sample a few points and look at no file",
  ["src/p4est_geometry.c", "src/p8est_geometry.c", "src/p4est_vtk.c"], [("geometry", "src/p8est_geometry.c p8est_geometry_shell_X"), ("output", "src/p4est_vtk.c p4est_vtk_write_header")],
  na="Floating point with tan, sqrt and cos: the verifier has no usable theory of these functions, and continuity is not a machine-arithmetic statement; VTK output is a file.")
