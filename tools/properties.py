COMMON = ("Obligations are generated from /repo's current sources on every run and discharged for all inputs in the precondition, with every loop "
          "and recursion shown by an unwinding obligation to end within the limit (level-bounded loops: the limit exceeds the maximal level). "
          "Trusted: clang, tools/ll2c.cpp, CBMC, the specification in spec/, the p4est/libsc models in models/. ")
prop("C01", "Parent, child, sibling and ancestor relations form a consistent hierarchy",
     "For every element of every tree shape and level, its children are exactly the distinct elements of the documented refinement in their documented order, each child's parent is the element again, and its child number is its position. Level, number of children and siblings, ancestor numbers, copies and equality agree with this hierarchy, also when input and output are the same object.",
     ["inputs"], "all valid elements of the 12 element classes of the default and the standalone scheme, all levels, all child numbers",
     "Tests enumerate elements of levels up to about 5; coordinates, types and levels up to the maximum (29, 30) and the special values at the highest bits are not reached, and there are more than 2^60 elements.",
     SCH, [("child and parent computation by type and cube-id tables", D + "t8_default_tri/t8_dtri_bits.c"), ("pyramid shape switch bookkeeping", D + "t8_default_pyramid/t8_dpyramid_bits.c"),
           ("generic bit computations of the standalone scheme", "src/t8_schemes/t8_standalone/t8_standalone_implementation.hxx")],
     note=COMMON + "Quick tier: ancestor numbers of pyramids for 7 of 21 levels (all in the thorough tier).", observe=["element_get_parent, element_get_child, element_get_children, element_get_sibling, element_get_child_id, element_get_ancestor_id, element_get_num_children, element_get_num_siblings, element_copy, element_is_equal, set_to_root"])
prop("C02", "The linear index is a bijection between elements of a level and 0..n-1",
     "For every level, the elements of a tree are numbered consecutively from 0 in hierarchical order: the index of an element equals the number of elements of that level before it, and constructing an element from an index and asking for its index returns the same number. The index at a coarser level is the index of the ancestor, at a finer level that of the first descendant.",
     ["inputs"], "all valid elements, all indices, all pairs of element level and target level",
     "Tests walk through a few levels of each shape from index 0; indices with high bits set, and mixed element and target levels, are out of reach.",
     SCH, [("index computation by level-wise child numbers", D + "t8_default_tri/t8_dtri_bits.c"), ("counting of pyramid and tetrahedral predecessors", D + "t8_default_pyramid/t8_dpyramid_bits.c")],
     note=COMMON + "Quick tier: sampled pairs (element level, target level), coordinates symbolic; all pairs in the thorough tier. Pyramids: bounded to small target levels (see evidence).",
     observe=["element_get_linear_id, element_set_linear_id"])
QS = "Quick tier: the level combinations named in the evidence file, coordinates and types symbolic, with a complementary native search (bounded) over the others; all in the thorough tier. "
prop("C03", "Comparing two elements gives one total order that follows the refinement tree",
     "For any two elements of a tree, of the same or different levels, comparing them yields the order of their linear indices at the finer of the two levels, with the coarser element first if these agree, and zero exactly for equal elements. The result for swapped arguments is the opposite, so sorting elements is well defined and an ancestor precedes its descendants.",
     ["inputs"], "all pairs of valid elements of one tree, all levels",
     "Tests compare elements of a few low levels; ties between different levels at high levels, and wrap-around of differences of 64-bit indices, are not reached.",
     SCH, [("three-way comparison by index with level as tie break", D + "t8_default_tri/t8_default_tri.cxx"), ("pyramid comparison", D + "t8_default_pyramid/t8_dpyramid_bits.c")],
     note=COMMON + "Simplices, prisms, pyramids and the standalone scheme: the comparison is proved against an unknown index function that the callee's contract (C02) identifies.", observe=["element_compare"])
prop("C04", "Successor and first or last descendant follow the linear order",
     "The successor of an element that is not the last of its level is the element of the same level with the next linear index. The first and last descendant of an element at a finer or equal level are its descendants with the smallest and largest index at that level.",
     ["inputs"], "all valid elements, all levels between the element's level and the maximum",
     "Tests iterate over uniform levels up to about 5; carries through many levels and descendants at the maximal level are out of reach.",
     SCH, [("successor recursion over child numbers", D + "t8_default_tri/t8_dtri_bits.c"), ("pyramid successor with shape switch", D + "t8_default_pyramid/t8_dpyramid_bits.c"), ("descendants by index shift", D + "t8_default_tet/t8_default_tet.cxx")],
     note=COMMON + QS, observe=["element_construct_successor, element_get_first_descendant, element_get_last_descendant"])
prop("C05", "Nearest common ancestor and ancestor test agree with the hierarchy",
     "The nearest common ancestor of two elements of a tree is an ancestor of both (or one of them) and no finer element is. An element is reported as ancestor of another exactly if it equals it or is reached from it by taking parents.",
     ["inputs"], "all pairs of valid elements, all levels",
     "The number of pairs is beyond enumeration; tests use children and siblings at low levels, so wrong results for distant or mixed-level pairs go unnoticed.",
     SCH, [("common ancestor by highest differing bit and type recursion", D + "t8_default_tri/t8_dtri_bits.c"), ("pyramid common ancestor", D + "t8_default_pyramid/t8_dpyramid_bits.c"), ("ancestor test", D + "t8_default_common/t8_default_common.hxx")],
     note=COMMON + QS, observe=["element_get_nca, element_is_ancestor"])
prop("C06", "A family is recognised exactly if it is all children of one parent",
     "Given as many elements as an element has children, the library reports a family exactly if they are, in order, all the children of one parent element. Any deviation in one member, such as a wrong position, level or type, or siblings of different parents, is rejected.",
     ["inputs"], "all sequences whose first member is a valid element and whose other members are aligned elements inside the tree's bounding cube",
     "Tests pass true families and a few perturbed ones; a check that ignores one coordinate or one member accepts only particular non-families.",
     SCH, [("family test by coordinates", D + "t8_default_prism/t8_dprism_bits.c"), ("family test of pyramids", D + "t8_default_pyramid/t8_dpyramid_bits.c"), ("family test of simplices", D + "t8_default_tri/t8_dtri_bits.c")],
     note=COMMON + QS, observe=["elements_are_family"])
prop("C07", "Face neighbours inside a tree are the elements that share the face",
     "For every element and face, the library reports a neighbour inside the tree exactly if the face is not on the tree's boundary. The neighbour is then a different valid element of the same level that shares exactly this face as a set of points, and the returned dual face number is the number of that face seen from the neighbour.",
     ["inputs"], "all valid elements and faces, all levels, default and standalone schemes",
     "Tests check neighbours of children of the root or low levels; neighbours across boundaries of coarse ancestors, at large coordinates or of rare types are not reached.",
     SCH, [("neighbour tables by type and face", D + "t8_default_tet/t8_dtet_connectivity.c"), ("pyramid neighbour case distinction", D + "t8_default_pyramid/t8_dpyramid_bits.c")],
     note=COMMON + QS, observe=["element_get_face_neighbor_inside"])
prop("C08", "Children at a face and face numbers of children and parents match the refinement",
     "The children at a face of an element, their number, their order by child number and their reported child indices are exactly the children that have a face contained in it. The face of such a child inside the parent's face, and the parent's face that contains a given face of an element (or none), are reported correctly, also if the element's memory is the first output.",
     ["inputs"], "all valid elements that can be refined, all faces",
     "Tests check few elements per shape; the tables depend on the type, which occurs only in deeper refinements.",
     SCH, [("face child tables", D + "t8_default_tet/t8_dtet_connectivity.c"), ("pyramid face parent case distinction", D + "t8_default_pyramid/t8_dpyramid_bits.c"), ("prism face children", D + "t8_default_prism/t8_dprism_bits.c")],
     note=COMMON + "Proved for all levels; the child function is used through its contract (C01).", observe=["element_get_num_face_children, element_get_children_at_face, element_face_get_child_face, element_face_get_parent_face"])
prop("C09", "Boundary faces of an element and extruding them back agree with the geometry",
     "A face is reported as lying on the tree's boundary exactly if it is contained in a face of the root, and the reported tree face is that one. The face element returned for it is the face's image in the face's own tree, and extruding a face element into the tree gives a valid element of the same level whose returned face is that face element.",
     ["inputs"], "all valid elements with a face on the boundary, all valid face elements, all faces of the root",
     "Tests use elements of low levels at the boundary; coordinate scaling between shapes of different maximal level, and types at high levels, are not reached.",
     SCH, [("extrusion and boundary face coordinates", D + "t8_default_prism/t8_dprism_bits.c"), ("tetrahedron boundary faces", D + "t8_default_tet/t8_default_tet.cxx"), ("pyramid extrusion", D + "t8_default_pyramid/t8_dpyramid_bits.c")],
     note=COMMON + QS, observe=["element_is_root_boundary, element_get_tree_face, element_get_boundary_face, element_extrude_face"])
prop("C10", "Transforming a face element between trees is the documented symmetry",
     "Transforming a line, quadrilateral or triangle face element by an orientation and sign gives the element whose corners are the images under the symmetry of the face that maps its vertex 0 to the vertex named by the orientation. The result is valid, may overwrite the input, and transforming back from the other side returns the original element.",
     ["inputs"], "all valid elements of the face shapes, all orientations, signs and sides",
     "Tests check orientations on few elements; errors that depend on the element's type or on large coordinates cancel for symmetric samples.",
     SCH, [("coordinate switch and rotation of triangles", D + "t8_default_tri/t8_dtri_bits.c"), ("rotation table of quadrilaterals", D + "t8_default_quad/t8_default_quad.cxx")],
     note=COMMON + QS, observe=["element_transform_face"])
prop("C11", "Shapes, face corners and vertex coordinates describe the element's geometry",
     "The reported shape of an element and of its faces, and its numbers of faces and corners, are those of its geometry. The corners of a face are numbered as documented for each shape, and the integer coordinates reported for each vertex are those of the element's position, level and type in the tree.",
     ["inputs"], "all valid elements, faces, corners; integer vertex coordinates for the default scheme",
     "Tests compare a few low-level elements; coordinates near the upper end of the tree and rare types are not reached.",
     SCH, [("vertex coordinates by type", D + "t8_default_tri/t8_dtri_bits.c"), ("pyramid vertices", D + "t8_default_pyramid/t8_dpyramid_bits.c"), ("prism vertices", D + "t8_default_prism/t8_dprism_bits.c")],
     note=COMMON, observe=["element_get_shape, element_get_num_faces, element_get_max_num_faces, element_get_num_corners, element_get_face_shape, element_get_face_corner, element_get_vertex_integer_coords"])
prop("C12", "Leaf counts equal the number of descendants",
     "The number of descendants of an element at a given level that the library reports, and of a tree's root, equals the true number of elements obtained by refining: zero for coarser levels, one for the element's own level, and the sum over the children otherwise.",
     ["inputs"], "all valid elements and all levels for which the count of the root fits the signed 64-bit result type",
     "Tests compare small levels; overflow and the exact pyramid formula at high levels are not reached.",
     SCH, [("count formulas", D + "t8_default_common/t8_default_common.hxx"), ("pyramid count 2*8^l - 6^l", D + "t8_default_pyramid/t8_default_pyramid.cxx")],
     note=COMMON, observe=["element_count_leaves, count_leaves_from_root"])

prop("C14", "First and last descendants at a face touch that face",
     "The first and last descendant of an element at a face, for a finer or equal level, are the descendants with the smallest and largest linear index at that level among those with a face inside that face.",
     ["inputs"], "all valid elements, all faces, all levels between the element's level and the maximum",
     "Tests refine few levels below few elements; wrong index digits at deeper levels and for rare types are not reached.",
     SCH, [("corner descendants by repeated child number", D + "t8_default_tri/t8_dtri_bits.c"), ("pyramid descendants at a face", D + "t8_default_pyramid/t8_dpyramid_bits.c")],
     note=COMMON + QS + "Simplices and prisms: all levels, with the index functions used through their contracts.", observe=["element_get_first_descendant_face, element_get_last_descendant_face"])

CM = "src/t8_cmesh/t8_cmesh_internal/"
prop("C15", "Partition table queries name the trees and owners the table describes",
     "For every valid table of tree offsets, the reported first and last tree, number of trees, emptiness and membership of a process agree with the table; a table entry made from a tree and a shared flag decodes to them; and the reported any, first, last, next and previous owner of a tree and next nonempty rank are the true ones, with empty processes and trees shared by several processes allowed.",
     ["inputs"], "all valid offset tables, ranks, trees",
     "The owner searches are only exercised by parallel runs with particular patterns of empty and sharing processes; tree numbers beyond 32 bits never occur in tests.",
     [CM + "t8_cmesh_offset.c", CM + "t8_cmesh_offset.h"], [("binary search for an owner, walks over empty processes", CM + "t8_cmesh_offset.c")], level="model_checking",
     note="Bounded: at most 4 processes (first and last owner: 1 and 4 in the quick tier), tree numbers b or 2^40+b with b < 16; loops fully unrolled. t8_offset_all_owners_of_tree and t8_offset_nosend (sc_array on the heap) are not covered.",
     observe=["t8_offset_first, _last, _num_trees, _empty, _in_range, _first_tree_to_entry, _next_nonempty_rank, _any_owner_of_tree(_ext), _first_owner_of_tree, _last_owner_of_tree, _next_owner_of_tree, _prev_owner_of_tree"])
prop("C16", "In a repartition each new owner of a tree gets it from exactly one process",
     "For every pair of valid tree partitions of the same trees, every tree is sent to each of its new owners by exactly one process: the new owner itself if it already has the tree, and the smallest old owner otherwise. A process is reported as sending to another exactly if there is such a tree, and the number of senders in a range of ranks is the number of such processes.",
     ["inputs", "schedules"], "all pairs of valid offset tables, all pairs of ranks, all trees",
     "Serial tests never repartition between processes; lost or duplicated trees need particular patterns of shared first trees and empty processes.",
     [CM + "t8_cmesh_offset.c", CM + "t8_cmesh_partition.cxx"], [("who sends a tree", CM + "t8_cmesh_offset.c")], level="model_checking",
     note="Bounded: 1, 2 and 4 processes (range count: 1 and 2 in the quick tier), tree numbers b or 2^40+b with b < 16. Covers the decision functions; the MPI exchange itself is not covered.",
     observe=["t8_offset_sendstree, t8_offset_sendsto, t8_offset_range_send"])
prop("C17", "Equal element shares and stored face codes are exact",
     "The first element of process p among P processes and N elements is floor(p*N/P) without overflow, and a face connection's stored code is orientation times the maximal number of faces plus the face, and decodes to the face and orientation it was made from.",
     ["inputs"], "all P >= 1, p <= P, N; all dimensions, faces and orientations",
     "Element numbers near the 64-bit limit and large process counts are not reached by tests.",
     ["src/t8_cmesh/t8_cmesh.hxx", CM + "t8_cmesh_trees.cxx"], [("split multiplication without overflow", "src/t8_cmesh/t8_cmesh.hxx"), ("encode and decode", CM + "t8_cmesh_trees.cxx")], level="model_checking",
     note="Face codes: all inputs. Shares bounded to 1..4 processes and three ranks of 2^16 and 2^31 processes, any N < 2^61.",
     observe=["t8_cmesh_get_first_element_of_process, t8_cmesh_tree_to_face_encode, t8_cmesh_tree_to_face_decode"])
prop("C18", "A forest's leaves always tile the domain, under any history of changes",
     "After any sequence of adapt, partition, balance and ghost operations the leaves of a forest cover every tree exactly once in order, no process holds a foreign leaf, and balance and ghost layers are complete.",
     ["histories", "schedules"], "all meshes, adapt callbacks, process counts and sequences of operations",
     "Tests sample few meshes, callbacks and process counts.",
     ["src/t8_forest/t8_forest.cxx", "src/t8_forest/t8_forest_adapt.cxx", "src/t8_forest/t8_forest_balance.cxx"], [("adapt, balance, ghost", "src/t8_forest/")], claimed=False,
     reason="The obligations range over heap-allocated forests of unbounded size, user callbacks and MPI exchange; the only deductive back end here that reaches this C++ (CBMC contracts on extracted code) has no usable support for such data structures, and no contract for MPI. The per-element guarantees the algorithms rest on are C01-C12 and C14.")
prop("C19", "Committing a coarse mesh keeps what the user described",
     "After commit, every tree has the class, face connections and attributes the user set before, on every process holding it, and copies and broadcasts are equal to the original.",
     ["histories", "schedules"], "all sequences of cmesh set calls, all process counts",
     "Tests build few meshes and compare few fields.",
     [CM + "t8_cmesh_commit.cxx", CM + "t8_cmesh_trees.cxx", CM + "t8_cmesh_stash.c"], [("byte-offset storage of trees and attributes", CM + "t8_cmesh_trees.cxx")], claimed=False,
     reason="The trees live in one raw heap buffer with self-relative byte offsets and unbounded, data-dependent size, filled over MPI; CBMC's contracts gave no proof for heap objects of this kind within the time available (an attempt with sc_array on the heap failed on the memory model, not on the code).")
