"""Registry of the checks: which harness cases decide which property, in which build configurations, within which bounds."""
COMMON = [
 "real-valued data are exact reals in symbolic positions; values that are concrete on a path are evaluated in IEEE double exactly as the program would. Rounding of symbolic arithmetic is outside the claim (tolerances are stated per case)",
 "the encoding is clang-18 -O1 IR of /repo's sources; the gcc build is exercised only when a counterexample is replayed",
 "symbolic denominators and square roots are assumed non-zero / non-negative where the program itself divides or takes the root (counted as domain_assumptions_added)",
 "a case executes one public entry point per build configuration; template instantiations not listed in functions_encoded are outside the claim"]
def J(h, cfg="noeigen", **k): d = {"harness": h, "cfg": cfg}; d.update(k); return d
def both(h, **k): return [J(h, "noeigen", **k), J(h, "eigen", **k)]
L3 = ["fem/quadrature_formulas.cpp", "fem/tetdofmap.cpp", "fem/fem_space.cpp"]
CHECKS = {
 "C01": {"jobs": [J("quad", libs=["fem/quadrature_formulas.cpp"]), J("quad", "eigen", libs=["fem/quadrature_formulas.cpp"])],
   "explanation": "For every order in [-6,27] (symbolic, one path per value) and for polynomials with all coefficients symbolic in [-1,1], the value of the rule and the exact integral are compared; the linear form over all coefficients is bounded by the solver. For a symbolic point index: positivity, vertex-permutation invariance, declared symmetry classes, accessor/view agreement.",
   "bounds": "orders -6..27; polynomial degree <= order (all monomials, up to 1771 coefficients); tolerance 1e-12 on the integral for coefficients in [-1,1]; point comparison 1e-14", "assumptions": COMMON},
 "C02": {"jobs": both("basis"), "explanation": "Every operator on every elementary space is applied to every basis function through the public apply entry point; barycentric coordinates and (for the cheap spaces) all twelve vertex coordinates are symbolic reals, the oracle is the analytic basis written from the documentation, and z3 bounds the difference of the two exact polynomials on the whole box.", "bounds": "symbolic vertices in boxes around a reference tetrahedron of either orientation (P0,P1,P2,CR1,RT0,B4) or 6 concrete tetrahedra (all spaces); symbolic barycentric point; 1..2 fused tetrahedra; tolerance 1e-7", "assumptions": COMMON},
 "C03": {"jobs": both("composite") + both("composite", defs=("-DRUNTIME",)), "explanation": "Operators on vector/product/enriched spaces are compared with the blockwise composition of the analytic basis for symbolic points and unknowns; the same trees are built at run time and compared with the same oracle, including dimensions, counts, orders.", "bounds": "28 space trees of depth <= 3, all operators they support, 1..2 tetrahedra (6 concrete shapes), 1..2 points, symbolic barycentric coordinates and unknowns in [-2,2]; tolerance 1e-7", "assumptions": COMMON},
 "C04": {"jobs": sum([both("integr", defs=("-DDOM=0","-DGRP=%d"%g)) for g in range(3)], []), "explanation": "The user tensor D(x)=(c0+c1*x_d)(1+t/2) has all entries symbolic, so the elemental matrix computed by the real code is a polynomial in them; it is compared entry by entry with Gauss-Legendre integration of the analytic bases. Work memory is given exactly as large as the library asks for, filled with garbage, and every access outside is a violation.", "bounds": "tensor entries in [-1,1], linear in one coordinate; 13 tensor traits x kinds null/scalar/symmetric/general; 16 compile-time and 14 run-time operator pairs; 1..2 fused tetrahedra among 6 shapes; 5 ways to supply memory; order covers the integrand; tolerance 1e-7", "assumptions": COMMON},
 "C05": {"jobs": sum([[J("integr", defs=("-DDOM=%d"%d,"-DGRP=%d"%g)), J("integr", "eigen", defs=("-DDOM=%d"%d,"-DGRP=%d"%g), **({} if g == 2 and d in (1, 3) else {"tier": "thorough"}))] for d in range(1,7) for g in range(3)], []), "explanation": "As C04 for faces, faces with the outward normal, edges, nodes and user-given points (weights and first point symbolic).", "bounds": "as C04 with every face/edge/node number; 1..3 user points; tensors of at most 100 entries in the quick tier", "assumptions": COMMON},
 "C06": {"jobs": both("eval"), "explanation": "op(u) and D*op(u) computed by every evaluation entry point (fem3DapplyL / fem3DapplyX: memory-less, preallocated, dynamic memory, compile-time and run-time operators) are compared with the analytic basis combination for symbolic unknowns, a symbolic barycentric point and symbolic tensor entries; the memory-less versions are asked for more points and tetrahedra than they hold.", "bounds": "1..2 points (1..9 in the capacity case), 1..2 tetrahedra (1..3 in the capacity case) of 6 concrete shapes, unknowns in [-2,2], tensor entries in [-1,1] and linear in a coordinate, 7 tensor traits; tolerance 1e-7", "assumptions": COMMON},
 "C08": {"jobs": [J("dofmap", libs=["fem/tetdofmap.cpp"])], "explanation": "A description tree of d.o.f. maps (counts per type on every leaf, vectors, products, nesting) gives the expected numbering; for a symbolic element and number on it of every leaf and type both directions of the numbering, components, nested views, stored parts, products with simplification and compile-time maps are compared with it; symbolic indices decide validity.", "bounds": "10 tree shapes of depth <= 3, 9 products, 5 compile-time maps; counts symbolic in [0,2] on leaf and vector, 2 of 12 count patterns per tree otherwise (all with 4 shifts in the thorough tier); 32-bit symbolic indices for validity", "assumptions": COMMON},
 "C09": {"jobs": [J("dofiter", libs=["fem/tetdofmap.cpp"])], "explanation": "The selection of parts is symbolic (element numbers, or membership of every element of a dimension); the real iterator runs over the map and the set of visited indices is compared with the set of all d.o.f.s whose element is selected: each once, none else, with the right locus and symmetry group, element by element in the geometric ordering, for maps, nested views and compile-time maps.", "bounds": "18 map trees (9 general with 2 count patterns, 9 with components lacking some types), 6 compile-time maps, 9 trees with nested views; selections: one symbolic element of each of two dimensions (three in the thorough tier), all subsets of one dimension for 6 trees", "assumptions": COMMON},
 "C10": {"jobs": [J("sparsity", libs=["fem/tetdofmap.cpp"])], "explanation": "Selections are unions of symbolic parts, so one path covers all subsets; after every operation membership of all 15 parts, emptiness, lists and walks are compared with sets of booleans.", "bounds": "all subsets of up to 3 parts per dimension for the operations (2 for whole-dimension changes, all subsets for walks and lists); closure tables of all elements; pairs of selections for the set algebra", "assumptions": COMMON},
 "C11": {"jobs": [J("dofsym", libs=["fem/tetdofmap.cpp"])], "explanation": "For a symbolic permutation of the node numbers the index on the reordered element must name the arrangement of barycentric values (documented tables) that puts the same value on the same node. Group and position of symbolic d.o.f.s, counts and masks of symbolic group sets, validity, and the permutation action are compared with definitions.", "bounds": "all 24 permutations x all elements x all groups and positions; group sets: symbolic counts in [0,2] for counts and masks, 8 patterns for positions, in 5 kinds of maps; action of all pairs of permutations on 9 maps", "assumptions": COMMON},
 "C12": {"jobs": [J("dirich", libs=["fem/tetdofmap.cpp"])], "explanation": "Entries of the elemental matrix, of the right-hand side and the prescribed values are symbolic; the result of every entry point is compared with algebraic elimination written from the documentation, for single d.o.f.s, selections of parts, components of products, different numberings of test and trial functions, and oblique conditions V u = b with symbolic V (one condition) or rational rotations (several).", "bounds": "single d.o.f.s of systems of size 1..6; selections of 12 kinds (symbolic element numbers) on 6 maps, 4 component views, 6+3 pairs of test and trial maps; oblique conditions in dimension 1..3 with 1..3 conditions; entries symbolic in stated boxes; tolerance 1e-9", "assumptions": COMMON},
 "C13": {"jobs": [J("interp", defs=("-DCOMCOORD",), libs=L3), J("interp", "eigen", defs=("-DCOMCOORD",), libs=L3, tier="thorough")], "explanation": "The coefficients of a function of the space are symbolic; the real interpolation must give them back for the d.o.f.s on the selected parts and leave the rest, through every entry point (compile-time and run-time spaces, exact work memory filled with garbage, dynamic memory, several functions at once, parts of a space). The functionals themselves are compared with exact means and point values of quadratic functions with symbolic coefficients.", "bounds": "21 compile-time and 23 run-time spaces of depth <= 3; 6 kinds of selections with symbolic element numbers; 3..6 concrete tetrahedra; coefficients in [-2,2]; quadrature orders 2..6; tolerance 1e-7", "assumptions": COMMON},
 "C14": {"jobs": [J("interp", defs=("-DREGION",), libs=L3), J("interp", "eigen", defs=("-DREGION",), libs=L3, tier="thorough")], "explanation": "The function is a quadratic polynomial with symbolic coefficients; after projection on a node, edge, face or the cell the normal equations, integrated by the check with Gauss rules of the analytic basis, must hold for the d.o.f.s of the closed element, and all others keep their symbolic values. Work memory is exact and filled with garbage.", "bounds": "18 compile-time and 18 run-time spaces, 10 (16) elements, 3 (5) concrete tetrahedra, quadrature order sufficient for the integrands (+0, +1); tolerance 1e-7", "assumptions": COMMON},
 "C15": {"jobs": [J("autodiff", defs=("-DST=%d"%t,)) for t in range(3)], "explanation": "Values, gradients and Hessians of the operands are symbolic; every operation of the library is executed on them and compared with the chain rule written from the mathematical definition of the function, for all five kinds of operands and all orders of derivatives, also after make_shell and a change of sign (which trust the static knowledge of vanishing derivatives).", "bounds": "25 unary functions, 8 binary functions and all mixed operations with numbers, powers, hypot of 1..4 arguments, assignment operations, comparisons, 8 chains of operations; 3 storage kinds (vector of 2, symmetric 3x3, general 2x2 variable); values in stated intervals inside the domains; tolerance 1e-9", "assumptions": COMMON},
 "C16": {"jobs": [J("tensors", defs=("-DNDIM=%d"%n,)+(("-DLIGHT",) if n==4 else ())) for n in (3,2,4)] + [J("tensors", defs=("-DNDIM=4",), cases="elim|inverse", tier="thorough")], "explanation": "All components are symbolic (for determinants and inverses of dimension other than 3: one symbolic entry of matrices that need pivoting, at several magnitudes); every operation of every tensor type is executed and compared with the definition by components.", "bounds": "dimensions 2, 3, 4; vectors, symmetric and general matrices, rank 4 tensors of the three symmetry kinds; all index tuples; 14 kinds of conversions; elimination: 10 patterns x 5 scales (1e-14..1e14) x every symbolic entry in [-0.1,0.1] (2 scales x 2 entries for dimension 4 in the quick tier); tolerance 1e-9 (1e-7 relative for elimination)", "assumptions": COMMON},
 "C17": {"jobs": [J("strain")], "explanation": "Strain, direction of its variation, fibre vectors, stress and its derivative are symbolic; values, first and second derivatives of the invariants must give the exact Taylor expansion of their definition by C = I + 2E; stresses and tangents are compared with the variation of P = F S; potentials with the chain rule over the invariants.", "bounds": "all components of E and the direction in [-1,1] ([-0.1,0.1] where a root of det C is taken; two symbolic off-diagonal components for the isochoric potential), all components of the displacement gradient in [-1,1]; all overloads, 0..2 derivatives; 6 potentials; double precision type; tolerance 1e-9 (1e-8 for second derivatives of J)", "assumptions": COMMON},
 "C18": {"jobs": [J("geom", cfg="noeigen",libs=[]), J("geom", cfg="eigen",libs=[])], "explanation": "Vector products, areas, volumes, face normals, maps and batches of tetrahedra with all coordinates symbolic; Cholesky, LU, QR and singular value factorisations of matrices with symbolic entries (or symbolic right-hand sides and one symbolic entry where a symbolic elimination is out of reach) must reproduce the matrix, have the right shape (triangular, orthogonal, sorted nonnegative values) and solve the system.", "bounds": "coordinates in [-2,2]; matrices up to 5x5 (Cholesky), 4x4 (LU), 8 patterns of N x M with N+M<=6 (QR), N,M<=4 (SVD), magnitudes 1e-20..1e20; tolerance 1e-9 relative to the matrix; builds with and without Eigen", "assumptions": COMMON},
 "C19": {"jobs": [J("mem",libs=[])], "explanation": "Sizes of a request, sizes and misalignment of a raw buffer are symbolic: the parts carved from the buffer must be aligned, disjoint, inside of the buffer and as long as requested, and a buffer accepted as sufficient must suffice. Histories of requests and releases on pools (every order of releases) must keep live parts disjoint and intact. Views must address exactly the elements of their definition.", "bounds": "sizes 0..1000000 (layout arithmetic), misalignment 0..15, element types double/float/int/long/char; histories of up to 6 requests and releases on up to 3 pools; matrices up to 3x3", "assumptions": COMMON},
 "C20": {"jobs": [J("par",libs=[],threads=True)], "explanation": "Two threads work on one set of pools: the second is run as a whole at every access of the first to the heap that is not protected by the lock (one path each), with writes of both checked for conflicts; counterexamples are replayed under ThreadSanitizer. Parallel loops run with symbolic data under several orders of the threads; every iteration must be performed exactly once with a thread number no other thread uses.", "bounds": "two threads, one preemption at any heap access; histories of 5 (6) requests and releases; loops of 0..7 iterations with 1..6 threads and 4 orders of execution; lock std::mutex", "assumptions": COMMON + ["a thread waiting for the lock is the same as its start after the lock is released", "sequentially consistent memory"]},
 "C21": {"jobs": [J("ival",libs=[],cases="map_history$|map_history3|map_[^h].*|parse|enum.*|raw_iterator|ext.*",cases_thorough=".*")], "explanation": "Bounds of inserted intervals and the queried key are symbolic: acceptance, membership, values, order and merging are compared with the list of accepted intervals. Starts, lengths and gaps of enumerated intervals are symbolic: number to value and back, bounds, iterators are compared with the expansion. Elements of the base set and the queried array are symbolic: numbering of extended arrays is compared with their sorted list.", "bounds": "histories of 2 insertions of all kinds (finite, left, right, both infinite) and 3 finite ones (thorough: 3 of all kinds), keys in +-2^20, two values, both orders of keys; up to 3 enumerated intervals with lengths and gaps 1..1000 (by value: 1..6); base sets of 2-3 arrays of dimension 1..3 with elements 0..2, all positions and dependences; texts with up to 3 intervals", "assumptions": COMMON},
}
