#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing; the outputs are committed)."""
import json, os
from checks import CHECKS
HERE = os.path.dirname(os.path.abspath(__file__))
F = "anifem++/fem/"
TECH = "symbolic execution of the clang LLVM IR of /repo's sources (own engine, exact-rational polynomial reals, bit-vectors, bounds-checked memory), obligations decided by z3; counterexamples replayed on the g++ build"
def P(id, title, statement, over, text, why, files, mech, claimed=True, note="", reason=""):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claimed=claimed, note=note, reason=reason)
PROPS = [
 P("C01", "Quadrature rules are exact for every polynomial of the requested degree",
   "For every order a rule is offered for, on the segment, triangle and tetrahedron, the rule whose order was requested integrates every polynomial of degree up to that order exactly (to rounding), with positive weights and points in the closed simplex. Orders outside the offered range are rejected, never answered with a weaker rule. The points and weights seen through every accessor and view are the same data, and a rule declared symmetric is invariant under all permutations of the vertices.",
   ["inputs"], "every order, every polynomial up to that degree, every point index",
   "tests integrate a few monomials at some orders; exactness is a statement about all polynomials of all degrees up to 20",
   [F+"quadrature_formulas.h", F+"quadrature_formulas.cpp"], [("tetrahedron_quadrature_formulas / triangle / segment", F+"quadrature_formulas.cpp")],
   note="all orders, all polynomials with coefficients in [-1,1], both build configurations"),
 P("C02", "Elementary spaces: basis functions and their operators are the documented ones",
   "For every tetrahedron and point, every supported operator (value, gradient, divergence, curl, partial derivative) applied to every basis function of each elementary space (P0, P1, P2, P3, Crouzeix-Raviart, Raviart-Thomas, Nedelec, bubbles) equals the analytic value of that basis function's operator on the physical tetrahedron, whatever its orientation. The declared dimensions, counts of functions and polynomial orders agree with the values produced. The result for one tetrahedron does not depend on the others processed in the same call.",
   ["inputs", "configurations"], "all tetrahedra within the stated boxes, all points, all basis functions, 1 or 2 fused tetrahedra, with and without Eigen",
   "tests evaluate a few fixed tetrahedra and points; a wrong sign for one orientation, one face or one function goes unseen",
   [F+"operators.h", F+"operators.inl", F+"spaces/"], [("Operator<OP, FemFix<..>>::apply", F+"operators.inl"), ("Operator::Dim/Nfa/Order", F+"operators.h")],
   note="symbolic vertices for P0,P1,P2,CR1,RT0,B4 (boxes of width 0.2..0.4 per coordinate), concrete tetrahedra of both orientations with symbolic points otherwise"),
 P("C03", "Composite spaces act blockwise, identically at compile time and run time",
   "An operator on a vector, product or enriched space, nested to any depth, equals the blockwise composition of the operator on its components in the documented order of unknowns and rows. A space assembled at run time gives, for every operator and every input, the same values, dimensions, orders and work-memory needs as the equivalent compile-time space.",
   ["inputs", "programs"], "all points, unknown values, tetrahedra of the bounds; all listed space trees up to depth 3 and every operator they support",
   "the number of space trees x operators x inputs is unbounded; tests fix a few trees and one tetrahedron",
   [F+"operators.inl", F+"operations/", F+"fem_space.h", F+"fem_space.cpp"], [("Operator<OP, FemVec/FemCom/FemUnion>", F+"operators.inl"), ("BaseFemSpace::apply* of Vector/Complex/Union spaces", F+"fem_space.cpp")],
   note="28 space trees, 1..2 tetrahedra, 1..2 points, symbolic barycentric coordinates and unknowns"),
 P("C04", "Volume element matrices equal the integral of the bilinear form",
   "For every pair of operators on spaces, every coefficient tensor (null, scalar, symmetric, general, constant, per-point, per-tetrahedron or fused) and every group of tetrahedra, the elemental matrix equals the exact integral over each tetrahedron of the tensor applied to the trial operator times the test operator, provided the requested order covers the integrand. The result is the same for the static, preallocated and dynamically managed work memory, and for compile-time and run-time operators, and nothing outside the result is written.",
   ["inputs", "configurations", "programs"], "all values of tensor coefficients (linear in the coordinates), all listed operator pairs, 1..2 fused tetrahedra of both orientations, 5 ways of supplying memory",
   "tests compare a handful of matrices for one tensor; the branches depend on tensor kind x traits x fusion x memory",
   [F+"operations/int_tet.h", F+"operations/int_tet.inl", F+"diff_tensor.h", F+"operations/core.inl"], [("fem3Dtet", F+"operations/int_tet.inl"), ("internal_D_func / applyDU", F+"diff_tensor.h")],
   note="13 tensor traits x 4 kinds; operands of degree <= 4"),
 P("C05", "Face, edge, node and point matrices equal the integral or sum they stand for",
   "The elemental matrices over faces (plain and contracted with the outward unit normal), edges, nodes and user-given points (barycentric or physical) equal the corresponding integral or weighted sum for every face, edge or node number, tensor kind, fused group and way of supplying memory. The normal used is the outward unit normal for either orientation of the tetrahedron.",
   ["inputs", "configurations", "programs"], "all values of tensor coefficients and weights, all entity numbers, all listed operator pairs, 1..2 fused tetrahedra",
   "tests check single entities on one tetrahedron",
   [F+"operations/", F+"diff_tensor.h"], [("fem3Dface, fem3DfaceN, fem3Dedge, fem3Dnode, fem3DpntL, fem3DpntX", F+"operations/")],
   note="13 tensor traits x 4 kinds; operands of degree <= 4, every entity number"),
 P("C06", "Evaluation at given points returns the operator of the discrete function",
   "For every discrete function, group of tetrahedra and set of points given in barycentric or physical coordinates, the evaluation functions return the operator of that function at those points, optionally multiplied by the user tensor at each point, identically for all ways of supplying memory and for compile-time and run-time operators. A request exceeding the capacity of a memory-less version is refused with an exception, never answered partially or by writing elsewhere.",
   ["inputs", "configurations", "programs"], "all values of unknowns, tensor entries and the evaluation point, 1..2 points and tetrahedra, all entry points",
   "tests evaluate fixed functions in fixed points through one entry point",
   [F+"operations/eval.h", F+"operations/eval.inl", F+"operations/dyn_ops.inl"], [("fem3DapplyL, fem3DapplyX", F+"operations/eval.inl")],
   note="14 compile-time and 12 run-time operators, 7 tensor traits"),
 P("C08", "DOF numbering: tetrahedron index and element locus are mutually inverse",
   "For every d.o.f. map, elementary, vector, product, nested, built at run time or at compile time, the index on the tetrahedron and the pair (element of a type, number on it) determine each other, indices are a contiguous range without gaps, and the order is by component, then type, element and number. Counts, masks and validity tests agree with it. Components, nested views and stored parts address the same d.o.f.s, and products, powers and their simplified forms keep the numbering.",
   ["inputs", "programs"], "every element and number of every leaf and type of 24 map shapes, all counts in the stated patterns, all 32-bit indices for the validity tests",
   "each space has its own counts; tests enumerate a few maps and do not compare both directions of numbering in every component",
   [F+"tetdofmap.h", F+"tetdofmap.inl", F+"tetdofmap.cpp"], [("LocalOrderOnTet, TetDofID, ComponentID", F+"tetdofmap.cpp"), ("NestedDofMapBase", F+"tetdofmap.cpp"), ("VectorDofMapC, ComplexDofMapC", F+"tetdofmap.inl")],
   note="10 tree shapes of depth <= 3, 9 products, 5 compile-time maps; count patterns on leaves, symbolic element and number"),
 P("C09", "Iteration over the DOFs of selected tetrahedron parts visits each exactly once",
   "For every d.o.f. map and every selection of nodes, edges, faces and the cell, iteration visits exactly the d.o.f.s located on selected parts, each once, with its correct indices and symmetry group, and terminates. In the geometric ordering the elements follow one another without interleaving, so maps of test and trial functions can be walked in step. Nested parts visit their own d.o.f.s with the indices of the whole.",
   ["inputs", "programs"], "all pairs of elements of different dimensions and all subsets of one dimension, for every listed map tree and both orderings",
   "the outcome depends on which components have d.o.f.s on which types and on the selection; tests use a few of the 32768 selections",
   [F+"tetdofmap.cpp", F+"tetdofmap.inl"], [("BeginByGeomSparsity, IncrementByGeomSparsity", F+"tetdofmap.cpp"), ("DofSparsedIterator", F+"tetdofmap.h")],
   note="24 map trees, 9 trees of nested views; selections of 2 (3) symbolic elements, subsets of one dimension"),
 P("C10", "Selections of tetrahedron parts behave as sets",
   "Selecting and removing parts, with or without their closure, whole dimensions, unions, intersections, differences, symmetric differences and complements of selections give exactly the set of parts they denote, where the closure of a part is the set of its own faces, edges and nodes. Emptiness tests, lists and walks through a selection show exactly its members, in increasing order.",
   ["inputs"], "all selections within the bounds, all element numbers, all operations",
   "tests select a few parts; closure tables have 12 entries per kind and any one may be wrong",
   [F+"tetdofmap.h", F+"tetdofmap.cpp", F+"tetdofmap.inl"], [("TetGeomSparsity", F+"tetdofmap.cpp")],
   note="symbolic subsets, all closures"),
 P("C11", "Symmetric DOFs keep their meaning under renumbering of the nodes",
   "For every permutation of the node numbers, the index given to a symmetric d.o.f. on the reordered element denotes the same barycentric values on the same nodes, in the documented order of the groups, so that neighbouring tetrahedra agree on shared d.o.f.s. The group and position of every d.o.f. follow from the declared numbers of groups, also inside vectors and products. Permutations act on d.o.f.s by signed permutations compatible with composition.",
   ["inputs"], "all node permutations, all elements, groups and positions, the listed group sets",
   "24 permutations x 16 groups x up to 24 positions, looked up through hash tables; tests try few",
   [F+"tetdofmap.h", F+"tetdofmap.inl"], [("DofSymmetries::index_on_reorderd_elem, GetLocSymOrder", F+"tetdofmap.inl"), ("S4::build_dof_permutation", F+"tetdofmap.inl")],
   note="all permutations and groups; the S4 action for maps with at most one group per element"),
 P("C12", "Imposed Dirichlet and oblique conditions are satisfied and eliminate exactly",
   "Prescribing values of d.o.f.s of an elemental system makes its solution take exactly these values while the other equations keep holding: rows become identities, known columns move to the right-hand side, and nothing else changes. This holds for single d.o.f.s, for whole selections of parts, for components of products, for different numberings of test and trial functions, with or without a matrix, and for oblique conditions V u = b set by a matrix of directions.",
   ["inputs"], "all entries of matrix, right-hand side and prescribed values, all d.o.f. indices, the listed maps and selections",
   "the elimination is algebraic in the entries; tests use one numeric matrix, where a wrong row or a lost term can pass unnoticed",
   [F+"operations/dc_on_dof.inl", F+"operations/dc_on_dof.h"], [("applyDir, applyDirMatrix, applyDirResidual, applyVectorDir", F+"operations/dc_on_dof.inl")],
   note="up to 10x10 (20x20) elemental systems with symbolic entries"),
 P("C13", "Interpolation by DOFs reproduces every function of the space",
   "Interpolating a function of a finite element space gives back its coefficients for the d.o.f.s on the selected parts of the tetrahedron and leaves every other value alone. The functionals are the documented ones: point values, means over faces or the cell, normal and tangential means. The same holds for vectors, products and enriched spaces, for parts of a space, for several functions at once, for constants, and the point reported for a d.o.f. is the one where it is taken.",
   ["inputs", "programs"], "all coefficients in the stated range, all elements, listed spaces and selections, 3..6 tetrahedra",
   "every d.o.f. of every space has its own functional and the selections multiply them; tests interpolate a few functions on one tetrahedron",
   [F+"operations/interpolate.inl", F+"spaces/", F+"operators.inl", F+"fem_space.cpp"], [("Dof<...>::interpolate", F+"spaces/"), ("interpolateByDOFs, interpolateConstant, interpolateOnDOF", F+"fem_space.cpp"), ("DOF_coord", F+"spaces/"), ("orthCoefs", F+"operators.inl")],
   note="21 compile-time and 23 run-time spaces; coefficients symbolic, shape of the tetrahedron concrete"),
 P("C14", "Projection on a node, edge, face or cell solves the normal equations",
   "Interpolation on a region changes exactly the d.o.f.s of the closed element, and the values it gives satisfy the projection equations: for each of these basis functions the integral over the element of the difference between the function and its projection, times the basis function, vanishes. On a node it is the value there. The result depends neither on what the work memory held nor on the values of other d.o.f.s.",
   ["inputs", "programs"], "all quadratic functions with coefficients in the stated range, all regions of the list, the listed spaces",
   "no test calls it; the result silently depends on dirty memory",
   [F+"operations/interpolate.inl", F+"fem_space.cpp", F+"geometry.h"], [("interpolateByRegion", F+"operations/interpolate.inl"), ("interpolateOnRegion", F+"fem_space.cpp"), ("cholesky_solve", F+"geometry.h")],
   note="18+18 spaces, 10..16 regions, 3..5 tetrahedra; function symbolic"),
 P("C15", "Automatic differentiation follows the chain rule exactly",
   "Every operation on differentiable values gives the mathematical value, gradient and Hessian of the composed function: all unary and binary functions, operations with numbers, powers with integer and real exponents, hypot of several arguments, assignments, user functions and chains of them, for variables, parameters and values without first or second derivatives, whatever order of derivatives is requested. What the types say about vanishing derivatives is true, comparisons compare values.",
   ["inputs", "programs"], "all values in the stated intervals, all first and second derivatives of the operands, every pair of operand kinds, 0..2 orders of derivatives",
   "each function has hand-written derivative formulas times five operand kinds times three orders; tests evaluate a few expressions at one point and a wrong mixed term can vanish there",
   ["anifem++/autodiff/autodiff.h", "anifem++/autodiff/autodiff.inl"], [("ADVal, ADState, unary_operation, pow, hypot", "anifem++/autodiff/autodiff.h")],
   note="3 storage kinds; transcendental functions are uninterpreted up to the identities the check states"),
 P("C16", "Tensor algebra is exact for every storage kind, dimension and index",
   "Every component of a vector, symmetric or general matrix and rank 4 tensor of each symmetry kind is stored once at its documented place and found under all index orders its symmetry allows; iteration visits all components with the right indices. Sums, products, contractions, tensor products, norms, traces, symmetric parts, identities and conversions between the kinds agree with their definition by components, determinants and inverses are those of the matrix whatever the magnitude of its entries and the pivoting they need.",
   ["inputs"], "all components, all index tuples, dimensions 2, 3, 4",
   "packed storage is index arithmetic that can be wrong for one component of one dimension; elimination can be wrong for one pivot order or one magnitude",
   ["anifem++/autodiff/physical_tensors.h", "anifem++/autodiff/physical_tensors.inl", "anifem++/autodiff/physical_tensors_3d.inl", F+"geometry.h"], [("SymMtx, PhysMtx, Tensor4Rank, SymTensor4Rank, BiSymTensor4Rank, tensor_convert", "anifem++/autodiff/physical_tensors.h"), ("fullPivLU_inverse", F+"geometry.h")],
   note="dimensions 2..4; elimination with one symbolic entry per matrix (all entries for dimension 3)"),
 P("C17", "Strain invariants, stresses and tangents are exact derivatives",
   "The invariants of the Cauchy-Green tensor have the values of their definition, and their first and second derivatives are the exact derivatives with respect to the symmetric strain. Strains, their variations, the first Piola-Kirchhoff stress and its tangent follow from the displacement gradient by their definitions, and the differentiable variables made of the invariants combine to potentials whose stress and tangent obey the chain rule.",
   ["inputs"], "all strains, fibre directions, stresses and displacement gradients in the stated ranges, all overloads",
   "each invariant has hand-coded arrays of up to 21 second derivatives; a wrong one shows only for some strains and directions",
   ["anifem++/autodiff/cauchy_strain_invariants.h", "anifem++/autodiff/cauchy_strain_invariants.inl", "anifem++/autodiff/cauchy_strain_autodiff.h"], [("C_I1..C_I5fs, C_J and derivatives, dS_to_dP, S_to_P, grU_to_E", "anifem++/autodiff/cauchy_strain_invariants.inl"), ("Mech::I0fs..J", "anifem++/autodiff/cauchy_strain_autodiff.h")],
   note="polynomial identities in all components, discharged exactly"),
 P("C18", "Geometric quantities and dense factorisations are exact for every input",
   "Vector products, areas, signed volumes, barycentric gradients, outward normals and maps of a tetrahedron follow from its coordinates for every numbering and orientation, batches of tetrahedra give the same as single ones. Cholesky, LU, QR and singular value factorisations, solutions and inverses are those of the matrix whatever its pivoting, magnitude or rank, with and without Eigen.",
   ["inputs"], "all coordinates, all matrices of the stated patterns and magnitudes",
   "formulas per face and vertex can be wrong for one numbering; elimination for one pivot order, magnitude or rank",
   [F+"geometry.h"], [("Tetra, face_normal, area, tet_volume, inverse3x3, cholesky, fullPivLU, householderQR, jacobiSVD", F+"geometry.h")],
   note="N, M up to 5; one symbolic entry where the elimination of a fully symbolic matrix is out of reach"),
 P("C19", "Work memory: parts are disjoint, aligned, sufficient and stay intact",
   "A buffer split for reals, integers and matrices gives aligned, disjoint parts inside of the buffer with the requested sizes, and a buffer accepted as sufficient is. Parts taken from a pool stay disjoint and intact until they are released, in whatever order requests and releases come; moving a part or its owner keeps its contents, releasing returns the memory for later use. Matrix and array views address exactly the elements of their definition.",
   ["inputs", "histories"], "all sizes and misalignments, all histories of requests and releases in the bounds",
   "overlap shows only for one order of releases or one misalignment, and then silently corrupts an unrelated result",
   [F+"fem_memory.h"], [("PlainMemory::allocateFromRaw, PlainMemoryX", F+"fem_memory.h"), ("DynMem::alloc, MemPart, Chunk", F+"fem_memory.h"), ("DenseMatrix, ArrayView, BandDenseMatrix", F+"fem_memory.h")],
   note="histories up to 6 steps; sizes up to 1e6 for the layout"),
 P("C20", "Threads get their own pools and parallel loops perform every iteration once",
   "Pools given to threads at work at the same time are different, a pool stays valid while it is in use whatever other threads request or release, and no access to shared data is unprotected. A parallel loop performs every iteration exactly once, passes a thread number below the number of threads that no other running thread has, and gives the result of the serial loop.",
   ["schedules", "histories"], "two threads, every point of preemption at a heap access; all histories in the bounds; several orders of execution of a loop",
   "a race shows only in an interleaving that a test run does not choose",
   [F+"fem_memory_parallel.h", F+"mutex_type.h"], [("DynMemParallel::alloc, alloc_range, get, release", F+"fem_memory_parallel.h"), ("ThreadPar::parallel_for, get_num_threads", F+"mutex_type.h")],
   note="one preemption, two threads; loops up to 7 iterations and 6 threads"),
 P("C21", "Interval containers answer exactly like the set of keys they represent",
   "A map of intervals accepts an interval iff it is nonempty and meets no interval with another value; then exactly the keys of accepted intervals are contained, with their values, kept as sorted disjoint merged intervals, also when they are infinite, and a parsed text gives the map it describes. An enumerator of intervals and an enumerator of extended arrays are bijections between numbers and values in order, and their searches, bounds and iterators agree with the explicit list.",
   ["inputs", "histories"], "all bounds, keys and values of the intervals, all base sets in the bounds, all positions of the extension",
   "compressed representations treat runs, gaps, ends and infinities separately; a test samples a few of their combinations",
   ["anifem++/interval/interval_map.h", "anifem++/interval/interval_map.inl", "anifem++/interval/interval_enum.h", "anifem++/interval/interval_enum.inl", "anifem++/interval/ext_array_enum.h", "anifem++/interval/ext_array_enum.inl"], [("interval_map::insert, find, contains, parse_interval_map", "anifem++/interval/interval_map.inl"), ("interval_enum::find_left, find_right", "anifem++/interval/interval_enum.inl"), ("ext_range_array_enum::setup, operator[], next_it, lower_bound", "anifem++/interval/ext_array_enum.inl")],
   note="up to 3 intervals; base sets of up to 3 arrays"),
 P("C22", "Assembly over a distributed INMOST mesh adds every element once",
   "The assembler over an INMOST mesh visits every cell once, gives each element matrix the right geometry, labels and numbers of degrees of freedom, and adds it to the rows owned by the processor, so that the global matrix and right-hand side are the sums of the element ones for every partition of the mesh.",
   ["inputs", "schedules"], "all meshes, partitions and element matrices",
   "depends on partition and numbering",
   ["anifem++/inmost_interface/assembler.h"], [("Assembler", "anifem++/inmost_interface/assembler.h")], claimed=False, reason="the interface needs the INMOST library, which is not installed here, so this code cannot be compiled, encoded or replayed; a hand-written stand-in for INMOST meshes and MPI would be what is verified, not the code with its library"),
 P("C23", "The KINSOL interface solves the system it is given and reports failures",
   "The nonlinear solver passes the user's function, Jacobian, preconditioner and parameters to KINSOL unchanged and returns its solution and status for every combination of settings.",
   ["inputs", "histories"], "all sequences of settings and all right-hand sides",
   "settings interact over the history of the object",
   ["anifem++/kinsol_interface/SUNNonlinearSolver.h"], [("SUNNonlinearSolver", "anifem++/kinsol_interface/SUNNonlinearSolver.h")], claimed=False, reason="SUNDIALS is not installed here, so the interface cannot be compiled or encoded, and its behaviour is the convergence of an external floating-point iteration"),
]
NA = []
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "make -C engine -j8", "checks": [], "not_applicable": []}
    for p in PROPS:
        if p["claimed"]:
            assert p["id"] in CHECKS
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "other", "level_note": "bounded symbolic execution: " + p["note"]})
        else: m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
if __name__ == "__main__": main()
