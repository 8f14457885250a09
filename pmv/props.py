"""What each property's check runs."""
DOM = ["domain"]
WIN = ["window"]
PROPS = {}
TECH = "contract-based deductive verification of the real code (symbolic execution of the source against contracts, z3)"
DOMNOTE = "real arithmetic (float rounding of positions is covered by the run-time checks only); numpy and mpi4py by contract"
for i, pr, note in (("C01", ["p_grid", "p_dom", "p_prim"], "gridnd_fill, decompose and the constructor are proved against their contracts for all edges, assignments, particles and smoothing (1 to 3 axes)"),
                    ("C02", ["p_grid", "p_lay"], "Layout construction and exchange are proved for every layout and every listed kind of array (scalar, vector, matrix; packed or not; C and Fortran order)"),
                    ("C03", ["p_lay"], "gather is proved for all reduction modes and array kinds, with and without supplied output"),
                    ("C04", ["p_prim", "p_dom", "p_grid"], "primary regions and isprimary are proved equivalent to the domain the edges give; uniqueness and agreement with decompose are lemmas over the contracts"),
                    ("C05", ["p_prim"], "default and balanced assignment, load and the uniform decomposition are proved; sorted and heapq by contract")):
    PROPS[i] = dict(exts=DOM, provers=pr, level="proof", technique=TECH, note=note + "; " + DOMNOTE)
for i in ("C06", "C07", "C08", "C09", "C10"): PROPS[i] = dict(exts=WIN, provers=["p_window", "p_wrap"], level="proof", technique=TECH,
    note="every obligation generated from the current C, Cython and Python window code is discharged for all inputs (1 to 3 axes); real arithmetic; numpy functions by contract")
for i in ("C11", "C12"): PROPS[i] = dict(exts=["whitenoise"], provers=["p_noise", "p_wrap"], level="proof", technique=TECH,
    note="the three-dimensional C generator and its wrappers are proved for an arbitrary deterministic random generator; in one and two dimensions the result is proved to be a slice of the transform of one field fixed by seed and mesh (numpy.fft by contract)")
PROPS["C13"] = dict(exts=["invariant"], provers=["p_inv", "p_wrap"], level="proof", technique=TECH,
    note="the C index is proved a bijection shell by shell by induction on the dimension (up to 4 axes quick, 5 thorough); the Cython and Python wrappers are proved to hand over coordinates, mesh, mask and limit unchanged")
ALL = ["domain", "window", "invariant", "whitenoise"]
PROPS["C12"] = dict(PROPS["C12"], exts=ALL, provers=PROPS["C12"]["provers"] + ["p_pm"], note=PROPS["C12"]["note"] + "; ParticleMesh.generate_whitenoise is proved to hand the mesh, the block, the seed and the storage of this rank to it")
PMNOTE = "; all process layouts, shapes and field types (1 to 3 axes); real arithmetic; numpy, pfft, mpsort and mpi4py by contract"
for i, note in (("C15", "the index tables, cast and resample are proved against their contracts for all pairs of meshes"),
                ("C14", "coordinates, slabs, norms of coordinates and apply are proved against their contracts"),
                ("C16", "global get and set, norms, inner products, sums, ravel and the weight of modes are proved against their contracts"),
                ("C17", "the derivative forms of paint, readout and the transforms are proved to hand the right arrays to the window, the layout and the plans, and to leave the rest alone; that paint and readout are adjoint is C07 and C09"),
                ("C18", "paint, readout, decompose, upsample, downsample, preview and ctranspose are proved to hand the right arrays, transforms and smoothing to the window and the layout; that each rank holding a touched site receives the particle is a lemma over these contracts and that of C01"),
                ("C19", "the grid and its ids are proved for all meshes, blocks and shifts"),
                ("C21", "the constructor, reshape and respawn are proved: key, agreement of the ranks, plans made, geometry, owner of each domain"),
                ("C22", "transforms are proved to run the plan of their storage on the right buffers with reciprocal normalisation, given that pfft's backward plan inverts its forward plan up to the number of cells")):
    PROPS[i] = dict(exts=ALL, provers=["p_pm"], level="proof", technique=TECH, note=note + PMNOTE)
PROPS["C20"] = dict(exts=ALL, provers=["p_lay", "p_pm"], level="proof", technique=TECH, note="relational contract: any two ranks, whatever data they hold, follow paths with the same collective calls and end the same way; for the operations on layouts, decompositions and fields listed in the evidence; mpi4py, pfft and mpsort by contract (their own calls count as one)")
