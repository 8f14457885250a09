#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Domain decomposition routes each particle to every domain it touches",
  "For every decomposition grid, domain-to-rank assignment, particle position and non-negative smoothing, decomposing sends the particle to exactly the ranks that own at least one non-empty domain touched by the particle's smoothing box (taken modulo the period when the decomposition is periodic). Each such rank receives the particle exactly once, and the particles addressed to one rank keep their original order.",
  ["inputs", "configurations"],
  "all edge arrays (ascending, possibly with empty domains), all rank counts and assignments, all finite positions and per-axis smoothing >= 0, periodic or not; fewer than 2**31 particles and 2**15 domains per axis",
  "The tests use one or two fixed grids with a handful of particles; routing must be right for every position relative to every edge, every smoothing (also larger than a domain or than half the box), uneven and empty domains, and arbitrary assignments.",
  ["pmesh/domain.py", "pmesh/_domain.pyx"],
  [("digitize both ends of the smoothing box into a domain range", "pmesh/domain.py GridND.decompose"),
   ("enumerate the patch, wrap, map to rank, sort and deduplicate, count and index", "pmesh/_domain.pyx gridnd_fill"),
   ("domain degeneracy flags", "pmesh/domain.py GridND.__init__")],
  ["Layout.sendcounts and Layout.indices returned by GridND.decompose"],
  [("DomainAssign", "rank that owns each domain", "pmesh/domain.py"), ("DomainDegenerate", "domain has zero extent", "pmesh/domain.py")])

p("C02", "Exchange delivers every item to its destination intact",
  "For every layout, exchanging arrays delivers to each rank exactly the items addressed to it, with unchanged values, dtype and trailing shape, ordered by source rank and then by position in the layout; the number of items received always equals what the layout announces. Packing several arrays into one exchange gives the same result as exchanging them one by one, and data of the wrong length is rejected on all ranks together.",
  ["inputs", "configurations"],
  "all rank counts, all send-count matrices and index lists (including ranks that send or receive nothing), all dtypes and trailing shapes, any number of arrays",
  "Tests cover a few random layouts on up to four ranks; offsets, empty ranks, vector columns and mixed dtypes must work for every count matrix.",
  ["pmesh/domain.py"],
  [("receive counts are the transpose of the send counts; offsets are exclusive prefix sums", "pmesh/domain.py Layout.__init__"),
   ("take + Alltoallv", "pmesh/domain.py Layout._exchange"), ("structured packing", "pmesh/domain.py pack_arrays")],
  ["return value of Layout.exchange", "Layout.recvlength, recvcounts, recvoffsets, get_exchange_cost()"],
  [("sendcounts/recvcounts/sendoffsets/recvoffsets", "per-rank counts and exclusive prefix sums", "pmesh/domain.py Layout")])

p("C03", "Gather returns each particle the stated reduction over its own copies",
  "For every layout and per-copy data, gathering returns to each original particle, in original order, the requested reduction over exactly the copies made of it: the sum, the mean, an arbitrary ufunc reduction, any one of the copies, the copy kept on its own rank, or all copies unreduced. Gathering what exchange delivered with 'any', 'mean' or 'all' returns the original data for every particle that has a copy, and 'sum' multiplies it by its number of copies.",
  ["inputs", "configurations"],
  "all rank counts and layouts in which each particle has at least one copy (at least its own-rank copy for 'local'), all numeric dtypes and trailing shapes, with or without a supplied output; for 'sum' every layout, including particles with no copy",
  "Tests check a few modes on single random layouts; the reductions must hold for every pattern of copies and every data shape.",
  ["pmesh/domain.py"],
  [("reverse Alltoallv with swapped counts", "pmesh/domain.py Layout.gather"), ("vector bincount", "pmesh/domain.py bincountv"),
   ("argsort + reduceat for ufuncs", "pmesh/domain.py Layout.gather")],
  ["return value of Layout.gather"])

p("C04", "Every position is primary on exactly one rank, the one decompose sends it to",
  "For every decomposition and every position (wrapped into the box when periodic, inside the box otherwise), exactly one rank reports the position as primary. That rank is the only one to which the position is routed when decomposed with zero smoothing, and this stays so after load balancing.",
  ["inputs", "configurations", "histories"],
  "all edge arrays starting at 0 whose total extent is positive, all assignments (every domain owned by one rank), all finite positions including box edges and tiny negative values, any number of load-balancing steps",
  "The tests compare a few random points on 1-4 ranks; uniqueness is a statement over all positions (edges, negative zero-like values, chunk boundaries) and all ranks at once.",
  ["pmesh/domain.py", "pmesh/_domain.pyx"],
  [("half-open box test per owned domain", "pmesh/domain.py GridND.isprimary"), ("primary regions recomputed from the assignment", "pmesh/domain.py GridND._update_primary_regions"),
   ("remainder into the box", "pmesh/domain.py isprimary / load / decompose")],
  ["GridND.isprimary on each rank", "GridND.decompose(pos, smoothing=0)"],
  [("primary_region", "start/end corners of the owned domains", "pmesh/domain.py GridND")])

p("C05", "Domain assignment and load balancing stay valid and account every particle",
  "Whatever the number of ranks and domains, every domain is assigned to exactly one valid rank, by default in contiguous blocks that use every rank when there are at least as many domains as ranks. The load of a domain is the gamma-th power of the number of particles of all ranks inside it, and load balancing assigns domains greedily in decreasing load to the currently least loaded rank, changing nothing when there are not more domains than ranks. A uniform decomposition never has more domains than ranks, and its edges run from 0 to the box size.",
  ["inputs", "configurations"],
  "all rank counts >= 1, all box sizes, all edge arrays, all load vectors, all particle distributions (including ranks without particles)",
  "Tests look at one grid and one particle set; index arithmetic of the block split, the heap and the counting must be right for all sizes.",
  ["pmesh/domain.py"],
  [("block split", "pmesh/domain.py GridND.__init__"), ("heap based greedy assignment", "pmesh/domain.py GridND.loadbalance"), ("digitize + bincount + allreduce", "pmesh/domain.py GridND.load"), ("near-cubical shape", "pmesh/domain.py GridND.uniform")],
  ["GridND.DomainAssign", "GridND.load(...)", "GridND.edges"])

p("C06", "Painting deposits exactly the separable window weight on every mesh site",
  "For every window, dimension, support scaling, affine transform, period and mesh layout, painting a particle adds to each mesh cell exactly its mass times the sum, over the lattice sites that map to the cell, of the product over axes of the one-dimensional window evaluated at the particle-to-site distance; every other memory location, including the gaps of a strided mesh, keeps its value. The specialised fast implementations deposit the same as the generic implementation of the same window, in single and double precision.",
  ["inputs", "configurations"],
  "all window kinds, 1 to 3 dimensions (generic: any), gradient direction or none (gradients: where the window is differentiable), all real positions, masses, scales, translations, smoothing lengths > 0, all mesh sizes/strides/periods (0 = not periodic); real arithmetic",
  "Tests paint a few particles on 4^d meshes; the wrap loops, bounds checks, support rounding and the ~500 hand-unrolled terms must be right for every position, size and stride.",
  ["pmesh/_window_imp.c", "pmesh/_window_generics.h", "pmesh/_window_tuned_nnb.h", "pmesh/_window_tuned_cic.h", "pmesh/_window_tuned_tsc.h", "pmesh/_window_tuned_pcs.h", "pmesh/_window.pyx", "pmesh/window.py"],
  [("generic site loop", "pmesh/_window_generics.h _generic_paint"), ("unrolled fast paths", "pmesh/_window_tuned_*.h"), ("window support, shift and scaling", "pmesh/_window_imp.c pmesh_window_info_init, _fill_k"), ("dispatch", "pmesh/_window_imp.c pmesh_painter_init, _getfastmethod_*")],
  ["the mesh array after ResampleWindow.paint"])

p("C07", "Readout is the exact adjoint of paint and never writes the mesh",
  "For every window, transform, smoothing length and gradient direction, reading out at a position returns the sum over mesh cells of the cell value times exactly the weight that painting a unit mass at that position would add to the cell. Readout never modifies the mesh, and positions whose support falls outside a non-periodic mesh read zero from the missing cells.",
  ["inputs", "configurations"],
  "all window kinds, 1 to 3 dimensions, all positions, transforms, supports, mesh sizes/strides/periods and mesh contents; real arithmetic",
  "Tests compare paint and readout for a few positions; duality is a statement over all positions and all mesh contents.",
  ["pmesh/_window_imp.c", "pmesh/_window_generics.h", "pmesh/_window_tuned_nnb.h", "pmesh/_window_tuned_cic.h", "pmesh/_window_tuned_tsc.h", "pmesh/_window_tuned_pcs.h", "pmesh/_window.pyx", "pmesh/window.py"],
  [("generic readout loop", "pmesh/_window_generics.h _generic_readout"), ("unrolled fast readouts", "pmesh/_window_tuned_*.h"), ("per-particle loop", "pmesh/_window.pyx readout")],
  ["return value of ResampleWindow.readout", "the mesh array before and after"])

p("C08", "Polynomial windows conserve mass; gradients deposit zero in total",
  "Painting with the nearest, linear, quadratic or cubic window (generic or fast) at its native support onto a mesh that covers the full period adds exactly the sum of the masses to the mesh, for every set of positions. Painting the gradient of the linear, quadratic or cubic window adds exactly zero in total, and reading out a constant mesh returns that constant.",
  ["inputs", "configurations"],
  "all positions (any distance outside the box), all masses, all mesh sizes >= 1 per axis, 1 to 3 dimensions, all scales and translations; real arithmetic",
  "Conservation must hold for every sub-cell offset; tests sample a few.",
  ["pmesh/_window_imp.c", "pmesh/_window_generics.h", "pmesh/_window_tuned_cic.h", "pmesh/_window_tuned_tsc.h", "pmesh/_window_tuned_pcs.h", "pmesh/_window_tuned_nnb.h"],
  [("window polynomials are partitions of unity", "pmesh/_window_imp.c _*_kernel"), ("periodic wrap", "pmesh/_window_generics.h, pmesh/_window_tuned_*.h")],
  ["sum of the mesh after ResampleWindow.paint"])

p("C09", "Gradient windows are the derivative of the window with respect to position",
  "For every window and direction, the weights used with a gradient direction are the derivative of the plain weights with respect to the particle position along that direction, including the scale of the affine transform and of the support, wherever the window is differentiable; along all other directions the plain weights are used.",
  ["inputs", "configurations"],
  "all windows (generic, fast and tabulated), all differentiable positions, all scales, translations, smoothing lengths, 1 to 3 dimensions; tabulated windows: the slope of their own piecewise linear interpolant",
  "Tests compare finite differences at a few positions with unit scale; the chain-rule factors only show for other scales and smoothing lengths, and every branch of every polynomial must agree.",
  ["pmesh/_window_imp.c", "pmesh/_window_tuned_cic.h", "pmesh/_window_tuned_tsc.h", "pmesh/_window_tuned_pcs.h", "pmesh/_window_tuned_nnb.h", "pmesh/_window_lanczos.h", "pmesh/_window_acg.h", "pmesh/_window_wavelets.h", "pmesh/window.py"],
  [("_*_diff functions", "pmesh/_window_imp.c and table headers"), ("chain rule factors", "pmesh/_window_imp.c _fill_k; SETUP_KERNEL_* macros")],
  ["ResampleWindow.paint/readout with diffdir"])

p("C10", "The reported Fourier window is the transform of the window used for painting",
  "For the polynomial windows at any support, the reported one-dimensional Fourier window is the Fourier transform of the real-space window: sinc(w r / 2) to the power of the window order, with r the ratio of support to native support; it is 1 at zero frequency and even. The compensation filter divides by the product of the per-axis Fourier windows, every other window reports 1, and resizing a window changes nothing but its support.",
  ["inputs", "configurations"],
  "all real frequencies, all supports, all windows; sin treated as the mathematical function, and its small-argument series within a stated truncation bound",
  "Tests compare a few frequencies; the identity must hold for all frequencies, supports and orders.",
  ["pmesh/_window_imp.c", "pmesh/_window.pyx", "pmesh/window.py"],
  [("_*_fwindow and sinc_unnormed", "pmesh/_window_imp.c"), ("pmesh_painter_get_fwindow", "pmesh/_window_imp.c"), ("get_compensation, resize", "pmesh/window.py")],
  ["ResampleWindow.get_fwindow", "ResampleWindow.get_compensation"])

p("C11", "Generated three-dimensional white noise is Hermitian",
  "For every seed, mesh size and storage format (half or full, single or double precision, unitary or not), the generated three-dimensional Fourier field satisfies value(-k) = conjugate(value(k)) for every pair of stored modes; self-conjugate modes are real, the zero mode is zero, and in unitary mode every other mode has modulus one.",
  ["inputs", "configurations"],
  "all seeds, all mesh sizes >= 1 on each axis (even, odd, unequal), both storage formats, any local block; the random generator is an arbitrary deterministic function of its seed",
  "Tests check one cubic even mesh and a few seeds; Hermitian symmetry must hold for every mode pair of every mesh shape.",
  ["pmesh/_whitenoise_imp.c", "pmesh/_whitenoise_generics.h", "pmesh/_whitenoise.pyx", "pmesh/whitenoise.py"],
  [("conjugate seed table", "pmesh/_whitenoise_imp.c SETSEED/GETSEED"), ("conjugate plane handling", "pmesh/_whitenoise_generics.h _generic_fill")],
  ["the array filled by pmesh.whitenoise.generate"],
  [("seedtable", "seed of each (i, j) row and of its conjugates", "pmesh/_whitenoise_imp.h")])

p("C12", "White noise does not depend on how the mesh is split or on resolution",
  "The value generated for a mode depends only on the seed, the mesh size and the absolute mode number: generating any sub-block gives the same values as the corresponding part of the full field, whatever the strides, and the half-space format agrees with the full format; nothing outside the requested block is written and every mode of the block is set. On cubic even three-dimensional meshes, refining the mesh keeps the values of the modes below the Nyquist frequency of the coarser mesh.",
  ["inputs", "configurations"],
  "all seeds, mesh sizes, block starts, block shapes and strides, half and full storage, 1 to 3 dimensions (refinement: three dimensions, cubic even meshes)",
  "Tests compare one split; partition independence is a statement over all blocks of all meshes.",
  ["pmesh/_whitenoise_imp.c", "pmesh/_whitenoise_generics.h", "pmesh/_whitenoise.pyx", "pmesh/whitenoise.py"],
  [("the seed stream is consumed identically on all ranks", "pmesh/_whitenoise_generics.h _generic_fill"), ("skipping modes without skipping random numbers", "pmesh/_whitenoise_generics.h _generic_fill"), ("offset arithmetic", "pmesh/_whitenoise_generics.h _set_mode, _has_mode")],
  ["the array filled by pmesh.whitenoise.generate"])

p("C13", "The scale-invariant mode index is a resolution-independent inside-out bijection",
  "For every dimension, with or without compression of the last axis, the mode index maps the modes of the cube of Linf radius R one-to-one onto 0..M(R)-1, where M(R) is the number of such modes, for every R; so it is unique, grows with the Linf shell, and does not depend on the mesh size. A maximum length only turns indices at or above it into -1, Nyquist modes count as positive, and modes outside the mesh or in the dropped half return -1.",
  ["inputs", "configurations"],
  "dimensions 1 to 4, all integer modes with |x| < 2**20, all mesh sizes, all maximum lengths; proof bounded as stated in the evidence where induction is not mechanised",
  "Tests enumerate one radius in a few dimensions; bijectivity must hold at every radius.",
  ["pmesh/_invariant_imp.c", "pmesh/_invariant.pyx", "pmesh/invariant.py"],
  [("shell and cap enumeration with recursion", "pmesh/_invariant_imp.c pmesh_get_invariant_index"), ("range check and Nyquist mapping", "pmesh/_invariant.pyx get_index")],
  ["pmesh.invariant.get_index"])

p("C14", "Coordinate arrays give the true position, wavenumber and index of each cell",
  "For every mesh, box and partition, the index coordinates of a field give the absolute mesh index of each local cell, the position coordinates give the signed offset in [-L/2, L/2), and the wavenumber coordinates give the signed wavenumber whose mode number is congruent to the index modulo the mesh size and lies in [-N/2, N/2). Iterating over slabs visits every local cell exactly once together with the coordinates of that cell.",
  ["inputs", "configurations"],
  "all mesh sizes (even and odd), box sizes, partitions (starts and shapes), dimensions 1 to 3, real, transposed and untransposed storage orders",
  "Tests check a couple of small meshes on fixed process grids (and cannot run against the installed FFT binding); the arithmetic must hold for every size, start and storage order.",
  ["pmesh/pm.py"],
  [("_init_i_coords, _init_o_coords", "pmesh/pm.py"), ("slabiter / xslabiter", "pmesh/pm.py"), ("ParticleMesh.create_coords", "pmesh/pm.py")],
  ["field.x, field.i, field.slabs"])

p("C15", "Changing resolution keeps every shared Fourier mode and zeroes the others",
  "Resampling between any two mesh sizes maps each destination mode to the source mode with the same signed mode number and to nothing when the source mesh does not have it; the linear index built from per-axis indices is the C-order index, or -1 whenever any axis has no source.",
  ["inputs", "configurations"],
  "all pairs of mesh sizes per axis (even and odd, up or down), all per-axis index lists; modes at the Nyquist number of either mesh excluded (they are set to zero)",
  "Tests use one or two even sizes; the slice arithmetic must be right for all pairs of sizes.",
  ["pmesh/pm.py"],
  [("reindex", "pmesh/pm.py"), ("build_index", "pmesh/pm.py"), ("Field.resample", "pmesh/pm.py")],
  ["pmesh.pm.reindex, pmesh.pm.build_index"])

p("C16", "Hermitian bookkeeping counts and sets each conjugate pair consistently",
  "For every complex field, collective get and set address the mode at the given absolute index (negative indices counting from the end) on whichever rank holds it; setting a mode also sets its conjugate partner to the conjugate value, and self-conjugate modes stay real. Norms and inner products over half-space storage weigh each stored mode by the number of modes it stands for, giving the same result as the full storage.",
  ["inputs", "configurations"],
  "all mesh sizes, partitions and indices, half and full storage, complex or component-wise setting; even size of the compressed axis for the weights",
  "Tests touch a few modes of one mesh; the partner arithmetic and self-conjugacy must hold for every index of every mesh and partition.",
  ["pmesh/pm.py"],
  [("Field._ctol, cgetitem, csetitem", "pmesh/pm.py"), ("BaseComplexField._expand_hermitian, cnorm, cdot, decompress_vjp", "pmesh/pm.py")],
  ["field.value after csetitem", "return values of cgetitem, cnorm, cdot"])

p("C17", "Adjoint and tangent operators match the operators they differentiate",
  "The vector-Jacobian and Jacobian-vector products of paint, readout and the Fourier transforms are the exact adjoint and tangent of the corresponding operator: the products with respect to mass and mesh use the plain window, those with respect to position use the gradient window in each direction times the mass or cotangent, and the transforms carry exactly the reciprocal normalisation. Requested outputs are filled, unrequested ones are not touched, and inputs that are not outputs keep their values.",
  ["inputs", "configurations"],
  "all positions, masses, cotangents, dimensions 1 to 3, with or without layout, output given, in place, or disabled",
  "Gradient tests run one small mesh (and cannot run against the installed FFT binding); the bilinear identity must hold for all arguments.",
  ["pmesh/pm.py"],
  [("RealField.readout_vjp, readout_jvp, c2r_vjp", "pmesh/pm.py"), ("ParticleMesh.paint_vjp, paint_jvp", "pmesh/pm.py"), ("BaseComplexField.r2c_vjp", "pmesh/pm.py")],
  ["return values of the *_vjp and *_jvp methods"])

p("C18", "Painting and readout on a distributed mesh equal those on an undivided mesh",
  "For every number of ranks, mesh, process grid and window, decomposing particles with the default smoothing and then painting (or reading out and gathering) through that layout gives, on each rank, exactly its part of what a single undivided periodic mesh would give. Every rank that stores a site on which a particle has non-zero weight receives that particle, and the position-to-local-mesh transform subtracts exactly the local start.",
  ["inputs", "configurations"],
  "all rank counts and partitions, all windows at their own support without per-particle smoothing, all positions, 1 to 3 dimensions",
  "Parallel tests compare a few particles on one mesh; the halo must be wide enough for every position relative to every edge and every window.",
  ["pmesh/pm.py", "pmesh/domain.py", "pmesh/window.py"],
  [("smoothing = half the support", "pmesh/pm.py ParticleMesh.decompose"), ("affine transforms", "pmesh/pm.py ParticleMesh.__init__; pmesh/window.py Affine"), ("exchange, local paint, gather", "pmesh/pm.py ParticleMesh.paint, RealField.readout, upsample, downsample")],
  ["ParticleMesh.paint(..., layout=...)", "RealField.readout(..., layout=...)"])

p("C19", "The uniform particle grid has one particle per mesh cell with a unique id",
  "For every mesh, box, partition and shift, the uniform particle grid contains, over all ranks together, exactly one particle per mesh cell, at the cell index plus the shift times the cell size. The returned ids over all ranks are exactly 0..N-1, each once, equal to the C-order index of the cell.",
  ["inputs", "configurations"],
  "all mesh sizes, box sizes, partitions, scalar or per-axis shifts, dimensions 1 to 3, dtypes; fewer than 2**31 cells per axis",
  "Tests use one mesh; the id arithmetic must be injective for every shape and partition.",
  ["pmesh/pm.py"],
  [("mesh_coordinates", "pmesh/pm.py"), ("generate_uniform_particle_grid", "pmesh/pm.py")],
  ["ParticleMesh.generate_uniform_particle_grid(..., return_id=True)"])

p("C20", "All ranks take part in the same collective calls whatever data they hold",
  "For every operation on layouts, decompositions and fields, the sequence of collective communication calls a rank makes depends only on arguments that are the same on all ranks, never on the rank's own data: not on how many particles it holds, where they are, or whether its arrays are empty or have the wrong length. So no combination of local inputs can leave some ranks waiting.",
  ["inputs", "configurations", "schedules"],
  "all rank counts and all per-rank particle counts and values, for decompose, load, Layout construction, exchange, gather, exchange cost and collective get/set",
  "Tests run with particles on all ranks or on a fixed one; a mismatched collective shows only for particular distributions and then hangs.",
  ["pmesh/domain.py", "pmesh/pm.py"],
  [("collective call sites", "pmesh/domain.py Layout.*, GridND.decompose/load; pmesh/pm.py cgetitem/csetitem, exchange"), ("validation by allgather before raising", "pmesh/domain.py _exchange, gather")],
  ["the trace of MPI collectives of each rank"])

p("C21", "Cached transform plans are reused only for an identical configuration",
  "Creating a mesh object reuses plans of a live earlier object only when mesh size, communicator, rank layout, data type, planning method and padding mode are all identical, and all ranks agree to reuse or rebuild together. A mesh object derived by reshaping or respawning has the requested size, box, communicator and rank layout and otherwise the size, box, data type and default window of its parent.",
  ["configurations", "histories"],
  "all sequences of mesh creations in one process, all parameter combinations, garbage collection at any point",
  "A stale plan shows only when two configurations coincide in all but one parameter while the first is still alive; tests create few combinations.",
  ["pmesh/pm.py"],
  [("_pm_cache keyed by configuration", "pmesh/pm.py ParticleMesh.__init__"), ("collective agreement on reuse", "pmesh/pm.py ParticleMesh.__init__"), ("reshape, respawn", "pmesh/pm.py")],
  ["ParticleMesh.plans, procmesh, Nmesh, BoxSize, dtype, np"])

p("C22", "Fourier transforms between real and complex fields are inverse to each other",
  "Transforming a real field to its complex representation and back returns the original field to rounding, in place or out of place, for padded and unpadded, transposed and untransposed storage, and for any number of ranks, given that the plans of the Fourier library invert each other up to the number of cells. An out-of-place transform leaves its input unchanged.",
  ["inputs", "configurations"],
  "all meshes, process grids, dtypes and field contents",
  "Which plan runs on which buffer depends on storage, padding, aliasing and destination; the tests transform a few random fields (and cannot run against the installed FFT binding).",
  ["pmesh/pm.py"],
  [("RealField.r2c, BaseComplexField.c2r", "pmesh/pm.py")],
  ["field.value"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
