#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None, **({'state': state} if state else {}))))
L='cppcore/src/Lattice.cpp'; LH='cppcore/include/Lattice.hpp'
F='cppcore/src/system/Foundation.cpp'; FH='cppcore/include/system/Foundation.hpp'
S='cppcore/src/system/System.cpp'; SY='cppcore/src/system/Symmetry.cpp'; SH='cppcore/src/system/Shape.cpp'
M='cppcore/src/Model.cpp'; HH='cppcore/include/hamiltonian/Hamiltonian.hpp'
HM='cppcore/include/hamiltonian/HamiltonianModifiers.hpp'; R='cppcore/src/system/Registry.cpp'
HB='cppcore/src/system/HoppingBlocks.cpp'; CS='cppcore/src/system/CompressedSublattices.cpp'
SM='cppcore/src/system/StructureModifiers.cpp'
OH='cppcore/src/kpm/OptimizedHamiltonian.cpp'

add('C01','A lattice definition is stored exactly as given or rejected unchanged',
 'Every lattice-definition call (sublattice, alias, named or anonymous hopping energy, hopping term, offset, minimum neighbour count) either records exactly what was given or throws and leaves the lattice as it was. Rejected are exactly: blank or repeated names, references to unknown names, onsite matrices that are empty, non-square, not real on the diagonal or neither upper-triangular nor Hermitian, empty hopping matrices, hopping matrices whose shape does not fit the two sublattices, same-sublattice hoppings within one cell, and any hopping term that repeats an existing one directly or as its conjugate in any family. Derived views (site and hopping registries with their names, ids and energies, the per-site unit cell listing every term once in each direction, the onsite-energy flags and the per-site hopping bound) always agree with the recorded definition, with upper-triangular onsite energies completed to Hermitian ones.',
 ['histories','inputs'],'all sequences of valid and invalid definition calls, in any order, with scalar, vector and matrix energies of one to three orbitals, aliases anywhere in the sequence, and 1-3 dimensions',
 'The tests make a handful of fixed definition calls; an invalid call after an arbitrary prefix, aliases defined before other sublattices, or a conjugate duplicate in another family are not reached.',
 [L,LH,R],[('definition checks',L+' add_sublattice/add_alias/register_hopping_energy/add_hopping'),('duplicate and conjugate term comparison',LH+' HoppingTerm operator=='),('unit cell and registries',L+' OptimizedUnitCell, site_registry, hopping_registry'),('energy validation',R+' detail::check_*')],
 ['Lattice getters','Lattice::optimized_unit_cell','Registry::name/id/energy'])
add('C02','Cartesian positions and lattice coordinates convert both ways',
 'For every non-degenerate lattice, the position of a unit cell (optionally of a sublattice in it) is the offset plus the integer combination of the primitive vectors plus the sublattice position, and translating a Cartesian position into lattice coordinates is the inverse of combining the primitive vectors. An offset is accepted if and only if none of its lattice coordinates exceeds about half a primitive vector, and accepted offsets shift every position by exactly that amount.',
 ['inputs'],'all non-degenerate 1D, 2D and 3D primitive vectors (oblique included), cell indices, sublattices, offsets and positions',
 'The tests check a few points on axis-aligned vectors; a mistake in an off-diagonal term or in the third dimension is invisible there.',
 [L,LH],[('position evaluation',L+' calc_position'),('linear solve',L+' translate_coordinates'),('offset bound',L+' set_offset')],['Lattice::calc_position','Lattice::translate_coordinates','Lattice::set_offset'])
add('C03','A primitive-shaped system holds every cell site and every hopping exactly once',
 'A system built from a primitive block of n1 x n2 x n3 cells contains each sublattice site of each cell exactly once at its lattice position, grouped contiguously by sublattice with aliases merged into their original and ordered by orbital count. Its hopping list contains each hopping term between two sites of the block exactly once, in its declared family and direction, and nothing else.',
 ['inputs','configurations'],'all lattices of 1-3 dimensions with up to several sublattices, aliases and hopping families reaching several cells away, all block sizes and offsets',
 'Tests use fixed graphene-like lattices with nearest-cell hoppings; long-range hoppings, 3D blocks, mixed orbital counts and aliases are combinations they do not sample.',
 [F,FH,S,CS,HB],[('site generation',F+' generate_positions'),('neighbour traversal',FH+' Site::for_each_neighbor'),('index finalisation',F+' get_finalized_indices'),('population',S+' populate_system')],['System positions, sublattices and hopping blocks'])
add('C04','A shape-cut system is exactly the lattice inside the shape minus dangling sites',
 'A finite system cut by a shape contains exactly those sites of the infinite lattice which lie inside the shape and survive repeated removal of sites that have lost a neighbour and have fewer left than the minimum neighbour count; no other site is dropped and none is duplicated. Hoppings are exactly the lattice hoppings between surviving sites. This holds for any placement of the shape and any accepted lattice offset.',
 ['inputs','configurations'],'all lattices, bounding vertices, membership functions confined to the bounding volume, lattice offsets (set on the lattice or imposed by the shape) and minimum neighbour counts',
 'Tests cut two or three fixed shapes and compare site counts; coverage near the edges of the bounding volume, oblique vectors, offsets and removal cascades are not exercised.',
 [F,SH,S],[('bounding block',F+' find_bounds'),('shape membership',SH),('dangling removal',F+' remove_dangling/clear_neighbors')],['System positions and hopping blocks'])
add('C05','Shape membership matches the geometry of the shape',
 'A polygon contains a point of the plane exactly when an even-odd crossing test says so, regardless of vertex order, starting vertex, concavity or z coordinate. A line contains exactly the points whose perpendicular projection falls between its end points (not the end points themselves), and a free-form shape delegates to the user function within the box it was given. Shapes or primitive sizes that are invalid (fewer than two vertices, sizes below one) are rejected.',
 ['inputs'],'all simple and self-intersecting polygons, line segments in any direction and query points away from (and for lines, also exactly at) the boundary',
 'Tests query three or four fixed points; degenerate edges, concave polygons and points in line with vertices are unsampled.',
 [SH,'cppcore/include/system/Shape.hpp'],[('ray casting',SH+' WithinPolygon'),('projection test',SH+' is_acute_angle'),('bounding vertices',SH+' make_freeformshape_vertices')],['Shape::contains','Shape::vertices'])
add('C06','The Hamiltonian is the Hermitian tight-binding matrix of the system',
 'For every finite system without modifiers the Hamiltonian has, at each site, exactly the onsite matrix of its sublattice, at each hopping the family matrix in the declared direction and its conjugate transpose in the other, and zero elsewhere; hence it is Hermitian and of size equal to the sum of orbitals over sites. Its scalar type is complex exactly when some declared energy is complex and single precision by default, without changing the represented values. Matrices containing NaN or infinite values are never returned.',
 ['inputs','configurations'],'all lattices with scalar or matrix energies, real or complex, rectangular hopping matrices between sublattices of different orbital counts, aliases, shapes and block sizes',
 'Tests compare a few entries of fixed small models; the product of orbital counts, complex energies, aliases and orientation is not reached.',
 [HH,HM,M,R],[('assembly',HH+' build_main'),('onsite expansion',HM+' apply_to_onsite'),('site to orbital index translation',HM+' IndexTranslator'),('scalar type selection',M+' is_complex/make_hamiltonian')],['Model::hamiltonian as CSR'])
add('C07','A periodic system gives the Bloch Hamiltonian of the infinite lattice',
 'With translational symmetry enabled in any subset of directions, the system consists of one period of sites, and for every wave vector k its Hamiltonian equals the matrix of the hoppings within the period plus the sum over all lattice hoppings that lead from a site of the period translated by R to a site in the period, each weighted by exp(i k.R), plus the conjugate transpose. No inter-period hopping is lost or counted twice, for any hopping range, period length, enabled directions or combination with a shape in the remaining directions, and the matrix is Hermitian.',
 ['inputs','configurations'],'all lattices, primitive or shaped systems, subsets of periodic directions, period lengths, wave vectors, and hopping terms of any range',
 'The tests check one or two fixed k-independent cases; diagonal translations, several cells per period, self-translations and complex or multi-orbital boundary hoppings are unsampled.',
 [SY,S,HH],[('period and boundary slices',SY+' area/translations/apply'),('boundary hoppings',S+' populate_boundaries'),('Bloch phases',HH+' build_periodic')],['Model::hamiltonian with set_wave_vector','System::boundaries'])
add('C08','Onsite and hopping modifiers see and replace every term exactly once',
 'Every onsite modifier receives each site (all orbital matrices) exactly once with the right position and sublattice name, every hopping modifier each hopping exactly once with its two end positions (across a periodic boundary: of the translated image) and family name, in the order they were added and each seeing the output of the previous one; the Hamiltonian is assembled from the final values with the conjugate counterpart kept. The result does not depend on how hoppings are batched. Requests for double precision or complex values switch the scalar type of the whole Hamiltonian, a real run that turns complex is redone as complex, and non-finite results are rejected.',
 ['inputs','configurations','histories'],'all sequences of position- and name-dependent modifiers, on single- and multi-orbital, finite and periodic systems, from empty hopping families to more hoppings than one internal batch holds',
 'Tests apply one or two trivial modifiers to tiny systems; ordering, boundary positions, matrix element layout and batching never vary.',
 [HM,'cppcore/src/hamiltonian/HamiltonianModifiers.cpp',M],[('onsite application',HM+' apply_to_onsite'),('buffered hopping application',HM+' apply_to_hoppings_impl, HoppingBuffer'),('complex retry',M+' make_hamiltonian')],['modifier arguments','Model::hamiltonian'])
add('C09','Site-state and position modifiers act in order on exactly the named sites',
 'Site-state and position modifiers are applied in the order they were added, each called once per sublattice (aliases under their own name) with that sublattice\'s current positions and states; sites switched off disappear together with all their hoppings, sites switched on within the block appear, and all others keep their hoppings and moved positions. A state modifier with a minimum neighbour count also removes, repeatedly, sites that lost a neighbour and fell below that count. A model left with no sites is rejected.',
 ['histories','inputs'],'all sequences of state and position modifiers depending on position and sublattice name, on primitive and shaped non-periodic systems, with any minimum neighbour count',
 'Tests apply one modifier of each kind to one or two cells; cascades, re-enabling and interleavings are unsampled.',
 [SM,F,M],[('application to the site block',SM+' apply(..., Foundation&)'),('cascade',F+' remove_dangling'),('ordering',M+' make_system')],['System positions and hopping blocks'])
add('C10','Generated sites and hoppings stay consistent with everything applied around them',
 'Site generators append their sites under a new sublattice name with the given onsite energy, hopping generators connect exactly the given pairs once each, and later state, position, generator and energy modifiers see and affect old and new sites alike. After any such sequence all hoppings still connect the same physical sites, the Hamiltonian is the Hermitian tight-binding matrix of the resulting sites and hoppings for any orbital counts, and generator output that names a nonexistent site or does not fit the orbital counts is rejected rather than corrupting the model.',
 ['histories','inputs'],'all interleavings of site and hopping generators with state and position modifiers, on single- and multi-orbital lattices, including generated sublattices with fewer orbitals than the lattice has and periodic systems',
 'The tests add one generator to a two-site model without hoppings; removal of sites after a generator, index renumbering and mixed orbital counts are never combined.',
 [SM,S,HB,CS,HM],[('generator application',SM+' apply(SiteGenerator/HoppingGenerator, System&)'),('site removal',S+' remove_invalid, '+HB+' filter, '+CS+' filter'),('orbital index translation',HM+' IndexTranslator')],['System','Model::hamiltonian'])
add('C11','A lead is the periodic continuation of the system edge it is attached to',
 'Attaching a lead fills the system with lattice sites along the lead direction up to the existing structure and never removes a site; the lead\'s sites map one-to-one to system sites of a single cross-section inside the lead shape, at positions shifted by one primitive vector outward. The lead\'s intra-cell matrix is the Hermitian tight-binding matrix of that cross-section and its inter-cell matrix holds exactly the lattice hoppings from the outer cell to the inner one, including modifiers evaluated at those positions. Invalid directions and leads that miss the structure are rejected.',
 ['inputs','configurations'],'all 2D and 3D lattices, shapes, directions, lead shapes and combinations of several leads, real or complex, single- or multi-orbital energies',
 'One test attaches two leads to one rectangle of a square lattice with real scalar energies; complex or matrix hoppings, other directions and irregular edges are unsampled.',
 ['cppcore/src/leads/Spec.cpp','cppcore/src/leads/Structure.cpp','cppcore/src/leads/Leads.cpp','cppcore/include/leads/HamiltonianPair.hpp'],[('attachment area','cppcore/src/leads/Spec.cpp create_attachment_area'),('lead structure','cppcore/src/leads/Structure.cpp'),('matrices','cppcore/include/leads/HamiltonianPair.hpp make_h0/make_h1')],['Model::leads'])
add('C12','A model\'s results depend only on its final parameters, not on its history',
 'After any sequence of parameter additions, replacements, wave-vector changes, modifier clearing and queries, the system, Hamiltonian and leads a model reports equal those of a fresh model given only the final parameters; no query returns results of earlier parameters. Repeated queries without changes return the identical results, copies do not influence each other, and a rejected parameter leaves the reported results unchanged.',
 ['histories'],'all interleavings of add/replace/clear/set operations with system, Hamiltonian and lead queries, and copies of the model in between',
 'Tests build each model once and query it at the end; stale caches only show when a query precedes a change.',
 [M,'cppcore/include/Model.hpp','cppcore/src/leads/Leads.cpp'],[('cache invalidation',M+' clear_structure/clear_hamiltonian'),('lazy evaluation',M+' system/hamiltonian/leads')],['Model::system','Model::hamiltonian','Model::leads'],
 [dict(name='cached system, Hamiltonian and leads',meaning='lazily computed results',where='cppcore/include/Model.hpp')])
add('C13','Site, sublattice and Hamiltonian index lookups agree with one another',
 'For every built system the map from sites to Hamiltonian indices is a partition of all Hamiltonian rows into consecutive groups, one per site with that sublattice\'s orbital count, in site order; per-orbital positions repeat each site position accordingly. A sublattice\'s range contains exactly its sites, and the nearest-site lookup returns a site at minimal distance among all sites or among those of the given sublattice. Site and row counts and the predicted number of non-zeros are consistent with the data.',
 ['inputs'],'all systems (shapes, primitive blocks, generated sites, vacancies), all site indices, positions and sublattice names',
 'Tests query two or three indices on two fixed systems; sublattices after multi-orbital ones, emptied sublattices and distance ties are unsampled.',
 [S,CS],[('index expansion',S+' to_hamiltonian_indices, expanded_positions'),('ranges',S+' sublattice_range'),('search',S+' find_nearest')],['System member functions'])
add('C14','Site and hopping containers keep their content through edits and serialization',
 'The compressed sublattice list and the per-family hopping list behave like plain lists of sites and site pairs under any sequence of adding, appending, filtering and extending: counts, start offsets, decompressed ids, neighbour counts and the sparse-matrix view always match the plain model, appended pairs are stored once and upper-triangular, and filtering renumbers the remaining sites. Serializing and reconstructing either container gives back the same content.',
 ['histories','inputs'],'all operation sequences on containers of up to several families and sublattices, including empty ones',
 'Tests run one fixed sequence; filtering in the middle, empty blocks and round trips after edits are unsampled.',
 [HB,CS],[('pair list',HB),('run-length list',CS)],['HoppingBlocks','CompressedSublattices'])
add('C15','Sparse-matrix and array helpers visit and produce every element exactly once',
 'Every traversal of a sparse matrix (whole, per row, in fixed-size buffers, from a given position for a given count) visits the stored elements in order, each exactly once, for any buffer size and any empty rows. Conversion to the padded column format and reconstruction, row-wise insertion, concatenation, boolean slicing and chunking of arrays keep all values and their order, and multiplication in any matrix format equals the dense product. Type-erased array references dispatch to the element type and shape they were made from and write through to the original.',
 ['inputs'],'all sparse matrices (empty rows, empty matrices, any scalar type), buffer and chunk sizes, arrays and masks',
 'Tests use one or two fixed arrays; boundary chunk sizes and empty rows are unsampled.',
 ['cppcore/include/numeric/sparse.hpp','cppcore/include/numeric/ellmatrix.hpp','cppcore/include/numeric/dense.hpp','cppcore/include/numeric/arrayref.hpp','cppcore/include/detail/algorithm.hpp','cppcore/include/compute/kernel_polynomial.hpp'],[('loops','cppcore/include/numeric/sparse.hpp sparse::Loop'),('padded format','cppcore/include/numeric/ellmatrix.hpp csr_to_ell'),('chunks','cppcore/include/detail/algorithm.hpp sliced'),('type erasure','cppcore/include/numeric/arrayref.hpp')],['helper functions'])
add('C16','Chebyshev-expansion optimizations never change the result',
 'For any Hermitian Hamiltonian, the matrix prepared for Chebyshev expansion is the scaled and shifted original up to a permutation that moves the requested indices along, in every storage format; moments, local densities of states and Green\'s functions computed with any combination of matrix reordering, size reduction, interleaving, storage format and thread count agree with the plain algorithm within rounding. This includes systems that fall apart into disconnected pieces, rows without diagonal elements, and repeated calculations for different indices on one object.',
 ['inputs','configurations','histories'],'all sparse Hermitian matrices (real/complex, single/double), source and destination index sets, moment counts, algorithm switches, formats, and sequences of calculations',
 'The library\'s tests for this part need an optional SIMD dependency and cover two connected graphene models.',
 [OH,'cppcore/include/kpm/OptimizedHamiltonian.hpp','cppcore/include/kpm/calc_moments.hpp','cppcore/src/kpm/Core.cpp','cppcore/src/kpm/Moments.cpp','cppcore/src/kpm/Starter.cpp','cppcore/include/compute/kernel_polynomial.hpp','cppcore/src/kpm/default/Compute.cpp','cppcore/src/kpm/default/collectors.cpp'],[('scaling and reordering',OH+' create_scaled/create_reordered'),('slice map','cppcore/include/kpm/OptimizedHamiltonian.hpp SliceMap'),('moment recursion','cppcore/include/kpm/calc_moments.hpp'),('collectors','cppcore/src/kpm/default/collectors.cpp')],['kpm::Core','kpm::OptimizedHamiltonian'])
add('C17','Spectral quantities equal their exact Chebyshev definition',
 'Expansion moments equal the matrix elements of Chebyshev polynomials of the scaled Hamiltonian, with an optional operator and damping; the local density of states, density of states, Green\'s functions and conductivity reconstructed from them equal the damped Chebyshev sums evaluated exactly from the eigen-decomposition, at each requested energy, for each site, orbital, position, sublattice or index pair asked for. Arguments of wrong size, out-of-range indices, complex arguments to real models and invalid directions are rejected.',
 ['inputs','configurations'],'all small models, starting vectors, operators, index pairs, energy grids, broadenings and kernels; invalid arguments',
 'The existing tests for this compare against stored values for one model and are not built here.',
 ['cppcore/src/KPM.cpp','cppcore/src/kpm/Core.cpp','cppcore/include/kpm/reconstruct.hpp','cppcore/src/kpm/Moments.cpp'],[('front end','cppcore/src/KPM.cpp'),('moments','cppcore/src/kpm/Core.cpp'),('reconstruction','cppcore/include/kpm/reconstruct.hpp'),('velocity operator, batches','cppcore/src/kpm/Moments.cpp')],['KPM member functions','kpm::Core'])
add('C18','Damping kernels and moment counts follow their definitions',
 'The Jackson, Lorentz and Dirichlet kernels return the textbook damping coefficients for every moment count: they start at one, the first two decrease towards zero without changing sign, the last stays one, and applying a kernel multiplies every moment (vector, batch or matrix) by its coefficients. The number of moments chosen for a broadening is large enough for it, grows as the broadening shrinks and has the form 4n+2 required by the algorithms. Invalid parameters are rejected.',
 ['inputs'],'all moment counts, broadenings, kernel parameters and moment containers',
 'Not covered by the tests built here; the original ones check one moment count.',
 ['cppcore/src/kpm/Kernel.cpp','cppcore/include/kpm/Kernel.hpp'],[('coefficients','cppcore/src/kpm/Kernel.cpp'),('rounding','cppcore/include/kpm/Kernel.hpp round_num_moments')],['kpm::Kernel'])
add('C19','Automatic spectrum bounds and scaling confine the spectrum',
 'For every Hermitian Hamiltonian the automatic energy bounds are found without error and lie within the true spectrum. Unless the Lanczos iteration stalls (takes tiny steps far from an end, which its stopping rule cannot tell from convergence), they are close enough to the ends, in line with the requested precision, for scaling by them with the built-in tolerance to map all eigenvalues into the open interval (-1, 1). The scale is positive even for a single energy level. User-given bounds are used as they are, inverted ones are rejected, replacing the Hamiltonian replaces the bounds, and energies map to the scaled axis linearly.',
 ['inputs'],'all small Hermitian matrices (real/complex, single/double precision, degenerate, shifted spectra, one-row matrices), precisions and user bounds',
 'Tests check one fixed matrix and are not built here.',
 ['cppcore/src/kpm/Bounds.cpp','cppcore/include/kpm/Bounds.hpp','cppcore/include/compute/lanczos.hpp'],[('Lanczos iteration','cppcore/include/compute/lanczos.hpp minmax_eigenvalues'),('scale','cppcore/include/kpm/Bounds.hpp Scale')],['kpm::Bounds','kpm::Core::scaling_factors'])
add('C20','Densities of states from a solver are Gaussian sums over its eigenpairs',
 'Given a solver\'s eigenvalues and eigenvectors, the density of states at every energy is the sum over states of normalised Gaussians of the given broadening, and the spatially resolved one weighs each state by its probability on each orbital, in Hamiltonian row order. Solving happens once per model (again after a failure), replacing the model or clearing the solver discards earlier results, and a model that cannot be built is rejected and leaves the solver, its model and its results as they were.',
 ['inputs','histories'],'all eigen-systems of small models, energy grids, broadenings and sequences of calculations, failures and model changes',
 'No test covers the solver layer.',
 ['cppcore/src/solver/Solver.cpp','cppcore/include/solver/Solver.hpp'],[('sums','cppcore/src/solver/Solver.cpp calc_dos/calc_spatial_ldos'),('caching','cppcore/src/solver/Solver.cpp solve/clear')],['BaseSolver'])
add('C21','Parallel work queues run every job once and hand results over in order',
 'Every job given to the thread pool or to the parallel loop is produced, computed and retired exactly once, with each job\'s stages in that order, its value handed along unchanged, never two productions or two retirements at once, and never more jobs waiting than the queue length, for any job count, positive thread count and queue length; waiting returns only when all jobs are done, and no element put in the queue is lost, repeated or left behind on shutdown.',
 ['configurations','schedules'],'all job counts, thread counts and queue sizes, with randomly delayed stages',
 'No test covers it.',
 ['cppcore/include/detail/thread.hpp'],[('queue','cppcore/include/detail/thread.hpp Queue'),('parallel loop','cppcore/include/detail/thread.hpp parallel_for'),('pool','cppcore/include/detail/thread.hpp ThreadPool')],['parallel_for','ThreadPool','Queue'])
add('C22','Python modifiers and generators act as written or are rejected',
 'A modifier or generator function written in Python is called with exactly the arguments it names, and its result takes effect as the same formula applied by hand to every site or hopping it concerns: state and position changes, onsite and hopping energies (scalar and matrix ones, real or complex, any precision or memory layout of the result, also views and broadcast arrays), added sites and hopping families. Sublattice and hopping names compare by friendly name. Results with wrong number, shape, type or invalid values raise an error, and again every time the model is used.',
 ['inputs'],'all modifier and generator functions over random lattices, systems, argument subsets, dtypes and memory layouts, valid and invalid results',
 'The tests use contiguous results of a few fixed functions and need pybind11, absent from the build here.',
 ['pybinding/modifier.py','pybinding/support/alias.py','cppmodule/src/modifiers.cpp','cppmodule/include/wrappers.hpp'],[('wrapping','pybinding/modifier.py _make_modifier/_sanitize_modifier_result'),('generators','pybinding/modifier.py site_generator/hopping_generator'),('names','pybinding/support/alias.py AliasIndex')],['modifier decorators of pybinding'])
add('C23','Saved, pickled and copied objects come back equal and keep working',
 'Every lattice, system, structure, structure map, spatial map, path, series, eigenvalues, bands and sweep that is saved to a file and loaded, pickled, or copied comes back with the same values, types, names and tags, and can be used on: a model built from a loaded lattice equals the original model, loaded structures can be sliced and searched, name comparisons still work. Loading finds what saving wrote, with or without extension, with strings, path and file objects, whatever else lies next to it.',
 ['inputs','histories'],'all objects built from random lattices and models, chains of storage steps, file names',
 'The tests round-trip a few fixed objects once.',
 ['pybinding/support/pickle.py','pybinding/results.py','pybinding/lattice.py','pybinding/system.py','pybinding/support/alias.py','cppmodule/src/lattice.cpp','cppmodule/src/system.cpp'],[('files','pybinding/support/pickle.py save/load'),('state','pybinding/support/pickle.py pickleable'),('C++ objects','cppmodule/src/system.cpp cppmodule/src/lattice.cpp')],['save, load, pickle, copy'])
add('C24','Slicing, cropping and looking up a structure selects exactly the right items',
 'Indexing a system, structure or map with a mask, slice, index array or shape gives the sites (with their positions, sublattices and data) selected, in that order, and exactly the hoppings and boundary hoppings between selected sites, renumbered. Cropping keeps the sites within the half-open limits given. Comparing sublattices and hoppings to a name selects all that carry it. Nearest-site search, neighbour counts, Hamiltonian indices and the sum over the orbitals of each site agree with a plain loop over the data.',
 ['inputs'],'all systems, maps and structures of random lattices (several sublattices and orbitals, periodic, with aliases), all index kinds, limits and names',
 'The tests index a few fixed systems of one lattice.',
 ['pybinding/results.py','pybinding/system.py','pybinding/support/structure.py','pybinding/support/alias.py'],[('indexing','pybinding/support/structure.py Hoppings/Sites __getitem__'),('maps','pybinding/results.py StructureMap SpatialMap Structure'),('orbitals','pybinding/system.py reduce_orbitals to_hamiltonian_indices'),('names','pybinding/support/alias.py AliasArray')],['System, Structure, StructureMap, SpatialMap'])
add('C25','Result containers keep values attached to their coordinates',
 'A k-path starts, ends and turns exactly at the points given, in as many equal steps as whole steps of the given length fit (at least one), and rejects points of different dimension. Every chain of indexing, cropping, mirroring, interpolating, slicing and text export of sweeps, n-dimensional sweeps, series, bands and spatial maps gives, at each remaining coordinate, the value that belongs to it, with the labels and tags carried along and the original unchanged. Fuzzy sets behave like a list of numbers equal within the tolerance, and pickled objects come back with all of their state, of any version.',
 ['inputs','histories'],'all paths, sweeps, series and maps of small size and chains of operations on them, valid and invalid indices and axes',
 'The tests apply single operations to a few fixed results.',
 ['pybinding/results.py','pybinding/support/fuzzy_set.py','pybinding/support/pickle.py'],[('paths','pybinding/results.py make_path Path'),('sweeps','pybinding/results.py Sweep NDSweep'),('maps','pybinding/results.py SpatialMap Series Bands'),('fuzzy set','pybinding/support/fuzzy_set.py')],['make_path, Path, Sweep, NDSweep, Series, SpatialMap, FuzzySet'])
add('C26','Python lattices record what they are given and give right reciprocal space',
 'A lattice defined through Python has exactly the sublattices, aliases, hopping families and energies (scalars, lists, arrays of any type and layout) given in single or multiple calls, and rejects contradictory ones without change. Copies with another offset or neighbour count are independent of the original and equal to it otherwise. Reciprocal vectors give 2 pi times the unit matrix with the lattice vectors and lie in their span; the Brillouin zone is the set of points closer to zero than to any other reciprocal point, for every angle of the vectors.',
 ['inputs','histories'],'all lattices of 1-3 vectors (skewed, tilted), definition sequences, invalid definitions, copies',
 'The tests define a few lattices of right-angled or hexagonal vectors.',
 ['pybinding/lattice.py','cppmodule/src/lattice.cpp'],[('specification','pybinding/lattice.py add_sublattices/add_hoppings'),('reciprocal space','pybinding/lattice.py reciprocal_vectors/brillouin_zone'),('binding','cppmodule/src/lattice.cpp')],['pb.Lattice'])
add('C27','Python shapes contain exactly the points of their formula',
 'Shapes created through Python contain exactly the points of their definition: polygons, circles, rectangles, regular polygons, lines and freeform functions, also after offsets and under any nesting of union, intersection, difference and symmetric difference. Their bounding vertices enclose all contained points that matter for a model, so the sites of a model are exactly the lattice sites inside of the shape; invalid shape arguments are rejected.',
 ['inputs'],'all trees of compositions and offsets over the elementary 2D and 3D shapes, and lines, on random lattices',
 'The tests compare a few fixed compositions with stored results.',
 ['pybinding/shape.py','cppmodule/src/shape.cpp'],[('composition','pybinding/shape.py CompositeShape'),('factories','pybinding/shape.py rectangle regular_polygon circle'),('binding','cppmodule/src/shape.cpp')],['shapes of pybinding'])
add('C28','Solver and KPM results in Python equal their defining sums',
 'Through the Python solver and KPM objects, eigenvalues and eigenvectors solve the Hamiltonian of the attached model (all of them, or those closest to sigma); probabilities, densities of states (total, at the site closest to a position, per orbital, over space), band structures along a path, degenerate groups, Chebyshev moments and Green\'s functions of one or several columns equal the defining sums over the exact states, for any number of orbitals and any array-like argument, also after changing wave vector or model in between. Results carry the energies and sites asked for; invalid arguments are rejected.',
 ['inputs','histories'],'all small models (several orbitals, real and complex, periodic), sequences of calculations, kernels and options',
 'The tests compare a few single-orbital graphene models.',
 ['pybinding/solver.py','pybinding/chebyshev.py','cppmodule/src/kpm.cpp','cppcore/src/KPM.cpp'],[('solver','pybinding/solver.py Solver'),('KPM','pybinding/chebyshev.py KPM SpatialLDOS'),('binding','cppmodule/src/kpm.cpp')],['Solver, KPM'])
add('C29','Parallel sweeps and helpers give what a plain loop gives',
 'For any number of variables, values, threads and queue lengths, a parallel loop, sweep or n-dimensional sweep started from Python produces every combination exactly once, runs each job on the model made for it, gives the results and their coordinates in the order of a plain nested loop, calls its hooks at the stated points, and leaves logs and progress that add up to the number of jobs; failures while making a job reach the caller. Recorded call signatures and file names identify the arguments given, and the formatting helpers follow their definition.',
 ['inputs','schedules'],'all parametrised models, variable grids, thread counts, queue lengths, hooks and options',
 'The tests run one sweep with fixed settings.',
 ['pybinding/parallel.py','pybinding/support/inspect.py','pybinding/utils/progressbar.py','cppmodule/src/parallel.cpp'],[('sweeps','pybinding/parallel.py parallel_for sweep ndsweep'),('jobs','cppmodule/src/parallel.cpp'),('signatures','pybinding/support/inspect.py CallSignature'),('progress','pybinding/utils/progressbar.py')],['parallel_for, parallelize, sweep, ndsweep'])
add('C30','Materials, ready-made modifiers, lead bands and exports follow their definitions',
 'For every parameter and wave vector, the lattices of the material repository have the Bloch Hamiltonian of their published tight-binding model; ready-made modifiers (mass, magnetic field, Coulomb potential, strain, bumps) apply their formula to every site and hopping, with fields independent of the origin and energies following the strained distances, and the armchair hexagon is six-fold symmetric with whole hexagons. The matrices and bands of leads are those of the infinite lead of the lattice. The kwant view of a model has the same sites, matrices, orbital counts, leads and interfaces.',
 ['inputs'],'all parameters, wave vectors, samples, models with leads, several orbitals and missing sublattices',
 'The tests compare a few models with stored results and skip kwant when it is missing.',
 ['pybinding/repository','pybinding/leads.py','pybinding/support/kwant.py','cppcore/include/leads/HamiltonianPair.hpp'],[('materials','pybinding/repository graphene group6_tmd phosphorene'),('modifiers','pybinding/repository/graphene/modifiers.py'),('lead bands','pybinding/leads.py calc_bands'),('kwant','pybinding/support/kwant.py')],['pb.repository, Lead, Model.tokwant'])
add('C31','Drawings show every site, hopping, copy and result where and as it is',
 "For every structure, slice, map of data, lead or lattice and all plot options, what is handed over to the plotting library is the structure: every site once at its place in the chosen view with its own data, color and radius, in the order of height; every (selected) hopping as the segment between its two sites with its own color; for periodic systems every copy of the cell within the given number of periods once, with the hoppings which connect them, all of them real bonds of the lattice; leads repeated away from the system. Lattice vectors, cell numbers, sublattice names, Brillouin zones, paths, bands, levels, sweeps, maps and shapes are drawn with their own numbers and labels, within the axis limits. Drawing changes neither its arguments nor the structure.",
 ['inputs'],'all structures, view axes, periods, offsets, colors, subsets and results',
 'The tests compare a few pictures, with a plotting library and stored images.',
 ['pybinding/system.py','pybinding/results.py','pybinding/lattice.py','pybinding/leads.py','pybinding/shape.py','pybinding/pltutils.py'],[('structure','pybinding/system.py plot_sites plot_hoppings plot_periodic_boundaries'),('results','pybinding/results.py plot'),('lattice','pybinding/lattice.py plot plot_brillouin_zone'),('leads','pybinding/leads.py plot plot_contact'),('helpers','pybinding/pltutils.py')],['Model.plot, System.plot, StructureMap.plot, Lattice.plot, Lead.plot, result plots'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
for p in P:
    assert len(p['title'])<=80,p['id']
print(len(P))
