#!/usr/bin/env python3
"""Writes known_findings.json. Fixed entries suppress nothing."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [ # (property, start of the commit subject, what failed)
 ('C01', 'fix: allow sublattices to be added after an alias', 'add_sublattice() after add_alias() was rejected as a duplicate id or gave two sublattices the same id'),
 ('C03', 'fix: resolve an alias of an alias', 'an alias of an alias kept the id of the first alias, which no site family has'),
 ('C01', 'fix: leave the lattice unchanged when an anonymous hopping', 'a rejected add_hopping() with an energy matrix left a new anonymous hopping family behind'),
 ('C04', 'fix: the site block of a shape accounts', 'sites inside a shape were lost when the lattice offset or a sublattice position moved them across the edge of the block'),
 ('C04', 'fix: remove dangling sites with long-range hoppings', 'sites next to the edge of the block kept neighbours outside of it which were counted as missing or kept depending on the block'),
 ('C07', 'fix: keep all periodic boundary hoppings', 'hoppings longer than the period or reaching beyond the adjacent period were lost'),
 ('C14', 'fix: renumber the remaining sites when filtering', 'HoppingBlocks::filter() kept the old site numbers'),
 ('C10', 'fix: translate hopping indices for any order', 'hoppings between sites of different orbital counts were written to the wrong rows if the family order differed from the site order'),
 ('C10', 'fix: complete the onsite energy of generated sites', 'an upper triangular onsite energy of a site generator gave a non-Hermitian Hamiltonian; a rejected generator was kept'),
 ('C10', 'fix: account for generated sites in periodic boundaries', 'boundary hoppings had the old number of sites after a site generator (out-of-bounds access when filtering)'),
 ('C10', 'fix: reject generated hoppings', 'generated hoppings with nonexistent sites or the wrong orbital counts wrote outside of the matrix'),
 ('C13', 'fix: reject the nearest-site search', 'find_nearest() in a sublattice without sites read past the position arrays'),
 ('C12', 'fix: keep the old primitive', 'a rejected primitive was kept and used for the next system'),
 ('C12', 'fix: replacing a shape also replaces', 'a second shape added its lattice offset to that of the first one'),
 ('C12', 'fix: discard previous results when the modifiers', 'clear_*_modifiers() left the old system and Hamiltonian in place'),
 ('C11', 'fix: conjugate the lead hoppings', 'h1 held the unconjugated matrix of hoppings declared in the outward direction'),
 ('C12', 'fix: don\'t keep an incomplete list', 'after an error in one lead Hamiltonian, leads() returned an incomplete list (out-of-range access)'),
 ('C11', 'fix: keep lead indices up to date', 'lead indices were stale after sites were removed following a generator'),
 ('C08', 'fix: the hopping buffer has room', 'a hopping matrix with more than 100000 elements gave a buffer of zero hoppings and an endless loop'),
 ('C11', 'fix: reject leads with a shape outside', 'a lead whose shape is outside of the main structure along a transverse axis gave an inverted index range (read past the foundation)'),
 ('C11', 'fix: attach leads correctly if sites are added', 'the sites which a lead adds to the structure could land in the path of a lead attached before it, whose indices were then -1'),
 ('C11', 'fix: redo lead Hamiltonians as complex', 'a hopping modifier which only gives complex values within a lead made leads() throw instead of switching to complex'),
 ('C15', 'fix: a reference to a std::vector', 'arrayref() of a mutable std::vector made a three-dimensional reference of shape 1x1xN'),
 ('C15', 'fix: same pitch for the values', 'ellref() reported the pitch of the values also for the indices, which had another one (any scalar but float)'),
 ('C16', 'fix: reorder Hamiltonians of disconnected', 'reordering read past the index queue if parts of the system are not connected to the first source index'),
 ('C17', 'fix: LDOS for a shape', 'calc_spatial_ldos() with a shape without sites read outside of the index arrays'),
 ('C17', 'fix: reject the Green\'s function index', 'calc_greens() and calc_greens_vector() accepted an index equal to the size (out-of-bounds access)'),
 ('C17', 'fix: Green\'s function vector without', 'calc_greens_vector() without columns read outside of the index arrays'),
 ('C17', 'fix: reject conductivity directions', 'directions like "xq" were accepted and dereferenced a null pointer'),
 ('C19', 'fix: stop the Lanczos procedure', 'a one-site system (or any start vector within an invariant subspace) divided by zero and ended in an error'),
 ('C19', 'fix: scale a Hamiltonian with a single', 'a Hamiltonian with a single energy level was scaled by zero (NaN results)'),
 ('C19', 'fix: Lanczos convergence for a spectrum', 'the automatic bounds of a spectrum which starts or ends at zero did not converge (error after 1000 iterations)'),
 ('C15', 'fix: convert matrices without elements', 'products with an ELL matrix without elements left y unchanged and read outside of the arrays'),
 ('C20', 'fix: keep the solver unchanged', 'set_model() with a model that cannot be built left the solver with that model, the old strategy and no results'),
 ('C17', 'fix: keep the KPM object unchanged', 'set_model() with a model that cannot be built left the KPM object with that model and the old Hamiltonian'),
 ('C22', 'fix: pass modifier results', 'modifier results which are views (slices, transposes, broadcast arrays) were read from raw memory as if they were contiguous'),
 ('C24', 'fix: accept any array_like data', 'SpatialMap with list data raised an AttributeError'),
 ('C24', 'fix: slice Sites which', 'slicing a spatial map created without sublattices raised an AttributeError'),
 ('C23', 'fix: load the saved file', 'load() failed if a directory has the plain name of the saved file'),
 ('C25', 'fix: restore the properties of pickled objects', 'the properties of pickled objects (state with setters) were not restored'),
 ('C25', 'fix: check all the points of a k-path', 'make_path() compared only some points for their dimension and lost the start of segments shorter than the step'),
 ('C25', 'fix: keep the axes of a Sweep', 'indexing a Sweep with a scalar or mask mixed up its axes'),
 ('C25', 'fix: raise the error for an invalid axis', 'an invalid axis was returned instead of an error being raised'),
 ('C25', "fix: don't modify the operands", 'adding fuzzy sets changed the operands'),
 ('C26', 'fix: reciprocal vectors of lattices', 'reciprocal vectors of some lattices (one vector not along x, tilted planes) were wrong'),
 ('C26', 'fix: Brillouin zone of lattices with skewed', 'the Brillouin zone of skewed lattices missed edges made by farther reciprocal points'),
 ('C27', 'fix: offset both ends of a line', 'with_offset() of a line moved only one end'),
 ('C27', 'fix: offset freeform shapes', 'with_offset() of a freeform shape failed unless it is 3D'),
 ('C27', 'fix: keep the bounding volume of 3D composite', 'composite 3D shapes lost their extent along z'),
 ('C28', 'fix: probability of multi-orbital eigenstates', 'calc_eigenvalues(map_probability_at) used the site index as a Hamiltonian index and failed for array positions'),
 ('C28', 'fix: keep the energy axis', 'calc_ldos(reduce=False) at a single energy lost the energy axis (the documented shape is (energies, orbitals))'),
 ('C31', 'fix: plot_hoppings() removed', 'plot_hoppings(draw_only=...) removed the other hoppings from the matrix of the caller'),
 ('C31', 'fix: Lattice.plot() with an array', 'Lattice.plot() raised an error for a vector_position given as an array'),
 ('C31', 'fix: blend options and rotated label', 'Lead.plot() raised an error for blend options, and put the name of the lead at its place in the xy view in any view'),
 ('C30', 'fix: numbers of orbitals in the kwant export', 'hamiltonian_submatrix(return_norb=True) looked up orbital counts by sublattice ID in a list ordered by first appearance'),
]
KNOWN = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
out = {'findings': list(KNOWN), 'fixed': []}
for prop, subject, what in FIXED:
    h = [l.split()[0] for l in log if l.split(' ', 1)[1].startswith(subject)]
    assert len(h) == 1, subject
    out['fixed'].append('fixed: property=%s %s %s' % (prop, h[0], what))
json.dump(out, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
nfix = sum('fix:' in l.split(' ', 1)[1][:4] for l in log)
print(len(FIXED), 'recorded of', nfix, 'fix commits')
