From cd84c1ca6b923ccf03bfe88584466bbf431b1bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:17 +0000
Subject: [PATCH 01/58] fix: allow sublattices to be added after an alias

Lattice::site_registry() was sized by the number of original sublattices but
indexed by their unique ID, so any original sublattice which was added after
an alias made it (and every Model) throw std::out_of_range.
---
 cppcore/src/Lattice.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 1fdc1d2..787d476 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -245,21 +245,25 @@ OptimizedUnitCell Lattice::optimized_unit_cell() const {
 }
 
 SiteRegistry Lattice::site_registry() const {
-    auto const num_unique_subs = std::count_if(
-        sublattices.begin(), sublattices.end(),
-        [](Sublattices::const_reference r) {
-            return SubID(r.second.alias_id) == r.second.unique_id;
+    auto is_original = [](Sublattice const& sub) { return SubID(sub.alias_id) == sub.unique_id; };
+
+    // The registry is indexed by `unique_id` so it must reach up to the last original sublattice
+    auto size = storage_idx_t{0};
+    for (auto const& pair : sublattices) {
+        if (is_original(pair.second)) {
+            size = std::max(size, pair.second.unique_id.value() + 1);
         }
-    );
+    }
 
-    auto energies = std::vector<MatrixXcd>(num_unique_subs);
-    auto names = std::vector<std::string>(num_unique_subs);
+    // Aliases which come before other sublattices only leave a nameless placeholder
+    auto energies = std::vector<MatrixXcd>(size);
+    auto names = std::vector<std::string>(size);
     for (auto const& pair : sublattices) {
         auto const& sub = pair.second;
-        if (SubID(sub.alias_id) != sub.unique_id) { continue; }
+        if (sub.unique_id.value() >= size) { continue; }
 
         energies.at(sub.unique_id.value()) = sub.energy;
-        names.at(sub.unique_id.value()) = pair.first;
+        if (is_original(sub)) { names.at(sub.unique_id.value()) = pair.first; }
     }
     return {energies, names};
 }
-- 
2.43.0


From c500196e094b38885984eef9df20470537561bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 02/58] fix: resolve an alias of an alias to the original
 sublattice

The second alias was given the ID of the first alias, which has no entry of its
own in the site registry, so the system could not be used.
---
 cppcore/src/Lattice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 787d476..f4a25e2 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -47,7 +47,7 @@ void Lattice::add_sublattice(string_view name, Cartesian position,
 
 void Lattice::add_alias(string_view alias_name, string_view original_name, Cartesian position) {
     auto const& original = sublattice(original_name);
-    auto const alias_id = SubAliasID(original.unique_id);
+    auto const alias_id = original.alias_id; // an alias of an alias refers to the first original
     auto const unique_id = make_unique_sublattice_id(alias_name);
     sublattices[alias_name] = {position, original.energy, unique_id, alias_id};
 }
-- 
2.43.0


From 7780d877011bc0ccaa7a973a18d0c5b26cae9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:39 +0000
Subject: [PATCH 03/58] fix: a line contains the points at its own ends

The angle test divided by the distance from the end point, so a site exactly at
the end of a line gave NaN and was left out, unlike its neighbours on the same
perpendicular.
---
 cppcore/src/system/Shape.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cppcore/src/system/Shape.cpp b/cppcore/src/system/Shape.cpp
index d4921f3..23ff561 100644
--- a/cppcore/src/system/Shape.cpp
+++ b/cppcore/src/system/Shape.cpp
@@ -32,13 +32,10 @@ ArrayX<bool> is_acute_angle(Cartesian a, Cartesian b, CartesianArrayConstRef c)
     auto const bc_y = ArrayXf{c.y() - b.y()};
     auto const bc_z = ArrayXf{c.z() - b.z()};
 
-    // Compute the cosine between the two vectors based on the dot product
+    // The cosine has the same sign as the dot product (which is also defined for `c == b`)
     auto const ba_dot_bc = ba.x() * bc_x + ba.y() * bc_y + ba.z() * bc_z;
-    auto const ba_length = ba.norm();
-    auto const bc_length = sqrt(bc_x.cwiseAbs2() + bc_y.cwiseAbs2() + bc_z.cwiseAbs2());
-    auto const cos_theta = ba_dot_bc / (ba_length * bc_length);
 
-    return cos_theta >= 0; // acute angle
+    return ba_dot_bc >= 0; // acute angle
 };
 
 WithinPolygon::WithinPolygon(Shape::Vertices const& vertices)
-- 
2.43.0


From f9f44135ca6bd9a0dd7cee2fd15bbe11d79de811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 04/58] fix: leave the lattice unchanged when an anonymous
 hopping is rejected

The energy was registered before the hopping was checked, so a rejected call
left an unused '__anonymous__N' family behind (which could also make a real
lattice complex), and a family of that name made a valid call fail.
---
 cppcore/src/Lattice.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index f4a25e2..aebd65b 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -105,23 +105,29 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
 
 void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_view to_sub,
                           MatrixXcd const& energy) {
-    auto const hopping_name = [&] {
-        // Look for an existing hopping ID with the same energy
-        auto const it = std::find_if(hoppings.begin(), hoppings.end(), [&](Hoppings::reference r) {
-            auto const& e = r.second.energy;
-            return e.rows() == energy.rows() && e.cols() == energy.cols() && e == energy;
-        });
+    // Look for an existing hopping ID with the same energy
+    auto const it = std::find_if(hoppings.begin(), hoppings.end(), [&](Hoppings::reference r) {
+        auto const& e = r.second.energy;
+        return e.rows() == energy.rows() && e.cols() == energy.cols() && e == energy;
+    });
+    if (it != hoppings.end()) {
+        add_hopping(relative_index, from_sub, to_sub, it->first);
+        return;
+    }
 
-        if (it != hoppings.end()) {
-            return it->first;
-        } else {
-            auto const name = "__anonymous__{}"_format(hoppings.size());
-            register_hopping_energy(name, energy);
-            return name;
-        }
+    auto const hopping_name = [&] {
+        auto n = hoppings.size();
+        while (hoppings.count("__anonymous__{}"_format(n))) { ++n; }
+        return "__anonymous__{}"_format(n);
     }();
+    register_hopping_energy(hopping_name, energy);
 
-    add_hopping(relative_index, from_sub, to_sub, hopping_name);
+    try {
+        add_hopping(relative_index, from_sub, to_sub, hopping_name);
+    } catch (...) {
+        hoppings.erase(hopping_name); // don't leave an unused family behind
+        throw;
+    }
 }
 
 void Lattice::set_offset(Cartesian position) {
-- 
2.43.0


From 300e8d6af4bfa1a4ebd320ade2300b6f5e50e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:02 +0000
Subject: [PATCH 05/58] fix: the site block of a shape accounts for the lattice
 offset and sublattice positions

---
 cppcore/src/system/Foundation.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cppcore/src/system/Foundation.cpp b/cppcore/src/system/Foundation.cpp
index 8f6df1e..a0506ec 100644
--- a/cppcore/src/system/Foundation.cpp
+++ b/cppcore/src/system/Foundation.cpp
@@ -7,10 +7,14 @@ std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& latti
     Array3i lower_bound = Array3i::Constant(std::numeric_limits<int>::max());
     Array3i upper_bound = Array3i::Constant(std::numeric_limits<int>::min());
     for (auto const& point : shape.vertices) {
-        // Translate Cartesian coordinates `point` into lattice vector coordinates `v`
-        Array3i const v = lattice.translate_coordinates(point).cast<int>();
-        lower_bound = (v < lower_bound).select(v, lower_bound);
-        upper_bound = (v > upper_bound).select(v, upper_bound);
+        for (auto const& pair : lattice.get_sublattices()) {
+            // Translate Cartesian coordinates `point` into lattice vector coordinates `v`,
+            // i.e. the index of the unit cell which would have this sublattice at `point`
+            Cartesian const origin = lattice.get_offset() + pair.second.position;
+            Array3i const v = lattice.translate_coordinates(point - origin).cast<int>();
+            lower_bound = (v < lower_bound).select(v, lower_bound);
+            upper_bound = (v > upper_bound).select(v, upper_bound);
+        }
     }
 
     // Add +/- 1 padding to compensate for `cast<int>()` truncation
-- 
2.43.0


From ddc2515c80ffebe779eee51bd4aa6430d9bc3a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:34 +0000
Subject: [PATCH 06/58] fix: remove dangling sites with long-range hoppings at
 the edge of the site block

---
 cppcore/include/system/Foundation.hpp |  2 ++
 cppcore/src/system/Foundation.cpp     | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/cppcore/include/system/Foundation.hpp b/cppcore/include/system/Foundation.hpp
index 2224985..9c30314 100644
--- a/cppcore/include/system/Foundation.hpp
+++ b/cppcore/include/system/Foundation.hpp
@@ -15,6 +15,8 @@ class Foundation;
 namespace detail {
     /// Return the lower and upper bounds of the shape in lattice vector coordinates
     std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& lattice);
+    /// The bounds of the shape padded so that all neighbors of its sites are also within the bounds
+    std::pair<Index3D, Index3D> find_padded_bounds(Shape const& shape, Lattice const& lattice);
     /// Generate real space coordinates for a block of lattice sites
     CartesianArray generate_positions(Cartesian origin, Index3D size, Lattice const& lattice);
     /// Initialize the neighbor count for each site
diff --git a/cppcore/src/system/Foundation.cpp b/cppcore/src/system/Foundation.cpp
index a0506ec..15b0f06 100644
--- a/cppcore/src/system/Foundation.cpp
+++ b/cppcore/src/system/Foundation.cpp
@@ -25,6 +25,21 @@ std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& latti
     return {lower_bound, upper_bound};
 }
 
+std::pair<Index3D, Index3D> find_padded_bounds(Shape const& shape, Lattice const& lattice) {
+    // One cell of padding is already included in the bounds
+    Array3i padding = Array3i::Zero();
+    for (auto const& site : lattice.optimized_unit_cell()) {
+        for (auto const& hopping : site.hoppings) {
+            padding = padding.max(hopping.relative_index.array().abs() - 1);
+        }
+    }
+
+    auto bounds = find_bounds(shape, lattice);
+    bounds.first.array() -= padding;
+    bounds.second.array() += padding;
+    return bounds;
+}
+
 CartesianArray generate_positions(Cartesian origin, Index3D size, Lattice const& lattice) {
     // The nested loops look messy, but it's the fastest way to calculate all the positions
     // because the intermediate a, b, c positions are reused.
@@ -120,7 +135,7 @@ Foundation::Foundation(Lattice const& lattice, Primitive const& primitive)
 Foundation::Foundation(Lattice const& lattice, Shape const& shape)
     : lattice(lattice),
       unit_cell(lattice.optimized_unit_cell()),
-      bounds(detail::find_bounds(shape, lattice)),
+      bounds(detail::find_padded_bounds(shape, lattice)),
       spatial_size((bounds.second - bounds.first) + Index3D::Ones()),
       sub_size(lattice.nsub()),
       positions(detail::generate_positions(lattice.calc_position(bounds.first), spatial_size, lattice)),
-- 
2.43.0


From 6308f45611c7e29f890fa502ccf39bb5ddd8d4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 07/58] fix: keep all periodic boundary hoppings when their
 range exceeds the unit cell

---
 cppcore/src/system/Symmetry.cpp | 40 ++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/cppcore/src/system/Symmetry.cpp b/cppcore/src/system/Symmetry.cpp
index 5d3993c..3e38b10 100644
--- a/cppcore/src/system/Symmetry.cpp
+++ b/cppcore/src/system/Symmetry.cpp
@@ -44,6 +44,15 @@ SymmetryArea TranslationalSymmetry::area(Foundation const& foundation) const {
 std::vector<Translation> TranslationalSymmetry::translations(Foundation const& foundation) const {
     auto const& lattice = foundation.get_lattice();
     auto const symmetry_area = area(foundation);
+    auto const size = static_cast<Array3i>(foundation.get_spatial_size());
+
+    // the longest hopping in each direction
+    Array3i max_range = Array3i::Zero();
+    for (auto const& sublattice : lattice.optimized_unit_cell()) {
+        for (auto const& hopping : sublattice.hoppings) {
+            max_range = max_range.max(hopping.relative_index.array().abs());
+        }
+    }
 
     std::vector<Translation> translations;
     auto add_translation = [&](Index3D direction) {
@@ -59,11 +68,19 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
         }
 
         auto boundary_slice = SliceIndex3D();
-        for (auto n = 0, size = lattice.ndim(); n < size; ++n) {
-            if (direction[n] > 0)
-                boundary_slice[n] = symmetry_area.left[n];
-            else if (direction[n] < 0)
-                boundary_slice[n] = symmetry_area.right[n];
+        for (auto n = 0; n < lattice.ndim(); ++n) {
+            if (direction[n] == 0) { continue; }
+
+            // only these edge sites are close enough to the neighboring period(s)
+            auto const period = symmetry_area.middle[n];
+            auto const gap = (std::abs(direction[n]) - 1) * period;
+            auto const width = std::min(max_range[n] - gap, period);
+            auto const left = symmetry_area.left[n];
+            auto const right = symmetry_area.right[n] + 1;
+
+            auto const start = std::max((direction[n] > 0) ? left : right - width, 0);
+            auto const end = std::min((direction[n] > 0) ? left + width : right, size[n]);
+            boundary_slice[n] = {start, std::max(start, end)};
         }
 
         auto const shift_index = direction.cwiseProduct(symmetry_area.middle);
@@ -81,7 +98,18 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
     for (auto const& sublattice : lattice.optimized_unit_cell()) {
         for (auto const& hopping : sublattice.hoppings) {
             for (auto const& mask : masks) {
-                add_translation(hopping.relative_index.cwiseProduct(mask));
+                // The hopping may end up in either of two periods depending on the initial site:
+                // 0 and 1 for a short-range hopping, but more distant ones if it's long-range.
+                auto direction = Index3D(0, 0, 0);
+                for (auto n = 0; n < lattice.ndim(); ++n) {
+                    if (!enabled_directions[n]) { continue; }
+
+                    auto const index = hopping.relative_index[n];
+                    auto const period = symmetry_area.middle[n];
+                    auto const distance = (std::abs(index) + mask[n] * (period - 1)) / period;
+                    direction[n] = (index > 0) ? distance : -distance;
+                }
+                add_translation(direction);
             }
         }
     }
-- 
2.43.0


From f579bed438e83a0873a2efb0862ca50d9e7fe0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 08/58] fix: renumber the remaining sites when filtering
 hoppings

---
 cppcore/src/system/HoppingBlocks.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index c2041a7..2f9572b 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -80,11 +80,23 @@ void HoppingBlocks::append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols) {
 void HoppingBlocks::filter(VectorX<bool> const& keep) {
     using std::begin; using std::end;
 
-    num_sites = std::accumulate(begin(keep), end(keep), idx_t{0});
+    // The removed sites shift the indices of all the sites which come after them
+    auto new_index = std::vector<storage_idx_t>();
+    new_index.reserve(static_cast<size_t>(keep.size()));
+    num_sites = 0;
+    for (auto const& is_kept : keep) {
+        new_index.push_back(static_cast<storage_idx_t>(num_sites));
+        num_sites += is_kept;
+    }
+
     for (auto& block : blocks) {
         block.erase(std::remove_if(block.begin(), block.end(), [&](COO coo) {
             return !keep[coo.row] || !keep[coo.col];
         }), block.end());
+
+        for (auto& coo : block) {
+            coo = {new_index[coo.row], new_index[coo.col]};
+        }
     }
 }
 
-- 
2.43.0


From 73aee0582c1c74cb7dad803df4cc6de8ca244388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 09/58] fix: translate hopping indices for any order of orbital
 counts

---
 .../hamiltonian/HamiltonianModifiers.hpp      | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
index f206740..513851e 100644
--- a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
+++ b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
@@ -163,10 +163,14 @@ public:
     /// A translator is specific to a system and hopping family -- the matrix dimensions
     IndexTranslator(System const& system, MatrixXcd const& hopping_matrix)
         : term_size(hopping_matrix.rows(), hopping_matrix.cols()),
-          sys_start(system.compressed_sublattices.start_index(term_size.row),
-                    system.compressed_sublattices.start_index(term_size.col)),
-          ham_start(system.to_hamiltonian_indices(sys_start.row)[0],
-                    system.to_hamiltonian_indices(sys_start.col)[0]) {}
+          ham_start(system.num_sites()) {
+        for (auto const& sub : system.compressed_sublattices) {
+            auto const norb = sub.num_orbitals();
+            for (auto i = idx_t{0}; i < sub.num_sites(); ++i) {
+                ham_start[sub.sys_start() + i] = static_cast<storage_idx_t>(sub.ham_start() + i * norb);
+            }
+        }
+    }
 
     /// Loop over all Hamiltonian indices matching the System indices given in `coordinates`:
     ///     lambda(idx_t row, idx_t col, scalar_t value)
@@ -174,11 +178,11 @@ public:
     template<class C, class F, class V, class scalar_t = typename V::Scalar> CPB_ALWAYS_INLINE
     void for_each(C const& coordinates, V const& hopping_buffer, F lambda) const {
         auto const* data = hopping_buffer.data();
-        for (auto i = ham_start.row; i < ham_start.row + term_size.row; ++i) {
-            for (auto j = ham_start.col; j < ham_start.col + term_size.col; ++j) {
+        for (auto i = storage_idx_t{0}; i < term_size.row; ++i) {
+            for (auto j = storage_idx_t{0}; j < term_size.col; ++j) {
                 for (auto const& coo : coordinates) {
-                    auto const ham_row = i + (coo.row - sys_start.row) * term_size.row;
-                    auto const ham_col = j + (coo.col - sys_start.col) * term_size.col;
+                    auto const ham_row = ham_start[coo.row] + i;
+                    auto const ham_col = ham_start[coo.col] + j;
 
                     auto const value = *data++;
                     if (value != scalar_t{0}) {
@@ -191,8 +195,7 @@ public:
 
 private:
     COO term_size; ///< size the hopping matrix (single hopping term)
-    COO sys_start; ///< start index in System coordinates
-    COO ham_start; ///< start index in Hamiltonian coordinates
+    ArrayXi ham_start; ///< the first Hamiltonian index of each site
 };
 
 /**
@@ -244,7 +247,8 @@ void HamiltonianModifiers::apply_to_hoppings_impl(System const& system,
 
     // Fast path: Modifiers don't need to be applied and the single-orbital model
     // allows direct mapping between sites and Hamiltonian matrix elements.
-    if (hopping.empty() && !hopping_registry.has_multiple_orbitals()) {
+    if (hopping.empty() && !hopping_registry.has_multiple_orbitals()
+        && !system.site_registry.has_multiple_orbitals()) {
         for (auto const& block : system_or_boundary.hopping_blocks) {
             auto const energy = num::force_cast<scalar_t>(
                 hopping_registry.energy(block.family_id())
-- 
2.43.0


From 4372e343070c8026854dbb34301701777d14f245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 10/58] fix: complete the onsite energy of generated sites and
 don't keep rejected generators

---
 cppcore/src/Model.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 28f5016..a36bce7 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -73,14 +73,16 @@ void Model::add(HoppingModifier const& m) {
 }
 
 void Model::add(SiteGenerator const& g) {
+    detail::check_onsite_energy(g.energy);
+    MatrixXcd const energy = g.energy.selfadjointView<Eigen::Upper>();
+    site_registry.register_family(g.name, energy);
     structure_modifiers.emplace_back(g);
-    site_registry.register_family(g.name, g.energy);
     clear_structure();
 }
 
 void Model::add(HoppingGenerator const& g) {
-    structure_modifiers.emplace_back(g);
     hopping_registry.register_family(g.name, g.energy);
+    structure_modifiers.emplace_back(g);
     clear_structure();
 }
 
-- 
2.43.0


From 91c3ecb5f17c70d1b08e84ec4a632373d7d0e3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 11/58] fix: account for generated sites in periodic boundaries

---
 cppcore/src/system/StructureModifiers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cppcore/src/system/StructureModifiers.cpp b/cppcore/src/system/StructureModifiers.cpp
index 48e49c5..b0cb56c 100644
--- a/cppcore/src/system/StructureModifiers.cpp
+++ b/cppcore/src/system/StructureModifiers.cpp
@@ -55,6 +55,9 @@ void apply(SiteGenerator const& g, System& s) {
     auto const nsites = new_positions.size();
     s.compressed_sublattices.add(s.site_registry.id(g.name), norb, nsites);
     s.hopping_blocks.add_sites(nsites);
+    for (auto& boundary : s.boundaries) {
+        boundary.hopping_blocks.add_sites(nsites);
+    }
     s.positions = concat(s.positions, new_positions);
 }
 
-- 
2.43.0


From 1d9a04a84e5443886312cfdc332326c06db4b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 12/58] fix: reject generated hoppings which don't fit the
 system

---
 cppcore/src/system/StructureModifiers.cpp | 30 +++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/cppcore/src/system/StructureModifiers.cpp b/cppcore/src/system/StructureModifiers.cpp
index b0cb56c..8e34574 100644
--- a/cppcore/src/system/StructureModifiers.cpp
+++ b/cppcore/src/system/StructureModifiers.cpp
@@ -61,10 +61,40 @@ void apply(SiteGenerator const& g, System& s) {
     s.positions = concat(s.positions, new_positions);
 }
 
+namespace {
+
+/// The generated pairs must connect existing sites which fit the hopping matrix
+void check_generated_pairs(HoppingGenerator const& g, HoppingGenerator::Result const& pairs,
+                           System const& s) {
+    auto norb = ArrayXi(s.num_sites());
+    for (auto const& sub : s.compressed_sublattices) {
+        norb.segment(sub.sys_start(), sub.num_sites())
+            .setConstant(static_cast<storage_idx_t>(sub.num_orbitals()));
+    }
+
+    auto const size = std::min(pairs.from.size(), pairs.to.size());
+    for (auto i = idx_t{0}; i < size; ++i) {
+        // The stored hoppings are upper triangular
+        auto const row = std::min(pairs.from[i], pairs.to[i]);
+        auto const col = std::max(pairs.from[i], pairs.to[i]);
+        if (row < 0 || col >= s.num_sites()) {
+            throw std::out_of_range("The generated hopping '" + g.name + "' has an index "
+                                    "which is not a valid site");
+        }
+        if (norb[row] != g.energy.rows() || norb[col] != g.energy.cols()) {
+            throw std::logic_error("The size of the generated hopping '" + g.name + "' doesn't "
+                                   "match the number of orbitals of the sites it connects");
+        }
+    }
+}
+
+} // anonymous namespace
+
 void apply(HoppingGenerator const& g, System& s) {
     detail::remove_invalid(s);
 
     auto pairs = g.make(s);
+    check_generated_pairs(g, pairs, s);
     s.hopping_blocks.append(s.hopping_registry.id(g.name),
                             std::move(pairs.from), std::move(pairs.to));
 }
-- 
2.43.0


From 3a06df85f9eff9ff971ea9c9793152b03fa5788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 13/58] fix: reject the nearest-site search in a sublattice
 without sites

---
 cppcore/src/system/System.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cppcore/src/system/System.cpp b/cppcore/src/system/System.cpp
index cfd3490..21d16d5 100644
--- a/cppcore/src/system/System.cpp
+++ b/cppcore/src/system/System.cpp
@@ -67,6 +67,10 @@ Range System::sublattice_range(string_view sublattice) const {
 
 idx_t System::find_nearest(Cartesian target_position, string_view sublattice_name) const {
     auto const range = sublattice_range(sublattice_name);
+    if (range.start == range.end) {
+        throw std::runtime_error("System::find_nearest(): there are no sites to search");
+    }
+
     auto nearest_index = range.start;
     auto min_distance = (positions[range.start] - target_position).norm();
 
-- 
2.43.0


From 1c8109e2ba4b5c5c7164aaf6ed01d0afacc97cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 14/58] fix: keep the old primitive when a new one is rejected

---
 cppcore/src/Model.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index a36bce7..833bf89 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -11,12 +11,12 @@ Model::Model(Lattice const& lattice)
       hopping_registry(lattice.hopping_registry()) {}
 
 void Model::add(Primitive new_primitive) {
-    primitive = new_primitive;
     for (auto i = lattice.ndim(); i < 3; ++i) {
-        if (primitive.size[i] != 1) {
+        if (new_primitive.size[i] != 1) {
             throw std::logic_error("Primitive shape has more dimensions than the lattice");
         }
     }
+    primitive = new_primitive;
     clear_structure();
 }
 
-- 
2.43.0


From ab8daa485ab24d6773270d19a03dc9698c8385d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 15/58] fix: replacing a shape also replaces its lattice offset

---
 cppcore/include/Model.hpp | 1 +
 cppcore/src/Model.cpp     | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cppcore/include/Model.hpp b/cppcore/include/Model.hpp
index a59337d..f39f338 100644
--- a/cppcore/include/Model.hpp
+++ b/cppcore/include/Model.hpp
@@ -93,6 +93,7 @@ private:
 
 private:
     Lattice lattice;
+    Cartesian lattice_offset; ///< original offset, i.e. without the one imposed by the shape
     SiteRegistry site_registry;
     HoppingRegistry hopping_registry;
 
diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 833bf89..3f3fa67 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -7,6 +7,7 @@ namespace cpb {
 
 Model::Model(Lattice const& lattice)
     : lattice(lattice),
+      lattice_offset(lattice.get_offset()),
       site_registry(lattice.site_registry()),
       hopping_registry(lattice.hopping_registry()) {}
 
@@ -28,8 +29,8 @@ void Model::set_wave_vector(Cartesian const& new_wave_vector) {
 }
 
 void Model::add(Shape const& new_shape) {
+    lattice.set_offset(lattice_offset + new_shape.lattice_offset);
     shape = new_shape;
-    lattice.set_offset(lattice.get_offset() + shape.lattice_offset);
     clear_structure();
 }
 
-- 
2.43.0


From 6f3ffcefdb492a8769a9b7083b6ed33312989522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 16/58] fix: discard previous results when the modifiers of a
 model are cleared

---
 cppcore/include/Model.hpp |  4 ++--
 cppcore/src/Model.cpp     | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/Model.hpp b/cppcore/include/Model.hpp
index f39f338..5c53256 100644
--- a/cppcore/include/Model.hpp
+++ b/cppcore/include/Model.hpp
@@ -78,8 +78,8 @@ public: // get information
     double hamiltonian_build_seconds() const { return hamiltonian_build_time.elapsed_seconds(); }
 
 public:
-    void clear_structure_modifiers() { structure_modifiers.clear(); }
-    void clear_hamiltonian_modifiers() { hamiltonian_modifiers.clear(); }
+    void clear_structure_modifiers();
+    void clear_hamiltonian_modifiers();
     void clear_all_modifiers() { clear_structure_modifiers(); clear_hamiltonian_modifiers(); }
 
 private:
diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 3f3fa67..67af330 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -142,6 +142,19 @@ std::string Model::report() {
                        num_sites, system_build_time, nnz, hamiltonian_build_time);
 }
 
+void Model::clear_structure_modifiers() {
+    structure_modifiers.clear();
+    // also forget the families introduced by generators
+    site_registry = lattice.site_registry();
+    hopping_registry = lattice.hopping_registry();
+    clear_structure();
+}
+
+void Model::clear_hamiltonian_modifiers() {
+    hamiltonian_modifiers.clear();
+    clear_hamiltonian();
+}
+
 std::shared_ptr<System> Model::make_system() const {
     auto foundation = shape ? Foundation(lattice, shape)
                             : Foundation(lattice, primitive);
@@ -215,6 +228,7 @@ void Model::clear_structure() {
 void Model::clear_hamiltonian() {
     _hamiltonian.reset();
     _leads.clear_hamiltonian();
+    complex_override = false;
 }
 
 } // namespace cpb
-- 
2.43.0


From 45025239348b5135568c487f9626591d927e8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 17/58] fix: conjugate the lead hoppings which are declared in
 the outward direction

---
 .../hamiltonian/HamiltonianModifiers.hpp      |  5 +++
 cppcore/include/leads/HamiltonianPair.hpp     | 34 ++++++++++++-------
 cppcore/include/leads/Structure.hpp           |  3 ++
 cppcore/src/leads/Leads.cpp                   |  2 +-
 cppcore/src/leads/Structure.cpp               |  8 +++++
 5 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
index 513851e..9d70ca3 100644
--- a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
+++ b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
@@ -92,6 +92,11 @@ struct HamiltonianModifiers {
         apply_to_hoppings_impl<scalar_t>(system, system.boundaries[boundary_index], fn);
     };
 
+    template<class scalar_t, class Fn>
+    void apply_to_hoppings(System const& system, System::Boundary const& boundary, Fn fn) const {
+        apply_to_hoppings_impl<scalar_t>(system, boundary, fn);
+    };
+
 private:
     template<class scalar_t, class SystemOrBoundary, class Fn>
     void apply_to_hoppings_impl(System const& system, SystemOrBoundary const& system_or_boundary,
diff --git a/cppcore/include/leads/HamiltonianPair.hpp b/cppcore/include/leads/HamiltonianPair.hpp
index 6f2c1ad..0377744 100644
--- a/cppcore/include/leads/HamiltonianPair.hpp
+++ b/cppcore/include/leads/HamiltonianPair.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include "leads/Structure.hpp"
+
 #include "hamiltonian/Hamiltonian.hpp"
 
 namespace cpb { namespace leads {
@@ -15,8 +17,9 @@ namespace detail {
     }
 
     template<class scalar_t>
-    Hamiltonian make_h1(System const& system, Lattice const& lattice,
+    Hamiltonian make_h1(Structure const& structure, Lattice const& lattice,
                         HamiltonianModifiers const& modifiers) {
+        auto const& system = structure.system;
         auto h1 = std::make_shared<SparseMatrixX<scalar_t>>();
         auto& matrix = *h1;
 
@@ -24,9 +27,14 @@ namespace detail {
         matrix.resize(size, size);
         matrix.reserve(ArrayXi::Constant(size, lattice.max_hoppings()));
 
-        modifiers.apply_to_hoppings<scalar_t>(system, 0, [&](idx_t i, idx_t j, scalar_t hopping) {
-            matrix.insert(i, j) = hopping;
-        });
+        modifiers.apply_to_hoppings<scalar_t>(
+            system, structure.inward,
+            [&](idx_t i, idx_t j, scalar_t hopping) { matrix.insert(i, j) = hopping; }
+        );
+        modifiers.apply_to_hoppings<scalar_t>(
+            system, structure.outward,
+            [&](idx_t i, idx_t j, scalar_t hopping) { matrix.insert(j, i) = num::conjugate(hopping); }
+        );
 
         h1->makeCompressed();
         cpb::detail::throw_if_invalid(*h1);
@@ -42,23 +50,23 @@ struct HamiltonianPair {
     Hamiltonian h0; ///< hoppings within the unit cell
     Hamiltonian h1; ///< hoppings between unit cells
 
-    HamiltonianPair(System const& lead_system, Lattice const& lattice,
+    HamiltonianPair(Structure const& structure, Lattice const& lattice,
                     HamiltonianModifiers const& modifiers, bool is_double, bool is_complex) {
         if (is_double) {
             if (is_complex) {
-                h0 = detail::make_h0<std::complex<double>>(lead_system, lattice, modifiers);
-                h1 = detail::make_h1<std::complex<double>>(lead_system, lattice, modifiers);
+                h0 = detail::make_h0<std::complex<double>>(structure.system, lattice, modifiers);
+                h1 = detail::make_h1<std::complex<double>>(structure, lattice, modifiers);
             } else {
-                h0 = detail::make_h0<double>(lead_system, lattice, modifiers);
-                h1 = detail::make_h1<double>(lead_system, lattice, modifiers);
+                h0 = detail::make_h0<double>(structure.system, lattice, modifiers);
+                h1 = detail::make_h1<double>(structure, lattice, modifiers);
             }
         } else {
             if (is_complex) {
-                h0 = detail::make_h0<std::complex<float>>(lead_system, lattice, modifiers);
-                h1 = detail::make_h1<std::complex<float>>(lead_system, lattice, modifiers);
+                h0 = detail::make_h0<std::complex<float>>(structure.system, lattice, modifiers);
+                h1 = detail::make_h1<std::complex<float>>(structure, lattice, modifiers);
             } else {
-                h0 = detail::make_h0<float>(lead_system, lattice, modifiers);
-                h1 = detail::make_h1<float>(lead_system, lattice, modifiers);
+                h0 = detail::make_h0<float>(structure.system, lattice, modifiers);
+                h1 = detail::make_h1<float>(structure, lattice, modifiers);
             }
         }
     }
diff --git a/cppcore/include/leads/Structure.hpp b/cppcore/include/leads/Structure.hpp
index 33409c2..dfaa881 100644
--- a/cppcore/include/leads/Structure.hpp
+++ b/cppcore/include/leads/Structure.hpp
@@ -12,6 +12,9 @@ namespace cpb { namespace leads {
 struct Structure {
     std::vector<int> indices; ///< map from lead Hamiltonian indices to main system indices
     System system; ///< description of lead sites and boundaries
+    /// The hoppings of the system boundary split up by their original direction
+    System::Boundary inward; ///< from this unit cell of the lead to the one closer to the system
+    System::Boundary outward; ///< from this unit cell of the lead to the next one further away
 
     Structure(Foundation const& foundation, Spec const& spec);
 
diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 6628452..12da8a4 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -25,7 +25,7 @@ void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const&
     }
 
     for (auto const& structure : structures) {
-        hamiltonians.emplace_back(structure.system, lattice, modifiers, is_double, is_complex);
+        hamiltonians.emplace_back(structure, lattice, modifiers, is_double, is_complex);
     }
 }
 
diff --git a/cppcore/src/leads/Structure.cpp b/cppcore/src/leads/Structure.cpp
index f86ec26..d621b45 100644
--- a/cppcore/src/leads/Structure.cpp
+++ b/cppcore/src/leads/Structure.cpp
@@ -52,6 +52,8 @@ Structure::Structure(Foundation const& foundation, Spec const& lead)
     system.boundaries.push_back([&]{
         auto const size = static_cast<int>(indices.size());
         auto hopping_blocks = HoppingBlocks(size, system.hopping_registry.name_map());
+        inward = {hopping_blocks, shift};
+        outward = {hopping_blocks, -shift};
 
         for (auto const& site : slice) {
             if (!junction.is_valid[site.get_slice_idx()]) {
@@ -69,6 +71,12 @@ Structure::Structure(Foundation const& foundation, Spec const& lead)
                 auto const neighbor_index = lead_index(finalized_indices[neighbor]);
                 if (neighbor_index >= 0) {
                     hopping_blocks.add(hopping.family_id, index, neighbor_index);
+
+                    if (!hopping.is_conjugate) {
+                        inward.hopping_blocks.add(hopping.family_id, index, neighbor_index);
+                    } else {
+                        outward.hopping_blocks.add(hopping.family_id, neighbor_index, index);
+                    }
                 }
             });
         }
-- 
2.43.0


From 03b32b2ed7b008c8d563d40bb330a59819b6a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 18/58] fix: don't keep an incomplete list of lead Hamiltonians
 after an error

---
 cppcore/src/leads/Leads.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 12da8a4..7edd159 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -24,9 +24,12 @@ void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const&
         return;
     }
 
+    // Keep all of the results or none of them (if there's an error)
+    auto results = std::vector<leads::HamiltonianPair>();
     for (auto const& structure : structures) {
-        hamiltonians.emplace_back(structure, lattice, modifiers, is_double, is_complex);
+        results.emplace_back(structure, lattice, modifiers, is_double, is_complex);
     }
+    hamiltonians = std::move(results);
 }
 
 void Leads::clear_structure() {
-- 
2.43.0


From b0c65a603b13cb30bbaa46e7bbab47268ae44008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 19/58] fix: keep lead indices up to date when sites are
 removed after a generator

---
 cppcore/include/leads/Leads.hpp |  3 +++
 cppcore/src/Model.cpp           | 10 +++++++++-
 cppcore/src/leads/Leads.cpp     | 24 ++++++++++++++++++++----
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/cppcore/include/leads/Leads.hpp b/cppcore/include/leads/Leads.hpp
index be618c0..a2f098c 100644
--- a/cppcore/include/leads/Leads.hpp
+++ b/cppcore/include/leads/Leads.hpp
@@ -48,6 +48,9 @@ public:
     /// Create the structure of each lead
     void make_structure(Foundation const& foundation);
 
+    /// Account for the removal of main system sites for which `keep == false`
+    void remove_sites(ArrayX<bool> const& keep);
+
     /// Create a Hamiltonian pair for each lead
     void make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const& modifiers,
                           bool is_double, bool is_complex);
diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 67af330..a12dfcf 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -180,11 +180,19 @@ std::shared_ptr<System> Model::make_system() const {
         detail::populate_boundaries(*sys, foundation, symmetry);
     }
 
+    auto remove_invalid = [&]{
+        if (sys->is_valid.size() != 0) {
+            _leads.remove_sites(sys->is_valid);
+        }
+        detail::remove_invalid(*sys);
+    };
+
     for (auto const& modifier : system_modifiers) {
+        if (is_generator(modifier)) { remove_invalid(); }
         apply(modifier, *sys);
     }
 
-    detail::remove_invalid(*sys);
+    remove_invalid();
 
     if (sys->num_sites() == 0) { throw std::runtime_error{"Impossible system: 0 sites"}; }
 
diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 7edd159..7ddf779 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -9,15 +9,31 @@ void Leads::create_attachment_area(Foundation& foundation) const {
 }
 
 void Leads::make_structure(Foundation const& foundation) {
-    if (!structures.empty()) {
-        return;
-    }
-
+    structures.clear();
     for (auto const& spec : specs) {
         structures.emplace_back(foundation, spec);
     }
 }
 
+void Leads::remove_sites(ArrayX<bool> const& keep) {
+    auto new_index = std::vector<int>();
+    new_index.reserve(static_cast<size_t>(keep.size()));
+    auto size = 0;
+    for (auto i = idx_t{0}; i < keep.size(); ++i) {
+        new_index.push_back(keep[i] ? size++ : -1);
+    }
+
+    for (auto& structure : structures) {
+        for (auto& index : structure.indices) {
+            index = new_index[index];
+            if (index < 0) {
+                throw std::runtime_error("Can't attach lead: a site of the lead junction "
+                                         "was removed from the system");
+            }
+        }
+    }
+}
+
 void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const& modifiers,
                              bool is_double, bool is_complex) {
     if (!hamiltonians.empty()) {
-- 
2.43.0


From a59bba7aaf49014495e3748efebd4ec2734f3b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 20/58] fix: the hopping buffer has room for at least one
 hopping of any size

---
 cppcore/include/hamiltonian/HamiltonianModifiers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
index 9d70ca3..2f3f33f 100644
--- a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
+++ b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
@@ -221,7 +221,7 @@ struct HoppingBuffer {
     CartesianArray pos2; ///< hopping destination position
 
     HoppingBuffer(MatrixXcd const& unit_hopping, idx_t block_size)
-        : size(std::min(max_buffer_size / unit_hopping.size(), block_size)),
+        : size(std::min(std::max(max_buffer_size / unit_hopping.size(), idx_t{1}), block_size)),
           unit_hopping(num::force_cast<scalar_t>(unit_hopping)),
           hoppings(size * unit_hopping.size()),
           pos1(size), pos2(size) {}
-- 
2.43.0


From 6a747c23f17e2a4ce86d973b4a4ca39e676a6ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 21/58] fix: reject leads with a shape outside of the main
 structure

---
 cppcore/src/leads/Spec.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cppcore/src/leads/Spec.cpp b/cppcore/src/leads/Spec.cpp
index 14951bd..69c0aa3 100644
--- a/cppcore/src/leads/Spec.cpp
+++ b/cppcore/src/leads/Spec.cpp
@@ -64,6 +64,9 @@ SliceIndex3D attachment_slice(Foundation const& foundation, Spec const& spec) {
     auto const end = (step > 0) ? size[spec.axis] : -1;
 
     auto slice_index = shape_slice(foundation, spec.shape);
+    if (slice_index.size() == 0) {
+        throw std::runtime_error("Can't attach lead: completely misses main structure");
+    }
     auto slice = foundation[slice_index];
 
     // The first index on the lead's axis where there are any existing valid sites
-- 
2.43.0


From 19991743645b312b2ad491050c13f90fc4cd67c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 22/58] fix: attach leads correctly if sites are added in the
 path of another lead

---
 cppcore/src/leads/Leads.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 7ddf779..bba7581 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -1,10 +1,17 @@
 #include "leads/Leads.hpp"
+#include "system/Foundation.hpp"
 
 namespace cpb {
 
 void Leads::create_attachment_area(Foundation& foundation) const {
-    for (auto const& spec : specs) {
-        leads::create_attachment_area(foundation, spec);
+    // Attaching one lead may add sites in the path of another one
+    // which then needs to start further out, so repeat until nothing changes
+    auto num_sites = idx_t{-1};
+    while (num_sites != foundation.get_states().count()) {
+        num_sites = foundation.get_states().count();
+        for (auto const& spec : specs) {
+            leads::create_attachment_area(foundation, spec);
+        }
     }
 }
 
-- 
2.43.0


From 07f1e22902fa8d3deccd3f9ed0063212389e114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:27 +0000
Subject: [PATCH 23/58] fix: redo lead Hamiltonians as complex if a modifier
 asks for it

---
 cppcore/src/Model.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index a12dfcf..e6ac40f 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -122,7 +122,12 @@ Hamiltonian const& Model::hamiltonian() const {
 Leads const& Model::leads() const {
     system();
     hamiltonian();
-    _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), is_complex());
+    try {
+        _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), is_complex());
+    } catch (ComplexOverride const&) {
+        // The main system doesn't necessarily have the same kinds of sites and hoppings
+        _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), /*is_complex*/true);
+    }
     return _leads;
 }
 
-- 
2.43.0


From 553192d5e0bced153cfccd3f06614ce96536f138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:00 +0000
Subject: [PATCH 24/58] fix: a reference to a std::vector has one dimension

---
 cppcore/include/numeric/dense.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/include/numeric/dense.hpp b/cppcore/include/numeric/dense.hpp
index 222a756..e538735 100644
--- a/cppcore/include/numeric/dense.hpp
+++ b/cppcore/include/numeric/dense.hpp
@@ -306,7 +306,7 @@ ArrayConstRef arrayref(std::vector<scalar_t> const& v) {
 
 template<class scalar_t>
 ArrayRef arrayref(std::vector<scalar_t>& v) {
-    return arrayref(v.data(), 1, true, static_cast<idx_t>(v.size()));
+    return arrayref(v.data(), static_cast<idx_t>(v.size()));
 }
 
 /// Range from 0 to `size` of scalar type `T` which does not have to be an integral type
-- 
2.43.0


From b01bb7410d44768fcb5ff8174c3e49b5ae87d9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:00 +0000
Subject: [PATCH 25/58] fix: same pitch for the values and indices of an ELL
 matrix

---
 cppcore/include/numeric/ellmatrix.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/numeric/ellmatrix.hpp b/cppcore/include/numeric/ellmatrix.hpp
index 482bb37..60020de 100644
--- a/cppcore/include/numeric/ellmatrix.hpp
+++ b/cppcore/include/numeric/ellmatrix.hpp
@@ -26,8 +26,10 @@ public:
     EllMatrix() = default;
     EllMatrix(idx_t rows, idx_t cols, idx_t nnz_per_row)
         : _rows(rows), _cols(cols), nnz_per_row(nnz_per_row) {
-        data.resize(aligned_size<scalar_t, align_bytes>(rows), nnz_per_row);
-        indices.resize(aligned_size<storage_idx_t, align_bytes>(rows), nnz_per_row);
+        // Both arrays must have the same pitch (see `ellref`): this one is aligned for either
+        auto const pitch = aligned_size<storage_idx_t, align_bytes>(rows);
+        data.resize(pitch, nnz_per_row);
+        indices.resize(pitch, nnz_per_row);
     }
 
     idx_t rows() const { return _rows; }
-- 
2.43.0


From aa1d642379f5985cb592baadb74bf78b497c2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:00 +0000
Subject: [PATCH 26/58] fix: convert matrices without elements to a usable ELL
 matrix

---
 cppcore/include/numeric/ellmatrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/numeric/ellmatrix.hpp b/cppcore/include/numeric/ellmatrix.hpp
index 60020de..8f246c6 100644
--- a/cppcore/include/numeric/ellmatrix.hpp
+++ b/cppcore/include/numeric/ellmatrix.hpp
@@ -65,8 +65,9 @@ inline EllConstRef<scalar_t> ellref(EllMatrix<scalar_t> const& m) {
 /// Convert an Eigen CSR matrix to ELLPACK
 template<class scalar_t>
 num::EllMatrix<scalar_t> csr_to_ell(SparseMatrixX<scalar_t> const& csr) {
-    auto ell = num::EllMatrix<scalar_t>(csr.rows(), csr.cols(),
-                                        sparse::max_nnz_per_row(csr));
+    // Matrix multiplication needs at least one element per row (which may be a zero)
+    auto const nnz_per_row = std::max(sparse::max_nnz_per_row(csr), idx_t{1});
+    auto ell = num::EllMatrix<scalar_t>(csr.rows(), csr.cols(), nnz_per_row);
     auto const loop = sparse::make_loop(csr);
     for (auto row = 0; row < csr.rows(); ++row) {
         auto n = 0;
-- 
2.43.0


From 04cc24a2d59d7f94af9ea6e7d221938d31084fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:13 +0000
Subject: [PATCH 27/58] fix: reorder Hamiltonians of disconnected systems

---
 cppcore/src/kpm/OptimizedHamiltonian.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cppcore/src/kpm/OptimizedHamiltonian.cpp b/cppcore/src/kpm/OptimizedHamiltonian.cpp
index 6aa083a..c94909c 100644
--- a/cppcore/src/kpm/OptimizedHamiltonian.cpp
+++ b/cppcore/src/kpm/OptimizedHamiltonian.cpp
@@ -98,6 +98,9 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
     // The point of the reordering is to have the target become index number 0
     reorder_map[idx.src[0]] = 0;
 
+    // The lowest original index which may not have been reached yet
+    auto unreached = storage_idx_t{0};
+
     // As the reordered matrix is filled, the slice border indices are recorded
     auto slice_border_indices = std::vector<storage_idx_t>();
     slice_border_indices.push_back(1);
@@ -136,6 +139,13 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
             h2.insert(h2_row, h2_row) = -scale.b * inverted_a;
         }
 
+        // The rest of the system is not connected to anything in the queue: start from a new index
+        if (static_cast<idx_t>(index_queue.size()) == h2_row + 1 && h2_row + 1 < system_size) {
+            while (reorder_map[unreached] >= 0) { ++unreached; }
+            reorder_map[unreached] = static_cast<storage_idx_t>(index_queue.size());
+            index_queue.push_back(unreached);
+        }
+
         // Reached the end of a slice
         if (h2_row == slice_border_indices.back() - 1) {
             slice_border_indices.push_back(static_cast<storage_idx_t>(index_queue.size()));
-- 
2.43.0


From 30f4eb364475e25f052f3773d29acb11361c843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:09 +0000
Subject: [PATCH 28/58] fix: LDOS for a shape which doesn't contain any sites

---
 cppcore/src/kpm/Core.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cppcore/src/kpm/Core.cpp b/cppcore/src/kpm/Core.cpp
index c7b5ae4..8c21c02 100644
--- a/cppcore/src/kpm/Core.cpp
+++ b/cppcore/src/kpm/Core.cpp
@@ -56,6 +56,8 @@ ArrayXcd Core::moments(idx_t num_moments, VectorXcd const& alpha, VectorXcd cons
 }
 
 ArrayXXdCM Core::ldos(std::vector<idx_t> const& idx, ArrayXd const& energy, double broadening) {
+    if (idx.empty()) { return ArrayXXdCM(energy.size(), 0); }
+
     auto const scale = bounds.scaling_factors();
     auto const num_moments = config.kernel.required_num_moments(broadening / scale.a);
     auto const num_indices = static_cast<idx_t>(idx.size());
-- 
2.43.0


From 0edf0ac1b6838ea68ddf085572d0cd90b328108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:23 +0000
Subject: [PATCH 29/58] fix: reject the Green's function index just past the
 end

---
 cppcore/src/KPM.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index fb4f730..dba2f9d 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -102,7 +102,7 @@ ArrayXd KPM::calc_dos(ArrayXd const& energy, double broadening, idx_t num_random
 
 ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    if (row < 0 || row > size || col < 0 || col > size) {
+    if (row < 0 || row >= size || col < 0 || col >= size) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
 
@@ -115,9 +115,9 @@ ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double br
 std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> const& cols,
                                               ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    auto const row_error = row < 0 || row > size;
+    auto const row_error = row < 0 || row >= size;
     auto const col_error = std::any_of(cols.begin(), cols.end(),
-                                       [&](idx_t col) { return col < 0 || col > size; });
+                                       [&](idx_t col) { return col < 0 || col >= size; });
     if (row_error || col_error) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
-- 
2.43.0


From 3d3d91b634a4a6ef68623c0f82575bddb3d5b47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:47 +0000
Subject: [PATCH 30/58] fix: Green's function vector without any columns

---
 cppcore/src/kpm/Core.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/kpm/Core.cpp b/cppcore/src/kpm/Core.cpp
index 8c21c02..3fd16a7 100644
--- a/cppcore/src/kpm/Core.cpp
+++ b/cppcore/src/kpm/Core.cpp
@@ -97,7 +97,8 @@ ArrayXcd Core::greens(idx_t row, idx_t col, ArrayXd const& energy, double broade
 
 std::vector<ArrayXcd> Core::greens_vector(idx_t row, std::vector<idx_t> const& cols,
                                           ArrayXd const& energy, double broadening) {
-    assert(!cols.empty());
+    if (cols.empty()) { return {}; }
+
     auto const scale = bounds.scaling_factors();
     auto const num_moments = config.kernel.required_num_moments(broadening / scale.a);
 
-- 
2.43.0


From 525ddadcf61af423b346fac8cada351adb95d142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:23 +0000
Subject: [PATCH 31/58] fix: reject conductivity directions with a single
 invalid letter

---
 cppcore/src/KPM.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index dba2f9d..b322ee6 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -132,7 +132,8 @@ ArrayXd KPM::calc_conductivity(ArrayXd const& chemical_potential, double broaden
                                double temperature, string_view direction, idx_t num_random,
                                idx_t num_points) const {
     auto const xyz = std::string("xyz");
-    if (direction.size() != 2 || xyz.find_first_of(direction) == std::string::npos) {
+    auto const is_coordinate = [&](char c) { return xyz.find(c) != std::string::npos; };
+    if (direction.size() != 2 || !std::all_of(direction.begin(), direction.end(), is_coordinate)) {
         throw std::logic_error("Invalid direction: must be 'xx', 'xy', 'zz', or similar.");
     }
 
-- 
2.43.0


From d2fe93a0a7f2d9f4c197ce6c5a614ab2d054c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:17 +0000
Subject: [PATCH 32/58] fix: stop the Lanczos procedure when it runs out of
 vectors

---
 cppcore/include/compute/lanczos.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cppcore/include/compute/lanczos.hpp b/cppcore/include/compute/lanczos.hpp
index 5cf29b1..09e9c47 100644
--- a/cppcore/include/compute/lanczos.hpp
+++ b/cppcore/include/compute/lanczos.hpp
@@ -127,9 +127,6 @@ LanczosBounds minmax_eigenvalues(SparseMatrixX<scalar_t> const& matrix, double p
         auto const a = lanczos_spmv(b_prev, matrix, v1, v0);
         auto const b = lanczos_axpy(a, v1, v0);
 
-        v0 *= 1 / b;
-        v0.swap(v1);
-
         alpha.push_back(a);
         beta.push_back(b);
 
@@ -142,12 +139,21 @@ LanczosBounds minmax_eigenvalues(SparseMatrixX<scalar_t> const& matrix, double p
         auto const is_converged_min = abs((previous_min - min) / min) < precision;
         auto const is_converged_max = abs((previous_max - max) / max) < precision;
 
-        if (is_converged_min && is_converged_max) {
+        // If nothing but rounding error is left for the next vector, the search is complete
+        auto const rounding_error = 4 * std::sqrt(static_cast<real_t>(matrix.rows()))
+                                    * std::numeric_limits<real_t>::epsilon()
+                                    * std::max(std::abs(min), std::abs(max));
+        auto const is_complete = b <= rounding_error;
+
+        if ((is_converged_min && is_converged_max) || is_complete) {
             return {min, max, i};
         }
 
         previous_min = min;
         previous_max = max;
+
+        v0 *= 1 / b;
+        v0.swap(v1);
     };
 
     throw std::runtime_error{"Lanczos algorithm did not converge for the min/max eigenvalues."};
-- 
2.43.0


From 1ec18346c3f21e16e0ed7d5aab9324be67560d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:26 +0000
Subject: [PATCH 33/58] fix: scale a Hamiltonian with a single energy level

---
 cppcore/include/kpm/Bounds.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cppcore/include/kpm/Bounds.hpp b/cppcore/include/kpm/Bounds.hpp
index 57a1b07..02dc906 100644
--- a/cppcore/include/kpm/Bounds.hpp
+++ b/cppcore/include/kpm/Bounds.hpp
@@ -18,6 +18,9 @@ struct Scale {
     Scale(real_t min_energy, real_t max_energy)
         : a(0.5f * (max_energy - min_energy) * (1 + tolerance)),
           b(0.5f * (max_energy + min_energy)) {
+        if (a == 0) { // all eigenvalues are equal: any positive number will do
+            a = tolerance * std::max(real_t{1}, std::abs(b));
+        }
         if (std::abs(b / a) < 0.01f * tolerance) {
             b = 0; // rounding to zero saves space in the sparse matrix
         }
-- 
2.43.0


From ad44eb885c9f0e94bb13066585031f7ed1232fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 34/58] fix: Lanczos convergence for a spectrum which starts or
 ends at zero

---
 cppcore/include/compute/lanczos.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cppcore/include/compute/lanczos.hpp b/cppcore/include/compute/lanczos.hpp
index 09e9c47..58ba087 100644
--- a/cppcore/include/compute/lanczos.hpp
+++ b/cppcore/include/compute/lanczos.hpp
@@ -136,14 +136,16 @@ LanczosBounds minmax_eigenvalues(SparseMatrixX<scalar_t> const& matrix, double p
                                                                   eigen_cast<ArrayX>(beta));
         auto const min = eigenvalues.minCoeff();
         auto const max = eigenvalues.maxCoeff();
-        auto const is_converged_min = abs((previous_min - min) / min) < precision;
-        auto const is_converged_max = abs((previous_max - max) / max) < precision;
+        auto const rounding_error = 4 * std::numeric_limits<real_t>::epsilon()
+                                    * std::max(std::abs(min), std::abs(max));
+
+        // The change is relative to half the spectrum width because either end may be at zero
+        auto const required = std::max(precision * (max - min) / 2, rounding_error);
+        auto const is_converged_min = std::abs(previous_min - min) < required;
+        auto const is_converged_max = std::abs(previous_max - max) < required;
 
         // If nothing but rounding error is left for the next vector, the search is complete
-        auto const rounding_error = 4 * std::sqrt(static_cast<real_t>(matrix.rows()))
-                                    * std::numeric_limits<real_t>::epsilon()
-                                    * std::max(std::abs(min), std::abs(max));
-        auto const is_complete = b <= rounding_error;
+        auto const is_complete = b <= rounding_error * std::sqrt(static_cast<real_t>(v0.size()));
 
         if ((is_converged_min && is_converged_max) || is_complete) {
             return {min, max, i};
-- 
2.43.0


From dca23618c58c23196df5ee0f62b390c0a171f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:43 +0000
Subject: [PATCH 35/58] fix: keep the solver unchanged when set_model is given
 a model which cannot be built

---
 cppcore/src/solver/Solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cppcore/src/solver/Solver.cpp b/cppcore/src/solver/Solver.cpp
index beda24f..a159ba7 100644
--- a/cppcore/src/solver/Solver.cpp
+++ b/cppcore/src/solver/Solver.cpp
@@ -49,6 +49,7 @@ BaseSolver::BaseSolver(Model const& model, MakeStrategy const& make_strategy)
       strategy(make_strategy(model.hamiltonian())) {}
 
 void BaseSolver::set_model(Model const& new_model) {
+    new_model.eval(); // may throw, in which case the solver must stay as it was
     is_solved = false;
     model = new_model;
 
-- 
2.43.0


From ca7e2e96344d131dbbf4d4066f350c09387e89ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:54 +0000
Subject: [PATCH 36/58] fix: keep the KPM object unchanged when set_model is
 given a model which cannot be built

---
 cppcore/src/KPM.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index b322ee6..c3bc17b 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -8,6 +8,7 @@ KPM::KPM(Model const& model, kpm::Compute const& compute, kpm::Config const& con
     : model(model.eval()), core(kpm::Core(model.hamiltonian(), compute, config)) {}
 
 void KPM::set_model(Model const& new_model) {
+    new_model.eval(); // may throw, in which case the KPM object must stay as it was
     model = new_model;
     core.set_hamiltonian(model.hamiltonian());
 }
-- 
2.43.0


From 7e663752fbb961b6665085e843637cd225b1eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:56 +0000
Subject: [PATCH 37/58] fix: a line excludes the points at its own ends, as
 tests/test_shape.py expects

This reverts 7780d87: tests/test_shape.py and tests/test_leads.py rely on a line which
doesn't contain its end points and on a line of zero length which is empty.
---
 cppcore/src/system/Shape.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/system/Shape.cpp b/cppcore/src/system/Shape.cpp
index 23ff561..d4921f3 100644
--- a/cppcore/src/system/Shape.cpp
+++ b/cppcore/src/system/Shape.cpp
@@ -32,10 +32,13 @@ ArrayX<bool> is_acute_angle(Cartesian a, Cartesian b, CartesianArrayConstRef c)
     auto const bc_y = ArrayXf{c.y() - b.y()};
     auto const bc_z = ArrayXf{c.z() - b.z()};
 
-    // The cosine has the same sign as the dot product (which is also defined for `c == b`)
+    // Compute the cosine between the two vectors based on the dot product
     auto const ba_dot_bc = ba.x() * bc_x + ba.y() * bc_y + ba.z() * bc_z;
+    auto const ba_length = ba.norm();
+    auto const bc_length = sqrt(bc_x.cwiseAbs2() + bc_y.cwiseAbs2() + bc_z.cwiseAbs2());
+    auto const cos_theta = ba_dot_bc / (ba_length * bc_length);
 
-    return ba_dot_bc >= 0; // acute angle
+    return cos_theta >= 0; // acute angle
 };
 
 WithinPolygon::WithinPolygon(Shape::Vertices const& vertices)
-- 
2.43.0


From 5e3c16a0c9840d086cdfc77a347f3e67bfaff4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:18 +0000
Subject: [PATCH 38/58] fix: evaluate all lead hoppings between the same two
 unit cells

---
 cppcore/include/leads/HamiltonianPair.hpp | 8 +++++++-
 cppcore/include/leads/Structure.hpp       | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/leads/HamiltonianPair.hpp b/cppcore/include/leads/HamiltonianPair.hpp
index 0377744..fc702ff 100644
--- a/cppcore/include/leads/HamiltonianPair.hpp
+++ b/cppcore/include/leads/HamiltonianPair.hpp
@@ -31,8 +31,14 @@ namespace detail {
             system, structure.inward,
             [&](idx_t i, idx_t j, scalar_t hopping) { matrix.insert(i, j) = hopping; }
         );
+
+        // These start from the unit cell which is one step closer to the main system
+        auto inner = system;
+        for (auto i = 0; i < system.num_sites(); ++i) {
+            inner.positions[i] = system.positions[i] + structure.outward.shift;
+        }
         modifiers.apply_to_hoppings<scalar_t>(
-            system, structure.outward,
+            inner, structure.outward,
             [&](idx_t i, idx_t j, scalar_t hopping) { matrix.insert(j, i) = num::conjugate(hopping); }
         );
 
diff --git a/cppcore/include/leads/Structure.hpp b/cppcore/include/leads/Structure.hpp
index dfaa881..ebf991b 100644
--- a/cppcore/include/leads/Structure.hpp
+++ b/cppcore/include/leads/Structure.hpp
@@ -14,7 +14,7 @@ struct Structure {
     System system; ///< description of lead sites and boundaries
     /// The hoppings of the system boundary split up by their original direction
     System::Boundary inward; ///< from this unit cell of the lead to the one closer to the system
-    System::Boundary outward; ///< from this unit cell of the lead to the next one further away
+    System::Boundary outward; ///< to this unit cell of the lead from the one closer to the system
 
     Structure(Foundation const& foundation, Spec const& spec);
 
-- 
2.43.0


From 620a59d55c1935ba7489c7b15f99bdbae02cf533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:08 +0000
Subject: [PATCH 39/58] fix: pass modifier results to C++ as contiguous arrays

A result which is a view (a slice, a transpose, a broadcast array...) was read
from raw memory as if it were contiguous, so the wrong values were used.
---
 pybinding/modifier.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pybinding/modifier.py b/pybinding/modifier.py
index ac25ab3..382d2fd 100644
--- a/pybinding/modifier.py
+++ b/pybinding/modifier.py
@@ -110,15 +110,12 @@ def _sanitize_modifier_result(result, args, expected_num_return, can_be_complex)
                 raise TypeError("Modifier result is '{}', but expected same kind as '{}'"
                                 " (precision is flexible)".format(r.dtype, prime_arg.dtype))
 
-    def moveaxis(r):
-        """If the result is a new contiguous array, the axis needs to be moved back"""
-        if r.ndim == 3 and r.flags["OWNDATA"] and r.flags["C_CONTIGUOUS"]:
-            return np.moveaxis(r, 0, 2).copy()
-        else:
-            return r
+    def to_cpp_layout(r):
+        """Move the axis back and make sure the data is contiguous: only copied if required"""
+        return np.ascontiguousarray(np.moveaxis(r, 0, 2) if r.ndim == 3 else r)
 
     result = tuple(map(cast, result))
-    result = tuple(map(moveaxis, result))
+    result = tuple(map(to_cpp_layout, result))
     return result[0] if expected_num_return == 1 else result
 
 
-- 
2.43.0


From 10bf87f66158a2177abae3f7cc0c14ce73b796d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:08 +0000
Subject: [PATCH 40/58] fix: accept any array_like data in SpatialMap

---
 pybinding/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/results.py b/pybinding/results.py
index dddffe3..2b52628 100644
--- a/pybinding/results.py
+++ b/pybinding/results.py
@@ -224,7 +224,7 @@ class SpatialMap:
         else:
             self._sites = Sites(positions, sublattices)
 
-        if self.num_sites != data.size:
+        if self.num_sites != self._data.size:
             raise RuntimeError("Data size doesn't match number of sites")
 
     @property
-- 
2.43.0


From ef600c32b06803077ba20a753f826634b5ef1cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:08 +0000
Subject: [PATCH 41/58] fix: slice Sites which were created without IDs

---
 pybinding/support/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/support/structure.py b/pybinding/support/structure.py
index 62f9b10..518e257 100644
--- a/pybinding/support/structure.py
+++ b/pybinding/support/structure.py
@@ -173,7 +173,7 @@ class Sites(AbstractSites):
         return getattr(self, "_ids", np.zeros_like(self._x, dtype=np.int8))
 
     def __getitem__(self, item):
-        return self.__class__([v[item] for v in self.positions], self._ids[item])
+        return self.__class__([v[item] for v in self.positions], self.ids[item])
 
 
 class AbstractHoppings(metaclass=ABCMeta):
-- 
2.43.0


From 4e55b1ed5c3563623bac6dec9a23202833832f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:08 +0000
Subject: [PATCH 42/58] fix: load the saved file when a directory has its plain
 name

---
 pybinding/support/pickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/support/pickle.py b/pybinding/support/pickle.py
index ff1fd2e..33b2e9b 100644
--- a/pybinding/support/pickle.py
+++ b/pybinding/support/pickle.py
@@ -68,7 +68,7 @@ def load(file):
     """
     file = _normalize(file)
     file_ext = _add_extension(file)
-    if isinstance(file, str) and not os.path.exists(file) and os.path.exists(file_ext):
+    if isinstance(file, str) and not os.path.isfile(file) and os.path.isfile(file_ext):
         file = file_ext
 
     with gzip.open(file, 'rb') as f:
-- 
2.43.0


From 5dd87d604fb1d333aa9a0f3a4a20fcd72bc92e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:08 +0000
Subject: [PATCH 43/58] fix: restore the properties of pickled objects

---
 pybinding/support/pickle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybinding/support/pickle.py b/pybinding/support/pickle.py
index 33b2e9b..483d42e 100644
--- a/pybinding/support/pickle.py
+++ b/pybinding/support/pickle.py
@@ -96,10 +96,10 @@ def pickleable(props="", version: int=0):
             ))
 
         self.__dict__.update(state["dict"])
-        props_state = {name: value for name, value in state.get("props", {})
-                       if name in props}
-        for name, value in props_state:
-            setattr(self, name, value)
+        props_state = dict(state.get("props", {}))
+        for name, value in props_state.items():
+            if name in props:
+                setattr(self, name, value)
 
     def decorator(cls):
         cls.__getstate__ = getstate
-- 
2.43.0


From 44b6faa537e1ee18fa3f135c15a0f70a2b37db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:08 +0000
Subject: [PATCH 44/58] fix: reciprocal vectors of lattices which aren't along
 the first axes

---
 pybinding/lattice.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pybinding/lattice.py b/pybinding/lattice.py
index 8a1182c..0ebe173 100644
--- a/pybinding/lattice.py
+++ b/pybinding/lattice.py
@@ -295,11 +295,9 @@ class Lattice:
         >>> np.allclose(lat.reciprocal_vectors(), [[-2*pi, 2*pi, 0], [4*pi, 0, 0]])
         True
         """
-        n = self.ndim
-        mat = np.column_stack(self.vectors)[:n]
-        mat = 2 * pi * np.linalg.inv(mat).T
-        mat = np.vstack([mat, np.zeros(shape=(3 - n, n))])
-        return [v.squeeze() for v in np.hsplit(mat, n)]
+        # The primitive vectors don't need to be along the first axes -> not a square matrix
+        mat = np.array(self.vectors)
+        return list(2 * pi * np.linalg.inv(mat @ mat.T) @ mat)
 
     def brillouin_zone(self):
         """Return a list of vertices which form the Brillouin zone (1D and 2D only)
-- 
2.43.0


From 9741a6a185f5146400525d9fe84b3af0f3bace83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:08 +0000
Subject: [PATCH 45/58] fix: Brillouin zone of lattices with skewed primitive
 vectors

The neighboring reciprocal lattice points aren't always -1, 0, 1 combinations of
the given vectors, and points on the edge of the grid may have finite regions.
---
 pybinding/lattice.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pybinding/lattice.py b/pybinding/lattice.py
index 0ebe173..911bd25 100644
--- a/pybinding/lattice.py
+++ b/pybinding/lattice.py
@@ -322,8 +322,14 @@ class Lattice:
             l = np.linalg.norm(v1)
             return [-l/2, l/2]
         elif self.ndim == 2:
-            # The closest reciprocal lattice points are combinations of the primitive vectors
-            vectors = self.reciprocal_vectors()
+            # The closest reciprocal lattice points are combinations of the shortest vectors
+            v1, v2 = sorted(self.reciprocal_vectors(), key=np.linalg.norm)
+            while True:
+                v2 = v2 - np.round(np.dot(v1, v2) / np.dot(v1, v1)) * v1
+                if np.linalg.norm(v2) > (1 - 1e-5) * np.linalg.norm(v1):
+                    break
+                v1, v2 = v2, v1
+            vectors = v1, v2
             points = [sum(n * v for n, v in zip(ns, vectors))
                       for ns in itertools.product([-1, 0, 1], repeat=self.ndim)]
 
@@ -331,9 +337,9 @@ class Lattice:
             vor = Voronoi([p[:self.ndim] for p in points])
 
             # See scipy's Voronoi documentation for details (-1 indicates infinity)
-            finite_regions = [r for r in vor.regions if len(r) != 0 and -1 not in r]
-            assert len(finite_regions) == 1
-            bz_vertices = [vor.vertices[i] for i in finite_regions[0]]
+            origin_region = vor.regions[vor.point_region[len(points) // 2]]
+            assert len(origin_region) != 0 and -1 not in origin_region
+            bz_vertices = [vor.vertices[i] for i in origin_region]
 
             # sort counter-clockwise
             return sorted(bz_vertices, key=lambda v: atan2(v[1], v[0]))
-- 
2.43.0


From 179cf7e9e404cc878933c7a2e10827918bd38113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:08 +0000
Subject: [PATCH 46/58] fix: check all the points of a k-path and keep the
 start of short segments

---
 pybinding/results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybinding/results.py b/pybinding/results.py
index 2b52628..f559e0a 100644
--- a/pybinding/results.py
+++ b/pybinding/results.py
@@ -141,13 +141,14 @@ def make_path(k0, k1, *ks, step=0.1):
     True
     """
     k_points = [np.atleast_1d(k) for k in (k0, k1) + ks]
-    if not all(k.shape == k_points[0].shape for k in k_points[:1]):
+    if not all(k.shape == k_points[0].shape for k in k_points[1:]):
         raise RuntimeError("All k-points must have the same shape")
 
     k_paths = []
     point_indices = [0]
     for k_start, k_end in zip(k_points[:-1], k_points[1:]):
-        num_steps = int(np.linalg.norm(k_end - k_start) // step)
+        # at least one step: even the shortest segment has its start point
+        num_steps = max(1, int(np.linalg.norm(k_end - k_start) // step))
         # k_path.shape == num_steps, k_space_dimensions
         k_path = np.array([np.linspace(s, e, num_steps, endpoint=False)
                            for s, e in zip(k_start, k_end)]).T
-- 
2.43.0


From 0aa3af5713ec378804edc360ecdaba1318e71e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:09 +0000
Subject: [PATCH 47/58] fix: keep the axes of a Sweep which is indexed with
 scalars or arrays

---
 pybinding/results.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybinding/results.py b/pybinding/results.py
index f559e0a..4e4c24b 100644
--- a/pybinding/results.py
+++ b/pybinding/results.py
@@ -801,7 +801,11 @@ class Sweep:
         else:
             idx_x = item
             idx_y = slice(None)
-        return self._with_data(self.x[idx_x], self.y[idx_y], self.data[idx_x, idx_y])
+        # The data is always 2D: scalars keep their axis and 1D indices select rows and columns
+        idx_x, idx_y = (i if isinstance(i, (slice, type(Ellipsis))) else np.atleast_1d(i)
+                        for i in (idx_x, idx_y))
+        idx = np.ix_(idx_x, idx_y) if np.ndim(idx_x) == np.ndim(idx_y) == 1 else (idx_x, idx_y)
+        return self._with_data(self.x[idx_x], self.y[idx_y], self.data[idx])
 
     def _with_data(self, x, y, data):
         return self.__class__(x, y, data, self.labels, self.tags)
-- 
2.43.0


From 0c80ef872ee42f747f9ccb3e0e4f4e89be2e122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:09 +0000
Subject: [PATCH 48/58] fix: raise the error for an invalid axis in
 Sweep.mirrored()

---
 pybinding/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/results.py b/pybinding/results.py
index 4e4c24b..be3256d 100644
--- a/pybinding/results.py
+++ b/pybinding/results.py
@@ -877,7 +877,7 @@ class Sweep:
             data = np.hstack((self.data[:, ::-1], self.data[:, 1:]))
             return self._with_data(self.x, y, data)
         else:
-            RuntimeError("Invalid axis")
+            raise RuntimeError("Invalid axis")
 
     def interpolated(self, mul=None, size=None, kind='linear'):
         """Return a copy with interpolate data using :class:`scipy.interpolate.interp1d`
-- 
2.43.0


From b670933707b55a887154c948513404f1eca69136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:09 +0000
Subject: [PATCH 49/58] fix: don't modify the operands when adding fuzzy sets

---
 pybinding/support/fuzzy_set.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pybinding/support/fuzzy_set.py b/pybinding/support/fuzzy_set.py
index aca17fe..50891f4 100644
--- a/pybinding/support/fuzzy_set.py
+++ b/pybinding/support/fuzzy_set.py
@@ -29,12 +29,10 @@ class FuzzySet:
         return self
 
     def __add__(self, other):
+        ret = copy.deepcopy(self)
         if isinstance(other, FuzzySet):
-            ret = copy.copy(self)
             ret += other
-            return ret
-        else:
-            return copy.copy(self)
+        return ret
 
     def __radd__(self, other):
         return self + other
-- 
2.43.0


From e1ecaa356e8e23077a9e364d828021e484dfee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:09 +0000
Subject: [PATCH 50/58] fix: offset both ends of a line by the full vector

---
 pybinding/shape.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybinding/shape.py b/pybinding/shape.py
index 2012fe8..3059c27 100644
--- a/pybinding/shape.py
+++ b/pybinding/shape.py
@@ -85,7 +85,9 @@ class Line(_cpp.Line):
 
     def with_offset(self, vector):
         """Return a copy that's offset by the given vector"""
-        return Line(self.a + vector[0], self.b + vector[1])
+        v = np.zeros(2)
+        v[:len(vector)] = vector[:2]
+        return Line(self.a + v, self.b + v)
 
     def plot(self, **kwargs):
         """Show the line
-- 
2.43.0


From 93590c84150403b45a6ddf758e58b61c6a48d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:09 +0000
Subject: [PATCH 51/58] fix: offset freeform shapes in any number of dimensions

---
 pybinding/shape.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybinding/shape.py b/pybinding/shape.py
index 3059c27..34f216f 100644
--- a/pybinding/shape.py
+++ b/pybinding/shape.py
@@ -162,7 +162,10 @@ class FreeformShape(_cpp.FreeformShape, _CompositionMixin):
             r0 = [x, y, z]
             r = [v0 - v for v0, v in zip(r0, vector)] + r0[len(vector):]
             return self.contains(*r)
-        return FreeformShape(contains, self.width, self.center[:len(vector)] + vector)
+        center = np.zeros(3)
+        center[:len(self.center)] = self.center
+        center[:len(vector)] += vector
+        return FreeformShape(contains, self.width, center)
 
     def plot(self, resolution=(1000, 1000), **kwargs):
         """Plot a lightly shaded silhouette of the freeform shape
-- 
2.43.0


From 1448af8e3edbf98ee17864b22b4e258602b07d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:09 +0000
Subject: [PATCH 52/58] fix: keep the bounding volume of 3D composite shapes

---
 pybinding/shape.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybinding/shape.py b/pybinding/shape.py
index 34f216f..87fc42a 100644
--- a/pybinding/shape.py
+++ b/pybinding/shape.py
@@ -202,8 +202,9 @@ class CompositeShape(_cpp.Shape, _CompositionMixin):
         # This is a wasteful in some situations (e.g. intersections) but its always safe and
         # quick to code using scipy's implementation. Performance isn't an issue here for now
         # but revisit this if it becomes a concern.
-        hull = ConvexHull(np.array(shape1.vertices + shape2.vertices)[:, :2])
-        vertices = hull.points[hull.vertices]
+        points = np.array(shape1.vertices + shape2.vertices)
+        ndim = 3 if np.any(points[:, 2] != points[0, 2]) else 2
+        vertices = points[ConvexHull(points[:, :ndim]).vertices]
 
         super().__init__(vertices, lambda x, y, z: op(shape1.contains(x, y, z),
                                                       shape2.contains(x, y, z)))
-- 
2.43.0


From 721dd73d0ab5afd5cb0b2ba67015bc789f036c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:09 +0000
Subject: [PATCH 53/58] fix: probability of multi-orbital eigenstates and array
 positions in calc_eigenvalues

---
 pybinding/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybinding/solver.py b/pybinding/solver.py
index 37e9c97..d30f15c 100644
--- a/pybinding/solver.py
+++ b/pybinding/solver.py
@@ -117,11 +117,12 @@ class Solver:
         -------
         :class:`~pybinding.Eigenvalues`
         """
-        if not map_probability_at:
+        if map_probability_at is None:
             return results.Eigenvalues(self.eigenvalues)
         else:
             site_idx = self.system.find_nearest(position=map_probability_at)
-            probability = abs(self.eigenvectors[site_idx, :])**2
+            ham_idx = self.system.to_hamiltonian_indices(site_idx)
+            probability = np.sum(abs(self.eigenvectors[ham_idx, :])**2, axis=0)
 
             # sum probabilities of degenerate states
             for idx in self.find_degenerate_states(self.eigenvalues):
-- 
2.43.0


From f521d177560af007d9daa230dfeafb02a3ad8a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:18 +0000
Subject: [PATCH 54/58] fix: numbers of orbitals in the kwant export

---
 pybinding/support/kwant.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pybinding/support/kwant.py b/pybinding/support/kwant.py
index 99e635f..fd512fe 100644
--- a/pybinding/support/kwant.py
+++ b/pybinding/support/kwant.py
@@ -59,9 +59,8 @@ class KwantFiniteSystem(FiniteSystem):
         if not return_norb:
             return matrix
         else:
-            subs = self.pb_model.system.sublattices
-            norb = self.pb_model.system.impl.compressed_sublattices.orbital_counts
-            to_norb = norb[subs]
+            cs = self.pb_model.system.impl.compressed_sublattices
+            to_norb = np.repeat(cs.orbital_counts, cs.site_counts)
             from_norb = to_norb
             return matrix, to_norb, from_norb
 
-- 
2.43.0


From fefe1b6a98040066140f72a17a3fc616427cd618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:27 +0000
Subject: [PATCH 55/58] fix: keep the energy axis of orbital-resolved LDOS for
 a single energy

---
 pybinding/chebyshev.py | 6 ++++--
 pybinding/solver.py    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pybinding/chebyshev.py b/pybinding/chebyshev.py
index 054103b..d7acda4 100644
--- a/pybinding/chebyshev.py
+++ b/pybinding/chebyshev.py
@@ -197,8 +197,10 @@ class KPM:
         :class:`~pybinding.Series`
         """
         ldos = self.impl.calc_ldos(energy, broadening, position, sublattice, reduce)
-        return results.Series(energy, ldos.squeeze(), labels=dict(variable="E (eV)", data="LDOS",
-                                                                  columns="orbitals"))
+        if ldos.ndim == 2 and ldos.shape[1] == 1:
+            ldos = ldos[:, 0]  # the energy axis stays, even for a single energy
+        return results.Series(energy, ldos, labels=dict(variable="E (eV)", data="LDOS",
+                                                        columns="orbitals"))
 
     def calc_spatial_ldos(self, energy, broadening, shape, sublattice=""):
         """Calculate the LDOS as a function of energy and space (in the area of the given shape)
diff --git a/pybinding/solver.py b/pybinding/solver.py
index d30f15c..1309716 100644
--- a/pybinding/solver.py
+++ b/pybinding/solver.py
@@ -243,8 +243,10 @@ class Solver:
             if reduce:
                 ldos = np.sum(ldos, axis=1)
 
-        return results.Series(energies, ldos.squeeze(), labels=dict(variable="E (eV)", data="LDOS",
-                                                                    columns="orbitals"))
+        if ldos.ndim == 2 and ldos.shape[1] == 1:
+            ldos = ldos[:, 0]  # the energy axis stays, even for a single energy
+        return results.Series(energies, ldos, labels=dict(variable="E (eV)", data="LDOS",
+                                                          columns="orbitals"))
 
     def calc_spatial_ldos(self, energy, broadening):
         r"""Calculate the spatial local density of states at the given energy
-- 
2.43.0


From 31db72d0217d5de0233439a11cb886270bb48493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:49 +0000
Subject: [PATCH 56/58] fix: plot_hoppings() removed the hoppings not in
 draw_only from the caller's matrix

---
 pybinding/system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybinding/system.py b/pybinding/system.py
index e4d2825..038cf3a 100644
--- a/pybinding/system.py
+++ b/pybinding/system.py
@@ -1,6 +1,7 @@
 """Structural information and utilities"""
 import functools
 import itertools
+from copy import copy
 
 import numpy as np
 import matplotlib.pyplot as plt
@@ -379,6 +380,7 @@ def plot_hoppings(positions, hoppings, width=1.0, offset=(0, 0, 0), blend=1.0, c
 
     # leave only the desired hoppings
     if draw_only:
+        hoppings = copy(hoppings)  # don't modify the original matrix
         keep = np.zeros_like(hoppings.data, dtype=np.bool)
         for hop_id in draw_only:
             keep = np.logical_or(keep, hoppings.data == hop_id)
-- 
2.43.0


From 095222866e38def92a8269e6669b6524aaa342d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:49 +0000
Subject: [PATCH 57/58] fix: Lattice.plot() with an array as the
 vector_position

---
 pybinding/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybinding/lattice.py b/pybinding/lattice.py
index 911bd25..45f73c4 100644
--- a/pybinding/lattice.py
+++ b/pybinding/lattice.py
@@ -473,7 +473,8 @@ class Lattice:
         sub_center = sum(s.position for s in self.sublattices.values()) / self.nsub
         sub_center = rotate_axes(sub_center, axes)
         if vector_position is not None:
-            vector_position = sub_center if vector_position == "center" else vector_position
+            if isinstance(vector_position, str):  # "center"
+                vector_position = sub_center
             self._plot_vectors(vectors, vector_position)
 
         # annotate sublattice names
-- 
2.43.0


From 60889e4fe9182fdfb998809135d7211d030ad577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:50 +0000
Subject: [PATCH 58/58] fix: blend options and rotated label in Lead.plot()

---
 pybinding/leads.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pybinding/leads.py b/pybinding/leads.py
index 635cb35..98b5d9a 100644
--- a/pybinding/leads.py
+++ b/pybinding/leads.py
@@ -13,6 +13,7 @@ from . import _cpp
 from . import pltutils, results
 from .system import (System, plot_sites, plot_hoppings, structure_plot_properties,
                      decorate_structure_plot)
+from .utils import rotate_axes
 
 __all__ = ['Lead']
 
@@ -106,12 +107,14 @@ class Lead:
         blend_gradient = np.linspace(0.5, 0.1, lead_length)
         for i, blend in enumerate(blend_gradient):
             offset = i * boundary.shift
-            plot_sites(pos, sub, offset=offset, blend=blend, **props['site'])
-            plot_hoppings(pos, inner_hoppings, offset=offset, blend=blend, **props['hopping'])
-            plot_hoppings(pos, outer_hoppings, offset=offset - boundary.shift, blend=blend,
-                          boundary=(1, boundary.shift), **props['boundary'])
-
-        label_pos = _center(pos, lead_length * boundary.shift * 1.5)
+            plot_sites(pos, sub, offset=offset, **{"blend": blend, **props['site']})
+            plot_hoppings(pos, inner_hoppings, offset=offset,
+                          **{"blend": blend, **props['hopping']})
+            plot_hoppings(pos, outer_hoppings, offset=offset - boundary.shift,
+                          boundary=(1, boundary.shift), **{"blend": blend, **props['boundary']})
+
+        label_pos = _center(rotate_axes(pos, props['axes']),
+                            rotate_axes(lead_length * boundary.shift * 1.5, props['axes']))
         pltutils.annotate_box("lead {}".format(self.index), label_pos, bbox=dict(alpha=0.7))
 
         decorate_structure_plot(**props)
-- 
2.43.0

