From 8ede0046b903b695ce6747afedec231052fb631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 01/48] fix: transpose the tensor axes, not the grid axes, for
 negative TransposeComponents indices

---
 dedalus/core/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 4547146..f4a6502 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1927,8 +1927,8 @@ class TransposeComponents(LinearOperator, metaclass=MultiClass):
         self.input_basis = self.domain.get_basis(self.coordsys)
         # Store new axis order
         new_axis_order = np.arange(len(self.tensorsig) + self.dist.dim)
-        new_axis_order[indices[0]] = indices[1]
-        new_axis_order[indices[1]] = indices[0]
+        new_axis_order[i0] = i1
+        new_axis_order[i1] = i0
         self.new_axis_order = tuple(new_axis_order)
 
     def new_operand(self, operand, **kw):
-- 
2.43.0


From 0295a4bc37ca0b3f6380cc40996aa7a391b0d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 02/48] fix: take Cartesian and direct-product components along
 the requested tensor index

---
 dedalus/core/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index f4a6502..e1de2fc 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3354,7 +3354,7 @@ class CartesianComponent(CartCompBase):
         # Set output layout
         out.preset_layout(arg0.layout)
         # Copy specified comonent
-        take_comp = tuple([None] * self.index + [self.coord_subaxis])
+        take_comp = tuple([slice(None)] * self.index + [self.coord_subaxis])
         out.data[:] = arg0.data[take_comp]
 
 
@@ -3378,7 +3378,7 @@ class DirectProductComponent(CartCompBase):
         self.dtype = operand.dtype
         # Slicing for component
         comp_slice = slice(self.comp_subaxis, self.comp_subaxis+comp.dim)
-        self.comp_slices = tuple([None]*index + [comp_slice])
+        self.comp_slices = tuple([slice(None)]*index + [comp_slice])
 
     def check_conditions(self):
         """Check that operands are in a proper layout."""
-- 
2.43.0


From fe8c84123a335fa7f4f9d930dd3f91a3fb750407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 03/48] fix: keep colatitude interpolation of real rank-2
 tensors from overwriting its operand

---
 dedalus/core/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index e7705f4..e598fce 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -5716,10 +5716,10 @@ class InterpolateColatitude(FutureLockedField, operators.Interpolate):
         out.preset_layout(layout)
         # Set output lock
         out.lock_axis_to_grid(colat_axis)
-        # Forward spin recombination
+        # Forward spin recombination (copying input, since recombinations may overwrite it)
         arg_temp = np.zeros_like(arg.data)
         out_temp = np.zeros_like(out.data)
-        basis.forward_spin_recombination(arg.tensorsig, colat_axis, arg.data, arg_temp)
+        basis.forward_spin_recombination(arg.tensorsig, colat_axis, arg.data.copy(), arg_temp)
         # Loop over spin components
         S = basis.spin_weights(arg.tensorsig)
         for i, s in np.ndenumerate(S):
-- 
2.43.0


From d37015b41674b58e34dae4b6e28816b5f430692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 04/48] fix: split non-contiguous selections in
 local_groupset_slices instead of covering other groups

---
 dedalus/core/distributor.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index c4cc766..df26885 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -459,7 +459,6 @@ class Layout:
     @CachedMethod
     def local_groupset_slices(self, groupset, domain, scales, rank=None, broadcast=False):
         groups = self.local_group_arrays(domain, scales, rank=rank, broadcast=broadcast)
-        dim = groups.shape[0]
         group_shape = self.group_shape(domain)
         # find all elements which match group
         selections = np.ones(groups[0].shape, dtype=int)
@@ -480,17 +479,18 @@ class Layout:
         for s in itertools.product(*slices):
             sliced_selections = selections[tuple(s)]
             if np.any(sliced_selections): # some elements match group
-                # assume selected groups are cartesian product, find left and right bounds
-                lefts = list(map(np.min, np.where(sliced_selections)))
-                rights = list(map(np.max, np.where(sliced_selections)))
-                # build multidimensional group slice
-                group_slice = []
-                for i in range(dim):
+                # assume selected groups are cartesian product, find contiguous runs along each axis
+                subslices = []
+                for i, selected in enumerate(map(np.unique, np.where(sliced_selections))):
                     if s[i] != slice(None):
-                        group_slice.append(s[i])
+                        subslices.append([s[i]])
                     else:
-                        group_slice.append(slice(lefts[i], rights[i]+1))
-                group_slices.append(tuple(group_slice))
+                        runs = np.split(selected, np.where(np.diff(selected) > 1)[0] + 1)
+                        subslices.append([slice(run[0], run[-1]+1) for run in runs])
+                # build multidimensional group slices
+                for group_slice in itertools.product(*subslices):
+                    if np.any(selections[group_slice]):
+                        group_slices.append(group_slice)
         return group_slices
 
     def slices(self, domain, scales):
-- 
2.43.0


From 451dc3c770fa81125d40800501dd0feb70ad2b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 05/48] fix: allow averages to be rebuilt with new operands so
 they can appear in equations

---
 dedalus/core/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index e1de2fc..f09c4f2 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1283,6 +1283,9 @@ class Average(LinearOperator, metaclass=MultiClass):
         self.tensorsig = operand.tensorsig
         self.dtype = operand.dtype
 
+    def new_operand(self, operand, **kw):
+        return Average(operand, self.coord, **kw)
+
 
 # # CHECK NEW
 # @parseable('filter', 'f')
-- 
2.43.0


From 65563047bbf7d713880018c3681b77cbf9f652d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 06/48] fix: evaluate curvilinear lifts on the requested mode
 of every group and tensor component

---
 dedalus/core/basis.py | 62 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index e598fce..0b83207 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -4948,6 +4948,33 @@ class LiftDisk(operators.Lift, operators.PolarMOperator):
     def spinindex_out(self, spinindex_in):
         return (spinindex_in,)
 
+    def operate(self, out):
+        """Perform operation."""
+        operand = self.args[0]
+        output_basis = self.output_basis
+        axis = self.last_axis
+        # Set output layout
+        out.preset_layout(operand.layout)
+        out.data[:] = 0
+        # Convert tau to spin first
+        tau = np.zeros_like(operand.data)
+        output_basis.forward_spin_recombination(operand.tensorsig, axis, np.copy(operand.data), tau)
+        # Apply operator
+        S = output_basis.spin_weights(operand.tensorsig)
+        slices_in  = [slice(None) for i in range(self.dist.dim)]
+        slices_out = [slice(None) for i in range(self.dist.dim)]
+        for spinindex, spintotal in np.ndenumerate(S):
+            comp_in = tau[spinindex]
+            comp_out = out.data[spinindex]
+            for m, mg_slice, mc_slice, n_slice in output_basis.m_maps(self.dist):
+                slices_in[axis-1] = slices_out[axis-1] = mc_slice
+                slices_out[axis] = n_slice
+                vec_in  = comp_in[tuple(slices_in)]
+                vec_out = comp_out[tuple(slices_out)]
+                if vec_in.size and vec_out.size:
+                    A = self.radial_matrix(spinindex, spinindex, m)
+                    vec_out += apply_matrix(A, vec_in, axis=axis)
+
     def subproblem_matrix(self, subproblem):
         operand = self.args[0]
         radial_basis = self.output_basis  ## CHANGED RELATIVE TO POLARMOPERATOR
@@ -5000,6 +5027,8 @@ class LiftAnnulus(operators.Lift, operators.PolarMOperator):
     def spinindex_out(self, spinindex_in):
         return (spinindex_in,)
 
+    operate = LiftDisk.operate
+
     def subproblem_matrix(self, subproblem):
         operand = self.args[0]
         radial_basis = self.output_basis  ## CHANGED RELATIVE TO POLARMOPERATOR
@@ -5055,6 +5084,37 @@ class LiftBall(operators.Lift, operators.SphericalEllOperator):
     def regindex_out(self, regindex_in):
         return (regindex_in,)
 
+    def operate(self, out):
+        """Perform operation."""
+        operand = self.args[0]
+        output_basis = self.output_basis
+        radial_basis = self.radial_basis
+        axis = self.dist.last_axis(radial_basis)
+        # Set output layout
+        out.preset_layout(operand.layout)
+        out.data[:] = 0
+        # Convert tau from spin to regularity first
+        tau = np.copy(operand.data)
+        ell_maps = output_basis.ell_maps(self.dist)
+        radial_basis.forward_regularity_recombination(operand.tensorsig, axis, tau, ell_maps=ell_maps)
+        # Apply operator
+        R = radial_basis.regularity_classes(operand.tensorsig)
+        slices_in  = [slice(None) for i in range(self.dist.dim)]
+        slices_out = [slice(None) for i in range(self.dist.dim)]
+        for regindex, regtotal in np.ndenumerate(R):
+            comp_in = tau[regindex]
+            comp_out = out.data[regindex]
+            for ell, m_ind, ell_ind in ell_maps:
+                if radial_basis.regularity_allowed(ell, regindex):
+                    slices_in[axis-2] = slices_out[axis-2] = m_ind
+                    slices_in[axis-1] = slices_out[axis-1] = ell_ind
+                    slices_out[axis] = radial_basis.n_slice(ell)
+                    vec_in  = comp_in[tuple(slices_in)]
+                    vec_out = comp_out[tuple(slices_out)]
+                    if vec_in.size and vec_out.size:
+                        A = self.radial_matrix(regindex, regindex, ell)
+                        vec_out += apply_matrix(A, vec_in, axis=axis)
+
     def subproblem_matrix(self, subproblem):
         operand = self.args[0]
         radial_basis = self.output_basis.radial_basis  ## CHANGED RELATIVE TO POLARMOPERATOR
@@ -5168,6 +5228,8 @@ class LiftShell(operators.Lift, operators.SphericalEllOperator):
     def regindex_out(self, regindex_in):
         return (regindex_in,)
 
+    operate = LiftBall.operate
+
     def subproblem_matrix(self, subproblem):
         matrix = super().subproblem_matrix(subproblem)
         # Get relevant Qs
-- 
2.43.0


From f6f7b37c5b40431f30543ecb80b8ecb0d45c8f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 07/48] fix: reverse sphere NCC matrices for exactly the folded
 m, within each cos/msin block

---
 dedalus/core/basis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 0b83207..83d26ee 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -3261,9 +3261,11 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
             matrix_cos[lmin_out:,lmin_arg:] = (prefactor @ clenshaw.matrix_clenshaw(coeffs_cos_filter, A, B, f0, cutoff=cutoff))[:N-lmin_out,:N-lmin_arg]
             matrix_msin = sparse.lil_matrix((N, N))
             matrix_msin[lmin_out:,lmin_arg:] = (prefactor @ clenshaw.matrix_clenshaw(coeffs_msin_filter, A, B, f0, cutoff=cutoff))[:N-lmin_out,:N-lmin_arg]
+            if arg_basis.ell_reversed(subproblem.dist)[m]:
+                # For folded m's, ell's go in opposite direction within the cos and msin blocks
+                matrix_cos = matrix_cos[::-1, ::-1]
+                matrix_msin = matrix_msin[::-1, ::-1]
             matrix = sparse.bmat([[matrix_cos, -matrix_msin], [matrix_msin, matrix_cos]], format='csr')
-            if m >= arg_basis.mmax//4:
-                matrix = matrix[::-1, ::-1] #for second half of m's, ell's go in opposite direction
         elif ncc_basis.dtype == np.complex128:
             coeffs_filter = coeffs.ravel()[abs(spintotal_ncc):N0]
             # ell_min of data is based off |m|, but ell_min of matrix takes into account |s| and |m|
-- 
2.43.0


From b4736b142aff36b2d0318333b7e40552629ab855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:50 +0000
Subject: [PATCH 08/48] fix: let subproblem matrices depend on ell on the
 sphere, shell and ball, whose valid modes do

---
 dedalus/core/basis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 83d26ee..354aa96 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2776,6 +2776,8 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
         matrix_dependence = matrix_coupling.copy()
         if matrix_coupling[1]:
             matrix_dependence[0] = True
+        # Valid components depend on ell
+        matrix_dependence[1] = True
         return matrix_dependence
 
     def global_shape(self, grid_space, scales):
@@ -4190,6 +4192,8 @@ class Spherical3DBasis(MultidimensionalBasis):
         matrix_dependence = matrix_coupling.copy()
         if matrix_coupling[1]:
             matrix_dependence[0] = True
+        # Valid components and radial truncation depend on ell
+        matrix_dependence[1] = True
         return matrix_dependence
 
     @CachedAttribute
-- 
2.43.0


From a800a4c371134e5b54517e7b3c43fe685d2292ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 09/48] fix: read the msin part of disk NCC coefficients from
 its own row for every m

---
 dedalus/core/basis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 354aa96..37c6298 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2573,9 +2573,10 @@ class DiskBasis(PolarBasis, metaclass=CachedClass):
             f0 = dedalus_sphere.zernike.polynomials(2, 1, a_ncc, b_ncc, 1)[0] * sparse.identity(N)
             prefactor = arg_basis.radius_multiplication_matrix(m, spintotal_arg, diff_regtotal, d)
             if ncc_basis.dtype == np.float64:
-                coeffs_filter = coeffs.ravel()[:2*N]
-                matrix_cos = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter[:N], A, B, f0, cutoff=cutoff)
-                matrix_msin = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter[N:], A, B, f0, cutoff=cutoff)
+                coeffs_cos_filter = coeffs[0].ravel()[:N]
+                coeffs_msin_filter = coeffs[1].ravel()[:N]
+                matrix_cos = prefactor @ clenshaw.matrix_clenshaw(coeffs_cos_filter, A, B, f0, cutoff=cutoff)
+                matrix_msin = prefactor @ clenshaw.matrix_clenshaw(coeffs_msin_filter, A, B, f0, cutoff=cutoff)
                 matrix = sparse.bmat([[matrix_cos, -matrix_msin], [matrix_msin, matrix_cos]], format='csr')
             elif ncc_basis.dtype == np.complex128:
                 coeffs_filter = coeffs.ravel()[:N]
-- 
2.43.0


From c40414c18ffd18f3b315d47f0efdc1ebb5af170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 10/48] fix: let operators act on Cartesian and direct-product
 curls when building matrices

---
 dedalus/core/operators.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index f09c4f2..ca668cc 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3720,7 +3720,6 @@ class CartesianCurl(Curl):
         self.domain = arg.domain
         self.tensorsig = arg.tensorsig
         self.dtype = arg.dtype
-        self.expression_matrices = arg.expression_matrices
 
     def matrix_dependence(self, *vars):
         return self.args[0].matrix_dependence(*vars)
@@ -3728,6 +3727,13 @@ class CartesianCurl(Curl):
     def matrix_coupling(self, *vars):
         return self.args[0].matrix_coupling(*vars)
 
+    def expression_matrices(self, subproblem, vars, **kw):
+        """Build expression matrices for a specific subproblem and variables."""
+        # Intercept calls to compute matrices over expressions
+        if self in vars:
+            return super().expression_matrices(subproblem, vars, **kw)
+        return self.args[0].expression_matrices(subproblem, vars, **kw)
+
     def subproblem_matrix(self, subproblem):
         """Build operator matrix for a specific subproblem."""
         pass
@@ -3807,7 +3813,6 @@ class DirectProductCurl(Curl):
         self.domain = arg.domain
         self.tensorsig = arg.tensorsig
         self.dtype = arg.dtype
-        self.expression_matrices = arg.expression_matrices
 
     def matrix_dependence(self, *vars):
         return self.args[0].matrix_dependence(*vars)
@@ -3815,6 +3820,13 @@ class DirectProductCurl(Curl):
     def matrix_coupling(self, *vars):
         return self.args[0].matrix_coupling(*vars)
 
+    def expression_matrices(self, subproblem, vars, **kw):
+        """Build expression matrices for a specific subproblem and variables."""
+        # Intercept calls to compute matrices over expressions
+        if self in vars:
+            return super().expression_matrices(subproblem, vars, **kw)
+        return self.args[0].expression_matrices(subproblem, vars, **kw)
+
     def subproblem_matrix(self, subproblem):
         """Build operator matrix for a specific subproblem."""
         pass
-- 
2.43.0


From 3d5059f50755da810e2c93f5dfef85cc7c0a4b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 11/48] fix: refresh cached subproblem field views when a field
 moves to a buffer for larger scales

---
 dedalus/core/subsystems.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/dedalus/core/subsystems.py b/dedalus/core/subsystems.py
index e684c00..b14f6b4 100644
--- a/dedalus/core/subsystems.py
+++ b/dedalus/core/subsystems.py
@@ -265,6 +265,8 @@ class Subproblem:
             self._build_buffers()
 
     def _build_buffers(self):
+        self._input_field_views_cache = {}
+        self._output_field_views_cache = {}
         self._input_buffer, self._input_views = self._build_buffer_views(self.problem.LHS_variables)
         if 'F' in self.problem.equations[0]:
             self._output_buffer, self._output_views = self._build_buffer_views([eqn['F'] for eqn in self.problem.equations])
@@ -319,23 +321,29 @@ class Subproblem:
             views.append(field_views)
         return buffer, views
 
-    @CachedMethod
     def _input_field_views(self, fields):
-        views = []
-        for field, buffer_data in zip(fields, self._input_views):
-            for buffer_view, field_slices in buffer_data:
-                field_view = field.data[field_slices]
-                views.append((buffer_view, field_view))
-        return tuple(views)
+        return self._field_views(self._input_field_views_cache, fields, self._input_views)
 
-    @CachedMethod
     def _output_field_views(self, fields):
+        return self._field_views(self._output_field_views_cache, fields, self._output_views)
+
+    @staticmethod
+    def _field_views(cache, fields, buffer_views):
+        """Pair buffer views with views of the current field data."""
+        # Reuse cached views unless any field has switched to a different buffer,
+        # as when changing to and from scales exceeding the dealias scales
+        if fields in cache:
+            field_buffers, views = cache[fields]
+            if all(field.buffer is field_buffer for field, field_buffer in zip(fields, field_buffers)):
+                return views
         views = []
-        for field, buffer_data in zip(fields, self._output_views):
+        for field, buffer_data in zip(fields, buffer_views):
             for buffer_view, field_slices in buffer_data:
                 field_view = field.data[field_slices]
                 views.append((buffer_view, field_view))
-        return tuple(views)
+        views = tuple(views)
+        cache[fields] = ([field.buffer for field in fields], views)
+        return views
 
     def gather_inputs(self, fields, out=None):
         """Gather and precondition subproblem data from input-like field list."""
-- 
2.43.0


From 8499f6cdf39d3166dc2e3ac0c0257d631fa76145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 12/48] fix: keep state data from other subproblems when
 solving LBVPs over selected subproblems

---
 dedalus/core/solvers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index c63a5fb..4ab003a 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -378,6 +378,7 @@ class LinearBoundaryValueSolver(SolverBase):
             Rebuild LHS matrices if coefficients have changed (default: False).
         """
         # Resolve subproblems
+        solve_all = (subproblems is None)
         if subproblems is None:
             subproblems = self.subproblems
         if isinstance(subproblems, subsystems.Subproblem):
@@ -397,7 +398,11 @@ class LinearBoundaryValueSolver(SolverBase):
         for field in self.F:
             field.change_layout('c')
         for field in self.state:
-            field.preset_layout('c')
+            if solve_all:
+                field.preset_layout('c')
+            else:
+                # Keep state data from other subproblems
+                field.change_layout('c')
         # Solve system for each subproblem
         for sp in subproblems:
             # Gather RHS
-- 
2.43.0


From 5a1599b93e0e724ecefcf8116a7de103be0aef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 13/48] fix: keep polar edge bases in products with fields
 lacking them

---
 dedalus/core/arithmetic.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 64daa53..f2b5bc0 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -270,9 +270,15 @@ class Product(Future):
         bases = []
         arg0_bases = arg0.domain.bases_by_coord
         arg1_bases = arg1.domain.bases_by_coord
-        for coord in arg0_bases:
-            b0 = arg0_bases[coord]
-            b1 = arg1_bases[coord]
+        # Include edge bases, which are only defined on the azimuthal coordinate of polar coordinates
+        coords = list(arg0_bases) + [coord for coord in arg1_bases if coord not in arg0_bases]
+        for coord in coords:
+            b0 = arg0_bases.get(coord)
+            b1 = arg1_bases.get(coord)
+            # Skip edge bases when the other argument has a full polar basis
+            cs = getattr(coord, 'cs', None)
+            if arg0_bases.get(cs) is not None or arg1_bases.get(cs) is not None:
+                continue
             # All constant bases yields constant basis
             if b0 is None and b1 is None:
                 continue
-- 
2.43.0


From 89ef3b4604761f339095710563296a1d4a4c8c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 14/48] fix: keep polar edge bases in sums with fields lacking
 them

---
 dedalus/core/arithmetic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index f2b5bc0..001eb47 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -98,7 +98,9 @@ class Add(Future, metaclass=MultiClass):
         """Build output bases."""
         dist = unify_attributes(args, 'dist')
         bases = []
-        for coord in args[0].domain.bases_by_coord:
+        # Include edge bases, which are only defined on the azimuthal coordinate of polar coordinates
+        coords = dict.fromkeys(coord for arg in args for coord in arg.domain.bases_by_coord)
+        for coord in coords:
             ax_bases = tuple(arg.domain.bases_by_coord.get(coord, None) for arg in args)
             # All constant bases yields constant basis
             if all(basis is None for basis in ax_bases):
-- 
2.43.0


From bf2b47fcbdd9822fe99cd282d6da429420d33522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 15/48] fix: let SparseInverse handle 1x1 matrices

---
 dedalus/libraries/matsolvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/libraries/matsolvers.py b/dedalus/libraries/matsolvers.py
index f301d4f..186d0c0 100644
--- a/dedalus/libraries/matsolvers.py
+++ b/dedalus/libraries/matsolvers.py
@@ -224,7 +224,8 @@ class SparseInverse(SparseSolver):
     """Sparse inversion solve."""
 
     def __init__(self, matrix, solver=None):
-        self.matrix_inverse = spla.inv(matrix.tocsc())
+        # Restore sparse matrix from array returned for 1x1 matrices
+        self.matrix_inverse = sp.csc_matrix(spla.inv(matrix.tocsc()))
 
     def solve(self, vector):
         return self.matrix_inverse @ vector
-- 
2.43.0


From 2576eae3a659c2a15eec430c2bfad72a1466f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 16/48] fix: keep the sign of the initial simulation time

---
 dedalus/core/solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 4ab003a..d817c7c 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -582,7 +582,11 @@ class InitialValueSolver(SolverBase):
             timestepper = timesteppers.schemes[timestepper]
         self.timestepper = timestepper(self)
         # Attributes
-        self.sim_time = self.initial_sim_time = problem.time.allreduce_data_max(layout='g')
+        # Reduce signed initial time, since time field data may be empty on some processes
+        initial_time = np.max(problem.time['g'].real, initial=-np.inf)
+        if self.dist.comm.size > 1:
+            initial_time = self.dist.comm.allreduce(initial_time, op=MPI.MAX)
+        self.sim_time = self.initial_sim_time = initial_time
         self.iteration = self.initial_iteration = 0
         self.warmup_iterations = warmup_iterations
         if np.isrealobj(self.dtype.type()):
-- 
2.43.0


From 653051fba3f0f9bf33b87b1d53a63ae46adb31b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 17/48] fix: return the result of solve_upper_sparse and accept
 matrices not yet checked for canonical format

---
 dedalus/tools/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index ab9caf8..1a1dec7 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -211,7 +211,7 @@ def solve_upper_sparse(matrix, rhs, axis, out=None, check_shapes=False, num_thre
     # Check matrix
     if not isinstance(matrix, sparse.csr_matrix):
         raise ValueError("Matrix must be in CSR format.")
-    if not matrix._has_canonical_format: # avoid property hook (without underscore)
+    if not getattr(matrix, '_has_canonical_format', False): # avoid property hook (without underscore)
         matrix.sum_duplicates()
     # Setup output = rhs
     if out is None:
@@ -230,6 +230,7 @@ def solve_upper_sparse(matrix, rhs, axis, out=None, check_shapes=False, num_thre
             raise ValueError("Matrix shape mismatch.")
     # Call cython routine
     cython_linalg.solve_upper_csr(matrix.indptr, matrix.indices, matrix_data, out, axis, num_threads)
+    return out
 
 
 def csr_matvec(A_csr, x_vec, out_vec):
-- 
2.43.0


From f184356c86ee9677d47bb668227ae2b7b7047840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 18/48] fix: apply and solve sparse matrices along negative
 axes and into non-contiguous outputs

---
 dedalus/tools/array.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index 1a1dec7..9a8e142 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -198,8 +198,16 @@ def apply_sparse(matrix, array, axis, out=None, check_shapes=False, num_threads=
     matrix_data = matrix.data
     if matrix_data.dtype != out.dtype:
         matrix_data = matrix_data.astype(out.dtype)
+    # Resolve wraparound axis
+    axis = axis % array.ndim
     # Call cython routine
-    cython_linalg.apply_csr(matrix.indptr, matrix.indices, matrix_data, array, out, axis, num_threads)
+    if out.flags.c_contiguous:
+        cython_linalg.apply_csr(matrix.indptr, matrix.indices, matrix_data, array, out, axis, num_threads)
+    else:
+        # Reshaping discontiguous arrays may copy rather than view
+        temp = np.empty(out.shape, dtype=out.dtype)
+        cython_linalg.apply_csr(matrix.indptr, matrix.indices, matrix_data, array, temp, axis, num_threads)
+        np.copyto(out, temp)
     return out
 
 
@@ -215,7 +223,7 @@ def solve_upper_sparse(matrix, rhs, axis, out=None, check_shapes=False, num_thre
         matrix.sum_duplicates()
     # Setup output = rhs
     if out is None:
-        out = np.copy(rhs)
+        out = np.array(rhs, order='C')
     elif out is not rhs:
         np.copyto(out, rhs)
     # Promote datatypes
@@ -228,8 +236,16 @@ def solve_upper_sparse(matrix, rhs, axis, out=None, check_shapes=False, num_thre
             raise ValueError("Axis out of bounds.")
         if not (matrix.shape[0] == matrix.shape[1] == rhs.shape[axis]):
             raise ValueError("Matrix shape mismatch.")
+    # Resolve wraparound axis
+    axis = axis % rhs.ndim
     # Call cython routine
-    cython_linalg.solve_upper_csr(matrix.indptr, matrix.indices, matrix_data, out, axis, num_threads)
+    if out.flags.c_contiguous:
+        cython_linalg.solve_upper_csr(matrix.indptr, matrix.indices, matrix_data, out, axis, num_threads)
+    else:
+        # Reshaping discontiguous arrays may copy rather than view
+        temp = np.array(out, order='C')
+        cython_linalg.solve_upper_csr(matrix.indptr, matrix.indices, matrix_data, temp, axis, num_threads)
+        np.copyto(out, temp)
     return out
 
 
-- 
2.43.0


From 3e38aaaaf78df8c08801328573ad38073cbd4d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 19/48] fix: apply matrices along axes of zero length

---
 dedalus/tools/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index 9a8e142..1d1d8fa 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -112,7 +112,7 @@ def apply_dense(matrix, array, axis, out=None):
     # Flatten later axes
     if dim > 2:
         array_shape = array.shape
-        array = array.reshape((array_shape[0], -1)) # May allocate copy
+        array = array.reshape((array_shape[0], prod(array_shape[1:]))) # May allocate copy
     # Apply matmul
     temp = np.matmul(matrix, array) # Allocates temp
     # Unflatten later axes
@@ -151,7 +151,7 @@ def apply_sparse_dot(matrix, array, axis, out=None):
     # Flatten later axes
     if dim > 2:
         array_shape = array.shape
-        array = array.reshape((array_shape[0], -1)) # May allocate copy
+        array = array.reshape((array_shape[0], prod(array_shape[1:]))) # May allocate copy
     # Apply matmul
     temp = matrix.dot(array) # Allocates temp
     # Unflatten later axes
-- 
2.43.0


From 7f6eef4cffdbe8c397392c2778fc5069df712da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 20/48] fix: let sparse_allclose compare matrices with
 different numbers of entries

---
 dedalus/tools/array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index 1d1d8fa..441145d 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -477,7 +477,9 @@ def interleave_matrices(matrices):
 def sparse_allclose(A, B):
     A = A.tocsr()
     B = B.tocsr()
-    return (np.allclose(A.data, B.data) and
+    return (A.shape == B.shape and
+            A.nnz == B.nnz and
+            np.allclose(A.data, B.data) and
             np.allclose(A.indices, B.indices) and
             np.allclose(A.indptr, B.indptr))
 
-- 
2.43.0


From d7795288502e3ecfb3b25f3312ddc23ea0581799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 21/48] fix: pair real and imaginary parts in interleaved views
 of Fortran-ordered arrays

---
 dedalus/tools/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index 441145d..de10535 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -24,7 +24,8 @@ def interleaved_view(data):
         raise ValueError("Complex array required.")
     # Create view array
     iv_shape = data.shape + (2,)
-    iv = np.ndarray(iv_shape, dtype=np.float64, buffer=data.data)
+    iv_strides = data.strides + (data.itemsize // 2,)
+    iv = np.ndarray(iv_shape, dtype=np.float64, buffer=data.data, strides=iv_strides)
     return iv
 
 
-- 
2.43.0


From 40f5670545435c96027ef9c7538c78792caaa72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 22/48] fix: build classical Jacobi B operators with classical
 normalisation

---
 dedalus/libraries/dedalus_sphere/jacobi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/libraries/dedalus_sphere/jacobi.py b/dedalus/libraries/dedalus_sphere/jacobi.py
index bba2d23..5c40bf1 100644
--- a/dedalus/libraries/dedalus_sphere/jacobi.py
+++ b/dedalus/libraries/dedalus_sphere/jacobi.py
@@ -395,7 +395,7 @@ class JacobiOperator():
 
         def B(n,a,b):
             Pi = operator('Pi')
-            return (Pi @ operator('A')(p) @ Pi)(n,a,b)
+            return (Pi @ operator('A',normalised=self.normalised)(p) @ Pi)(n,a,b)
 
         return B, JacobiCodomain((1-p)//2,0,p,0)
 
-- 
2.43.0


From be707f03ce47b44ab82c4a4412d4485fef7af0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 23/48] fix: build eigenvalue problems around the IVP variables
 by default and accept numeric right hand sides

---
 dedalus/core/problems.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index 5da537f..d189c97 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -393,6 +393,8 @@ class InitialValueProblem(ProblemBase):
             for pert, var in zip(perturbations, variables):
                 if var.name:
                     pert.name = 'δ'+var.name
+        if backgrounds is None:
+            backgrounds = variables
         for pert, var in zip(perturbations, variables):
             pert.valid_modes[:] = var.valid_modes
         EVP = EigenvalueProblem(perturbations, eigenvalue, **kw)
@@ -411,7 +413,7 @@ class InitialValueProblem(ProblemBase):
                 for var, pert in zip(variables, perturbations):
                     L = L.replace(var, pert)
             # Take Frechet differential of F(X)
-            if F:
+            if isinstance(F, Operand):
                 if F.has(self.time):
                     raise UnsupportedEquationError("Cannot convert time-dependent IVP to EVP.")
                 dF = F.frechet_differential(variables=variables, perturbations=perturbations, backgrounds=backgrounds)
-- 
2.43.0


From 1d22b4c2983bad15d1272ed9b67d53c84c4a316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 24/48] fix: set global data of vector and tensor fields

---
 dedalus/core/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index ac68dc5..3e71b63 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -622,8 +622,9 @@ class Field(Current):
         return copy
 
     def set_global_data(self, global_data):
+        component_elements = tuple(np.arange(cs.dim) for cs in self.tensorsig)
         elements = self.layout.local_elements(self.domain, self.scales)
-        self.set_local_data(global_data[np.ix_(*elements)])
+        self.set_local_data(global_data[np.ix_(*component_elements, *elements)])
 
     def set_local_data(self, local_data):
         copyto(self.data, local_data)
-- 
2.43.0


From 307bc2b0c92f75d7e83af245ebfe6366333a71af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 25/48] fix: expand products over sums

---
 dedalus/core/arithmetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 001eb47..a55885e 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -328,11 +328,11 @@ class Product(Future):
         """Expand expression over specified variables."""
         if self.has(*vars):
             # Expand arguments
-            args = [arg.expand(*vars) for arg in self.args]
+            args = [arg.expand(*vars) if isinstance(arg, Operand) else arg for arg in self.args]
             # Sum over cartesian product of sums including specified variables
             arg_sets = [arg.args if (isinstance(arg, Add) and arg.has(*vars)) else [arg] for arg in args]
             arg_sets = itertools.product(*arg_sets)
-            return sum(self.new_operand(*args) for args in arg_sets)
+            return sum(self.new_operands(*args) for args in arg_sets)
         else:
             return self
 
-- 
2.43.0


From 066dea7c2addf0dd1030562e5be29d54648ea479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 26/48] fix: replace operator types below replaced operators

---
 dedalus/core/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index ca668cc..d1c65ef 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -694,7 +694,7 @@ class LinearOperator(FutureField):
             return new
         # Check base and call with replaced arguments
         elif isinstance(old, type) and isinstance(self, old):
-            new_operand = self.operand.replace(new, old)
+            new_operand = self.operand.replace(old, new)
             return new(new_operand)
         # Call with replaced arguments
         else:
-- 
2.43.0


From f81c7e6bfa33b8e78736d3f2a7e5bee40e7514a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 27/48] fix: evaluate powers and grid functions of plain
 numbers

---
 dedalus/core/operators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index d1c65ef..c3ff103 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -313,6 +313,9 @@ class Power(NonlinearOperator, metaclass=MultiClass):
 
     @classmethod
     def _preprocess_args(cls, *args, **kw):
+        # Use python power if no operands are present
+        if all(isinstance(arg, Number) for arg in args):
+            raise SkipDispatchException(output=args[0]**args[1])
         domain = unify_attributes(args, 'domain', require=False)
         #args = tuple(Operand.cast(arg, domain) for arg in args)
         return args, kw
@@ -585,6 +588,9 @@ class UnaryGridFunction(NonlinearOperator, FutureField):
         return self.new_operand(arg)
 
     def new_operand(self, arg):
+        # Evaluate directly on numbers
+        if isinstance(arg, Number):
+            return self.func(arg)
         return UnaryGridFunction(self.func, arg, deriv=self.deriv)
 
     def reinitialize(self, **kw):
-- 
2.43.0


From a4b273008fef737e54f4feae467e7774cecf7373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 28/48] fix: add numpy scalars of any type to operands

---
 dedalus/core/arithmetic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index a55885e..885ae4f 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -67,7 +67,8 @@ class Add(Future, metaclass=MultiClass):
         if any(isinstance(arg, Operand) for arg in args):
             dist = unify_attributes(args, 'dist', require=False)
             tensorsig = unify_attributes(args, 'tensorsig', require=False)
-            dtype = unify_attributes(args, 'dtype', require=False)
+            # Numpy scalars also have a dtype, so only consider operands
+            dtype = unify_attributes([arg for arg in args if isinstance(arg, Operand)], 'dtype')
             args = [Operand.cast(arg, dist, tensorsig, dtype) for arg in args]
             return args, kw
         # Cast all args to Array, if any present
-- 
2.43.0


From e7fbb3823f2167f4b634d8aa152ab6496a9663e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 29/48] fix: divide operands by numpy integers

---
 dedalus/core/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index 3e71b63..96e4ae9 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -124,6 +124,9 @@ class Operand:
 
     def __truediv__(self, other):
         # Call: self / other
+        if isinstance(other, Number):
+            # Avoid negative powers, which are not defined for numpy integers
+            return (self * (1 / other))
         return (self * other**(-1))
 
     def __rtruediv__(self, other):
-- 
2.43.0


From f90c617363d365bc53cd4208dc5985db0f4f6a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:02 +0000
Subject: [PATCH 30/48] fix: interpolate operands that are constant along the
 coordinate

---
 dedalus/core/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index c3ff103..09b5cea 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1091,6 +1091,9 @@ class Interpolate(SpectralOperator, metaclass=MultiClass):
             coord = operand.domain.get_coord(coord)
         else:
             raise ValueError("coord must be Coordinate or str")
+        # Interpolation is the identity on operands that are constant along coord
+        if operand.domain.get_basis(coord) is None:
+            raise SkipDispatchException(output=operand)
         return (operand, coord, position), {'out': out}
 
 #    @classmethod
-- 
2.43.0


From 152c173799262a927a097c5c1a1144f7a8f3d5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:54 +0000
Subject: [PATCH 31/48] fix: refuse dot products over out-of-range indices or
 different coordinate systems

---
 dedalus/core/arithmetic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 885ae4f..4965cbb 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -633,11 +633,13 @@ class DotProduct(Product, FutureField):
         arg1_rank = len(arg1.tensorsig)
         indices = list(indices)
         for i,(index,rank) in enumerate(zip(indices,(arg0_rank,arg1_rank))):
-            if index > rank or index < -rank:
+            if index >= rank or index < -rank:
                 raise ValueError("index %i out of range for field with rank %i" %(index,rank))
             if index < 0:
                 index += rank
             indices[i] = index
+        if arg0.tensorsig[indices[0]] != arg1.tensorsig[indices[1]]:
+            raise ValueError("DotProduct requires contracted indices to have the same coordinate system.")
         return tuple(indices)
 
     def __str__(self):
-- 
2.43.0


From 83a04c6f6d827e5123f1905baafee7076f904fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:54 +0000
Subject: [PATCH 32/48] fix: refuse traces over indices with different
 coordinate systems

---
 dedalus/core/operators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 09b5cea..b01b536 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1731,7 +1731,6 @@ class ConvertConstant(Convert):
 @alias("trace")
 class Trace(LinearOperator, metaclass=MultiClass):
     # TODO: contract arbitrary indices instead of the first two?
-    # TODO: check that the two indices have same coordsys
 
     name = "Trace"
 
@@ -1739,6 +1738,11 @@ class Trace(LinearOperator, metaclass=MultiClass):
     def _preprocess_args(cls, operand, out=None):
         if isinstance(operand, Number):
             raise SkipDispatchException(output=0)
+        if isinstance(operand, Operand):
+            if len(operand.tensorsig) < 2:
+                raise ValueError("Can only take the trace of tensors with at least two indices.")
+            if operand.tensorsig[0] != operand.tensorsig[1]:
+                raise ValueError("Can only trace over two indices which have the same coordinate system.")
         return [operand], {'out': out}
 
     @classmethod
-- 
2.43.0


From 83f6f24177ab9aba23cbdc293e39ad3fea662cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:54 +0000
Subject: [PATCH 33/48] fix: distinguish curvilinear bases by shape and refuse
 conversions between different shapes

---
 dedalus/core/basis.py     | 39 +++++++++++++++++++++++++++++----------
 dedalus/core/operators.py |  6 ++++++
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 37c6298..5887fe3 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -1896,8 +1896,9 @@ class PolarBasis(SpinBasis):
             if self.dtype == other.dtype:
                 if self.coordsys == other.coordsys:
                     if self.grid_params == other.grid_params:
-                        if self.k == other.k:
-                            return True
+                        if self.shape == other.shape:
+                            if self.k == other.k:
+                                return True
         return False
 
     def __hash__(self):
@@ -2597,6 +2598,20 @@ class ConvertPolar(operators.Convert, operators.PolarMOperator):
     def __init__(self, operand, output_basis, out=None):
         operators.Convert.__init__(self, operand, output_basis, out=out)
         self.radius_axis = self.dist.last_axis(output_basis)
+        # Upcasting radial bases changes the azimuthal size, so must be done in coeff space
+        self.coeff_only = (self.input_basis.shape != self.output_basis.shape)
+
+    def check_conditions(self):
+        """Check that arguments are in a proper layout."""
+        if self.coeff_only and self.args[0].layout.grid_space[self.last_axis]:
+            return False
+        return super().check_conditions()
+
+    def enforce_conditions(self):
+        """Require arguments to be in a proper layout."""
+        if self.coeff_only:
+            self.args[0].require_coeff_space(self.last_axis)
+        super().enforce_conditions()
 
     def spinindex_out(self, spinindex_in):
         return (spinindex_in,)
@@ -3713,8 +3728,9 @@ class ShellRadialBasis(RegularityBasis, metaclass=CachedClass):
         if isinstance(other, ShellRadialBasis):
             if self.coordsys == other.coordsys:
                 if self.grid_params == other.grid_params:
-                    if self.k == other.k:
-                        return True
+                    if self.shape == other.shape:
+                        if self.k == other.k:
+                            return True
         return False
 
     def __hash__(self):
@@ -3946,8 +3962,9 @@ class BallRadialBasis(RegularityBasis, metaclass=CachedClass):
         if isinstance(other, BallRadialBasis):
             if self.coordsys == other.coordsys:
                 if self.grid_params == other.grid_params:
-                    if self.k == other.k:
-                        return True
+                    if self.shape == other.shape:
+                        if self.k == other.k:
+                            return True
         return False
 
     def __hash__(self):
@@ -4423,8 +4440,9 @@ class ShellBasis(Spherical3DBasis, metaclass=CachedClass):
         if isinstance(other, ShellBasis):
             if self.coordsys == other.coordsys:
                 if self.grid_params == other.grid_params:
-                    if self.k == other.k:
-                        return True
+                    if self.shape == other.shape:
+                        if self.k == other.k:
+                            return True
         return False
 
     def __hash__(self):
@@ -4640,8 +4658,9 @@ class BallBasis(Spherical3DBasis, metaclass=CachedClass):
         if isinstance(other, BallBasis):
             if self.coordsys == other.coordsys:
                 if self.grid_params == other.grid_params:
-                    if self.k == other.k:
-                        return True
+                    if self.shape == other.shape:
+                        if self.k == other.k:
+                            return True
         return False
 
     def __hash__(self):
diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index b01b536..5c6f02c 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1562,6 +1562,12 @@ class Convert(SpectralOperator, metaclass=MultiClass):
         self.coords = output_basis.coords
         self.input_basis = operand.domain.get_basis(self.coords)
         self.output_basis = output_basis
+        # Conversion matrices are square, so sizes must match except along constant axes of the input
+        if type(self.input_basis) is type(self.output_basis):
+            *sizes_in, last_in = self.input_basis.shape
+            *sizes_out, last_out = self.output_basis.shape
+            if last_in != last_out or any(n_in not in (1, n_out) for n_in, n_out in zip(sizes_in, sizes_out)):
+                raise ValueError("Cannot convert between bases with different shapes: %s, %s" %(self.input_basis.shape, self.output_basis.shape))
         self.first_axis = self.dist.get_basis_axis(self.output_basis)
         self.last_axis = self.first_axis + self.output_basis.dim - 1
         # LinearOperator requirements
-- 
2.43.0


From 3b815846963902fd3aabc84877c45b564d63d73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:52 +0000
Subject: [PATCH 34/48] fix: refuse time derivatives of non-variables in
 initial value problems

---
 dedalus/core/problems.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index d189c97..eb3b8a7 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -314,10 +314,19 @@ class InitialValueProblem(ProblemBase):
             self_name='IVP LHS', vars_name='time', error=UnsupportedEquationError)
         LHS.require_first_order(operators.TimeDerivative,
             self_name='IVP LHS', ops_name='time derivatives', error=UnsupportedEquationError)
+        self._check_time_derivatives(LHS)
         RHS.require_independent(operators.TimeDerivative,
             self_name='IVP RHS', vars_name='time derivatives', error=UnsupportedEquationError)
         self._check_domain_containment(RHS, LHS, 'RHS', 'LHS')
 
+    def _check_time_derivatives(self, expr):
+        """Require time derivatives to act on the problem variables."""
+        if isinstance(expr, operators.TimeDerivative):
+            if not expr.has(*self.variables):
+                raise UnsupportedEquationError("IVP LHS cannot contain time derivatives of non-variables.")
+        for arg in getattr(expr, 'args', ()):
+            self._check_time_derivatives(arg)
+
     def _build_matrix_expressions(self, eqn):
         """Build LHS matrix expressions."""
         vars = self.variables
-- 
2.43.0


From 3a43dd5dcc36743c9d854d2c9d02a33b87d80f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:46 +0000
Subject: [PATCH 35/48] fix: recognise only a file handler's own sets as its
 previous output

---
 dedalus/core/evaluator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index f500020..a11bdcc 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -399,8 +399,9 @@ class H5FileHandlerBase(Handler):
 
         self.comm = comm = self.dist.comm_cart
         if comm.rank == 0:
-            set_pattern = '%s_s*' % (self.base_path.stem)
-            sets = list(self.base_path.glob(set_pattern))
+            # Find sets written by this handler: folders and h5 files named by set number
+            set_regex = re.compile(r"{}_s(\d+)(\.h5)?$".format(re.escape(self.name)))
+            sets = [path for path in base_path.glob('*') if set_regex.match(path.name)]
             if mode == "overwrite":
                 for set in sets:
                     if set.is_dir():
@@ -413,9 +414,7 @@ class H5FileHandlerBase(Handler):
                 set_nums = []
                 if sets:
                     for set in sets:
-                        m = re.match("{}_s(\d+)$".format(base_path.stem), set.stem)
-                        if m:
-                            set_nums.append(int(m.groups()[0]))
+                        set_nums.append(int(set_regex.match(set.name).group(1)))
                     max_set = max(set_nums)
                     joined_file = base_path.joinpath("{}_s{}.h5".format(base_path.stem,max_set))
                     p0_file = base_path.joinpath("{0}_s{1}/{0}_s{1}_p0.h5".format(base_path.stem,max_set))
-- 
2.43.0


From a213e28d06db6c0bb69785cf130c3e939bbe7b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:46 +0000
Subject: [PATCH 36/48] fix: save the coordinates of each output axis with its
 own scales and groups

---
 dedalus/core/evaluator.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index a11bdcc..d3cdad2 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -546,13 +546,19 @@ class H5FileHandlerBase(Handler):
                 if basis is None:
                     sn = lookup = 'constant'
                 else:
-                    subaxis = axis - self.dist.get_basis_axis(basis)
+                    basis_axis = self.dist.get_basis_axis(basis)
+                    subaxis = axis - basis_axis
                     if layout.grid_space[axis]:
                         sn = basis.coordsys.coords[subaxis].name
-                        data = basis.global_grids(self.dist, scales)[subaxis].ravel()
+                        basis_scales = scales[basis_axis:basis_axis+basis.dim]
+                        data = basis.global_grids(self.dist, basis_scales)[subaxis].ravel()
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
-                        data = layout.global_group_arrays(op.domain, scales)[subaxis]
+                        data = layout.global_group_arrays(op.domain, scales)[axis]
+                        # Reduce to vector if groups only vary along this axis
+                        vectors = np.moveaxis(data, axis, 0).reshape((data.shape[axis], -1))
+                        if np.all(vectors == vectors[:, :1]):
+                            data = vectors[:, 0].copy()
                     scale_hash = hashlib.sha1(data).hexdigest()
                     lookup = f"{sn}_hash_{scale_hash}"
                     if lookup not in file['scales']:
-- 
2.43.0


From 183fa239bc36a369b9ac6d057679c82e7fe98ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:46 +0000
Subject: [PATCH 37/48] fix: evaluate right hand sides after loading an earlier
 state into the same solver

---
 dedalus/core/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index d817c7c..ffc3c1e 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -571,8 +571,8 @@ class InitialValueSolver(SolverBase):
         # Compute total modes
         local_modes = sum([prod(sp.shape) for sp in self.subproblems])
         self.total_modes = self.dist.comm.allreduce(local_modes, op=MPI.SUM)
-        # Create RHS handler
-        F_handler = self.evaluator.add_system_handler(iter=1, group='F')
+        # Create RHS handler, evaluated on every step, including after loading an earlier state
+        F_handler = self.evaluator.add_system_handler(custom_schedule=lambda **kw: True, group='F')
         for eq in problem.eqs:
             F_handler.add_task(eq['F'])
         F_handler.build_system()
-- 
2.43.0


From 05b62679b23d8651f078fe7600c27a9b5e15ad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:46 +0000
Subject: [PATCH 38/48] fix: load and filter grid shapes whose scales round up

---
 dedalus/core/field.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index 96e4ae9..43f72e3 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -765,12 +765,19 @@ class Field(Current):
         else:
             self[layout] = func(global_data[local_slices])
 
+    def _scales_from_shape(self, shape):
+        """Determine scales giving a specified global grid shape."""
+        global_shape = np.array(self.dist.grid_layout.global_shape(self.domain, scales=1))
+        scales = np.array(shape) / global_shape
+        # Nudge down scales whose products with the grid shape are rounded above the specified shape
+        return np.where(np.ceil(scales * global_shape) > shape, np.nextafter(scales, 0), scales)
+
     def load_from_global_grid_data(self, global_data, pre_slices=tuple(), func=None):
         """Load local grid data from array-like global grid data."""
         dim = self.dist.dim
         layout = self.dist.grid_layout
         # Set scales to match saved data
-        scales = np.array(global_data.shape[-dim:]) / np.array(layout.global_shape(self.domain, scales=1))
+        scales = self._scales_from_shape(global_data.shape[-dim:])
         self.preset_scales(scales)
         # Extract local data from global data
         component_slices = tuple(slice(None) for cs in self.tensorsig)
@@ -963,8 +970,7 @@ class Field(Current):
         if shape is not None:
             if scales is not None:
                 raise ValueError("Specify either shape or scales.")
-            global_shape = self.dist.grid_layout.global_shape(self.domain, scales=1)
-            scales = np.array(shape) / global_shape
+            scales = self._scales_from_shape(shape)
         # Low-pass filter by changing scales
         self.change_scales(scales)
         self.require_grid_space()
-- 
2.43.0


From 73465168096646d8b05e2cb3ddab19bfc000e729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:46 +0000
Subject: [PATCH 39/48] fix: report statistics after no steps or exactly the
 warmup iterations

---
 dedalus/core/solvers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index ffc3c1e..0093c07 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -764,13 +764,16 @@ class InitialValueSolver(SolverBase):
     def log_stats(self, format=".4g"):
         """Log timing statistics with specified string formatting (optional)."""
         self.run_time_end = self.wall_time
+        if self.iteration == self.initial_iteration:
+            # No steps have been taken
+            self.start_time_end = self.run_time_end
         start_time = self.start_time_end
         logger.info(f"Final iteration: {self.iteration}")
         logger.info(f"Final sim time: {self.sim_time}")
         logger.info(f"Setup time (init - iter 0): {start_time:{format}} sec")
         if self.profile:
             self.dump_profiles(self.run_profiler, "runtime")
-        if self.iteration >= self.initial_iteration + self.warmup_iterations:
+        if self.iteration > self.initial_iteration + self.warmup_iterations:
             warmup_time = self.warmup_time_end - self.warmup_time_start
             run_time = self.run_time_end - self.run_time_start
             profile_output_time = (self.warmup_time_start-self.start_time_end) + (self.run_time_start-self.warmup_time_end)
-- 
2.43.0


From 8fc945baa20593eebc737c57259555048ae2ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:10 +0000
Subject: [PATCH 40/48] fix: keep cached grid spacings when computing advective
 frequencies

---
 dedalus/core/basis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 5887fe3..e88c443 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -6224,7 +6224,8 @@ class PolarAdvectiveCFL(operators.AdvectiveCFL):
         #Assumes velocity is a 2-length vector over polar coordinates
         basis   = self.input_basis
         dealias = basis.dealias
-        azimuth_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias)
+        # Copy cached spacings before modifying
+        azimuth_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias).copy()
         if basis.mmax == 0:
             azimuth_spacing[:] = np.inf
         elif isinstance(basis, DiskBasis):
@@ -6252,7 +6253,8 @@ class S2AdvectiveCFL(operators.AdvectiveCFL):
         dealias = basis.dealias
         if r is None:
             r = basis.radius
-        s2_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias)
+        # Copy cached spacings before modifying
+        s2_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias).copy()
         if basis.Lmax == 0:
             s2_spacing[:] = np.inf
         else:
-- 
2.43.0


From d7cac8a2619edfd040c3aae4a9eafd36858ea231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:13 +0000
Subject: [PATCH 41/48] fix: support chunked layouts in the MPI transpose
 planner

---
 dedalus/core/transposes.pyx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/transposes.pyx b/dedalus/core/transposes.pyx
index 145b7ee..95716cc 100644
--- a/dedalus/core/transposes.pyx
+++ b/dedalus/core/transposes.pyx
@@ -267,6 +267,7 @@ cdef class AlltoallvTranspose:
     cdef readonly int datasize, axis
     cdef readonly int N0, N1, N2, N3
     cdef readonly int[::1] global_shape
+    cdef readonly int[::1] chunk_shape
     cdef readonly int[::1] col_starts
     cdef readonly int[::1] row_starts
     cdef readonly int[::1] col_ends
@@ -284,10 +285,11 @@ cdef class AlltoallvTranspose:
     cdef readonly int local_col_count
     cdef readonly int local_row_count
 
-    def __init__(self, global_shape, dtype, axis, pycomm):
+    def __init__(self, global_shape, chunk_shape, dtype, axis, pycomm):
         logger.debug("Building MPI transpose plan for (dtype, gshape, axis) = (%s, %s, %s)" %(dtype, global_shape, axis))
         # Attributes
-        self.global_shape = global_shape = global_shape.astype(np.int32)
+        self.global_shape = global_shape = np.array(global_shape, dtype=np.int32)
+        self.chunk_shape = chunk_shape = np.array(chunk_shape, dtype=np.int32)
         self.datasize = {np.float64: 1, np.complex128: 2}[np.dtype(dtype).type]
         self.axis = axis
         self.pycomm = pycomm
@@ -296,9 +298,15 @@ cdef class AlltoallvTranspose:
         self.N1 = N1 = global_shape[axis]
         self.N2 = N2 = global_shape[axis+1]
         self.N3 = N3 = prod(global_shape[axis+2:]) * self.datasize
+        # Chunks
+        C1 = chunk_shape[axis]
+        C2 = chunk_shape[axis+1]
+        # Global number of chunks
+        CG1 = -(-global_shape[axis] // C1)  # ceil
+        CG2 = -(-global_shape[axis+1] // C2)  # ceil
         # Blocks
-        B1 = math.ceil(global_shape[axis] / pycomm.size)
-        B2 = math.ceil(global_shape[axis+1] / pycomm.size)
+        B1 = C1 * -(-CG1 // pycomm.size)
+        B2 = C2 * -(-CG2 // pycomm.size)
         # Starting indices
         ranks = np.arange(pycomm.size, dtype=np.int32)
         self.col_starts = col_starts = np.minimum(B2*ranks, global_shape[axis+1])
-- 
2.43.0


From 68c5c7e009445b8990c875a99d0b184ffcaad6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:13 +0000
Subject: [PATCH 42/48] fix: grouped transposes without communication set the
 right layout

---
 dedalus/core/distributor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index df26885..ca3489a 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -921,7 +921,7 @@ class Transpose:
             else:
                 # No communication: just update field layouts
                 for field in fields:
-                    field.preset_layout(self.layout1)
+                    field.preset_layout(self.layout0)
 
     # def increment_group(self, *fields):
     #     """Transpose group from layout0 to layout1."""
-- 
2.43.0


From 05b37849d8b75b59515ad33a4c8c28b504490a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:13 +0000
Subject: [PATCH 43/48] fix: allocate enough room for local data in FFTW
 transposes

---
 dedalus/core/transposes.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/core/transposes.pyx b/dedalus/core/transposes.pyx
index 95716cc..0c7ddf9 100644
--- a/dedalus/core/transposes.pyx
+++ b/dedalus/core/transposes.pyx
@@ -160,6 +160,8 @@ cdef class FFTWTranspose:
                 &start0,
                 &local1,
                 &start1)
+        # Ensure room for local data, which FFTW underestimates if one process holds an entire dimension
+        alloc_doubles = max(alloc_doubles, prod(self.CL_reduced_shape)*self.datasize, prod(self.RL_reduced_shape)*self.datasize)
         cdef cnp.ndarray buffer0 = fftw.create_buffer(alloc_doubles)
         cdef cnp.ndarray buffer1 = fftw.create_buffer(alloc_doubles)
         if in_place:
-- 
2.43.0


From 153720d111f0da4ce1f965464c488c21a1e4a984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:14 +0000
Subject: [PATCH 44/48] fix: build LBVP matrices collectively

---
 dedalus/core/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 0093c07..f489e4f 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -388,7 +388,8 @@ class LinearBoundaryValueSolver(SolverBase):
             sp_to_build = subproblems
         else:
             sp_to_build = [sp for sp in subproblems if sp not in self.subproblem_matsolvers]
-        if sp_to_build:
+        # Building is collective (NCC data may be gathered), even for processes with nothing to build
+        if self.dist.comm.allreduce(bool(sp_to_build), op=MPI.LOR):
             self.build_matrices(sp_to_build, ['L'])
             for sp in sp_to_build:
                 self.subproblem_matsolvers[sp] = self.matsolver(sp.L_min, self)
-- 
2.43.0


From 34ad339c2e53231de1dcc12e7e4a123e188dc5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 45/48] fix: gather field data when all pieces have the same
 shape

---
 dedalus/core/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index 43f72e3..1c9b766 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -825,7 +825,8 @@ class Field(Current):
         if self.dist.comm.rank == root:
             ext_mesh = self.layout.ext_mesh
             combined = np.zeros(prod(ext_mesh), dtype=object)
-            combined[:] = pieces
+            for i, piece in enumerate(pieces):
+                combined[i] = piece
             return np.block(combined.reshape(ext_mesh).tolist())
 
     def allreduce_data_norm(self, layout=None, order=2):
-- 
2.43.0


From 6f88bb35749ef054b335c5ca1c7ab59dbab4b231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 46/48] fix: compute L2 norms of rank-2 tensors

---
 dedalus/core/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index 1c9b766..837a769 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -863,7 +863,7 @@ class Field(Current):
         elif rank == 1:
             self_inner_product = arithmetic.dot(np.conj(self), self)
         elif rank == 2:
-            self_inner_product = arithmetic.Trace(arithmetic.Dot(operators.Transpose(np.conj(self)), self))
+            self_inner_product = operators.Trace(arithmetic.DotProduct(operators.TransposeComponents(np.conj(self)), self))
         else:
             raise ValueError("Norms only implemented up to rank-2 tensors.")
         # Compute L2 norm
-- 
2.43.0


From 3bfc72b76798278177ade0081f14a00747dcefb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:49 +0000
Subject: [PATCH 47/48] fix: volume integrals leave flow properties on their
 grid

---
 dedalus/extras/flow_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/extras/flow_tools.py b/dedalus/extras/flow_tools.py
index bc6798b..e4b2246 100644
--- a/dedalus/extras/flow_tools.py
+++ b/dedalus/extras/flow_tools.py
@@ -122,7 +122,8 @@ class GlobalFlowProperty:
             integral_field = self.properties[integral_name]
         except KeyError:
             # Compute volume integral
-            field = self.properties[name]
+            # Copy so that later grid reductions are not affected by the evaluation scales
+            field = self.properties[name].copy()
             integral_op = operators.Integrate(field)
             integral_field = integral_op.evaluate()
         # Communicate integral value to all processes
-- 
2.43.0


From 7468eeb3fcf4eacf77adce194a38e6434eb7eb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:50 +0000
Subject: [PATCH 48/48] fix: drop all unresolved orders in coarse colatitude
 transforms

---
 dedalus/core/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index 00758fb..5e2d95e 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -1311,7 +1311,7 @@ class SWSHColatitudeTransform(NonSeparableTransform):
                 Yfull = np.zeros((Lmax+1-abs(m), self.Ntheta))
                 Yfull[Lmin-abs(m):, :] = (Y*weights).astype(np.float64)
                 # Zero higher coefficients than can be correctly computed with base Gauss quadrature
-                Yfull[self.Ntheta-abs(m):, :] = 0
+                Yfull[max(self.Ntheta-abs(m),0):, :] = 0
                 m_matrices[m] = np.asarray(Yfull, order='C')
         return m_matrices
 
@@ -1335,7 +1335,7 @@ class SWSHColatitudeTransform(NonSeparableTransform):
                 Yfull = np.zeros((self.Ntheta, Lmax+1-abs(m)))
                 Yfull[:, Lmin-abs(m):] = Y.T.astype(np.float64)
                 # Zero higher coefficients than can be correctly computed with base Gauss quadrature
-                Yfull[:, self.Ntheta-abs(m):] = 0
+                Yfull[:, max(self.Ntheta-abs(m),0):] = 0
                 m_matrices[m] = np.asarray(Yfull, order='C')
         return m_matrices
 
-- 
2.43.0

