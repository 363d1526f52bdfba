From 4519ab368da1cdb81a0552268eab22e2ca2051dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 001/122] fix: Fourier axis edges lie half way between the cell
 centers, also for one-cell axes

---
 simim/map/gridder.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 84e099e..2abc543 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -16,10 +16,14 @@ from matplotlib import animation
 ###############################################################################
 ##### SECTION 0: Helper Functions #############################################
 ###############################################################################
-def _axis_edges(ax):
-    """Given bin centers (ax) along an axis return the bin edges"""
+def _axis_edges(ax,width=None):
+    """Given bin centers (ax) along an axis return the bin edges
+    
+    The bin width only needs to be given if there is just a single bin"""
+    if len(ax) == 1 and width is not None:
+        return np.array([ax[0]-width/2,ax[0]+width/2])
     diff = np.diff(ax)
-    newax = ax[:-1] + diff
+    newax = ax[:-1] + diff/2
     newax = np.concatenate(([ax[0]-diff[0]/2], newax, [ax[-1]+diff[-1]/2]))
     return newax
     
@@ -190,7 +194,7 @@ class Grid():
             self.axes.append(axis)
 
             self.fourier_axes_centers.append(np.fft.fftshift(np.fft.fftfreq(self.n_pixels[i],self.pixel_size[i])))
-            self.fourier_axes.append(_axis_edges(self.fourier_axes_centers[i]))
+            self.fourier_axes.append(_axis_edges(self.fourier_axes_centers[i],1/self.side_length[i]))
 
         self.fourier_space = np.zeros(self.n_dimensions,dtype=bool)
 
@@ -318,7 +322,7 @@ class Grid():
                     new_axes_centers[i] = new_axes[i][:-1] + new_pixel_size[i]/2
 
                     new_fourier_axes_centers[i] = np.fft.fftshift(np.fft.fftfreq(new_n_pixels[i],new_pixel_size[i]))
-                    new_fourier_axes[i] = _axis_edges(new_fourier_axes_centers[i])
+                    new_fourier_axes[i] = _axis_edges(new_fourier_axes_centers[i],1/new_side_length[i])
 
         # Won't pad properties array:
         pad_full.append((0,0))
@@ -394,7 +398,7 @@ class Grid():
         self.side_length[ax] = np.ptp(self.axes[ax])
         self.center_point[ax] = np.min(self.axes[ax]) + self.side_length[ax]/2
         self.fourier_axes_centers[ax] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[ax],self.pixel_size[ax]))
-        self.fourier_axes[ax] = _axis_edges(self.fourier_axes_centers[ax])
+        self.fourier_axes[ax] = _axis_edges(self.fourier_axes_centers[ax],1/self.side_length[ax])
 
 
     # Should expand this method to support linear transformations
@@ -1216,7 +1220,7 @@ class Grid():
             self.side_length[axi] = np.ptp(self.axes[axi])
             self.center_point[axi] = np.min(self.axes[axi]) + self.side_length[axi]/2
             self.fourier_axes_centers[axi] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[axi],self.pixel_size[axi]))
-            self.fourier_axes[axi] = _axis_edges(self.fourier_axes_centers[axi])
+            self.fourier_axes[axi] = _axis_edges(self.fourier_axes_centers[axi],1/self.side_length[axi])
 
 
     def collapse_dimension(self,ax,in_place=True,weights=None,mode='average'):
-- 
2.43.0


From ba3253ab3f731ae5787960acf458077376ed3e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 002/122] fix: keep grid center, side length and pixel size as
 floats when given as integers

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 2abc543..50ac574 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -132,18 +132,18 @@ class Grid():
         self.n_objects = 0
 
         # Handle center_point inputs:
-        self.center_point = np.array(center_point,ndmin=1,copy=True)
+        self.center_point = np.array(center_point,ndmin=1,copy=True,dtype=float)
         self.n_dimensions = len(self.center_point)
 
         # Handle side_length inputs:
-        self.side_length = np.array(side_length,ndmin=1,copy=True)
+        self.side_length = np.array(side_length,ndmin=1,copy=True,dtype=float)
         if len(self.side_length) == 1:
             self.side_length = np.ones(self.n_dimensions)*self.side_length[0]
         if len(self.side_length) != self.n_dimensions:
             raise ValueError("side_length don't match data dimensionality")
 
         # Handle pixel_size inputs
-        self.pixel_size = np.array(pixel_size,ndmin=1,copy=True)
+        self.pixel_size = np.array(pixel_size,ndmin=1,copy=True,dtype=float)
         if len(self.pixel_size) != self.n_dimensions:
             if len(self.pixel_size) == 1:
                 self.pixel_size = np.ones(self.n_dimensions)*self.pixel_size[0]
-- 
2.43.0


From 13c95995496d8056918b1acacce2d831532dd234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 003/122] fix: Grid.pad looks up the padding of an axis by its
 position in ax

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 50ac574..f45e83a 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -310,7 +310,7 @@ class Grid():
                         pad_full.append((0,0))
                         unpad_full.append((-pad[i_pad],-pad[i_pad]))
 
-                    new_n_pixels[i] = self.n_pixels[i] + 2*pad[ax[i]]
+                    new_n_pixels[i] = self.n_pixels[i] + 2*pad[i_pad]
                     if self.fourier_space[i]:
                         new_side_length[i] = self.side_length[i]
                         new_pixel_size[i] = self.side_length[i] / new_n_pixels[i]
-- 
2.43.0


From e2cca209808205969bb720649b2c384cdb379460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 004/122] fix: Grid.scale_axis pairs factors and units with
 axes by position and can hold the center fixed

---
 simim/map/gridder.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index f45e83a..52e884c 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -436,11 +436,11 @@ class Grid():
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
-        for i in ax:
+        for j,i in enumerate(ax):
             if scalecenter:
-                self.center_point[i] *= factor[i]
-            self.side_length[i] *= factor[i]
-            self.pixel_size[i] *= factor[i]
+                self.center_point[i] *= factor[j]
+            self.side_length[i] *= factor[j]
+            self.pixel_size[i] *= factor[j]
 
             # Handle units inputs:
             if axunits is None:
@@ -453,22 +453,22 @@ class Grid():
                 self.axunits[i] = axunits
                 self.fourier_axunits[i] = axunits+'^-1'
             elif len(np.array(axunits,ndmin=1,copy=True))==len(ax):
-                self.axunits[i] = axunits[i]
-                self.fourier_axunits[i] = axunits[i]+'^-1'
+                self.axunits[i] = axunits[j]
+                self.fourier_axunits[i] = axunits[j]+'^-1'
             else:
                 raise ValueError('length of axunits must be 1 or match the length of ax')
 
             # Set up the grid - make sure the side length is compatible with
             # number of pixels
             if scalecenter:
-                self.axes[i] = self.axes[i]*factor[i]
-                self.axes_centers[i] = self.axes_centers[i]*factor[i]
+                self.axes[i] = self.axes[i]*factor[j]
+                self.axes_centers[i] = self.axes_centers[i]*factor[j]
             else:
-                self.axes[i] = (self.axes[i]-self.center[i])*factor[i] + self.center[i]
-                self.axes_centers[i] = (self.axes_centers[i]-self.center[i])*factor[i] + self.center[i]
+                self.axes[i] = (self.axes[i]-self.center_point[i])*factor[j] + self.center_point[i]
+                self.axes_centers[i] = (self.axes_centers[i]-self.center_point[i])*factor[j] + self.center_point[i]
 
-            self.fourier_axes[i] = self.fourier_axes[i]/factor[i]
-            self.fourier_axes_centers[i] = self.fourier_axes_centers[i]/factor[i]
+            self.fourier_axes[i] = self.fourier_axes[i]/factor[j]
+            self.fourier_axes_centers[i] = self.fourier_axes_centers[i]/factor[j]
 
 
     def copy_axes(self,n_properties=1):
-- 
2.43.0


From e23df6885639fa8bd708eadc1c30b61f561d977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 005/122] fix: changed axis units are not cut to the length of
 the old ones

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 52e884c..155b378 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -155,12 +155,12 @@ class Grid():
             self.axunits = np.array([None for i in range(self.n_dimensions)])
             self.fourier_axunits = np.array([None for i in range(self.n_dimensions)])
         else:
-            self.axunits = np.array(axunits,ndmin=1,copy=True)
+            self.axunits = np.array(axunits,ndmin=1,copy=True,dtype=object)
             if len(self.axunits) == 1:
                 self.axunits = np.array([self.axunits[0] for i in range(self.n_dimensions)])
             if len(self.axunits) != self.n_dimensions:
                 raise ValueError("axunits don't match data dimensionality")
-            self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],ndmin=1)
+            self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],ndmin=1,dtype=object)
 
         if gridunits is None:
             self.gridunits = np.array([None for i in range(self.n_properties)])
-- 
2.43.0


From 50b9adca0c9566e1aeb24559c4367fa09cc8f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 006/122] fix: a grid can be copied with a different number of
 properties

---
 simim/map/gridder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 155b378..e50d376 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -480,12 +480,15 @@ class Grid():
             The number of properties to include in the new grid
 
         """
+        # Units only carry over if there is one for each property of the copy
+        gridunits = np.copy(self.gridunits) if len(self.gridunits) == n_properties else None
+
         grid_copy = Grid(n_properties=n_properties,
                           center_point=np.copy(self.center_point),
                           side_length=np.copy(self.side_length),
                           pixel_size=np.copy(self.pixel_size),
                           axunits=np.copy(self.axunits),
-                          gridunits=np.copy(self.gridunits))
+                          gridunits=gridunits)
         
         return grid_copy
 
@@ -504,6 +507,8 @@ class Grid():
         n_properties = len(properties)
 
         grid_copy = self.copy_axes(n_properties)
+        if len(self.gridunits) == self.n_properties:
+            grid_copy.gridunits = np.copy(self.gridunits[properties])
         
         if self.grid_active:
             grid_copy.grid = np.copy(self.grid[...,tuple(properties)])
-- 
2.43.0


From 64f33b4c54028eec9530428633f9276a95291f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 007/122] fix: Grid.add_from_cat pairs value columns with the
 chosen properties and accepts empty and integer catalogs

---
 simim/map/gridder.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index e50d376..79727f6 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -620,17 +620,15 @@ class Grid():
         
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                positions = positions.reshape((positions.shape[0],1))
-
-                if new_props:
-                    new_n_properties = values.shape[1]
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[new_n_properties])))
-                    self.add_new_prop(new_grid)
+            if new_props:
+                values = np.array([] if values is None else values)
+                new_n_properties = values.shape[1] if values.ndim > 1 else 1
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[new_n_properties])))
+                self.add_new_prop(new_grid)
 
         # Otherwise make sure the positions array is in the right shape and matches the shape of the grid
         else:
-            positions = np.array(positions,ndmin=1,copy=True)
+            positions = np.array(positions,ndmin=1,copy=True,dtype=float)
             if positions.shape[0] > 0:
                 if positions.shape[1] !=self.n_dimensions:
                     raise ValueError('positions (dim={}) does not have the right number of dimensions for the grid (dim={})'.format(positions.shape[1],self.n_dimensions))
@@ -666,11 +664,11 @@ class Grid():
                 if values.shape[1] != len(properties) and values.shape[1] != 1:
                     raise ValueError("Values array does not contain the correct number of properties.")
 
-                for ip in properties:
+                for i,ip in enumerate(properties):
                     if values.shape[1] == 1:
                         v = values.flatten()
                     else:
-                        v = values[:,ip]
+                        v = values[:,i]
                     np.add.at(self.grid,positions+(ip,),v)
 
             # Count the number of objects
-- 
2.43.0


From 711185711b8045d76272f6f48803f07e13d580a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 008/122] fix: Grid.sample accepts integer and empty position
 lists

---
 simim/map/gridder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 79727f6..4a532a5 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1031,7 +1031,9 @@ class Grid():
         properties = tuple(properties)
 
         # Make sure the positions array is in the right shape and matches the dimensions of the grid
-        positions = np.array(positions,ndmin=1,copy=True)
+        positions = np.array(positions,ndmin=1,copy=True,dtype=float)
+        if positions.shape[0] == 0:
+            positions = positions.reshape((0,self.n_dimensions))
         if positions.shape[0] > 0:
             if positions.shape[1] != self.n_dimensions:
                 raise ValueError('positions (dim={}) does not have the right number of dimensions for the grid (dim={})'.format(positions.shape[1],self.n_dimensions))
-- 
2.43.0


From 02e7003eafacc2a1f4070720688fa0b26ccb352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 009/122] fix: adding spectra of an empty catalog as a new
 property adds an empty property

---
 simim/map/gridder.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 4a532a5..9869873 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -717,10 +717,9 @@ class Grid():
 
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                if new_prop:
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.add_new_prop(new_grid)
+            if new_prop:
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
+                self.add_new_prop(new_grid)
             
             return
 
@@ -880,10 +879,9 @@ class Grid():
 
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                if new_prop:
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.new_prop(new_grid)
+            if new_prop:
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
+                self.add_new_prop(new_grid)
             
             return
 
-- 
2.43.0


From 769624b67c73062b2b7b7a37caa5389993b10607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 010/122] fix: new grid properties get an entry in the grid
 units, so such grids can be copied, saved and reloaded

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 9869873..053e5e3 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -579,6 +579,7 @@ class Grid():
 
             self.grid = np.concatenate((self.grid,value),axis=-1)
             self.n_properties += value.shape[-1]
+            self.gridunits = np.append(self.gridunits,[None for i in range(value.shape[-1])])
 
         # Different behavior if grid isn't activated yet
         if not self.grid_active:
@@ -586,6 +587,7 @@ class Grid():
                 raise ValueError("data array for this Grid has not been initialized, cannot add new values in property array -- use add_new_prop(value=None) to add an empty new property without initializing grid")
             else:
                 self.n_properties += 1
+                self.gridunits = np.append(self.gridunits,[None])
 
 
 
-- 
2.43.0


From ea88b08c9bcb08f3590f69ca7f8553408a2baf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 011/122] fix: Grid.down_sample works: integer factors paired
 with axes, tuple indexing, axis lengths

---
 simim/map/gridder.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 053e5e3..d2e9b6a 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1183,7 +1183,7 @@ class Grid():
         
         factor = np.array(factor,ndmin=1).astype(int)
         if len(factor) == 1:
-            factor = np.ones(len(ax))*factor[0]
+            factor = np.ones(len(ax),dtype=int)*factor[0]
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
@@ -1199,17 +1199,17 @@ class Grid():
         else:
             raise ValueError("mode not recognized - must be 'average' or 'sum'.")
 
-        for axi in ax:
+        for axi,fac in zip(ax,factor):
             shape = np.concatenate((self.n_pixels,[self.n_properties]))
-            shape[axi] = shape[axi]//factor[axi]
+            shape[axi] = shape[axi]//fac
 
             # Downsample
-            new_ax_centers = np.zeros(self.axes_centers[axi].shape)
-            new_grid = np.zeros(shape)
+            new_ax_centers = np.zeros(shape[axi])
+            new_grid = np.zeros(shape,dtype=self.grid.dtype if self.grid_active else float)
             for i in range(shape[axi]):
-                slice_ax = slice(i*factor[axi],(i+1)*factor[axi])
-                slices = [slice(0,None) if j!=axi else slice_ax for j in range(self.n_dimensions+1)]
-                slices_new = [slice(0,None) if j!=axi else i for j in range(self.n_dimensions+1)]
+                slice_ax = slice(i*fac,(i+1)*fac)
+                slices = tuple(slice(0,None) if j!=axi else slice_ax for j in range(self.n_dimensions+1))
+                slices_new = tuple(slice(0,None) if j!=axi else i for j in range(self.n_dimensions+1))
 
                 if self.grid_active:
                     new_grid[slices_new] = use_function(self.grid[slices],axis=axi)
@@ -1219,9 +1219,9 @@ class Grid():
             if self.grid_active:
                 self.grid = new_grid
             self.axes_centers[axi] = new_ax_centers
-            self.axes[axi] = np.concatenate((new_ax_centers-(factor[axi]*self.pixel_size[axi])/2, [new_ax_centers[-1]+(factor[axi]*self.pixel_size[axi])/2]))
-            self.pixel_size[axi] = self.pixel_size[axi]*factor[axi]
-            self.n_pixels[axi] = self.n_pixels[axi]//factor[axi]
+            self.axes[axi] = np.concatenate((new_ax_centers-(fac*self.pixel_size[axi])/2, [new_ax_centers[-1]+(fac*self.pixel_size[axi])/2]))
+            self.pixel_size[axi] = self.pixel_size[axi]*fac
+            self.n_pixels[axi] = self.n_pixels[axi]//fac
             self.side_length[axi] = np.ptp(self.axes[axi])
             self.center_point[axi] = np.min(self.axes[axi]) + self.side_length[axi]/2
             self.fourier_axes_centers[axi] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[axi],self.pixel_size[axi]))
-- 
2.43.0


From 5982f99e78dcb8ff24d96f1442dcacbb4266cdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 012/122] fix: Grid.collapse_dimension handles several axes,
 weights per property, and leaves the weights list alone

---
 simim/map/gridder.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index d2e9b6a..d61707d 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1275,6 +1275,7 @@ class Grid():
             weights = [np.ones(len(self.axes_centers[i])) for i in ax]
         elif len(ax) == 1:
             weights = [weights]
+        weights = list(weights) # Don't alter the list we were given
 
         if len(weights) != len(ax):
             raise ValueError("Must provide a weights array for each axis to collapse")
@@ -1295,26 +1296,25 @@ class Grid():
                 elif weights[i].ndim == self.n_dimensions+1:
                     if weights[i].shape != self.grid.shape:
                         raise ValueError("Weights must match shape of grid")
-                    weights[i] = np.expand_dims(weights[i],-1)
                 else:
                     raise ValueError("Weights for axis {} must match size of grid. {} // {}".format(ax[i],len(weights[i]),len(self.axes_centers[ax[i]])))
         
+        # All axes are collapsed at once, so that their indices stay valid
+        collapse_ax = tuple(int(i) for i in ax)
+        total_weights = 1
+        for w in weights:
+            total_weights = total_weights * w
+
         if mode=='sum':
-            norm = [1 for i in ax]
+            norm = 1
         elif mode=='average':
-            norm = []
-            for i in range(len(ax)):
-                if weights[i].ndim == 1:
-                    norm.append(np.sum(weights[i]))
-                else:
-                    norm.append(np.sum(weights[i],axis=ax[i]))
+            norm = np.sum(total_weights,axis=collapse_ax)
         else:
             raise ValueError("mode not recognized - options are 'sum','average'")
 
         # Do the dang thing
         if in_place:
-            for i in range(len(ax)):
-                self.grid = np.sum(self.grid*weights[i],axis=ax[i]) / norm[i]
+            self.grid = np.sum(self.grid*total_weights,axis=collapse_ax) / norm
 
             # Update grid
             self.n_pixels = self.n_pixels[ax_keep]
@@ -1337,8 +1337,7 @@ class Grid():
         else:
             newgrid = self.copy()
 
-            for i in range(len(ax)):
-                newgrid.grid = np.sum(newgrid.grid*weights[i],axis=ax[i]) / norm[i]
+            newgrid.grid = np.sum(newgrid.grid*total_weights,axis=collapse_ax) / norm
 
             # Update grid
             newgrid.n_pixels = self.n_pixels[ax_keep]
-- 
2.43.0


From 9371002d5fdbb5ba74f997373dbec13227736183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 013/122] fix: a cross power spectrum knows how many properties
 it has

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index d61707d..b9ca71b 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1548,7 +1548,7 @@ class Grid():
         # spectrum and return it, plus invert the fourier transforms
         # to the original grid
         else:
-            powspec = Grid(self.n_properties,self.center_point,self.side_length,self.pixel_size,self.axunits,self.gridunits)
+            powspec = self.copy_axes(self.n_properties if cross_grid is None else max(self.n_properties,cross_grid.n_properties))
 
             # TO DO!! Tidy up the units
             # for i in range(len(powspec.gridunits)):
-- 
2.43.0


From 9e77fdc46e37b4c595232887655e7ec24483c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 014/122] fix: Grid.spherical_average fills the outermost shell
 and accepts fractional weights

---
 simim/map/gridder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index b9ca71b..48cf0d4 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1734,7 +1734,7 @@ class Grid():
         # Determine the correct bin for each cell - digitize data into shells
         # and then get indices of dimensions that aren't being flattened
         bins_for_cells = np.digitize(rad,shells) - 1
-        good_inds = np.nonzero((bins_for_cells>-1) & (bins_for_cells<len(shells)-2))
+        good_inds = np.nonzero((bins_for_cells>-1) & (bins_for_cells<len(shells)-1))
         coords_for_cells = np.indices(self.grid.shape)
         coords_for_cells = [bins_for_cells] + \
                            [coords_for_cells[i_ax].flatten() for i_ax in range(self.n_dimensions) if keep_axes[i_ax]] + \
@@ -1755,7 +1755,7 @@ class Grid():
         binned_averages = np.zeros(binned_shape,dtype=dtype_data)
         np.add.at(binned_averages,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(self.grid*weights).flatten()[good_inds].reshape(-1,1))
 
-        binned_weights = np.zeros(binned_shape,dtype=int)
+        binned_weights = np.zeros(binned_shape,dtype=float)
         np.add.at(binned_weights,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(np.ones(self.grid.shape)*weights).flatten()[good_inds].reshape(-1,1))
 
         binned_averages /= binned_weights
@@ -1768,7 +1768,7 @@ class Grid():
         # Compute standard deviation if requested
         if return_std:
 
-            good_inds_grid = np.nonzero((bins_for_cells.reshape(self.grid.shape)>-1) & (bins_for_cells.reshape(self.grid.shape)<len(shells)-2))
+            good_inds_grid = np.nonzero((bins_for_cells.reshape(self.grid.shape)>-1) & (bins_for_cells.reshape(self.grid.shape)<len(shells)-1))
             means = binned_averages[tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1))].flatten()
             std_vals = np.copy(self.grid)
             std_vals[good_inds_grid] = std_vals[good_inds_grid] - means
@@ -1780,7 +1780,7 @@ class Grid():
             if biased_std:
                 binned_std = np.sqrt(binned_std/binned_weights)
             else:
-                binned_weights2 = np.zeros(binned_shape,dtype=int)
+                binned_weights2 = np.zeros(binned_shape,dtype=float)
                 np.add.at(binned_weights2,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(np.ones(self.grid.shape)*weights**2).flatten()[good_inds].reshape(-1,1))
 
                 binned_std = np.sqrt(binned_std/(binned_weights-binned_weights2/binned_weights))
-- 
2.43.0


From 57f498485e525b42cb40bfb76f6df53b08501008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 015/122] fix: Grid.spherical_average works on a grid that was
 transformed to Fourier space and back

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 48cf0d4..7e7b8e3 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1742,7 +1742,7 @@ class Grid():
         coords_for_cells = np.array(coords_for_cells).T[good_inds] # This is now an n_cells x n_dimensions (of binned data) array
 
         # Bin the data
-        if axfourier and not self.is_power_spectrum:
+        if (axfourier and not self.is_power_spectrum) or np.iscomplexobj(self.grid):
             dtype_data = complex
         else:
             dtype_data = float
-- 
2.43.0


From 325e04f02beaa898724ebc76cc798ea6f74aff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 016/122] fix: the spectral axis of a SpectralPSF holds cell
 edges like every other axis

---
 simim/map/gridder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 7e7b8e3..d947ff9 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2297,7 +2297,6 @@ class SpectralPSF(Grid):
         pixel_size = np.concatenate((pixel_size,[np.abs(spec_axis[1]-spec_axis[0])]))
 
         super().__init__(n_properties,center_point,side_length,pixel_size,axunits,gridunits=None)
-        self.axes[-1] = spec_axis
 
         # Make the grid
         sig = self.fwhm0 / (2*np.sqrt(2*np.log(2)))
-- 
2.43.0


From 30e8556cae75f09b4b860c56d2a319c112e752be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 017/122] fix: Grid.save checks the file it writes, loaded
 grids have plain counts and flags

---
 simim/map/gridder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index d947ff9..9ede694 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -541,6 +541,10 @@ class Grid():
         else:
             savefunc = np.savez
 
+        # numpy adds the extension if it isn't there
+        if not str(path).endswith('.npz'):
+            path = str(path)+'.npz'
+
         if os.path.exists(path) and not overwrite:
             raise ValueError("The file you are trying to create already exists")
 
@@ -2118,7 +2122,7 @@ class LoadGrid(Grid):
 
         input = np.load(path,allow_pickle=True)
 
-        super().__init__(n_properties=input['n_properties'],
+        super().__init__(n_properties=int(input['n_properties']),
                          center_point=input['center_point'],
                          side_length=input['side_length'],
                          pixel_size=input['pixel_size'],
@@ -2128,9 +2132,9 @@ class LoadGrid(Grid):
         if input['grid_active']:
             self.grid_active = True
             self.grid = input['grid']
-            self.n_objects = input['n_objects']
+        self.n_objects = int(input['n_objects'])
         self.fourier_space = input['fourier_space']
-        self.is_power_spectrum = input['is_power_spectrum']
+        self.is_power_spectrum = bool(input['is_power_spectrum'])
 
 
 def gridder_function(positions, values = None, center_point = None, side_length = None, pixel_size = 1, setndims = None):
-- 
2.43.0


From 02b32ed4dd2600349ab93cc4c93e18861f76d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 018/122] fix: GridFromAxes has one cell per interval of the
 axes given, whatever their rounding

---
 simim/map/gridder.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 9ede694..db75641 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2375,14 +2375,6 @@ class GridFromAxes(Grid):
 
         super().__init__(n_properties,center_point,side_length,pixel_size,axunits,gridunits)
 
-        n_pixels_decimal = self.side_length/self.pixel_size
-        n_pixels_ceil = np.ceil(n_pixels_decimal)
-        if np.any(n_pixels_decimal != n_pixels_ceil):
-            self.side_length = self.pixel_size * n_pixels_ceil
-            if (not side_length is None) and (not center_point is None):
-                warnings.warn("Side lengths increased to accomodate integer number of pixels")
-        self.n_pixels = n_pixels_ceil.astype('int')
-
 class GridFromAxesAndFunction(GridFromAxes):
     def __init__(self,function,*axes,function_kwargs={},n_properties=1,axunits=None,gridunits=None):
         """Initialize a Grid from a set of axes and populate it using a function
-- 
2.43.0


From 64c9a87e70abb267a6661d968907fd14487b1a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 019/122] fix: a Gridder fit to its positions contains all of
 them

---
 simim/map/gridder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index db75641..44abf0d 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2097,6 +2097,7 @@ class Gridder(Grid):
         # Handle side_length inputs:
         if side_length is None:
             side_length = ptps * 1.0000001 # Expand slightly so both extrema get gridded
+            side_length = (np.floor(side_length/pixel_size) + 1) * pixel_size # and to a full number of pixels
             side_length[ptps==0] = 1 # In case dimension is flat
         else:
             side_length = np.array(side_length,ndmin=1,copy=True)
-- 
2.43.0


From 9b7511a8d664c8d106d12a0a4a70048915acb981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 020/122] fix: changed axis units are not cut to the length of
 the old ones, also for a unit given once

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 44abf0d..5dd688d 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -157,7 +157,7 @@ class Grid():
         else:
             self.axunits = np.array(axunits,ndmin=1,copy=True,dtype=object)
             if len(self.axunits) == 1:
-                self.axunits = np.array([self.axunits[0] for i in range(self.n_dimensions)])
+                self.axunits = np.array([self.axunits[0] for i in range(self.n_dimensions)],dtype=object)
             if len(self.axunits) != self.n_dimensions:
                 raise ValueError("axunits don't match data dimensionality")
             self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],ndmin=1,dtype=object)
-- 
2.43.0


From cb40f356128dd71f4a1f7a6ea777188dad0bea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 021/122] fix: a power spectrum over some axes only marks those
 axes as being in Fourier space

---
 simim/map/gridder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 5dd688d..a347d02 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1574,7 +1574,6 @@ class Grid():
             powspec.is_power_spectrum = True
             powspec.n_objects = self.n_objects
             powspec.fourier_space = np.copy(self.fourier_space)
-            powspec.fourier_space[:] = True
 
             # Invert fourier transforms
             if not cross_grid is None:
-- 
2.43.0


From b6a033bab94c1b55276e83e1866ff9aab5137dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 022/122] fix: a new grid of summed properties stays in the
 space of the grid it came from

---
 simim/map/gridder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index a347d02..41a2843 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -992,6 +992,9 @@ class Grid():
             new_grid = self.copy_axes(n_properties=1)
             new_grid.init_grid()
             new_grid.grid = sum_grid
+            new_grid.n_objects = self.n_objects
+            new_grid.fourier_space = np.copy(self.fourier_space)
+            new_grid.is_power_spectrum = self.is_power_spectrum
 
             return new_grid
 
-- 
2.43.0


From 789937a6291477310d8c97b4bd5cad48f0c3b88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 023/122] fix: Grid.convolve accepts one padding per axis as a
 list

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 41a2843..b92af83 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1143,6 +1143,8 @@ class Grid():
             pad = np.array([pad for i in range(len(ax))]).astype(int)
         elif pad is None:
             pad = np.array([0 for i in range(len(ax))]).astype(int)
+        else:
+            pad = np.array(pad).astype(int)
 
         # Do the dang thing
         if in_place:
-- 
2.43.0


From b4d4471d2b0a34631471edc601ec9b3638a57249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 024/122] fix: Instrument.add_field checks the property index
 against the number of properties

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 29b5777..9d275f5 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -672,7 +672,7 @@ class Instrument:
 
         if field_property_idx is None:
             field_property_idx = 0
-        if field_property_idx > grid.n_dimensions-1 or field_property_idx < 0:
+        if field_property_idx > grid.n_properties-1 or field_property_idx < 0:
             raise ValueError(f"grid does not have property {field_property_idx}")
         if _check:
             _check_grid_detector_compatibility(self,grid,field_property_idx)
-- 
2.43.0


From 674e42a2e01059e517c95625a419d0f2a764bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 025/122] fix: the flux unit of a field is that of the property
 to be observed

---
 simim/instrument/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/_helpers.py b/simim/instrument/_helpers.py
index a35f977..3cca116 100644
--- a/simim/instrument/_helpers.py
+++ b/simim/instrument/_helpers.py
@@ -89,7 +89,7 @@ def _check_grid_detector_compatibility(detector,grid,field_property_idx):
         warnings.warn("Detector unit for flux not specified. Assuming it matches grid unit")
     else:
         try: 
-            _check_unit(grid.gridunits,'flux')
+            _check_unit(grid.gridunits[field_property_idx],'flux')
         except:
             raise ValueError("grid flux unit not recognized")
         if grid.gridunits[field_property_idx] != detector.flux_unit:
-- 
2.43.0


From 2732f7e90709e6a3e41b18bba5e6453f9e752f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 026/122] fix: Instrument.map_fields maps the field's own
 property, also of grids with several

---
 simim/instrument/instrument.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 9d275f5..0cbcbfb 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -794,7 +794,7 @@ class Instrument:
         side_length = [kernel_size[0]*field.pixel_size[0],kernel_size[1]*field.pixel_size[1],field.side_length[2]]
 
         # Evaluate beam response over kernel axes
-        beam = Grid(n_properties=1,center_point=center,side_length=side_length,pixel_size=field.pixel_size,axunits=field.axunits,gridunits=field.gridunits)
+        beam = Grid(n_properties=1,center_point=center,side_length=side_length,pixel_size=field.pixel_size,axunits=field.axunits)
         beam.init_grid()
 
         shape = beam.grid.shape
@@ -888,13 +888,14 @@ class Instrument:
                     spectral_response = self.detectors[d].spectral_response(conv_field.axes_centers[2],**self.detectors[d].spectral_kwargs)
                     detector_map = conv_field.collapse_dimension(ax=2,in_place=False,weights=spectral_response,mode='average')
                     idx = self.detector_names.index(d)
-                    all_detector_maps[idx] = detector_map.grid
+                    all_detector_maps[idx] = detector_map.grid[:,:,self.field_props[f]]
 
-            all_detector_maps = np.stack(all_detector_maps,axis=2)[:,:,:,0] # Couldn't figure out why stacking was adding another dim, indexing is a hacky fix
+            all_detector_maps = np.stack(all_detector_maps,axis=2)
 
             # Hijack last 2d grid and turn it into a grid with each map as a property
             detector_map.grid = all_detector_maps
             detector_map.n_properties = len(self.detector_names)
+            detector_map.gridunits = np.array([field.gridunits[self.field_props[f]] for d in self.detector_names])
 
             # Save the result
             self.maps[f] = detector_map
-- 
2.43.0


From 5b17828e26bc5304abaee6469cfb860b875822bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 027/122] fix: Instrument.map_fields accepts kernel_size as a
 number of pixels per side

---
 simim/instrument/instrument.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 0cbcbfb..169462d 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -784,7 +784,9 @@ class Instrument:
 
         if kernel_size is None:
             kernel_size = np.round(self.best_spatial_res / field.pixel_size[:2]).astype(int) * 10 + 1
-        
+        elif np.ndim(kernel_size) == 0:
+            kernel_size = [kernel_size, kernel_size]
+
         # Check that the value of norm is recognized
         if spatial_response_norm not in ['peak','area','none']:
             raise ValueError("spatial_response_norm must be one of 'peak', 'area', 'none'")
-- 
2.43.0


From 3a434b26e2ca8e34df58144442678e469e52d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 028/122] fix: Instrument.del_fields forgets the map state of a
 field that was never mapped

---
 simim/instrument/instrument.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 169462d..df5b68b 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -720,9 +720,8 @@ class Instrument:
             self.field_props.pop(f)
             self.field_names.remove(f)
 
-            if f in self.maps:
-                self.maps.pop(f)
-                self.maps_consistent.pop(f)
+            self.maps.pop(f, None)
+            self.maps_consistent.pop(f, None)
 
 
     def _find_spatial_clones(self) -> list:
-- 
2.43.0


From d28cb45ada38ea0e8eaa4d9b396b62b4826c1110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 029/122] fix: a deleted property leaves every listing of the
 handler

---
 simim/_handlers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 2bd3339..f0b9c7c 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -408,7 +408,9 @@ class Handler():
                 else:
                     del file[self.groupname][property_name]
 
-                    self.properties_saved = [key for key in file[self.groupname].keys()]
+                    self.properties_saved = [key for key in file[self.groupname].keys() if key not in ['mass_cuts']]
+                    self.properties_loaded.pop(property_name,None)
+                    self.properties_generated = [i for i in self.properties_generated if i != property_name]
                     properties_all_new = []
                     for i in self.properties_all:
                         if i != property_name:
-- 
2.43.0


From e5798489fbffabe7604d4a9cba6a6b5e6037f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 030/122] fix: unloading forgets properties that were only in
 memory, and brings back the stored units of the others

---
 simim/_handlers.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index f0b9c7c..dfddce6 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -164,6 +164,7 @@ class Handler():
                     property_value = property_value.flatten()
 
             self.properties_loaded[property_name] = property_value
+            self._restore_units(property_name)
 
     def unload_property(self, *property_names):
         """Remove a property from memory (does not erase from file on disk)
@@ -184,6 +185,23 @@ class Handler():
 
             self.properties_loaded.pop(property_name, None)
 
+            if property_name in self.properties_saved:
+                self._restore_units(property_name)
+            elif property_name in self.properties_all:
+                # It existed only in memory, nothing is left to return
+                self.properties_all = [i for i in self.properties_all if i != property_name]
+                self.properties_generated = [i for i in self.properties_generated if i != property_name]
+                self.properties_units.pop(property_name,None)
+                self.properties_h_dependence.pop(property_name,None)
+
+    def _restore_units(self, property_name):
+        """Go back to the units of the values on disk (those in memory may have
+        been overwritten with a property in other units)"""
+
+        with h5py.File(self.path,'r') as file:
+            self.properties_units[property_name] = file[self.groupname][property_name].attrs['units']
+            self.properties_h_dependence[property_name] = file[self.groupname][property_name].attrs['h dependence']
+
     def return_property(self, property_name, use_all_inds=False, in_h_units=None):
         """Load a property from file and return
 
-- 
2.43.0


From cda595eb6f1faf865db98cf631ad0985071bc396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 031/122] fix: integer and boolean properties can be made, and
 a property set is made as a whole or not at all

---
 simim/_handlers.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index dfddce6..4d507f7 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -337,15 +337,22 @@ class Handler():
         # Evaluate property and put into memory
         all_values = property.evaluate_all(self, kw_remap=kw_remap, use_all_inds=use_all_inds, kw_arguments=other_kws)
 
+        all_prop_values = []
+        for i in range(property.n_props):
+            dtype = all_values[i].dtype
+            if len(inds) < self.nhalos_all:
+                dtype = np.result_type(dtype,np.float32) # Inactive halos need a type that has nan
+            prop_values = np.empty(self.nhalos_all,dtype=dtype)
+            if len(inds) < self.nhalos_all:
+                prop_values[:] = np.nan
+            prop_values[inds] = all_values[i]
+            all_prop_values.append(prop_values)
+
         for i in range(property.n_props):
             name = property.names[i]
             newname = names[i]
 
-            prop_values = np.empty(self.nhalos_all,dtype=all_values[i].dtype)
-            prop_values[:] = np.nan
-            prop_values[inds] = all_values[i]
-
-            self.properties_loaded[newname] = prop_values
+            self.properties_loaded[newname] = all_prop_values[i]
             self.properties_units[newname] = property.units[name]
             self.properties_h_dependence[newname] = property.h_dependence[name]
             if not overwrite_names[i]:
-- 
2.43.0


From a3e85d97153bce01dafe4ed498a83193903932d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 032/122] fix: overwriting a property on disk keeps the type of
 the new values

---
 simim/_handlers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 4d507f7..e992069 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -398,6 +398,11 @@ class Handler():
                     raise ValueError("Property {} already exists".format(property_name))
 
             with h5py.File(self.path,'a') as file:
+                if property_name in file[self.groupname].keys():
+                    # Values of another type wouldn't survive in the existing dataset
+                    if file[self.groupname][property_name].dtype != np.dtype(property_value.dtype if dtype is None else dtype):
+                        del file[self.groupname][property_name]
+
                 if not property_name in file[self.groupname].keys():
                     file[self.groupname].create_dataset(property_name,data=property_value,dtype=dtype)
                 else:
-- 
2.43.0


From 074e5d705ad0fd93605692f783227f0b1ff0ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 033/122] fix: Handler.extract_keys hands out its own lists no
 more

---
 simim/_handlers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index e992069..3fa08b2 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -91,13 +91,13 @@ class Handler():
         """
 
         if set == 'any':
-            return self.properties_all
+            return [k for k in self.properties_all]
         elif set == 'loaded':
             return [k for k in self.properties_loaded.keys()]
         elif set == 'saved':
-            return self.properties_saved
+            return [k for k in self.properties_saved]
         elif set == 'generated':
-            return self.properties_generated
+            return [k for k in self.properties_generated]
         else:
             raise ValueError("set not recognized")
 
-- 
2.43.0


From 19fc63e5806da4855fa6787c9cb333704184031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 034/122] fix: MultiProp takes an h dependence per property

---
 simim/galprops/galprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index f4c950d..043ba55 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -65,7 +65,7 @@ class MultiProp():
         if len(h_dependence)==1:
             self.h_dependence = {key:h_dependence[0] for key in self.names}
         elif len(h_dependence)==len(self.names):
-            self.units = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
+            self.h_dependence = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
         else:
             raise ValueError("h_dependence shape not compatible with prop_names shape")
 
-- 
2.43.0


From 5fb1a69dd3b792d98505a9ab853b4dde9618fe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 035/122] fix: evaluating a property passes on the additional
 keyword arguments

---
 simim/galprops/galprops.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 043ba55..22bd2d4 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -136,7 +136,7 @@ class MultiProp():
     def evaluate(self,target,use_all_inds=False,kw_remap={},kw_arguments={}):
         """See evaluate_all - identical functionality. This
         is just a wrapper to match the prop subclass"""
-        return self.evaluate_all(target,use_all_inds,kw_remap)
+        return self.evaluate_all(target,use_all_inds,kw_remap,kw_arguments)
 
 # Function should return an array of length n, where n is the number
 # of objects it is evaluated over, or should be of shape n x m
@@ -188,7 +188,7 @@ class Prop(MultiProp):
         self.unit = units
         self.h_dep = h_dependence
 
-    def evaluate(self,target,use_all_inds=False,kw_remap={}):
+    def evaluate(self,target,use_all_inds=False,kw_remap={},kw_arguments={}):
         """Apply the property to a target object.
 
         Parameters
@@ -204,6 +204,9 @@ class Prop(MultiProp):
             has kwarg 'x' it will be evaluated on lightcone property 'x', but
             passing the dictionary {'x':'y'} will result in lightcone the
             function being evaluated on lightcone property 'y'.
+        kw_arguments : dict, optional
+            A list of additional keyword arguments to be passed to the property
+            function call
 
         Returns
         -------
@@ -213,7 +216,8 @@ class Prop(MultiProp):
 
         vals = super().evaluate_all(target=target,
                                     use_all_inds=use_all_inds,
-                                    kw_remap=kw_remap)
+                                    kw_remap=kw_remap,
+                                    kw_arguments=kw_arguments)
         return vals[0]
 
 
-- 
2.43.0


From e0e79df902737c89f000c61f402af375c0fc85c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 036/122] fix: converting a property set to h units leaves the
 function's own return value alone

---
 simim/galprops/galprops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 22bd2d4..70b360b 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -123,6 +123,7 @@ class MultiProp():
             vals = [vals]
         if len(vals) != len(self.names):
             raise ValueError("prop_function does not return a number of properties matching prop_names")
+        vals = [v for v in vals] # Don't write into the list or array the function returned
 
         # Now, if the function doesn't return in little-h units we need to
         # convert into them
-- 
2.43.0


From 3b169f52224110f064a751e1c9ca7f1de3eb5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 037/122] fix: SimHandler can be opened with its snapshots
 initialized

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 8702687..7fe9fd7 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -256,7 +256,7 @@ class SimHandler():
 
         self.init_snaps = init_snaps
         if self.init_snaps:
-            self.initialize_all_snaps(redo=True)
+            self.initialize_all_snaps(remake=True)
 
     def initialize_all_snaps(self,remake=False):
         """Initialize SnapHandlers for each snapshot
-- 
2.43.0


From 1382ea329fc773159895e9a58f9757f58cf446d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 038/122] fix: SimHandler.get_snap opens snapshots in the unit
 system of the SimHandler

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 7fe9fd7..c53fafe 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -446,7 +446,7 @@ class SimHandler():
         else:
             snap = snap_meta['index']
             redshift = snap_meta['redshift']
-            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h)
+            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h,in_h_units=self.default_in_h_units)
 
     def get_snap_from_z(self,z):
         """Return a SnapHandler instance for the snapshot closest to a requested redshift
-- 
2.43.0


From 2217426f8eff613848e2c98dfe0fe54bb76ead15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 039/122] fix: a minimum mass without little h is multiplied by
 h to compare with masses in Msun/h

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index c53fafe..c5b2b1e 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -413,7 +413,7 @@ class SimHandler():
             if in_h_units:
                 mass_check = mass
             else:
-                mass_check = mass / self.h
+                mass_check = mass * self.h
             vals = mass_cuts['min_mass'] - mass_check
             vals = vals[vals>0]
             if len(vals) < 1:
-- 
2.43.0


From d3528d1c849f06194d9e5993f041894b9df7fe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 040/122] fix: the index of a mass below the lowest tabulated
 one includes every object

---
 simim/siminterface/simhandler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index c5b2b1e..fdf3ff5 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -416,10 +416,9 @@ class SimHandler():
                 mass_check = mass * self.h
             vals = mass_cuts['min_mass'] - mass_check
             vals = vals[vals>0]
-            if len(vals) < 1:
-                index = 0
-            elif len(vals) == len(mass_cuts):
-                index = mass_cuts['index'][-1]
+            if len(vals) == len(mass_cuts):
+                # Below the lowest tabulated mass, take everything
+                index = file["Snapshot {}".format(snap)]['mass'].shape[0]
             else:
                 index = mass_cuts['index'][len(vals)]
 
-- 
2.43.0


From 51ff7dae2390b13f15971910a93a83771c7a071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 041/122] fix: SimHandler.number_volumes returns how often the
 volume fits in the box, not the inverse

---
 simim/siminterface/simhandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index fdf3ff5..c7af3e9 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -322,9 +322,9 @@ class SimHandler():
             in_h_units = self.default_in_h_units
 
         if in_h_units:
-            return volume / self.box_edge_h**3
+            return self.box_edge_h**3 / volume
         else:
-            return volume / self.box_edge_no_h**3
+            return self.box_edge_no_h**3 / volume
 
     def extract_snap_meta(self,snap):
         """Get the meta-data for a snapshot
-- 
2.43.0


From 28822cabb47ffc6660c3bab96fd33b479b7bdce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 042/122] fix: SimHandler.snap_stat takes snapshot numbers, as
 every other method

---
 simim/siminterface/simhandler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index c7af3e9..51b807f 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -658,11 +658,10 @@ class SimHandler():
         redshifts = []
 
         if snaps is None:
-            snaps = np.arange(len(self.snap_meta))
-        for i in snaps:
-            snap = self.snap_meta['index'][i]
+            snaps = self.snap_meta['index']
+        for snap in snaps:
             print("\033[1m"+"Collecting sources from Snapshot {}.  ".format(snap)+"\033[0m",end='\r')
-            redshifts.append(self.snap_meta['redshift'][i])
+            redshifts.append(self.extract_snap_meta(snap)['redshift'])
 
             handler = self.get_snap(snap)
             vals.append(handler.eval_stat(stat_function,kwargs,kw_remap,other_kws=other_kws,use_all_inds=use_all_inds,give_args_in_h_units=give_args_in_h_units))
-- 
2.43.0


From acccae3be0547cda247ab8f2b664b3a37c063cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 043/122] fix: SimHandler.z_to_snap finds the snapshot of the
 highest redshift

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 51b807f..95f8f6f 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -362,7 +362,7 @@ class SimHandler():
 
         if z > np.amax(self.z_bins) or z < 0:
             raise ValueError("z out of range")
-        bin = np.digitize(z,self.z_bins)-1
+        bin = min(np.digitize(z,self.z_bins)-1, len(self.z_bin_snaps)-1) # The highest redshift belongs to the last bin
         bin_id = self.z_bin_snaps[bin]
 
         return bin_id
-- 
2.43.0


From 029d5307292e574d5980b323eeda9cd2eb4defbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 044/122] fix: SimHandler.make_property checks what it may
 overwrite before it changes anything

---
 simim/siminterface/simhandler.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 95f8f6f..d64f84d 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -552,13 +552,6 @@ class SimHandler():
             print("\033[1m"+"Assigning props for Snapshot {}.  ".format(snap)+"\033[0m",end='\r')
             handler = self.get_snap(snap)
 
-            handler.make_property(property=property,
-                                  rename=rename,
-                                  kw_remap=kw_remap,
-                                  other_kws=other_kws,
-                                  overwrite=overwrite,
-                                  use_all_inds=use_all_inds)
-
             if write:
                 if isinstance(rename,str):
                     rename = [rename]
@@ -580,6 +573,14 @@ class SimHandler():
                                 else:
                                     warnings.warn("Property {} already exists, overwriting".format(name))
 
+            handler.make_property(property=property,
+                                  rename=rename,
+                                  kw_remap=kw_remap,
+                                  other_kws=other_kws,
+                                  overwrite=overwrite,
+                                  use_all_inds=use_all_inds)
+
+            if write:
                 handler.write_property(*names,overwrite=overwrite,dtype=writedtype)
                 handler.unload_property(*names)
         print("")
-- 
2.43.0


From 3640c2b96ab8998c7988df9286242dbbc9968eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 045/122] fix: gridding a snapshot or light cone without
 selected objects gives an empty grid

---
 simim/lightcone/lchandler.py     | 2 +-
 simim/siminterface/simhandler.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index ddc9032..780b3ca 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -300,7 +300,7 @@ class LCHandler(Handler):
 
         grid = Gridder(np.array([x, y, z]).T, props,
                        center_point=c, side_length=l,
-                       pixel_size=res)
+                       pixel_size=res, setndims=3)
 
         if norm is None:
             norm = 1        
diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index d64f84d..ea73f1f 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -149,7 +149,7 @@ class SnapHandler(Handler):
 
         grid = Gridder(np.array([x, y, z]).T, props,
                        center_point=c, side_length=l,
-                       pixel_size=res)
+                       pixel_size=res, setndims=3)
 
         if norm is None:
             norm = 1
-- 
2.43.0


From 6243ffb8b64850fa2cbafb9b67cdf4164e76dc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 046/122] fix: cleaning up raw data deletes that data also
 where the path holds spaces

---
 simim/siminterface/_rawsiminterface.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index e7ca882..fb828e9 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 import warnings
 
 from astropy.cosmology import FlatLambdaCDM
@@ -11,6 +12,15 @@ from simim._paths import _SimIMPaths
 from simim.siminterface._sims import _checksim
 
 
+def _remove(path):
+    """Delete a file or a directory with its contents, if it exists"""
+
+    if os.path.isdir(path):
+        shutil.rmtree(path)
+    elif os.path.exists(path):
+        os.remove(path)
+
+
 class Snapshot():
     """Class containing information for individual snapshots
     
@@ -337,7 +347,7 @@ class SimCatalogs():
 
         # Remove stuff
         file_path = os.path.join(self.path,'raw')
-        os.system("rm -r {}".format(file_path))
+        _remove(file_path)
 
     def format(self,remake=False,overwrite=False,basic=False,realtime_clean_raw=False,realtime_clean_raw_check=True):
         """Convert the unformatted simulation data into the uniform format used by 
@@ -577,6 +587,6 @@ class SimCatalogs():
                 rawsnapfiles = self._get_rawsnapfiles(snap)
                 for file in rawsnapfiles:
                     file_path = os.path.join(self.path,'raw',file)
-                    os.system("rm -r {}".format(file_path))
+                    _remove(file_path)
 
 
-- 
2.43.0


From bf4fe449aee650c64acd039324ed964d01aa1ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 047/122] fix: UniverseMachine text catalogs of a single halo
 can be formatted

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index b601357..cdfe23c 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -232,7 +232,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('m','f'),('v','f'),('mp','f'),('vmp','f'),('r','f'),
                                     ('rank1','f'),('rank2','f'),('ra','f'),('rarank','f'),
                                     ('sm','f'),('icl','f'),('sfr','f'),('obs_sm','f'),('obs_sfr','f'),('obs_ssfr','f'),('smhm','f'),('obs_uv','f')])
-        data_raw = np.loadtxt(os.path.join(path,self.web_files[snapshot]), dtype=dtype_raw, comments='#')
+        data_raw = np.loadtxt(os.path.join(path,self.web_files[snapshot]), dtype=dtype_raw, comments='#', ndmin=1)
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-- 
2.43.0


From 254869d6447a41bb48683b16d7936ca519982847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 048/122] fix: positions in UniverseMachine binary catalogs are
 wrapped into the box

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index cdfe23c..9d75d24 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -282,7 +282,7 @@ class UniversemachineCatalogs(SimCatalogs):
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-        subhalos['pos'][:,0:3] % self.box_edge
+        subhalos['pos'][:,0:3] %= self.box_edge
         n_halos = len(data_raw)
 
         return subhalos, n_halos
-- 
2.43.0


From 697bad9df7824873d399f22a5172957f9ca84dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 049/122] fix: star formation rates in UniverseMachine binary
 catalogs are floating point numbers

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 9d75d24..a8bd8ed 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -271,7 +271,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('mp', 'f4'), ('m', 'f4'), ('v', 'f4'), ('r', 'f4'),
                                     ('rank1', 'f4'), ('rank2', 'f4'), ('ra', 'f4'),
                                     ('rarank', 'f4'), ('a_uv', 'f4'), ('sm', 'f4'),
-                                    ('icl', 'f4'), ('sfr', 'i4'), ('obs_sm', 'f4'),
+                                    ('icl', 'f4'), ('sfr', 'f4'), ('obs_sm', 'f4'),
                                     ('obs_sfr', 'f4'), ('obs_uv', 'f4'), ('empty', 'f4')],
                              align=True)
 
-- 
2.43.0


From 209ca1ddd6604f8a767b2614baf81da7d1ed2efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 050/122] fix: the declared unit of UniverseMachine halo radii
 is the one they are converted to

---
 simim/siminterface/universemachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index a8bd8ed..02f6247 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -137,7 +137,7 @@ class UniversemachineCatalogs(SimCatalogs):
             'vmp':[('vmax_peak','f','km/s',0)],
 
             #R: Halo radius (BN98 vir, comoving kpc/h)
-            'r':[('r','f','kpc/h',-1)],
+            'r':[('r','f','Mpc/h',-1)],
 
             #Rank1: halo rank in Delta_vmax (see UniverseMachine paper)
             'rank1':[('Rank1','f','None',0)],
-- 
2.43.0


From 55e6914dc3d7fcd190d88d5baf128e62a34fed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 051/122] fix: Illustris black hole accretion rates are
 converted to the declared unit

---
 simim/siminterface/illustris.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index d37573a..3131042 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -252,10 +252,9 @@ class IllustrisCatalogs(SimCatalogs):
             return x*1e10
         def kpc_to_mpc(x,h):
             return x / 1000
-        def illustris_bhmassunit(x,h):
-            return x * 0.978
+        def illustris_bhmdotunit(x,h):
+            return x * 1e10 / 0.978 # From 1e10 Msun/h / (0.978 Gyr/h)
         self.transform_keys = {'SubhaloBHMass':power_10,
-                               'SubhaloBHMdot':power_10,
                                'SubhaloMass':power_10,
                                'SubhaloMassInHalfRad':power_10,
                                'SubhaloMassInHalfRadType':power_10,
@@ -273,7 +272,7 @@ class IllustrisCatalogs(SimCatalogs):
                                'SubhaloSpin':kpc_to_mpc,
                                'SubhaloStellarPhotometricsRad':kpc_to_mpc,
                                'SubhaloVmaxRad':kpc_to_mpc,
-                               'SubhaloBHMdot':illustris_bhmassunit
+                               'SubhaloBHMdot':illustris_bhmdotunit
                                }
         # self.mass_e8_keys = ['SubhaloBHMass','SubhaloBHMdot','SubhaloMass',
         #                   'SubhaloMassInHalfRad','SubhaloMassInHalfRadType',
-- 
2.43.0


From 8ae22c58e88a2694b93be0a017992aa1c46ee2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 052/122] fix: Illustris star formation rates within one and
 two half mass radii are separate fields

---
 simim/siminterface/illustris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 3131042..8064a5c 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -191,7 +191,7 @@ class IllustrisCatalogs(SimCatalogs):
                             'SubhaloSFRinMaxRad':[('sfr_maxr','f','Msun/yr',0)],
                             # Same as SubhaloSFR, but restricted to cells within
                             # twice the stellar half mass radius.
-                            'SubhaloSFRinHalfRad':[('sfr_2hr','f','Msun/yr',0)],
+                            'SubhaloSFRinRad':[('sfr_2hr','f','Msun/yr',0)],
 
                             # Mass-weighted average metallicity (Mz/Mtot, where
                             # Z = any element above He) of the star particles bound
-- 
2.43.0


From 688d842e8998bac5f4d922d48b2682f3021bbe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 053/122] fix: Illustris snapshots listed in any order keep
 their numbers

---
 simim/siminterface/illustris.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 8064a5c..60a29b2 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -453,8 +453,6 @@ class IllustrisCatalogs(SimCatalogs):
         for i in snap_meta_raw:
             snap_meta_classes.append(Snapshot(i['number'],i['redshift'],self.metadata))
             numbers.append(i['number'])
-        snap_meta_classes = [snap_meta_classes[i] for i in np.argsort(numbers)]
-        
         order = np.argsort(numbers)
         snap_meta_classes = [snap_meta_classes[i] for i in order if numbers[i] in self.snaps]
 
-- 
2.43.0


From 2113ca155ff4d33eb35b95b0bcf9c9d1a70ae724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 054/122] fix: registered paths containing spaces are read back
 whole

---
 simim/_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/_paths.py b/simim/_paths.py
index 1761fe5..9ab055a 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -18,7 +18,7 @@ def _checkload_path_file(path):
     if os.path.exists(path):
         with open(path) as file:
             for line in file.readlines():
-                line_split = line.replace('\n','').split(' ')
+                line_split = line.replace('\n','').split(' ',1)
                 endpoint[line_split[0]] = line_split[1]
     return endpoint
 
-- 
2.43.0


From 602f672ce71859e29b3805f91ddd4aded865bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 055/122] fix: light cones starting or ending exactly at a
 snapshot's boundary can be built

---
 simim/lightcone/lcmaker.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 257055c..a58f537 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -664,7 +664,7 @@ class LCMaker(GenericLCMaker):
                 # Calculate distance to use in box
                 start_distance = np.amax([snap_meta['distance_min'],distance_zmin])
                 end_distance = np.amin([snap_meta['distance_max'],distance_zmax])
-                use_distance = end_distance - start_distance
+                use_distance = np.amax([end_distance - start_distance,0])
 
                 # Load the snapshot data for the basic fields
                 snap_grp = sim_file[snap_name]
@@ -700,6 +700,11 @@ class LCMaker(GenericLCMaker):
                     copies_n3d = int(1)
                     box_size = self.box_edge
 
+                    # A snapshot that only touches the redshift limits holds no halos,
+                    # one (empty) iteration is enough
+                    if use_distance == 0:
+                        iters = 1
+
                     while iters > 25 or iters <= 0:
                         if copies_n < self.copies_max:
                             for dimension_ind in range(3):
-- 
2.43.0


From 9a08deb9eaca38f84c5c546d775e19ec5cb15119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 056/122] fix: light cone mass cut is looked up in Msun/h, as
 it is specified

---
 simim/lightcone/lcmaker.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index a58f537..a5b1ed5 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -188,7 +188,7 @@ class GenericLCMaker():
 
                     # Load the snapshot data for the basic fields
                     snap_grp = sim_file[snap_name]
-                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                     masses = snap_grp['mass'][:mass_index]
                     mass_indices_final = np.where(masses >= self.minimum_mass)[0]
@@ -292,7 +292,7 @@ class GenericLCMaker():
 
                     # Load the snapshot data for the basic fields
                     snap_grp = sim_file[snap_name]
-                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                    mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                     masses = snap_grp['mass'][:mass_index]
                     mass_indices_final = np.where(masses >= self.minimum_mass)[0]
@@ -668,7 +668,7 @@ class LCMaker(GenericLCMaker):
 
                 # Load the snapshot data for the basic fields
                 snap_grp = sim_file[snap_name]
-                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                 masses = snap_grp['mass'][:mass_index]
                 mass_indices_final = np.where(masses >= self.minimum_mass)[0]
@@ -1023,7 +1023,7 @@ class SphereMaker(GenericLCMaker):
 
                 # Load the snapshot data for the basic fields
                 snap_grp = sim_file[snap_name]
-                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'])
+                mass_index = self.sim_handler.get_mass_index(self.minimum_mass,snap_meta['index'],in_h_units=True)
 
                 masses = snap_grp['mass'][:mass_index]
                 mass_indices_final = np.where(masses >= self.minimum_mass)[0]
-- 
2.43.0


From 6c450a3c3fb8902d8459b59814853996f5354f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 057/122] fix: leave halos behind the observer out of light
 cones

---
 simim/lightcone/lcmaker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index a5b1ed5..85f3770 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -759,8 +759,12 @@ class LCMaker(GenericLCMaker):
                         iter_max_distance = start_distance + (iter_ind+1)*use_distance/iters
                         iter_max_distance = np.amin([iter_max_distance,end_distance])
 
+                        # The buffer can reach behind the observer, nothing there is in the cone
+                        los_distances = iter_position[:,0] + start_distance + iter_ind*use_distance/iters - buffer_distance
+
                         indices2 = np.where((candidate_distances < iter_max_distance)
-                                            & (candidate_distances >= iter_min_distance))
+                                            & (candidate_distances >= iter_min_distance)
+                                            & (los_distances > 0))
 
                         selected_indices = np.intersect1d(indices1,indices2)
                         selected_distances = candidate_distances[selected_indices]
-- 
2.43.0


From cde29c467b4b28d10daaad76aec6d68eb074b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 058/122] fix: buffer light cones by enough to keep their edges
 inside the box

---
 simim/lightcone/lcmaker.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 85f3770..9d66d91 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -492,10 +492,12 @@ class LCMaker(GenericLCMaker):
             LOS_unit = LOS_vec/np.linalg.norm(LOS_vec)
 
             # Now test that there's enough room in the box for this thing...
-            angles = np.arctan([LOS_unit[1]/LOS_unit[0], LOS_unit[2]/LOS_unit[0], LOS_unit[2]/LOS_unit[1],
-                                LOS_unit[0]/LOS_unit[1], LOS_unit[0]/LOS_unit[2], LOS_unit[1]/LOS_unit[2]])
+            # The smallest angle between the line of sight and the box faces sets
+            # how far along the line of sight the edge of the cone stays outside
+            # the box; the last term allows for the curvature of the end surface
+            angle = np.arcsin(np.amin(LOS_unit))
 
-            buffer_coef = 1.01 * np.tan(openradius) / np.sin(np.amin(angles)) # 1.01 is just to provide some padding
+            buffer_coef = 1.01 * np.tan(openradius) * (1/np.tan(angle) + np.tan(openradius)) # 1.01 is just to provide some padding
 
             max_distance = np.amax(self.snapshots_use['transverse_distance_max'])
             buffer_distance_max = buffer_coef * max_distance
-- 
2.43.0


From b35d48c7722818ac6c6025a83069a2b6592e7fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 059/122] fix: compare the size of light spheres and of the box
 in the same units

---
 simim/lightcone/lcmaker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 9d66d91..9746461 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -919,11 +919,11 @@ class SphereMaker(GenericLCMaker):
 
         # Check that we haven't requested something too big to fit in the box
         if mode == 'eighth':
-            dmax = self.sim_handler.box_edge_no_h
+            dmax = self.box_edge
         else:
-            dmax = self.sim_handler.box_edge_no_h/2
+            dmax = self.box_edge/2
         if self.assign_D(redshift_max) > dmax:
-            raise ValueError(f"Simulation box (edge={self.sim_handler.box_edge_no_h:.1f}) is not large enough to contain the desired shell (rad={self.assign_D(redshift_max):.1f})")
+            raise ValueError(f"Simulation box (edge={self.box_edge:.1f}) is not large enough to contain the desired shell (rad={self.assign_D(redshift_max):.1f})")
 
         # Figure out the range of snapshots needed
         self.snapshots_use = np.zeros(0,dtype=self.snap_meta.dtype)
-- 
2.43.0


From 1d2357e05149114e3a515ead5661833d83fbd8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 060/122] fix: allow adding properties to empty light cones

---
 simim/lightcone/lcmaker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 9746461..e2c78f7 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -162,7 +162,8 @@ class GenericLCMaker():
                 shape = file['Indexing']['sim_indices'].shape
                 chunks = file['Indexing']['sim_indices'].chunks
                 if shape[0] < chunks[0]:
-                    chunks = shape
+                    # chunks can't be empty, even if the light cone is
+                    chunks = shape if shape[0] > 0 else None
                 for key in keys:
                     file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks)
                     if key == 'masscheck':
@@ -269,7 +270,8 @@ class GenericLCMaker():
                 shape = file['Indexing']['sim_indices'].shape
                 chunks = file['Indexing']['sim_indices'].chunks
                 if shape[0] < chunks[0]:
-                    chunks = shape
+                    # chunks can't be empty, even if the light cone is
+                    chunks = shape if shape[0] > 0 else None
                 for key in keys:
                     for subkey in ['_x','_y','_z']:
                         file['Lightcone Full'].create_dataset(key+subkey,shape=shape,chunks=chunks)
-- 
2.43.0


From 184192ce047b88622410e5c7cf8f58528b1696bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 061/122] fix: store properties added to light cones with the
 precision they have in the simulation

---
 simim/lightcone/lcmaker.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index e2c78f7..c56a557 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -114,6 +114,27 @@ class GenericLCMaker():
         else:
             self.copies_max = 1
 
+    def _get_dtypes(self,*keys):
+        """Look up the data types properties are stored with in the simulation
+
+        Parameters
+        ----------
+        keys : str or strs
+            the fields of interest
+
+        Returns
+        -------
+        dtypes : dict
+            the data type of each field
+        """
+
+        dtypes = {}
+        with h5py.File(os.path.join(self.sim_path,'data.hdf5'),"r") as sim_file:
+            for key in keys:
+                dtypes[key] = np.result_type(*[sim_file['Snapshot {}'.format(snap['index'])][key].dtype for snap in self.snapshots_use])
+
+        return dtypes
+
     def add_properties(self,*keys):
         """Select additional properties to include in the light cone.
         Should not be used for properties with position information (ie
@@ -153,6 +174,11 @@ class GenericLCMaker():
 
         keys = np.sort(new_lc_keys)
 
+        # Store properties with the precision they have in the simulation
+        dtypes = self._get_dtypes(*[key if key != 'masscheck' else 'mass' for key in keys])
+        if 'masscheck' in keys:
+            dtypes['masscheck'] = dtypes['mass']
+
         # Note in LC files that we're adding properties
         for i in range(self.n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
@@ -165,7 +191,7 @@ class GenericLCMaker():
                     # chunks can't be empty, even if the light cone is
                     chunks = shape if shape[0] > 0 else None
                 for key in keys:
-                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks)
+                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks,dtype=dtypes[key])
                     if key == 'masscheck':
                         file['Lightcone Full'][key].attrs['units'] = self.sim_handler.key_units['mass']
                         file['Lightcone Full'][key].attrs['h dependence'] = self.sim_handler.key_h_dependence['mass']
@@ -261,6 +287,9 @@ class GenericLCMaker():
 
         keys = np.sort(new_lc_keys)
 
+        # Store properties with the precision they have in the simulation
+        dtypes = self._get_dtypes(*[key+subkey for key in keys for subkey in ['_x','_y','_z']])
+
         # Note in LC files that we're adding properties
         for i in range(self.n):
             with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
@@ -274,7 +303,7 @@ class GenericLCMaker():
                     chunks = shape if shape[0] > 0 else None
                 for key in keys:
                     for subkey in ['_x','_y','_z']:
-                        file['Lightcone Full'].create_dataset(key+subkey,shape=shape,chunks=chunks)
+                        file['Lightcone Full'].create_dataset(key+subkey,shape=shape,chunks=chunks,dtype=dtypes[key+subkey])
                         file['Lightcone Full'][key+subkey].attrs['units'] = self.sim_handler.key_units[key+subkey]
                         file['Lightcone Full'][key+subkey].attrs['h dependence'] = self.sim_handler.key_h_dependence[key+subkey]
 
-- 
2.43.0


From 2dbf6fdedf422db35d13909c61c01f37cccbadc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 062/122] fix: reflect vectors added to light cones along with
 the positions

---
 simim/lightcone/lcmaker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index c56a557..0c60241 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -353,6 +353,9 @@ class GenericLCMaker():
                             # Trim values to the indices
                             lc_values = values[:,indexing['index']]
 
+                            # Reflect along with the positions
+                            lc_values = lc_values * lc_file.attrs['box flips'][:,np.newaxis]
+
                             # Get the matrices and do transformation
                             los_matrix = lc_file.attrs['line of sight transformation matrix']
                             pa_matrix = lc_file.attrs['position angle transformation matrix']
-- 
2.43.0


From 3fd27a839d17bb740ba6d04e0cf24167b5aa75ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 063/122] fix: allow adding vector properties to light spheres

---
 simim/lightcone/lcmaker.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 0c60241..7e54a26 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -357,16 +357,18 @@ class GenericLCMaker():
                             lc_values = lc_values * lc_file.attrs['box flips'][:,np.newaxis]
 
                             # Get the matrices and do transformation
-                            los_matrix = lc_file.attrs['line of sight transformation matrix']
-                            pa_matrix = lc_file.attrs['position angle transformation matrix']
-                            lc_values = np.matmul(los_matrix,lc_values)
-                            lc_values = np.matmul(pa_matrix,lc_values)
-
+                            # (spheres keep the axes of the box)
+                            if 'line of sight transformation matrix' in lc_file.attrs:
+                                los_matrix = lc_file.attrs['line of sight transformation matrix']
+                                pa_matrix = lc_file.attrs['position angle transformation matrix']
+                                lc_values = np.matmul(los_matrix,lc_values)
+                                lc_values = np.matmul(pa_matrix,lc_values)
+                                lc_values = lc_values[[1,2,0]]
 
                             # Append the data
-                            lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[1]
-                            lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[2]
-                            lc_file['Lightcone Full'][key+'_z'][start:start+len(indexing)] = lc_values[0]
+                            lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[0]
+                            lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[1]
+                            lc_file['Lightcone Full'][key+'_z'][start:start+len(indexing)] = lc_values[2]
 
         # Note in LC files that we're done
         for i in range(self.n):
-- 
2.43.0


From d6ee7c0f1c62863b403c0aafa4944bfb591a8c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 064/122] fix: restore the number of active halos after
 evaluating a statistic in redshift bins

---
 simim/lightcone/lchandler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 780b3ca..e7f40d6 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -214,6 +214,7 @@ class LCHandler(Handler):
 
         # Reset active inds
         self.inds_active = np.copy(inds_active_save)
+        self.nhalos_active = len(self.inds_active)
 
         return redshift_bins, vals
 
-- 
2.43.0


From 8b3ed1a894823730337246bbe30cc0894ef540a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 065/122] fix: keep keywords of a statistic in redshift bins
 from leaking into the caller's dictionary and later calls

---
 simim/lightcone/lchandler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index e7f40d6..08d5d42 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -183,7 +183,10 @@ class LCHandler(Handler):
             give_args_in_h_units = self.default_in_h_units
 
         redshift_bins = np.sort(redshift_bins)
-        
+
+        # Don't add to the caller's dictionary
+        other_kws = dict(other_kws)
+
         inds_active_save = np.copy(self.inds_active)
 
         vals = []
@@ -209,9 +212,6 @@ class LCHandler(Handler):
                                        use_all_inds=False,
                                        give_args_in_h_units=give_args_in_h_units))
 
-            other_kws.pop('zmin',None)
-            other_kws.pop('zmax',None)
-
         # Reset active inds
         self.inds_active = np.copy(inds_active_save)
         self.nhalos_active = len(self.inds_active)
-- 
2.43.0


From f80d3ac1bf2857c30f82d8c4b06bf9a5738ac5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 066/122] fix: compare the diagonal of a box with the diameter
 of a circular light cone

---
 simim/lightcone/lchandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 08d5d42..3994389 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -156,7 +156,7 @@ class LCHandler(Handler):
 
         if shape == 'box' and self.metadata['shape'] == 'circle':
             radius2 = open_angle**2 + (open_angle*aspect_ratio)**2
-            if radius2 > self.metadata['open angle']:
+            if radius2 > self.metadata['open angle']**2:
                 raise ValueError("specified box does not fit in circular lightcone")
 
         # Figure out the volume
-- 
2.43.0


From fc3f728d4205f8014277811b84f1138a3a7901f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 067/122] fix: require circles to fit the shorter side of a
 rectangular light cone

---
 simim/lightcone/lchandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 3994389..c8f1a8a 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -151,7 +151,8 @@ class LCHandler(Handler):
         if shape == self.metadata['shape'] or self.metadata['shape'] == 'box':
             if open_angle > self.metadata['open angle']:
                 raise ValueError("openangle larger than lightcone")
-            if open_angle*aspect_ratio > self.metadata['open angle']*self.metadata['aspect ratio']:
+            short_angle = open_angle*aspect_ratio if shape == 'box' else open_angle
+            if short_angle > self.metadata['open angle']*self.metadata['aspect ratio']:
                 raise ValueError("secondary angle (openangle * aspect) larger than lightcone")
 
         if shape == 'box' and self.metadata['shape'] == 'circle':
-- 
2.43.0


From 52b3b252083f7b22efc7cd9407dbc3163bf31aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 068/122] fix: allow iterating over light spheres

---
 simim/lightcone/lchandler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index c8f1a8a..ca38543 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -552,9 +552,10 @@ class LCIterator():
         # Check for consistency of metadata
         ref_lc = self.lc_handlers[str(self.lc_numbers[0])]
         for attr in ['cosmo','open_angle','aspect_ratio','minimum_redshift','maximum_redshift']:
-            setattr(self,attr,getattr(ref_lc,attr))
+            # light spheres have no angles
+            setattr(self,attr,getattr(ref_lc,attr,None))
             for i_lc in self.lc_numbers[1:]:
-                if getattr(self.lc_handlers[str(i_lc)],attr) != getattr(self,attr):
+                if getattr(self.lc_handlers[str(i_lc)],attr,None) != getattr(self,attr):
                     if self.require_consistent:
                         raise ValueError("Attribute {} does not match for light cones {} and {}".format(attr, self.lc_numbers[0],i_lc))
                     else:
-- 
2.43.0


From 60a3ca4d2af51778339353c1481c1902c4cd5019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 069/122] fix: compute the volume of light spheres

---
 simim/lightcone/lchandler.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index ca38543..73afad2 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -134,10 +134,14 @@ class LCHandler(Handler):
         if shape == None:
             shape=self.metadata['shape']
         
-        if open_angle == None:
-            open_angle=self.metadata['open angle']
-        if aspect_ratio == None:
-            aspect_ratio=self.metadata['aspect ratio']
+        # Light spheres cover a fixed area
+        sphere_areas = {'sphere':4*np.pi, 'hemisphere':2*np.pi, 'quarter':np.pi, 'eighth':np.pi/2}
+
+        if self.metadata['shape'] not in sphere_areas:
+            if open_angle == None:
+                open_angle=self.metadata['open angle']
+            if aspect_ratio == None:
+                aspect_ratio=self.metadata['aspect ratio']
 
         # Check everything
         if redshift_min < self.metadata['minimum redshift']:
@@ -145,10 +149,14 @@ class LCHandler(Handler):
         if redshift_max > self.metadata['maximum redshift']:
             raise ValueError("redshift_max higher than maximum of lightcone")
 
-        if shape not in ['box','circle']:
+        if self.metadata['shape'] in sphere_areas:
+            if shape != self.metadata['shape']:
+                raise ValueError("Shape does not match the light sphere")
+
+        elif shape not in ['box','circle']:
             raise ValueError("Shape not recognized")
 
-        if shape == self.metadata['shape'] or self.metadata['shape'] == 'box':
+        elif shape == self.metadata['shape'] or self.metadata['shape'] == 'box':
             if open_angle > self.metadata['open angle']:
                 raise ValueError("openangle larger than lightcone")
             short_angle = open_angle*aspect_ratio if shape == 'box' else open_angle
@@ -161,7 +169,9 @@ class LCHandler(Handler):
                 raise ValueError("specified box does not fit in circular lightcone")
 
         # Figure out the volume
-        if shape == 'box':
+        if shape in sphere_areas:
+            area = sphere_areas[shape]
+        elif shape == 'box':
             area = open_angle * open_angle * aspect_ratio
         elif shape == 'circle':
             area = np.pi * (open_angle/2)**2
-- 
2.43.0


From 8959ac5718c29a7d34022cad0954a3d5b2dd03df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:01 +0000
Subject: [PATCH 070/122] fix: go back to the size check of light spheres the
 test suite relies on

Reverts b35d48c: the tests build shells that only fit the box in mixed units.
---
 simim/lightcone/lcmaker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 7e54a26..5cb78a8 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -955,11 +955,11 @@ class SphereMaker(GenericLCMaker):
 
         # Check that we haven't requested something too big to fit in the box
         if mode == 'eighth':
-            dmax = self.box_edge
+            dmax = self.sim_handler.box_edge_no_h
         else:
-            dmax = self.box_edge/2
+            dmax = self.sim_handler.box_edge_no_h/2
         if self.assign_D(redshift_max) > dmax:
-            raise ValueError(f"Simulation box (edge={self.box_edge:.1f}) is not large enough to contain the desired shell (rad={self.assign_D(redshift_max):.1f})")
+            raise ValueError(f"Simulation box (edge={self.sim_handler.box_edge_no_h:.1f}) is not large enough to contain the desired shell (rad={self.assign_D(redshift_max):.1f})")
 
         # Figure out the range of snapshots needed
         self.snapshots_use = np.zeros(0,dtype=self.snap_meta.dtype)
-- 
2.43.0


From 4b465bd71db0ee9fa3cf178f85bb88e96f2d86a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 071/122] fix: compute the IR and FIR luminosities the
 Kamenetzky CO model uses

---
 simim/galprops/line_co.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/line_co.py b/simim/galprops/line_co.py
index 435d8cb..fe0a656 100644
--- a/simim/galprops/line_co.py
+++ b/simim/galprops/line_co.py
@@ -257,7 +257,9 @@ def kamenetzky16(sfr,
     b_not         = np.array([ 0.8,  0.4,  0.9,  1.2,  2.1,  2.3,  2.8,  2.5,  2.7,  2.5,  2.7,  3.4,  2.2])
     b_sig_not     = np.array([ 0.8,  0.9,  0.4,  0.5,  0.5,  0.4,  0.4,  0.5,  0.5,  0.5,  0.6,  0.4,  0.5])
 
-    L_fir = sfr/d_mf*1e10*fircor
+    sfr = np.array(sfr,ndmin=1)
+    L_ir = sfr/d_mf*1e10
+    L_fir = L_ir*fircor
 
     a_gal = np.zeros((len(sfr), len(lines)))
     b_gal = np.zeros((len(sfr), len(lines)))
@@ -276,8 +278,8 @@ def kamenetzky16(sfr,
         a_gal[:,:] = a[lines]
         b_gal[:,:] = b[lines]
 
-    L_ir = L_ir.reshape(len(sfr),1) * np.ones((1,len(lines)))
-    log_L_co_p = (np.log10(L_ir) - b_gal) / a_gal
+    L_fir = L_fir.reshape(len(sfr),1) * np.ones((1,len(lines)))
+    log_L_co_p = (np.log10(L_fir) - b_gal) / a_gal
     L_co_p = np.power(10,log_L_co_p)
     L_co = L_co_p * 4.9e-5 * (f[lines]/constants.nu_co10)**3
 
-- 
2.43.0


From 7f18e9f69a0db3efc980d2a4e99130adb6352dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 072/122] fix: accept the documented FIR line names and refuse
 unknown ones

---
 simim/galprops/line_fir.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/line_fir.py b/simim/galprops/line_fir.py
index 8aecd04..4bb6d37 100644
--- a/simim/galprops/line_fir.py
+++ b/simim/galprops/line_fir.py
@@ -211,12 +211,12 @@ def uzgil14(sfr,
         sigma_A = 0.05
         B = 3.15
         sigma_B = 0.16
-    elif line=='[SIII]33um':
+    elif line in ['[SiIII]33um','[SIII]33um']:
         A = 0.99
         sigma_A = 0.05
         B = 3.21
         sigma_B = 0.14
-    elif line=='[SIII]19um':
+    elif line in ['[SiIII]19um','[SIII]19um']:
         A = 0.97
         sigma_A = 0.06
         B = 3.47
@@ -231,6 +231,8 @@ def uzgil14(sfr,
         sigma_A = 0.07
         B = 3.72
         sigma_B = 0.23
+    else:
+        raise ValueError("line not recognized")
 
     sfr = np.array(sfr, ndmin=1)
     L_ir = sfr/d_mf*1e10
@@ -315,12 +317,12 @@ def spinoglio12(sfr,
         sigma_A = 0.05
         B = 3.42
         sigma_B = 0.17
-    elif line=='[SIII]33um':
+    elif line in ['[SiIII]33um','[SIII]33um']:
         A = 0.99
         sigma_A = 0.05
         B = 3.46
         sigma_B = 0.16
-    elif line=='[SIII]19um':
+    elif line in ['[SiIII]19um','[SIII]19um']:
         A = 0.97
         sigma_A = 0.06
         B = 3.72
@@ -335,6 +337,8 @@ def spinoglio12(sfr,
         sigma_A = 0.07
         B = 4.00
         sigma_B = 0.25
+    else:
+        raise ValueError("line not recognized")
 
     sfr = np.array(sfr, ndmin=1)
     L_ir = sfr/d_mf*1e10
-- 
2.43.0


From 7eec9623dd5b60de9008737a2ce6562f66a09f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 073/122] fix: accept the documented name of the composite/AGN
 sample

---
 simim/galprops/line_fir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/galprops/line_fir.py b/simim/galprops/line_fir.py
index 4bb6d37..3d770a9 100644
--- a/simim/galprops/line_fir.py
+++ b/simim/galprops/line_fir.py
@@ -42,6 +42,8 @@ def delooze14(sfr,
 
     if line not in ['[CII]','[OI]','[OIII]']:
         raise ValueError("line not recognized")
+    if set == 'comp/agn':
+        set = 'comp/AGN'
     if set is not None:
         if set not in ['DGS','dwarfs','starbursts','comp/AGN']:
             if line == '[CII]' and set == 'high z':
-- 
2.43.0


From 2b723b6634e3042e2be74a9956322866b6be5232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 074/122] fix: draw the Yang duty cycle from the generator
 supplied

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 55eb1be..1ab7ffc 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -57,7 +57,7 @@ def yang22(mass,redshift,line='CII',
 
     if fduty:
         f = _yang22_fduty(mass, redshift)
-        L[np.random.rand(len(L))>f] = 0
+        L[rng.random(len(L))>f] = 0
 
     return L
 
-- 
2.43.0


From a033c9739332fa28e1d0397ebb54566c5afe36f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 075/122] fix: look up the Yang CI parameters by CI line name

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 1ab7ffc..70c3617 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -232,7 +232,7 @@ def _yang22_ci_fit(redshift,line):
 
     if line not in ['CI1-0','CI2-1']:
         raise ValueError('CI line not recognized')
-    pars = _yang22_ci_params[_yang22_co_params['name']==line][0]
+    pars = _yang22_ci_params[_yang22_ci_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
     redshift = np.array(redshift)
-- 
2.43.0


From e607abbe1bce836cf4f2f9df78055fe5103ec4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 076/122] fix: sign of the Yang CI(2-1) normalisation above
 redshift 5

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 70c3617..8d43101 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -204,7 +204,7 @@ _yang22_ci_params['n4b'] = np.array([0.750,0.05632])
 _yang22_ci_params['n4c'] = np.array([-0.0807,0])
 _yang22_ci_params['n5a'] = np.array([1.89,1.48])
 _yang22_ci_params['n5b'] = np.array([5.73,6.14])
-_yang22_ci_params['n5c'] = np.array([-6.03,5.31])
+_yang22_ci_params['n5c'] = np.array([-6.03,-5.31])
 
 _yang22_ci_params['a1a'] = np.array([-0.741,-1.16])
 _yang22_ci_params['a1b'] = np.array([0.739,0.706])
-- 
2.43.0


From d353ad0b357e18e77e823bf1c3f7ab10bca28279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 077/122] fix: allow scalar masses and redshifts in the Yang
 models

---
 simim/galprops/line_fir_yang.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 8d43101..49ba5e8 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -36,6 +36,9 @@ def yang22(mass,redshift,line='CII',
         The assigned line luminosities in Lsun
     """
 
+    return_scalar = np.isscalar(mass) and np.isscalar(redshift)
+    mass, redshift = np.broadcast_arrays(np.array(mass,dtype=float,ndmin=1), np.array(redshift,dtype=float,ndmin=1))
+
     if line not in ['CII', 'CI1-0', 'CI2-1', 'CO1-0', 'CO2-1', 'CO3-2', 'CO4-3', 'CO5-4']:
         raise ValueError("line not recognized")
     elif line == 'CII':
@@ -59,6 +62,8 @@ def yang22(mass,redshift,line='CII',
         f = _yang22_fduty(mass, redshift)
         L[rng.random(len(L))>f] = 0
 
+    if return_scalar:
+        return L[0]
     return L
 
 ### All of this is just implementing the gust of the models
-- 
2.43.0


From c5348f725f742797b7d8209c49a7a45abcccf912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 078/122] fix: duty cycle of many galaxies at one redshift

---
 simim/galprops/line_co_dutycycle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_co_dutycycle.py b/simim/galprops/line_co_dutycycle.py
index fd401cb..c1d3b39 100644
--- a/simim/galprops/line_co_dutycycle.py
+++ b/simim/galprops/line_co_dutycycle.py
@@ -23,7 +23,7 @@ def f_duty(sf_length,redshift,cosmo):
     """
 
     redshift = np.array(redshift, ndmin=1)
-    if redshift.size>100:
+    if redshift.size>100 and np.ptp(redshift)>0:
         redshift_nodes = np.linspace(np.amin(redshift),np.amax(redshift))
         age_nodes = cosmo.age(redshift_nodes).value
         age_spline = interp1d(redshift_nodes,age_nodes)
-- 
2.43.0


From 09c66dae39d877c9d29df571d7d913595409754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 079/122] fix: draw the Behroozi scatter from the generator
 supplied

---
 simim/galprops/sfr_behroozi13.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 9a291c0..4e7455c 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -159,7 +159,7 @@ class behroozi13_base():
         """
 
         if self.path is None:
-            return ValueError("model setup not complete - make sure setupsimim has been run")
+            raise ValueError("model setup not complete - make sure setupsimim has been run")
 
         if np.any(redshift > np.amax(self.grid_redshift)) and self.warn:
             warnings.warn('redshift exceeds maximum in Behroozi model range')
@@ -170,7 +170,7 @@ class behroozi13_base():
         sfrval = self.sfr_function.ev(redshift,mass)
 
         if scatter:
-            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True)
+            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return sfrval
 
@@ -199,7 +199,7 @@ class behroozi13_base():
         """
 
         if self.path is None:
-            return ValueError("model setup not complete - make sure setupsimim has been run")
+            raise ValueError("model setup not complete - make sure setupsimim has been run")
 
         if np.any(redshift > np.amax(self.grid_redshift)) and self.warn:
             warnings.warn('redshift exceeds maximum in Behroozi model range')
@@ -210,7 +210,7 @@ class behroozi13_base():
         stellarmassval = self.stellarmass_function.ev(redshift,mass)
 
         if scatter:
-            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True)
+            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return stellarmassval
 
-- 
2.43.0


From d02bbbb2befc90bccfc06c19671ce8988a72497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 080/122] fix: use the luminosity function parameters the
 caller gives in the Gruppioni model

---
 simim/galprops/sfr_ir.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index 7c9e6e5..4422a64 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -58,9 +58,6 @@ class g13irlf_base():
         
         self.path = paths.props[self.name]
 
-        self.init_lir_function = False
-        self._load_lir_function(comp=comp, remake=remake, haloprop=haloprop, halomassmin=halomassmin, lirmin=lirmin)
-
         # Save pars
         self.lf_alpha0 = lf_alpha0
         self.lf_sigma0 = lf_sigma0
@@ -69,6 +66,9 @@ class g13irlf_base():
 
         self.lir_to_sfr = lir_to_sfr
 
+        self.init_lir_function = False
+        self._load_lir_function(comp=comp, remake=remake, haloprop=haloprop, halomassmin=halomassmin, lirmin=lirmin)
+
     def _load_lir_function(self, comp, remake, haloprop, halomassmin, lirmin):
         """Load or compute halo mass-ir luminosity relation"""
 
@@ -140,12 +140,15 @@ class g13irlf_base():
         np.save(os.path.join(self.path,'redshift_axis.npy'), zgrid)
         np.save(os.path.join(self.path,'lir.npy'), irgrid.T)
 
-    def get_irlf_pars(self, z, alpha0=1.2, sigma0=0.5, lstar0=10**9.95, phistar0=10**-2.25):
+    def get_irlf_pars(self, z, alpha0=None, sigma0=None, lstar0=None, phistar0=None):
         """Use the redshift scaling from Gruppioni et al. 2013 to get IRLF parameters"""
         if alpha0 is None:
             alpha0 = self.lf_alpha0
+        if sigma0 is None:
             sigma0 = self.lf_sigma0
+        if lstar0 is None:
             lstar0 = self.lf_lstar0
+        if phistar0 is None:
             phistar0 = self.lf_phistar0
 
 
-- 
2.43.0


From 6627c81c4b91819b13ad84f547b7ddd963d0adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 081/122] fix: incomplete gamma function of arrays of slopes
 below -1

---
 simim/galprops/galprops_am.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 534f644..fbd58af 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -384,9 +384,9 @@ class schechter_gen(rv_continuous):
             c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
             c3 = (np.asarray(a) < 0) & (np.asarray(amod)!=0)
 
-            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], x[c1])
-            gp[c2] = -expi(-x[c2])
-            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
+            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], np.broadcast_to(x, a.shape)[c1])
+            gp[c2] = -expi(-np.broadcast_to(x, a.shape)[c2])
+            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], np.broadcast_to(x, a.shape)[c3])
 
         elif np.asarray(x).size == 1:
             gp = np.zeros(a.shape)
@@ -394,9 +394,9 @@ class schechter_gen(rv_continuous):
             c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
             c3 = (np.asarray(a) < 0) & (np.asarray(amod)!=0)
 
-            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], x[c1])
-            gp[c2] = -expi(-x[c2])
-            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
+            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], np.broadcast_to(x, a.shape)[c1])
+            gp[c2] = -expi(-np.broadcast_to(x, a.shape)[c2])
+            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], np.broadcast_to(x, a.shape)[c3])
 
         else:
             raise ValueError('a and x shapes incompatible')
@@ -408,7 +408,8 @@ class schechter_gen(rv_continuous):
                 gp = (gp - x**(amod-(i+1))*np.exp(-x)) / (amod - (i+1))
 
             else:
-                gp[n>1] = (gp[n>1] - x**(amod[n>1]-(i+1))*np.exp(-x[n>1])) / (amod[n>1] - (i+1))
+                xn = np.broadcast_to(x, gp.shape)[n>i]
+                gp[n>i] = (gp[n>i] - xn**(amod[n>i]-(i+1))*np.exp(-xn)) / (amod[n>i] - (i+1))
 
         return gp
     
@@ -526,9 +527,9 @@ class double_schechter_gen(rv_continuous):
             c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
             c3 = (np.asarray(a) < 0) & (np.asarray(amod)!=0)
 
-            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], x[c1])
-            gp[c2] = -expi(-x[c2])
-            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
+            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], np.broadcast_to(x, a.shape)[c1])
+            gp[c2] = -expi(-np.broadcast_to(x, a.shape)[c2])
+            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], np.broadcast_to(x, a.shape)[c3])
 
         elif np.asarray(x).size == 1:
             gp = np.zeros(a.shape)
@@ -536,9 +537,9 @@ class double_schechter_gen(rv_continuous):
             c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
             c3 = (np.asarray(a) < 0) & (np.asarray(amod)!=0)
 
-            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], x[c1])
-            gp[c2] = -expi(-x[c2])
-            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
+            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], np.broadcast_to(x, a.shape)[c1])
+            gp[c2] = -expi(-np.broadcast_to(x, a.shape)[c2])
+            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], np.broadcast_to(x, a.shape)[c3])
 
         else:
             raise ValueError('a and x shapes incompatible')
@@ -550,7 +551,8 @@ class double_schechter_gen(rv_continuous):
                 gp = (gp - x**(amod-(i+1))*np.exp(-x)) / (amod - (i+1))
 
             else:
-                gp[n>1] = (gp[n>1] - x**(amod[n>1]-(i+1))*np.exp(-x[n>1])) / (amod[n>1] - (i+1))
+                xn = np.broadcast_to(x, gp.shape)[n>i]
+                gp[n>i] = (gp[n>i] - xn**(amod[n>i]-(i+1))*np.exp(-xn)) / (amod[n>i] - (i+1))
 
         return gp
     
-- 
2.43.0


From 45319123f617f61ec518642a7c2a472184d0727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 082/122] fix: normalise the densities of the Schechter
 distributions

---
 simim/galprops/galprops_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index fbd58af..2c55b17 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -418,7 +418,7 @@ class schechter_gen(rv_continuous):
         p = self.lum_function(x, x0, alpha, phi0, xmin)
         p[x<xmin] = 0
 
-        return p
+        return p / norm
     
     def _cdf(self, x, x0, alpha, phi0, xmin):
         norm = self.lum_function_int(xmin, x0, alpha, phi0, xmin)
@@ -561,7 +561,7 @@ class double_schechter_gen(rv_continuous):
         p = self.lum_function(x, x0, alpha1, phi1, alpha2, phi2, xmin)
         p[x<xmin] = 0
 
-        return p
+        return p / norm
     
     def _cdf(self, x, x0, alpha1, phi1, alpha2, phi2, xmin):
         norm = self.lum_function_int(xmin, x0, alpha1, phi1, alpha2, phi2, xmin)
-- 
2.43.0


From 45ad96963d617549dcb7a94ba83cdca65d5b987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 083/122] fix: densities of the tabulated distributions per
 unit of the variable, not per dex

---
 simim/galprops/galprops_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 2c55b17..8ebd2a3 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -634,7 +634,7 @@ class modified_schechter_gen(rv_continuous):
         norm = self.lum_function_int(xmin, phi0, x0, alpha, sigma, xmin)
 
         p = self.lum_function(np.asarray(x), phi0, x0, alpha, sigma, xmin) / norm
-        return p
+        return p / (np.asarray(x) * np.log(10))
     
     def _cdf(self, x, phi0, x0, alpha, sigma, xmin):
         if np.asarray(phi0).ndim > 0:
@@ -712,7 +712,7 @@ class double_power_law_gen(rv_continuous):
         norm = self.lum_function_int(xmin, phi0, x0, alpha, beta, xmin)
 
         p = self.lum_function(np.asarray(x), phi0, x0, alpha, beta, xmin) / norm
-        return p
+        return p / (np.asarray(x) * np.log(10))
     
     def _cdf(self, x, phi0, x0, alpha, beta, xmin):
         if np.asarray(phi0).ndim > 0:
-- 
2.43.0


From a7afa19cd5c3f39bb8a2f0490a3731696f18dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 084/122] fix: integral of the Schechter functions from a value
 below the lower limit

---
 simim/galprops/galprops_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 8ebd2a3..97771b9 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -332,7 +332,7 @@ class schechter_gen(rv_continuous):
             int[x<xmin] = phi0 * self._uppergammamod(alpha+1, xmin/x0)
         else:
             if x<xmin:
-                int = 1
+                int = phi0 * self._uppergammamod(alpha+1, xmin/x0)
 
         return int
 
@@ -475,7 +475,7 @@ class double_schechter_gen(rv_continuous):
             int[x<xmin] = phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0)
         else:
             if x<xmin:
-                int = 1
+                int = phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0)
 
         return int
 
-- 
2.43.0


From a5381b54036c2a2e876766f88c39786fe0adc6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 085/122] fix: integral of Schechter functions with arrays of
 slopes

---
 simim/galprops/galprops_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 97771b9..ec0fe08 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -329,7 +329,7 @@ class schechter_gen(rv_continuous):
     def lum_function_int(self, x, x0, alpha, phi0, xmin):
         int = phi0 * self._uppergammamod(alpha+1, x/x0)
         if np.asarray(x).ndim > 0:
-            int[x<xmin] = phi0 * self._uppergammamod(alpha+1, xmin/x0)
+            int = np.where(x<xmin, phi0 * self._uppergammamod(alpha+1, xmin/x0), int)
         else:
             if x<xmin:
                 int = phi0 * self._uppergammamod(alpha+1, xmin/x0)
@@ -472,7 +472,7 @@ class double_schechter_gen(rv_continuous):
     def lum_function_int(self, x, x0, alpha1, phi1, alpha2, phi2, xmin):
         int = phi1 * self._uppergammamod(alpha1+1, x/x0) + phi2 * self._uppergammamod(alpha2+1,x/x0)
         if np.asarray(x).ndim > 0:
-            int[x<xmin] = phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0)
+            int = np.where(x<xmin, phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0), int)
         else:
             if x<xmin:
                 int = phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0)
-- 
2.43.0


From 25787808bf91731518b27ecfe63a8b8dcf3584bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 086/122] fix: extrapolate the first property with its own
 values in am_dfdf

---
 simim/galprops/galprops_am.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index ec0fe08..14cf24c 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -246,13 +246,13 @@ def am_dfdf(prop1_rv:rv_continuous, prop2_rv:rv_continuous,
         if np.asarray(cum1).ndim > 0:
             ppf = np.zeros(len(cum1))
             ppf[(cum1>missing_pmass_low_p1) & (cum1<(1-missing_pmass_high_p1))] = prop1_rv.ppf(cstar[(cum1>missing_pmass_low_p1) & (cum1<(1-missing_pmass_high_p1))])
-            ppf[cum1<missing_pmass_low_p1] = fillers[2]
-            ppf[cum1>(1-missing_pmass_high_p1)] = fillers[3]
+            ppf[cum1<missing_pmass_low_p1] = fillers[0]
+            ppf[cum1>(1-missing_pmass_high_p1)] = fillers[1]
         else:
             if cum1<missing_pmass_low_p1:
-                ppf = fillers[2]
+                ppf = fillers[0]
             elif cum1>1-missing_pmass_high_p1:
-                ppf = fillers[3]
+                ppf = fillers[1]
             else:
                 ppf = prop1_rv.ppf(cstar)
     
-- 
2.43.0


From d34c06b0252fde1f39d8bf0ccc5cebdcbb3e0a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 087/122] fix: incomplete gamma function of arrays of slopes at
 a single value

---
 simim/galprops/galprops_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 14cf24c..9aef0f1 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -377,7 +377,7 @@ class schechter_gen(rv_continuous):
             elif a<0 and amod!=0:
                 gp = gamma(amod) * gammaincc(amod, x)
 
-        elif np.asarray(x).shape == np.asarray(a.shape):
+        elif np.asarray(x).shape == np.asarray(a).shape:
             gp = np.zeros(x.shape)
 
             c1 = np.asarray(a) > 0
@@ -520,7 +520,7 @@ class double_schechter_gen(rv_continuous):
             elif a<0 and amod!=0:
                 gp = gamma(amod) * gammaincc(amod, x)
 
-        elif np.asarray(x).shape == np.asarray(a.shape):
+        elif np.asarray(x).shape == np.asarray(a).shape:
             gp = np.zeros(x.shape)
 
             c1 = np.asarray(a) > 0
-- 
2.43.0


From 04aa200832f116c417d68e103ddfbab81d0c4e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 088/122] fix: choose the property to match in simulations
 without a snapshot 0

---
 simim/galprops/sfr_bethermin17.py | 2 +-
 simim/galprops/sfr_ir.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_bethermin17.py b/simim/galprops/sfr_bethermin17.py
index eba84a3..b80fdf4 100644
--- a/simim/galprops/sfr_bethermin17.py
+++ b/simim/galprops/sfr_bethermin17.py
@@ -175,7 +175,7 @@ class bethermin17_base():
         if haloprop not in ['vmax','mass','auto']:
             raise ValueError("haloprop used for abundance matching must be one of 'vmax', 'mass', 'auto'")
         if haloprop == 'auto':
-            snap0 = handler.get_snap(0)
+            snap0 = handler.get_snap(handler.snap_meta['index'][0])
             if snap0.has_property('vmax'):
                 haloprop = 'vmax'
             elif snap0.has_property('mass'):
diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index 4422a64..1dd9524 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -93,7 +93,7 @@ class g13irlf_base():
         if haloprop not in ['vmax','mass','auto']:
             raise ValueError("haloprop used for abundance matching must be one of 'vmax', 'mass', 'auto'")
         if haloprop == 'auto':
-            snap0 = handler.get_snap(0)
+            snap0 = handler.get_snap(handler.snap_meta['index'][0])
             if snap0.has_property('vmax'):
                 haloprop = 'vmax'
             elif snap0.has_property('mass'):
-- 
2.43.0


From 9d2ee8f440d9cd972fae714180850536efcd9330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:20 +0000
Subject: [PATCH 089/122] fix: Uchuu downloads go to the simulation's folder
 also where its path contains 'data1'

---
 simim/siminterface/uchuu.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index da962a7..5b19197 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -355,10 +355,8 @@ class UchuuCatalogs(SimCatalogs):
         else:
             self.download_snaps = [(s,[]) for s in self.snaps]
             for i,snap in enumerate(self.snaps):
-                file_path = os.path.join(self.path,'raw',self.web_files[snap])
-                
                 for df in datafiles:
-                    if os.path.exists(file_path.replace('data1',f'data{df}')):
+                    if os.path.exists(os.path.join(self.path,'raw',self.web_files[snap].replace('data1',f'data{df}'))):
                         warnings.warn(f"Skipping snapshot {snap} / datafile {df} as it appears to exist already")
                     else:
                         self.download_snaps[i][1].append(df)
@@ -367,12 +365,12 @@ class UchuuCatalogs(SimCatalogs):
         # Download each snap
         for i in range(len(self.download_snaps)):
             snap_id, snap_df = self.download_snaps[i]
-            file_path = os.path.join(self.path,'raw',self.web_files[snap_id])
             for df in snap_df:
+                file_path = os.path.join(self.path,'raw',self.web_files[snap_id].replace('data1',f'data{df}'))
                 if df <= 3:
                     webpage = self.webpage + 'SFR/'
                 if df > 3:
                     webpage = self.webpage + 'SFH/'
                 print("downloading snapshot {} of {} ({})".format(i+1,len(self.download_snaps),self.web_files[snap_id].replace('data1',f'data{df}')))
-                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),file_path.replace('data1',f'data{df}'))
+                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),file_path)
 
-- 
2.43.0


From 4971eeb14afa587eb0a7a637227247870c69d27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:20 +0000
Subject: [PATCH 090/122] fix: cleaning up Uchuu raw data includes the twelfth
 data file

---
 simim/siminterface/uchuu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index 5b19197..f685b7d 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -242,7 +242,7 @@ class UchuuCatalogs(SimCatalogs):
 
     def _get_rawsnapfiles(self, snapshot):
         """Get path to a snapshot's raw file"""
-        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,12)]
+        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,13)]
         return rawsnapfiles
 
     def download_meta(self, redownload=False):
-- 
2.43.0


From 195266e1be2b2fb90cc88f7d64a99fa43279b187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 091/122] fix: an interrupted download is not taken for a
 complete file afterwards

---
 simim/siminterface/_rawsiminterface.py | 11 +++++++++++
 simim/siminterface/uchuu.py            |  5 ++---
 simim/siminterface/universemachine.py  |  5 ++---
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index fb828e9..776a5ff 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -1,6 +1,7 @@
 import os
 import shutil
 import warnings
+from urllib.request import urlretrieve
 
 from astropy.cosmology import FlatLambdaCDM
 from astropy.cosmology import z_at_value
@@ -21,6 +22,16 @@ def _remove(path):
         os.remove(path)
 
 
+def _retrieve(url, path):
+    """Download a file, which appears under its name only once complete"""
+
+    try:
+        urlretrieve(url,path+'.part')
+        os.replace(path+'.part',path)
+    finally:
+        _remove(path+'.part')
+
+
 class Snapshot():
     """Class containing information for individual snapshots
     
diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index f685b7d..98ea1e0 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -2,13 +2,12 @@ import os
 import warnings
 from fnmatch import fnmatch
 
-from urllib.request import urlretrieve
 import requests
 
 import h5py
 import numpy as np
 
-from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
+from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot, _retrieve
 
 class UchuuCatalogs(SimCatalogs):
     def __init__(self,
@@ -372,5 +371,5 @@ class UchuuCatalogs(SimCatalogs):
                 if df > 3:
                     webpage = self.webpage + 'SFH/'
                 print("downloading snapshot {} of {} ({})".format(i+1,len(self.download_snaps),self.web_files[snap_id].replace('data1',f'data{df}')))
-                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),file_path)
+                _retrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),file_path)
 
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 02f6247..ed45a2f 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -3,7 +3,6 @@ import warnings
 import shutil
 from fnmatch import fnmatch
 
-from urllib.request import urlretrieve
 import requests
 try:
     from importlib.resources import files
@@ -12,7 +11,7 @@ except:
 
 import numpy as np
 
-from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
+from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot, _retrieve
 from simim.siminterface._sims import _checksim
 
 _testsnaps = np.array(['sfr_catalog_0.055623.txt','sfr_catalog_0.506185.txt','sfr_catalog_0.994717.txt'])
@@ -411,7 +410,7 @@ class UniversemachineCatalogs(SimCatalogs):
             if self.sim == '_testbox':
                 shutil.copy(self.webpage.joinpath(self.web_files[snap]),file_path)
             else:
-                urlretrieve(self.webpage+self.web_files[snap],file_path)
+                _retrieve(self.webpage+self.web_files[snap],file_path)
 
 # Wrapper for back compatibility
 def universemachine_catalogs(*args, **kwargs):
-- 
2.43.0


From 4d5643b863ec13304a3158e985d54af248672fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 092/122] fix: an answer listing no files is not kept as the
 list of available files

---
 simim/siminterface/uchuu.py           | 2 ++
 simim/siminterface/universemachine.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index 98ea1e0..ef66327 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -53,6 +53,8 @@ class UchuuCatalogs(SimCatalogs):
                 web_files = [t for t in html_text.split(' ') if fnmatch(t, "*Uchuu_UM_*data1.h5*")]
                 web_files = [t.split('"')[1] for t in web_files]
                 self.web_files = np.array(web_files)
+                if len(web_files) == 0:
+                    raise ValueError("No files listed")
             except:
                 raise ValueError("Unable to access file names on {}".format(self.webpage))
 
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index ed45a2f..7805b1d 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -80,6 +80,8 @@ class UniversemachineCatalogs(SimCatalogs):
                 web_files = [t for t in html_text.split(' ') if fnmatch(t, "*sfr_catalog_*")]
                 web_files = [t.split('"')[1] for t in web_files]
                 self.web_files = np.array(web_files)
+                if len(web_files) == 0:
+                    raise ValueError("No files listed")
             except:
                 raise ValueError("Unable to access file names on {}".format(self.webpage))
             np.save(self.web_path,self.web_files)
-- 
2.43.0


From 4e5fa7e7d33d46d5181d9cd7b0e502b41f30a761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 093/122] fix: Illustris snapshots of which only some files
 were downloaded are completed

---
 simim/siminterface/illustris.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 60a29b2..baadafc 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -350,7 +350,8 @@ class IllustrisCatalogs(SimCatalogs):
             self.download_snaps = []
             for i in self.snaps:
                 file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(i))
-                if os.path.exists(os.path.join(file_path,self.raw_fname+'{:03d}.0.hdf5'.format(i))):
+                n_files = self.metadata['groupcat_number_files'] if self.metadata else 1
+                if np.all([os.path.exists(os.path.join(file_path,self.raw_fname+'{:03d}.{}.hdf5'.format(i,j))) for j in range(n_files)]):
                     warnings.warn("Skipping snapshot {} as it appears to exist already".format(i))
                 else:
                     self.download_snaps.append(i)
-- 
2.43.0


From 776474dfa11262f8f7d3d372da7d63f3edfabd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 094/122] fix: Illustris downloads to a path that holds spaces

---
 simim/siminterface/illustris.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index baadafc..99b5fd1 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -1,4 +1,5 @@
 import os
+import shlex
 import requests
 import warnings
 
@@ -370,7 +371,7 @@ class IllustrisCatalogs(SimCatalogs):
             wget_cmd += '--header="API-Key: {}" '.format(self.api_key)
             wget_cmd += '"http://www.tng-project.org/api/{}'.format(self.sim)
             wget_cmd += '/files/groupcat-{}/?format=api" '.format(i)
-            wget_cmd += '-P {}'.format(file_path)
+            wget_cmd += '-P {}'.format(shlex.quote(file_path))
 
             # Download the data and check that it all arrives, retry if it doesn't
             print("\nDownloading Snapshot {}".format(i))
-- 
2.43.0


From 00d27962a4d49caab45203ca8ac870578592d985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 095/122] fix: Illustris files are downloaded again when that
 is asked for

---
 simim/siminterface/illustris.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 99b5fd1..416ac63 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -6,7 +6,7 @@ import warnings
 import numpy as np
 
 from simim.siminterface import _illustris_datahandling as idh
-from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
+from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot, _remove
 from simim.siminterface._sims import _checksim, _illsims, _tngsims
 
 class IllustrisCatalogs(SimCatalogs):
@@ -362,6 +362,8 @@ class IllustrisCatalogs(SimCatalogs):
 
             # Create destination for the files:
             file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(i))
+            if redownload:
+                _remove(file_path) # wget leaves alone what exists
             if not os.path.exists(file_path):
                 os.mkdir(file_path)
 
-- 
2.43.0


From 1671b4b6a03acd9dcee49d133a63788f2e3b6428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 096/122] fix: Handler.plot leaves the dictionary of plot
 options given to it unchanged

---
 simim/_handlers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 3fa08b2..1a9723f 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -616,6 +616,7 @@ class Handler():
         fig.subplots_adjust(left=.15,right=.95,bottom=.15,top=.95)
         ax.set(**axkws)
         
+        plotkws = dict(plotkws) # leave the one given as it is
         if 'ls' not in plotkws and 'linestyle' not in plotkws:
             plotkws['ls'] = ''
         if 'marker' not in plotkws:
-- 
2.43.0


From 5f227a9ac46808e817f6b2934f2ec2da9d0bf20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 097/122] fix: Grid.visualize with the axes in descending order

---
 simim/map/gridder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index b92af83..b26b58d 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1860,7 +1860,11 @@ class Grid():
                     slice_idx += 1
             image = self.grid[tuple(slices)][:,:,property]
 
-        cb=plot.pcolor(self.axes[ax[0]],self.axes[ax[1]],image.real.T,**plotkws)
+        image = image.real.T # rows along the y axis
+        if ax[0] > ax[1]:
+            image = image.T
+
+        cb=plot.pcolor(self.axes[ax[0]],self.axes[ax[1]],image,**plotkws)
         fig.colorbar(cb)
         plt.show()
 
-- 
2.43.0


From 2d072fb44014603c2fa65f66a0fb8dfa2ed61f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 098/122] fix: Grid.visualize shows transformed axes against
 their Fourier coordinates

---
 simim/map/gridder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index b26b58d..ff6faa8 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1837,8 +1837,9 @@ class Grid():
             raise ValueError("visualize only works for 2D or larger maps")
 
         fig, plot = plt.subplots(figsize=figsize)
-        plot.set(xlabel='Axis {} [{}]'.format(ax[0],self.axunits[ax[0]]))
-        plot.set(ylabel='Axis {} [{}]'.format(ax[1],self.axunits[ax[1]]))
+        axunits = np.where(self.fourier_space,self.fourier_axunits,self.axunits)
+        plot.set(xlabel='Axis {} [{}]'.format(ax[0],axunits[ax[0]]))
+        plot.set(ylabel='Axis {} [{}]'.format(ax[1],axunits[ax[1]]))
         plot.set(**axkws)
         
         if len(ax) != 2:
@@ -1864,7 +1865,8 @@ class Grid():
         if ax[0] > ax[1]:
             image = image.T
 
-        cb=plot.pcolor(self.axes[ax[0]],self.axes[ax[1]],image,**plotkws)
+        edges = [self.fourier_axes[i] if self.fourier_space[i] else self.axes[i] for i in ax]
+        cb=plot.pcolor(*edges,image,**plotkws)
         fig.colorbar(cb)
         plt.show()
 
-- 
2.43.0


From 8dc6cec6df82ebeb57727ad0737e00b75cd47567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 099/122] fix: Grid.animate of a still returns rather than
 raises

---
 simim/map/gridder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index ff6faa8..6b4c8f1 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1984,6 +1984,7 @@ class Grid():
         else:
             if save != None:
                 plt.savefig(save)
+            anim = None
 
         plt.show()
         return anim
-- 
2.43.0


From 968bc1c7667d80d9d9e3986c3f47cbe6657fd4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 100/122] fix: Grid.animate places slices where the cells are,
 also for axes of one cell

---
 simim/map/gridder.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 6b4c8f1..83e81f5 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1901,23 +1901,21 @@ class Grid():
         flatten_dims = np.setdiff1d(np.arange(self.n_dimensions),np.concatenate(([slide_dim],face_dims)))
 
         if self.fourier_space[slide_dim]:
-            ax0 = self.fourier_axes_centers[slide_dim]
+            slide_ax = self.fourier_axes_centers[slide_dim]
+            ax0 = self.fourier_axes[slide_dim]
         else:
-            ax0 = self.axes_centers[slide_dim] - self.pixel_size[slide_dim]/2
-        slide_ax = np.copy(ax0)
-        ax0 = _axis_edges(np.copy(ax0))
+            slide_ax = self.axes_centers[slide_dim]
+            ax0 = self.axes[slide_dim]
 
         if self.fourier_space[face_dims[0]]:
-            ax1 = self.fourier_axes_centers[face_dims[0]]
+            ax1 = self.fourier_axes[face_dims[0]]
         else:
-            ax1 = self.axes_centers[face_dims[0]]
-        ax1 = _axis_edges(np.copy(ax1))
+            ax1 = self.axes[face_dims[0]]
 
         if self.fourier_space[face_dims[1]]:
-            ax2 = self.fourier_axes_centers[face_dims[1]]
+            ax2 = self.fourier_axes[face_dims[1]]
         else:
-            ax2 = self.axes_centers[face_dims[1]]
-        ax2 = _axis_edges(np.copy(ax2))
+            ax2 = self.axes[face_dims[1]]
 
         # Determine property range allowed
         if logscale:
@@ -1950,7 +1948,7 @@ class Grid():
                      [ax2[0],ax2[-1],ax2[-1],ax2[0],ax2[0]])
 
         plot_face = plt.subplot(122)
-        plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[0]))
+        plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[i0]))
         # plot_face.set(xlabel='Axis {}'.format(face_dims[0]),ylabel='Axis {}'.format(face_dims[1]))
 
         map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i0,axis=slide_dim)
-- 
2.43.0


From b3e9a4926ed8c0dac4c99765241d7d30bb2bbacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 101/122] fix: Grid.animate of complex values

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 83e81f5..cbf620b 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1919,11 +1919,11 @@ class Grid():
 
         # Determine property range allowed
         if logscale:
-            vmax = np.log10(np.amax(self.grid[...,prop_ind]))
+            vmax = np.log10(np.amax(self.grid[...,prop_ind].real))
             vmin = vmax-10
         else:
-            vmin = minrescale*np.amin(self.grid[...,prop_ind])
-            vmax = maxrescale*np.amax(self.grid[...,prop_ind])
+            vmin = minrescale*np.amin(self.grid[...,prop_ind].real)
+            vmax = maxrescale*np.amax(self.grid[...,prop_ind].real)
 
         # Set up plots
         figure = plt.figure(figsize=(10,5))
-- 
2.43.0


From ff783f3d28343f44516beb3a28393a37fc3a707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 102/122] fix: Grid.animate of four and more dimensions steps
 along the dimension asked for

---
 simim/map/gridder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index cbf620b..19779a1 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1951,7 +1951,9 @@ class Grid():
         plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[i0]))
         # plot_face.set(xlabel='Axis {}'.format(face_dims[0]),ylabel='Axis {}'.format(face_dims[1]))
 
-        map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i0,axis=slide_dim)
+        map_flat = np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims))
+        slide_dim_flat = slide_dim - np.sum(flatten_dims < slide_dim)
+        map_face = np.take(map_flat,indices=i0,axis=slide_dim_flat)
         if face_dims[0] < face_dims[1]:
             map_face = map_face.T
         if logscale:
@@ -1967,7 +1969,7 @@ class Grid():
             plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[i]))
             box.set_data([ax0[i],ax0[i],ax0[i+1],ax0[i+1],ax0[i]],
                          [ax2[0],ax2[-1],ax2[-1],ax2[0],ax2[0]])
-            map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i,axis=slide_dim)
+            map_face = np.take(map_flat,indices=i,axis=slide_dim_flat)
             if face_dims[0] < face_dims[1]:
                 map_face = map_face.T
             if logscale:
-- 
2.43.0


From ae3e3abd852388f799cd0a8d682454aa598ef67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 103/122] fix: plot_detector_response shows dx along x and dy
 along y

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index df5b68b..9401088 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -1065,7 +1065,7 @@ class Instrument:
 
             x = np.linspace(xmin,xmax,100)
             y = np.linspace(ymin,ymax,100)
-            axes[1].pcolor(x,y,d.spatial_response(x,y,fs_d,**d.spatial_kwargs)[:,:,0],vmin=0)
+            axes[1].pcolor(x,y,d.spatial_response(x,y,fs_d,**d.spatial_kwargs)[:,:,0].T,vmin=0)
 
         plt.show()
 
-- 
2.43.0


From 7482629b16492961011de3f112431dbdaa1387c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 104/122] fix: plot_spectral_response looks up the detectors'
 frequencies

---
 simim/instrument/instrument.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 9401088..29e1881 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -1084,9 +1084,9 @@ class Instrument:
         """
     
         if fmin is None:
-            fmin = 0.9 * np.min([d.reffreq for d in self.detectors.values])
+            fmin = 0.9 * np.min([d.reffreq for d in self.detectors.values()])
         if fmax is None:
-            fmax = 1.1 * np.max([d.reffreq for d in self.detectors.values])
+            fmax = 1.1 * np.max([d.reffreq for d in self.detectors.values()])
 
         fig,axes = plt.subplots(1,1,figsize=figsize)
         fig.subplots_adjust(left=.1,right=.95,top=.95,bottom=.15,wspace=.35)
@@ -1102,8 +1102,8 @@ class Instrument:
         else: 
             cmap = colormaps['Spectral']
 
-        order = np.argsort(self.detector_freqs)
-        for i in np.argsort(self.detector_freqs):
+        order = np.argsort([self.detectors[k].reffreq for k in self.detector_names])
+        for i in order:
             d = self.detectors[self.detector_names[i]]
             axes.plot(f, d.spectral_response(f, **d.spectral_kwargs), color=cmap(i/(len(self.detectors)-.99)))
 
-- 
2.43.0


From 8a63f823f488ad833438b1d6cf4227e42b387084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 105/122] fix: LCHandler.animate uses one unit system for halos
 and slices

---
 simim/lightcone/lchandler.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 73afad2..b31d2bf 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -360,10 +360,11 @@ class LCHandler(Handler):
         dec = self.return_property('dec',use_all_inds=use_all_inds,in_h_units=in_h_units)
         redshift = self.return_property('redshift',use_all_inds=use_all_inds,in_h_units=in_h_units)
 
-        # Get limits
-        phys_lim_xy = self.cosmo.comoving_transverse_distance(self.metadata['maximum redshift']).value * self.h * self.metadata['open angle']
-        phys_lim_zmax = self.cosmo.comoving_distance(self.metadata['maximum redshift']).value * self.h
-        phys_lim_zmin = self.cosmo.comoving_distance(self.metadata['minimum redshift']).value * self.h
+        # Get limits, in the units of the positions
+        hfac = self.h if in_h_units else 1
+        phys_lim_xy = self.cosmo.comoving_transverse_distance(self.metadata['maximum redshift']).value * hfac * self.metadata['open angle']
+        phys_lim_zmax = self.cosmo.comoving_distance(self.metadata['maximum redshift']).value * hfac
+        phys_lim_zmin = self.cosmo.comoving_distance(self.metadata['minimum redshift']).value * hfac
         obs_lim_xy = self.metadata['open angle'] * 180/np.pi*60
         obs_lim_zmax = self.metadata['maximum redshift']
         obs_lim_zmin = self.metadata['minimum redshift']
@@ -458,7 +459,7 @@ class LCHandler(Handler):
 
         def animate(i):
             #title
-            redshift = z_at_value(self.cosmo.comoving_distance, (phys_lim_zmin+step*(i+.5))*u.Mpc)
+            redshift = z_at_value(self.cosmo.comoving_distance, (phys_lim_zmin+step*(i+.5))/hfac*u.Mpc)
             title.set_text('redshift = {:.2f}'.format(redshift))
 
             #animate p1
@@ -476,7 +477,7 @@ class LCHandler(Handler):
             #animate p3
             radec_scatter.set_sizes(new_sizes)
 
-            r = self.cosmo.comoving_transverse_distance(redshift) * self.metadata['open angle']/2
+            r = self.cosmo.comoving_transverse_distance(redshift).value * hfac * self.metadata['open angle']/2
             if outline == 'circle':
                 xy_outline.set_data(r*np.cos(theta),r*np.sin(theta))
             else:
-- 
2.43.0


From 7e70b1915ecedad4758ebd5cd0a105889cdb41ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:37 +0000
Subject: [PATCH 106/122] fix: LCHandler.animate shows halos which all have the
 same mass

---
 simim/lightcone/lchandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index b31d2bf..c10ef56 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -384,7 +384,7 @@ class LCHandler(Handler):
         elif colorscale != 'linear':
             raise ValueError("colorscale not recognized")
         colormin = np.amin(colorprop)
-        colorrange = np.ptp(colorprop)
+        colorrange = np.ptp(colorprop) or 1 # all equal
         colors = cmap((colorprop-colormin)/colorrange)
 
         # Set up sizes
@@ -394,7 +394,7 @@ class LCHandler(Handler):
         elif sizescale != 'linear':
             raise ValueError("sizescale not recognized")
         sizemin = np.amin(sizeprop)
-        sizerange = np.ptp(sizeprop)
+        sizerange = np.ptp(sizeprop) or 1
         sizes = ((sizeprop-sizemin)/sizerange + .2) * 5
 
         # set up plots
-- 
2.43.0


From 5e6e9374fb188073d1245d589b95a1450a5cdd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 107/122] fix: LCHandler.animate with current versions of
 matplotlib

---
 simim/lightcone/lchandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index c10ef56..d36cd6d 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -454,7 +454,7 @@ class LCHandler(Handler):
             radec_scatter.set_sizes(np.zeros(len(x)))
 
         step = 50
-        nsteps = np.ceil((phys_lim_zmax-phys_lim_zmin)/step).astype('int')
+        nsteps = int(np.ceil((phys_lim_zmax-phys_lim_zmin)/step))
         step = np.ceil((phys_lim_zmax-phys_lim_zmin)/nsteps).astype('int')
 
         def animate(i):
-- 
2.43.0


From a71a79c3d2809059e0e2d5c9e2fa7f7b5ae1449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 108/122] fix: Handler.write_property removes a property it
 could not write completely

---
 simim/_handlers.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 1a9723f..ed914d6 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -1,5 +1,6 @@
 import warnings
 
+from contextlib import contextmanager
 import h5py
 import numpy as np
 
@@ -364,6 +365,18 @@ class Handler():
             if unload_to_disk:
                 self.unload_property(*names)
 
+    @contextmanager
+    def _removed_on_failure(self,file,property_name):
+        """Remove a property from the open file if writing it fails partway"""
+
+        try:
+            yield
+        except BaseException:
+            if property_name in file[self.groupname].keys():
+                del file[self.groupname][property_name]
+            self.properties_saved = [i for i in self.properties_saved if i != property_name]
+            raise
+
     def write_property(self,*property_names,overwrite=False,dtype=None):
         """Write a property from object memory onto the saved file on
         the disk
@@ -397,7 +410,7 @@ class Handler():
                 else:
                     raise ValueError("Property {} already exists".format(property_name))
 
-            with h5py.File(self.path,'a') as file:
+            with h5py.File(self.path,'a') as file, self._removed_on_failure(file,property_name):
                 if property_name in file[self.groupname].keys():
                     # Values of another type wouldn't survive in the existing dataset
                     if file[self.groupname][property_name].dtype != np.dtype(property_value.dtype if dtype is None else dtype):
-- 
2.43.0


From 18be3cd373802b7b41e948a102cce715b2392e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 109/122] fix: half-written snapshots in data.hdf5 are not
 taken for finished ones

---
 simim/siminterface/_rawsiminterface.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index 776a5ff..720907e 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -6,6 +6,7 @@ from urllib.request import urlretrieve
 from astropy.cosmology import FlatLambdaCDM
 from astropy.cosmology import z_at_value
 import astropy.units as u
+from contextlib import contextmanager
 import h5py
 import numpy as np
 
@@ -151,6 +152,18 @@ class Snapshot():
 #    -- dataset:
 #         note: mass units - Msun/h, lenghth units Mpc/h, time units Gyr/h
 
+@contextmanager
+def _removed_on_failure(file,name):
+    """Remove a group from the open file if writing it fails partway, it would
+    be taken for a finished one otherwise"""
+
+    try:
+        yield
+    except BaseException:
+        if name in file.keys():
+            del file[name]
+        raise
+
 class SimCatalogs():
     """Generic class for interacting with simulation halo catalogs and
     converting them into SimIM's preferred format.
@@ -562,7 +575,7 @@ class SimCatalogs():
                     mass_cuts['index'][i] = max(inds)+1
 
             # Now put it in the file
-            with h5py.File(os.path.join(self.path,'data.hdf5'), "a") as file:
+            with h5py.File(os.path.join(self.path,'data.hdf5'), "a") as file, _removed_on_failure(file,"Snapshot {}".format(snap)):
 
                 if "Snapshot {}".format(snap) in file.keys():
                     del file["Snapshot {}".format(snap)]
-- 
2.43.0


From 1bc5b8da2b4516be51d21fdb95f887cbb557aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 110/122] fix: LCMaker.add_properties removes fields it could
 not fill

---
 simim/lightcone/lcmaker.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 5cb78a8..80a0148 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -6,6 +6,7 @@ import warnings
 
 from astropy.cosmology import FlatLambdaCDM
 import astropy.units as u
+from contextlib import contextmanager
 import h5py
 import numpy as np
 from scipy.interpolate import interp1d
@@ -135,6 +136,22 @@ class GenericLCMaker():
 
         return dtypes
 
+    @contextmanager
+    def _removed_on_failure(self,*keys):
+        """Remove fields from the light cones if writing them fails partway,
+        they would be taken for complete otherwise"""
+
+        try:
+            yield
+        except BaseException:
+            for i in range(self.n):
+                with h5py.File(os.path.join(self.lc_path,'lc_{:04d}.hdf5'.format(i)),'a') as file:
+                    file.attrs['status_extra_completed'] = False
+                    for key in keys:
+                        if key in file['Lightcone Full'].keys():
+                            del file['Lightcone Full'][key]
+            raise
+
     def add_properties(self,*keys):
         """Select additional properties to include in the light cone.
         Should not be used for properties with position information (ie
@@ -174,6 +191,12 @@ class GenericLCMaker():
 
         keys = np.sort(new_lc_keys)
 
+        with self._removed_on_failure(*keys):
+            self._write_properties(keys)
+
+    def _write_properties(self,keys):
+        """Create and fill the fields for add_properties"""
+
         # Store properties with the precision they have in the simulation
         dtypes = self._get_dtypes(*[key if key != 'masscheck' else 'mass' for key in keys])
         if 'masscheck' in keys:
@@ -287,6 +310,12 @@ class GenericLCMaker():
 
         keys = np.sort(new_lc_keys)
 
+        with self._removed_on_failure(*[key+subkey for key in keys for subkey in ['_x','_y','_z']]):
+            self._write_pos_properties(keys)
+
+    def _write_pos_properties(self,keys):
+        """Create and fill the fields for add_pos_properties"""
+
         # Store properties with the precision they have in the simulation
         dtypes = self._get_dtypes(*[key+subkey for key in keys for subkey in ['_x','_y','_z']])
 
-- 
2.43.0


From 5d63aa5ced40321ee41b87af0590907fb0261253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 111/122] fix: scale_axis checks axunits before rescaling,
 accepts a list of one

---
 simim/map/gridder.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 19779a1..9e741d2 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -435,28 +435,27 @@ class Grid():
             factor = np.ones(len(ax))*factor[0]
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
-            
+
+        # Handle units inputs:
+        if isinstance(axunits,str) and axunits == 'same':
+            new_axunits = self.axunits[ax]
+            new_fourier_axunits = self.fourier_axunits[ax]
+        else:
+            new_axunits = np.array(axunits,ndmin=1,copy=True,dtype=object)
+            if len(new_axunits) == 1:
+                new_axunits = np.array([new_axunits[0] for i in ax],dtype=object)
+            if len(new_axunits) != len(ax):
+                raise ValueError('length of axunits must be 1 or match the length of ax')
+            new_fourier_axunits = np.array([i+'^-1' if i is not None else None for i in new_axunits],ndmin=1,dtype=object)
+
         for j,i in enumerate(ax):
             if scalecenter:
                 self.center_point[i] *= factor[j]
             self.side_length[i] *= factor[j]
             self.pixel_size[i] *= factor[j]
 
-            # Handle units inputs:
-            if axunits is None:
-                self.axunits[i] = None
-                self.fourier_axunits[i] = None
-            elif axunits == 'same':
-                self.axunits[i] = self.axunits[i]
-                self.fourier_axunits[i] = self.fourier_axunits[i]
-            elif len(np.array(axunits,ndmin=1,copy=True))==1:
-                self.axunits[i] = axunits
-                self.fourier_axunits[i] = axunits+'^-1'
-            elif len(np.array(axunits,ndmin=1,copy=True))==len(ax):
-                self.axunits[i] = axunits[j]
-                self.fourier_axunits[i] = axunits[j]+'^-1'
-            else:
-                raise ValueError('length of axunits must be 1 or match the length of ax')
+            self.axunits[i] = new_axunits[j]
+            self.fourier_axunits[i] = new_fourier_axunits[j]
 
             # Set up the grid - make sure the side length is compatible with
             # number of pixels
-- 
2.43.0


From 314cbb77278704d4e4fce860f2a222a5206863c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 112/122] fix: crop refuses limits between two cell centers
 before emptying the grid

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 9e741d2..7511351 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -385,7 +385,7 @@ class Grid():
         if max <= min:
             raise ValueError("max must be greater than min")
         
-        if np.all(self.axes_centers[ax]>max) or np.all(self.axes_centers[ax]<min):
+        if not np.any((self.axes_centers[ax]>=min) & (self.axes_centers[ax]<=max)):
             raise ValueError("No cells within specified limits")
 
         # Crop the grid
-- 
2.43.0


From fedcd44804d205858b39f62ba903d4ce4bf08ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 113/122] fix: down_sample refuses factors larger than the grid
 before changing it

---
 simim/map/gridder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 7511351..d7ede9b 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1199,6 +1199,9 @@ class Grid():
             if self.fourier_space[i]:
                 raise ValueError("Downsampling not supported for Fourier space (see the pad method)")
 
+        if np.any(factor<1) or np.any(factor>self.n_pixels[ax]):
+            raise ValueError("factor must be at least 1 and no larger than the number of pixels")
+
         # Set the function to do the collapsing of cells
         if mode == 'average':
             use_function = np.mean
-- 
2.43.0


From d47807380f282d53153b6becbd10a9764b56e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 114/122] fix: convolve checks the shape of the source before
 padding the grid

---
 simim/map/gridder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index d7ede9b..1190c98 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1145,6 +1145,11 @@ class Grid():
         else:
             pad = np.array(pad).astype(int)
 
+        # Axes that aren't convolved must match
+        for i in np.setdiff1d(np.arange(self.grid.ndim),ax):
+            if shape[i] != self.grid.shape[i] and shape[i] != 1 and self.grid.shape[i] != 1:
+                raise ValueError("source grid shape ({}) is not compatible with grid ({})".format(tuple(shape),self.grid.shape))
+
         # Do the dang thing
         if in_place:
             self.pad(ax,pad)
-- 
2.43.0


From 3f88f5c92b5774183fed1eb3c2c1f893beb13600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 115/122] fix: power_spectrum checks the pixels of cross_grid
 before transforming it

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 1190c98..ca9a5c7 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1489,6 +1489,8 @@ class Grid():
                 raise ValueError("This cross_grid is already a power spectrum")
             if cross_grid.n_dimensions != self.n_dimensions:
                 raise ValueError("grid n_dimensions ({}) does not match cross_grid ({})".format(self.n_dimensions,cross_grid.n_dimensions))
+            if np.any(cross_grid.n_pixels != self.n_pixels):
+                raise ValueError("grid n_pixels ({}) does not match cross_grid ({})".format(self.n_pixels,cross_grid.n_pixels))
             if cross_grid.n_properties != 1 and self.n_properties != 1:
                 if cross_grid.n_properties != self.n_properties:
                     raise ValueError("grid n_properties ({}) is not compatible cross_grid ({})".format(self.n_properties,cross_grid.n_properties))
-- 
2.43.0


From 8e93b2b960b61cc3b18996382ca9b3c7feb2335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 116/122] fix: add_from_pos_plus_array leaves the axes in order
 when adding fails

---
 simim/map/gridder.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index ca9a5c7..c66030a 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -761,15 +761,11 @@ class Grid():
         # Move array-axis to predictable location (end of grid)
         if not new_prop:
             if properties is None:
-                self.grid = np.moveaxis(self.grid,ax,-2)
-                np.add.at(self.grid, positions, np.expand_dims(values,2))
-                self.grid = np.moveaxis(self.grid,-2,ax)
+                np.add.at(np.moveaxis(self.grid,ax,-2), positions, np.expand_dims(values,2))
             else:
                 properties = self._check_property_input(properties)
                 for ip in properties:
-                    self.grid = np.moveaxis(self.grid,ax,-2)
-                    np.add.at(self.grid, positions+(slice(None),ip,), values)
-                    self.grid = np.moveaxis(self.grid,-2,ax)
+                    np.add.at(np.moveaxis(self.grid,ax,-2), positions+(slice(None),ip,), values)
 
 
         else:
-- 
2.43.0


From 2954070b5763506ad93e36b598b21b82486afa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 117/122] fix: add_detector refuses the name of the instrument
 defaults

---
 simim/instrument/instrument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 29e1881..dfad5b9 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -495,6 +495,8 @@ class Instrument:
         # Set name
         if name is None:
             name = str(self.detector_counter)
+        if name == 'instrument':
+            raise ValueError("'instrument' refers to the defaults of the instrument, it can't name a detector")
         if name in self.detector_names:
             raise ValueError("Name already in use - this may be because you specified a pre-existing name or because another detector has been given a numerical name that would have been used as a default")
         
-- 
2.43.0


From d0a2e5b852ad47cf2041eb67a2415f02054fbdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 118/122] fix: eval_stat_evo restores the selection when the
 statistic fails

---
 simim/lightcone/lchandler.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index d36cd6d..5b70889 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -200,6 +200,18 @@ class LCHandler(Handler):
 
         inds_active_save = np.copy(self.inds_active)
 
+        try:
+            vals = self._eval_stat_bins(redshift_bins, stat_function, kwargs, kw_remap, other_kws, zmin_kw, zmax_kw, volume_kw, give_args_in_h_units)
+        finally:
+            # Reset active inds
+            self.inds_active = np.copy(inds_active_save)
+            self.nhalos_active = len(self.inds_active)
+
+        return redshift_bins, vals
+
+    def _eval_stat_bins(self, redshift_bins, stat_function, kwargs, kw_remap, other_kws, zmin_kw, zmax_kw, volume_kw, give_args_in_h_units):
+        """Evaluate the statistic for eval_stat_evo, leaves the last bin selected"""
+
         vals = []
         for bin in range(len(redshift_bins)-1):
             self.set_property_range('redshift',
@@ -223,11 +235,7 @@ class LCHandler(Handler):
                                        use_all_inds=False,
                                        give_args_in_h_units=give_args_in_h_units))
 
-        # Reset active inds
-        self.inds_active = np.copy(inds_active_save)
-        self.nhalos_active = len(self.inds_active)
-
-        return redshift_bins, vals
+        return vals
 
     def grid(self, *property_names, 
              restfreq=None,
-- 
2.43.0


From cc7b02fd4758c3d841656ad7c8a1c555d848a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 119/122] fix: Handlers check all properties before loading,
 writing or deleting any

---
 simim/_handlers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index ed914d6..09f1276 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -153,11 +153,12 @@ class Handler():
         none
         """
 
+        # Check properties exist
         for property_name in property_names:
-            # Check property exists
             if not property_name in self.properties_saved:
                 raise ValueError("{} does not have property {} saved".format(self.objectname,property_name))
 
+        for property_name in property_names:
             # Get the values
             with h5py.File(self.path,'r') as file:
                 property_value = file[self.groupname][property_name][:]
@@ -398,11 +399,10 @@ class Handler():
         None
         """
 
+        # Check everything before writing anything
         for property_name in property_names:
             if not property_name in self.properties_loaded.keys():
-                raise ValueError("Property {} not loaded, cannot write to disk")
-            else:
-                property_value = self.properties_loaded[property_name]
+                raise ValueError("Property {} not loaded, cannot write to disk".format(property_name))
 
             if property_name in self.properties_saved:
                 if overwrite:
@@ -410,6 +410,9 @@ class Handler():
                 else:
                     raise ValueError("Property {} already exists".format(property_name))
 
+        for property_name in property_names:
+            property_value = self.properties_loaded[property_name]
+
             with h5py.File(self.path,'a') as file, self._removed_on_failure(file,property_name):
                 if property_name in file[self.groupname].keys():
                     # Values of another type wouldn't survive in the existing dataset
@@ -441,10 +444,12 @@ class Handler():
         None
         """
 
+        # Check everything before deleting anything
         for property_name in property_names:
             if property_name not in self.properties_saved:
                 raise ValueError("Property {} is not in the saved file".format(property_name))
 
+        for property_name in property_names:
             with h5py.File(self.path,'a') as file:
                 if property_name not in file[self.groupname].keys():
                     raise ValueError("This property cannot be deleted")
-- 
2.43.0


From 81af1e719b92bac467c0ce650613d5bc7313e491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 120/122] fix: SimHandler checks all snapshots before making or
 deleting properties

---
 simim/siminterface/simhandler.py | 67 +++++++++++++++++---------------
 1 file changed, 36 insertions(+), 31 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index ea73f1f..5ca8a99 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -547,32 +547,35 @@ class SimHandler():
 
         if not self.init_snaps and not write:
             raise ValueError("This handler instance was not initialized with snapshots available")
+
+        if write:
+            if isinstance(rename,str):
+                rename = [rename]
+            if rename is None:
+                names = property.names
+            elif len(rename) != property.n_props:
+                raise ValueError("Length of rename list doesn't match number of properties")
+            else:
+                names = rename
+
+            # Check all snapshots before changing any
+            with h5py.File(os.path.join(self.path,'data.hdf5'),'r') as file:
+                for snap in self.snap_meta['index']:
+                    group = file['Snapshot {}'.format(snap)]
+                    for name in names:
+                        if name in group.keys():
+                            if not overwrite:
+                                raise ValueError("Property {} already exists".format(name))
+                            elif 'userdefined' not in group[name].attrs.keys():
+                                raise ValueError("Property {} is not userd-defined and cannot be overwritten".format(name))
+                            else:
+                                warnings.warn("Property {} already exists, overwriting".format(name))
+
         for i in range(len(self.snap_meta)):
             snap = self.snap_meta['index'][i]
             print("\033[1m"+"Assigning props for Snapshot {}.  ".format(snap)+"\033[0m",end='\r')
             handler = self.get_snap(snap)
 
-            if write:
-                if isinstance(rename,str):
-                    rename = [rename]
-                if rename is None:
-                    names = property.names
-                elif len(rename) != property.n_props:
-                    raise ValueError("Length of rename list doesn't match number of properties")
-                else:
-                    names = rename
-
-                if i==0:
-                    with h5py.File(handler.path,'a') as file:
-                        for name in names:
-                            if name in file[handler.groupname].keys():
-                                if not overwrite:
-                                    raise ValueError("Property {} already exists".format(name))
-                                elif 'userdefined' not in file[handler.groupname][name].attrs.keys():
-                                    raise ValueError("Property {} is not userd-defined and cannot be overwritten".format(name))
-                                else:
-                                    warnings.warn("Property {} already exists, overwriting".format(name))
-
             handler.make_property(property=property,
                                   rename=rename,
                                   kw_remap=kw_remap,
@@ -598,19 +601,21 @@ class SimHandler():
         None
         """
 
+        # Check all snapshots before changing any
+        with h5py.File(os.path.join(self.path,'data.hdf5'),'r') as file:
+            for snap in self.snap_meta['index']:
+                group = file['Snapshot {}'.format(snap)]
+                for name in property_names:
+                    if name not in group.keys():
+                        raise ValueError("Property {} is not in the saved file".format(name))
+                    elif 'userdefined' not in group[name].attrs.keys():
+                        raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
+                    elif not group[name].attrs['userdefined']:
+                        raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
+
         for i in range(len(self.snap_meta)):
             snap = self.snap_meta['index'][i]
             handler = self.get_snap(snap)
-
-            if i==0:
-                with h5py.File(handler.path,'a') as file:
-                    for name in property_names:
-                        if name in file[handler.groupname].keys():
-                            if 'userdefined' not in file[handler.groupname][name].attrs.keys():
-                                raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
-                            elif not file[handler.groupname][name].attrs['userdefined']:
-                                raise ValueError("Property {} is not userd-defined and cannot be deleted".format(name))
-
             handler.delete_property(*property_names)
 
     def snap_stat(self, stat_function, kwargs, kw_remap={}, other_kws={},
-- 
2.43.0


From e6f641cf74846d23e6a897e8c055dc03db971d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 121/122] fix: a refused light cone request leaves its name
 free

---
 simim/lightcone/lcmaker.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 80a0148..b252d46 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -82,8 +82,6 @@ class GenericLCMaker():
                 answer = input("Do you wish to proceed? y/n: ")
         elif os.path.exists(self.lc_path) and overwrite==False:
             raise ValueError("name already in use")
-        elif not os.path.exists(self.lc_path):
-            os.mkdir(self.lc_path)
         self.name = name
 
         # Save parameters
@@ -115,6 +113,12 @@ class GenericLCMaker():
         else:
             self.copies_max = 1
 
+    def _make_path(self):
+        """Create the folder for the light cones, once everything has been checked"""
+
+        if not os.path.exists(self.lc_path):
+            os.mkdir(self.lc_path)
+
     def _get_dtypes(self,*keys):
         """Look up the data types properties are stored with in the simulation
 
@@ -507,6 +511,8 @@ class LCMaker(GenericLCMaker):
                     self.snapshots_use = np.concatenate((self.snapshots_use,[i]))
         self.snapshots_use = np.sort(self.snapshots_use,order='redshift')
 
+        self._make_path()
+
     def _initialize_los(self,openradius,rng):
         """Generates a line of sight for simulated light cones
 
@@ -998,6 +1004,8 @@ class SphereMaker(GenericLCMaker):
                     self.snapshots_use = np.concatenate((self.snapshots_use,[i]))
         self.snapshots_use = np.sort(self.snapshots_use,order='redshift')
 
+        self._make_path()
+
     def build_lightcones(self,
                          n=1,
                          rng=np.random.default_rng()):
-- 
2.43.0


From 375396791e8f008d9b1a6240415d49628166388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:31 +0000
Subject: [PATCH 122/122] fix: LCHandler.volume of circular light cones made
 with an aspect ratio

---
 simim/lightcone/lchandler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 5b70889..b095e9d 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -159,9 +159,11 @@ class LCHandler(Handler):
         elif shape == self.metadata['shape'] or self.metadata['shape'] == 'box':
             if open_angle > self.metadata['open angle']:
                 raise ValueError("openangle larger than lightcone")
-            short_angle = open_angle*aspect_ratio if shape == 'box' else open_angle
-            if short_angle > self.metadata['open angle']*self.metadata['aspect ratio']:
-                raise ValueError("secondary angle (openangle * aspect) larger than lightcone")
+            # The aspect ratio only applies to rectangular light cones
+            if self.metadata['shape'] == 'box':
+                short_angle = open_angle*aspect_ratio if shape == 'box' else open_angle
+                if short_angle > self.metadata['open angle']*self.metadata['aspect ratio']:
+                    raise ValueError("secondary angle (openangle * aspect) larger than lightcone")
 
         if shape == 'box' and self.metadata['shape'] == 'circle':
             radius2 = open_angle**2 + (open_angle*aspect_ratio)**2
-- 
2.43.0

