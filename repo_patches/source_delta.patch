From 15638a5b5140dd0996467dddd4a2376a19af36cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 01/46] fix: propagate error codes dropped in src/fv/share

Calls returning PetscErrorCode whose result was discarded or overwritten
unchecked now reach CHKERRQ, so that a failure is reported to the caller.
---
 src/fv/share/tdydm.c         |  2 +-
 src/fv/share/tdymesh.c       |  4 +--
 src/fv/share/tdymeshcustom.c | 30 +++++++++---------
 src/fv/share/tdymeshplex.c   | 61 ++++++++++++++++++------------------
 src/fv/share/tdyugdm.c       |  4 +--
 src/fv/share/tdyugrid.c      | 26 +++++++--------
 6 files changed, 64 insertions(+), 63 deletions(-)

diff --git a/src/fv/share/tdydm.c b/src/fv/share/tdydm.c
index 0626546..8b5db80 100644
--- a/src/fv/share/tdydm.c
+++ b/src/fv/share/tdydm.c
@@ -29,7 +29,7 @@ PetscErrorCode TDyDMDestroy(TDyDM *tdydm) {
   ierr = DMDestroy(&tdydm->dm); CHKERRQ(ierr);
   ierr = TDyUGDMDestroy(tdydm->ugdm); CHKERRQ(ierr);
 
-  TDyFree(tdydm);
+  ierr = TDyFree(tdydm); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index 1306f79..dcd0665 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -201,7 +201,7 @@ PetscErrorCode AllocateVertices(
 
   }
 
-  TDyInitialize_IntegerArray_1D(vertices->face_ids, num_vertices*nfaces_per_vertex, 0);
+  ierr = TDyInitialize_IntegerArray_1D(vertices->face_ids, num_vertices*nfaces_per_vertex, 0); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 
@@ -899,7 +899,7 @@ PetscErrorCode TDyMeshDestroy(TDyMesh *mesh) {
   ierr = TDyFree(mesh->faces.centroid); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.normal); CHKERRQ(ierr);
 
-  ierr = TDyFree(mesh->closureSize);
+  ierr = TDyFree(mesh->closureSize); CHKERRQ(ierr);
   ierr = TDyDeallocate_IntegerArray_2D(mesh->closure,
             mesh->num_cells+mesh->num_faces+mesh->num_edges+mesh->num_vertices);
   CHKERRQ(ierr);
diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index 5b54a99..2c03751 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -22,10 +22,10 @@ static PetscErrorCode TDyMeshMapIndices(TDyDiscretizationType *discretization, T
   TDyMesh *mesh_ptr = *mesh;
 
   TDyUGrid *ugrid;
-  ierr = TDyDiscretizationGetTDyUGrid(discretization,&ugrid);
+  ierr = TDyDiscretizationGetTDyUGrid(discretization,&ugrid); CHKERRQ(ierr);
 
   TDyUGDM *ugdm;
-  ierr = TDyDiscretizationGetTDyUGDM(discretization,&ugdm);
+  ierr = TDyDiscretizationGetTDyUGDM(discretization,&ugdm); CHKERRQ(ierr);
 
   PetscInt ngmax = ugrid->num_cells_global;
   PetscInt nlmax = ugrid->num_cells_local;
@@ -149,7 +149,7 @@ static PetscErrorCode TDySetupCellsFromDiscretization(TDyDiscretizationType *dis
 
   // compute number of vertices per grid cell
   TDyUGrid *ugrid;
-  ierr = TDyDiscretizationGetTDyUGrid(discretization, &ugrid);
+  ierr = TDyDiscretizationGetTDyUGrid(discretization, &ugrid); CHKERRQ(ierr);
 
   PetscInt nverts_per_cell = ugrid->max_verts_per_cell;
   PetscInt num_cells = ugrid->num_cells_global;
@@ -611,7 +611,7 @@ static PetscErrorCode SetupMaps_C2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_
       face_count++;
     }
   }
-  TDyFree(vertex_ids);
+  ierr = TDyFree(vertex_ids); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -748,7 +748,7 @@ static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_
       face_to_cell[i][iface] = tmp_int_2d[i][iface];
     }
   }
-  ierr = TDyDeallocate_IntegerArray_2D(tmp_int_2d, 2);
+  ierr = TDyDeallocate_IntegerArray_2D(tmp_int_2d, 2); CHKERRQ(ierr);
 
   // Since duplicate faces have been removed, update the cell-to-face mapping
   for (PetscInt iface=0; iface<face_count; iface++) {
@@ -780,7 +780,7 @@ static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_
       }
     }
   }
-  TDyFree(tmp_int);
+  ierr = TDyFree(tmp_int); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -1018,8 +1018,8 @@ static PetscErrorCode ComputeTriAreasAndIntercpet(TDyUGrid *ugrid, PetscInt v_id
     v1[idim] = point3[idim] - point2[idim];
     v2[idim] = point1[idim] - point2[idim];
   }
-  ierr = TDyCrossProduct(v1,v2,cross_prod);
-  ierr = TDyDotProduct(cross_prod,cross_prod,&dot_prod);
+  ierr = TDyCrossProduct(v1,v2,cross_prod); CHKERRQ(ierr);
+  ierr = TDyDotProduct(cross_prod,cross_prod,&dot_prod); CHKERRQ(ierr);
 
   PetscReal magnitude = PetscPowReal(dot_prod,0.5);
 
@@ -1093,12 +1093,12 @@ static PetscErrorCode ComputeGeoAttrOfInternalFaces(TDyUGrid *ugrid, TDyMesh **m
     PetscInt vertex_id3 = ugrid->face_to_vertex[2][ugrid_face_id];
     PetscInt vertex_id4 = -1;
 
-    ierr = ComputeTriAreasAndIntercpet(ugrid, vertex_id1, vertex_id2, vertex_id3, point_up, point_dn, n_up_dn, &area1, &area_projected1, intercept1);
+    ierr = ComputeTriAreasAndIntercpet(ugrid, vertex_id1, vertex_id2, vertex_id3, point_up, point_dn, n_up_dn, &area1, &area_projected1, intercept1); CHKERRQ(ierr);
 
     if (faces->num_vertices[face_id] == 4) {
       vertex_id4 = ugrid->face_to_vertex[3][ugrid_face_id];
 
-      ierr = ComputeTriAreasAndIntercpet(ugrid, vertex_id1, vertex_id4, vertex_id3, point_up, point_dn, n_up_dn, &area2, &area_projected2, intercept2);
+      ierr = ComputeTriAreasAndIntercpet(ugrid, vertex_id1, vertex_id4, vertex_id3, point_up, point_dn, n_up_dn, &area2, &area_projected2, intercept2); CHKERRQ(ierr);
       for (PetscInt idim=0; idim<dim; idim++) {
         intercept[idim] = (intercept1[idim] + intercept2[idim])/2.0;
       }
@@ -1237,7 +1237,7 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   // cell_to_face
   // vertex_to_cell
   TDyUGrid *ugrid;
-  ierr = TDyDiscretizationGetTDyUGrid(discretization, &ugrid);
+  ierr = TDyDiscretizationGetTDyUGrid(discretization, &ugrid); CHKERRQ(ierr);
 
   PetscInt num_vertices_local = ugrid->num_verts_local;
   PetscInt ngmax = ugrid->num_cells_global;
@@ -1256,14 +1256,14 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   ierr = TDyAllocate_IntegerArray_2D(&ugrid->face_to_vertex_natural,max_vert_per_face, max_face_per_cell*ngmax); CHKERRQ(ierr);
 
   // Set up few mappings
-  ierr = SetupMaps_C2F_F2C_F2V(ugrid,cell_to_face,face_to_cell,face_to_vertex);
+  ierr = SetupMaps_C2F_F2C_F2V(ugrid,cell_to_face,face_to_cell,face_to_vertex); CHKERRQ(ierr);
 
   // Remove duplicate faces that are shared between two cells
   ierr = RemoveDuplicateFaces(ugrid, face_to_vertex, face_to_cell, cell_to_face); CHKERRQ(ierr);
 
   // Update the maps after removing duplicate faces
-  ierr = UpdateMapsC2F_F2C_F2V(ugrid, cell_to_face, face_to_cell, face_to_vertex);
-  ierr = TDyDeallocate_IntegerArray_2D(face_to_vertex, max_vert_per_face);
+  ierr = UpdateMapsC2F_F2C_F2V(ugrid, cell_to_face, face_to_cell, face_to_vertex); CHKERRQ(ierr);
+  ierr = TDyDeallocate_IntegerArray_2D(face_to_vertex, max_vert_per_face); CHKERRQ(ierr);
 
   // Set up vertex-to-cell mapping
   PetscInt **vertex_to_cell;
@@ -1273,7 +1273,7 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   ierr = SetupMap_V2C(ugrid, num_vertex_to_cell, vertex_to_cell); CHKERRQ(ierr);
 
   // Create internal faces
-  ierr = CreateInternalFaces(face_to_cell, cell_to_face, ugrid, mesh);
+  ierr = CreateInternalFaces(face_to_cell, cell_to_face, ugrid, mesh); CHKERRQ(ierr);
 
   // Compute geometric attributes of internal faces e.g. distances, areas, unit normal, etc
   ierr = ComputeGeoAttrOfInternalFaces(ugrid, mesh); CHKERRQ(ierr);
diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index d3674b2..47a1270 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -618,9 +618,9 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
 
     // Create the natural vector
     Vec natural;
-    ierr = DMCreateGlobalVector(dm, &natural);
+    ierr = DMCreateGlobalVector(dm, &natural); CHKERRQ(ierr);
     PetscInt natural_size, cum_natural_size;
-    ierr = VecGetLocalSize(natural, &natural_size);
+    ierr = VecGetLocalSize(natural, &natural_size); CHKERRQ(ierr);
     ierr = MPI_Scan(&natural_size, &cum_natural_size, 1, MPI_INT, MPI_SUM, PETSC_COMM_WORLD);CHKERRQ(ierr);
 
     // Add entries in the natural vector
@@ -650,7 +650,7 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
 
     // Save natural IDs
     PetscInt local_size;
-    ierr = VecGetLocalSize(local, &local_size);
+    ierr = VecGetLocalSize(local, &local_size); CHKERRQ(ierr);
     ierr = VecGetArray(local, &entries); CHKERRQ(ierr);
     for (PetscInt i = 0; i < local_size/num_fields; ++i) {
       cells->natural_id[i] = entries[i*num_fields];
@@ -688,7 +688,7 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
       ierr = DMGlobalToLocalEnd(dm, global, INSERT_VALUES, local); CHKERRQ(ierr);
 
       // Save the region ids
-      ierr = VecGetLocalSize(local, &local_size);
+      ierr = VecGetLocalSize(local, &local_size); CHKERRQ(ierr);
       ierr = VecGetArray(local, &entries); CHKERRQ(ierr);
 
       PetscInt ncells = local_size/num_fields;
@@ -698,7 +698,7 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
         cell_ids[i] = entries[i*num_fields];
       }
 
-      ierr = TDyRegionAddCells(ncells, cell_ids, &mesh->region_connected);
+      ierr = TDyRegionAddCells(ncells, cell_ids, &mesh->region_connected); CHKERRQ(ierr);
 
       ierr = VecRestoreArray(local, &entries); CHKERRQ(ierr);
 
@@ -1182,7 +1182,7 @@ static PetscErrorCode UpdateCellOrientationAroundAVertex(TDyMesh *mesh, PetscInt
   }
 
   // sort the thetas in anti-clockwise direction
-  PetscSortRealWithPermutation(count, theta, idx);
+  ierr = PetscSortRealWithPermutation(count, theta, idx); CHKERRQ(ierr);
 
   // determine the starting sorted index
   PetscInt start_idx = -1;
@@ -1396,7 +1396,7 @@ PetscErrorCode UpdateFaceOrientationAroundAVertex(TDyCoordinate *cell_centroid,
 
   PetscErrorCode ierr;
   ierr = TDyCrossProduct(a,b,axb); CHKERRQ(ierr);
-  ierr = TDyDotProduct(axb,c,&dot_prod);
+  ierr = TDyDotProduct(axb,c,&dot_prod); CHKERRQ(ierr);
 
   // If the dot prod is positive (f_idx[0], f_idx[1], f_idx[2]) form a plane such
   // that the normal to the plane is pointing towards the centroid of the control
@@ -1449,10 +1449,10 @@ PetscErrorCode UpdateIthTraversalOrder(TDyVertex *vertices, PetscInt ivertex, TD
 
   // Get pointers to the four cells
   PetscErrorCode ierr;
-  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][0], v1);
-  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][1], v2);
-  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][2], v3);
-  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][3], v4);
+  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][0], v1); CHKERRQ(ierr);
+  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][1], v2); CHKERRQ(ierr);
+  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][2], v3); CHKERRQ(ierr);
+  ierr = ExtractCentroidForIthJthTraversalOrder(vertices, ivertex, faces, cells, cell_traversal[i][3], v4); CHKERRQ(ierr);
 
   // Save (x,y,z) of the four cells, and
   // a vector joining centroid of four cells and the vertex (c2v_vec)
@@ -2388,6 +2388,7 @@ static PetscErrorCode ConvertCellsAntiClockwiseDirInTraversalDir(TDyMesh *mesh,
                                                                  PetscInt *cell_ids_abv_blw,
                                                                  PetscInt ncells_level,
                                                                  PetscInt *cell_traversal) {
+  PetscErrorCode ierr;
 
   PetscFunctionBegin;
 
@@ -2427,9 +2428,9 @@ static PetscErrorCode ConvertCellsAntiClockwiseDirInTraversalDir(TDyMesh *mesh,
 
   // Now add boundary faces in the traversal direction
   if (ncells_level>1) {
-    AddTwoBndFacesOfTwoCellsInTraversalDirection(mesh, ivertex, cell_ids_abv_blw, ncells_level, cell_traversal);
+    ierr = AddTwoBndFacesOfTwoCellsInTraversalDirection(mesh, ivertex, cell_ids_abv_blw, ncells_level, cell_traversal); CHKERRQ(ierr);
   } else if (ncells_level == 1) {
-    AddTwoBndFacesOfACellInTraversalDirection(mesh, ivertex, cell_ids_abv_blw, ncells_level, cell_traversal);
+    ierr = AddTwoBndFacesOfACellInTraversalDirection(mesh, ivertex, cell_ids_abv_blw, ncells_level, cell_traversal); CHKERRQ(ierr);
   }
 
   PetscFunctionReturn(0);
@@ -2881,11 +2882,11 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
 
       // For a given cell, find all face ids that are share a vertex
       PetscInt f_idx[3];
-      ierr = FindFaceIDsOfACellCommonToAVertex(cells->id[icell], faces, vertices, ivertex, f_idx, &num_shared_faces);
+      ierr = FindFaceIDsOfACellCommonToAVertex(cells->id[icell], faces, vertices, ivertex, f_idx, &num_shared_faces); CHKERRQ(ierr);
 
       // Update order of faces in f_idx so (face_ids[0], face_ids[1], face_ids[2])
       // form a plane such that normal to plane points toward the cell centroid
-      ierr = UpdateFaceOrientationAroundAVertex(&cells->centroid[icell], faces, vertices, ivertex, dim, f_idx);
+      ierr = UpdateFaceOrientationAroundAVertex(&cells->centroid[icell], faces, vertices, ivertex, dim, f_idx); CHKERRQ(ierr);
       for (PetscInt d=0;d<3;d++) {
         subcell_face_ids[d] = f_idx[d];
         subcell_vertex_ids[d] = ivertex;
@@ -2922,7 +2923,7 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
         PetscInt neighboring_vertex_ids[2];
 
         // Find 'n0' and 'n1'
-        ierr = FindNeighboringVerticesOfAFace(faces,face_id,ivertex,neighboring_vertex_ids);
+        ierr = FindNeighboringVerticesOfAFace(faces,face_id,ivertex,neighboring_vertex_ids); CHKERRQ(ierr);
 
         PetscReal edge0_cen[3], edge1_cen[3];
         TDyCoordinate *subcell_face_centroids;
@@ -2978,7 +2979,7 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
         ierr = TDyFace_GetCentroid(faces, face_id_3, dim, &f3[0]); CHKERRQ(ierr);
 
         // Compute (x_{f1_idx } - x_{cell_centroid}) x (x_{f2_idx } - x_{cell_centroid})
-        ierr = TDyNormalToTriangle(cell_cen, f1, f2, f_normal);
+        ierr = TDyNormalToTriangle(cell_cen, f1, f2, f_normal); CHKERRQ(ierr);
 
         // Save the data
         TDyVector *nu_vectors;
@@ -3043,7 +3044,7 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
   ierr = TDyAllocate_IntegerArray_2D(&cellsAbove, mesh->num_vertices, ncells_per_vertex); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_2D(&cellsBelow, mesh->num_vertices, ncells_per_vertex); CHKERRQ(ierr);
 
-  ierr = FindCellsAboveAndBelowVertices(mesh, cellsAbove, cellsBelow);
+  ierr = FindCellsAboveAndBelowVertices(mesh, cellsAbove, cellsBelow); CHKERRQ(ierr);
 
   for (PetscInt ivertex=0; ivertex<mesh->num_vertices; ivertex++) {
     if (vertices->num_internal_cells[ivertex] > 1 && vertices->is_local[ivertex]) {
@@ -3051,8 +3052,8 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
     }
   }
 
-  ierr = TDyDeallocate_IntegerArray_2D(cellsAbove, mesh->num_vertices);
-  ierr = TDyDeallocate_IntegerArray_2D(cellsBelow, mesh->num_vertices);
+  ierr = TDyDeallocate_IntegerArray_2D(cellsAbove, mesh->num_vertices); CHKERRQ(ierr);
+  ierr = TDyDeallocate_IntegerArray_2D(cellsBelow, mesh->num_vertices); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
@@ -3584,23 +3585,23 @@ static PetscErrorCode ComputeGeoAttrOfFaces(TDyMesh *mesh) {
 
       PetscReal plane[4], point1[dim], point2[dim], point3[dim], point4[dim];
 
-      ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[0], dim, &point1[0]);
-      ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[1], dim, &point2[0]);
-      ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[2], dim, &point3[0]);
+      ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[0], dim, &point1[0]); CHKERRQ(ierr);
+      ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[1], dim, &point2[0]); CHKERRQ(ierr);
+      ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[2], dim, &point3[0]); CHKERRQ(ierr);
 
-      ierr = ComputePlaneGeometry (point1, point2, point3, plane);
+      ierr = ComputePlaneGeometry (point1, point2, point3, plane); CHKERRQ(ierr);
 
       PetscReal intercept[3];
       PetscBool boundary_face = PETSC_FALSE;
 
       if (cell_id_up >= 0 && cell_id_dn >=0 ) { 
-        ierr = GeometryGetPlaneIntercept(plane, coord_up, coord_dn, intercept);
+        ierr = GeometryGetPlaneIntercept(plane, coord_up, coord_dn, intercept); CHKERRQ(ierr);
       } else {
         boundary_face = PETSC_TRUE;
         if (cell_id_up >= 0 ) {
-          ierr = GeometryProjectPointOnPlane(plane, coord_up, intercept);
+          ierr = GeometryProjectPointOnPlane(plane, coord_up, intercept); CHKERRQ(ierr);
         } else {
-          ierr = GeometryProjectPointOnPlane(plane, coord_dn, intercept);
+          ierr = GeometryProjectPointOnPlane(plane, coord_dn, intercept); CHKERRQ(ierr);
         }
       }
 
@@ -3608,9 +3609,9 @@ static PetscErrorCode ComputeGeoAttrOfFaces(TDyMesh *mesh) {
         if (num_vertices == 4) {
           PetscReal plane2[4];
 
-          ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[3], dim, &point4[0]);
+          ierr = TDyVertex_GetCoordinate(vertices, vertex_ids[3], dim, &point4[0]); CHKERRQ(ierr);
 
-          ierr = ComputePlaneGeometry (point2, point3, point4, plane2);
+          ierr = ComputePlaneGeometry (point2, point3, point4, plane2); CHKERRQ(ierr);
 
           PetscReal intercept2[3];
           ierr = GeometryGetPlaneIntercept(plane2, coord_up, coord_dn, intercept2); CHKERRQ(ierr);
@@ -3772,7 +3773,7 @@ PetscErrorCode TDyMeshCreateFromPlex(DM dm, PetscReal **volumes, PetscReal **coo
   ierr = UpdateFaceOrderAroundAVertex(dm, m); CHKERRQ(ierr);
   ierr = UpdateCellOrientationAroundAFace(dm, m); CHKERRQ(ierr);
   ierr = SetupSubcells(dm, m); CHKERRQ(ierr);
-  ierr = ComputeGeoAttrOfFaces(m);
+  ierr = ComputeGeoAttrOfFaces(m); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
diff --git a/src/fv/share/tdyugdm.c b/src/fv/share/tdyugdm.c
index 345277f..a14f93d 100644
--- a/src/fv/share/tdyugdm.c
+++ b/src/fv/share/tdyugdm.c
@@ -92,10 +92,10 @@ PetscErrorCode TDyUGDMDestroy(TDyUGDM *ugdm){
   }
 
   if (ugdm->Mapping_LocalCells_to_GhostedCells != NULL) {
-    ISLocalToGlobalMappingDestroy(&ugdm->Mapping_LocalCells_to_GhostedCells);
+    ierr = ISLocalToGlobalMappingDestroy(&ugdm->Mapping_LocalCells_to_GhostedCells); CHKERRQ(ierr);
   }
 
-  TDyFree(ugdm);
+  ierr = TDyFree(ugdm); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index 0450776..ed92f01 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -98,10 +98,10 @@ static PetscErrorCode ReadPFLOTRANMeshFile(const char *mesh_file, TDyUGrid *ugri
 
   // Save information about cells
   PetscInt vec_cells_size;
-  ierr = VecGetSize(cells, &ugrid->num_cells_global);
-  ierr = VecGetLocalSize(cells, &vec_cells_size);
+  ierr = VecGetSize(cells, &ugrid->num_cells_global); CHKERRQ(ierr);
+  ierr = VecGetLocalSize(cells, &vec_cells_size); CHKERRQ(ierr);
   PetscInt blocksize;
-  ierr = VecGetBlockSize(cells, &blocksize);
+  ierr = VecGetBlockSize(cells, &blocksize); CHKERRQ(ierr);
   *num_cells_local = (PetscInt) (vec_cells_size/blocksize);
 
   *max_verts_per_cell = blocksize - 1;
@@ -135,9 +135,9 @@ static PetscErrorCode ReadPFLOTRANMeshFile(const char *mesh_file, TDyUGrid *ugri
 
   // Save information about vertices
   PetscInt vert_dim, vec_verts_size;
-  ierr = VecGetSize(verts, &ugrid->num_verts_global);
-  ierr = VecGetLocalSize(verts, &vec_verts_size);
-  ierr = VecGetBlockSize(verts, &vert_dim);
+  ierr = VecGetSize(verts, &ugrid->num_verts_global); CHKERRQ(ierr);
+  ierr = VecGetLocalSize(verts, &vec_verts_size); CHKERRQ(ierr);
+  ierr = VecGetBlockSize(verts, &vert_dim); CHKERRQ(ierr);
   if (vert_dim != 3) {
     ierr = PetscObjectGetComm((PetscObject)verts, &comm); CHKERRQ(ierr);
     SETERRQ(comm,PETSC_ERR_USER,"Vertices in the the HDF5 is not 3D");
@@ -728,7 +728,7 @@ static PetscErrorCode UpdateNaturalCellIDs(PetscInt stride, PetscInt dual_offset
   }
 
   PetscInt rank; MPI_Comm_rank(PETSC_COMM_WORLD,&rank);
-  TDyFree(ugrid->cell_ids_natural);
+  ierr = TDyFree(ugrid->cell_ids_natural); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&ugrid->cell_ids_natural, ngmax); CHKERRQ(ierr);
 
   for (PetscInt ilocal=0; ilocal<nlmax; ilocal++) {
@@ -838,10 +838,10 @@ static PetscErrorCode ScatterVecNatOrderToPetscOrder(PetscInt stride, PetscInt d
   ierr = CreateApplicationOrder(NewGlobalOffset, NewNumCellsLocal, ugrid); CHKERRQ(ierr);
 
   // Change cell and dual ids from natural-order to PETSc order
-  ierr = CellAndDualIDs_FromNatOrder_To_GlobalOrder(stride, dual_offset, NewNumCellsLocal, ugrid, &PostPartNatOrderVec, PetscOrderVec);
+  ierr = CellAndDualIDs_FromNatOrder_To_GlobalOrder(stride, dual_offset, NewNumCellsLocal, ugrid, &PostPartNatOrderVec, PetscOrderVec); CHKERRQ(ierr);
 
   // Change the dual ids from Glboal-order to local-order
-  ierr = DualIDs_FromPetscOrder_To_LocalOrder(stride, dual_offset, NewNumCellsLocal, NewGlobalOffset, ugrid, PetscOrderVec);
+  ierr = DualIDs_FromPetscOrder_To_LocalOrder(stride, dual_offset, NewNumCellsLocal, NewGlobalOffset, ugrid, PetscOrderVec); CHKERRQ(ierr);
 
   // Update the array that saves the natural cell ids to include ghost cells
   ierr = UpdateNaturalCellIDs(stride, dual_offset, &PostPartNatOrderVec, PetscOrderVec, ugrid); CHKERRQ(ierr);
@@ -1183,21 +1183,21 @@ PetscErrorCode TDyUGridCreateFromPFLOTRANMesh(const char *mesh_file, TDyUGrid *u
   ierr = CreateISNatOrderToPetscOrder(ugrid, NewCellRankIS, stride, &NatToPetscIS); CHKERRQ(ierr);
   ierr = CreateVectorNatOrder(ugrid, NewCellRankIS, stride, &NatOrderVec); CHKERRQ(ierr);
 
-  ierr = PackNatOrderVector(ugrid, DualMat, &NatOrderVec);
+  ierr = PackNatOrderVector(ugrid, DualMat, &NatOrderVec); CHKERRQ(ierr);
   ierr = MatDestroy(&DualMat); CHKERRQ(ierr);
 
   // Update the global offset
   ierr = MPI_Exscan(&NewNumCellsLocal, &(ugrid->global_offset), 1, MPI_INTEGER, MPI_SUM, PETSC_COMM_WORLD); CHKERRQ(ierr);
 
   Vec PetscOrderVec;
-  ierr = ScatterVecNatOrderToPetscOrder(stride, dual_offset, NewNumCellsLocal, &NatOrderVec, &NatToPetscIS, ugrid, &PetscOrderVec);
+  ierr = ScatterVecNatOrderToPetscOrder(stride, dual_offset, NewNumCellsLocal, &NatOrderVec, &NatToPetscIS, ugrid, &PetscOrderVec); CHKERRQ(ierr);
   ierr = ISDestroy(&NatToPetscIS); CHKERRQ(ierr);
 
    Vec LocalOrderVec;
-   ierr = ScatterVecPetscOrderToLocalOrder(stride, &PetscOrderVec, ugrid, &LocalOrderVec);
+   ierr = ScatterVecPetscOrderToLocalOrder(stride, &PetscOrderVec, ugrid, &LocalOrderVec); CHKERRQ(ierr);
    ierr = VecDestroy(&PetscOrderVec); CHKERRQ(ierr);
 
-   ierr = ScatterVertexNatOrderToLocalOrder(stride, vertex_ids_offset, ugrid, &LocalOrderVec);
+   ierr = ScatterVertexNatOrderToLocalOrder(stride, vertex_ids_offset, ugrid, &LocalOrderVec); CHKERRQ(ierr);
    ierr = VecDestroy(&LocalOrderVec); CHKERRQ(ierr);
 
   //ierr = MatDestroy(&AdjMat); CHKERRQ(ierr);
-- 
2.43.0


From b86cc8d9cc09196d8d084d1ed741f818302e442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 02/46] fix: propagate error codes dropped in src/fv/mpfao

Calls returning PetscErrorCode whose result was discarded or overwritten
unchecked now reach CHKERRQ, so that a failure is reported to the caller.
---
 src/fv/mpfao/tdympfao.c                 | 156 ++++++++++++------------
 src/fv/mpfao/tdympfao_snes.c            |   2 +-
 src/fv/mpfao/tdympfao_snes_salinity.c   |   4 +-
 src/fv/mpfao/tdympfao_steady.c          |   4 +-
 src/fv/mpfao/tdympfao_th_ts.c           |   8 +-
 src/fv/mpfao/tdympfao_ts.c              |   4 +-
 src/fv/mpfao/tdympfao_ts_dae.c          |  10 +-
 src/fv/mpfao/tdympfao_ts_transientvar.c |   2 +-
 src/fv/mpfao/tdympfao_utils.c           |  10 +-
 9 files changed, 100 insertions(+), 100 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index fcd24f1..cdf8555 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -564,9 +564,9 @@ PetscErrorCode TDyDestroy_MPFAO(void *context) {
     ierr = TDyFree(mpfao->mu_saline); CHKERRQ(ierr);
   }
 
-  ierr = TDyMeshDestroy(mpfao->mesh);
+  ierr = TDyMeshDestroy(mpfao->mesh); CHKERRQ(ierr);
 
-  TDyFree(mpfao);
+  ierr = TDyFree(mpfao); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -1029,11 +1029,11 @@ static PetscErrorCode ComputeCandFmatrix(TDyMPFAO *mpfao, PetscInt ivertex,
     ierr = TDyMeshGetSubcellFaceFluxIdxs(mesh, subcell_id, &face_flux_idx, &subcell_num_faces); CHKERRQ(ierr);
 
     if (varID == VAR_PRESSURE) {
-      ierr = ExtractSubGmatrix(mpfao, icell, isubcell, ndim, Gmatrix);
+      ierr = ExtractSubGmatrix(mpfao, icell, isubcell, ndim, Gmatrix); CHKERRQ(ierr);
     } else if (varID == VAR_TEMPERATURE){
-      ierr = ExtractTempSubGmatrix(mpfao, icell, isubcell, ndim, Gmatrix);
+      ierr = ExtractTempSubGmatrix(mpfao, icell, isubcell, ndim, Gmatrix); CHKERRQ(ierr);
     } else if (varID == VAR_SALINE_CONCENTRATION){
-      ierr = ExtractPsiSubGmatrix(mpfao, icell, isubcell, ndim, Gmatrix);
+      ierr = ExtractPsiSubGmatrix(mpfao, icell, isubcell, ndim, Gmatrix); CHKERRQ(ierr);
     }
 
     PetscInt idx_interface_p0, idx_interface_p1, idx_interface_p2;
@@ -1162,7 +1162,7 @@ static PetscErrorCode ComputeTransmissibilityMatrix_ForNonCornerVertex(
   PetscInt nflux_all_bc_up, nflux_all_bc_dn;
   PetscInt nflux_dir_bc_up, nflux_dir_bc_dn;
   PetscInt nflux_neu_bc_up, nflux_neu_bc_dn;
-  ierr = DetermineNumberOfUpAndDownBoundaryFaces(mpfao, ivertex, &nflux_all_bc_up, &nflux_all_bc_dn);
+  ierr = DetermineNumberOfUpAndDownBoundaryFaces(mpfao, ivertex, &nflux_all_bc_up, &nflux_all_bc_dn); CHKERRQ(ierr);
 
   PetscInt npitf_dir_bc_all, npitf_neu_bc_all;
 
@@ -1202,32 +1202,32 @@ static PetscErrorCode ComputeTransmissibilityMatrix_ForNonCornerVertex(
   PetscInt npitf_in = nflux_in;
   PetscInt npitf = npitf_in + npitf_bc_all;
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, ndim, ndim);
+  ierr = TDyAllocate_RealArray_2D(&Gmatrix, ndim, ndim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Fup_all, nflux_in_plus_bcs_up, npcen);
-  ierr = TDyAllocate_RealArray_2D(&Cup_all, nflux_in_plus_bcs_up, npitf);
-  ierr = TDyAllocate_RealArray_2D(&Fdn_all, nflux_in_plus_bcs_dn, npcen);
-  ierr = TDyAllocate_RealArray_2D(&Cdn_all, nflux_in_plus_bcs_dn, npitf);
+  ierr = TDyAllocate_RealArray_2D(&Fup_all, nflux_in_plus_bcs_up, npcen); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_2D(&Cup_all, nflux_in_plus_bcs_up, npitf); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_2D(&Fdn_all, nflux_in_plus_bcs_dn, npcen); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_2D(&Cdn_all, nflux_in_plus_bcs_dn, npitf); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_1D(&AINBCxINBC_1d  , (nflux_in+nflux_neu_bc_all)*(npitf_in + nflux_neu_bc_all));
-  ierr = TDyAllocate_RealArray_1D(&BINBCxCDBC_1d  , (nflux_in+nflux_neu_bc_all)*(npcen    + npitf_dir_bc_all));
-  ierr = TDyAllocate_RealArray_1D(&CupINBCxINBC_1d, (nflux_in+nflux_neu_bc_all)*(npitf_in + npitf_neu_bc_all));
+  ierr = TDyAllocate_RealArray_1D(&AINBCxINBC_1d  , (nflux_in+nflux_neu_bc_all)*(npitf_in + nflux_neu_bc_all)); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_1D(&BINBCxCDBC_1d  , (nflux_in+nflux_neu_bc_all)*(npcen    + npitf_dir_bc_all)); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_1D(&CupINBCxINBC_1d, (nflux_in+nflux_neu_bc_all)*(npitf_in + npitf_neu_bc_all)); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_1D(&CupDBCxIn_1d, nflux_dir_bc_up*npitf_in);
-  ierr = TDyAllocate_RealArray_1D(&CdnDBCxIn_1d, nflux_dir_bc_dn*npitf_in);
+  ierr = TDyAllocate_RealArray_1D(&CupDBCxIn_1d, nflux_dir_bc_up*npitf_in); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_1D(&CdnDBCxIn_1d, nflux_dir_bc_dn*npitf_in); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_1D(&AinvB_1d             , (nflux_in + nflux_neu_bc_all)*(npcen + npitf_dir_bc_all) );
-  ierr = TDyAllocate_RealArray_1D(&CupInxIntimesAinvB_1d, (nflux_in + nflux_neu_bc_all)*(npcen + npitf_dir_bc_all) );
-  ierr = TDyAllocate_RealArray_1D(&CupBCxIntimesAinvB_1d, nflux_dir_bc_up              *(npcen + npitf_dir_bc_all) );
-  ierr = TDyAllocate_RealArray_1D(&CdnBCxIntimesAinvB_1d, nflux_dir_bc_dn              *(npcen + npitf_dir_bc_all) );
+  ierr = TDyAllocate_RealArray_1D(&AinvB_1d             , (nflux_in + nflux_neu_bc_all)*(npcen + npitf_dir_bc_all) ); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_1D(&CupInxIntimesAinvB_1d, (nflux_in + nflux_neu_bc_all)*(npcen + npitf_dir_bc_all) ); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_1D(&CupBCxIntimesAinvB_1d, nflux_dir_bc_up              *(npcen + npitf_dir_bc_all) ); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_1D(&CdnBCxIntimesAinvB_1d, nflux_dir_bc_dn              *(npcen + npitf_dir_bc_all) ); CHKERRQ(ierr);
 
   ierr = ComputeCandFmatrix(mpfao, ivertex, varID, Cup_all, Cdn_all, Fup_all, Fdn_all); CHKERRQ(ierr);
 
   PetscReal **Fup_in, **Fup_dir_bc, **Fup_neu_bc;
   PetscReal **Fdn_in, **Fdn_dir_bc, **Fdn_neu_bc;
 
-  ierr = ExtractsubFMatrices(Fup_all, nflux_in_plus_bcs_up, npcen, nflux_in, nflux_dir_bc_up, nflux_neu_bc_up, &Fup_in, &Fup_dir_bc, &Fup_neu_bc);
-  ierr = ExtractsubFMatrices(Fdn_all, nflux_in_plus_bcs_up, npcen, nflux_in, nflux_dir_bc_dn, nflux_neu_bc_dn, &Fdn_in, &Fdn_dir_bc, &Fdn_neu_bc);
+  ierr = ExtractsubFMatrices(Fup_all, nflux_in_plus_bcs_up, npcen, nflux_in, nflux_dir_bc_up, nflux_neu_bc_up, &Fup_in, &Fup_dir_bc, &Fup_neu_bc); CHKERRQ(ierr);
+  ierr = ExtractsubFMatrices(Fdn_all, nflux_in_plus_bcs_up, npcen, nflux_in, nflux_dir_bc_dn, nflux_neu_bc_dn, &Fdn_in, &Fdn_dir_bc, &Fdn_neu_bc); CHKERRQ(ierr);
 
   PetscReal **Cup_11, **Cup_12, **Cup_13, **Cup_21, **Cup_22, **Cup_23, **Cup_31, **Cup_32, **Cup_33;
   PetscReal **Cdn_11, **Cdn_12, **Cdn_13, **Cdn_21, **Cdn_22, **Cdn_23, **Cdn_31, **Cdn_32, **Cdn_33;
@@ -1237,14 +1237,14 @@ static PetscErrorCode ComputeTransmissibilityMatrix_ForNonCornerVertex(
     npitf_in, npitf_dir_bc_all, nflux_neu_bc_all, // cols
     &Cup_11, &Cup_12, &Cup_13,
     &Cup_21, &Cup_22, &Cup_23,
-    &Cup_31, &Cup_32, &Cup_33);
+    &Cup_31, &Cup_32, &Cup_33); CHKERRQ(ierr);
 
   ierr = ExtractsubCMatrices(nflux_in_plus_bcs_up, npitf, Cdn_all,
     nflux_in, nflux_dir_bc_dn, nflux_neu_bc_dn, // rows
     npitf_in, npitf_dir_bc_all, nflux_neu_bc_all, // cols
     &Cdn_11, &Cdn_12, &Cdn_13,
     &Cdn_21, &Cdn_22, &Cdn_23,
-    &Cdn_31, &Cdn_32, &Cdn_33);
+    &Cdn_31, &Cdn_32, &Cdn_33); CHKERRQ(ierr);
 
   idx = 0;
   for (j=0; j<npcen; j++) {
@@ -1497,15 +1497,15 @@ static PetscErrorCode ComputeTransmissibilityMatrix_ForNonCornerVertex(
   ierr = TDyDeallocate_RealArray_2D(Cdn_32, nflux_neu_bc_dn); CHKERRQ(ierr);
   ierr = TDyDeallocate_RealArray_2D(Cdn_33, nflux_neu_bc_dn); CHKERRQ(ierr);
 
-  TDyFree(AinvB_1d);
-  TDyFree(CupInxIntimesAinvB_1d);
-  TDyFree(CupBCxIntimesAinvB_1d);
-  TDyFree(CdnBCxIntimesAinvB_1d);
-  TDyFree(AINBCxINBC_1d);
-  TDyFree(BINBCxCDBC_1d);
-  TDyFree(CupINBCxINBC_1d);
-  TDyFree(CupDBCxIn_1d);
-  TDyFree(CdnDBCxIn_1d);
+  ierr = TDyFree(AinvB_1d); CHKERRQ(ierr);
+  ierr = TDyFree(CupInxIntimesAinvB_1d); CHKERRQ(ierr);
+  ierr = TDyFree(CupBCxIntimesAinvB_1d); CHKERRQ(ierr);
+  ierr = TDyFree(CdnBCxIntimesAinvB_1d); CHKERRQ(ierr);
+  ierr = TDyFree(AINBCxINBC_1d); CHKERRQ(ierr);
+  ierr = TDyFree(BINBCxCDBC_1d); CHKERRQ(ierr);
+  ierr = TDyFree(CupINBCxINBC_1d); CHKERRQ(ierr);
+  ierr = TDyFree(CupDBCxIn_1d); CHKERRQ(ierr);
+  ierr = TDyFree(CdnDBCxIn_1d); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
@@ -1540,7 +1540,7 @@ static PetscErrorCode ComputeTransmissibilityMatrix_ForBoundaryVertex_NotSharedW
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim);
+  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
   // Vertex is on the boundary
 
@@ -1556,13 +1556,13 @@ static PetscErrorCode ComputeTransmissibilityMatrix_ForBoundaryVertex_NotSharedW
   if (varID == VAR_PRESSURE) {
     Trans = &mpfao->Trans;
     Trans_mat = &mpfao->Trans_mat;
-    ierr = ExtractSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix);
+    ierr = ExtractSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix); CHKERRQ(ierr);
   } else if (varID == VAR_TEMPERATURE) {
-    ierr = ExtractTempSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix);
+    ierr = ExtractTempSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix); CHKERRQ(ierr);
     Trans = &mpfao->Temp_Trans;
     Trans_mat = &mpfao->Temp_Trans_mat;
   } else if (varID == VAR_SALINE_CONCENTRATION) {
-    ierr = ExtractPsiSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix);
+    ierr = ExtractPsiSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix); CHKERRQ(ierr);
     Trans = &mpfao->Psi_Trans;
     Trans_mat = &mpfao->Psi_Trans_mat;
   }
@@ -2122,7 +2122,7 @@ PetscErrorCode ComputeFacePermeabilityValueMPFAO(TDyMPFAO *mpfao, MaterialProp *
   ierr = ComputeUpDownUnitVector(mpfao, face_id, u_up2dn); CHKERRQ(ierr);
 
   PetscReal Kface[dim*dim];
-  ierr = ComputeFacePermeabilityTensor(mpfao, matprop, face_id, Kface);
+  ierr = ComputeFacePermeabilityTensor(mpfao, matprop, face_id, Kface); CHKERRQ(ierr);
 
   // Ku = Kface x u_up2dn
   PetscReal Ku[dim];
@@ -2236,7 +2236,7 @@ static PetscErrorCode ComputeGravityDiscretization(TDyMPFAO *mpfao, DM dm,
       PetscReal k_face_value;
       switch (mpfao->gmatrix_method) {
         case MPFAO_GMATRIX_DEFAULT:
-          ierr = ComputeFacePermeabilityValueMPFAO(mpfao, matprop, dim, face_id, &k_face_value);
+          ierr = ComputeFacePermeabilityValueMPFAO(mpfao, matprop, dim, face_id, &k_face_value); CHKERRQ(ierr);
           break;
 
       case MPFAO_GMATRIX_TPF:
@@ -2287,8 +2287,8 @@ PetscErrorCode TDySetup_Richards_MPFAO(void *context,
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
@@ -2310,11 +2310,11 @@ PetscErrorCode TDySetup_Richards_MPFAO(void *context,
   ierr = TDyAllocate_RealArray_3D(&mpfao->Trans, mpfao->mesh->num_vertices,
                                   mpfao->nfv, mpfao->nfv + mpfao->ncv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Trans_mat); CHKERRQ(ierr);
-  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec);
-  ierr = VecZeroEntries(mpfao->GravDisVec);
+  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec); CHKERRQ(ierr);
+  ierr = VecZeroEntries(mpfao->GravDisVec); CHKERRQ(ierr);
   PetscInt nsubcells = 8;
   ierr = TDyAllocate_RealArray_4D(&mpfao->subc_Gmatrix, mpfao->mesh->num_cells,
                                   nsubcells, 3, 3); CHKERRQ(ierr);
@@ -2396,8 +2396,8 @@ PetscErrorCode TDySetup_TH_MPFAO(void *context, TDyDiscretizationType *discretiz
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
@@ -2419,18 +2419,18 @@ PetscErrorCode TDySetup_TH_MPFAO(void *context, TDyDiscretizationType *discretiz
   ierr = TDyAllocate_RealArray_3D(&mpfao->Trans, mpfao->mesh->num_vertices,
                                   mpfao->nfv, mpfao->nfv + mpfao->ncv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Trans_mat); CHKERRQ(ierr);
-  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec);
-  ierr = VecZeroEntries(mpfao->GravDisVec);
+  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec); CHKERRQ(ierr);
+  ierr = VecZeroEntries(mpfao->GravDisVec); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_3D(&mpfao->Temp_Trans, mpfao->mesh->num_vertices,
                                   mpfao->nfv, mpfao->nfv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Temp_Trans_mat); CHKERRQ(ierr);
-  ierr = MatSetOption(mpfao->Temp_Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->Temp_P_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->Temp_TtimesP_vec);
+  ierr = MatSetOption(mpfao->Temp_Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->Temp_P_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->Temp_TtimesP_vec); CHKERRQ(ierr);
 
   PetscInt nsubcells = 8;
   ierr = TDyAllocate_RealArray_4D(&mpfao->subc_Gmatrix, mpfao->mesh->num_cells,
@@ -2465,8 +2465,8 @@ PetscErrorCode TDySetup_Salinity_MPFAO(void *context,
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
@@ -2488,18 +2488,18 @@ PetscErrorCode TDySetup_Salinity_MPFAO(void *context,
   ierr = TDyAllocate_RealArray_3D(&mpfao->Trans, mpfao->mesh->num_vertices,
                                   mpfao->nfv, mpfao->nfv + mpfao->ncv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Trans_mat); CHKERRQ(ierr);
-  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec);
-  ierr = VecZeroEntries(mpfao->GravDisVec);
+  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec); CHKERRQ(ierr);
+  ierr = VecZeroEntries(mpfao->GravDisVec); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_3D(&mpfao->Psi_Trans, mpfao->mesh->num_vertices,
                                   mpfao->nfv, mpfao->nfv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Psi_Trans_mat); CHKERRQ(ierr);
-  ierr = MatSetOption(mpfao->Psi_Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->Psi_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesPsi_vec);
+  ierr = MatSetOption(mpfao->Psi_Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->Psi_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesPsi_vec); CHKERRQ(ierr);
 
   PetscInt nsubcells = 8;
   ierr = TDyAllocate_RealArray_4D(&mpfao->subc_Gmatrix, mpfao->mesh->num_cells,
@@ -2547,7 +2547,7 @@ PetscErrorCode TDyUpdateState_Richards_MPFAO(void *context, DM dm,
 
   // Compute the saturation and its derivatives.
   ierr = SaturationCompute(cc->saturation, mpfao->Sr, Pc, mpfao->S, mpfao->dS_dP,
-                           mpfao->d2S_dP2);
+                           mpfao->d2S_dP2); CHKERRQ(ierr);
 
   // Compute the effective saturation on cells.
   PetscReal Se[nc];
@@ -2556,7 +2556,7 @@ PetscErrorCode TDyUpdateState_Richards_MPFAO(void *context, DM dm,
   }
 
   // Compute the relative permeability and its derivative (w.r.t. Se).
-  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, mpfao->Kr, mpfao->dKr_dS);
+  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, mpfao->Kr, mpfao->dKr_dS); CHKERRQ(ierr);
 
   // Correct dKr/dS using the chain rule, and update the permeability.
   for (PetscInt c=0;c<nc;c++) {
@@ -2585,7 +2585,7 @@ PetscErrorCode TDyUpdateState_Richards_MPFAO(void *context, DM dm,
 
   ierr = VecGetArray(mpfao->P_vec,&p_vec_ptr); CHKERRQ(ierr);
   for (PetscInt c=0; c<nc; ++c) {
-    ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[c].X,dim,&gz);
+    ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[c].X,dim,&gz); CHKERRQ(ierr);
     PetscReal P = mpfao->Pref - Pc[c]; // pressure
     p_vec_ptr[c] = P;
   }
@@ -2616,7 +2616,7 @@ PetscErrorCode TDyUpdateState_TH_MPFAO(void *context, DM dm,
 
   // Compute the saturation and its derivatives.
   ierr = SaturationCompute(cc->saturation, mpfao->Sr, Pc, mpfao->S, mpfao->dS_dP,
-                           mpfao->d2S_dP2);
+                           mpfao->d2S_dP2); CHKERRQ(ierr);
 
   // Compute the effective saturation on cells.
   PetscReal Se[nc];
@@ -2625,7 +2625,7 @@ PetscErrorCode TDyUpdateState_TH_MPFAO(void *context, DM dm,
   }
 
   // Compute the relative permeability and its derivative (w.r.t. Se).
-  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, mpfao->Kr, mpfao->dKr_dS);
+  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, mpfao->Kr, mpfao->dKr_dS); CHKERRQ(ierr);
 
   // Correct dKr/dS using the chain rule, and update the permeability.
   for (PetscInt c=0;c<nc;c++) {
@@ -2662,7 +2662,7 @@ PetscErrorCode TDyUpdateState_TH_MPFAO(void *context, DM dm,
 
   ierr = VecGetArray(mpfao->P_vec,&p_vec_ptr); CHKERRQ(ierr);
   for (PetscInt c=0; c<nc; c++) {
-    ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[c].X,dim,&gz);
+    ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[c].X,dim,&gz); CHKERRQ(ierr);
     PetscReal P = mpfao->Pref - Pc[c]; // pressure
     p_vec_ptr[c] = P;
   }
@@ -2700,7 +2700,7 @@ PetscErrorCode TDyUpdateState_Salinity_MPFAO(void *context, DM dm,
 
   // Compute the saturation and its derivatives.
   ierr = SaturationCompute(cc->saturation, mpfao->Sr, Pc, mpfao->S, mpfao->dS_dP,
-                           mpfao->d2S_dP2);
+                           mpfao->d2S_dP2); CHKERRQ(ierr);
 
   // Compute the effective saturation on cells.
   PetscReal Se[nc];
@@ -2709,7 +2709,7 @@ PetscErrorCode TDyUpdateState_Salinity_MPFAO(void *context, DM dm,
   }
 
   // Compute the relative permeability and its derivative (w.r.t. Se).
-  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, mpfao->Kr, mpfao->dKr_dS);
+  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, mpfao->Kr, mpfao->dKr_dS); CHKERRQ(ierr);
 
   // Correct dKr/dS using the chain rule, and update the permeability.
   for (PetscInt c=0;c<nc;c++) {
@@ -2741,7 +2741,7 @@ PetscErrorCode TDyUpdateState_Salinity_MPFAO(void *context, DM dm,
 
   ierr = VecGetArray(mpfao->P_vec,&p_vec_ptr); CHKERRQ(ierr);
   for (PetscInt c=0; c<nc; c++) {
-    ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[c].X,dim,&gz);
+    ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[c].X,dim,&gz); CHKERRQ(ierr);
     PetscReal P = mpfao->Pref - Pc[c]; // pressure
     p_vec_ptr[c] = P;
   }
@@ -2769,7 +2769,7 @@ PetscErrorCode TDyUpdateDiagnostics_MPFAO(void *context,
   PetscInt c_start, c_end;
   ierr = DMPlexGetHeightStratum(diags_dm,0,&c_start,&c_end); CHKERRQ(ierr);
   PetscReal *v;
-  VecGetArray(diags_vec, &v);
+  ierr = VecGetArray(diags_vec, &v); CHKERRQ(ierr);
   PetscInt count = 0;
   for (PetscInt c = c_start; c < c_end; ++c) {
 
@@ -2780,7 +2780,7 @@ PetscErrorCode TDyUpdateDiagnostics_MPFAO(void *context,
 
     count++;
   }
-  VecRestoreArray(diags_vec, &v);
+  ierr = VecRestoreArray(diags_vec, &v); CHKERRQ(ierr);
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 }
@@ -2796,7 +2796,7 @@ PetscErrorCode TDyMPFAOComputeSystem(TDy tdy,Mat K,Vec F) {
   TDY_START_FUNCTION_TIMER()
 
 
-  ierr = MatZeroEntries(K);
+  ierr = MatZeroEntries(K); CHKERRQ(ierr);
   ierr = MatAssemblyBegin(K,MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
   ierr = MatAssemblyEnd  (K,MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
 
diff --git a/src/fv/mpfao/tdympfao_snes.c b/src/fv/mpfao/tdympfao_snes.c
index faaae9e..75700b7 100644
--- a/src/fv/mpfao/tdympfao_snes.c
+++ b/src/fv/mpfao/tdympfao_snes.c
@@ -97,7 +97,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
-  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec);
+  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec); CHKERRQ(ierr);
 
   PetscReal *accum_prev;
 
diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index 50b48ce..f16b2b0 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -254,8 +254,8 @@ PetscErrorCode TDyMPFAOSNESFunction_Salinity(SNES snes,Vec U,Vec R,void *ctx) {
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,Ul); CHKERRQ(ierr);
   ierr = TDyMPFAO_SetBoundarySalineConcentration(tdy,Ul); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
-  ierr = MatMult(mpfao->Trans_mat,mpfao->P_vec,mpfao->TtimesP_vec);
-  ierr = MatMult(mpfao->Psi_Trans_mat,mpfao->Psi_vec,mpfao->TtimesPsi_vec);
+  ierr = MatMult(mpfao->Trans_mat,mpfao->P_vec,mpfao->TtimesP_vec); CHKERRQ(ierr);
+  ierr = MatMult(mpfao->Psi_Trans_mat,mpfao->Psi_vec,mpfao->TtimesPsi_vec); CHKERRQ(ierr);
 
   // Fluxes
   ierr = TDyMPFAOIFunction_Vertices_Salinity(Ul,R,ctx); CHKERRQ(ierr);
diff --git a/src/fv/mpfao/tdympfao_steady.c b/src/fv/mpfao/tdympfao_steady.c
index 26950de..dc0ef40 100644
--- a/src/fv/mpfao/tdympfao_steady.c
+++ b/src/fv/mpfao/tdympfao_steady.c
@@ -33,7 +33,7 @@ PetscErrorCode TDyMPFAOComputeSystem_InternalVertices(TDy tdy, Mat K,Vec F) {
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim);
+  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
   for (ivertex=0; ivertex<mesh->num_vertices; ivertex++) {
 
@@ -116,7 +116,7 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_SharedWithInternalVertices
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim);
+  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
     /*
 
diff --git a/src/fv/mpfao/tdympfao_th_ts.c b/src/fv/mpfao/tdympfao_th_ts.c
index 94b19ee..668a26b 100644
--- a/src/fv/mpfao/tdympfao_th_ts.c
+++ b/src/fv/mpfao/tdympfao_th_ts.c
@@ -185,8 +185,8 @@ PetscErrorCode TDyMPFAOIFunction_TH(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAO_SetBoundaryTemperature(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
-  ierr = MatMult(mpfao->Trans_mat,mpfao->P_vec,mpfao->TtimesP_vec);
-  ierr = MatMult(mpfao->Temp_Trans_mat,mpfao->Temp_P_vec,mpfao->Temp_TtimesP_vec);
+  ierr = MatMult(mpfao->Trans_mat,mpfao->P_vec,mpfao->TtimesP_vec); CHKERRQ(ierr);
+  ierr = MatMult(mpfao->Temp_Trans_mat,mpfao->Temp_P_vec,mpfao->Temp_TtimesP_vec); CHKERRQ(ierr);
 
 #if 0
   PetscViewer viewer;
@@ -860,8 +860,8 @@ PetscErrorCode TDyMPFAOIJacobian_TH(TS ts,PetscReal t,Vec U,Vec U_t,PetscReal sh
   ierr = TDyGlobalToLocal(tdy,U,tdy->soln_loc); CHKERRQ(ierr);
   ierr = DMGlobalToLocal(dm,U_t,INSERT_VALUES,Udotl); CHKERRQ(ierr);
 
-  ierr = TDyMPFAOIJacobian_Vertices_TH(tdy->soln_loc,B,ctx);
-  ierr = TDyMPFAOIJacobian_Accumulation_TH(tdy->soln_loc,Udotl,shift,B,ctx);
+  ierr = TDyMPFAOIJacobian_Vertices_TH(tdy->soln_loc,B,ctx); CHKERRQ(ierr);
+  ierr = TDyMPFAOIJacobian_Accumulation_TH(tdy->soln_loc,Udotl,shift,B,ctx); CHKERRQ(ierr);
 
   if (A !=B ) {
     ierr = MatAssemblyBegin(A,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr);
diff --git a/src/fv/mpfao/tdympfao_ts.c b/src/fv/mpfao/tdympfao_ts.c
index 055bb27..1032b37 100644
--- a/src/fv/mpfao/tdympfao_ts.c
+++ b/src/fv/mpfao/tdympfao_ts.c
@@ -181,7 +181,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
-  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec);
+  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec); CHKERRQ(ierr);
 
   ierr = TDyMPFAOIFunction_Vertices(tdy->soln_loc,R,ctx); CHKERRQ(ierr);
 
@@ -539,7 +539,7 @@ PetscErrorCode TDyMPFAOIJacobian(TS ts,PetscReal t,Vec U,Vec U_t,PetscReal shift
   ierr = TDyMPFAOIJacobian_Vertices(tdy->soln_loc, B, ctx); CHKERRQ(ierr);
 
   //ierr = TDyMPFAOIJacobian_BoundaryVertices_NotSharedWithInternalVertices(Ul, A, ctx);
-  ierr = TDyMPFAOIJacobian_Accumulation(tdy->soln_loc, Udotl, shift, B, ctx);
+  ierr = TDyMPFAOIJacobian_Accumulation(tdy->soln_loc, Udotl, shift, B, ctx); CHKERRQ(ierr);
 
   if (A !=B ) {
     ierr = MatAssemblyBegin(A,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr);
diff --git a/src/fv/mpfao/tdympfao_ts_dae.c b/src/fv/mpfao/tdympfao_ts_dae.c
index b22aaf3..47ae2f0 100644
--- a/src/fv/mpfao/tdympfao_ts_dae.c
+++ b/src/fv/mpfao/tdympfao_ts_dae.c
@@ -33,10 +33,10 @@ PetscErrorCode TDyMPFAOIFunction_DAE(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void
   ierr = VecZeroEntries(R); CHKERRQ(ierr);
 
   // Get sub-vectors
-  ierr = ExtractSubVectors(tdy->soln_loc,0,&P);
-  ierr = ExtractSubVectors(tdy->soln_loc,1,&M);
-  ierr = ExtractSubVectors(R,0,&R_P);
-  ierr = ExtractSubVectors(R,1,&R_M);
+  ierr = ExtractSubVectors(tdy->soln_loc,0,&P); CHKERRQ(ierr);
+  ierr = ExtractSubVectors(tdy->soln_loc,1,&M); CHKERRQ(ierr);
+  ierr = ExtractSubVectors(R,0,&R_P); CHKERRQ(ierr);
+  ierr = ExtractSubVectors(R,1,&R_M); CHKERRQ(ierr);
 
   // Update the auxillary variables based on the current iterate
   ierr = VecGetArray(P,&p); CHKERRQ(ierr);
@@ -45,7 +45,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,P); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
-  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec);
+  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec); CHKERRQ(ierr);
 
   ierr = TDyMPFAOIFunction_Vertices(P,R_P,ctx); CHKERRQ(ierr);
 
diff --git a/src/fv/mpfao/tdympfao_ts_transientvar.c b/src/fv/mpfao/tdympfao_ts_transientvar.c
index f684623..6ddb6cc 100644
--- a/src/fv/mpfao/tdympfao_ts_transientvar.c
+++ b/src/fv/mpfao/tdympfao_ts_transientvar.c
@@ -76,7 +76,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
-  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec);
+  ierr = MatMult(mpfao->Trans_mat, mpfao->P_vec, mpfao->TtimesP_vec); CHKERRQ(ierr);
 
   ierr = TDyMPFAOIFunction_Vertices(tdy->soln_loc,R,ctx); CHKERRQ(ierr);
 
diff --git a/src/fv/mpfao/tdympfao_utils.c b/src/fv/mpfao/tdympfao_utils.c
index 0dae94b..6dea7c7 100644
--- a/src/fv/mpfao/tdympfao_utils.c
+++ b/src/fv/mpfao/tdympfao_utils.c
@@ -131,7 +131,7 @@ PetscErrorCode TDyMPFAORecoverVelocity_InternalVertices(TDy tdy, Vec U, PetscRea
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim);
+  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
   // TODO: Save localU
   ierr = DMGetLocalVector(dm,&localU); CHKERRQ(ierr);
@@ -159,7 +159,7 @@ PetscErrorCode TDyMPFAORecoverVelocity_InternalVertices(TDy tdy, Vec U, PetscRea
       PetscInt icell, cell_id;
       for (icell=0; icell<vertices->num_internal_cells[ivertex]; icell++) {
         cell_id = vertices->internal_cell_ids[vOffsetCell + icell];
-        ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[cell_id].X,dim,&gz);
+        ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[cell_id].X,dim,&gz); CHKERRQ(ierr);
         Pcomputed[icell] = u[cell_id] + mpfao->rho[cell_id]*gz;
       }
 
@@ -250,7 +250,7 @@ PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_SharedWithInternalVertic
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim);
+  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
   // TODO: Save localU
   ierr = DMGetLocalVector(dm,&localU); CHKERRQ(ierr);
@@ -565,7 +565,7 @@ PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_NotSharedWithInternalVer
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim);
+  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
   // TODO: Save localU
   ierr = DMGetLocalVector(dm,&localU); CHKERRQ(ierr);
@@ -593,7 +593,7 @@ PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_NotSharedWithInternalVer
 
     PetscScalar pBoundary[subcells->num_faces[subcell_id]];
 
-    ierr = ExtractSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix);
+    ierr = ExtractSubGmatrix(mpfao, icell, isubcell, dim, Gmatrix); CHKERRQ(ierr);
 
     PetscInt *face_ids, num_faces;
     PetscReal *face_areas;
-- 
2.43.0


From 1fa976b16c4e2be2c13fd4068445d9a0741f5253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 03/46] fix: propagate error codes dropped in src/fv/fvtpf

Calls returning PetscErrorCode whose result was discarded or overwritten
unchecked now reach CHKERRQ, so that a failure is reported to the caller.
---
 src/fv/fvtpf/tdyfvtpf.c      | 14 +++++++-------
 src/fv/fvtpf/tdyfvtpf_snes.c | 24 ++++++++++++------------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 97b8737..97d15d4 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -371,7 +371,7 @@ PetscErrorCode TDyUpdateDiagnostics_FVTPF(void *context,
   PetscInt c_start, c_end;
   ierr = DMPlexGetHeightStratum(diags_dm,0,&c_start,&c_end); CHKERRQ(ierr);
   PetscReal *v;
-  VecGetArray(diags_vec, &v);
+  ierr = VecGetArray(diags_vec, &v); CHKERRQ(ierr);
 
   PetscInt count = 0;
   for (PetscInt c = c_start; c < c_end; ++c) {
@@ -383,7 +383,7 @@ PetscErrorCode TDyUpdateDiagnostics_FVTPF(void *context,
 
     count++;
   }
-  VecRestoreArray(diags_vec, &v);
+  ierr = VecRestoreArray(diags_vec, &v); CHKERRQ(ierr);
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 }
@@ -412,7 +412,7 @@ PetscErrorCode TDyUpdateState_Richards_FVTPF(void *context, DM dm,
 
   // Compute the saturation and its derivatives.
   ierr = SaturationCompute(cc->saturation, fvtpf->Sr, Pc, fvtpf->S, fvtpf->dS_dP,
-                           fvtpf->d2S_dP2);
+                           fvtpf->d2S_dP2); CHKERRQ(ierr);
 
   // Compute the effective saturation on cells.
   PetscReal Se[nc];
@@ -421,7 +421,7 @@ PetscErrorCode TDyUpdateState_Richards_FVTPF(void *context, DM dm,
   }
 
   // Compute the relative permeability and its derivative (w.r.t. Se).
-  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, fvtpf->Kr, fvtpf->dKr_dS);
+  ierr = RelativePermeabilityCompute(cc->rel_perm, Se, fvtpf->Kr, fvtpf->dKr_dS); CHKERRQ(ierr);
 
   // Correct dKr/dS using the chain rule, and update the permeability.
   for (PetscInt c=0;c<nc;c++) {
@@ -467,13 +467,13 @@ PetscErrorCode TDySetup_Richards_FVTPF(void *context, TDyDiscretizationType *dis
   switch (tdydm_ptr->dmtype) {
     case PLEX_TYPE:
     ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMPlex\n");
-    ierr = TDyMeshCreateFromPlex(dm, &fvtpf->V, &fvtpf->X, &fvtpf->N, &fvtpf->mesh);
-    ierr = TDyMeshGetMaxVertexConnectivity(fvtpf->mesh, &fvtpf->ncv, &fvtpf->nfv);
+    ierr = TDyMeshCreateFromPlex(dm, &fvtpf->V, &fvtpf->X, &fvtpf->N, &fvtpf->mesh); CHKERRQ(ierr);
+    ierr = TDyMeshGetMaxVertexConnectivity(fvtpf->mesh, &fvtpf->ncv, &fvtpf->nfv); CHKERRQ(ierr);
     break;
 
     case TDYCORE_DM_TYPE:
     ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMShell\n");
-    ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh);
+    ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh); CHKERRQ(ierr);
     break;
 
     default:
diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 6d4f7f9..c88626b 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -128,7 +128,7 @@ PetscErrorCode RichardsResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop, P
   PetscInt cell_id_dn = cell_ids[1];
 
   PetscReal dist_gravity, upweight;
-  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight);
+  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight); CHKERRQ(ierr);
 
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
@@ -183,7 +183,7 @@ PetscErrorCode RichardsBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
   PetscInt cell_id_dn = cell_ids[1];      // cell dn is an internal cell
 
   PetscReal dist_gravity, upweight;
-  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight);
+  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight); CHKERRQ(ierr);
 
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
@@ -244,7 +244,7 @@ PetscErrorCode RichardsSeepageBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
   PetscInt cell_id_dn = cell_ids[1];      // cell dn is an internal cell
 
   PetscReal dist_gravity, upweight;
-  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight);
+  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight); CHKERRQ(ierr);
 
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
@@ -302,7 +302,7 @@ PetscErrorCode RichardsJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop, P
   PetscInt cell_id_dn = cell_ids[1];
 
   PetscReal dist_gravity, upweight;
-  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight);
+  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight); CHKERRQ(ierr);
 
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
@@ -386,7 +386,7 @@ PetscErrorCode RichardsBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
   PetscInt cell_id_dn = cell_ids[1];
 
   PetscReal dist_gravity, upweight;
-  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight);
+  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight); CHKERRQ(ierr);
 
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
@@ -466,7 +466,7 @@ PetscErrorCode RichardsSeepageBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
   PetscInt cell_id_dn = cell_ids[1];
 
   PetscReal dist_gravity, upweight;
-  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight);
+  ierr = FVTPFCalculateDistances(fvtpf, dim, face_id, &dist_gravity, &upweight); CHKERRQ(ierr);
 
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
@@ -576,7 +576,7 @@ PetscErrorCode TDyFVTPFSNESFunction(SNES snes,Vec U,Vec R,void *ctx) {
     PetscInt cell_id_dn = cell_ids[1];
 
     PetscReal Res;
-    ierr = RichardsResidual(fvtpf, dm, tdy->matprop, iface, &Res);
+    ierr = RichardsResidual(fvtpf, dm, tdy->matprop, iface, &Res); CHKERRQ(ierr);
 
     if (cell_id_up >= 0 && cells->is_local[cell_id_up]) {
       r_ptr[cell_id_up] += Res;
@@ -601,10 +601,10 @@ PetscErrorCode TDyFVTPFSNESFunction(SNES snes,Vec U,Vec R,void *ctx) {
     PetscReal Res = 0.0;
     switch (faces->bc_type[iface]) {
     case DIRICHLET_BC:
-      ierr = RichardsBCResidual(fvtpf, dm, tdy->matprop, iface, &Res);
+      ierr = RichardsBCResidual(fvtpf, dm, tdy->matprop, iface, &Res); CHKERRQ(ierr);
       break;
     case SEEPAGE_BC:
-      ierr = RichardsSeepageBCResidual(fvtpf, dm, tdy->matprop, iface, &Res);
+      ierr = RichardsSeepageBCResidual(fvtpf, dm, tdy->matprop, iface, &Res); CHKERRQ(ierr);
       break;
     default:
       SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Unsupported bc type in the computation of the residual");
@@ -666,7 +666,7 @@ PetscErrorCode TDyFVTPFSNESJacobian(SNES snes,Vec U,Mat A, Mat B,void *ctx) {
     PetscInt cell_id_dn = cell_ids[1];
 
     PetscReal Jup, Jdn;
-    ierr = RichardsJacobian(fvtpf, dm, tdy->matprop, iface, &Jup, &Jdn);
+    ierr = RichardsJacobian(fvtpf, dm, tdy->matprop, iface, &Jup, &Jdn); CHKERRQ(ierr);
 
     if (cell_id_up >= 0 && cells->is_local[cell_id_up]) {
       //r_ptr[cell_id_up] += Res;
@@ -697,10 +697,10 @@ PetscErrorCode TDyFVTPFSNESJacobian(SNES snes,Vec U,Mat A, Mat B,void *ctx) {
     PetscReal Jdn;
     switch (faces->bc_type[iface]) {
     case DIRICHLET_BC:
-      ierr = RichardsBCJacobian(fvtpf, dm, tdy->matprop, iface, &Jdn);
+      ierr = RichardsBCJacobian(fvtpf, dm, tdy->matprop, iface, &Jdn); CHKERRQ(ierr);
       break;
     case SEEPAGE_BC:
-      ierr = RichardsSeepageBCJacobian(fvtpf, dm, tdy->matprop, iface, &Jdn);
+      ierr = RichardsSeepageBCJacobian(fvtpf, dm, tdy->matprop, iface, &Jdn); CHKERRQ(ierr);
       break;
     default:
       SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Unsupported bc type in the computation of the jacobian");
-- 
2.43.0


From a07f5fc0635d98562c6017527ca585543b75efd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 04/46] fix: propagate error codes dropped in src/fe

Calls returning PetscErrorCode whose result was discarded or overwritten
unchecked now reach CHKERRQ, so that a failure is reported to the caller.
---
 src/fe/tdybdm.c | 4 ++--
 src/fe/tdywy.c  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 90e174e..91e8e27 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -470,7 +470,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
     ierr = PetscMemzero(Flocal,sizeof(PetscScalar)*MAX_LOCAL_SIZE); CHKERRQ(ierr);
 
     /* Invert permeability, in place */
-    Inverse(&(bdm->K[dim2*(c-cStart)]),dim);
+    ierr = Inverse(&(bdm->K[dim2*(c-cStart)]),dim); CHKERRQ(ierr);
 
     /* Integrate (Kappa^-1 u_i, v_j) */
     for(q=0; q<nq; q++) {
@@ -518,7 +518,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
     for(f=0;f<coneSize;f++){
       ierr = DMGetLabelValue(dm,"marker",cone[f],&isbc); CHKERRQ(ierr);
       if(isbc == 1 && ConditionsHasBoundaryPressure(conditions)) {
-        ierr = IntegratePressureBoundary(bdm,dm,conditions,cone[f],c,Flocal);
+        ierr = IntegratePressureBoundary(bdm,dm,conditions,cone[f],c,Flocal); CHKERRQ(ierr);
       }
     } /* end faces */
 
diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 7c17ed4..87fcc60 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -511,7 +511,7 @@ PetscErrorCode TDySetup_WY(void *context, TDyDiscretizationType *discretization,
   // Compute material properties.
   ierr = MaterialPropComputePermeability(matprop, nc, wy->X, wy->K0); CHKERRQ(ierr);
   memcpy(wy->K, wy->K0, 9*sizeof(PetscReal)*nc);
-  MaterialPropComputePorosity(matprop, nc, wy->X, wy->porosity);
+  ierr = MaterialPropComputePorosity(matprop, nc, wy->X, wy->porosity); CHKERRQ(ierr);
 
   /* Setup the section, 1 dof per cell */
   PetscSection sec;
-- 
2.43.0


From 29214264ad7c2fe6016313ddd4ed4f0fbd517f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 05/46] fix: propagate error codes dropped in src/materials

Calls returning PetscErrorCode whose result was discarded or overwritten
unchecked now reach CHKERRQ, so that a failure is reported to the caller.
---
 src/materials/tdycharacteristiccurves.c |  4 +-
 src/materials/tdymaterialproperties.c   | 64 +++++++++++++++----------
 2 files changed, 42 insertions(+), 26 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 5427c23..e488fd0 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -52,7 +52,7 @@ PetscErrorCode SaturationDestroy(Saturation *sat) {
   PetscErrorCode ierr;
   int num_types = (int)(sizeof(sat->points)/sizeof(sat->points[0]));
   for (int type = 0; type < num_types; ++type) {
-    SaturationSetType(sat, type, 0, NULL, NULL);
+    ierr = SaturationSetType(sat, type, 0, NULL, NULL); CHKERRQ(ierr);
   }
   ierr = TDyFree(sat); CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -250,7 +250,7 @@ PetscErrorCode RelativePermeabilityDestroy(RelativePermeability *rel_perm) {
   PetscErrorCode ierr;
   int num_types = (int)(sizeof(rel_perm->points)/sizeof(rel_perm->points[0]));
   for (int type = 0; type < num_types; ++type) {
-    RelativePermeabilitySetType(rel_perm, type, 0, NULL, NULL);
+    ierr = RelativePermeabilitySetType(rel_perm, type, 0, NULL, NULL); CHKERRQ(ierr);
   }
   ierr = TDyFree(rel_perm); CHKERRQ(ierr);
   PetscFunctionReturn(0);
diff --git a/src/materials/tdymaterialproperties.c b/src/materials/tdymaterialproperties.c
index 85f8451..addd35f 100644
--- a/src/materials/tdymaterialproperties.c
+++ b/src/materials/tdymaterialproperties.c
@@ -25,14 +25,14 @@ PetscErrorCode MaterialPropCreate(PetscInt dim, MaterialProp **matprop) {
 PetscErrorCode MaterialPropDestroy(MaterialProp *matprop) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
-  MaterialPropSetPorosity(matprop, NULL, NULL, NULL);
-  MaterialPropSetPermeability(matprop, NULL, NULL, NULL);
-  MaterialPropSetThermalConductivity(matprop, NULL, NULL, NULL);
-  MaterialPropSetResidualSaturation(matprop, NULL, NULL, NULL);
-  MaterialPropSetSoilDensity(matprop, NULL, NULL, NULL);
-  MaterialPropSetSoilSpecificHeat(matprop, NULL, NULL, NULL);
-  MaterialPropSetSalineDiffusivity(matprop, NULL, NULL, NULL);
-  MaterialPropSetSalineMolecularWeight(matprop, NULL, NULL, NULL);
+  ierr = MaterialPropSetPorosity(matprop, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = MaterialPropSetPermeability(matprop, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = MaterialPropSetThermalConductivity(matprop, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = MaterialPropSetResidualSaturation(matprop, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = MaterialPropSetSoilDensity(matprop, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = MaterialPropSetSoilSpecificHeat(matprop, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = MaterialPropSetSalineDiffusivity(matprop, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = MaterialPropSetSalineMolecularWeight(matprop, NULL, NULL, NULL); CHKERRQ(ierr);
   ierr = TDyFree(matprop); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
@@ -45,9 +45,11 @@ PetscErrorCode MaterialPropDestroy(MaterialProp *matprop) {
 PetscErrorCode MaterialPropSetPermeability(MaterialProp *matprop, void *context,
                                            PetscErrorCode(*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                            PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (matprop->permeability_context && matprop->permeability_dtor)
-    matprop->permeability_dtor(matprop->permeability_context);
+  if (matprop->permeability_context && matprop->permeability_dtor) {
+    ierr = matprop->permeability_dtor(matprop->permeability_context); CHKERRQ(ierr);
+  }
   matprop->permeability_context = context;
   matprop->compute_permeability = f;
   matprop->permeability_dtor = dtor;
@@ -62,9 +64,11 @@ PetscErrorCode MaterialPropSetPermeability(MaterialProp *matprop, void *context,
 PetscErrorCode MaterialPropSetPorosity(MaterialProp *matprop, void *context,
                                        PetscErrorCode(*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                        PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (matprop->porosity_context && matprop->porosity_dtor)
-    matprop->porosity_dtor(matprop->porosity_context);
+  if (matprop->porosity_context && matprop->porosity_dtor) {
+    ierr = matprop->porosity_dtor(matprop->porosity_context); CHKERRQ(ierr);
+  }
   matprop->porosity_context = context;
   matprop->compute_porosity = f;
   matprop->porosity_dtor = dtor;
@@ -79,9 +83,11 @@ PetscErrorCode MaterialPropSetPorosity(MaterialProp *matprop, void *context,
 PetscErrorCode MaterialPropSetThermalConductivity(MaterialProp *matprop, void *context,
                                                   PetscErrorCode(*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                                   PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (matprop->thermal_conductivity_context && matprop->thermal_conductivity_dtor)
-    matprop->thermal_conductivity_dtor(matprop->thermal_conductivity_context);
+  if (matprop->thermal_conductivity_context && matprop->thermal_conductivity_dtor) {
+    ierr = matprop->thermal_conductivity_dtor(matprop->thermal_conductivity_context); CHKERRQ(ierr);
+  }
   matprop->thermal_conductivity_context = context;
   matprop->compute_thermal_conductivity = f;
   matprop->thermal_conductivity_dtor = dtor;
@@ -96,9 +102,11 @@ PetscErrorCode MaterialPropSetThermalConductivity(MaterialProp *matprop, void *c
 PetscErrorCode MaterialPropSetResidualSaturation(MaterialProp *matprop, void *context,
                                                  PetscErrorCode(*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                                  PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (matprop->residual_saturation_context && matprop->residual_saturation_dtor)
-    matprop->residual_saturation_dtor(matprop->residual_saturation_context);
+  if (matprop->residual_saturation_context && matprop->residual_saturation_dtor) {
+    ierr = matprop->residual_saturation_dtor(matprop->residual_saturation_context); CHKERRQ(ierr);
+  }
   matprop->residual_saturation_context = context;
   matprop->compute_residual_saturation = f;
   matprop->residual_saturation_dtor = dtor;
@@ -113,9 +121,11 @@ PetscErrorCode MaterialPropSetResidualSaturation(MaterialProp *matprop, void *co
 PetscErrorCode MaterialPropSetSoilDensity(MaterialProp *matprop, void *context,
                                           PetscErrorCode(*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                           PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (matprop->soil_density_context && matprop->soil_density_dtor)
-    matprop->soil_density_dtor(matprop->soil_density_context);
+  if (matprop->soil_density_context && matprop->soil_density_dtor) {
+    ierr = matprop->soil_density_dtor(matprop->soil_density_context); CHKERRQ(ierr);
+  }
   matprop->soil_density_context = context;
   matprop->compute_soil_density = f;
   matprop->soil_density_dtor = dtor;
@@ -130,9 +140,11 @@ PetscErrorCode MaterialPropSetSoilDensity(MaterialProp *matprop, void *context,
 PetscErrorCode MaterialPropSetSoilSpecificHeat(MaterialProp *matprop, void *context,
                                                PetscErrorCode(*f)(void*,int,PetscReal*,PetscReal*),
                                                PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (matprop->soil_specific_heat_context && matprop->soil_specific_heat_dtor)
-    matprop->soil_specific_heat_dtor(matprop->soil_specific_heat_context);
+  if (matprop->soil_specific_heat_context && matprop->soil_specific_heat_dtor) {
+    ierr = matprop->soil_specific_heat_dtor(matprop->soil_specific_heat_context); CHKERRQ(ierr);
+  }
   matprop->soil_specific_heat_context = context;
   matprop->compute_soil_specific_heat = f;
   matprop->soil_specific_heat_dtor = dtor;
@@ -147,9 +159,11 @@ PetscErrorCode MaterialPropSetSoilSpecificHeat(MaterialProp *matprop, void *cont
 PetscErrorCode MaterialPropSetSalineDiffusivity(MaterialProp *matprop, void *context,
                                                 PetscErrorCode(*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                                 PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (matprop->saline_diffusivity_context && matprop->saline_diffusivity_dtor)
-    matprop->saline_diffusivity_dtor(matprop->saline_diffusivity_context);
+  if (matprop->saline_diffusivity_context && matprop->saline_diffusivity_dtor) {
+    ierr = matprop->saline_diffusivity_dtor(matprop->saline_diffusivity_context); CHKERRQ(ierr);
+  }
   matprop->saline_diffusivity_context = context;
   matprop->compute_saline_diffusivity = f;
   matprop->saline_diffusivity_dtor = dtor;
@@ -164,9 +178,11 @@ PetscErrorCode MaterialPropSetSalineDiffusivity(MaterialProp *matprop, void *con
 PetscErrorCode MaterialPropSetSalineMolecularWeight(MaterialProp *matprop, void *context,
                                                     PetscErrorCode(*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                                     PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (matprop->saline_molecular_weight_context && matprop->saline_molecular_weight_dtor)
-    matprop->saline_molecular_weight_dtor(matprop->saline_molecular_weight_context);
+  if (matprop->saline_molecular_weight_context && matprop->saline_molecular_weight_dtor) {
+    ierr = matprop->saline_molecular_weight_dtor(matprop->saline_molecular_weight_context); CHKERRQ(ierr);
+  }
   matprop->saline_molecular_weight_context = context;
   matprop->compute_saline_molecular_weight = f;
   matprop->saline_molecular_weight_dtor = dtor;
-- 
2.43.0


From 16fdda5de159266b62b8fa53d64a27a4cb340908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 06/46] fix: propagate error codes dropped in the core sources

Calls returning PetscErrorCode whose result was discarded or overwritten
unchecked now reach CHKERRQ, so that a failure is reported to the caller.
---
 src/tdyconditions.c     | 63 ++++++++++++++++++++++++++---------------
 src/tdycore.c           | 49 +++++++++++++++++---------------
 src/tdydiscretization.c |  6 ++--
 src/tdydriver.c         |  2 +-
 src/tdyio.c             | 33 ++++++++++-----------
 src/tdyregression.c     |  2 +-
 src/tdyti.c             |  7 +++--
 src/tdytimers.c         | 21 ++++++++------
 src/tdyutils.c          | 14 ++++-----
 9 files changed, 111 insertions(+), 86 deletions(-)

diff --git a/src/tdyconditions.c b/src/tdyconditions.c
index 0f3247c..1b16d65 100644
--- a/src/tdyconditions.c
+++ b/src/tdyconditions.c
@@ -13,14 +13,15 @@ PetscErrorCode ConditionsCreate(Conditions** conditions) {
 
 /// Frees the resources associated with the given Conditions instance.
 PetscErrorCode ConditionsDestroy(Conditions* conditions) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  ConditionsSetForcing(conditions, NULL, NULL, NULL);
-  ConditionsSetEnergyForcing(conditions, NULL, NULL, NULL);
-  ConditionsSetBoundaryPressure(conditions, NULL, NULL, NULL);
-  ConditionsSetBoundaryVelocity(conditions, NULL, NULL, NULL);
-  ConditionsSetBoundaryTemperature(conditions, NULL, NULL, NULL);
-  ConditionsSetBoundarySalineConcentration(conditions, NULL, NULL, NULL);
-  TDyFree(conditions);
+  ierr = ConditionsSetForcing(conditions, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = ConditionsSetEnergyForcing(conditions, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = ConditionsSetBoundaryPressure(conditions, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = ConditionsSetBoundaryVelocity(conditions, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = ConditionsSetBoundaryTemperature(conditions, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = ConditionsSetBoundarySalineConcentration(conditions, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = TDyFree(conditions); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
@@ -32,9 +33,11 @@ PetscErrorCode ConditionsDestroy(Conditions* conditions) {
 PetscErrorCode ConditionsSetForcing(Conditions *conditions, void *context,
                                     PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                     PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (conditions->forcing_context && conditions->forcing_dtor)
-    conditions->forcing_dtor(conditions->forcing_context);
+  if (conditions->forcing_context && conditions->forcing_dtor) {
+    ierr = conditions->forcing_dtor(conditions->forcing_context); CHKERRQ(ierr);
+  }
   conditions->forcing_context = context;
   conditions->compute_forcing = f;
   conditions->forcing_dtor = dtor;
@@ -49,9 +52,11 @@ PetscErrorCode ConditionsSetForcing(Conditions *conditions, void *context,
 PetscErrorCode ConditionsSetEnergyForcing(Conditions *conditions, void *context,
                                           PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                           PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (conditions->energy_forcing_context && conditions->energy_forcing_dtor)
-    conditions->energy_forcing_dtor(conditions->energy_forcing_context);
+  if (conditions->energy_forcing_context && conditions->energy_forcing_dtor) {
+    ierr = conditions->energy_forcing_dtor(conditions->energy_forcing_context); CHKERRQ(ierr);
+  }
   conditions->energy_forcing_context = context;
   conditions->compute_energy_forcing = f;
   conditions->energy_forcing_dtor = dtor;
@@ -66,9 +71,11 @@ PetscErrorCode ConditionsSetEnergyForcing(Conditions *conditions, void *context,
 PetscErrorCode ConditionsSetSalinitySource(Conditions *conditions, void *context,
                                            PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                            PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (conditions->salinity_source_context && conditions->salinity_source_dtor)
-    conditions->salinity_source_dtor(conditions->salinity_source_context);
+  if (conditions->salinity_source_context && conditions->salinity_source_dtor) {
+    ierr = conditions->salinity_source_dtor(conditions->salinity_source_context); CHKERRQ(ierr);
+  }
   conditions->salinity_source_context = context;
   conditions->compute_salinity_source = f;
   conditions->salinity_source_dtor = dtor;
@@ -83,9 +90,11 @@ PetscErrorCode ConditionsSetSalinitySource(Conditions *conditions, void *context
 PetscErrorCode ConditionsSetBoundaryPressure(Conditions *conditions, void *context,
                                              PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                              PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (conditions->boundary_pressure_context && conditions->boundary_pressure_dtor)
-    conditions->boundary_pressure_dtor(conditions->boundary_pressure_context);
+  if (conditions->boundary_pressure_context && conditions->boundary_pressure_dtor) {
+    ierr = conditions->boundary_pressure_dtor(conditions->boundary_pressure_context); CHKERRQ(ierr);
+  }
   conditions->boundary_pressure_context = context;
   conditions->compute_boundary_pressure = f;
   conditions->boundary_pressure_dtor = dtor;
@@ -100,9 +109,11 @@ PetscErrorCode ConditionsSetBoundaryPressure(Conditions *conditions, void *conte
 PetscErrorCode ConditionsSetBoundaryPressureType(Conditions *conditions, void *context,
                                                  PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscInt*),
                                                  PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (conditions->boundary_pressure_type_context && conditions->boundary_pressure_type_dtor)
-    conditions->boundary_pressure_type_dtor(conditions->boundary_pressure_type_context);
+  if (conditions->boundary_pressure_type_context && conditions->boundary_pressure_type_dtor) {
+    ierr = conditions->boundary_pressure_type_dtor(conditions->boundary_pressure_type_context); CHKERRQ(ierr);
+  }
   conditions->boundary_pressure_type_context = context;
   conditions->assign_boundary_pressure_type = f;
   conditions->boundary_pressure_type_dtor = dtor;
@@ -118,9 +129,11 @@ PetscErrorCode ConditionsSetBoundaryVelocity(Conditions *conditions,
                                              void *context,
                                              PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                              PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (conditions->boundary_velocity_context && conditions->boundary_velocity_dtor)
-    conditions->boundary_velocity_dtor(conditions->boundary_velocity_context);
+  if (conditions->boundary_velocity_context && conditions->boundary_velocity_dtor) {
+    ierr = conditions->boundary_velocity_dtor(conditions->boundary_velocity_context); CHKERRQ(ierr);
+  }
   conditions->boundary_velocity_context = context;
   conditions->compute_boundary_velocity = f;
   conditions->boundary_velocity_dtor = dtor;
@@ -136,9 +149,11 @@ PetscErrorCode ConditionsSetBoundaryTemperature(Conditions *conditions,
                                                 void *context,
                                                 PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                                 PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (conditions->boundary_temperature_context && conditions->boundary_temperature_dtor)
-    conditions->boundary_temperature_dtor(conditions->boundary_temperature_context);
+  if (conditions->boundary_temperature_context && conditions->boundary_temperature_dtor) {
+    ierr = conditions->boundary_temperature_dtor(conditions->boundary_temperature_context); CHKERRQ(ierr);
+  }
   conditions->boundary_temperature_context = context;
   conditions->compute_boundary_temperature = f;
   conditions->boundary_temperature_dtor = dtor;
@@ -154,9 +169,11 @@ PetscErrorCode ConditionsSetBoundarySalineConcentration(Conditions *conditions,
                                                         void *context,
                                                         PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                                         PetscErrorCode (*dtor)(void*)) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  if (conditions->boundary_saline_conc_context && conditions->boundary_saline_conc_dtor)
-    conditions->boundary_saline_conc_dtor(conditions->boundary_saline_conc_context);
+  if (conditions->boundary_saline_conc_context && conditions->boundary_saline_conc_dtor) {
+    ierr = conditions->boundary_saline_conc_dtor(conditions->boundary_saline_conc_context); CHKERRQ(ierr);
+  }
   conditions->boundary_saline_conc_context = context;
   conditions->compute_boundary_saline_conc = f;
   conditions->boundary_saline_conc_dtor = dtor;
diff --git a/src/tdycore.c b/src/tdycore.c
index be5714e..c4855cd 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -92,7 +92,7 @@ static PetscErrorCode TDyInitSubsystems() {
   // Register a class ID for logging.
   PetscErrorCode ierr = PetscClassIdRegister("TDy",&TDY_CLASSID); CHKERRQ(ierr);
 
-  TDyInitTimers();
+  ierr = TDyInitTimers(); CHKERRQ(ierr);
 
   // Process info exclusions.
   ierr = PetscOptionsGetString(NULL,NULL,"-info_exclude",logList,sizeof(logList),
@@ -117,8 +117,9 @@ static PetscErrorCode TDyInitSubsystems() {
   PetscBool timersEnabled = PETSC_FALSE;
   ierr = PetscOptionsGetBool(NULL,NULL,"-tdy_timers", &timersEnabled, &opt);
   CHKERRQ(ierr);
-  if (timersEnabled)
-    TDyEnableTimers();
+  if (timersEnabled) {
+    ierr = TDyEnableTimers(); CHKERRQ(ierr);
+  }
 
   TDyPackageInitialized = PETSC_TRUE;
 
@@ -187,6 +188,7 @@ PetscErrorCode TDyOnFinalize(void (*shutdown_func)(void)) {
 }
 
 PetscErrorCode TDyFinalize() {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
 
   // Call shutdown functions in reverse order, and destroy the list.
@@ -194,11 +196,11 @@ PetscErrorCode TDyFinalize() {
     for (int i = num_shutdown_funcs_-1; i >= 0; --i) {
       shutdown_funcs_[i]();
     }
-    TDyFree(shutdown_funcs_);
+    ierr = TDyFree(shutdown_funcs_); CHKERRQ(ierr);
   }
 
   // Finalize PETSc.
-  PetscFinalize();
+  ierr = PetscFinalize(); CHKERRQ(ierr);
 
   TDyPackageInitialized = PETSC_FALSE;
   PetscFunctionReturn(0);
@@ -221,10 +223,11 @@ static void DestroyFunctionRegistry() {
 /// @param [in] f the function, which accepts (n, x, v), where n is the number
 ///               of points x on which f will be evaluated to produce values v.
 PetscErrorCode TDyRegisterFunction(const char* name, TDySpatialFunction f) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
   if (funcs_ == NULL) {
     funcs_ = kh_init(TDY_FUNC_MAP);
-    TDyOnFinalize(DestroyFunctionRegistry);
+    ierr = TDyOnFinalize(DestroyFunctionRegistry); CHKERRQ(ierr);
   }
 
   int retval;
@@ -312,7 +315,7 @@ PetscErrorCode TDyCreate(MPI_Comm comm, TDy *_tdy) {
   *_tdy = tdy;
   tdy->setup_flags |= TDyCreated;
 
-  SetDefaultOptions(tdy);
+  ierr = SetDefaultOptions(tdy); CHKERRQ(ierr);
 
   ierr = TDyIOCreate(&tdy->io); CHKERRQ(ierr);
 
@@ -375,7 +378,7 @@ PetscErrorCode TDyDestroy(TDy *_tdy) {
   if (!tdy) PetscFunctionReturn(0);
 
   if (tdy->regression) {
-    ierr = TDyRegressionDestroy(tdy);
+    ierr = TDyRegressionDestroy(tdy); CHKERRQ(ierr);
   }
 
   // Destroy Jacobian data.
@@ -384,13 +387,13 @@ PetscErrorCode TDyDestroy(TDy *_tdy) {
 
   // Call implementation-specific destructor.
   if (tdy->ops->destroy) {
-    tdy->ops->destroy(tdy->context);
+    ierr = tdy->ops->destroy(tdy->context); CHKERRQ(ierr);
   }
 
   // Clean up diagnostics.
   if (tdy->ops->update_diagnostics && (tdy->setup_flags & TDySetupFinished)) {
-    VecDestroy(&tdy->diag_vec);
-    DMDestroy(&tdy->diag_dm);
+    ierr = VecDestroy(&tdy->diag_vec); CHKERRQ(ierr);
+    ierr = DMDestroy(&tdy->diag_dm); CHKERRQ(ierr);
   }
 
   ierr = VecDestroy(&tdy->residual); CHKERRQ(ierr);
@@ -554,7 +557,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   char func_name[PETSC_MAX_PATH_LEN];
   ierr = PetscOptionsGetString(NULL, NULL, "-tdy_pressure_bc_func", func_name, sizeof(func_name), &flag); CHKERRQ(ierr);
   if (flag) {
-    ierr = TDySelectBoundaryPressureFunction(tdy, func_name);
+    ierr = TDySelectBoundaryPressureFunction(tdy, func_name); CHKERRQ(ierr);
   } else {
     ierr = PetscOptionsReal("-tdy_pressure_bc_value", "Constant boundary pressure", NULL, options->boundary_pressure, &options->boundary_pressure,&flag); CHKERRQ(ierr);
     if (flag) {
@@ -565,11 +568,11 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
 
   ierr = PetscOptionsGetString(NULL, NULL, "-tdy_velocity_bc_func", func_name, sizeof(func_name), &flag); CHKERRQ(ierr);
   if (flag) {
-    ierr = TDySelectBoundaryVelocityFunction(tdy, func_name);
+    ierr = TDySelectBoundaryVelocityFunction(tdy, func_name); CHKERRQ(ierr);
   } else {
     ierr = PetscOptionsReal("-tdy_velocity_bc_value", "Constant normal boundary velocity", NULL, options->boundary_velocity, &options->boundary_velocity,&flag); CHKERRQ(ierr);
     if (flag) {
-      ierr = ConditionsSetConstantBoundaryVelocity(tdy->conditions, options->boundary_velocity);
+      ierr = ConditionsSetConstantBoundaryVelocity(tdy->conditions, options->boundary_velocity); CHKERRQ(ierr);
     } else { // TODO: what goes here??
     }
   }
@@ -580,7 +583,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   } else {
     ierr = PetscOptionsReal("-tdy_temperature_bc_value", "Constant boundary temperature", NULL, options->boundary_temperature, &options->boundary_temperature,&flag); CHKERRQ(ierr);
     if (flag) {
-      ierr = ConditionsSetConstantBoundaryTemperature(tdy->conditions, options->boundary_temperature);
+      ierr = ConditionsSetConstantBoundaryTemperature(tdy->conditions, options->boundary_temperature); CHKERRQ(ierr);
     } else { // TODO: what goes here??
     }
   }
@@ -593,10 +596,10 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
 
   // Override the mode and/or discretization if needed.
   if (options->mode != mode) {
-    TDySetMode(tdy, mode);
+    ierr = TDySetMode(tdy, mode); CHKERRQ(ierr);
   }
   if (options->discretization != discretization) {
-    TDySetDiscretization(tdy, discretization);
+    ierr = TDySetDiscretization(tdy, discretization); CHKERRQ(ierr);
   }
 
   ierr = PetscOptionsBool("-tdy_init_with_random_field","Initialize solution with a random field","",options->init_with_random_field,&(options->init_with_random_field),NULL); CHKERRQ(ierr);
@@ -664,11 +667,11 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
     } else {
       if (tdy->ops->create_dm) {
         // We've been instructed to create a DM ourselves.
-        ierr = tdy->ops->create_dm(comm, tdy->create_dm_context, &dm);
+        ierr = tdy->ops->create_dm(comm, tdy->create_dm_context, &dm); CHKERRQ(ierr);
       } else if (create_dm_f90_) {
         // Create a DM all-Fortran-like.
         MPI_Fint comm_f = MPI_Comm_c2f(comm);
-        create_dm_f90_(&comm_f, &dm, &ierr);
+        create_dm_f90_(&comm_f, &dm, &ierr); CHKERRQ(ierr);
       } else {
         ierr = DMPlexCreate(comm, &dm); CHKERRQ(ierr);
       }
@@ -781,14 +784,14 @@ PetscErrorCode TDySetup(TDy tdy) {
     ierr = PetscSectionSetFieldName(section, DIAG_LIQUID_MASS, "LiquidMass");
     CHKERRQ(ierr);
     ierr = DMSetLocalSection(tdy->diag_dm, section); CHKERRQ(ierr);
-    ierr = PetscSectionDestroy(&section);
+    ierr = PetscSectionDestroy(&section); CHKERRQ(ierr);
 
     // Create a Vec that can store the diagnostic fields.
     ierr = DMCreateGlobalVector(tdy->diag_dm, &tdy->diag_vec); CHKERRQ(ierr);
   }
 
   // Record metadata for scaling studies.
-  TDySetTimingMetadata(tdy);
+  ierr = TDySetTimingMetadata(tdy); CHKERRQ(ierr);
 
   if (tdy->options.regression_testing) {
     /* must come after Sections are set up in
@@ -1880,9 +1883,9 @@ PetscErrorCode TDySetIFunction(TS ts,TDy tdy) {
   PetscInt dim;
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = DMGetLocalSection(dm, &sec);
+  ierr = DMGetLocalSection(dm, &sec); CHKERRQ(ierr);
   PetscInt num_fields;
-  ierr = PetscSectionGetNumFields(sec, &num_fields);
+  ierr = PetscSectionGetNumFields(sec, &num_fields); CHKERRQ(ierr);
   ierr = TSGetDM(ts,&dm);CHKERRQ(ierr);
 
   switch (tdy->options.discretization) {
diff --git a/src/tdydiscretization.c b/src/tdydiscretization.c
index 5c67cd0..e84936a 100644
--- a/src/tdydiscretization.c
+++ b/src/tdydiscretization.c
@@ -38,7 +38,7 @@ PetscErrorCode TDyDiscretizationDestroy(TDyDiscretizationType *discretization) {
   ierr = TDyAlloc(sizeof(TDyDiscretization), &discretization); CHKERRQ(ierr);
 
   ierr = TDyDMDestroy (discretization->tdydm); CHKERRQ(ierr);
-  TDyFree(discretization);
+  ierr = TDyFree(discretization); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 
@@ -196,7 +196,7 @@ PetscErrorCode TDyDiscretizationGlobalToNatural(TDyDiscretizationType *discretiz
   TDyDM *tdydm = discretization->tdydm;
   DM dm = tdydm->dm;
   TDyUGDM *ugdm;
-  ierr = TDyDiscretizationGetTDyUGDM(discretization,&ugdm);
+  ierr = TDyDiscretizationGetTDyUGDM(discretization,&ugdm); CHKERRQ(ierr);
 
   switch (tdydm->dmtype) {
     case PLEX_TYPE:
@@ -256,7 +256,7 @@ PetscErrorCode TDyDiscretizationNaturalToGlobal(TDyDiscretizationType *discretiz
   TDyDM *tdydm = discretization->tdydm;
   DM dm = tdydm->dm;
   TDyUGDM *ugdm;
-  ierr = TDyDiscretizationGetTDyUGDM(discretization,&ugdm);
+  ierr = TDyDiscretizationGetTDyUGDM(discretization,&ugdm); CHKERRQ(ierr);
 
   switch (tdydm->dmtype) {
     case PLEX_TYPE:
diff --git a/src/tdydriver.c b/src/tdydriver.c
index ff4ba1e..ed3bc96 100644
--- a/src/tdydriver.c
+++ b/src/tdydriver.c
@@ -214,7 +214,7 @@ PetscErrorCode TDyDriverInitializeTDy(TDy tdy) {
    size_t len;
    ierr = PetscStrlen(tdy->io->ic_filename, &len); CHKERRQ(ierr);
    if (len){
-     TDyIOReadIC(tdy); CHKERRQ(ierr);
+     ierr = TDyIOReadIC(tdy); CHKERRQ(ierr);
    }
   // finish set of time integrators
   switch(tdy->ti->time_integration_method) {
diff --git a/src/tdyio.c b/src/tdyio.c
index 53f7d65..efc78be 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -181,7 +181,7 @@ PetscErrorCode TDyIOReadPermeability(TDy tdy){
 
   DM dm;
   ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-  ierr = DMGetDimension(dm, &dim);
+  ierr = DMGetDimension(dm, &dim); CHKERRQ(ierr);
   PetscInt cStart,cEnd;
   ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd);CHKERRQ(ierr);
 
@@ -247,10 +247,10 @@ PetscErrorCode TDyIOReadPorosity(TDy tdy){
   }
 
   PetscReal *Porosity;
-  ierr = TDyIOReadVariable(tdy,VariableName,filename,&Porosity);
+  ierr = TDyIOReadVariable(tdy,VariableName,filename,&Porosity); CHKERRQ(ierr);
 
   ierr = MaterialPropSetPorosity(tdy->matprop, Porosity, AssignScalars,
-                                 ScalarsDestroy);
+                                 ScalarsDestroy); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -275,16 +275,16 @@ PetscErrorCode TDyIOReadIC(TDy tdy){
     strcpy(VariableName, tdy->io->ic_dataset);
   }
 
-  ierr = VecCreate(PETSC_COMM_WORLD,&u);
+  ierr = VecCreate(PETSC_COMM_WORLD,&u); CHKERRQ(ierr);
 
-  ierr = PetscObjectSetName((PetscObject) u, VariableName);
+  ierr = PetscObjectSetName((PetscObject) u, VariableName); CHKERRQ(ierr);
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,tdy->io->ic_filename,FILE_MODE_READ,&viewer);CHKERRQ(ierr);
   ierr = VecLoad(u,viewer);CHKERRQ(ierr);
 
   ierr = TDySetInitialCondition(tdy,u);CHKERRQ(ierr);
 
-  ierr = VecDestroy(&u);
+  ierr = VecDestroy(&u); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -307,13 +307,13 @@ PetscErrorCode TDyIOReadVariable(TDy tdy, char *VariableName, char *filename, Pe
   PetscReal *ptr;
   int i,n;
 
-  ierr = VecCreate(PETSC_COMM_WORLD,&u);
-  ierr = PetscObjectSetName((PetscObject) u, VariableName);
+  ierr = VecCreate(PETSC_COMM_WORLD,&u); CHKERRQ(ierr);
+  ierr = PetscObjectSetName((PetscObject) u, VariableName); CHKERRQ(ierr);
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,filename,FILE_MODE_READ,&viewer);CHKERRQ(ierr);
   ierr = VecLoad(u,viewer);CHKERRQ(ierr);
 
-  ierr = TDyCreateLocalVector(tdy, &u_local);
+  ierr = TDyCreateLocalVector(tdy, &u_local); CHKERRQ(ierr);
   ierr = TDyDiscretizationNaturaltoLocal(tdy->discretization,u,&u_local);CHKERRQ(ierr);
 
   ierr = VecGetArray(u_local,&ptr);CHKERRQ(ierr);
@@ -348,7 +348,7 @@ PetscErrorCode TDyIOOutputCheckpoint(TDy tdy){
   sprintf(filename,"%11.5e_%s.h5",time,"chk");
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,filename,FILE_MODE_APPEND,&viewer);CHKERRQ(ierr);
 
-  ierr = TDyCreateGlobalVector(tdy,&p_natural);
+  ierr = TDyCreateGlobalVector(tdy,&p_natural); CHKERRQ(ierr);
   ierr = TDyGlobalToNatural(tdy,p,p_natural);CHKERRQ(ierr);
   ierr = PetscObjectSetName((PetscObject) p_natural,"IC");CHKERRQ(ierr);
   ierr = VecView(p_natural,viewer);CHKERRQ(ierr);
@@ -438,10 +438,10 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
     if (useNatural) {
       Vec p_natural;
       Vec s_natural;
-      ierr = TDyCreateGlobalVector(tdy,&p_natural);
+      ierr = TDyCreateGlobalVector(tdy,&p_natural); CHKERRQ(ierr);
       ierr = TDyGlobalToNatural(tdy, p, p_natural);CHKERRQ(ierr);
 
-      ierr = TDyCreateGlobalVector(tdy, &s_natural);
+      ierr = TDyCreateGlobalVector(tdy, &s_natural); CHKERRQ(ierr);
       ierr = TDyGlobalToNatural(tdy, s, s_natural);CHKERRQ(ierr);
 
       ierr = TDyIOWriteHDF5Var(ofilename,dm,p_natural,zonalVarNames[0],time);CHKERRQ(ierr);
@@ -457,7 +457,7 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
   }
 
   // Clean up.
-  VecDestroy(&s);
+  ierr = VecDestroy(&s); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -491,7 +491,7 @@ PetscErrorCode TDyIOWriteHDF5Var(char *ofilename,DM dm,Vec U,char *VariableName,
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,ofilename,FILE_MODE_APPEND,&viewer);CHKERRQ(ierr);
 
   ierr = PetscObjectSetName((PetscObject) U,word);CHKERRQ(ierr);
-  ierr = DMGetLocalSection(dm, &sec);
+  ierr = DMGetLocalSection(dm, &sec); CHKERRQ(ierr);
   //Change to field name
   ierr = PetscSectionSetFieldName(sec, 0, VariableName); CHKERRQ(ierr);
   ierr = VecView(U,viewer);CHKERRQ(ierr);
@@ -696,9 +696,10 @@ PetscErrorCode TDyIOWriteXMFFooter(){
 }
 
 PetscErrorCode TDyIODestroy(TDyIO *io) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
-  TDyIOWriteXMFFooter();
-  TDyFree(*io);
+  ierr = TDyIOWriteXMFFooter(); CHKERRQ(ierr);
+  ierr = TDyFree(*io); CHKERRQ(ierr);
   io = PETSC_NULL;
   PetscFunctionReturn(0);
 }
diff --git a/src/tdyregression.c b/src/tdyregression.c
index 237957f..7d42314 100644
--- a/src/tdyregression.c
+++ b/src/tdyregression.c
@@ -38,7 +38,7 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
   ierr = PetscOptionsInt ("-tdy_regression_test_num_cells_per_process",
 			  "Number of cells per MPI process","",
 			  regression->num_cells_per_process,
-			  &(regression->num_cells_per_process),NULL);
+			  &(regression->num_cells_per_process),NULL); CHKERRQ(ierr);
 
   ierr = PetscOptionsGetString(NULL,NULL,"-tdy_regression_test_filename",
 			       regression->filename,sizeof(regression->filename),
diff --git a/src/tdyti.c b/src/tdyti.c
index c29f9ea..b667f3c 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -206,17 +206,18 @@ PetscErrorCode TDyTimeIntegratorOutputRegression(TDy tdy) {
 
 
 PetscErrorCode TDyTimeIntegratorDestroy(TDyTimeIntegrator *ti) {
+  PetscErrorCode ierr;
   PetscFunctionBegin;
   if (*ti) {
     switch((*ti)->time_integration_method) {
       case TDySNES:
-        SNESDestroy(&((*ti)->snes));
+        ierr = SNESDestroy(&((*ti)->snes)); CHKERRQ(ierr);
         break;
       case TDyTS:
-        TSDestroy(&((*ti)->ts));
+        ierr = TSDestroy(&((*ti)->ts)); CHKERRQ(ierr);
         break;
     }
-    TDyFree(*ti);
+    ierr = TDyFree(*ti); CHKERRQ(ierr);
   }
   ti = PETSC_NULL;
   PetscFunctionReturn(0);
diff --git a/src/tdytimers.c b/src/tdytimers.c
index bf6a0e7..1aa3fe5 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -55,22 +55,24 @@ PetscErrorCode TDyInitTimers() {
   ierr = TDyAddProfilingStage("TDycore I/O"); CHKERRQ(ierr);
 
   // Register our shutdown function.
-  TDyOnFinalize(ShutDownTimers);
+  ierr = TDyOnFinalize(ShutDownTimers); CHKERRQ(ierr);
 
   return ierr;
 }
 
 PetscErrorCode TDyEnableTimers() {
+  PetscErrorCode ierr;
   timersEnabled_ = PETSC_TRUE;
-  PetscLogDefaultBegin();
+  ierr = PetscLogDefaultBegin(); CHKERRQ(ierr);
   return 0;
 }
 
 PetscErrorCode TDyAddProfilingStage(const char* name) {
+  PetscErrorCode ierr;
   khiter_t iter = kh_get(TDY_PROFILING_STAGE_MAP, TDY_PROFILING_STAGES, name);
   PetscLogStage stage;
   if (iter == kh_end(TDY_PROFILING_STAGES)) {
-    PetscLogStageRegister(name, &stage);
+    ierr = PetscLogStageRegister(name, &stage); CHKERRQ(ierr);
     int retval;
     iter = kh_put(TDY_PROFILING_STAGE_MAP, TDY_PROFILING_STAGES, name, &retval);
     kh_val(TDY_PROFILING_STAGES, iter) = stage;
@@ -88,7 +90,7 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
     khint64_t tdy_addr = (khint64_t)tdy;
     khiter_t iter = kh_get(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA, tdy_addr);
     TimingMetadata* md;
-    PetscNew(&md);
+    ierr = PetscNew(&md); CHKERRQ(ierr);
     if (iter == kh_end(TDY_PROFILING_METADATA)) {
       int retval;
       iter = kh_put(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA, tdy_addr, &retval);
@@ -102,7 +104,7 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
     ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
     if (dm != NULL) {
       PetscInt cStart, cEnd;
-      DMPlexGetHeightStratum(dm,0,&cStart,&cEnd);
+      ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd); CHKERRQ(ierr);
       md->num_cells = mesh->num_cells_local;
     } else {
       md->num_cells = 0;
@@ -113,13 +115,14 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
 }
 
 PetscErrorCode TDyWriteTimingProfile(const char* filename) {
+  PetscErrorCode ierr;
   if (timersEnabled_) {
     PetscViewer log;
-    PetscViewerASCIIOpen(PETSC_COMM_WORLD, "tdycore_profile.csv", &log);
+    ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD, "tdycore_profile.csv", &log); CHKERRQ(ierr);
     PetscViewerFormat format = PETSC_VIEWER_ASCII_CSV;
-    PetscViewerPushFormat(log, format);
-    PetscLogView(log);
-    PetscViewerDestroy(&log);
+    ierr = PetscViewerPushFormat(log, format); CHKERRQ(ierr);
+    ierr = PetscLogView(log); CHKERRQ(ierr);
+    ierr = PetscViewerDestroy(&log); CHKERRQ(ierr);
 
     // Add a footer to the profile CSV that contains metadata.
     // TODO: For now, we only support profiling for one TDy instance. It's not
diff --git a/src/tdyutils.c b/src/tdyutils.c
index 5cfd2c8..b9ba1c3 100644
--- a/src/tdyutils.c
+++ b/src/tdyutils.c
@@ -495,7 +495,7 @@ PetscErrorCode TDySavePetscVecAsBinary(Vec vec, const char filename[]) {
   PetscFunctionBegin;
 
   MPI_Comm comm;
-  PetscObjectGetComm((PetscObject)vec,&comm);
+  ierr = PetscObjectGetComm((PetscObject)vec,&comm); CHKERRQ(ierr);
 
   ierr = PetscViewerBinaryOpen(comm, filename, FILE_MODE_WRITE,
                                &viewer); CHKERRQ(ierr);
@@ -514,7 +514,7 @@ PetscErrorCode TDySavePetscVecAsASCII(Vec V, const char filename[]) {
   PetscFunctionBegin;
 
   MPI_Comm comm;
-  PetscObjectGetComm((PetscObject)V,&comm);
+  ierr = PetscObjectGetComm((PetscObject)V,&comm); CHKERRQ(ierr);
 
   ierr = PetscViewerASCIIOpen(comm,filename,&viewer); CHKERRQ(ierr);
   ierr = VecView(V, viewer); CHKERRQ(ierr);
@@ -552,7 +552,7 @@ PetscErrorCode TDySavePetscMatAsBinary(Mat M, const char filename[]) {
   PetscFunctionBegin;
 
   MPI_Comm comm;
-  PetscObjectGetComm((PetscObject)M,&comm);
+  ierr = PetscObjectGetComm((PetscObject)M,&comm); CHKERRQ(ierr);
 
   ierr = PetscViewerBinaryOpen(comm, filename, FILE_MODE_WRITE,
                                &viewer); CHKERRQ(ierr);
@@ -571,7 +571,7 @@ PetscErrorCode TDySavePetscMatAsASCII(Mat M, const char filename[]) {
   PetscFunctionBegin;
 
   MPI_Comm comm;
-  PetscObjectGetComm((PetscObject)M,&comm);
+  ierr = PetscObjectGetComm((PetscObject)M,&comm); CHKERRQ(ierr);
 
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,filename,&viewer); CHKERRQ(ierr);
   ierr = MatView(M, viewer); CHKERRQ(ierr);
@@ -589,7 +589,7 @@ PetscErrorCode TDySavePetscISAsASCII(IS is, const char filename[]) {
   PetscFunctionBegin;
 
   MPI_Comm comm;
-  PetscObjectGetComm((PetscObject)is,&comm);
+  ierr = PetscObjectGetComm((PetscObject)is,&comm); CHKERRQ(ierr);
 
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,filename,&viewer); CHKERRQ(ierr);
   ierr = ISView(is, viewer); CHKERRQ(ierr);
@@ -607,7 +607,7 @@ PetscErrorCode TDySavePetscVecScatterAsASCII(VecScatter scatter, const char file
   PetscFunctionBegin;
 
   MPI_Comm comm;
-  PetscObjectGetComm((PetscObject)scatter,&comm);
+  ierr = PetscObjectGetComm((PetscObject)scatter,&comm); CHKERRQ(ierr);
 
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,filename,&viewer); CHKERRQ(ierr);
   ierr = VecScatterView(scatter, viewer); CHKERRQ(ierr);
@@ -625,7 +625,7 @@ PetscErrorCode TDySavePetscISLocalToGlobalMappingAsASCII(ISLocalToGlobalMapping
   PetscFunctionBegin;
 
   MPI_Comm comm;
-  PetscObjectGetComm((PetscObject)map,&comm);
+  ierr = PetscObjectGetComm((PetscObject)map,&comm); CHKERRQ(ierr);
 
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,filename,&viewer); CHKERRQ(ierr);
   ierr = ISLocalToGlobalMappingView(map, viewer); CHKERRQ(ierr);
-- 
2.43.0


From 7dadf72230ce0fe6027c4d6879fcef7a1a959028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 07/46] fix: restore every array MPFA-O DAE/TransientVariable
 callbacks borrow; make DAE setup reachable

---
 src/fv/mpfao/tdympfao.c                 | 17 +++++++++--------
 src/fv/mpfao/tdympfao_ts_dae.c          |  5 +++++
 src/fv/mpfao/tdympfao_ts_transientvar.c |  2 +-
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index cdf8555..bbc6a50 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2337,14 +2337,13 @@ PetscErrorCode TDySetup_Richards_MPFAO_DAE(void *context, TDyDiscretizationType
                                            Conditions* conditions) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
-  PetscFunctionReturn(0);
 
   TDyMPFAO *mpfao = context;
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
@@ -2366,11 +2365,11 @@ PetscErrorCode TDySetup_Richards_MPFAO_DAE(void *context, TDyDiscretizationType
   ierr = TDyAllocate_RealArray_3D(&mpfao->Trans, mpfao->mesh->num_vertices,
                                   mpfao->nfv, mpfao->nfv + mpfao->ncv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Trans_mat); CHKERRQ(ierr);
-  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec);
-  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec);
-  ierr = VecZeroEntries(mpfao->GravDisVec);
+  ierr = MatSetOption(mpfao->Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->P_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->TtimesP_vec); CHKERRQ(ierr);
+  ierr = VecCreateSeq(PETSC_COMM_SELF,nrow,&mpfao->GravDisVec); CHKERRQ(ierr);
+  ierr = VecZeroEntries(mpfao->GravDisVec); CHKERRQ(ierr);
   PetscInt nsubcells = 8;
   ierr = TDyAllocate_RealArray_4D(&mpfao->subc_Gmatrix, mpfao->mesh->num_cells,
                                   nsubcells, 3, 3); CHKERRQ(ierr);
@@ -2382,6 +2381,8 @@ PetscErrorCode TDySetup_Richards_MPFAO_DAE(void *context, TDyDiscretizationType
 
   ierr = AllocateMemoryForBoundaryValues(mpfao, eos); CHKERRQ(ierr);
   ierr = AllocateMemoryForSourceSinkValues(mpfao); CHKERRQ(ierr);
+
+  PetscFunctionReturn(0);
 }
 
 // Setup function for TH + MPFA-O
diff --git a/src/fv/mpfao/tdympfao_ts_dae.c b/src/fv/mpfao/tdympfao_ts_dae.c
index 47ae2f0..86ed6cc 100644
--- a/src/fv/mpfao/tdympfao_ts_dae.c
+++ b/src/fv/mpfao/tdympfao_ts_dae.c
@@ -74,8 +74,13 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
   /* Cleanup */
   ierr = VecRestoreArray(M,&m); CHKERRQ(ierr);
+  ierr = VecRestoreArray(U_t,&u_t); CHKERRQ(ierr);
   ierr = VecRestoreArray(R,&r); CHKERRQ(ierr);
   ierr = VecRestoreArray(R_P,&r_p); CHKERRQ(ierr);
+  ierr = VecDestroy(&P); CHKERRQ(ierr);
+  ierr = VecDestroy(&M); CHKERRQ(ierr);
+  ierr = VecDestroy(&R_P); CHKERRQ(ierr);
+  ierr = VecDestroy(&R_M); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
diff --git a/src/fv/mpfao/tdympfao_ts_transientvar.c b/src/fv/mpfao/tdympfao_ts_transientvar.c
index 6ddb6cc..b65a3f4 100644
--- a/src/fv/mpfao/tdympfao_ts_transientvar.c
+++ b/src/fv/mpfao/tdympfao_ts_transientvar.c
@@ -28,7 +28,7 @@ PetscErrorCode TDyMPFAOTransientVariable(TS ts, Vec U, Vec C, void *ctx) {
   // Update the auxillary variables based on the current iterate
   ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln,&p); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
-- 
2.43.0


From fe4b85e8657c75d09a46a8d009630cd78e3d2dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 08/46] fix: release temporaries leaked on success paths; keep
 closure and face-cell maps valid for their callers

---
 src/fv/mpfao/tdympfao_steady.c |  4 ----
 src/fv/mpfao/tdympfao_utils.c  |  8 +++-----
 src/fv/share/tdymeshcustom.c   |  7 +++++--
 src/fv/share/tdyugrid.c        |  6 +++++-
 src/tdycore.c                  |  2 ++
 src/tdyio.c                    |  7 +++++++
 src/tdytimers.c                |  4 +++-
 src/tdyutils.c                 | 21 +++++++--------------
 8 files changed, 32 insertions(+), 27 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_steady.c b/src/fv/mpfao/tdympfao_steady.c
index dc0ef40..25e0966 100644
--- a/src/fv/mpfao/tdympfao_steady.c
+++ b/src/fv/mpfao/tdympfao_steady.c
@@ -19,7 +19,6 @@ PetscErrorCode TDyMPFAOComputeSystem_InternalVertices(TDy tdy, Mat K,Vec F) {
   PetscInt       vStart, vEnd;
   PetscInt       fStart, fEnd;
   PetscInt       dim;
-  PetscReal      **Gmatrix;
   PetscErrorCode ierr;
 
   PetscFunctionBegin;
@@ -33,7 +32,6 @@ PetscErrorCode TDyMPFAOComputeSystem_InternalVertices(TDy tdy, Mat K,Vec F) {
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
   for (ivertex=0; ivertex<mesh->num_vertices; ivertex++) {
 
@@ -101,7 +99,6 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_SharedWithInternalVertices
   PetscInt       vStart, vEnd;
   PetscInt       fStart, fEnd;
   PetscInt       dim;
-  PetscReal      **Gmatrix;
   PetscInt npcen, npitf_bc, nflux_in;
   PetscErrorCode ierr;
 
@@ -116,7 +113,6 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_SharedWithInternalVertices
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
     /*
 
diff --git a/src/fv/mpfao/tdympfao_utils.c b/src/fv/mpfao/tdympfao_utils.c
index 6dea7c7..af4b60c 100644
--- a/src/fv/mpfao/tdympfao_utils.c
+++ b/src/fv/mpfao/tdympfao_utils.c
@@ -113,7 +113,6 @@ PetscErrorCode TDyMPFAORecoverVelocity_InternalVertices(TDy tdy, Vec U, PetscRea
   PetscInt       vStart, vEnd;
   PetscInt       fStart, fEnd;
   PetscInt       dim;
-  PetscReal      **Gmatrix;
   PetscScalar    *u;
   Vec            localU;
   PetscReal      vel_normal;
@@ -131,7 +130,6 @@ PetscErrorCode TDyMPFAORecoverVelocity_InternalVertices(TDy tdy, Vec U, PetscRea
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
   // TODO: Save localU
   ierr = DMGetLocalVector(dm,&localU); CHKERRQ(ierr);
@@ -231,7 +229,6 @@ PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_SharedWithInternalVertic
   PetscInt       vStart, vEnd;
   PetscInt       fStart, fEnd;
   PetscInt       dim;
-  PetscReal      **Gmatrix;
   Vec            localU;
   PetscScalar    *u;
   PetscInt npcen, npitf_bc, nflux_in;
@@ -250,7 +247,6 @@ PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_SharedWithInternalVertic
 
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
-  ierr = TDyAllocate_RealArray_2D(&Gmatrix, dim, dim); CHKERRQ(ierr);
 
   // TODO: Save localU
   ierr = DMGetLocalVector(dm,&localU); CHKERRQ(ierr);
@@ -619,7 +615,7 @@ PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_NotSharedWithInternalVer
 
       PetscInt face_id = face_ids[iface];
       PetscInt *cell_ids, num_cells;
-      ierr = TDyMeshGetFaceCells(mesh, iface, &cell_ids, &num_cells); CHKERRQ(ierr);
+      ierr = TDyMeshGetFaceCells(mesh, face_id, &cell_ids, &num_cells); CHKERRQ(ierr);
 
       if (!faces->is_local[face_id]) continue;
 
@@ -651,6 +647,7 @@ PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_NotSharedWithInternalVer
 
   ierr = VecRestoreArray(localU,&u); CHKERRQ(ierr);
   ierr = DMRestoreLocalVector(dm,&localU); CHKERRQ(ierr);
+  ierr = TDyDeallocate_RealArray_2D(Gmatrix, dim); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 
@@ -878,6 +875,7 @@ PetscErrorCode TDyMPFAO_SetBoundarySalineConcentration(TDy tdy, Vec Ul) {
 
   ierr = VecRestoreArray(Ul,&u_p); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->Psi_vec,&psi_vec_ptr); CHKERRQ(ierr);
+  ierr = PetscFree(psi); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index 2c03751..2d978d1 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -741,8 +741,7 @@ static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_
       face_count++;
     }
   }
-  ierr = TDyDeallocate_IntegerArray_2D(face_to_cell, 2); CHKERRQ(ierr);
-  ierr = TDyAllocate_IntegerArray_2D(&face_to_cell, 2, face_count); CHKERRQ(ierr);
+  // Compact the caller's map in place (it has room for face_count faces)
   for (PetscInt iface=0; iface<face_count; iface++) {
     for (PetscInt i=0; i<2; i++) {
       face_to_cell[i][iface] = tmp_int_2d[i][iface];
@@ -1281,6 +1280,10 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   // Computes geometric attirbutes of all faces and saves them in the TDyUGrid struct
   ierr = ComputeGeoAttrOfUGridFaces(cell_to_face, ugrid); CHKERRQ(ierr);
 
+  ierr = TDyDeallocate_IntegerArray_2D(face_to_cell, 2); CHKERRQ(ierr);
+  ierr = TDyDeallocate_IntegerArray_2D(cell_to_face, max_face_per_cell); CHKERRQ(ierr);
+  ierr = TDyDeallocate_IntegerArray_2D(vertex_to_cell, max_cells_sharing_a_vertex); CHKERRQ(ierr);
+  ierr = TDyFree(num_vertex_to_cell); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index ed92f01..89a70e0 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -849,6 +849,8 @@ static PetscErrorCode ScatterVecNatOrderToPetscOrder(PetscInt stride, PetscInt d
   // Determine the ids of cell neigbhors (aka duals) in ghosted-index
   ierr = DetermineNeigbhorsCellIDsInGhostedOrder(stride, dual_offset, PetscOrderVec, ugrid); CHKERRQ(ierr);
 
+  ierr = VecDestroy(&PostPartNatOrderVec); CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 }
 
@@ -1200,7 +1202,9 @@ PetscErrorCode TDyUGridCreateFromPFLOTRANMesh(const char *mesh_file, TDyUGrid *u
    ierr = ScatterVertexNatOrderToLocalOrder(stride, vertex_ids_offset, ugrid, &LocalOrderVec); CHKERRQ(ierr);
    ierr = VecDestroy(&LocalOrderVec); CHKERRQ(ierr);
 
-  //ierr = MatDestroy(&AdjMat); CHKERRQ(ierr);
+  ierr = VecDestroy(&NatOrderVec); CHKERRQ(ierr);
+  ierr = ISDestroy(&NewCellRankIS); CHKERRQ(ierr);
+  ierr = MatDestroy(&AdjMat); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 
diff --git a/src/tdycore.c b/src/tdycore.c
index c4855cd..6ec94b0 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -466,6 +466,7 @@ PetscErrorCode TDyGetBoundaryFaces(TDy tdy, PetscInt *num_faces,
   ierr = DMLabelGetStratumSize(label, 1, num_faces); CHKERRQ(ierr);
   ierr = DMLabelGetStratumIS(label, 1, &is); CHKERRQ(ierr);
   ierr = ISGetIndices(is, faces); CHKERRQ(ierr);
+  ierr = ISDestroy(&is); CHKERRQ(ierr); // the label keeps its own reference
   PetscFunctionReturn(0);
 }
 
@@ -483,6 +484,7 @@ PetscErrorCode TDyRestoreBoundaryFaces(TDy tdy, PetscInt *num_faces,
   ierr = DMGetLabel(dm, "boundary", &label); CHKERRQ(ierr);
   ierr = DMLabelGetStratumIS(label, 1, &is); CHKERRQ(ierr);
   ierr = ISRestoreIndices(is, faces); CHKERRQ(ierr);
+  ierr = ISDestroy(&is); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
diff --git a/src/tdyio.c b/src/tdyio.c
index efc78be..75b795b 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -208,6 +208,7 @@ PetscErrorCode TDyIOReadPermeability(TDy tdy){
     // change io->anisotropic_permeability to io->heterogeneous_permeability?
     PetscReal perm[3] = {K[0], K[1], K[2]};
     ierr = MaterialPropSetConstantDiagonalPermeability(tdy->matprop, perm);CHKERRQ(ierr);
+    ierr = TDyFree(K);CHKERRQ(ierr);
   }
 
   PetscFunctionReturn(0);
@@ -285,6 +286,7 @@ PetscErrorCode TDyIOReadIC(TDy tdy){
   ierr = TDySetInitialCondition(tdy,u);CHKERRQ(ierr);
 
   ierr = VecDestroy(&u); CHKERRQ(ierr);
+  ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -327,6 +329,8 @@ PetscErrorCode TDyIOReadVariable(TDy tdy, char *VariableName, char *filename, Pe
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
   ierr = VecRestoreArray(u_local,&ptr);CHKERRQ(ierr);
+  ierr = VecDestroy(&u_local);CHKERRQ(ierr);
+  ierr = VecDestroy(&u);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -353,6 +357,7 @@ PetscErrorCode TDyIOOutputCheckpoint(TDy tdy){
   ierr = PetscObjectSetName((PetscObject) p_natural,"IC");CHKERRQ(ierr);
   ierr = VecView(p_natural,viewer);CHKERRQ(ierr);
   ierr = PetscViewerHDF5WriteAttribute(viewer,NULL,"time step", PETSC_INT, (void *) &tdy->ti->istep);CHKERRQ(ierr);
+  ierr = VecDestroy(&p_natural);CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
@@ -446,6 +451,8 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
 
       ierr = TDyIOWriteHDF5Var(ofilename,dm,p_natural,zonalVarNames[0],time);CHKERRQ(ierr);
       ierr = TDyIOWriteHDF5Var(ofilename,dm,s_natural,zonalVarNames[1],time);CHKERRQ(ierr);
+      ierr = VecDestroy(&p_natural);CHKERRQ(ierr);
+      ierr = VecDestroy(&s_natural);CHKERRQ(ierr);
     }
     else {
       ierr = TDyIOWriteHDF5Var(ofilename,dm,p,zonalVarNames[0],time);CHKERRQ(ierr);
diff --git a/src/tdytimers.c b/src/tdytimers.c
index 1aa3fe5..32f580b 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -90,11 +90,13 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
     khint64_t tdy_addr = (khint64_t)tdy;
     khiter_t iter = kh_get(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA, tdy_addr);
     TimingMetadata* md;
-    ierr = PetscNew(&md); CHKERRQ(ierr);
     if (iter == kh_end(TDY_PROFILING_METADATA)) {
       int retval;
+      ierr = PetscNew(&md); CHKERRQ(ierr);
       iter = kh_put(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA, tdy_addr, &retval);
       kh_val(TDY_PROFILING_METADATA, iter) = md;
+    } else {
+      md = kh_val(TDY_PROFILING_METADATA, iter);
     }
     md->mode = tdy->options.mode;
     md->discretization = tdy->options.discretization;
diff --git a/src/tdyutils.c b/src/tdyutils.c
index b9ba1c3..81017f9 100644
--- a/src/tdyutils.c
+++ b/src/tdyutils.c
@@ -6,7 +6,7 @@
 /* ---------------------------------------------------------------- */
 PetscErrorCode Increase_Closure_Array(DM dm, PetscInt **closure, PetscInt *maxClosureSize, PetscInt newSize) {
 
-  PetscInt **tmpArray;
+  PetscInt *newRow;
   PetscInt oldSize;
   PetscInt pStart, pEnd, i, j;
   PetscErrorCode ierr;
@@ -18,24 +18,17 @@ PetscErrorCode Increase_Closure_Array(DM dm, PetscInt **closure, PetscInt *maxCl
 
   oldSize = *maxClosureSize;
 
-  ierr = TDyAllocate_IntegerArray_2D(&tmpArray, pEnd, 2*newSize); CHKERRQ(ierr);
-
+  // Replace the rows one by one: the caller holds on to the array of rows.
   for (i=pStart; i<pEnd; i++) {
-    for (j=0; j<*maxClosureSize; j++) {
-      tmpArray[i][j] = closure[i][j];
+    ierr = TDyAllocate_IntegerArray_1D(&newRow, 2*newSize); CHKERRQ(ierr);
+    for (j=0; j<2*oldSize; j++) {
+      newRow[j] = closure[i][j];
     }
+    ierr = TDyDeallocate_IntegerArray_1D(closure[i]); CHKERRQ(ierr);
+    closure[i] = newRow;
   }
 
-  ierr = TDyDeallocate_IntegerArray_2D(closure, pEnd); CHKERRQ(ierr);
-
   *maxClosureSize = newSize;
-  ierr = TDyAllocate_IntegerArray_2D(&closure, pEnd, 2*newSize); CHKERRQ(ierr);
-
-  for (i=pStart; i<pEnd; i++) {
-    for (j=0; j<oldSize; j++) {
-      closure[i][j] = tmpArray[i][j];
-    }
-  }
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
-- 
2.43.0


From 330c8ca238689c973ff1f607981150b07e12167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 09/46] fix: balance call-trace entries and timers (missing
 PetscFunctionBegin, timers left running)

---
 src/fe/tdybdm.c                         |  1 +
 src/fe/tdywy.c                          |  1 +
 src/fv/fvtpf/tdyfvtpf.c                 |  1 +
 src/fv/fvtpf/tdyfvtpf_snes.c            |  4 +++
 src/fv/mpfao/tdympfao.c                 |  1 +
 src/fv/mpfao/tdympfao_snes.c            |  1 +
 src/fv/mpfao/tdympfao_snes_salinity.c   |  1 +
 src/fv/mpfao/tdympfao_th_ts.c           |  1 +
 src/fv/mpfao/tdyregion.c                |  7 ++++-
 src/fv/share/tdydm.c                    |  3 ++
 src/fv/share/tdymesh.c                  | 37 +++++++++++++++++++++++++
 src/fv/share/tdymeshcustom.c            | 17 ++++++++++++
 src/fv/share/tdymeshplex.c              |  1 +
 src/fv/share/tdyugrid.c                 | 22 +++++++++++++++
 src/materials/tdycharacteristiccurves.c |  1 +
 src/tdycore.c                           |  4 +++
 src/tdydiscretization.c                 |  7 +++++
 src/tdyio.c                             |  8 ++++++
 src/tdyutils.c                          |  6 ++++
 19 files changed, 123 insertions(+), 1 deletion(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 91e8e27..cc4a72d 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -144,6 +144,7 @@ PetscErrorCode TDySetup_BDM(void *context, TDyDiscretizationType *discretization
     }
   }
   ierr = VecRestoreArray(coordinates,&coords); CHKERRQ(ierr);
+  TDyStopTimer(t1);
 
   /* Get plex limits */
   ierr = DMPlexGetChart        (dm,  &pStart,&pEnd); CHKERRQ(ierr);
diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 87fcc60..ce09a63 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -374,6 +374,7 @@ PetscErrorCode TDySetup_WY(void *context, TDyDiscretizationType *discretization,
     }
   }
   ierr = VecRestoreArray(coordinates,&coords); CHKERRQ(ierr);
+  TDyStopTimer(t1);
 
   /* Check that the number of vertices per cell are constant. Soft
      limitation, method is flexible but my data structures are not. */
diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 97d15d4..e5c1cdb 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -330,6 +330,7 @@ static PetscErrorCode AllocateMemoryForSourceSinkValues(TDyFVTPF *fvtpf) {
 }
 
 static PetscErrorCode SetFaceBoundaryConditionType(TDyFVTPF *fvtpf, Conditions *condition) {
+  PetscFunctionBegin;
 
   if (ConditionsHasBoundaryPressureType(condition)) {
     TDyMesh  *mesh = fvtpf->mesh;
diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index c88626b..939358c 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -42,6 +42,7 @@ PetscErrorCode TDyFVTPFSNESJacobianAccumulation(PetscInt icell, PetscReal dtime,
 }
 
 PetscErrorCode TDyFVTPFSNESPreSolve(TDy tdy) {
+  PetscFunctionBegin;
 
   TDyFVTPF *fvtpf = tdy->context;
   TDyMesh *mesh = fvtpf->mesh;
@@ -80,6 +81,7 @@ PetscErrorCode TDyFVTPFSNESPreSolve(TDy tdy) {
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 PetscErrorCode TDyFVTPFSNESTimeCut(TDy tdy) {
+  PetscFunctionBegin;
 
   TDyFVTPF *fvtpf = tdy->context;
   TDyMesh *mesh = fvtpf->mesh;
@@ -111,6 +113,7 @@ PetscErrorCode TDyFVTPFSNESTimeCut(TDy tdy) {
   }
   ierr = VecRestoreArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
+  TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 }
 
@@ -734,5 +737,6 @@ PetscErrorCode TDyFVTPFSNESJacobian(SNES snes,Vec U,Mat A, Mat B,void *ctx) {
     ierr = MatAssemblyEnd(A,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr);
   }
 
+  TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 }
diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index bbc6a50..1a2cd54 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -1000,6 +1000,7 @@ static PetscErrorCode DetermineNumberOfUpAndDownBoundaryFaces(TDyMPFAO *mpfao,
 static PetscErrorCode ComputeCandFmatrix(TDyMPFAO *mpfao, PetscInt ivertex,
   PetscInt varID, PetscReal **Cup, PetscReal **Cdn, PetscReal **Fup,
   PetscReal **Fdn) {
+  PetscFunctionBegin;
 
   TDY_START_FUNCTION_TIMER()
   PetscErrorCode ierr;
diff --git a/src/fv/mpfao/tdympfao_snes.c b/src/fv/mpfao/tdympfao_snes.c
index 75700b7..a762cee 100644
--- a/src/fv/mpfao/tdympfao_snes.c
+++ b/src/fv/mpfao/tdympfao_snes.c
@@ -30,6 +30,7 @@ PetscErrorCode TDyMPFAOSNESAccumulation(TDy tdy, PetscInt icell, PetscReal *accu
 }
 
 PetscErrorCode TDyMPFAOSNESPreSolve(TDy tdy) {
+  PetscFunctionBegin;
 
   TDyMPFAO *mpfao = tdy->context;
   TDyMesh *mesh = mpfao->mesh;
diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index f16b2b0..6022f96 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -49,6 +49,7 @@ PetscErrorCode TDyMPFAOSNESAccumulationTransport(TDy tdy, PetscInt icell, PetscR
 
 /* -------------------------------------------------------------------------- */
 PetscErrorCode TDyMPFAOSNESPreSolve_Salinity(TDy tdy) {
+  PetscFunctionBegin;
 
   TDyMPFAO      *mpfao = tdy->context;
   TDyMesh       *mesh = mpfao->mesh;
diff --git a/src/fv/mpfao/tdympfao_th_ts.c b/src/fv/mpfao/tdympfao_th_ts.c
index 668a26b..6e936b1 100644
--- a/src/fv/mpfao/tdympfao_th_ts.c
+++ b/src/fv/mpfao/tdympfao_th_ts.c
@@ -837,6 +837,7 @@ PetscErrorCode TDyMPFAOIJacobian_Accumulation_TH(Vec Ul,Vec Udotl,PetscReal shif
   ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
 #endif
 
+  TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 }
 
diff --git a/src/fv/mpfao/tdyregion.c b/src/fv/mpfao/tdyregion.c
index 5b6c692..f01bc67 100644
--- a/src/fv/mpfao/tdyregion.c
+++ b/src/fv/mpfao/tdyregion.c
@@ -7,6 +7,7 @@
 ///                     memory is allocated by this function.
 /// @returns 0 on success, or a non-zero error code on failure.
 PetscErrorCode TDyRegionCreate(TDyRegion *region) {
+  PetscFunctionBegin;
 
   region->num_cells = 0;
   region->cell_ids = NULL;
@@ -23,6 +24,7 @@ PetscErrorCode TDyRegionCreate(TDyRegion *region) {
 ///                       needed to accommodate cells.
 /// @returns 0 on success, or a non-zero error code on failure.
 PetscErrorCode TDyRegionAddCells(PetscInt ncells, PetscInt ids[], TDyRegion *region) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
   PetscInt ii;
@@ -38,8 +40,10 @@ PetscErrorCode TDyRegionAddCells(PetscInt ncells, PetscInt ids[], TDyRegion *reg
 /// @param [out] region A pointer to a region struct to be destroyed.
 /// @returns 0 on success, or a non-zero error code on failure.
 PetscErrorCode TDyRegionDestroy(TDyRegion *region) {
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
   if (region->cell_ids != NULL) {
-    return TDyFree(region->cell_ids);
+    ierr = TDyFree(region->cell_ids); CHKERRQ(ierr);
   }
   PetscFunctionReturn(0);
 }
@@ -50,6 +54,7 @@ PetscErrorCode TDyRegionDestroy(TDyRegion *region) {
 /// @param [in] cell_id_1 The index for a cell within the given region.
 /// @param [in] cell_id_2 The index for a second cell within the given region.
 PetscBool TDyRegionAreCellsInTheSameRegion(TDyRegion *region, PetscInt cell_id_1, PetscInt cell_id_2) {
+  PetscFunctionBegin;
 
   if (cell_id_1 >= region->num_cells || cell_id_2 >= region->num_cells) {
     SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Cell ID is larger than the number of cells in the region");
diff --git a/src/fv/share/tdydm.c b/src/fv/share/tdydm.c
index 8b5db80..c054fcb 100644
--- a/src/fv/share/tdydm.c
+++ b/src/fv/share/tdydm.c
@@ -7,6 +7,7 @@
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 PetscErrorCode TDyDMCreate(TDyDM **tdydm) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -23,6 +24,7 @@ PetscErrorCode TDyDMCreate(TDyDM **tdydm) {
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 PetscErrorCode TDyDMDestroy(TDyDM *tdydm) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -43,6 +45,7 @@ PetscErrorCode TDyDMDestroy(TDyDM *tdydm) {
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 PetscErrorCode TDyDMCreateFromUGrid(PetscInt ndof, TDyUGrid *ugrid, TDyDM *tdydm) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index dcd0665..7a84f9d 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -492,6 +492,7 @@ TDyFaceType TDyGetFaceTypeForCellType(TDyCellType cell_type, PetscInt iface) {
 ///
 /// @returns num vertices
 PetscInt TDyGetNumVerticesForFaceType(TDyFaceType face_type) {
+  PetscFunctionBegin;
 
   PetscInt nvertices=0;
 
@@ -936,6 +937,7 @@ PetscErrorCode TDyMeshGetCellEdges(TDyMesh *mesh,
                                    PetscInt cell,
                                    PetscInt **edges,
                                    PetscInt *num_edges) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->cells.edge_offset[cell];
   *edges = &mesh->cells.edge_ids[offset];
   *num_edges = mesh->cells.edge_offset[cell+1] - offset;
@@ -955,6 +957,7 @@ PetscErrorCode TDyMeshGetCellVertices(TDyMesh *mesh,
                                       PetscInt cell,
                                       PetscInt **vertices,
                                       PetscInt *num_vertices) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->cells.vertex_offset[cell];
   *vertices = &mesh->cells.vertex_ids[offset];
   *num_vertices = mesh->cells.vertex_offset[cell+1] - offset;
@@ -971,6 +974,7 @@ PetscErrorCode TDyMeshGetCellVertices(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetCellNumVertices(TDyMesh *mesh,
                                          PetscInt cell,
                                          PetscInt *num_vertices) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->cells.vertex_offset[cell];
   *num_vertices = mesh->cells.vertex_offset[cell+1] - offset;
   PetscFunctionReturn(0);
@@ -989,6 +993,7 @@ PetscErrorCode TDyMeshGetCellFaces(TDyMesh *mesh,
                                    PetscInt cell,
                                    PetscInt **faces,
                                    PetscInt *num_faces) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->cells.face_offset[cell];
   *faces = &mesh->cells.face_ids[offset];
   *num_faces = mesh->cells.face_offset[cell+1] - offset;
@@ -1004,6 +1009,7 @@ PetscErrorCode TDyMeshGetCellFaces(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetCellNumFaces(TDyMesh *mesh,
                                       PetscInt cell,
                                       PetscInt *num_faces) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->cells.face_offset[cell];
   *num_faces = mesh->cells.face_offset[cell+1] - offset;
   PetscFunctionReturn(0);
@@ -1023,6 +1029,7 @@ PetscErrorCode TDyMeshGetCellNeighbors(TDyMesh *mesh,
                                        PetscInt cell,
                                        PetscInt **neighbors,
                                        PetscInt *num_neighbors) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->cells.neighbor_offset[cell];
   *neighbors = &mesh->cells.neighbor_ids[offset];
   *num_neighbors = mesh->cells.neighbor_offset[cell+1] - offset;
@@ -1039,6 +1046,7 @@ PetscErrorCode TDyMeshGetCellNeighbors(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetCellNumNeighbors(TDyMesh *mesh,
                                           PetscInt cell,
                                           PetscInt *num_neighbors) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->cells.neighbor_offset[cell];
   *num_neighbors = mesh->cells.neighbor_offset[cell+1] - offset;
   PetscFunctionReturn(0);
@@ -1053,6 +1061,7 @@ PetscErrorCode TDyMeshGetCellNumNeighbors(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetCellCentroid(TDyMesh *mesh,
                                       PetscInt cell,
                                       TDyCoordinate *centroid) {
+  PetscFunctionBegin;
   *centroid = mesh->cells.centroid[cell];
   PetscFunctionReturn(0);
 }
@@ -1066,6 +1075,7 @@ PetscErrorCode TDyMeshGetCellCentroid(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetCellVolume(TDyMesh *mesh,
                                     PetscInt cell,
                                     PetscReal *volume) {
+  PetscFunctionBegin;
   *volume = mesh->cells.volume[cell];
   PetscFunctionReturn(0);
 }
@@ -1084,6 +1094,7 @@ PetscErrorCode TDyMeshGetVertexInternalCells(TDyMesh *mesh,
                                              PetscInt vertex,
                                              PetscInt **int_cells,
                                              PetscInt *num_int_cells) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->vertices.internal_cell_offset[vertex];
   *int_cells = &mesh->vertices.internal_cell_ids[offset];
   *num_int_cells = mesh->vertices.internal_cell_offset[vertex+1] - offset;
@@ -1101,6 +1112,7 @@ PetscErrorCode TDyMeshGetVertexInternalCells(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetVertexNumInternalCells(TDyMesh *mesh,
                                                 PetscInt vertex,
                                                 PetscInt *num_int_cells) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->vertices.internal_cell_offset[vertex];
   *num_int_cells = mesh->vertices.internal_cell_offset[vertex+1] - offset;
   PetscFunctionReturn(0);
@@ -1116,6 +1128,7 @@ PetscErrorCode TDyMeshGetVertexNumInternalCells(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetVertexNumSubcells(TDyMesh *mesh,
                                            PetscInt vertex,
                                            PetscInt *num_subcells) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->vertices.subcell_offset[vertex];
   *num_subcells = mesh->vertices.subcell_offset[vertex+1] - offset;
   PetscFunctionReturn(0);
@@ -1135,6 +1148,7 @@ PetscErrorCode TDyMeshGetVertexFaces(TDyMesh *mesh,
                                      PetscInt vertex,
                                      PetscInt **faces,
                                      PetscInt *num_faces) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->vertices.face_offset[vertex];
   *faces = &mesh->vertices.face_ids[offset];
   *num_faces = mesh->vertices.face_offset[vertex+1] - offset;
@@ -1151,6 +1165,7 @@ PetscErrorCode TDyMeshGetVertexFaces(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetVertexNumFaces(TDyMesh *mesh,
                                         PetscInt vertex,
                                         PetscInt *num_faces) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->vertices.face_offset[vertex];
   *num_faces = mesh->vertices.face_offset[vertex+1] - offset;
   PetscFunctionReturn(0);
@@ -1170,6 +1185,7 @@ PetscErrorCode TDyMeshGetVertexSubfaces(TDyMesh *mesh,
                                      PetscInt vertex,
                                      PetscInt **subfaces,
                                      PetscInt *num_subfaces) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->vertices.face_offset[vertex];
   *subfaces = &mesh->vertices.subface_ids[offset];
   *num_subfaces = mesh->vertices.face_offset[vertex+1] - offset;
@@ -1190,6 +1206,7 @@ PetscErrorCode TDyMeshGetVertexBoundaryFaces(TDyMesh *mesh,
                                              PetscInt vertex,
                                              PetscInt **faces,
                                              PetscInt *num_faces) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->vertices.boundary_face_offset[vertex];
   *faces = &mesh->vertices.boundary_face_ids[offset];
   *num_faces = mesh->vertices.boundary_face_offset[vertex+1] - offset;
@@ -1207,6 +1224,7 @@ PetscErrorCode TDyMeshGetVertexBoundaryFaces(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetVertexNumBoundaryFaces(TDyMesh *mesh,
                                                 PetscInt vertex,
                                                 PetscInt *num_faces) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->vertices.boundary_face_offset[vertex];
   *num_faces = mesh->vertices.boundary_face_offset[vertex+1] - offset;
   PetscFunctionReturn(0);
@@ -1226,6 +1244,7 @@ PetscErrorCode TDyMeshGetFaceCells(TDyMesh *mesh,
                                    PetscInt face,
                                    PetscInt **cells,
                                    PetscInt *num_cells) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->faces.cell_offset[face];
   *cells = &mesh->faces.cell_ids[offset];
   *num_cells = mesh->faces.cell_offset[face+1] - offset;
@@ -1244,6 +1263,7 @@ PetscErrorCode TDyMeshGetFaceCells(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetFaceNumCells(TDyMesh *mesh,
                                       PetscInt face,
                                       PetscInt *num_cells) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->faces.cell_offset[face];
   *num_cells = mesh->faces.cell_offset[face+1] - offset;
   PetscFunctionReturn(0);
@@ -1263,6 +1283,7 @@ PetscErrorCode TDyMeshGetFaceVertices(TDyMesh *mesh,
                                       PetscInt face,
                                       PetscInt **vertices,
                                       PetscInt *num_vertices) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->faces.vertex_offset[face];
   *vertices = &mesh->faces.vertex_ids[offset];
   *num_vertices = mesh->faces.vertex_offset[face+1] - offset;
@@ -1279,6 +1300,7 @@ PetscErrorCode TDyMeshGetFaceVertices(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetFaceNumVertices(TDyMesh *mesh,
                                          PetscInt face,
                                          PetscInt *num_vertices) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->faces.vertex_offset[face];
   *num_vertices = mesh->faces.vertex_offset[face+1] - offset;
   PetscFunctionReturn(0);
@@ -1293,6 +1315,7 @@ PetscErrorCode TDyMeshGetFaceNumVertices(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetFaceCentroid(TDyMesh *mesh,
                                       PetscInt face,
                                       TDyCoordinate *centroid) {
+  PetscFunctionBegin;
   *centroid = mesh->faces.centroid[face];
   PetscFunctionReturn(0);
 }
@@ -1306,6 +1329,7 @@ PetscErrorCode TDyMeshGetFaceCentroid(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetFaceNormal(TDyMesh *mesh,
                                     PetscInt face,
                                     TDyVector *normal) {
+  PetscFunctionBegin;
   *normal = mesh->faces.normal[face];
   PetscFunctionReturn(0);
 }
@@ -1319,6 +1343,7 @@ PetscErrorCode TDyMeshGetFaceNormal(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetFaceArea(TDyMesh *mesh,
                                   PetscInt face,
                                   PetscReal *area) {
+  PetscFunctionBegin;
   *area = mesh->faces.area[face];
   PetscFunctionReturn(0);
 }
@@ -1337,6 +1362,7 @@ PetscErrorCode TDyMeshGetSubcellFaces(TDyMesh *mesh,
                                       PetscInt subcell,
                                       PetscInt **faces,
                                       PetscInt *num_faces) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->subcells.face_offset[subcell];
   *faces = &mesh->subcells.face_ids[offset];
   *num_faces = mesh->subcells.face_offset[subcell+1] - offset;
@@ -1353,6 +1379,7 @@ PetscErrorCode TDyMeshGetSubcellFaces(TDyMesh *mesh,
 PetscErrorCode TDyMeshGetSubcellNumFaces(TDyMesh *mesh,
                                          PetscInt subcell,
                                          PetscInt *num_faces) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->subcells.face_offset[subcell];
   *num_faces = mesh->subcells.face_offset[subcell+1] - offset;
   PetscFunctionReturn(0);
@@ -1372,6 +1399,7 @@ PetscErrorCode TDyMeshGetSubcellIsFaceUp(TDyMesh *mesh,
                                       PetscInt subcell,
                                       PetscInt **is_face_up,
                                       PetscInt *num_faces) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->subcells.face_offset[subcell];
   *is_face_up = &mesh->subcells.is_face_up[offset];
   *num_faces = mesh->subcells.face_offset[subcell+1] - offset;
@@ -1392,6 +1420,7 @@ PetscErrorCode TDyMeshGetSubcellFaceUnknownIdxs(TDyMesh *mesh,
                                       PetscInt subcell,
                                       PetscInt **face_unknown_idx,
                                       PetscInt *num_faces) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->subcells.face_offset[subcell];
   *face_unknown_idx = &mesh->subcells.face_unknown_idx[offset];
   *num_faces = mesh->subcells.face_offset[subcell+1] - offset;
@@ -1412,6 +1441,7 @@ PetscErrorCode TDyMeshGetSubcellFaceFluxIdxs(TDyMesh *mesh,
                                       PetscInt subcell,
                                       PetscInt **face_flux_idx,
                                       PetscInt *num_faces) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->subcells.face_offset[subcell];
   *face_flux_idx = &mesh->subcells.face_flux_idx[offset];
   *num_faces = mesh->subcells.face_offset[subcell+1] - offset;
@@ -1432,6 +1462,7 @@ PetscErrorCode TDyMeshGetSubcellFaceAreas(TDyMesh *mesh,
                                       PetscInt subcell,
                                       PetscReal **face_area,
                                       PetscInt *num_faces) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->subcells.face_offset[subcell];
   *face_area = &mesh->subcells.face_area[offset];
   *num_faces = mesh->subcells.face_offset[subcell+1] - offset;
@@ -1452,6 +1483,7 @@ PetscErrorCode TDyMeshGetSubcellVertices(TDyMesh *mesh,
                                       PetscInt subcell,
                                       PetscInt **vertices,
                                       PetscInt *num_faces) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->subcells.face_offset[subcell];
   *vertices = &mesh->subcells.vertex_ids[offset];
   *num_faces = mesh->subcells.face_offset[subcell+1] - offset;
@@ -1472,6 +1504,7 @@ PetscErrorCode TDyMeshGetSubcellNuVectors(TDyMesh *mesh,
                                       PetscInt subcell,
                                       TDyVector **nu_vectors,
                                       PetscInt *num_nu_vectors) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->subcells.face_offset[subcell];
   *nu_vectors = &mesh->subcells.nu_vector[offset];
   *num_nu_vectors = mesh->subcells.nu_vector_offset[subcell+1] - offset;
@@ -1492,6 +1525,7 @@ PetscErrorCode TDyMeshGetSubcellNuStarVectors(TDyMesh *mesh,
                                       PetscInt subcell,
                                       TDyVector **nu_star_vectors,
                                       PetscInt *num_nu_star_vectors) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->subcells.face_offset[subcell];
   *nu_star_vectors = &mesh->subcells.nu_star_vector[offset];
   *num_nu_star_vectors = mesh->subcells.nu_vector_offset[subcell+1] - offset;
@@ -1512,6 +1546,7 @@ PetscErrorCode TDyMeshGetSubcellVariableContinutiyCoordinates(TDyMesh *mesh,
                                       PetscInt subcell,
                                       TDyCoordinate **variable_continuity_coordinates,
                                       PetscInt *num_variable_continuity_coordinates) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->subcells.face_offset[subcell];
   *variable_continuity_coordinates = &mesh->subcells.variable_continuity_coordinates[offset];
   *num_variable_continuity_coordinates = mesh->subcells.nu_vector_offset[subcell+1] - offset;
@@ -1532,6 +1567,7 @@ PetscErrorCode TDyMeshGetSubcellFaceCentroids(TDyMesh *mesh,
                                       PetscInt subcell,
                                       TDyCoordinate **face_centroids,
                                       PetscInt *num_face_centroids) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->subcells.face_offset[subcell];
   *face_centroids = &mesh->subcells.variable_continuity_coordinates[offset];
   *num_face_centroids = mesh->subcells.nu_vector_offset[subcell+1] - offset;
@@ -1552,6 +1588,7 @@ PetscErrorCode TDyMeshGetSubcellVerticesCoordinates(TDyMesh *mesh,
                                       PetscInt subcell,
                                       TDyCoordinate **vertices_coordinates,
                                       PetscInt *num_vertices_coordinates) {
+  PetscFunctionBegin;
   PetscInt offset = mesh->subcells.face_offset[subcell];
   *vertices_coordinates = &mesh->subcells.vertices_coordinates[offset];
   *num_vertices_coordinates = mesh->subcells.nu_vector_offset[subcell+1] - offset;
diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index 2d978d1..66a51ec 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -16,6 +16,7 @@
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode TDyMeshMapIndices(TDyDiscretizationType *discretization, TDyMesh** mesh) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -54,6 +55,7 @@ static PetscErrorCode TDyMeshMapIndices(TDyDiscretizationType *discretization, T
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode ComputeVolume(TDyCoordinate *coords, PetscInt ncoords, PetscReal *volume) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
   PetscReal tmp_vol;
@@ -144,6 +146,7 @@ static PetscErrorCode ComputeVolume(TDyCoordinate *coords, PetscInt ncoords, Pet
 
 /* -------------------------------------------------------------------------- */
 static PetscErrorCode TDySetupCellsFromDiscretization(TDyDiscretizationType *discretization, TDyMesh **mesh) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -434,6 +437,7 @@ default:
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode GetFaceVertices(TDyCellType cell_type, PetscInt iface, PetscInt *vertex_ids){
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -474,6 +478,7 @@ static PetscErrorCode GetFaceVertices(TDyCellType cell_type, PetscInt iface, Pet
 ///
 /// @returns vertex_found True if all vertices are present
 static PetscBool AreAllVerticesPresentInDual(TDyUGrid *ugrid, PetscInt cell_id, PetscInt cell_id2, PetscInt iface, PetscInt **cell_to_face, PetscInt **face_to_vertex) {
+  PetscFunctionBegin;
 
   PetscInt num_vertices = ugrid->cell_num_vertices[cell_id];
   TDyCellType cell_type = GetCellType(num_vertices);
@@ -517,6 +522,7 @@ static PetscBool AreAllVerticesPresentInDual(TDyUGrid *ugrid, PetscInt cell_id,
 ///
 /// @returns corresponding_face_id Face index of the dual cell
 static PetscInt GetCorrespondingFaceInDualCell(TDyUGrid *ugrid, PetscInt cell_id, PetscInt cell_id2, PetscInt iface, PetscInt **cell_to_face, PetscInt **face_to_vertex) {
+  PetscFunctionBegin;
 
 
   PetscInt corresponding_face_id = -1;
@@ -576,6 +582,7 @@ static PetscInt GetCorrespondingFaceInDualCell(TDyUGrid *ugrid, PetscInt cell_id
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode SetupMaps_C2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_face, PetscInt **face_to_cell, PetscInt **face_to_vertex) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
   PetscInt ngmax = ugrid->num_cells_global;
@@ -626,6 +633,7 @@ static PetscErrorCode SetupMaps_C2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode RemoveDuplicateFaces(TDyUGrid *ugrid, PetscInt **face_to_vertex, PetscInt **face_to_cell, PetscInt **cell_to_face) {
+  PetscFunctionBegin;
 
   PetscInt nlmax = ugrid->num_cells_local;
 
@@ -696,6 +704,7 @@ static PetscErrorCode RemoveDuplicateFaces(TDyUGrid *ugrid, PetscInt **face_to_v
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_face, PetscInt **face_to_cell, PetscInt **face_to_vertex) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
   PetscInt max_vert_per_face = ugrid->max_vert_per_face;
@@ -792,6 +801,7 @@ static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode SetupMap_V2C(TDyUGrid *ugrid, PetscInt *num_vertex_to_cell, PetscInt **vertex_to_cell) {
+  PetscFunctionBegin;
 
   PetscInt num_vertices_local = ugrid->num_verts_local;
   PetscInt max_cells_sharing_a_vertex = ugrid->max_cells_sharing_a_vertex;
@@ -833,6 +843,7 @@ static PetscErrorCode SetupMap_V2C(TDyUGrid *ugrid, PetscInt *num_vertex_to_cell
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode CreateInternalFaces(PetscInt **face_to_cell, PetscInt **cell_to_face, TDyUGrid *ugrid, TDyMesh **mesh) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -958,6 +969,7 @@ static PetscErrorCode CreateInternalFaces(PetscInt **face_to_cell, PetscInt **ce
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode ComputeTriArea(TDyUGrid *ugrid, PetscInt v_id1, PetscInt v_id2, PetscInt v_id3, PetscReal *area) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -1001,6 +1013,7 @@ static PetscErrorCode ComputeTriArea(TDyUGrid *ugrid, PetscInt v_id1, PetscInt v
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode ComputeTriAreasAndIntercpet(TDyUGrid *ugrid, PetscInt v_id1, PetscInt v_id2, PetscInt v_id3, PetscReal point_up[3], 
   PetscReal point_dn[3], PetscReal n_up_dn[3], PetscReal *area, PetscReal *area_projected, PetscReal intercept[3]) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -1047,6 +1060,7 @@ static PetscErrorCode ComputeTriAreasAndIntercpet(TDyUGrid *ugrid, PetscInt v_id
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode ComputeGeoAttrOfInternalFaces(TDyUGrid *ugrid, TDyMesh **mesh) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -1148,6 +1162,7 @@ static PetscErrorCode ComputeGeoAttrOfInternalFaces(TDyUGrid *ugrid, TDyMesh **m
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode ComputeGeoAttrOfUGridFaces(PetscInt **cell_to_face, TDyUGrid *ugrid) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -1228,6 +1243,7 @@ static PetscErrorCode ComputeGeoAttrOfUGridFaces(PetscInt **cell_to_face, TDyUGr
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *discretization, TDyMesh **mesh) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -1294,6 +1310,7 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 PetscErrorCode TDyMeshCreateFromDiscretization(TDyDiscretizationType *discretization, TDyMesh** mesh) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 47a1270..0b43982 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -9,6 +9,7 @@
 
 static PetscErrorCode AreFacesNeighbors(TDyFace *faces, PetscInt face_id_1,
     PetscInt face_id_2) {
+  PetscFunctionBegin;
 
   PetscBool are_neighbors;
   PetscInt iedge_1, iedge_2;
diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index 89a70e0..b40afae 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -15,6 +15,7 @@ static PetscInt cell_separator = -999999;
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 PetscErrorCode TDyUGridCreate(TDyUGrid **ugrid) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -65,6 +66,7 @@ PetscErrorCode TDyUGridCreate(TDyUGrid **ugrid) {
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode ReadPFLOTRANMeshFile(const char *mesh_file, TDyUGrid *ugrid){
+  PetscFunctionBegin;
 
   PetscViewer viewer;
   Vec cells, verts;
@@ -165,6 +167,7 @@ static PetscErrorCode ReadPFLOTRANMeshFile(const char *mesh_file, TDyUGrid *ugri
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode DetermineMaxNumVerticesActivePerCell(TDyUGrid *ugrid) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -193,6 +196,7 @@ static PetscErrorCode DetermineMaxNumVerticesActivePerCell(TDyUGrid *ugrid) {
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode CreateAdjacencyMatrix(TDyUGrid *ugrid, Mat *AdjMat) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -237,6 +241,7 @@ static PetscErrorCode CreateAdjacencyMatrix(TDyUGrid *ugrid, Mat *AdjMat) {
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 PetscErrorCode PartitionGrid(Mat DualMat, IS *NewCellRankIS, PetscInt *NewNumCellsLocal) {
+  PetscFunctionBegin;
 
    PetscErrorCode ierr;
 
@@ -273,6 +278,7 @@ PetscErrorCode PartitionGrid(Mat DualMat, IS *NewCellRankIS, PetscInt *NewNumCel
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode DetermineMaxNumDualCells(Mat DualMat, TDyUGrid *ugrid) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -315,6 +321,7 @@ static PetscErrorCode DetermineMaxNumDualCells(Mat DualMat, TDyUGrid *ugrid) {
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode CreateISNatOrderToPetscOrder(TDyUGrid *ugrid, IS NewCellRankIS, PetscInt stride, IS *NatToPetscIS) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -346,6 +353,7 @@ static PetscErrorCode CreateISNatOrderToPetscOrder(TDyUGrid *ugrid, IS NewCellRa
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode CreateVectorNatOrder(TDyUGrid *ugrid, IS NewCellRankIS, PetscInt stride, Vec *NatOrderVec) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -365,6 +373,7 @@ static PetscErrorCode CreateVectorNatOrder(TDyUGrid *ugrid, IS NewCellRankIS, Pe
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode PackNatOrderVector(TDyUGrid *ugrid, Mat DualMat, Vec *NatOrderVec) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -424,6 +433,7 @@ static PetscErrorCode PackNatOrderVector(TDyUGrid *ugrid, Mat DualMat, Vec *NatO
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 PetscErrorCode PrePartNatOrder_To_PostPartNatOrder(PetscInt stride, PetscInt NewNumCellsLocal, IS *NatToPetscIS, Vec *Pre, Vec *Post) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -454,6 +464,7 @@ PetscErrorCode PrePartNatOrder_To_PostPartNatOrder(PetscInt stride, PetscInt New
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode SaveNaturalCellIDs(Vec PostPartNatOrderVec, PetscInt NewNumCellsLocal, PetscInt stride, TDyUGrid *ugrid) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -477,6 +488,7 @@ static PetscErrorCode SaveNaturalCellIDs(Vec PostPartNatOrderVec, PetscInt NewNu
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode CreateApplicationOrder(PetscInt NewGlobalOffset, PetscInt NewNumCellsLocal, TDyUGrid *ugrid) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -506,6 +518,7 @@ static PetscErrorCode CreateApplicationOrder(PetscInt NewGlobalOffset, PetscInt
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode CellAndDualIDs_FromNatOrder_To_GlobalOrder(PetscInt stride, PetscInt dual_offset, PetscInt NewNumCellsLocal, TDyUGrid *ugrid, Vec *PostPartNatOrderVec, Vec *PetscOrderVec) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -574,6 +587,7 @@ static PetscErrorCode CellAndDualIDs_FromNatOrder_To_GlobalOrder(PetscInt stride
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 PetscErrorCode DualIDs_FromPetscOrder_To_LocalOrder(PetscInt stride, PetscInt dual_offset, PetscInt NewNumCellsLocal, PetscInt NewGlobalOffset, TDyUGrid *ugrid, Vec *PetscOrderVec) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -715,6 +729,7 @@ PetscErrorCode DualIDs_FromPetscOrder_To_LocalOrder(PetscInt stride, PetscInt du
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode UpdateNaturalCellIDs(PetscInt stride, PetscInt dual_offset, Vec *NatOrderVec, Vec *PetscOrderVec, TDyUGrid *ugrid) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -766,6 +781,7 @@ static PetscErrorCode UpdateNaturalCellIDs(PetscInt stride, PetscInt dual_offset
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode DetermineNeigbhorsCellIDsInGhostedOrder(PetscInt stride, PetscInt dual_offset, Vec *PetscOrderVec, TDyUGrid *ugrid) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -815,6 +831,7 @@ static PetscErrorCode DetermineNeigbhorsCellIDsInGhostedOrder(PetscInt stride, P
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode ScatterVecNatOrderToPetscOrder(PetscInt stride, PetscInt dual_offset, PetscInt NewNumCellsLocal, Vec *NatOrderVec, IS *NatToPetscIS, TDyUGrid *ugrid, Vec *PetscOrderVec) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -863,6 +880,7 @@ static PetscErrorCode ScatterVecNatOrderToPetscOrder(PetscInt stride, PetscInt d
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 PetscErrorCode ScatterVecPetscOrderToLocalOrder(PetscInt stride, Vec *PetscOrderVec, TDyUGrid *ugrid, Vec *LocalOrderVec) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -931,6 +949,7 @@ PetscErrorCode ScatterVecPetscOrderToLocalOrder(PetscInt stride, Vec *PetscOrder
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode ChangeVertexNatOrderToLocalOrder(PetscInt stride, PetscInt vertex_offset, PetscInt *NewNumVertices, TDyUGrid *ugrid, Vec *LocalOrderVec) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
   PetscInt rank; MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
@@ -1045,6 +1064,7 @@ static PetscErrorCode ChangeVertexNatOrderToLocalOrder(PetscInt stride, PetscInt
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode SaveLocalVertexCoordinates(PetscInt stride, PetscInt vertex_offset, PetscInt NewNumVertices, TDyUGrid *ugrid) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -1130,6 +1150,7 @@ static PetscErrorCode SaveLocalVertexCoordinates(PetscInt stride, PetscInt verte
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 static PetscErrorCode ScatterVertexNatOrderToLocalOrder(PetscInt stride, PetscInt vertex_offset, TDyUGrid *ugrid, Vec *LocalOrderVec) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -1151,6 +1172,7 @@ static PetscErrorCode ScatterVertexNatOrderToLocalOrder(PetscInt stride, PetscIn
 ///
 /// @returns 0 on success, or a non-zero error code on failure
 PetscErrorCode TDyUGridCreateFromPFLOTRANMesh(const char *mesh_file, TDyUGrid *ugrid) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index e488fd0..9b911e7 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -508,6 +508,7 @@ void RelativePermeability_Mualem_Unsmoothed(PetscReal m,PetscReal Se,PetscReal *
 ///
 static PetscErrorCode CubicPolynomialSetup(PetscReal x0, PetscReal x1, PetscReal x2, PetscReal dx,
                                            PetscReal rhs[4]) {
+  PetscFunctionBegin;
 
   PetscReal xt1 = (x1-x0)/dx, xt2 = (x2-x0)/dx;
 
diff --git a/src/tdycore.c b/src/tdycore.c
index 6ec94b0..fd54cb9 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -84,6 +84,7 @@ static PetscBool TDyPackageInitialized = PETSC_FALSE;
 PetscLogEvent TDy_ComputeSystem = 0;
 
 static PetscErrorCode TDyInitSubsystems() {
+  PetscFunctionBegin;
   char           logList[256];
   PetscBool      opt,pkg;
 
@@ -173,6 +174,7 @@ static int shutdown_funcs_cap_ = 0;
 
 /// Call this to register a shutdown function that is called during TDyFinalize.
 PetscErrorCode TDyOnFinalize(void (*shutdown_func)(void)) {
+  PetscFunctionBegin;
   PetscErrorCode ierr;
   if (shutdown_funcs_ == NULL) {
     shutdown_funcs_cap_ = 32;
@@ -1304,6 +1306,7 @@ typedef struct WrapperIntegerStruct {
 
 // This function calls an underlying Function with a NULL context.
 static PetscErrorCode WrapperFunction(void *context, PetscInt n, PetscReal *x, PetscReal *v) {
+  PetscFunctionBegin;
   WrapperStruct *wrapper = context;
   wrapper->func(n, x, v);
   PetscFunctionReturn(0);
@@ -1311,6 +1314,7 @@ static PetscErrorCode WrapperFunction(void *context, PetscInt n, PetscReal *x, P
 
 // This function calls an underlying Function with a NULL context.
 static PetscErrorCode WrapperIntegerFunction(void *context, PetscInt n, PetscReal *x, PetscInt *v) {
+  PetscFunctionBegin;
   WrapperIntegerStruct *wrapper = context;
   wrapper->func(n, x, v);
   PetscFunctionReturn(0);
diff --git a/src/tdydiscretization.c b/src/tdydiscretization.c
index e84936a..363ac67 100644
--- a/src/tdydiscretization.c
+++ b/src/tdydiscretization.c
@@ -4,6 +4,7 @@
 #include <private/tdymemoryimpl.h>
 
 PetscErrorCode TDyDiscretizationCreate(TDyDiscretizationType **discretization) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -21,6 +22,7 @@ PetscErrorCode TDyDiscretizationCreate(TDyDiscretizationType **discretization) {
 
 /* -------------------------------------------------------------------------- */
 PetscErrorCode TDyDiscretizationCreateFromPFLOTRANMesh(const char *mesh_file, PetscInt ndof, TDyDiscretizationType *discretization) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -32,6 +34,7 @@ PetscErrorCode TDyDiscretizationCreateFromPFLOTRANMesh(const char *mesh_file, Pe
 }
 /* -------------------------------------------------------------------------- */
 PetscErrorCode TDyDiscretizationDestroy(TDyDiscretizationType *discretization) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
@@ -46,6 +49,7 @@ PetscErrorCode TDyDiscretizationDestroy(TDyDiscretizationType *discretization) {
 
 /* -------------------------------------------------------------------------- */
 PetscErrorCode TDyDiscretizationGetTDyDM(TDyDiscretizationType *discretization, TDyDM **tdydm) {
+  PetscFunctionBegin;
 
   *tdydm = (discretization->tdydm);
 
@@ -54,6 +58,7 @@ PetscErrorCode TDyDiscretizationGetTDyDM(TDyDiscretizationType *discretization,
 
 /* -------------------------------------------------------------------------- */
 PetscErrorCode TDyDiscretizationGetTDyUGrid(TDyDiscretizationType *discretization, TDyUGrid **grid) {
+  PetscFunctionBegin;
 
   *grid = discretization->ugrid;
 
@@ -62,6 +67,7 @@ PetscErrorCode TDyDiscretizationGetTDyUGrid(TDyDiscretizationType *discretizatio
 
 /* -------------------------------------------------------------------------- */
 PetscErrorCode TDyDiscretizationGetDM(TDyDiscretizationType *discretization, DM *dm) {
+  PetscFunctionBegin;
 
   TDyDM *tdydm = discretization->tdydm;
   *dm = tdydm->dm;
@@ -71,6 +77,7 @@ PetscErrorCode TDyDiscretizationGetDM(TDyDiscretizationType *discretization, DM
 
 /* -------------------------------------------------------------------------- */
 PetscErrorCode TDyDiscretizationGetTDyUGDM(TDyDiscretizationType *discretization, TDyUGDM **ugdm) {
+  PetscFunctionBegin;
 
   TDyDM *tdydm = discretization->tdydm;
   *ugdm = tdydm->ugdm;
diff --git a/src/tdyio.c b/src/tdyio.c
index 75b795b..2953fe3 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -402,6 +402,7 @@ PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
 }
 
 PetscErrorCode TDyIOWriteVec(TDy tdy){
+  PetscFunctionBegin;
   PetscErrorCode ierr;
   PetscBool useNatural;
   Vec p = tdy->soln_prev;
@@ -470,6 +471,7 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
 }
 
 PetscErrorCode TDyIOInitializeHDF5(char *ofilename, DM dm){
+  PetscFunctionBegin;
   PetscViewer viewer;
   PetscErrorCode ierr;
   PetscViewerFormat format;
@@ -484,6 +486,7 @@ PetscErrorCode TDyIOInitializeHDF5(char *ofilename, DM dm){
 }
 
 PetscErrorCode TDyIOWriteHDF5Var(char *ofilename,DM dm,Vec U,char *VariableName,PetscReal time){
+  PetscFunctionBegin;
   PetscViewer viewer;
   PetscErrorCode ierr;
   PetscInt numCell;
@@ -538,6 +541,7 @@ PetscErrorCode TDyIOInitializeExodus(char *ofilename, char *zonalVarNames[], DM
 }
 
 PetscErrorCode TDyIOAddExodusTime(char *ofilename, PetscReal time, DM dm, TDyIO io){
+  PetscFunctionBegin;
 #if defined(PETSC_HAVE_EXODUSII)
   int CPU_word_size, IO_word_size;
   float version;
@@ -559,6 +563,7 @@ PetscErrorCode TDyIOAddExodusTime(char *ofilename, PetscReal time, DM dm, TDyIO
 }
 
 PetscErrorCode TDyIOWriteExodusVar(char *ofilename, Vec U, char *VariableName, TDyIO io, PetscReal time){
+  PetscFunctionBegin;
 #if defined(PETSC_HAVE_EXODUSII)
   PetscErrorCode ierr;
   PetscViewer       viewer;
@@ -589,6 +594,7 @@ PetscErrorCode TDyIOWriteAsciiViewer(Vec U,PetscReal time,char *VariableName) {
 }
 
 PetscErrorCode TDyIOWriteXMFHeader(PetscInt numCell,PetscInt dim,PetscInt numVert,PetscInt numCorner){
+  PetscFunctionBegin;
 
   FILE *fid;
 
@@ -653,6 +659,7 @@ PetscErrorCode TDyIOWriteXMFHeader(PetscInt numCell,PetscInt dim,PetscInt numVer
 }
 
 PetscErrorCode TDyIOWriteXMFAttribute(char* name,char* time,PetscInt numCell){
+  PetscFunctionBegin;
 
   FILE *fid;
 
@@ -690,6 +697,7 @@ PetscErrorCode TDyIOWriteXMFAttribute(char* name,char* time,PetscInt numCell){
 }
 
 PetscErrorCode TDyIOWriteXMFFooter(){
+  PetscFunctionBegin;
   FILE *fid;
 
   //  xmf_filename = "out.xmf";
diff --git a/src/tdyutils.c b/src/tdyutils.c
index 81017f9..e0bdac0 100644
--- a/src/tdyutils.c
+++ b/src/tdyutils.c
@@ -337,6 +337,7 @@ PetscErrorCode TDyTriangleArea(PetscReal node_1[3], PetscReal node_2[3],
 /* ---------------------------------------------------------------- */
 PetscErrorCode TDyQuadrilateralArea(PetscReal node_1[3], PetscReal node_2[3],
                             PetscReal node_3[3], PetscReal node_4[3], PetscReal *area) {
+  PetscFunctionBegin;
   TDY_START_FUNCTION_TIMER()
   PetscReal node_cen[3];
   PetscInt  d;
@@ -362,6 +363,7 @@ PetscErrorCode TDyQuadrilateralArea(PetscReal node_1[3], PetscReal node_2[3],
 /* ---------------------------------------------------------------- */
 PetscErrorCode TDyUnitNormalVectorJoiningTwoVertices(PetscReal node_1[3], PetscReal node_2[3],
                                 PetscReal normal[3]) {
+  PetscFunctionBegin;
   PetscErrorCode ierr;
 
   ierr = TDyCreateVecJoiningTwoVertices(node_1, node_2, normal); CHKERRQ(ierr);
@@ -375,6 +377,7 @@ PetscErrorCode TDyUnitNormalVectorJoiningTwoVertices(PetscReal node_1[3], PetscR
 /* ---------------------------------------------------------------- */
 PetscErrorCode TDyNormalToTriangle(PetscReal node_1[3], PetscReal node_2[3],
                                 PetscReal node_3[3], PetscReal normal[3]) {
+  PetscFunctionBegin;
   TDY_START_FUNCTION_TIMER()
   PetscReal a[3], b[3];
   PetscErrorCode ierr;
@@ -392,6 +395,7 @@ PetscErrorCode TDyNormalToTriangle(PetscReal node_1[3], PetscReal node_2[3],
 /* ---------------------------------------------------------------- */
 PetscErrorCode TDyUnitNormalToTriangle(PetscReal node_1[3], PetscReal node_2[3],
                                     PetscReal node_3[3], PetscReal normal[3]) {
+  PetscFunctionBegin;
   TDY_START_FUNCTION_TIMER()
   PetscErrorCode ierr;
 
@@ -407,6 +411,7 @@ PetscErrorCode TDyUnitNormalToTriangle(PetscReal node_1[3], PetscReal node_2[3],
 PetscErrorCode TDyNormalToQuadrilateral(PetscReal node_1[3], PetscReal node_2[3],
                                      PetscReal node_3[3], PetscReal node_4[3],
                                      PetscReal normal[3]) {
+  PetscFunctionBegin;
   TDY_START_FUNCTION_TIMER()
   PetscReal node_cen[3];
   PetscReal normal_12c[3], normal_23c[3], normal_34c[3], normal_41c[3];
@@ -777,6 +782,7 @@ PetscErrorCode GeometryProjectPointOnPlane (PetscReal plane[4], PetscReal point[
 
 /* -------------------------------------------------------------------------- */
 PetscErrorCode VolumeofTetrahedron(PetscReal point1[3], PetscReal point2[3], PetscReal point3[3], PetscReal point4[3], PetscReal *volume) {
+  PetscFunctionBegin;
 
   PetscErrorCode ierr;
 
-- 
2.43.0


From b70d5ae9cb5d3ee5d758a7def480fbf100cc8701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 10/46] fix: release salinity source and boundary pressure type
 contexts in ConditionsDestroy

---
 src/tdyconditions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdyconditions.c b/src/tdyconditions.c
index 1b16d65..663e1b9 100644
--- a/src/tdyconditions.c
+++ b/src/tdyconditions.c
@@ -17,7 +17,9 @@ PetscErrorCode ConditionsDestroy(Conditions* conditions) {
   PetscFunctionBegin;
   ierr = ConditionsSetForcing(conditions, NULL, NULL, NULL); CHKERRQ(ierr);
   ierr = ConditionsSetEnergyForcing(conditions, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = ConditionsSetSalinitySource(conditions, NULL, NULL, NULL); CHKERRQ(ierr);
   ierr = ConditionsSetBoundaryPressure(conditions, NULL, NULL, NULL); CHKERRQ(ierr);
+  ierr = ConditionsSetBoundaryPressureType(conditions, NULL, NULL, NULL); CHKERRQ(ierr);
   ierr = ConditionsSetBoundaryVelocity(conditions, NULL, NULL, NULL); CHKERRQ(ierr);
   ierr = ConditionsSetBoundaryTemperature(conditions, NULL, NULL, NULL); CHKERRQ(ierr);
   ierr = ConditionsSetBoundarySalineConcentration(conditions, NULL, NULL, NULL); CHKERRQ(ierr);
-- 
2.43.0


From 6cf690c564563eb4107024a7e5c27c4b4c79ce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 11/46] fix: report a missing boundary pressure in steady
 MPFA-O assembly instead of calling a NULL function

---
 src/fv/mpfao/tdympfao_steady.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fv/mpfao/tdympfao_steady.c b/src/fv/mpfao/tdympfao_steady.c
index 25e0966..a62315e 100644
--- a/src/fv/mpfao/tdympfao_steady.c
+++ b/src/fv/mpfao/tdympfao_steady.c
@@ -185,6 +185,10 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_SharedWithInternalVertices
         if (faces->is_internal[face_id] == 0) {
           PetscInt f;
           f = faces->id[face_id] + fStart;
+          if (!ConditionsHasBoundaryPressure(conditions)) {
+            SETERRQ(PETSC_COMM_SELF, PETSC_ERR_USER,
+              "MPFA-O steady problems require a boundary pressure function");
+          }
           ierr = ConditionsComputeBoundaryPressure(conditions, 1, &(mpfao->X[f*dim]),
             &pBoundary[numBoundary]);CHKERRQ(ierr);
           numBoundary++;
@@ -362,6 +366,10 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_NotSharedWithInternalVerti
 
       PetscInt f;
       f = faces->id[face_id] + fStart;
+       if (!ConditionsHasBoundaryPressure(conditions)) {
+         SETERRQ(PETSC_COMM_SELF, PETSC_ERR_USER,
+           "MPFA-O steady problems require a boundary pressure function");
+       }
        ierr = ConditionsComputeBoundaryPressure(conditions, 1, &(mpfao->X[f*dim]), 
            &pBoundary[numBoundary]);CHKERRQ(ierr);
        numBoundary++;
-- 
2.43.0


From d9c1cae0b84a90d403511b0b1838f06a4a7eeb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 12/46] fix: store -tdy_thermal_conductivity in its own option;
 correct misspelt -tdy_permeability and -tdy_residual_saturation

---
 src/tdycore.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index fd54cb9..9e47005 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -533,15 +533,15 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   // Material property options
   PetscOptionsBegin(comm,NULL,"TDyCore: Material property options","");
   ierr = PetscOptionsReal("-tdy_porosity", "Value of porosity", NULL, options->porosity, &options->porosity, NULL); CHKERRQ(ierr);
-  ierr = PetscOptionsReal("-tdy_permability", "Value of permeability", NULL, options->permeability, &options->permeability, NULL); CHKERRQ(ierr);
+  ierr = PetscOptionsReal("-tdy_permeability", "Value of permeability", NULL, options->permeability, &options->permeability, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_soil_density", "Value of soil density", NULL, options->soil_density, &options->soil_density, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_soil_specific_heat", "Value of soil specific heat", NULL, options->soil_specific_heat, &options->soil_specific_heat, NULL); CHKERRQ(ierr);
-  ierr = PetscOptionsReal("-tdy_thermal_conductivity", "Value of thermal conductivity", NULL, options->porosity, &options->porosity, NULL); CHKERRQ(ierr);
+  ierr = PetscOptionsReal("-tdy_thermal_conductivity", "Value of thermal conductivity", NULL, options->thermal_conductivity, &options->thermal_conductivity, NULL); CHKERRQ(ierr);
   PetscOptionsEnd();
 
   // Characteristic curve options
   PetscOptionsBegin(comm,NULL,"TDyCore: Characteristic curve options","");
-  ierr = PetscOptionsReal("-tdy_residual_satuaration", "Value of residual saturation", NULL, options->residual_saturation, &options->residual_saturation, NULL); CHKERRQ(ierr);
+  ierr = PetscOptionsReal("-tdy_residual_saturation", "Value of residual saturation", NULL, options->residual_saturation, &options->residual_saturation, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_gardner_param_n", "Value of Gardner n parameter", NULL, options->gardner_n, &options->gardner_n, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_vangenuchten_param_m", "Value of VanGenuchten m parameter", NULL, options->vangenuchten_m, &options->vangenuchten_m, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_vangenuchten_param_alpha", "Value of VanGenuchten alpha parameter", NULL, options->vangenuchten_alpha, &options->vangenuchten_alpha, NULL); CHKERRQ(ierr);
-- 
2.43.0


From 6d1f2781f77f7a27ae77160757af9ac31b6d93a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 13/46] fix: cut time steps by the reduction factor the time
 integrator holds

---
 src/tdyti.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index b667f3c..cc0cf3f 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -17,7 +17,7 @@ PetscErrorCode TDyTimeIntegratorCreate(TDyTimeIntegrator *_ti) {
   ti->dt_init = 1.;
   ti->dt_max = 1.e20;
   ti->dt_growth_factor = 1.25;
-  ti->dt_reduction_factor = 0.5;
+  ti->dt_reduction_factor = 0.25;
   ti->time = 0.;
   ti->dt_save = 0.;
   PetscReal final_time_in_years = 0.0001;
@@ -139,7 +139,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           ierr = SNESGetConvergedReason(ti->snes,&reason); CHKERRQ(ierr);
           if (reason < 0) {
             icut++;
-            ti->dt *= 0.25;
+            ti->dt *= ti->dt_reduction_factor;
             ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
             PetscChar message[1000];
             sprintf(message,"-> Cut time step: snes=%d icut=%d time=%12.5e dt=%12.5e\n",reason,icut,ti->time,ti->dt);
-- 
2.43.0


From 1ba7b90ea345ad41be58b1635700294e53825d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 14/46] fix: apply the configured boundary condition type in
 FV-TPF when no per-face type is registered

---
 src/fv/fvtpf/tdyfvtpf.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index e5c1cdb..7d3d5ad 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -332,9 +332,16 @@ static PetscErrorCode AllocateMemoryForSourceSinkValues(TDyFVTPF *fvtpf) {
 static PetscErrorCode SetFaceBoundaryConditionType(TDyFVTPF *fvtpf, Conditions *condition) {
   PetscFunctionBegin;
 
-  if (ConditionsHasBoundaryPressureType(condition)) {
-    TDyMesh  *mesh = fvtpf->mesh;
-    TDyFace  *faces = &mesh->faces;
+  TDyMesh  *mesh = fvtpf->mesh;
+  TDyFace  *faces = &mesh->faces;
+
+  if (!ConditionsHasBoundaryPressureType(condition)) {
+    // Use the same boundary condition type on all boundary faces.
+    for (PetscInt iface=0; iface<mesh->num_faces; iface++){
+      if (!faces->is_local[iface] || faces->is_internal[iface]) continue;
+      faces->bc_type[iface] = fvtpf->bc_type;
+    }
+  } else {
     PetscErrorCode ierr;
 
     PetscInt boundary_type;
-- 
2.43.0


From e90f0efe4b363e37c55bbd17f6660b11509f0179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:12 +0000
Subject: [PATCH 15/46] fix: set the pressure derivatives of Batzle-Wang
 density and viscosity

---
 src/materials/tdyeos.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/materials/tdyeos.c b/src/materials/tdyeos.c
index c6ecbd6..364e1c4 100644
--- a/src/materials/tdyeos.c
+++ b/src/materials/tdyeos.c
@@ -38,7 +38,8 @@ static PetscErrorCode ComputeWaterDensity_Exponential(PetscReal p, PetscReal *de
 
 /* ---------------------------------------------------------------- */
 static PetscErrorCode ComputeWaterDensity_BatzleWang(
-  PetscReal P, PetscReal T, PetscReal S, PetscReal *den) {
+  PetscReal P, PetscReal T, PetscReal S, PetscReal *den, PetscReal *dden_dP,
+  PetscReal *d2den_dP2) {
 
   PetscFunctionBegin;
 
@@ -52,6 +53,10 @@ static PetscErrorCode ComputeWaterDensity_BatzleWang(
   *den = pw + S*(0.668 + 0.44*S + 1e-6 * (300. *P*Pa_to_MPa - 2400.*P*Pa_to_MPa*S +T*(80.*3.*T-3300.*S -
  						       13.*P*Pa_to_MPa + 47.*P*Pa_to_MPa*S)))*1000.;
 
+  *dden_dP = 1.e-3*Pa_to_MPa*(489. - 2.*T + 0.016*pow(T,2) - 1.3e-5*pow(T,3) - 2.*0.333*P*Pa_to_MPa - 2.*0.002*T*P*Pa_to_MPa +
+                              S*(300. - 2400.*S + T*(-13. + 47.*S)));
+  *d2den_dP2 = 1.e-3*Pa_to_MPa*Pa_to_MPa*(-2.*0.333 - 2.*0.002*T);
+
   PetscFunctionReturn(0);
 }
 
@@ -74,7 +79,7 @@ PetscErrorCode EOSComputeWaterDensity(EOS *eos,
       ierr = ComputeWaterDensity_Exponential(p,den,dden_dP,d2den_dP2); CHKERRQ(ierr);
       break;
     case WATER_DENSITY_BATZLE_AND_WANG :
-      ierr = ComputeWaterDensity_BatzleWang(p,T,S,den); CHKERRQ(ierr);
+      ierr = ComputeWaterDensity_BatzleWang(p,T,S,den,dden_dP,d2den_dP2); CHKERRQ(ierr);
       break;
     default:
       SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Unknown water density function");
@@ -99,7 +104,8 @@ static PetscErrorCode ComputeWaterViscosity_Constant(PetscReal p,
 }
 
 static PetscErrorCode ComputeWaterViscosity_BatzleWang(
-  PetscReal p, PetscReal T, PetscReal S, PetscReal *vis) {
+  PetscReal p, PetscReal T, PetscReal S, PetscReal *vis, PetscReal *dvis_dP,
+  PetscReal *d2vis_dP2) {
 
   PetscFunctionBegin;
 
@@ -107,6 +113,8 @@ static PetscErrorCode ComputeWaterViscosity_BatzleWang(
          0.333 * S +
          (1.65 + 91.9 *pow(S,3))*exp((-0.42*pow((pow(S,0.8)-0.17),2)+0.045)*pow(T,0.8));
   *vis *= 1e-3;
+  *dvis_dP = 0.0;
+  *d2vis_dP2 = 0.0;
 
   PetscFunctionReturn(0);
 }
@@ -125,7 +133,7 @@ PetscErrorCode EOSComputeWaterViscosity(EOS *eos,
       ierr = ComputeWaterViscosity_Constant(p,vis,dvis_dP,d2vis_dP2); CHKERRQ(ierr);
       break;
     case WATER_VISCOSITY_BATZLE_AND_WANG :
-      ierr = ComputeWaterViscosity_BatzleWang(p,T,S,vis); CHKERRQ(ierr);
+      ierr = ComputeWaterViscosity_BatzleWang(p,T,S,vis,dvis_dP,d2vis_dP2); CHKERRQ(ierr);
       break;
     default:
       SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Unknown water viscosity function");
-- 
2.43.0


From 3ae27b72b1946c84ccedec93fd6e8688afc2c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 16/46] fix: register the number of unknowns of TH with MPFA-O

---
 include/private/tdympfaoimpl.h | 1 +
 src/tdycore.c                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/private/tdympfaoimpl.h b/include/private/tdympfaoimpl.h
index e0d44c5..7cd77bb 100644
--- a/include/private/tdympfaoimpl.h
+++ b/include/private/tdympfaoimpl.h
@@ -131,6 +131,7 @@ PETSC_INTERN PetscErrorCode TDyGetNumDMFields_Richards_MPFAO_DAE(void*);
 PETSC_INTERN PetscErrorCode TDySetDMFields_Richards_MPFAO_DAE(void*, DM);
 PETSC_INTERN PetscErrorCode TDySetup_Richards_MPFAO_DAE(void*, TDyDiscretizationType*, EOS*, MaterialProp*, CharacteristicCurves*, Conditions*);
 
+PETSC_INTERN PetscErrorCode TDyGetNumDMFields_TH_MPFAO(void*);
 PETSC_INTERN PetscErrorCode TDySetDMFields_TH_MPFAO(void*, DM);
 PETSC_INTERN PetscErrorCode TDySetup_TH_MPFAO(void*, TDyDiscretizationType*, EOS*, MaterialProp*, CharacteristicCurves*, Conditions*);
 PETSC_INTERN PetscErrorCode TDyUpdateState_TH_MPFAO(void*, DM, EOS*, MaterialProp*, CharacteristicCurves*, PetscInt, PetscReal*);
diff --git a/src/tdycore.c b/src/tdycore.c
index 9e47005..576e10a 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -914,6 +914,7 @@ PetscErrorCode TDySetDiscretization(TDy tdy, TDyDiscretization discretization) {
       tdy->ops->destroy = TDyDestroy_MPFAO;
       tdy->ops->set_from_options = TDySetFromOptions_MPFAO;
       tdy->ops->set_dm_fields = TDySetDMFields_TH_MPFAO;
+      tdy->ops->get_num_dm_fields = TDyGetNumDMFields_TH_MPFAO;
       tdy->ops->setup = TDySetup_TH_MPFAO;
       tdy->ops->update_state = TDyUpdateState_TH_MPFAO;
       tdy->ops->update_diagnostics = TDyUpdateDiagnostics_MPFAO;
-- 
2.43.0


From d9a5ec45d8a53759ff1c7216e0adf1cd4ef86363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 17/46] fix: refuse TDyUpdateState for discretizations without
 a state update

---
 src/tdycore.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index 576e10a..b9e30d3 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1477,6 +1477,11 @@ PetscErrorCode TDyUpdateState(TDy tdy,PetscReal *U, PetscInt num_cells) {
   // Call the implementation-specific state update.
   DM dm;
   ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
+  if (!tdy->ops->update_state) {
+    MPI_Comm comm;
+    ierr = PetscObjectGetComm((PetscObject)tdy, &comm); CHKERRQ(ierr);
+    SETERRQ(comm,PETSC_ERR_SUP,"State updates are not supported by the selected discretization!");
+  }
   ierr = tdy->ops->update_state(tdy->context, dm, &tdy->eos, tdy->matprop,
                                 tdy->cc, num_cells, U); CHKERRQ(ierr);
 
-- 
2.43.0


From 44cee295b2e71c28bcc5faf24e6e9b9dd9a76a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 18/46] fix: record timing metadata without assuming an MPFA-O
 context

---
 src/tdytimers.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index 32f580b..b41bf49 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -100,14 +100,12 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
     }
     md->mode = tdy->options.mode;
     md->discretization = tdy->options.discretization;
-    TDyMPFAO *mpfao = tdy->context;
-    TDyMesh *mesh = mpfao->mesh;
     DM dm;
     ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
     if (dm != NULL) {
       PetscInt cStart, cEnd;
       ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd); CHKERRQ(ierr);
-      md->num_cells = mesh->num_cells_local;
+      md->num_cells = cEnd - cStart;
     } else {
       md->num_cells = 0;
     }
-- 
2.43.0


From 131b62b95385a4794618a49f69a422c9fffa0574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 19/46] fix: refuse TDySetFromOptions before a discretization
 is set

---
 src/tdycore.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index b9e30d3..ac17053 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -647,6 +647,13 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
   //------------------------------------------
   ierr = ReadCommandLineOptions(tdy); CHKERRQ(ierr);
 
+  // The mode and discretization must have been selected by now, either by the
+  // caller or on the command line.
+  if ((tdy->setup_flags & TDyDiscretizationSet) == 0) {
+    SETERRQ(comm,PETSC_ERR_USER,
+      "You must call TDySetDiscretization before TDySetFromOptions()");
+  }
+
   // Now that we know the discretization, we can create our implementation-
   // specific context.
   ierr = tdy->ops->create(&tdy->context); CHKERRQ(ierr);
-- 
2.43.0


From 2e96c6c54c1ae7c0f3a779f60522e3b01a63c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 20/46] fix: refuse a change of mode or discretization once the
 implementation exists

---
 src/tdycore.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index ac17053..590e799 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -827,13 +827,22 @@ PetscErrorCode TDySetup(TDy tdy) {
 PetscErrorCode TDySetMode(TDy tdy, TDyMode mode) {
   PetscValidPointer(tdy,1);
   PetscFunctionBegin;
+
+  MPI_Comm comm;
+  PetscErrorCode ierr = PetscObjectGetComm((PetscObject)tdy, &comm); CHKERRQ(ierr);
+
+  if (tdy->setup_flags & TDyOptionsSet) {
+    SETERRQ(comm,PETSC_ERR_USER,
+      "You must call TDySetMode before TDySetFromOptions()");
+  }
+
   tdy->options.mode = mode;
   tdy->setup_flags |= TDyModeSet;
 
   // If we are resetting the mode and have already set the discretization,
   // we call TDySetDiscretization again.
   if (tdy->setup_flags & TDyDiscretizationSet) {
-    PetscInt ierr = TDySetDiscretization(tdy, tdy->options.discretization); CHKERRQ(ierr);
+    ierr = TDySetDiscretization(tdy, tdy->options.discretization); CHKERRQ(ierr);
   }
 
   PetscFunctionReturn(0);
@@ -854,6 +863,10 @@ PetscErrorCode TDySetDiscretization(TDy tdy, TDyDiscretization discretization) {
     SETERRQ(comm,PETSC_ERR_USER,
       "You must call TDySetMode before TDySetDiscretization");
   }
+  if (tdy->setup_flags & TDyOptionsSet) {
+    SETERRQ(comm,PETSC_ERR_USER,
+      "You must call TDySetDiscretization before TDySetFromOptions()");
+  }
 
   // Set function pointers for operations.
   if (tdy->options.mode == RICHARDS) {
-- 
2.43.0


From 4241c013b9020a54365a496548c39f98a704ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 21/46] fix: let TDyDestroy handle a dycore whose
 implementation was never created

---
 src/tdycore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 590e799..b446f21 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -388,7 +388,7 @@ PetscErrorCode TDyDestroy(TDy *_tdy) {
   if (tdy->Jpre        ) { ierr = MatDestroy(&tdy->Jpre); CHKERRQ(ierr); }
 
   // Call implementation-specific destructor.
-  if (tdy->ops->destroy) {
+  if (tdy->ops->destroy && tdy->context) {
     ierr = tdy->ops->destroy(tdy->context); CHKERRQ(ierr);
   }
 
-- 
2.43.0


From e9b82600ed58afad860f6fb472bd2e65beae3f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 22/46] fix: return the global state to its initial value in
 TDyFinalize

---
 src/tdycore.c   | 11 ++++++++++-
 src/tdytimers.c | 11 ++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index b446f21..cbb31eb 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -189,6 +189,9 @@ PetscErrorCode TDyOnFinalize(void (*shutdown_func)(void)) {
   PetscFunctionReturn(0);
 }
 
+// The DM constructor supplied from Fortran (see TDySetDMConstructorF90).
+static void (*create_dm_f90_)(MPI_Fint*, DM*, PetscErrorCode*) = NULL;
+
 PetscErrorCode TDyFinalize() {
   PetscErrorCode ierr;
   PetscFunctionBegin;
@@ -199,8 +202,14 @@ PetscErrorCode TDyFinalize() {
       shutdown_funcs_[i]();
     }
     ierr = TDyFree(shutdown_funcs_); CHKERRQ(ierr);
+    shutdown_funcs_ = NULL;
+    num_shutdown_funcs_ = 0;
+    shutdown_funcs_cap_ = 0;
   }
 
+  // Forget any DM constructor supplied from Fortran.
+  create_dm_f90_ = NULL;
+
   // Finalize PETSc.
   ierr = PetscFinalize(); CHKERRQ(ierr);
 
@@ -216,6 +225,7 @@ static khash_t(TDY_FUNC_MAP)* funcs_ = NULL;
 // This function is called on finalization to destroy the function registry.
 static void DestroyFunctionRegistry() {
   kh_destroy(TDY_FUNC_MAP, funcs_);
+  funcs_ = NULL;
 }
 
 /// Registers a named function that evaluates a scalar quantity on a set of
@@ -362,7 +372,6 @@ PetscErrorCode TDySetDMConstructor(TDy tdy, void* context,
 
 // This function is a wrapper used to eliminate the context pointer argument
 // from TDySetDMConstructor so the function can be called from Fortran.
-static void (*create_dm_f90_)(MPI_Fint*, DM*, PetscErrorCode*) = NULL;
 PetscErrorCode TDySetDMConstructorF90(TDy tdy,
                                       void (*dm_func)(MPI_Fint*, DM*, PetscErrorCode*)) {
   PetscFunctionBegin;
diff --git a/src/tdytimers.c b/src/tdytimers.c
index b41bf49..9cad22f 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -132,7 +132,8 @@ PetscErrorCode TDyWriteTimingProfile(const char* filename) {
 
     // Fetch the metadata for the first TDy instance.
     khiter_t md_iter = kh_begin(TDY_PROFILING_METADATA);
-    while (!kh_exist(TDY_PROFILING_METADATA, md_iter)) ++md_iter;
+    while (md_iter != kh_end(TDY_PROFILING_METADATA) &&
+           !kh_exist(TDY_PROFILING_METADATA, md_iter)) ++md_iter;
     if (md_iter == kh_end(TDY_PROFILING_METADATA)) {
       // No metadata was recorded. We're finished.
       return 0;
@@ -168,13 +169,17 @@ void TDyDestroyTimers() {
   // Free the various registries.
   if (TDY_TIMERS != NULL) {
     kh_destroy(TDY_TIMER_MAP, TDY_TIMERS);
+    TDY_TIMERS = NULL;
   }
   if (TDY_PROFILING_STAGES != NULL) {
     kh_destroy(TDY_PROFILING_STAGE_MAP, TDY_PROFILING_STAGES);
+    TDY_PROFILING_STAGES = NULL;
   }
-  TimingMetadata* val;
-  kh_foreach_value(TDY_PROFILING_METADATA, val, PetscFree(val));
   if (TDY_PROFILING_METADATA != NULL) {
+    TimingMetadata* val;
+    kh_foreach_value(TDY_PROFILING_METADATA, val, PetscFree(val));
     kh_destroy(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA);
+    TDY_PROFILING_METADATA = NULL;
   }
+  timersEnabled_ = PETSC_FALSE;
 }
-- 
2.43.0


From 2be8154eaa368c918ef6cde8c161efbb9004c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 23/46] fix: pass Fortran arguments as the C functions expect
 them

---
 src/f90-mod/tdycoref.c     |  4 ++--
 src/f90-mod/tdycoremod.F90 | 18 +++++-------------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/f90-mod/tdycoref.c b/src/f90-mod/tdycoref.c
index 5ac77a9..d8365de 100644
--- a/src/f90-mod/tdycoref.c
+++ b/src/f90-mod/tdycoref.c
@@ -245,9 +245,9 @@ PETSC_EXTERN void  tdydestroy_(TDy *_tdy, int *__ierr){
 *__ierr = TDyDestroy(_tdy);
 }
 
-PETSC_EXTERN void tdyupdatestate_(TDy *tdy,PetscScalar y[], int ncells, int *ierr )
+PETSC_EXTERN void tdyupdatestate_(TDy *tdy,PetscScalar y[], PetscInt *ncells, int *ierr )
 {
-  *ierr = TDyUpdateState(*tdy,y,ncells);
+  *ierr = TDyUpdateState(*tdy,y,*ncells);
 }
 
 PETSC_EXTERN void  tdyglobaltonatural_(TDy tdy, Vec global, Vec natural, int *__ierr){
diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index d2637a7..225ba69 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -130,18 +130,6 @@ module tdycore
        integer z
      end subroutine TDySetup
   end interface
-  interface
-     subroutine TDyComputeSystem(a,b,c,z)
-       use tdycoredef
-       use petscvec
-       use petscmat
-       TDy a
-       Mat b
-       Vec c
-       integer z
-     end subroutine TDyComputeSystem
-  end interface
-
 !  Interface TDyGetNumCellsLocal
 !     subroutine TDyGetNumCellsLocal(a,b,z)
 !       use tdycoredef
@@ -466,6 +454,7 @@ end subroutine
     PetscErrorCode                          :: ierr
 
     call RegisterSpatialFunction(name, func)
+    ierr = 0
   end subroutine
 
   subroutine TDySetDMConstructor(tdy, dm_ctor, ierr)
@@ -486,7 +475,10 @@ end subroutine
       end function
     end interface
 
-    ierr = SetDMConstructor(c_loc(tdy), c_funloc(dm_ctor))
+    type(c_ptr) :: p_tdy
+
+    p_tdy = transfer(tdy%v, p_tdy)
+    ierr = SetDMConstructor(p_tdy, c_funloc(dm_ctor))
   end subroutine
 
   subroutine TDySelectPorosityFunction(tdy, name, ierr)
-- 
2.43.0


From aa1e0edc8f9f17b075507aca4f71612d03d89e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 24/46] fix: spell the Fortran stubs in the name-mangling
 tables as they are defined

---
 src/f90-mod/tdycoref.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/f90-mod/tdycoref.c b/src/f90-mod/tdycoref.c
index d8365de..ae6c294 100644
--- a/src/f90-mod/tdycoref.c
+++ b/src/f90-mod/tdycoref.c
@@ -16,15 +16,15 @@
 #define tdysetmode_                                    TDYSETMODE
 #define tdysetdiscretization_                          TDYSETDISCRETIZATION
 #define tdysetfromoptions_                             TDYSETFROMOPTIONS
-#define tdydriverinitializettdy_                       TDYDRIVERINITIALIZETDY
-#define tdydtimeintegratorruntotime_                   TDYTIMEINTEGRATORRUNTOTIME
-#define tdydtimeintegratorsettimestep_                 TDYTIMEINTEGRATORSETTIMESTEP
-#define tdydtimeintegratoroutputregression_            TDYTIMEINTEGRATOROUTPUTREGRESSION
+#define tdydriverinitializetdy_                        TDYDRIVERINITIALIZETDY
+#define tdytimeintegratorruntotime_                   TDYTIMEINTEGRATORRUNTOTIME
+#define tdytimeintegratorsettimestep_                 TDYTIMEINTEGRATORSETTIMESTEP
+#define tdytimeintegratoroutputregression_            TDYTIMEINTEGRATOROUTPUTREGRESSION
 #define tdysetup_                                      TDYSETUP
 #define tdygetdm_                                      TDYGETDM
 #define tdyupdatediagnostics_                          TDYUPDATEDIAGNOSTICS
 #define tdycreatediagnosticvector_                     TDYCREATEDIAGNOSTICVECTOR
-#define tdycreateprognosticvector_                     TDYCREATEPROGGNOSTICVECTOR
+#define tdycreateprognosticvector_                     TDYCREATEPROGNOSTICVECTOR
 #define tdycreatematrix_                               TDYCREATEMATRIX
 #define tdygetliquidsaturation_                        TDYGETLIQUIDSATURATION
 #define tdygetliquidmass_                              TDYGETLIQUIDMASS
@@ -41,8 +41,8 @@
 #define tdysetdtimeforsnessolver_                      TDYSETDTIMEFORSNESSOLVER
 #define tdysetinitialcondition_                        TDYSETINITIALCONDITION
 #define tdygetinitialcondition_                        TDYGETINITIALCONDITION
-#define tdypresolvesnessolver_                         TDYSETPRESOLVESNESSOLVER
-#define tdypostsolve_                                  TDYSETPOSTSOLVE
+#define tdypresolvesnessolver_                         TDYPRESOLVESNESSOLVER
+#define tdypostsolve_                                  TDYPOSTSOLVE
 #define tdyupdatestate_                                TDYUPDATESTATE
 #define tdyglobaltonatural_                            TDYGLOBALTONATURAL
 #define tdyoutputregression_                           TDYOUTPUTREGRESSION
@@ -54,15 +54,15 @@
 #define tdysetmode_                                    tdysetmode
 #define tdysetdiscretization_                          tdysetdiscretization
 #define tdysetfromoptions_                             tdysetfromoptions
-#define tdydriverinitializettdy_                       tdydriverinitializetdy
-#define tdydtimeintegratorruntotime_                   tdydtimeintegratorruntotime
-#define tdydtimeintegratorsettimestep_                 tdydtimeintegratorsettimestep
-#define tdydtimeintegratoroutputregression_            tdydtimeintegratoroutputregression
+#define tdydriverinitializetdy_                        tdydriverinitializetdy
+#define tdytimeintegratorruntotime_                   tdytimeintegratorruntotime
+#define tdytimeintegratorsettimestep_                 tdytimeintegratorsettimestep
+#define tdytimeintegratoroutputregression_            tdytimeintegratoroutputregression
 #define tdysetup_                                      tdysetup
 #define tdygetdm_                                      tdygetdm
 #define tdyupdatediagnostics_                          tdyupdatediagnostics
 #define tdycreatediagnosticvector_                     tdycreatediagnosticvector
-#define tdycreateprognosticvector_                     tdycreatedprognosticvector
+#define tdycreateprognosticvector_                     tdycreateprognosticvector
 #define tdycreatematrix_                               tdycreatematrix
 #define tdygetliquidsaturation_                        tdygetliquidsaturation
 #define tdygetliquidmass_                              tdygetliquidmass
-- 
2.43.0


From 8497801c8e17db2f49ca9435ac0590b724b6c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 25/46] fix: keep the Fortran registries of real and integer
 functions apart

---
 src/f90-mod/tdycoremod.F90 | 139 ++++++++++++++++++++++---------------
 1 file changed, 84 insertions(+), 55 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index 225ba69..c8a602c 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -14,7 +14,9 @@ module tdycore
   public
 
   private :: spatial_funcs_, spatial_func_names_, last_spatial_func_id_, &
+             last_integer_spatial_func_id_, &
              SpatialFunctionWrapper, IntegerSpatialFunctionWrapper, FindOrAppendSpatialFunction, &
+             AppendSpatialFunction, AppendIntegerSpatialFunction, &
              RegisterSpatialFunction, GetSpatialFunction
 
   !> A TDySpatialFunction is a function that computes values f on n points x,
@@ -55,8 +57,9 @@ module tdycore
   character(len=32), dimension(:), allocatable :: spatial_func_names_
   character(len=32), dimension(:), allocatable :: integer_spatial_func_names_
 
-  ! The ID of the most recently added spatial function
-  integer(c_int) :: last_spatial_func_id_
+  ! The IDs of the most recently added spatial functions
+  integer(c_int) :: last_spatial_func_id_ = 0
+  integer(c_int) :: last_integer_spatial_func_id_ = 0
 
   interface
      subroutine TDyFinalize(ierr)
@@ -328,12 +331,24 @@ module tdycore
   call f_func(n, f_x, f_f, ierr)
 end subroutine
 
-! This function finds the ID of the given spatial function, or appends it to
+  ! This function finds the ID of the given spatial function, or appends it to
   ! the list if it's not found. In either case, the resulting ID is returned.
   function FindOrAppendSpatialFunction(func) result(id)
     implicit none
     procedure(TDySpatialFunction) :: func
-    type(SpatialFunctionWrapper)  :: elem
+    integer :: id
+
+    do id = 1, last_spatial_func_id_
+      if (associated(spatial_funcs_(id)%f, func)) return
+    end do
+    id = AppendSpatialFunction(func)
+  end function
+
+  ! This function appends the given spatial function to the list and returns its
+  ! ID.
+  function AppendSpatialFunction(func) result(id)
+    implicit none
+    procedure(TDySpatialFunction) :: func
     integer :: id
     type(SpatialFunctionWrapper), dimension(:), allocatable :: new_funcs_array
     character(len=32), dimension(:), allocatable :: new_names_array
@@ -342,38 +357,42 @@ end subroutine
     if (.not. allocated(spatial_funcs_)) then
       allocate(spatial_funcs_(32))
       allocate(spatial_func_names_(32))
-      last_spatial_func_id_ = 1
-      id = 1
-    else
-      do id = 1, last_spatial_func_id_
-        if (associated(spatial_funcs_(id)%f, func)) then
-          exit
-        end if
-      end do
     end if
 
-    if (.not. associated(spatial_funcs_(id)%f, func)) then
-      ! We didn't find the function, so we must append it.
-      if (last_spatial_func_id_ > size(spatial_funcs_)) then ! need more room
-        old_size = size(spatial_funcs_)
-        allocate(new_funcs_array(2*old_size))
-        allocate(new_names_array(2*old_size))
-        new_funcs_array(1:old_size) = spatial_funcs_(1:old_size)
-        new_names_array(1:old_size) = spatial_func_names_(1:old_size)
-        call move_alloc(new_funcs_array, spatial_funcs_)
-        call move_alloc(new_names_array, spatial_func_names_)
-      end if
-      elem%f => func
-      spatial_funcs_(last_spatial_func_id_) = elem
-      id = last_spatial_func_id_
-      last_spatial_func_id_ = last_spatial_func_id_ + 1
+    if (last_spatial_func_id_ == size(spatial_funcs_)) then ! need more room
+      old_size = size(spatial_funcs_)
+      allocate(new_funcs_array(2*old_size))
+      allocate(new_names_array(2*old_size))
+      new_funcs_array(1:old_size) = spatial_funcs_(1:old_size)
+      new_names_array(1:old_size) = spatial_func_names_(1:old_size)
+      call move_alloc(new_funcs_array, spatial_funcs_)
+      call move_alloc(new_names_array, spatial_func_names_)
     end if
+
+    id = last_spatial_func_id_ + 1
+    last_spatial_func_id_ = id
+    spatial_funcs_(id)%f => func
+    spatial_func_names_(id) = ''
   end function
 
+  ! This function finds the ID of the given integer spatial function, or appends it to
+  ! the list if it's not found. In either case, the resulting ID is returned.
   function FindOrAppendIntegerSpatialFunction(func) result(id)
     implicit none
     procedure(TDyIntegerSpatialFunction) :: func
-    type(IntegerSpatialFunctionWrapper)  :: elem
+    integer :: id
+
+    do id = 1, last_integer_spatial_func_id_
+      if (associated(integer_spatial_funcs_(id)%f, func)) return
+    end do
+    id = AppendIntegerSpatialFunction(func)
+  end function
+
+  ! This function appends the given integer spatial function to the list and returns its
+  ! ID.
+  function AppendIntegerSpatialFunction(func) result(id)
+    implicit none
+    procedure(TDyIntegerSpatialFunction) :: func
     integer :: id
     type(IntegerSpatialFunctionWrapper), dimension(:), allocatable :: new_funcs_array
     character(len=32), dimension(:), allocatable :: new_names_array
@@ -382,32 +401,22 @@ end subroutine
     if (.not. allocated(integer_spatial_funcs_)) then
       allocate(integer_spatial_funcs_(32))
       allocate(integer_spatial_func_names_(32))
-      last_spatial_func_id_ = 1
-      id = 1
-    else
-      do id = 1, last_spatial_func_id_
-        if (associated(integer_spatial_funcs_(id)%f, func)) then
-          exit
-        end if
-      end do
     end if
 
-    if (.not. associated(integer_spatial_funcs_(id)%f, func)) then
-      ! We didn't find the function, so we must append it.
-      if (last_spatial_func_id_ > size(integer_spatial_funcs_)) then ! need more room
-        old_size = size(integer_spatial_funcs_)
-        allocate(new_funcs_array(2*old_size))
-        allocate(new_names_array(2*old_size))
-        new_funcs_array(1:old_size) = integer_spatial_funcs_(1:old_size)
-        new_names_array(1:old_size) = integer_spatial_func_names_(1:old_size)
-        call move_alloc(new_funcs_array, integer_spatial_funcs_)
-        call move_alloc(new_names_array, integer_spatial_func_names_)
-      end if
-      elem%f => func
-      integer_spatial_funcs_(last_spatial_func_id_) = elem
-      id = last_spatial_func_id_
-      last_spatial_func_id_ = last_spatial_func_id_ + 1
+    if (last_integer_spatial_func_id_ == size(integer_spatial_funcs_)) then ! need more room
+      old_size = size(integer_spatial_funcs_)
+      allocate(new_funcs_array(2*old_size))
+      allocate(new_names_array(2*old_size))
+      new_funcs_array(1:old_size) = integer_spatial_funcs_(1:old_size)
+      new_names_array(1:old_size) = integer_spatial_func_names_(1:old_size)
+      call move_alloc(new_funcs_array, integer_spatial_funcs_)
+      call move_alloc(new_names_array, integer_spatial_func_names_)
     end if
+
+    id = last_integer_spatial_func_id_ + 1
+    last_integer_spatial_func_id_ = id
+    integer_spatial_funcs_(id)%f => func
+    integer_spatial_func_names_(id) = ''
   end function
 
   subroutine RegisterSpatialFunction(name, func)
@@ -416,8 +425,8 @@ end subroutine
 
     integer :: id
 
-    ! Assign an ID to the function and set its name.
-    id = FindOrAppendSpatialFunction(func)
+    ! Give the name an entry of its own, since a function can have several names.
+    id = AppendSpatialFunction(func)
     spatial_func_names_(id) = name
   end subroutine
 
@@ -428,8 +437,8 @@ end subroutine
     integer :: i
 
     func => null()
-    do i = 1, size(spatial_funcs_)
-      if (spatial_func_names_(i) == name(1:32)) then
+    do i = 1, last_spatial_func_id_
+      if (spatial_func_names_(i) == name(1:min(len(name),32))) then
         func => spatial_funcs_(i)%f
       end if
     end do
@@ -492,6 +501,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1
+      return
+    end if
     call TDySetPorosityFunction(tdy, func, ierr)
   end subroutine
 
@@ -506,6 +519,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1
+      return
+    end if
     call TDySetForcingFunction(tdy, func, ierr)
   end subroutine
 
@@ -520,6 +537,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1
+      return
+    end if
     call TDySetEnergyForcingFunction(tdy, func, ierr)
   end subroutine
 
@@ -534,6 +555,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1
+      return
+    end if
     call TDySetBoundaryPressureFunction(tdy, func, ierr)
   end subroutine
 
@@ -548,6 +573,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1
+      return
+    end if
     call TDySetBoundaryVelocityFunction(tdy, func, ierr)
   end subroutine
 
-- 
2.43.0


From e149e4cecf245b3d510db946a931e32305d84c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 26/46] fix: give Fortran spatial functions arrays of their
 true length

---
 src/f90-mod/tdycoref.c     | 38 ++++++++++++++++++++++++++------------
 src/f90-mod/tdycoremod.F90 | 18 +++++++++---------
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/f90-mod/tdycoref.c b/src/f90-mod/tdycoref.c
index ae6c294..c324580 100644
--- a/src/f90-mod/tdycoref.c
+++ b/src/f90-mod/tdycoref.c
@@ -272,12 +272,13 @@ typedef struct F90IntegerSpatialFunctionWrapper {
 } F90IntegerSpatialFunctionWrapper;
 
 // This subroutine is defined on the Fortran side and calls the Fortran-defined
-// spatial function with the given ID.
-extern void TDyCallF90SpatialFunction(PetscInt, PetscInt, PetscReal*,
-                                      PetscReal*, PetscErrorCode*);
+// spatial function with the given ID on a number of points, given the lengths of
+// the arrays of coordinates and values.
+extern void TDyCallF90SpatialFunction(PetscInt, PetscInt, PetscInt, PetscInt,
+                                      PetscReal*, PetscReal*, PetscErrorCode*);
 
-extern void TDyCallF90IntegerSpatialFunction(PetscInt, PetscInt, PetscReal*,
-                                      PetscInt*, PetscErrorCode*);
+extern void TDyCallF90IntegerSpatialFunction(PetscInt, PetscInt, PetscInt, PetscInt,
+                                      PetscReal*, PetscInt*, PetscErrorCode*);
 
 // This creates a wrapped F90 function context.
 static PetscErrorCode CreateF90SpatialFunctionContext(PetscInt dim,
@@ -313,7 +314,7 @@ static PetscErrorCode WrappedF90SpatialFunction(void *context, PetscInt n,
   PetscErrorCode ierr;
   PetscFunctionBegin;
   F90SpatialFunctionWrapper *wrapper = context;
-  TDyCallF90SpatialFunction(wrapper->id, n, x, f, &ierr); CHKERRQ(ierr);
+  TDyCallF90SpatialFunction(wrapper->id, n, n*wrapper->dim, n, x, f, &ierr); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
@@ -322,7 +323,7 @@ static PetscErrorCode WrappedF90IntegerSpatialFunction(void *context, PetscInt n
   PetscErrorCode ierr;
   PetscFunctionBegin;
   F90SpatialFunctionWrapper *wrapper = context;
-  TDyCallF90IntegerSpatialFunction(wrapper->id, n, x, f, &ierr); CHKERRQ(ierr);
+  TDyCallF90IntegerSpatialFunction(wrapper->id, n, n*wrapper->dim, n, x, f, &ierr); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
@@ -337,7 +338,7 @@ static PetscErrorCode WrappedF90IsotropicTensorFunction(void *context, PetscInt
   PetscInt dim2 = dim*dim;
   PetscReal values[n];
   memset(f, 0, n * dim2 * sizeof(PetscReal));
-  TDyCallF90SpatialFunction(wrapper->id, n, x, values, &ierr); CHKERRQ(ierr);
+  TDyCallF90SpatialFunction(wrapper->id, n, dim*n, n, x, values, &ierr); CHKERRQ(ierr);
   for (PetscInt i = 0; i < n; ++i) {
     for(PetscInt j = 0; j < dim; ++j) {
       f[dim2*i+j*dim+j] = values[i];
@@ -356,7 +357,8 @@ static PetscErrorCode WrappedF90DiagonalTensorFunction(void *context, PetscInt n
   PetscInt dim = wrapper->dim;
   PetscInt dim2 = dim*dim;
   PetscReal values[dim*n];
-  TDyCallF90SpatialFunction(wrapper->id, n, x, values, &ierr); CHKERRQ(ierr);
+  memset(f, 0, n * dim2 * sizeof(PetscReal));
+  TDyCallF90SpatialFunction(wrapper->id, n, dim*n, dim*n, x, values, &ierr); CHKERRQ(ierr);
   for (PetscInt i = 0; i < n; ++i) {
     for(PetscInt j = 0; j < dim; ++j) {
       f[dim2*i+j*dim+j] = values[dim*i+j];
@@ -365,6 +367,18 @@ static PetscErrorCode WrappedF90DiagonalTensorFunction(void *context, PetscInt n
   PetscFunctionReturn(0);
 }
 
+// This calls the F90 function embedded within its context, which supplies all
+// the components of a tensor
+static PetscErrorCode WrappedF90TensorFunction(void *context, PetscInt n,
+                                               PetscReal *x, PetscReal *f) {
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+  F90SpatialFunctionWrapper *wrapper = context;
+  PetscInt dim = wrapper->dim;
+  TDyCallF90SpatialFunction(wrapper->id, n, dim*n, dim*dim*n, x, f, &ierr); CHKERRQ(ierr);
+  PetscFunctionReturn(0);
+}
+
 //------------------------------------------------------------------------
 //                  Material properties and conditions
 //------------------------------------------------------------------------
@@ -388,15 +402,15 @@ WRAP_MATPROP(TDySetPorosityFunctionF90, MaterialPropSetPorosity, WrappedF90Spati
 
 WRAP_MATPROP(TDySetIsotropicPermeabilityFunctionF90, MaterialPropSetPermeability, WrappedF90IsotropicTensorFunction)
 WRAP_MATPROP(TDySetDiagonalPermeabilityFunctionF90, MaterialPropSetPermeability, WrappedF90DiagonalTensorFunction)
-WRAP_MATPROP(TDySetTensorPermeabilityFunctionF90, MaterialPropSetPermeability, WrappedF90SpatialFunction)
+WRAP_MATPROP(TDySetTensorPermeabilityFunctionF90, MaterialPropSetPermeability, WrappedF90TensorFunction)
 
 WRAP_MATPROP(TDySetIsotropicThermalConductivityFunctionF90, MaterialPropSetThermalConductivity, WrappedF90IsotropicTensorFunction)
 WRAP_MATPROP(TDySetDiagonalThermalConductivityFunctionF90, MaterialPropSetThermalConductivity, WrappedF90DiagonalTensorFunction)
-WRAP_MATPROP(TDySetTensorThermalConductivityFunctionF90, MaterialPropSetThermalConductivity, WrappedF90SpatialFunction)
+WRAP_MATPROP(TDySetTensorThermalConductivityFunctionF90, MaterialPropSetThermalConductivity, WrappedF90TensorFunction)
 
 WRAP_MATPROP(TDySetResidualSaturationFunctionF90, MaterialPropSetResidualSaturation, WrappedF90SpatialFunction)
 WRAP_MATPROP(TDySetSoilDensityFunctionF90, MaterialPropSetSoilDensity, WrappedF90SpatialFunction)
-WRAP_MATPROP(TDySetSoilSpecificHeat, MaterialPropSetSoilSpecificHeat, WrappedF90SpatialFunction)
+WRAP_MATPROP(TDySetSoilSpecificHeatFunctionF90, MaterialPropSetSoilSpecificHeat, WrappedF90SpatialFunction)
 
 // This macro can be used to expose a Fortran 90 subroutine that assigns a
 // spatial function to a boundary condition/source/sink.
diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index c8a602c..06bde58 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -293,13 +293,13 @@ module tdycore
   contains
 
   ! This subroutine calls the TDySpatialFunction with the given id, supplying
-  ! it with the given parameters.
-  subroutine TDyCallF90SpatialFunction(id, n, c_x, c_f, ierr) &
+  ! it with the given parameters. x and f have nx and nf elements.
+  subroutine TDyCallF90SpatialFunction(id, n, nx, nf, c_x, c_f, ierr) &
       bind(c, name="TDyCallF90SpatialFunction")
     use, intrinsic :: iso_c_binding
     implicit none
     integer(c_int), value, intent(in) :: id
-    integer(c_int), value, intent(in) :: n
+    integer(c_int), value, intent(in) :: n, nx, nf
     type(c_ptr),    value, intent(in) :: c_x, c_f
     integer(c_int),       intent(out) :: ierr
 
@@ -307,17 +307,17 @@ module tdycore
     real(c_double), dimension(:), pointer  :: f_x, f_f
 
     f_func => spatial_funcs_(id)%f
-    call c_f_pointer(c_x, f_x, [n])
-    call c_f_pointer(c_f, f_f, [n])
+    call c_f_pointer(c_x, f_x, [nx])
+    call c_f_pointer(c_f, f_f, [nf])
     call f_func(n, f_x, f_f, ierr)
   end subroutine
 
-  subroutine TDyCallF90IntegerSpatialFunction(id, n, c_x, c_f, ierr) &
+  subroutine TDyCallF90IntegerSpatialFunction(id, n, nx, nf, c_x, c_f, ierr) &
     bind(c, name="TDyCallF90IntegerSpatialFunction")
   use, intrinsic :: iso_c_binding
   implicit none
   integer(c_int), value, intent(in) :: id
-  integer(c_int), value, intent(in) :: n
+  integer(c_int), value, intent(in) :: n, nx, nf
   type(c_ptr),    value, intent(in) :: c_x, c_f
   integer(c_int),       intent(out) :: ierr
 
@@ -326,8 +326,8 @@ module tdycore
   integer(c_int), dimension(:), pointer ::  f_f
 
   f_func => integer_spatial_funcs_(id)%f
-  call c_f_pointer(c_x, f_x, [n])
-  call c_f_pointer(c_f, f_f, [n])
+  call c_f_pointer(c_x, f_x, [nx])
+  call c_f_pointer(c_f, f_f, [nf])
   call f_func(n, f_x, f_f, ierr)
 end subroutine
 
-- 
2.43.0


From 7d003e5aaf97819ca9834341cfb7992ee7a12bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 27/46] fix: differentiate the TH fluxes as the residual
 computes them

The residual has no gravity head in T*P, the transmissibility does not
multiply the temperature, and vertices on the boundary with one internal
cell contribute to the residual too.
---
 src/fv/mpfao/tdympfao_th_ts.c | 44 ++++++++++++-----------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_th_ts.c b/src/fv/mpfao/tdympfao_th_ts.c
index 6e936b1..87e73e9 100644
--- a/src/fv/mpfao/tdympfao_th_ts.c
+++ b/src/fv/mpfao/tdympfao_th_ts.c
@@ -309,8 +309,6 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
   PetscInt npitf_bc, nflux_in;
   PetscInt cell_id, cell_id_up, cell_id_dn;
   PetscInt irow, icol;
-  PetscInt dim;
-  PetscReal gz;
   PetscReal ukvr, den, uh;
   PetscReal dukvr_dPup, dukvr_dPdn;
   PetscReal duh_dPup, duh_dPdn;
@@ -329,10 +327,6 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
   PetscFunctionBegin;
   TDY_START_FUNCTION_TIMER()
 
-  DM dm;
-  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-  ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
-
   ierr = VecGetArray(mpfao->TtimesP_vec,&TtimesP_vec_ptr); CHKERRQ(ierr);
   ierr = VecGetArray(mpfao->Temp_TtimesP_vec,&Temp_TtimesP_vec_ptr); CHKERRQ(ierr);
 
@@ -340,8 +334,6 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
 
     vertex_id = ivertex;
 
-    if (vertices->num_boundary_faces[ivertex] > 0 && vertices->num_internal_cells[ivertex] < 2) continue;
-
     PetscInt vOffsetCell    = vertices->internal_cell_offset[ivertex];
 
     PetscInt *face_ids, num_faces;
@@ -371,7 +363,7 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
     }
 
     //
-    // fluxm_ij = rho_ij * (kr/mu)_{ij,upwind} * [ T ] *  [ P+rho*g*z ]^T
+    // fluxm_ij = rho_ij * (kr/mu)_{ij,upwind} * [ T ] *  [ P ]^T
     // where
     //      rho_ij = 0.5*(rho_i + rho_j)
     //      (kr/mu)_{ij,upwind} = (kr/mu)_{i} if velocity is from i to j
@@ -379,12 +371,12 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
     //      T includes product of K and A_{ij}
     //
     // For i and j, jacobian is given as:
-    // d(fluxm_ij)/dP_i = d(rho_ij)/dP_i + (kr/mu)_{ij,upwind}         * [  T  ] *  [    P+rho*g*z   ]^T +
-    //                      rho_ij       + d((kr/mu)_{ij,upwind})/dP_i * [  T  ] *  [    P+rho*g*z   ]^T +
-    //                      rho_ij       + (kr/mu)_{ij,upwind}         *   T_i   *  (1+d(rho_ij)/dP_i*g*z
+    // d(fluxm_ij)/dP_i = d(rho_ij)/dP_i * (kr/mu)_{ij,upwind}         * [ T ] *  [ P ]^T +
+    //                      rho_ij       * d((kr/mu)_{ij,upwind})/dP_i * [ T ] *  [ P ]^T +
+    //                      rho_ij       * (kr/mu)_{ij,upwind}         *   T_i
     //
     // For k not equal to i and j, jacobian is given as:
-    // d(fluxm_ij)/dP_k =   rho_ij       + (kr/mu)_{ij,upwind}         *   T_ik  *  (1+d(rho_ij)/dP_k*g*z
+    // d(fluxm_ij)/dP_k =   rho_ij       * (kr/mu)_{ij,upwind}         *   T_ik
     //
     for (irow=0; irow<nflux_in + npitf_bc; irow++) {
 
@@ -476,8 +468,6 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
         T      = mpfao->Trans[vertex_id][irow][icol];
         Temp_T = mpfao->Temp_Trans[vertex_id][irow][icol];
 
-        ierr = ComputeGtimesZ(mpfao->gravity,cells->centroid[cell_id].X,dim,&gz); CHKERRQ(ierr);
-
       // Jac[0] is dfluxm/dP
       // Jac[1] is dfluxm/dT
       // Jac[2] is dfluxe/dP
@@ -490,45 +480,41 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
           Jac[0] =
             dden_dPup * ukvr       * TtimesP[irow] +
             den       * dukvr_dPup * TtimesP[irow] +
-            den       * ukvr       * T * (1.0 + dden_dPup*gz) ;
+            den       * ukvr       * T;
           Jac[2] =
             dden_dTup * ukvr       * TtimesP[irow] +
-            den       * dukvr_dTup * TtimesP[irow] +
-            den       * ukvr       * T * (1.0 + dden_dTup*gz) ;
+            den       * dukvr_dTup * TtimesP[irow];
           Jac[1] =
             dden_dPup * ukvr       * TtimesP[irow]            * uh +
             den       * dukvr_dPup * TtimesP[irow]            * uh +
-            den       * ukvr       * T * (1.0 + dden_dPup*gz) * uh +
+            den       * ukvr       * T                      * uh +
             den       * ukvr       * TtimesP[irow]            * duh_dPup;
           Jac[3] =
             dden_dTup * ukvr       * TtimesP[irow]            * uh +
             den       * dukvr_dTup * TtimesP[irow]            * uh +
-            den       * ukvr       * T * (1.0 + dden_dTup*gz) * uh +
             den       * ukvr       * TtimesP[irow]            * duh_dTup;
         } else if (cell_id_dn > -1 && cell_id == cell_id_dn) {
           Jac[0] =
             dden_dPdn * ukvr       * TtimesP[irow] +
             den       * dukvr_dPdn * TtimesP[irow] +
-            den       * ukvr       * T * (1.0 + dden_dPdn*gz) ;
+            den       * ukvr       * T;
           Jac[2] =
             dden_dTdn * ukvr       * TtimesP[irow] +
-            den       * dukvr_dTdn * TtimesP[irow] +
-            den       * ukvr       * T * (1.0 + dden_dTdn*gz) ;
+            den       * dukvr_dTdn * TtimesP[irow];
           Jac[1] =
             dden_dPdn * ukvr       * TtimesP[irow]            * uh +
             den       * dukvr_dPdn * TtimesP[irow]            * uh +
-            den       * ukvr       * T * (1.0 + dden_dPdn*gz) * uh +
+            den       * ukvr       * T                      * uh +
             den       * ukvr       * TtimesP[irow]            * duh_dPdn;
           Jac[3] =
             dden_dTdn * ukvr       * TtimesP[irow]            * uh +
             den       * dukvr_dTdn * TtimesP[irow]            * uh +
-            den       * ukvr       * T * (1.0 + dden_dTdn*gz) * uh +
             den       * ukvr       * TtimesP[irow]            * duh_dTdn;
         } else {
-          Jac[0] = den * ukvr * T * (1.0 + 0.*gz);
-          Jac[2] = den * ukvr * T * (0.0 + 0.*gz); // derivative with temperature is zero
-          Jac[1] = den * ukvr * T * (1.0 + 0.*gz) * uh;
-          Jac[3] = den * ukvr * T * (0.0 + 0.*gz) * uh; // derivative with temperature is zero
+          Jac[0] = den * ukvr * T;
+          Jac[2] = 0.0; // derivative with temperature is zero
+          Jac[1] = den * ukvr * T * uh;
+          Jac[3] = 0.0; // derivative with temperature is zero
         }
 
       // conduction term
-- 
2.43.0


From f3c4a9723ff78c2fde9fc3369ca6b0720862f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 28/46] fix: index boundary values of FV-TPF Dirichlet faces as
 they are numbered

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 939358c..616b28d 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -182,7 +182,7 @@ PetscErrorCode RichardsBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
 
   PetscInt *cell_ids, num_face_cells;
   ierr = TDyMeshGetFaceCells(fvtpf->mesh, face_id, &cell_ids, &num_face_cells); CHKERRQ(ierr);
-  PetscInt cell_id_up = -cell_ids[0] + 1; // cell up is a boundary cell with negative ids, determine the id to use from *_bnd variables
+  PetscInt cell_id_up = -cell_ids[0] - 1; // cell up is a boundary cell with negative ids, determine the id to use from *_bnd variables
   PetscInt cell_id_dn = cell_ids[1];      // cell dn is an internal cell
 
   PetscReal dist_gravity, upweight;
-- 
2.43.0


From 72051705a8a8584dd6d7234416d2c3ddf8cb2728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 29/46] fix: give FV-TPF faces without mobile fluid a zero flux
 and derivative

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 616b28d..0ff43c4 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -123,6 +123,9 @@ PetscErrorCode RichardsResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop, P
   PetscFunctionBegin;
   PetscErrorCode ierr;
 
+  // no flow unless either side is mobile
+  *Res = 0.0;
+
   PetscInt dim = 3;
 
   PetscInt *cell_ids, num_face_cells;
@@ -178,6 +181,9 @@ PetscErrorCode RichardsBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
   PetscFunctionBegin;
   PetscErrorCode ierr;
 
+  // no flow unless either side is mobile
+  *Res = 0.0;
+
   PetscInt dim = 3;
 
   PetscInt *cell_ids, num_face_cells;
@@ -240,6 +246,9 @@ PetscErrorCode RichardsSeepageBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
   PetscFunctionBegin;
   PetscErrorCode ierr;
 
+  // no flow unless either side is mobile
+  *Res = 0.0;
+
   PetscInt dim=3;
   PetscInt *cell_ids, num_face_cells;
   ierr = TDyMeshGetFaceCells(fvtpf->mesh, face_id, &cell_ids, &num_face_cells); CHKERRQ(ierr);
@@ -298,6 +307,10 @@ PetscErrorCode RichardsJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop, P
   PetscFunctionBegin;
   PetscErrorCode ierr;
 
+  // no flow unless either side is mobile
+  *Jup = 0.0;
+  *Jdn = 0.0;
+
   PetscInt dim=3;
   PetscInt *cell_ids, num_face_cells;
   ierr = TDyMeshGetFaceCells(fvtpf->mesh, face_id, &cell_ids, &num_face_cells); CHKERRQ(ierr);
@@ -382,6 +395,9 @@ PetscErrorCode RichardsBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
   PetscFunctionBegin;
   PetscErrorCode ierr;
 
+  // no flow unless either side is mobile
+  *Jdn = 0.0;
+
   PetscInt dim=3;
   PetscInt *cell_ids, num_face_cells;
   ierr = TDyMeshGetFaceCells(fvtpf->mesh, face_id, &cell_ids, &num_face_cells); CHKERRQ(ierr);
@@ -462,6 +478,9 @@ PetscErrorCode RichardsSeepageBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
   PetscFunctionBegin;
   PetscErrorCode ierr;
 
+  // no flow unless either side is mobile
+  *Jdn = 0.0;
+
   PetscInt dim=3;
   PetscInt *cell_ids, num_face_cells;
   ierr = TDyMeshGetFaceCells(fvtpf->mesh, face_id, &cell_ids, &num_face_cells); CHKERRQ(ierr);
-- 
2.43.0


From b27c72aabe3804b6a31fa5c78bded12c5142a417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:51 +0000
Subject: [PATCH 30/46] fix: differentiate FV-TPF boundary fluxes as the
 residual computes them

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 0ff43c4..8711dea 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -425,15 +425,16 @@ PetscErrorCode RichardsBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
     PetscReal dden_ave_dp_dn = (1.0 - upweight)*fvtpf->drho_dP[cell_id_dn];
 
     PetscReal gravity_term = den_aveg * dist_gravity;
-    PetscReal dgravity_dden_dn = upweight * dist_gravity;
+    PetscReal dgravity_dden_dn = (1.0 - upweight) * dist_gravity;
 
     PetscReal dphi = fvtpf->P_bnd[cell_id_up] - fvtpf->pressure[cell_id_dn] - gravity_term;
-    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * dden_ave_dp_dn;
+    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * fvtpf->drho_dP[cell_id_dn];
 
     PetscReal ukvr = 0.0;
     PetscReal dukvr_dp_dn = 0.0;
 
     if (dphi >= 0.0) {
+      ukvr = fvtpf->Kr_bnd[cell_id_up]/fvtpf->vis_bnd[cell_id_up];
     } else {
       PetscReal Kr = fvtpf->Kr[cell_id_dn];
       PetscReal vis = fvtpf->vis[cell_id_dn];
@@ -508,10 +509,10 @@ PetscErrorCode RichardsSeepageBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
     PetscReal dden_ave_dp_dn = (1.0 - upweight)*fvtpf->drho_dP[cell_id_dn];
 
     PetscReal gravity_term = den_aveg * dist_gravity;
-    PetscReal dgravity_dden_dn = upweight * dist_gravity;
+    PetscReal dgravity_dden_dn = (1.0 - upweight) * dist_gravity;
 
     PetscReal dphi = fvtpf->P_bnd[cell_id_up] - fvtpf->pressure[cell_id_dn] - gravity_term;
-    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * dden_ave_dp_dn;
+    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * fvtpf->drho_dP[cell_id_dn];
 
     PetscReal ukvr;
     PetscReal dukvr_dp_dn = 0.0;
-- 
2.43.0


From af40ac6decc3ee1ae16556c1dbc6cf4283735202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:04 +0000
Subject: [PATCH 31/46] fix: count cell volumes once in the DAE and
 transient-variable storage terms

---
 src/fv/mpfao/tdympfao_ts_dae.c          | 2 +-
 src/fv/mpfao/tdympfao_ts_transientvar.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_ts_dae.c b/src/fv/mpfao/tdympfao_ts_dae.c
index 86ed6cc..44c8c57 100644
--- a/src/fv/mpfao/tdympfao_ts_dae.c
+++ b/src/fv/mpfao/tdympfao_ts_dae.c
@@ -69,7 +69,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
     m_idx = p_idx + 1;
 
     r[p_idx]  = u_t[m_idx] * cells->volume[icell] - mpfao->source_sink[icell] * cells->volume[icell]+ r_p[icell];
-    r[m_idx]  = m  [icell] - mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell]* cells->volume[icell];
+    r[m_idx]  = m  [icell] - mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell];
   }
 
   /* Cleanup */
diff --git a/src/fv/mpfao/tdympfao_ts_transientvar.c b/src/fv/mpfao/tdympfao_ts_transientvar.c
index b65a3f4..8475a43 100644
--- a/src/fv/mpfao/tdympfao_ts_transientvar.c
+++ b/src/fv/mpfao/tdympfao_ts_transientvar.c
@@ -39,7 +39,7 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
     if (!cells->is_local[icell]) continue;
 
-    c[icell] = mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell]* cells->volume[icell];
+    c[icell] = mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell];
   }
 
   ierr = VecRestoreArray(C,&c); CHKERRQ(ierr);
-- 
2.43.0


From 05445816beeb085c30753f2119436c64a773681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 32/46] fix: evaluate the relative permeability on the points
 of each model type

---
 src/materials/tdycharacteristiccurves.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 9b911e7..5d1be36 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -331,18 +331,20 @@ PetscErrorCode RelativePermeabilityCompute(RelativePermeability *rel_perm,
     PetscInt num_points = rel_perm->num_points[type];
     if (type == REL_PERM_FUNC_IRMAY) {
       for (PetscInt i = 0; i < num_points; ++i) {
+        PetscInt j = rel_perm->points[type][i];
         PetscReal m = rel_perm->parameters[type][i];
-        RelativePermeability_Irmay(m, Se[i], &(Kr[i]), &(dKrdSe[i]));
+        RelativePermeability_Irmay(m, Se[j], &(Kr[j]), &(dKrdSe[j]));
       }
     } else if (type == REL_PERM_FUNC_MUALEM) {
       for (PetscInt i = 0; i < num_points; ++i) {
+        PetscInt j = rel_perm->points[type][i];
         PetscReal m = rel_perm->parameters[type][9*i];
         PetscReal poly_x0 = rel_perm->parameters[type][9*i+1]; // cubic interp cutoff
         PetscReal poly_x1 = rel_perm->parameters[type][9*i+2]; // cubic interp cutoff
         PetscReal poly_dx = rel_perm->parameters[type][9*i+4]; // cubic interp cutoff
         PetscReal *poly_coeffs = &(rel_perm->parameters[type][9*i+5]); // interp coeffs
-        RelativePermeability_Mualem(m, poly_x0, poly_x1, poly_dx, poly_coeffs, Se[i], &(Kr[i]),
-                                    &(dKrdSe[i]));
+        RelativePermeability_Mualem(m, poly_x0, poly_x1, poly_dx, poly_coeffs, Se[j], &(Kr[j]),
+                                    &(dKrdSe[j]));
       }
     } else {
       SETERRQ(PETSC_COMM_WORLD, PETSC_ERR_USER,
-- 
2.43.0


From e21b5388fc831b861e19c4cdf2d7a15364a247dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 33/46] fix: recognise points missing from a characteristic
 curve's point map

---
 src/materials/tdycharacteristiccurves.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 5d1be36..f5af927 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -208,7 +208,7 @@ PetscErrorCode SaturationComputeOnPoints(Saturation *sat,
       khash_t(CharacteristicCurvesPointMap) *point_map = sat->point_maps[type];
       if (kh_size(point_map) != 0) {
         khiter_t iter = kh_get(CharacteristicCurvesPointMap, point_map, i1);
-        if (kh_exist(point_map, iter)) {
+        if (iter != kh_end(point_map)) {
           PetscInt j = kh_value(point_map, iter);
           // Compute the saturation and its derivatives on points belonging to
           // this type.
@@ -402,7 +402,7 @@ PetscErrorCode RelativePermeabilityComputeOnPoints(RelativePermeability *rel_per
       khash_t(CharacteristicCurvesPointMap) *point_map = rel_perm->point_maps[type];
       if (kh_size(point_map) != 0) {
         khiter_t iter = kh_get(CharacteristicCurvesPointMap, point_map, i1);
-        if (kh_exist(point_map, iter)) {
+        if (iter != kh_end(point_map)) {
           PetscInt j = kh_value(point_map, iter);
           // Compute the relative permeability and its derivative on points
           // belonging to this type.
-- 
2.43.0


From 8ba80d5db6ddad17124bbb16d89b5a0c3db1fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 34/46] fix: update the state on owned cells only from the
 previous salinity solution

---
 src/fv/mpfao/tdympfao_snes_salinity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index 6022f96..768a9df 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -62,7 +62,7 @@ PetscErrorCode TDyMPFAOSNESPreSolve_Salinity(TDy tdy) {
 
   // Update the auxillary variables
   ierr = VecGetArray(tdy->soln_prev,&U); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, U, mesh->num_cells); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, U, mesh->num_cells_local); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
-- 
2.43.0


From 46ba9ec3943cb1132a85406753736e7fe4016393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:32 +0000
Subject: [PATCH 35/46] fix: do not jump to the target time after a cut time
 step

---
 src/tdyti.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tdyti.c b/src/tdyti.c
index cc0cf3f..4276e15 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -140,6 +140,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           if (reason < 0) {
             icut++;
             ti->dt *= ti->dt_reduction_factor;
+            ti->dt_save = 0.; // the step no longer ends at the target time
             ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
             PetscChar message[1000];
             sprintf(message,"-> Cut time step: snes=%d icut=%d time=%12.5e dt=%12.5e\n",reason,icut,ti->time,ti->dt);
-- 
2.43.0


From 4f3465e6b066292e1d98af36193edb83d9f2a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:32 +0000
Subject: [PATCH 36/46] fix: give TS the target time, not the time left, as the
 maximum time

---
 src/tdyti.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index 4276e15..31f155a 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -183,9 +183,8 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
       break;
     case TDyTS:
       ti = tdy->ti;
-      PetscReal delta_time = sync_time - ti->time;
       ierr = TSSetTimeStep(ti->ts,ti->dt_init); CHKERRQ(ierr);
-      ierr = TSSetMaxTime(ti->ts,delta_time); CHKERRQ(ierr);
+      ierr = TSSetMaxTime(ti->ts,sync_time); CHKERRQ(ierr);
       ierr = TSSolve(ti->ts,tdy->soln); CHKERRQ(ierr);
       ierr = TSGetTime(ti->ts,&ti->time); CHKERRQ(ierr);
       ierr = TDyPostSolve(tdy, tdy->soln); CHKERRQ(ierr);
-- 
2.43.0


From 22caea198b6bea126d20784fb00dd3f6dbae2ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 37/46] fix: return each subcell table from its own accessor
 through its own offset

TDyMeshGetSubcellFaceCentroids returned the variable continuity coordinates, so that face_centroid was
never filled although TDySubCell_GetIthFaceCentroid reads it; the accessors of the nu vectors, variable
continuity coordinates, face centroids and vertices' coordinates used the offsets of the subcell's faces.
---
 src/fv/share/tdymesh.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index 7a84f9d..ab0d93a 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -1505,7 +1505,7 @@ PetscErrorCode TDyMeshGetSubcellNuVectors(TDyMesh *mesh,
                                       TDyVector **nu_vectors,
                                       PetscInt *num_nu_vectors) {
   PetscFunctionBegin;
-  PetscInt offset = mesh->subcells.face_offset[subcell];
+  PetscInt offset = mesh->subcells.nu_vector_offset[subcell];
   *nu_vectors = &mesh->subcells.nu_vector[offset];
   *num_nu_vectors = mesh->subcells.nu_vector_offset[subcell+1] - offset;
   PetscFunctionReturn(0);
@@ -1526,7 +1526,7 @@ PetscErrorCode TDyMeshGetSubcellNuStarVectors(TDyMesh *mesh,
                                       TDyVector **nu_star_vectors,
                                       PetscInt *num_nu_star_vectors) {
   PetscFunctionBegin;
-  PetscInt offset = mesh->subcells.face_offset[subcell];
+  PetscInt offset = mesh->subcells.nu_vector_offset[subcell];
   *nu_star_vectors = &mesh->subcells.nu_star_vector[offset];
   *num_nu_star_vectors = mesh->subcells.nu_vector_offset[subcell+1] - offset;
   PetscFunctionReturn(0);
@@ -1547,7 +1547,7 @@ PetscErrorCode TDyMeshGetSubcellVariableContinutiyCoordinates(TDyMesh *mesh,
                                       TDyCoordinate **variable_continuity_coordinates,
                                       PetscInt *num_variable_continuity_coordinates) {
   PetscFunctionBegin;
-  PetscInt offset = mesh->subcells.face_offset[subcell];
+  PetscInt offset = mesh->subcells.nu_vector_offset[subcell];
   *variable_continuity_coordinates = &mesh->subcells.variable_continuity_coordinates[offset];
   *num_variable_continuity_coordinates = mesh->subcells.nu_vector_offset[subcell+1] - offset;
   PetscFunctionReturn(0);
@@ -1568,8 +1568,8 @@ PetscErrorCode TDyMeshGetSubcellFaceCentroids(TDyMesh *mesh,
                                       TDyCoordinate **face_centroids,
                                       PetscInt *num_face_centroids) {
   PetscFunctionBegin;
-  PetscInt offset = mesh->subcells.face_offset[subcell];
-  *face_centroids = &mesh->subcells.variable_continuity_coordinates[offset];
+  PetscInt offset = mesh->subcells.nu_vector_offset[subcell];
+  *face_centroids = &mesh->subcells.face_centroid[offset];
   *num_face_centroids = mesh->subcells.nu_vector_offset[subcell+1] - offset;
   PetscFunctionReturn(0);
 }
@@ -1589,9 +1589,9 @@ PetscErrorCode TDyMeshGetSubcellVerticesCoordinates(TDyMesh *mesh,
                                       TDyCoordinate **vertices_coordinates,
                                       PetscInt *num_vertices_coordinates) {
   PetscFunctionBegin;
-  PetscInt offset = mesh->subcells.face_offset[subcell];
+  PetscInt offset = mesh->subcells.vertex_offset[subcell];
   *vertices_coordinates = &mesh->subcells.vertices_coordinates[offset];
-  *num_vertices_coordinates = mesh->subcells.nu_vector_offset[subcell+1] - offset;
+  *num_vertices_coordinates = mesh->subcells.vertex_offset[subcell+1] - offset;
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From 0310cbd9454858e596fc013fce6017e6bea33b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 38/46] fix: look up faces by the face's and subcell's own
 number

TDyMPFAORecoverVelocity_BoundaryVertices_SharedWithInternalVertices asked for the cells of the face with
the position in the subcell's list, TDyPrintSubcellInfo for the faces of the subcell with its position in the cell.
---
 src/fv/mpfao/tdympfao_utils.c | 2 +-
 src/fv/share/tdymeshplex.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_utils.c b/src/fv/mpfao/tdympfao_utils.c
index af4b60c..5e7dafa 100644
--- a/src/fv/mpfao/tdympfao_utils.c
+++ b/src/fv/mpfao/tdympfao_utils.c
@@ -317,7 +317,7 @@ PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_SharedWithInternalVertic
 
         PetscInt face_id = face_ids[iface];
         PetscInt *cell_ids, num_cells;
-        ierr = TDyMeshGetFaceCells(mesh, iface, &cell_ids, &num_cells); CHKERRQ(ierr);
+        ierr = TDyMeshGetFaceCells(mesh, face_id, &cell_ids, &num_cells); CHKERRQ(ierr);
 
         cell_id_up = cell_ids[0];
         cell_id_dn = cell_ids[1];
diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 0b43982..9e35837 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -565,7 +565,7 @@ PetscErrorCode TDyPrintSubcellInfo(TDyMesh *mesh, PetscInt icell,
 
   PetscInt subcell_id = icell*cells->num_subcells[icell] + isubcell;
   PetscInt *face_ids, num_faces;
-  ierr = TDyMeshGetSubcellFaces(mesh, isubcell, &face_ids, &num_faces); CHKERRQ(ierr);
+  ierr = TDyMeshGetSubcellFaces(mesh, subcell_id, &face_ids, &num_faces); CHKERRQ(ierr);
 
   printf("Subcell_id = %02d is %d-th subcell of cell_id = %d; ",subcell_id, isubcell, icell);
   printf(" No. faces = %d; ",subcells->num_faces[subcell_id]);
-- 
2.43.0


From 532a5c6e36c5ce8cbb8f898a2c1dc152edff758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:54 +0000
Subject: [PATCH 39/46] fix: recover WY velocities from the global solution,
 which is what TDyWYRecoverVelocity scatters

---
 src/fe/tdywy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index ce09a63..7e29c10 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -1039,7 +1039,7 @@ PetscErrorCode TDyWYResidual(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *ctx) {
   ierr = VecGetArray(R,&r); CHKERRQ(ierr);
   ierr = TDyUpdateState(tdy,p,cEnd-cStart); CHKERRQ(ierr);
   ierr = TDyWYLocalElementCompute(tdy); CHKERRQ(ierr);
-  ierr = TDyWYRecoverVelocity(tdy,Ul); CHKERRQ(ierr);
+  ierr = TDyWYRecoverVelocity(tdy,U); CHKERRQ(ierr);
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
   for(c=cStart; c<cEnd; c++) {
-- 
2.43.0


From 4248acafa6f0bf529774cebd40140d8774801a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:54 +0000
Subject: [PATCH 40/46] fix: the liquid mass of a cell counts only the pore
 space that holds liquid

---
 src/fv/fvtpf/tdyfvtpf.c | 2 +-
 src/fv/mpfao/tdympfao.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 7d3d5ad..416d3ab 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -387,7 +387,7 @@ PetscErrorCode TDyUpdateDiagnostics_FVTPF(void *context,
     if (!cells->is_local[c]) continue;
 
     v[2*count + DIAG_LIQUID_SATURATION] = fvtpf->S[c];
-    v[2*count + DIAG_LIQUID_MASS] = fvtpf->rho[c] * fvtpf->V[c];
+    v[2*count + DIAG_LIQUID_MASS] = fvtpf->rho[c] * fvtpf->porosity[c] * fvtpf->S[c] * fvtpf->V[c];
 
     count++;
   }
diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 1a2cd54..f356e5f 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2778,7 +2778,7 @@ PetscErrorCode TDyUpdateDiagnostics_MPFAO(void *context,
     if (!cells->is_local[c]) continue;
 
     v[2*count + DIAG_LIQUID_SATURATION] = mpfao->S[c];
-    v[2*count + DIAG_LIQUID_MASS] = mpfao->rho[c] * mpfao->V[c];
+    v[2*count + DIAG_LIQUID_MASS] = mpfao->rho[c] * mpfao->porosity[c] * mpfao->S[c] * mpfao->V[c];
 
     count++;
   }
-- 
2.43.0


From 370b9e98459e83c382e0b3dd6e9a55b9c19d5ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:54 +0000
Subject: [PATCH 41/46] fix: report an error instead of ending the program with
 success when a mesh has no natural order

---
 src/tdydiscretization.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tdydiscretization.c b/src/tdydiscretization.c
index 363ac67..2131225 100644
--- a/src/tdydiscretization.c
+++ b/src/tdydiscretization.c
@@ -209,8 +209,7 @@ PetscErrorCode TDyDiscretizationGlobalToNatural(TDyDiscretizationType *discretiz
     case PLEX_TYPE:
       ierr = DMGetUseNatural(dm, &useNatural); CHKERRQ(ierr);
       if (!useNatural) {
-        PetscPrintf(PETSC_COMM_WORLD,"TDyGlobalToNatural cannot be performed as DMGetUseNatural is false");
-        exit(0);
+        SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_ARG_WRONGSTATE,"TDyGlobalToNatural cannot be performed as DMGetUseNatural is false");
       }
 
       ierr = DMPlexGlobalToNaturalBegin(dm, global, natural);CHKERRQ(ierr);
@@ -269,8 +268,7 @@ PetscErrorCode TDyDiscretizationNaturalToGlobal(TDyDiscretizationType *discretiz
     case PLEX_TYPE:
       ierr = DMGetUseNatural(dm, &useNatural); CHKERRQ(ierr);
       if (!useNatural) {
-        PetscPrintf(PETSC_COMM_WORLD,"TDyNaturalToGlobal cannot be performed as DMGetUseNatural is false");
-        exit(0);
+        SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_ARG_WRONGSTATE,"TDyNaturalToGlobal cannot be performed as DMGetUseNatural is false");
       }
 
       ierr = DMPlexNaturalToGlobalBegin(dm, natural, global);CHKERRQ(ierr);
-- 
2.43.0


From fba478dc82cc5590e1c23223c820b13a57b74df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:54 +0000
Subject: [PATCH 42/46] fix: write pressure and saturation in the same
 (natural) order, converted once

---
 src/tdyio.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 2953fe3..9f72d2d 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -427,7 +427,11 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
   CHKERRQ(ierr);
 
   if (tdy->io->format == PetscViewerASCIIFormat) {
-    ierr = TDyIOWriteAsciiViewer(p,time,zonalVarNames[0]);CHKERRQ(ierr);
+    Vec p_natural;
+    ierr = TDyCreateGlobalVector(tdy,&p_natural); CHKERRQ(ierr);
+    ierr = TDyGlobalToNatural(tdy, p, p_natural);CHKERRQ(ierr);
+    ierr = TDyIOWriteAsciiViewer(p_natural,time,zonalVarNames[0]);CHKERRQ(ierr);
+    ierr = VecDestroy(&p_natural);CHKERRQ(ierr);
     ierr = TDyIOWriteAsciiViewer(s,time,zonalVarNames[1]);CHKERRQ(ierr);
   }
   else if (tdy->io->format == ExodusFormat) {
@@ -448,7 +452,8 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
       ierr = TDyGlobalToNatural(tdy, p, p_natural);CHKERRQ(ierr);
 
       ierr = TDyCreateGlobalVector(tdy, &s_natural); CHKERRQ(ierr);
-      ierr = TDyGlobalToNatural(tdy, s, s_natural);CHKERRQ(ierr);
+      // s is in natural order already.
+      ierr = VecCopy(s, s_natural);CHKERRQ(ierr);
 
       ierr = TDyIOWriteHDF5Var(ofilename,dm,p_natural,zonalVarNames[0],time);CHKERRQ(ierr);
       ierr = TDyIOWriteHDF5Var(ofilename,dm,s_natural,zonalVarNames[1],time);CHKERRQ(ierr);
-- 
2.43.0


From 1bac859a7de5794a813089aee45f5b8244796ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:54 +0000
Subject: [PATCH 43/46] fix: number cells consecutively in natural order also
 when they have several unknowns

---
 src/fv/share/tdymeshplex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 9e35837..e51dcd6 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -629,7 +629,7 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
     ierr = VecGetArray(natural, &entries); CHKERRQ(ierr);
     for (PetscInt i = 0; i < natural_size; ++i) {
       if (i % num_fields == 0) {
-        entries[i] = i + cum_natural_size/num_fields - natural_size/num_fields;
+        entries[i] = (i + cum_natural_size - natural_size)/num_fields;
       }
       else {
         entries[i] = 0;
-- 
2.43.0


From bd1f92c526f992e6066bb237ca39c4a42afc6ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:02 +0000
Subject: [PATCH 44/46] fix: Batzle-Wang brine density has the term T*(80+3*T),
 not T*(80*3*T)

---
 src/materials/tdyeos.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/tdyeos.c b/src/materials/tdyeos.c
index 364e1c4..f4bf5e9 100644
--- a/src/materials/tdyeos.c
+++ b/src/materials/tdyeos.c
@@ -50,7 +50,7 @@ static PetscErrorCode ComputeWaterDensity_BatzleWang(
 		  1.3e-5*pow(T,3)*P*Pa_to_MPa - 0.333 * pow(P*Pa_to_MPa,2) - 0.002*T *pow(P*Pa_to_MPa,2));
   pw *= 1000.;
 
-  *den = pw + S*(0.668 + 0.44*S + 1e-6 * (300. *P*Pa_to_MPa - 2400.*P*Pa_to_MPa*S +T*(80.*3.*T-3300.*S -
+  *den = pw + S*(0.668 + 0.44*S + 1e-6 * (300. *P*Pa_to_MPa - 2400.*P*Pa_to_MPa*S +T*(80.+3.*T-3300.*S -
  						       13.*P*Pa_to_MPa + 47.*P*Pa_to_MPa*S)))*1000.;
 
   *dden_dP = 1.e-3*Pa_to_MPa*(489. - 2.*T + 0.016*pow(T,2) - 1.3e-5*pow(T,3) - 2.*0.333*P*Pa_to_MPa - 2.*0.002*T*P*Pa_to_MPa +
-- 
2.43.0


From b1d9ba7ddbecf50ecfce596b94742354b4714484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:02 +0000
Subject: [PATCH 45/46] fix: Batzle-Wang viscosity decreases with temperature
 (sign of 0.045 in the exponent)

---
 src/materials/tdyeos.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/tdyeos.c b/src/materials/tdyeos.c
index f4bf5e9..e40f7af 100644
--- a/src/materials/tdyeos.c
+++ b/src/materials/tdyeos.c
@@ -111,7 +111,7 @@ static PetscErrorCode ComputeWaterViscosity_BatzleWang(
 
   *vis = 0.1 +
          0.333 * S +
-         (1.65 + 91.9 *pow(S,3))*exp((-0.42*pow((pow(S,0.8)-0.17),2)+0.045)*pow(T,0.8));
+         (1.65 + 91.9 *pow(S,3))*exp(-(0.42*pow((pow(S,0.8)-0.17),2)+0.045)*pow(T,0.8));
   *vis *= 1e-3;
   *dvis_dP = 0.0;
   *d2vis_dP2 = 0.0;
-- 
2.43.0


From 6963d02cef5cc36ad1ecb59c414c4b59beb691bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:06 +0000
Subject: [PATCH 46/46] fix: allocate three components for the unit vectors
 between the cells of a face

---
 src/fv/share/tdymesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index ab0d93a..e039f30 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -292,7 +292,7 @@ PetscErrorCode AllocateFaces(
   ierr = TDyAllocate_RealArray_1D(&faces->dist,num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_RealArray_1D(&faces->dist_wt_up,num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_RealArray_2D(&faces->dist_up_dn,num_faces,2); CHKERRQ(ierr);
-  ierr = TDyAllocate_RealArray_2D(&faces->unit_vec_up_dn,num_faces,2); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_2D(&faces->unit_vec_up_dn,num_faces,3); CHKERRQ(ierr);
 
   ierr = TDyAllocate_TDyCoordinate_1D(num_faces, &faces->centroid); CHKERRQ(ierr);
   ierr = TDyAllocate_TDyVector_1D(num_faces, &faces->normal); CHKERRQ(ierr);
-- 
2.43.0

